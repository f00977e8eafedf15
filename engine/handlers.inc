    // run-time models of the C / C++ support library, and the harness interface
    void H(const std::string& n, Handler h) {
        handlerIdx[n] = handlers.size();
        handlers.push_back(h);
        handlerNames.push_back(n);
    }
    std::string uniq(State& s, const std::string& n) {
        int k = s.nameCount[n]++;
        return k ? n + "#" + std::to_string(k) : n;
    }
    Expr* inputVar(const std::string& n, bool fp, unsigned w) {
        auto& e = inputVars[n + (fp ? "/f" : "/i") + std::to_string(w)];
        if (!e) e = mkVar(n, fp, w);
        return e;
    }
    bool doFree(State& s, Val p, ObjKind want, const char* op) {
        if (!needInt(s, p, "deallocation")) return false;
        if (p.c == 0) return true;
        const MObj* o = s.mem.get(p.c >> 32);
        std::string m;
        if (!o) m = std::string(op) + " of an invalid pointer";
        else if (!o->alive) m = std::string("double ") + op;
        else if ((p.c & 0xffffffffull) != 0) m = std::string(op) + " of an interior pointer";
        else if (o->kind != want) m = std::string(op) + " of " + kindName(o->kind) + " memory";
        if (!m.empty()) { violation(s, "memory", m); s.done = true; return false; }
        s.mem.kill(p.c >> 32);
        return true;
    }
    Val fbits(const Val& v) { return v; }
    void doAssert(State& s, Val v, const std::string& msg, Expr* robust) {
        ++assertsChecked;
        assertSites[msg]++;
        if (v.t == T_UNDEF) { violation(s, "uninit", "assertion reads an uninitialised value: " + msg); s.done = true; return; }
        if (v.t == T_INT) {
            ++assertsConcrete;
            if (!v.c) { violation(s, "assert", msg); s.done = true; }
            return;
        }
        Expr* c = v.e;
        if (c->w != 1) c = eNot(eCmp(EQ, c, mkBV(0, c->w)));
        int k = knownTruth(s, c);
        if (k == 1) { ++assertsConcrete; return; }
        Res r = k == 0 ? R_SAT : checkSat(s.pc, eNot(c), nullptr, true);
        if (r == R_UNSAT) { ++assertsProved; return; }
        if (r == R_UNKNOWN) {
            // try to find a concrete witness; otherwise the obligation is undecided
            Model m;
            if (searchConcrete(s, eNot(c), m)) {
                Report rp;
                rp.kind = "assert"; rp.msg = msg; rp.where = where(s); rp.trace = backtrace(s);
                fillInputs(s, rp, &m);
                bool dup = false;
                for (auto& q : violations) if (q.kind == rp.kind && q.msg == msg && q.where == rp.where) { q.count++; if (q.count > 3) dup = true; }
                if (!dup) violations.push_back(rp);
                s.done = true;
            } else {
                if (trace) std::cerr << "UNDECIDED " << msg << " : " << exprStr(c, 7).substr(0, 1500) << "\n";
                inconc(s, "undecided", msg);
                addPc(s, c);
            }
            return;
        }
        violation(s, "assert", msg, eNot(c), robust);
        // continue on the passing side when it exists
        if (checkSat(s.pc, c, nullptr, true) == R_UNSAT) { s.done = true; return; }
        addPc(s, c);
    }
    Val rangeVar(State& s, const std::string& name0, unsigned w, Val lo, Val hi, bool any) {
        std::string name = uniq(s, name0);
        bool bounded = lo.t == T_FP && hi.t == T_FP && lo.d <= hi.d;
        char key[80] = "";
        if (bounded) snprintf(key, sizeof key, "/%a/%a", lo.d, hi.d);
        auto& slot = inputVars[name + key + "/f" + std::to_string(w)];
        if (!slot) {
            slot = mkVar(name, true, w);
            if (bounded) { g_vars[slot->c].lo = lo.d; g_vars[slot->c].hi = hi.d; }
        }
        Expr* v = slot;
        s.inputs.push_back({name, 'f', vE(v)});
        if (g_mode == FP_EXACT && !any) {
            addPc(s, eNot(eIsNan(v)));
            addPc(s, eFCmp(FLT, eF(FABS, v), mkFP(INFINITY, w)));
        }
        if (lo.t == T_FP && hi.t == T_FP && lo.d <= hi.d) {
            g_noIntervals = true;
            addPc(s, eFCmp(FLE, mkFP(lo.d, w), v));
            addPc(s, eFCmp(FLE, v, mkFP(hi.d, w)));
            g_noIntervals = false;
        }
        return vE(v);
    }
    void initHandlers() {
        auto nop = [](Engine&, State&, DInst&, std::vector<Val>&, Val& r) { r = vInt(0, 32); return true; };
        for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.prefetch",
                       "llvm.invariant.start", "llvm.invariant.end", "llvm.stackrestore", "__cxa_atexit", "printf", "puts", "fprintf", "putchar", "fflush",
                       "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv", "__cxa_free_exception", "llvm.var.annotation", "srand", "llvm.va_start", "llvm.va_end"})
            H(n, nop);
        H("llvm.stacksave", [](Engine&, State&, DInst&, std::vector<Val>&, Val& r) { r = vPtr(0); return true; });
        H("llvm.expect", [](Engine&, State&, DInst&, std::vector<Val>& a, Val& r) { r = a[0]; return true; });
        H("llvm.is.constant", [](Engine&, State&, DInst&, std::vector<Val>&, Val& r) { r = vInt(0, 1); return true; });
        H("llvm.launder.invariant.group", [](Engine&, State&, DInst&, std::vector<Val>& a, Val& r) { r = a[0]; return true; });
        H("llvm.strip.invariant.group", [](Engine&, State&, DInst&, std::vector<Val>& a, Val& r) { r = a[0]; return true; });
        H("llvm.objectsize", [](Engine&, State&, DInst& x, std::vector<Val>&, Val& r) { r = vInt(~0ull, x.w); return true; });
        auto mcpy = [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (!E.needPtr(s, a[0]) || !E.needPtr(s, a[1]) || !E.needInt(s, a[2], "memcpy size")) return false;
            if (a[2].c) {
                if (!E.access(s, a[1].c, a[2].c, false, "memcpy") || !E.access(s, a[0].c, a[2].c, true, "memcpy")) return false;
                E.copyMem(s, a[0].c, a[1].c, a[2].c);
            }
            r = a[0];
            return true;
        };
        H("llvm.memcpy", mcpy); H("llvm.memmove", mcpy); H("memcpy", mcpy); H("memmove", mcpy);
        auto mset = [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (!E.needPtr(s, a[0]) || !E.needInt(s, a[1], "memset value") || !E.needInt(s, a[2], "memset size")) return false;
            if (a[2].c) {
                if (!E.access(s, a[0].c, a[2].c, true, "memset")) return false;
                MObj* o = s.mem.getW(a[0].c >> 32);
                uint64_t off = a[0].c & 0xffffffffull;
                for (uint64_t i = 0; i < a[2].c; ++i) { o->data[off + i] = a[1].c; o->st[off + i] = 1; }
            }
            r = a[0];
            return true;
        };
        H("llvm.memset", mset); H("memset", mset);
        // ---- heap
        auto mkNew = [this](ObjKind k) {
            return [k](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
                if (!E.needInt(s, a[0], "allocation size")) return false;
                if (a[0].c > (1ull << 28)) {
                    if (k == OK_MALLOC) { r = vPtr(0); return true; }
                    E.pushFrame(s, E.M->getFunction("symx_rt_bad_alloc"), {});
                    return false;
                }
                r = vPtr(E.alloc(s, a[0].c, k));
                return true;
            };
        };
        H("_Znwm", mkNew(OK_NEW)); H("_Znam", mkNew(OK_NEWARR)); H("malloc", mkNew(OK_MALLOC));
        H("_ZnwmRKSt9nothrow_t", mkNew(OK_NEW)); H("_ZnamRKSt9nothrow_t", mkNew(OK_NEWARR));
        H("_ZnwmSt11align_val_t", mkNew(OK_NEW));
        H("calloc", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (!E.needInt(s, a[0], "size") || !E.needInt(s, a[1], "size")) return false;
            r = vPtr(E.alloc(s, a[0].c * a[1].c, OK_MALLOC, "", true));
            return true;
        });
        auto mkDel = [](ObjKind k, const char* op) {
            return [k, op](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) { return E.doFree(s, a[0], k, op); };
        };
        for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) H(n, mkDel(OK_NEW, "delete"));
        for (auto n : {"_ZdaPv", "_ZdaPvm"}) H(n, mkDel(OK_NEWARR, "delete[]"));
        H("free", mkDel(OK_MALLOC, "free"));
        // ---- process termination
        auto die = [](const char* m) {
            return [m](Engine& E, State& s, DInst&, std::vector<Val>&, Val&) { E.violation(s, "abort", m); s.done = true; return false; };
        };
        H("abort", die("abort() called"));
        H("_ZSt9terminatev", die("std::terminate called"));
        H("__cxa_pure_virtual", die("pure virtual function called"));
        H("__cxa_call_unexpected", die("exception specification violated"));
        H("__assert_fail", die("assert() failed in the library"));
        H("llvm.trap", die("trap"));
        H("exit", die("exit() called"));
        // ---- exceptions
        H("__cxa_allocate_exception", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) { r = vPtr(E.alloc(s, a[0].c, OK_EXC)); return true; });
        H("__cxa_throw", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) {
            ExcObj e;
            e.ti = a[1].c;
            e.dtor = a[2].c;
            s.exc[a[0].c] = e;
            E.unwind(s, a[0].c);
            return false;
        });
        H("__cxa_begin_catch", [](Engine&, State& s, DInst&, std::vector<Val>& a, Val& r) {
            s.exc[a[0].c].handlers++;
            s.T().caught.push_back(a[0].c);
            r = a[0];
            return true;
        });
        H("__cxa_get_exception_ptr", [](Engine&, State&, DInst&, std::vector<Val>& a, Val& r) { r = a[0]; return true; });
        H("__cxa_end_catch", [](Engine& E, State& s, DInst&, std::vector<Val>&, Val&) {
            if (s.T().caught.empty()) return true;
            uint64_t p = s.T().caught.back();
            s.T().caught.pop_back();
            ExcObj& e = s.exc[p];
            if (e.handlers < 0) { e.handlers++; return true; }  // being rethrown
            if (--e.handlers == 0) {
                uint64_t d = e.dtor;
                s.exc.erase(p);
                auto it = E.faddr.find(d);
                if (d && it != E.faddr.end() && !it->second->isDeclaration()) { E.pushFrame(s, it->second, {vPtr(p)}); return false; }
            }
            return true;
        });
        H("__cxa_rethrow", [](Engine& E, State& s, DInst&, std::vector<Val>&, Val&) {
            if (s.T().caught.empty()) { E.violation(s, "abort", "rethrow without exception"); s.done = true; return false; }
            uint64_t p = s.T().caught.back();
            s.exc[p].handlers = -s.exc[p].handlers;
            E.unwind(s, p);
            return false;
        });
        H("llvm.eh.typeid.for", [](Engine& E, State&, DInst&, std::vector<Val>& a, Val& r) { r = vInt(E.tiId(a[0].c), 32); return true; });
        H("__cxa_guard_acquire", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            Val b = E.loadScalar(s, a[0].c, 1, 8, false);
            r = vInt(b.c == 0, 32);
            return true;
        });
        H("__cxa_guard_release", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) { E.storeScalar(s, a[0].c, 1, vInt(1, 8)); return true; });
        H("__cxa_guard_abort", nop);
        H("__dynamic_cast", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (!E.needPtr(s, a[0])) return false;
            uint64_t vt = E.rd64(s, a[0].c), ti = E.rd64(s, vt - 8);
            r = vPtr(E.typeMatches(s, ti, a[2].c) ? a[0].c : 0);
            return true;
        });
        // ---- overflow intrinsics
        auto ovf = [](unsigned op, bool sg) {
            return [op, sg](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
                unsigned w = a[0].w;
                if (!E.needInt(s, a[0], "arith") || !E.needInt(s, a[1], "arith")) return false;
                __int128 x = sg ? (__int128)sextW(a[0].c, w) : (__int128)a[0].c, y = sg ? (__int128)sextW(a[1].c, w) : (__int128)a[1].c;
                __int128 z = op == 0 ? x + y : op == 1 ? x - y : x * y;
                Val v = vInt((uint64_t)z, w);
                __int128 back = sg ? (__int128)sextW(v.c, w) : (__int128)v.c;
                r = vAgg({v, vInt(back != z, 1)});
                return true;
            };
        };
        H("llvm.uadd.with.overflow", ovf(0, false)); H("llvm.usub.with.overflow", ovf(1, false)); H("llvm.umul.with.overflow", ovf(2, false));
        H("llvm.sadd.with.overflow", ovf(0, true)); H("llvm.ssub.with.overflow", ovf(1, true)); H("llvm.smul.with.overflow", ovf(2, true));
        auto mm = [](unsigned pred) {
            return [pred](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
                Val c = E.icmp(pred, a[0], a[1]);
                if (c.t == T_UNDEF) { r = c; r.w = a[0].w; return true; }
                if (c.t == T_INT) r = c.c ? a[0] : a[1];
                else r = vE(eIte(c.e, toE(a[0]), toE(a[1])));
                return true;
            };
        };
        H("llvm.umax", mm(CmpInst::ICMP_UGT)); H("llvm.umin", mm(CmpInst::ICMP_ULT)); H("llvm.smax", mm(CmpInst::ICMP_SGT)); H("llvm.smin", mm(CmpInst::ICMP_SLT));
        H("llvm.ctlz", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (!E.needInt(s, a[0], "ctlz")) return false;
            unsigned n = 0;
            for (int i = a[0].w - 1; i >= 0 && !((a[0].c >> i) & 1); --i) ++n;
            r = vInt(n, a[0].w);
            return true;
        });
        H("llvm.cttz", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (!E.needInt(s, a[0], "cttz")) return false;
            unsigned n = 0;
            for (int i = 0; i < a[0].w && !((a[0].c >> i) & 1); ++i) ++n;
            r = vInt(n, a[0].w);
            return true;
        });
        H("llvm.abs", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (!E.needInt(s, a[0], "abs")) return false;
            int64_t v = sextW(a[0].c, a[0].w);
            r = vInt(v < 0 ? -v : v, a[0].w);
            return true;
        });
        // ---- math
        auto m1 = [](const char* n) {
            std::string nm = n;
            return [nm](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) { r = E.math1(s, nm, a[0], x.w); return !s.done; };
        };
        for (auto n : {"sqrt", "fabs", "exp", "log", "atan", "tan", "sin", "cos", "floor", "ceil"}) {
            H(n, m1(n));
            H(std::string(n) + "f", m1(n));
            H(std::string("llvm.") + n, m1(n));
        }
        auto powf = [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            if (a[0].t == T_UNDEF || a[1].t == T_UNDEF) { r = vUndef(true, x.w); return true; }
            if (a[0].t == T_SYM && a[1].t == T_FP && a[1].d == std::floor(a[1].d) && a[1].d >= 0 && a[1].d <= 8 && g_mode == FP_REAL) {
                Val v = vFP(1, x.w);
                for (int i = 0; i < (int)a[1].d; ++i) v = E.fbin(s, Instruction::FMul, v, a[0], x.w);
                r = v;
                return true;
            }
            if (g_mode == FP_REAL && a[1].t == T_FP && a[1].d == std::floor(a[1].d) && std::fabs(a[1].d) <= 32 && a[0].t == T_FP && a[0].d != 0 && std::isfinite(a[0].d)) {
                mpq_class q = 1, b(a[0].d);
                for (int i = 0; i < std::fabs(a[1].d); ++i) q *= b;
                if (a[1].d < 0) q = 1 / q;
                Expr* e = mkQ(q, x.w);
                r = e->op == CONST_FP ? vFP(asD(e), x.w) : vE(e);
                return true;
            }
            if (a[0].t == T_FP && a[1].t == T_FP) { r = vFP(std::pow(a[0].d, a[1].d), x.w); return true; }
            r = vE(eUF("pow", toE(a[0]), toE(a[1]), x.w));
            return true;
        };
        H("pow", powf); H("powf", powf); H("llvm.pow", powf); H("llvm.powi", powf);
        H("atan2", [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            if (a[0].t == T_UNDEF || a[1].t == T_UNDEF) { r = vUndef(true, x.w); return true; }
            r = vE(eUF("atan2", toE(a[0]), toE(a[1]), x.w)); return true; });
        H("llvm.fmuladd", [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            Val m = E.fbin(s, Instruction::FMul, a[0], a[1], x.w);
            if (s.done) return false;
            r = E.fbin(s, Instruction::FAdd, m, a[2], x.w);
            return !s.done;
        });
        H("llvm.fma", handlers[handlerIdx["llvm.fmuladd"]]); H("fma", handlers[handlerIdx["llvm.fmuladd"]]); H("fmaf", handlers[handlerIdx["llvm.fmuladd"]]);
        auto hyp = [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            Val p = E.fbin(s, Instruction::FMul, a[0], a[0], x.w);
            if (s.done) return false;
            Val q = E.fbin(s, Instruction::FMul, a[1], a[1], x.w);
            if (s.done) return false;
            Val t = E.fbin(s, Instruction::FAdd, p, q, x.w);
            if (s.done) return false;
            r = E.math1(s, "sqrt", t, x.w);
            return !s.done;
        };
        H("hypot", hyp); H("hypotf", hyp);
        auto l1p = [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            Val t = E.fbin(s, Instruction::FAdd, vFP(1, x.w), a[0], x.w);
            if (s.done) return false;
            r = E.math1(s, "log", t, x.w);
            return !s.done;
        };
        H("log1p", l1p); H("log1pf", l1p);
        auto em1 = [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            Val t = E.math1(s, "exp", a[0], x.w);
            if (s.done) return false;
            r = E.fbin(s, Instruction::FSub, t, vFP(1, x.w), x.w);
            return !s.done;
        };
        H("expm1", em1); H("expm1f", em1);
        auto fmm = [](bool mx) {
            return [mx](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
                Val c = E.fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a[0], a[1]);
                if (c.t == T_UNDEF) { r = vUndef(true, x.w); return true; }
                if (c.t == T_INT) { r = c.c ? a[0] : a[1]; return true; }
                if (g_mode == FP_REAL) { int d = E.decide(s, c.e); r = d ? a[0] : a[1]; return !s.done; }
                r = vE(eIte(c.e, toE(a[0]), toE(a[1])));
                return true;
            };
        };
        for (auto n : {"fmax", "fmaxf", "llvm.maxnum"}) H(n, fmm(true));
        for (auto n : {"fmin", "fminf", "llvm.minnum"}) H(n, fmm(false));
        H("llvm.copysign", [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            if (a[0].t == T_FP && a[1].t == T_FP) { r = vFP(std::copysign(a[0].d, a[1].d), x.w); return true; }
            E.inconc(s, "unsupported", "copysign"); s.done = true; return false;
        });
        H("llvm.is.fpclass", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            unsigned m = a[1].c;
            if (a[0].t == T_UNDEF) { r = vUndef(false, 1); return true; }
            Expr* e = toE(a[0]);
            Expr* isn = eIsNan(e);
            Expr* pinf = eFCmp(FEQ, e, mkFP(INFINITY, e->w));
            Expr* ninf = eFCmp(FEQ, e, mkFP(-INFINITY, e->w));
            Expr* res = mkBV(0, 1);
            if ((m & 3) == 3) res = eOr(res, isn);
            if (m & 0x200) res = eOr(res, pinf);
            if (m & 0x4) res = eOr(res, ninf);
            if ((m & 0x1f8) == 0x1f8) res = eOr(res, eAnd(eNot(isn), eAnd(eNot(pinf), eNot(ninf))));
            else if (m & 0x1f8) { E.inconc(s, "unsupported", "is.fpclass"); s.done = true; return false; }
            r = vE(res);
            return true;
        });
        H("modf", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (a[0].t != T_FP) { E.inconc(s, "unsupported", "modf"); s.done = true; return false; }
            double ip;
            double f = std::modf(a[0].d, &ip);
            E.storeScalar(s, a[1].c, 8, vFP(ip, 64));
            r = vFP(f, 64);
            return true;
        });
        auto rnd = [](Engine& E, State& s, DInst& x, std::vector<Val>&, Val& r) {
            std::string name = E.uniq(s, "rand");
            Expr* v = E.inputVar(name, false, x.w);
            s.inputs.push_back({name, 'i', vE(v)});
            E.addPc(s, eCmp(ULE, v, mkBV(2147483647, x.w)));
            if (g_mode == FP_REAL) {
                Expr*& rv = E.inputVars["real:" + name];
                if (!rv) rv = mkVar("real:" + name, true, 64, VK_AUX);
                E.addPc(s, eFCmp(FLE, mkFP(0, 64), rv));
                E.addPc(s, eFCmp(FLE, rv, mkFP(2147483647.0, 64)));
            }
            r = vE(v);
            return true;
        };
        H("rand", rnd); H("random", rnd);
        // ---- formatting: contents are outside every claim
        auto fmt = [](int bufArg, int sizeArg) {
            return [bufArg, sizeArg](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
                r = vInt(1, 32);
                if (sizeArg >= 0 && a[sizeArg].c < 2) return true;
                if (!E.needPtr(s, a[bufArg]) || !E.access(s, a[bufArg].c, 2, true, "format")) return false;
                E.storeScalar(s, a[bufArg].c, 1, vInt('0', 8));
                E.storeScalar(s, a[bufArg].c + 1, 1, vInt(0, 8));
                return true;
            };
        };
        H("snprintf", fmt(0, 1)); H("vsnprintf", fmt(0, 1)); H("sprintf", fmt(0, -1));
        // ---- threads
        H("pthread_mutex_lock", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            if (E.yieldPoint(s)) return false;
            int& o = s.mutexes[a[0].c];
            if (o) {
                if (o == s.cur + 1) { E.violation(s, "deadlock", "mutex locked twice by the same thread"); s.done = true; return false; }
                s.T().status = 2;
                s.T().waitOn = a[0].c;
                E.schedule(s, true);
                return false;
            }
            o = s.cur + 1;
            r = vInt(0, 32);
            return true;
        });
        H("pthread_mutex_unlock", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            auto it = s.mutexes.find(a[0].c);
            if (it == s.mutexes.end() || it->second == 0) { E.violation(s, "mutex", "unlock of a mutex that is not locked"); s.done = true; return false; }
            if (it->second != s.cur + 1) { E.violation(s, "mutex", "unlock of a mutex owned by another thread"); s.done = true; return false; }
            it->second = 0;
            for (auto& t : s.th) if (t.status == 2 && t.waitOn == a[0].c) t.status = 0;
            r = vInt(0, 32);
            return true;
        });
        H("symx_thread_create", [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            int id = s.th.size();
            auto it = E.faddr.find(a[0].c);
            if (it == E.faddr.end()) { s.done = true; return false; }
            s.th.emplace_back();
            int self = s.cur;
            s.cur = id;
            E.pushFrame(s, it->second, {a[1]});
            s.cur = self;
            r = vInt(id, 64);
            if (E.schedMode == 1) return true;
            if (E.schedMode == 0) {  // run the new thread first
                E.finishCall(s, &r);
                s.cur = id;
                return false;
            }
            E.finishCall(s, &r);
            E.schedule(s, false);
            return false;
        });
        H("symx_thread_join", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) {
            if (!E.needInt(s, a[0], "join")) return false;
            int id = a[0].c;
            if (id <= 0 || id >= (int)s.th.size()) { E.violation(s, "thread", "join of an invalid thread"); s.done = true; return false; }
            if (s.th[id].status == 1) return true;
            s.T().status = 3;
            s.T().waitOn = id;
            E.schedule(s, true);
            return false;
        });
        H("symx_thread_self", [](Engine&, State& s, DInst&, std::vector<Val>&, Val& r) { r = vInt(s.cur, 64); return true; });
        H("symx_yield", [](Engine& E, State& s, DInst&, std::vector<Val>&, Val&) { return !E.yieldPoint(s); });
        // ---- harness interface
        H("symx_double", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) { r = E.rangeVar(s, E.cstr(s, a[0].c), 64, a[1], a[2], false); return true; });
        H("symx_float", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) { r = E.rangeVar(s, E.cstr(s, a[0].c), 32, a[1], a[2], false); return true; });
        H("symx_any_double", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) { r = E.rangeVar(s, E.cstr(s, a[0].c), 64, Val(), Val(), true); return true; });
        H("symx_any_float", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) { r = E.rangeVar(s, E.cstr(s, a[0].c), 32, Val(), Val(), true); return true; });
        auto symi = [](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            std::string name = E.uniq(s, E.cstr(s, a[0].c));
            Expr* v = E.inputVar(name, false, x.w);
            s.inputs.push_back({name, 'i', vE(v)});
            E.addPc(s, eCmp(SLE, toE(a[1]), v));
            E.addPc(s, eCmp(SLE, v, toE(a[2])));
            r = vE(v);
            return true;
        };
        H("symx_int", symi); H("symx_long", symi);
        // an integer that is only used as a real number
        H("symx_number", [symi](Engine& E, State& s, DInst& x, std::vector<Val>& a, Val& r) {
            if (!symi(E, s, x, a, r)) return false;
            if (g_mode != FP_REAL || a[1].t != T_INT || a[2].t != T_INT) return true;
            Expr*& rv = E.inputVars["real:" + s.inputs.back().name];
            if (!rv) rv = mkVar("real:" + s.inputs.back().name, true, 64, VK_AUX);
            E.addPc(s, eFCmp(FLE, mkFP((double)sextW(a[1].c, a[1].w), 64), rv));
            E.addPc(s, eFCmp(FLE, rv, mkFP((double)sextW(a[2].c, a[2].w), 64)));
            return true;
        });
        H("symx_choose", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val& r) {
            std::string name = E.uniq(s, E.cstr(s, a[0].c));
            if (a[1].t != T_INT || a[1].c == 0) { s.done = true; return false; }
            int n = a[1].c;
            std::vector<int> vals;
            bool sh = s.shardChoices == 0 && E.shardN > 1;
            for (int i = 0; i < n; ++i) if (!sh || i % E.shardN == E.shardI) vals.push_back(i);
            s.shardChoices++;
            if (vals.empty()) { s.done = true; return false; }
            for (size_t i = vals.size(); i-- > 1;) {
                auto o = std::make_unique<State>(s);
                ++E.forks;
                o->inputs.push_back({name, 'c', vInt(vals[i], 32)});
                Val rv = vInt(vals[i], 32);
                E.finishCall(*o, &rv);
                E.work.push_back(std::move(o));
            }
            s.inputs.push_back({name, 'c', vInt(vals[0], 32)});
            r = vInt(vals[0], 32);
            return true;
        });
        H("symx_assume", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) {
            if (a[0].t == T_UNDEF) { E.inconc(s, "harness", "assume of an undefined value"); s.done = true; return false; }
            if (a[0].t == T_INT) { if (!a[0].c) { s.done = true; ++E.infeasible; } return !s.done; }
            Expr* c = a[0].e;
            if (c->w != 1) c = eNot(eCmp(EQ, c, mkBV(0, c->w)));
            if (checkSat(s.pc, c, nullptr, true) == R_UNSAT) { s.done = true; ++E.infeasible; return false; }
            E.addPc(s, c);
            return true;
        });
        H("symx_assert", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) {
            E.doAssert(s, a[0], E.cstr(s, a[1].c), nullptr);
            return !s.done;
        });
        H("symx_close", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) {
            std::string msg = E.cstr(s, a[2].c);
            if (a[0].t == T_UNDEF || a[1].t == T_UNDEF) { E.doAssert(s, vUndef(false, 1), msg, nullptr); return !s.done; }
            auto nonf = [](const Val& v) { return v.t == T_FP && !std::isfinite(v.d); };
            if (nonf(a[0]) || nonf(a[1])) {
                bool eq = a[0].t == T_FP && a[1].t == T_FP && (a[0].d == a[1].d || (std::isnan(a[0].d) && std::isnan(a[1].d)));
                E.doAssert(s, vInt(eq, 1), msg, nullptr);
                return !s.done;
            }
            Expr *x = toE(a[0]), *y = toE(a[1]);
            if (g_mode == FP_EXACT) {
                Expr* c = eOr(eFCmp(FEQ, x, y), eAnd(eIsNan(x), eIsNan(y)));
                E.doAssert(s, vE(c), msg, nullptr);
                return !s.done;
            }
            if (isConst(x) && isConst(y)) {  // rounding of constants is outside the claim
                double u = x->op == CONST_Q ? x->q->get_d() : asD(x), v = y->op == CONST_Q ? y->q->get_d() : asD(y);
                bool ok = std::fabs(u - v) <= 1e-9 * std::max(1.0, std::max(std::fabs(u), std::fabs(v)));
                E.doAssert(s, vInt(ok, 1), msg, nullptr);
                return !s.done;
            }
            Expr* c = eFCmp(FEQ, x, y);
            int kt = E.knownTruth(s, c);
            Res r0 = kt == 1 ? R_UNSAT : kt == 0 ? R_SAT : checkSat(s.pc, eNot(c), nullptr, true);
            if (r0 == R_UNSAT) { E.doAssert(s, vE(c), msg, nullptr); return !s.done; }
            // not an identity over the reals: allow for the rounding of the constants in the code
            Expr* d = eF(FSUB, x, y);
            Expr *t1 = mkFP(1e-5, 64), *ys = eF(FMUL, y, t1);
            Expr* out = eOr(eAnd(eFCmp(FLT, eF(FADD, t1, ys), d), eFCmp(FLT, eF(FSUB, t1, ys), d)),
                            eAnd(eFCmp(FLT, eF(FADD, t1, ys), eF(FNEG, d)), eFCmp(FLT, eF(FSUB, t1, ys), eF(FNEG, d))));
            uint64_t pr = E.assertsProved + E.assertsConcrete;
            Expr* rob = eOr(eFCmp(FLT, mkFP(0.015625, 64), d), eFCmp(FLT, d, mkFP(-0.015625, 64)));
            Expr* ok = eNot(out);
            E.doAssert(s, ok->op == CONST_BV ? vInt(ok->c, 1) : vE(ok), msg, rob);
            if (E.assertsProved + E.assertsConcrete > pr) ++E.assertsTol;
            return !s.done;
        });
        H("symx_fail", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) {
            E.assertsChecked++;
            E.violation(s, "assert", E.cstr(s, a[0].c));
            s.done = true;
            return false;
        });
        H("symx_reach", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) { s.reached.insert(E.cstr(s, a[0].c)); return true; });
        H("symx_exact", [](Engine&, State&, DInst&, std::vector<Val>&, Val& r) { r = vInt(g_mode == FP_EXACT, 32); return true; });
        H("symx_native", [](Engine&, State&, DInst&, std::vector<Val>&, Val& r) { r = vInt(0, 32); return true; });
        H("symx_no_leak", [](Engine&, State& s, DInst&, std::vector<Val>&, Val&) { s.expectNoLeak = true; return true; });
        H("symx_live", [](Engine&, State& s, DInst&, std::vector<Val>&, Val& r) {
            uint64_t n = 0;
            for (uint64_t id = s.startId; id < s.mem.next; ++id) {
                const MObj* o = s.mem.get(id);
                if (o && o->alive && (o->kind == OK_NEW || o->kind == OK_NEWARR)) ++n;
            }
            r = vInt(n, 64);
            return true;
        });
        H("symx_dbg", [](Engine& E, State& s, DInst&, std::vector<Val>& a, Val&) {
            if (!E.trace) return true;
            std::cerr << "dbg " << E.cstr(s, a[0].c) << " = ";
            if (a[1].t == T_UNDEF) std::cerr << "undef\n";
            else std::cerr << exprStr(toE(a[1]), 8).substr(0, 2000) << "\n";
            return true;
        });
    }
