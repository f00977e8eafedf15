// symx: bounded symbolic executor for LLVM-18 bitcode with an SMT back end.
#include "mem.h"
#include "solver.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
typedef ::Obj MObj;

static double nowS() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- decoded program
struct DBlock;
struct DFn;
struct Engine;
struct State;
struct DInst {
    const Instruction* I;
    unsigned op;
    int dst = -1;
    std::vector<int> ops;          // operand slots (>=0 register, <0 constant)
    uint64_t aux = 0;              // size / offset / predicate
    unsigned w = 0;                // result width (scalar)
    bool fp = false;
    std::vector<std::pair<int, int64_t>> gep;  // (slot, scale)
    std::vector<unsigned> idx;     // extract/insertvalue indices
    DBlock* t0 = nullptr;
    DBlock* t1 = nullptr;
    std::vector<std::pair<uint64_t, DBlock*>> cases;
    Function* callee = nullptr;    // direct callee
    int handler = -1;
    bool isInvoke = false;
};
struct DPhi { int dst; std::vector<std::pair<DBlock*, int>> in; };
struct DBlock { const BasicBlock* bb; std::vector<DPhi> phis; std::vector<DInst> insts; DFn* fn; };
struct DFn {
    Function* F;
    std::string name, pretty;
    std::vector<DBlock*> blocks;
    int nslots = 0;
    std::vector<Val> consts;
    uint64_t count = 0, calls = 0;
};
struct Frame {
    DFn* fn;
    DBlock* bb;
    unsigned pc;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
};
struct ExcObj { uint64_t ti = 0, dtor = 0; int handlers = 0; };
struct Thread {
    std::vector<Frame> stack;
    int status = 0;        // 0 runnable, 1 finished, 2 waiting for mutex, 3 waiting for join
    uint64_t waitOn = 0;
    std::vector<uint64_t> caught;
    uint64_t lpPtr = 0;
    uint32_t lpSel = 0;
    bool started = false;
    bool skipYield = false;
};
struct Input { std::string name; char kind; Val v; };
struct State {
    Mem mem;
    std::vector<Thread> th;
    int cur = 0;
    std::vector<Expr*> pc;
    std::unordered_map<Expr*, bool> known;
    std::vector<Input> inputs;
    std::map<std::string, int> nameCount;
    std::map<uint64_t, ExcObj> exc;
    std::map<uint64_t, int> mutexes;  // addr -> owner+1
    std::vector<Function*> script;
    unsigned scriptPos = 0;
    uint64_t steps = 0;
    int unknownBranches = 0;
    int concretized = 0;
    uint64_t startId = 0;
    bool expectNoLeak = false;
    int preempt = 0;
    bool done = false;
    std::set<std::string> reached;
    int shardChoices = 0;
    bool inHarness = false;
    Thread& T() { return th[cur]; }
    Frame& F() { return th[cur].stack.back(); }
};

struct Report { std::string kind, msg, where, trace; std::vector<std::pair<std::string, std::string>> inputs; bool solverUnknown = false; int count = 1; };

struct Engine {
    LLVMContext llctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    std::unordered_map<const Function*, DFn*> dfns;
    std::unordered_map<const GlobalValue*, uint64_t> gaddr;
    std::unordered_map<uint64_t, Function*> faddr;
    std::unordered_map<uint64_t, std::string> extNames;
    std::map<uint64_t, uint32_t> tiIds;
    std::unordered_map<std::string, int> handlerIdx;
    typedef std::function<bool(Engine&, State&, DInst&, std::vector<Val>&, Val&)> Handler;
    std::vector<Handler> handlers;
    std::vector<std::string> handlerNames;
    std::vector<std::unique_ptr<State>> work;
    std::vector<Report> violations, inconclusive;
    std::map<std::string, std::string> stubs;
    std::set<std::string> stubsUsed;
    // options
    uint64_t maxSteps = 400000000, maxPaths = 2000000;
    double maxTime = 600, t0 = 0;
    int maxViol = 8;
    int schedMode = 0;   // 0 run at create, 1 run at join, 2 explore
    int preemptBound = 2;
    int shardI = 0, shardN = 1;
    bool trace = false;
    // stats
    int wantModels = 0; uint64_t modelStride = 1;
    std::vector<Report> models;
    uint64_t paths = 0, completed = 0, infeasible = 0, forks = 0, totalSteps = 0, assertsChecked = 0, assertsConcrete = 0, assertsProved = 0, assertsTol = 0, memChecks = 0, objs = 0;
    std::map<std::string, uint64_t> reach;
    std::map<std::string, uint64_t> assertSites;
    std::map<std::string, Expr*> inputVars;
    uint64_t rangeVars = 0;
    bool timeUp = false;
    std::vector<std::string> samplePaths;

    // ------------------------------------------------------------ decoding
    Val constVal(const Constant* c) {
        Type* ty = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() > 64) { Val v = vInt(ci->getValue().extractBitsAsZExtValue(64, 0), 64); v.w = ci->getBitWidth(); return v; }
            return vInt(ci->getZExtValue(), ci->getBitWidth());
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            if (ty->isFloatTy()) return vFP(cf->getValueAPF().convertToFloat(), 32);
            return vFP(cf->getValueAPF().convertToDouble(), 64);
        }
        if (isa<ConstantPointerNull>(c)) return vPtr(0);
        if (isa<UndefValue>(c)) {
            if (ty->isStructTy() || ty->isArrayTy()) return zeroAgg(ty, true);
            return vUndef(ty->isFloatingPointTy(), ty->isPointerTy() ? 64 : ty->getPrimitiveSizeInBits());
        }
        if (isa<ConstantAggregateZero>(c)) return zeroAgg(ty, false);
        if (auto* cs = dyn_cast<ConstantAggregate>(c)) {
            std::vector<Val> v;
            for (unsigned i = 0; i < cs->getNumOperands(); ++i) v.push_back(constVal(cast<Constant>(cs->getOperand(i))));
            return vAgg(v);
        }
        if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
        if (auto* gv = dyn_cast<GlobalValue>(c)) return vPtr(globalAddr(gv));
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
                Val b = constVal(ce->getOperand(0));
                return vPtr(b.c + off.getSExtValue());
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                Val b = constVal(ce->getOperand(0));
                return vInt(b.c, ty->isPointerTy() ? 64 : ty->getIntegerBitWidth());
            }
            case Instruction::Sub: return vInt(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, ty->getIntegerBitWidth());
            case Instruction::Add: return vInt(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, ty->getIntegerBitWidth());
            case Instruction::Trunc: return vInt(constVal(ce->getOperand(0)).c, ty->getIntegerBitWidth());
            case Instruction::ICmp: {
                uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
                bool r = ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b;
                return vInt(r, 1);
            }
            default: break;
            }
        }
        std::string s;
        raw_string_ostream os(s);
        c->print(os);
        std::cerr << "unsupported constant: " << s << "\n";
        return vUndef(false, 64);
    }
    Val zeroAgg(Type* ty, bool undef) {
        if (ty->isStructTy()) {
            std::vector<Val> v;
            for (unsigned i = 0; i < ty->getStructNumElements(); ++i) v.push_back(zeroAgg(ty->getStructElementType(i), undef));
            return vAgg(v);
        }
        if (ty->isArrayTy()) {
            std::vector<Val> v(ty->getArrayNumElements(), zeroAgg(ty->getArrayElementType(), undef));
            return vAgg(v);
        }
        unsigned w = ty->isPointerTy() ? 64 : ty->getPrimitiveSizeInBits();
        if (undef) return vUndef(ty->isFloatingPointTy(), w);
        if (ty->isFloatingPointTy()) return vFP(0, w);
        return vInt(0, w);
    }
    State* initState = nullptr;
    uint64_t globalAddr(const GlobalValue* g) {
        auto it = gaddr.find(g);
        if (it != gaddr.end()) return it->second;
        if (auto* ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee()).c;
        std::cerr << "late global " << g->getName().str() << "\n";
        return 0;
    }
    DFn* dfn(Function* F) {
        auto it = dfns.find(F);
        if (it != dfns.end()) return it->second;
        DFn* d = new DFn;
        dfns[F] = d;
        d->F = F;
        d->name = F->getName().str();
        d->pretty = demangle(d->name);
        DenseMap<const Value*, int> slot;
        std::unordered_map<const Constant*, int> cslot;
        int n = 0;
        for (auto& a : F->args()) slot[&a] = n++;
        std::unordered_map<const BasicBlock*, DBlock*> bm;
        for (auto& bb : *F) {
            DBlock* b = new DBlock;
            b->bb = &bb;
            b->fn = d;
            bm[&bb] = b;
            d->blocks.push_back(b);
            for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++;
        }
        d->nslots = n;
        auto opnd = [&](const Value* v) -> int {
            if (auto* c = dyn_cast<Constant>(v)) {
                auto it = cslot.find(c);
                if (it != cslot.end()) return it->second;
                d->consts.push_back(constVal(c));
                int id = -(int)d->consts.size();
                cslot[c] = id;
                return id;
            }
            auto it = slot.find(v);
            if (it == slot.end()) { d->consts.push_back(vUndef(false, 64)); return -(int)d->consts.size(); }  // metadata etc.
            return it->second;
        };
        for (auto& bb : *F) {
            DBlock* b = bm[&bb];
            for (auto& I : bb) {
                if (auto* ph = dyn_cast<PHINode>(&I)) {
                    DPhi p;
                    p.dst = slot[&I];
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
                        p.in.push_back({bm[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
                    b->phis.push_back(p);
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                DInst x;
                x.I = &I;
                x.op = I.getOpcode();
                if (!I.getType()->isVoidTy()) x.dst = slot[&I];
                Type* ty = I.getType();
                x.fp = ty->isFloatingPointTy();
                x.w = ty->isPointerTy() ? 64 : ty->getPrimitiveSizeInBits().getFixedValue();
                switch (x.op) {
                case Instruction::Br: {
                    auto* br = cast<BranchInst>(&I);
                    x.t0 = bm[br->getSuccessor(0)];
                    if (br->isConditional()) { x.ops.push_back(opnd(br->getCondition())); x.t1 = bm[br->getSuccessor(1)]; }
                    break;
                }
                case Instruction::Switch: {
                    auto* sw = cast<SwitchInst>(&I);
                    x.ops.push_back(opnd(sw->getCondition()));
                    x.t0 = bm[sw->getDefaultDest()];
                    for (auto& cs : sw->cases()) x.cases.push_back({cs.getCaseValue()->getZExtValue(), bm[cs.getCaseSuccessor()]});
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto* cb = cast<CallBase>(&I);
                    for (unsigned i = 0; i < cb->arg_size(); ++i) x.ops.push_back(opnd(cb->getArgOperand(i)));
                    Value* cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                    x.callee = dyn_cast<Function>(cv);
                    if (!x.callee) x.ops.push_back(opnd(cb->getCalledOperand()));
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                        x.isInvoke = true;
                        x.t0 = bm[inv->getNormalDest()];
                        x.t1 = bm[inv->getUnwindDest()];
                    }
                    break;
                }
                case Instruction::Alloca: {
                    auto* al = cast<AllocaInst>(&I);
                    x.aux = DL->getTypeAllocSize(al->getAllocatedType());
                    x.ops.push_back(opnd(al->getArraySize()));
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto* gp = cast<GetElementPtrInst>(&I);
                    x.ops.push_back(opnd(gp->getPointerOperand()));
                    int64_t off = 0;
                    for (auto gi = gep_type_begin(gp), ge = gep_type_end(gp); gi != ge; ++gi) {
                        Value* iv = gi.getOperand();
                        if (StructType* st = gi.getStructTypeOrNull()) {
                            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
                        } else {
                            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(iv)) off += ci->getSExtValue() * sc;
                            else x.gep.push_back({opnd(iv), sc});
                        }
                    }
                    x.aux = (uint64_t)off;
                    break;
                }
                case Instruction::ExtractValue: {
                    auto* ev = cast<ExtractValueInst>(&I);
                    x.ops.push_back(opnd(ev->getAggregateOperand()));
                    x.idx.assign(ev->idx_begin(), ev->idx_end());
                    break;
                }
                case Instruction::InsertValue: {
                    auto* ev = cast<InsertValueInst>(&I);
                    x.ops.push_back(opnd(ev->getAggregateOperand()));
                    x.ops.push_back(opnd(ev->getInsertedValueOperand()));
                    x.idx.assign(ev->idx_begin(), ev->idx_end());
                    break;
                }
                default:
                    for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) x.ops.push_back(opnd(o));
                    if (auto* cmp = dyn_cast<CmpInst>(&I)) x.aux = cmp->getPredicate();
                    if (auto* ld = dyn_cast<LoadInst>(&I)) x.aux = DL->getTypeStoreSize(ld->getType());
                    break;
                }
                b->insts.push_back(std::move(x));
            }
        }
        return d;
    }

    // ------------------------------------------------------------ helpers
    Val& val(State& s, int o) {
        Frame& f = s.F();
        return o >= 0 ? f.regs[o] : f.fn->consts[-1 - o];
    }
    std::string where(State& s) {
        if (s.T().stack.empty()) return "?";
        // innermost frame that carries an xmm source location
        std::string first;
        for (auto it = s.T().stack.rbegin(); it != s.T().stack.rend(); ++it) {
            std::string l = loc(*it);
            if (first.empty()) first = l;
            if (l.find("xmm") != std::string::npos || l.find("harness") != std::string::npos) return l;
        }
        return first;
    }
    std::string loc(Frame& f) {
        if (f.pc >= f.bb->insts.size()) return f.fn->pretty;
        const Instruction* I = f.bb->insts[f.pc].I;
        std::string n = f.fn->pretty;
        if (n.size() > 160) n = n.substr(0, 160) + "...";
        if (auto dl = I->getDebugLoc()) {
            auto* scope = cast<DIScope>(dl.getScope());
            std::string fn = scope->getFilename().str();
            auto p = fn.rfind('/');
            if (p != std::string::npos) fn = fn.substr(p + 1);
            return n + " (" + fn + ":" + std::to_string(dl.getLine()) + ")";
        }
        return n;
    }
    std::string backtrace(State& s) {
        std::string r;
        int k = 0;
        for (auto it = s.T().stack.rbegin(); it != s.T().stack.rend() && k < 14; ++it, ++k) r += (k ? " <- " : "") + loc(*it);
        return r;
    }
    void fillInputs(State& s, Report& r, Model* m) {
        for (auto& in : s.inputs) {
            std::string v;
            if (in.v.t == T_SYM) {
                uint32_t id = in.v.e->c;
                auto it = m ? m->val.find(id) : std::map<uint32_t, std::string>::iterator();
                auto rl = in.v.fp ? inputVars.end() : inputVars.find("real:" + in.name);
                if (m && rl != inputVars.end() && m->d.count(rl->second->c)) v = std::to_string(std::llround(m->d[rl->second->c]));
                else if (m && it != m->val.end()) v = it->second;
                else v = "0";
            } else if (in.v.t == T_INT) v = std::to_string(in.v.c);
            else if (in.v.t == T_FP) { char b[64]; snprintf(b, sizeof b, "%a", in.v.d); v = b; }
            r.inputs.push_back({in.name, v});
        }
    }
    // default values for unconstrained inputs: obtained from a model of the whole path condition
    bool modelOf(State& s, Expr* extra, Model& m, bool& unknown) {
        // add trivial constraints so every input appears in the model
        std::vector<Expr*> cs = s.pc;
        Res r = checkSat(cs, extra, &m, false, g_timeoutMs * 3);
        unknown = r == R_UNKNOWN;
        return r != R_UNSAT;
    }
    void violation(State& s, const std::string& kind, const std::string& msg, Expr* extra = nullptr, Expr* robust = nullptr) {
        Report r;
        r.kind = kind;
        r.msg = msg;
        r.where = where(s);
        r.trace = backtrace(s);
        for (auto& v : violations)
            if (v.kind == kind && v.msg == msg && v.where == r.where) { v.count++; if (v.count > 3) return; }
        Model m;
        bool unk = false, ok = false;
        if (robust) {  // prefer counterexamples with a margin
            Model m2;
            std::vector<Expr*> cs = s.pc;
            if (extra) cs.push_back(extra);
            if (checkSat(cs, robust, &m2, false, g_timeoutMs) == R_SAT) { m = m2; ok = true; }
        }
        if (!ok && !modelOf(s, extra, m, unk)) { ++infeasible; return; }
        if (unk && !ok) {
            // look for a concrete witness with small rationals
            ok = searchConcrete(s, extra, m);
        }
        r.solverUnknown = unk && !ok;
        fillInputs(s, r, &m);
        if ((unk && !ok) || s.unknownBranches) r.solverUnknown = unk && !ok;
        violations.push_back(r);
        if (trace) std::cerr << "VIOL " << kind << ": " << msg << " @ " << r.trace << "\n";
    }
    bool searchConcrete(State& s, Expr* extra, Model& m) {
        uint64_t rs = 88172645463325252ull;
        auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
        // the solver could not tell: look for values that satisfy the path by evaluating it
        bool reals = g_mode == FP_REAL;
        for (auto& in : s.inputs) if (in.v.t == T_SYM && !in.v.fp) reals = false;
        if (reals) {
            double end = nowS() + 3;
            unsigned reached = 0;
            for (int att = 0; att < 2000 && nowS() < end; ++att) {
                std::vector<double> val(g_vars.size(), 0);
                Model m2;
                for (auto& in : s.inputs) {
                    if (in.v.t != T_SYM) continue;
                    uint32_t id = in.v.e->c;
                    auto& vi = g_vars[id];
                    double lo = std::isfinite(vi.lo) ? vi.lo : -4, hi = std::isfinite(vi.hi) ? vi.hi : 4;
                    double v = att % 4 == 3 && rnd() % 4 == 0 ? (rnd() & 1 ? lo : hi) : lo + (hi - lo) * (double)(rnd() % 65) / 64;
                    if (vi.w == 32) v = (float)v;
                    val[id] = v;
                    m2.d[id] = v;
                    char b[64];
                    snprintf(b, sizeof b, "%a", v);
                    m2.val[id] = b;
                }
                std::unordered_map<const Expr*, double> memo;
                try {
                    bool ok = true;
                    for (size_t i = s.pc.size(); ok && i-- > 0;) ok = evalReal(s.pc[i], val, memo) == 1;
                    reached += ok;
                    if (ok && (!extra || evalReal(extra, val, memo) == 1)) { m = m2; return true; }
                } catch (int) { reached = 0; break; }
            }
            if (reached >= 100) return false;
        }
        // fix all inputs but a couple to small dyadic values and ask again
        double tEnd = nowS() + 10;
        for (int att = 0; att < 12 && nowS() < tEnd; ++att) {
            std::vector<Expr*> cs = s.pc;
            int keep = att % 3;
            int nsym = 0;
            for (auto& in : s.inputs) if (in.v.t == T_SYM && in.v.fp) ++nsym;
            for (auto& in : s.inputs) {
                if (in.v.t != T_SYM || !in.v.fp) continue;
                if (nsym && (int)(rnd() % nsym) < keep) continue;
                double v = ((int)(rnd() % 33) - 16) / 8.0;
                Expr* e = eFCmp(FEQ, in.v.e, mkFP(v, in.v.w));
                if (checkSat(cs, e, nullptr, true, 1000) == R_SAT) cs.push_back(e);
            }
            Model m2;
            if (checkSat(cs, extra, &m2, false, 3000) == R_SAT) { m = m2; return true; }
        }
        return false;
    }
    void inconc(State& s, const std::string& kind, const std::string& msg) {
        Report r;
        r.kind = kind;
        r.msg = msg;
        r.where = where(s);
        r.trace = backtrace(s);
        for (auto& v : inconclusive) if (v.kind == kind && v.msg == msg && v.where == r.where) { v.count++; return; }
        inconclusive.push_back(r);
        if (trace) std::cerr << "INCONC " << kind << ": " << msg << " @ " << r.trace << "\n";
    }
    void addPc(State& s, Expr* c) {
        if (c->op == CONST_BV) return;
        if (c->op == AND && c->w == 1) { addPc(s, c->k[0]); addPc(s, c->k[1]); return; }
        bool pos = true;
        Expr* k = c;
        if (k->op == NOT) { k = k->k[0]; pos = false; }
        if (s.known.count(k)) return;
        s.known[k] = pos;
        s.pc.push_back(c);
    }
    int knownTruth(State& s, Expr* c) {
        if (c->op == CONST_BV) return c->c != 0;
        bool pos = true;
        if (c->op == NOT) { c = c->k[0]; pos = false; }
        auto it = s.known.find(c);
        if (it != s.known.end()) return it->second == pos;
        if (c->op == AND && c->w == 1) {
            int a = knownTruth(s, c->k[0]), b = knownTruth(s, c->k[1]);
            if (a == 0 || b == 0) return pos ? 0 : 1;
            if (a == 1 && b == 1) return pos ? 1 : 0;
        }
        if (c->op == OR && c->w == 1) {
            int a = knownTruth(s, c->k[0]), b = knownTruth(s, c->k[1]);
            if (a == 1 || b == 1) return pos ? 1 : 0;
            if (a == 0 && b == 0) return pos ? 0 : 1;
        }
        return -1;
    }
    std::map<std::string, int> forkSites;
    // decides a condition on the current path, forking if both outcomes are possible.
    // the forked state re-executes the current instruction.
    int decide(State& s, Expr* c) {
        int k = knownTruth(s, c);
        if (k >= 0) return k;
        // a branch on a transcendental term is rarely decided by more time: explore both sides instead
        int tmo = g_mode == FP_REAL && c->has_uf ? (g_branchMs ? g_branchMs : std::min(g_timeoutMs, 700)) : 0;
        Res rt = checkSat(s.pc, c, nullptr, true, tmo);
        if (rt == R_UNSAT) { addPc(s, eNot(c)); return 0; }
        Res rf = checkSat(s.pc, eNot(c), nullptr, true, tmo);
        if (rf == R_UNSAT) { addPc(s, c); return 1; }
        if (rt == R_UNKNOWN || rf == R_UNKNOWN) {
            s.unknownBranches++;
            if (trace) std::cerr << "unknown branch at " << where(s) << " : " << exprStr(c, 4).substr(0, 300) << "\n";
        }
        auto o = std::make_unique<State>(s);
        addPc(*o, eNot(c));
        ++forks;
        if (trace) forkSites[where(s)]++;
        work.push_back(std::move(o));
        addPc(s, c);
        return 1;
    }
    // replaces choices (ITE) by the alternative taken on this path, forking where both are possible
    Expr* resolveChoices(State& s, Expr* e) {
        if (e->fp || e->n == 0 || e->w == 1) return e;
        switch (e->op) {
        case ITE: return resolveChoices(s, e->k[decide(s, e->k[0]) == 1 ? 1 : 2]);
        case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR: {
            Expr* a = resolveChoices(s, e->k[0]);
            Expr* b = resolveChoices(s, e->k[1]);
            return a == e->k[0] && b == e->k[1] ? e : eBin(e->op, a, b);
        }
        case ZEXT: case SEXT: case EXTRACT: {
            Expr* a = resolveChoices(s, e->k[0]);
            if (a == e->k[0]) return e;
            return e->op == ZEXT ? eZext(a, e->w) : e->op == SEXT ? eSext(a, e->w) : eExtract(a, (unsigned)e->c, e->w);
        }
        default: return e;
        }
    }
    bool concretize(State& s, Val& v) {
        if (v.t == T_INT) return true;
        if (v.t != T_SYM || v.fp) return false;
        if (Expr* e = resolveChoices(s, v.e); e != v.e) {
            v = vE(e);
            if (v.t == T_INT) return true;
        }
        if (++s.concretized > 20000) { inconc(s, "limit", "too many concretizations"); s.done = true; return false; }
        for (;;) {
            // ask the solver for one value on this path
            std::vector<Expr*> cs = s.pc;
            uint64_t x = 0;
            // evaluate by a fresh variable bound to the expression
            Expr* tmp = mkVar("conc", false, v.w, VK_AUX);
            Model m2;
            Expr* q = mk(EQ, false, 1, tmp, v.e);
            Res r2 = checkSat(cs, q, &m2, true);
            if (r2 != R_SAT) { inconc(s, "solver", "concretization failed"); s.done = true; return false; }
            x = m2.u[tmp->c];
            int d = decide(s, eCmp(EQ, v.e, mkBV(x, v.w)));
            if (d == 1) { v = vInt(x, v.w); return true; }
        }
    }

    // ------------------------------------------------------------ memory
    uint64_t alloc(State& s, uint64_t size, ObjKind k, const std::string& name = "", bool zero = false) {
        auto o = std::make_shared<MObj>();
        o->size = size;
        o->kind = k;
        o->data.assign(size, 0);
        o->st.assign(size, zero ? 1 : 0);
        if (!name.empty()) o->name = name;
        ++objs;
        return s.mem.add(o);
    }
    const char* kindName(ObjKind k) {
        static const char* n[] = {"global", "stack", "heap(new)", "heap(new[])", "heap(malloc)", "function", "exception"};
        return n[k];
    }
    bool access(State& s, uint64_t a, uint64_t n, bool write, const char* what) {
        ++memChecks;
        uint64_t id = a >> 32, off = a & 0xffffffffull;
        const MObj* o = s.mem.get(id);
        std::string m;
        if (id == 0) m = "null pointer dereference";
        else if (!o) m = "wild pointer dereference";
        else if (!o->alive) m = std::string("use after ") + (o->kind == OK_STACK ? "scope end" : "free") + " of " + kindName(o->kind) + " memory";
        else if (o->kind == OK_FUNC) m = "data access to code";
        else if (off + n > o->size) m = std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + kindName(o->kind) + " object";
        else if (write && o->ro) m = "write to constant";
        else return true;
        (void)what;
        violation(s, "memory", m);
        s.done = true;
        return false;
    }
    Val loadScalar(State& s, uint64_t a, unsigned bytes, unsigned w, bool fp) {
        const MObj* o = s.mem.get(a >> 32);
        uint64_t off = a & 0xffffffffull;
        bool allC = true, anyS = false, anyU = false;
        for (unsigned i = 0; i < bytes; ++i) {
            uint8_t t = o->st[off + i];
            if (t != 1) allC = false;
            if (t == 2) anyS = true;
            if (t == 0) anyU = true;
        }
        if (allC) {
            uint64_t u = 0;
            for (unsigned i = 0; i < bytes && i < 8; ++i) u |= (uint64_t)o->data[off + i] << (8 * i);
            if (fp) {
                if (w == 32) { float f; uint32_t uu = u; memcpy(&f, &uu, 4); return vFP(f, 32); }
                double d; memcpy(&d, &u, 8); return vFP(d, 64);
            }
            return vInt(u, w);
        }
        if (anyU) return vUndef(fp, w);
        (void)anyS;
        // whole value?
        if (o->st[off] == 2) {
            Expr* e = o->sym[off].e;
            bool whole = o->sym[off].k == 0 && e->w == bytes * 8;
            for (unsigned i = 1; i < bytes && whole; ++i)
                if (o->st[off + i] != 2 || o->sym[off + i].e != e || o->sym[off + i].k != i) whole = false;
            if (whole) {
                if (fp && !e->fp) e = eBV2FP(e);
                if (!fp && e->fp) e = eFP2BV(e);
                if (!fp && w != e->w) e = eExtract(e, 0, w);
                return vE(e);
            }
        }
        Expr* r = nullptr;
        for (unsigned i = 0; i < bytes; ++i) {
            Expr* b;
            if (o->st[off + i] == 1) b = mkBV(o->data[off + i], 8);
            else {
                Expr* e = o->sym[off + i].e;
                if (e->fp) e = eFP2BV(e);
                if (e->w < 8) e = eZext(e, 8);
                b = eExtract(e, 8 * o->sym[off + i].k, 8);
            }
            r = r ? eConcat(b, r) : b;
        }
        if (fp) r = eBV2FP(r);
        else if (w != r->w) r = eExtract(r, 0, w);
        return vE(r);
    }
    void storeScalar(State& s, uint64_t a, unsigned bytes, const Val& v) {
        MObj* o = s.mem.getW(a >> 32);
        uint64_t off = a & 0xffffffffull;
        if (v.t == T_UNDEF) { for (unsigned i = 0; i < bytes; ++i) o->st[off + i] = 0; return; }
        if (v.t == T_INT || v.t == T_FP) {
            uint64_t u = v.c;
            bool plain = true;
            if (v.t == T_FP && v.w == 32) {
                float f = v.d;
                if ((double)f != v.d && v.d == v.d) plain = false;
                uint32_t uu; memcpy(&uu, &f, 4); u = uu;
            }
            if (plain) {
                for (unsigned i = 0; i < bytes; ++i) { o->data[off + i] = i < 8 ? (u >> (8 * i)) : 0; o->st[off + i] = 1; }
                return;
            }
        }
        Expr* e = toE(v);
        if (e->w < 8 * bytes && !e->fp) e = eZext(e, 8 * bytes);
        if (o->sym.empty()) o->sym.resize(o->size);
        for (unsigned i = 0; i < bytes; ++i) { o->st[off + i] = 2; o->sym[off + i] = {e, (uint8_t)i}; }
    }
    Val loadTy(State& s, uint64_t a, Type* ty) {
        if (ty->isStructTy()) {
            std::vector<Val> v;
            auto* sl = DL->getStructLayout(cast<StructType>(ty));
            for (unsigned i = 0; i < ty->getStructNumElements(); ++i) v.push_back(loadTy(s, a + sl->getElementOffset(i), ty->getStructElementType(i)));
            return vAgg(v);
        }
        if (ty->isArrayTy()) {
            std::vector<Val> v;
            uint64_t es = DL->getTypeAllocSize(ty->getArrayElementType());
            for (unsigned i = 0; i < ty->getArrayNumElements(); ++i) v.push_back(loadTy(s, a + i * es, ty->getArrayElementType()));
            return vAgg(v);
        }
        if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
            std::vector<Val> v;
            uint64_t es = DL->getTypeAllocSize(vt->getElementType());
            for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(loadTy(s, a + i * es, vt->getElementType()));
            return vAgg(v);
        }
        unsigned w = ty->isPointerTy() ? 64 : ty->getPrimitiveSizeInBits();
        return loadScalar(s, a, DL->getTypeStoreSize(ty), w, ty->isFloatingPointTy());
    }
    void storeTy(State& s, uint64_t a, Type* ty, const Val& v) {
        if (v.t == T_AGG) {
            if (ty->isStructTy()) {
                auto* sl = DL->getStructLayout(cast<StructType>(ty));
                for (unsigned i = 0; i < v.a->size(); ++i) storeTy(s, a + sl->getElementOffset(i), ty->getStructElementType(i), (*v.a)[i]);
            } else {
                Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<FixedVectorType>(ty)->getElementType();
                uint64_t es = DL->getTypeAllocSize(et);
                for (unsigned i = 0; i < v.a->size(); ++i) storeTy(s, a + i * es, et, (*v.a)[i]);
            }
            return;
        }
        storeScalar(s, a, DL->getTypeStoreSize(ty), v);
    }
    bool needPtr(State& s, Val& p) {
        if (p.t == T_INT) return true;
        if (p.t == T_UNDEF) { violation(s, "uninit", "dereference of an uninitialised pointer"); s.done = true; return false; }
        return concretize(s, p);
    }
    bool needInt(State& s, Val& p, const char* what) {
        if (p.t == T_INT) return true;
        if (p.t == T_UNDEF) { violation(s, "uninit", std::string("use of an uninitialised value: ") + what); s.done = true; return false; }
        return concretize(s, p);
    }
    void copyMem(State& s, uint64_t d, uint64_t a, uint64_t n) {
        if (n == 0) return;
        const MObj* so = s.mem.get(a >> 32);
        uint64_t sOff = a & 0xffffffffull, dOff = d & 0xffffffffull;
        std::vector<uint8_t> dat(so->data.begin() + sOff, so->data.begin() + sOff + n), st(so->st.begin() + sOff, so->st.begin() + sOff + n);
        std::vector<SymCell> sy;
        bool anyS = false;
        for (auto x : st) if (x == 2) anyS = true;
        if (anyS) sy.assign(so->sym.begin() + sOff, so->sym.begin() + sOff + n);
        MObj* o = s.mem.getW(d >> 32);
        if (anyS && o->sym.empty()) o->sym.resize(o->size);
        std::copy(dat.begin(), dat.end(), o->data.begin() + dOff);
        std::copy(st.begin(), st.end(), o->st.begin() + dOff);
        if (anyS) std::copy(sy.begin(), sy.end(), o->sym.begin() + dOff);
    }
    std::string cstr(State& s, uint64_t a) {
        std::string r;
        const MObj* o = s.mem.get(a >> 32);
        if (!o || !o->alive) return "?";
        for (uint64_t off = a & 0xffffffffull; off < o->size && o->data[off]; ++off) r += (char)o->data[off];
        return r;
    }
    uint64_t rd64(State& s, uint64_t a) {
        const MObj* o = s.mem.get(a >> 32);
        uint64_t off = a & 0xffffffffull, u = 0;
        if (!o || !o->alive || off + 8 > o->size) return 0;
        for (int i = 0; i < 8; ++i) u |= (uint64_t)o->data[off + i] << (8 * i);
        return u;
    }

    // ------------------------------------------------------------ control
    void jump(State& s, DBlock* to) {
        Frame& f = s.F();
        DBlock* from = f.bb;
        if (!to->phis.empty()) {
            std::vector<Val> tmp;
            tmp.reserve(to->phis.size());
            for (auto& p : to->phis) {
                for (auto& in : p.in) if (in.first == from) { tmp.push_back(val(s, in.second)); break; }
            }
            for (size_t i = 0; i < tmp.size(); ++i) f.regs[to->phis[i].dst] = tmp[i];
        }
        f.bb = to;
        f.pc = 0;
    }
    void pushFrame(State& s, Function* F, const std::vector<Val>& args) {
        DFn* d = dfn(F);
        d->calls++;
        Frame f;
        f.fn = d;
        f.bb = d->blocks[0];
        f.pc = 0;
        f.regs.resize(d->nslots);
        for (size_t i = 0; i < args.size() && i < F->arg_size(); ++i) f.regs[i] = args[i];
        s.T().stack.push_back(std::move(f));
    }
    void popFrame(State& s) {
        for (uint64_t a : s.F().allocas) s.mem.kill(a >> 32);
        s.T().stack.pop_back();
    }
    // after a call instruction completed in the top frame
    void finishCall(State& s, const Val* ret) {
        Frame& f = s.F();
        DInst& x = f.bb->insts[f.pc];
        if (x.dst >= 0 && ret) f.regs[x.dst] = *ret;
        if (x.isInvoke) jump(s, x.t0);
        else f.pc++;
    }
    void doReturn(State& s, const Val* r) {
        Val rv;
        if (r) rv = *r;
        popFrame(s);
        if (s.T().stack.empty()) { threadExit(s); return; }
        finishCall(s, r ? &rv : nullptr);
    }
    void threadExit(State& s) {
        Thread& t = s.T();
        if (s.cur == 0) {
            // next script entry
            if (s.scriptPos < s.script.size()) {
                Function* f = s.script[s.scriptPos++];
                if (s.scriptPos == s.script.size()) { s.startId = s.mem.next; s.inHarness = true; }
                pushFrame(s, f, {});
                return;
            }
            // deadlock / unfinished threads are not waited for
            s.done = true;
            pathEnd(s);
            return;
        }
        t.status = 1;
        for (auto& o : s.th) if (o.status == 3 && o.waitOn == (uint64_t)s.cur) o.status = 0;
        schedule(s, true);
    }
    void pathEnd(State& s) {
        ++completed;
        for (auto& r : s.reached) reach[r]++;
        if (s.expectNoLeak) {
            uint64_t n = 0;
            for (uint64_t id = s.startId; id < s.mem.next; ++id) {
                const MObj* o = s.mem.get(id);
                if (o && o->alive && (o->kind == OK_NEW || o->kind == OK_NEWARR)) ++n;
            }
            if (n) {
                Frame dummy;
                Report r;
                r.kind = "leak";
                r.msg = "heap memory still allocated after every owner is gone";
                Model m; bool unk;
                modelOf(s, nullptr, m, unk);
                fillInputs(s, r, &m);
                bool dup = false;
                for (auto& v : violations) if (v.kind == r.kind) { v.count++; if (v.count > 3) dup = true; }
                if (!dup) violations.push_back(r);
            }
        }
        if (samplePaths.size() < 3) {
            std::string d = "inputs:";
            int k = 0;
            for (auto& in : s.inputs) {
                if (++k > 24) { d += " ..."; break; }
                d += " " + in.name + "=" + (in.v.t == T_SYM ? "<symbolic>" : in.v.t == T_INT ? std::to_string(in.v.c) : std::to_string(in.v.d));
            }
            d += "; path constraints: " + std::to_string(s.pc.size());
            samplePaths.push_back(d);
        }
        // concrete inputs for some paths, to be run against the natively compiled code
        if (wantModels && (int)models.size() < wantModels && (completed <= 2 || completed % modelStride == 0 || (int)models.size() * modelStride < (int)completed)) {
            modelStride = modelStride * 3 / 2 + 1;
            Report r;
            for (auto& q : s.reached) r.msg += (r.msg.empty() ? "" : ",") + q;
            Model m;
            bool have = false;
            for (auto& in : s.inputs) if (in.v.t == T_SYM) have = true;
            // spread the values when the path leaves them free
            std::vector<Expr*> cs = s.pc;
            uint64_t rs = 88172645463325252ull + completed * 7919;
            double tEnd = nowS() + 1;
            int nv = 0;
            for (auto& in : s.inputs) {
                if (in.v.t != T_SYM || !in.v.fp || ++nv > 12 || nowS() > tEnd) continue;
                rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
                Expr* e = eFCmp(FEQ, in.v.e, mkFP(((int)(rs % 65) - 32) / 16.0, in.v.w));
                if (checkSat(cs, e, nullptr, true, 200) == R_SAT) cs.push_back(e);
            }
            if (!have || checkSat(cs, nullptr, &m, false, 2000) == R_SAT) { fillInputs(s, r, &m); models.push_back(r); }
        }
    }
    // choose the next thread; force: the current one cannot continue
    void schedule(State& s, bool force) {
        std::vector<int> run;
        for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == 0) run.push_back(i);
        if (run.empty()) {
            bool waiting = false;
            for (auto& t : s.th) if (t.status == 2 || t.status == 3) waiting = true;
            if (waiting) {
                if (s.T().stack.empty()) for (size_t i = 0; i < s.th.size(); ++i) if (!s.th[i].stack.empty()) { s.cur = i; break; }
                violation(s, "deadlock", "all threads are blocked");
            }
            s.done = true;
            return;
        }
        if (schedMode != 2) {
            // deterministic: prefer the highest numbered runnable thread (run at create), or main first (run at join)
            if (force) s.cur = schedMode == 0 ? run.back() : run.front();
            return;
        }
        std::vector<int> cand;
        for (int r : run) {
            if (!force && r != s.cur && s.preempt >= preemptBound) continue;
            cand.push_back(r);
        }
        if (cand.empty()) cand.push_back(s.cur);
        int self = s.cur;
        for (size_t i = 1; i < cand.size(); ++i) {
            auto o = std::make_unique<State>(s);
            ++forks;
            if (!force && cand[i] != self) o->preempt++;
            o->cur = cand[i];
            o->T().skipYield = true;
            o->inputs.push_back({"sched#" + std::to_string(o->nameCount["sched"]++), 's', vInt(cand[i], 32)});
            work.push_back(std::move(o));
        }
        if (!force && cand[0] != self) s.preempt++;
        s.cur = cand[0];
        s.T().skipYield = true;
        s.inputs.push_back({"sched#" + std::to_string(s.nameCount["sched"]++), 's', vInt(cand[0], 32)});
    }
    // returns true when the instruction must be retried later (another thread was scheduled)
    bool yieldPoint(State& s) {
        if (schedMode != 2 || s.th.size() < 2) return false;
        if (s.T().skipYield) { s.T().skipYield = false; return false; }
        int c = s.cur;
        schedule(s, false);
        if (s.cur == c) { s.T().skipYield = false; return false; }
        s.th[c].skipYield = false;
        return true;
    }

    // ------------------------------------------------------------ exceptions
    bool typeMatches(State& s, uint64_t thrown, uint64_t want) {
        if (want == 0 || thrown == want) return true;
        // names equal (duplicate typeinfo)?
        uint64_t vt = rd64(s, thrown);
        auto it = extNames.find(vt >> 32);
        std::string k = it == extNames.end() ? "" : it->second;
        if (k.find("__si_class_type_info") != std::string::npos) return typeMatches(s, rd64(s, thrown + 16), want);
        if (k.find("__vmi_class_type_info") != std::string::npos) {
            uint32_t n = rd64(s, thrown + 16) >> 32;
            for (uint32_t i = 0; i < n; ++i) if (typeMatches(s, rd64(s, thrown + 24 + 16 * i), want)) return true;
        }
        return false;
    }
    uint32_t tiId(uint64_t a) {
        auto it = tiIds.find(a);
        if (it != tiIds.end()) return it->second;
        uint32_t id = tiIds.size() + 1;
        return tiIds[a] = id;
    }
    std::string tiName(State& s, uint64_t ti) { return demangle("_Z" + cstr(s, rd64(s, ti + 8))); }
    void unwind(State& s, uint64_t excPtr) {
        uint64_t ti = s.exc[excPtr].ti;
        std::string origin = backtrace(s);
        for (;;) {
            if (s.T().stack.empty()) {
                Report r;
                State& st = s;
                (void)st;
                r.kind = "uncaught";
                r.msg = "uncaught exception " + tiName(s, ti);
                r.where = origin.substr(0, 200);
                r.trace = origin;
                Model m; bool unk;
                if (modelOf(s, nullptr, m, unk)) {
                    fillInputs(s, r, &m);
                    bool dup = false;
                    for (auto& v : violations) if (v.kind == r.kind && v.where == r.where) { v.count++; if (v.count > 3) dup = true; }
                    if (!dup) violations.push_back(r);
                }
                s.done = true;
                return;
            }
            Frame& f = s.F();
            DInst& x = f.bb->insts[f.pc];
            if (x.isInvoke) {
                const LandingPadInst* lp = nullptr;
                for (auto& I : *x.t1->bb) if ((lp = dyn_cast<LandingPadInst>(&I))) break;
                bool enter = lp->isCleanup();
                uint32_t sel = 0;
                for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                    if (lp->isCatch(i)) {
                        uint64_t want = constVal(lp->getClause(i)).c;
                        if (typeMatches(s, ti, want)) { enter = true; sel = tiId(want); break; }
                    } else {
                        // exception specification: entering with a negative selector when not listed
                        auto* arr = lp->getClause(i);
                        bool listed = false;
                        if (auto* ca = dyn_cast<ConstantArray>(arr))
                            for (unsigned j = 0; j < ca->getNumOperands(); ++j)
                                if (typeMatches(s, ti, constVal(cast<Constant>(ca->getOperand(j))).c)) listed = true;
                        if (!listed) { enter = true; sel = (uint32_t)-1; break; }
                    }
                }
                if (enter) {
                    s.T().lpPtr = excPtr;
                    s.T().lpSel = sel;
                    jump(s, x.t1);
                    return;
                }
            }
            popFrame(s);
        }
    }

    // ------------------------------------------------------------ arithmetic
    static bool addExact(double a, double b, double r) {
        if (!std::isfinite(r)) return !std::isfinite(a) || !std::isfinite(b);
        double bb = r - a;
        double err = (a - (r - bb)) + (b - bb);
        return err == 0;
    }
    Val fbin(State& s, unsigned op, Val a, Val b, unsigned w) {
        if (a.t == T_UNDEF || b.t == T_UNDEF) return vUndef(true, w);
        if (a.t == T_FP && b.t == T_FP) {
            double x = a.d, y = b.d, r = 0;
            bool exact = true;
            if (g_mode == FP_EXACT && w == 32) {
                float fx = x, fy = y, fr = 0;
                switch (op) {
                case Instruction::FAdd: fr = fx + fy; break;
                case Instruction::FSub: fr = fx - fy; break;
                case Instruction::FMul: fr = fx * fy; break;
                case Instruction::FDiv: fr = fx / fy; break;
                case Instruction::FRem: fr = std::fmod(fx, fy); break;
                }
                return vFP(fr, 32);
            }
            switch (op) {
            case Instruction::FAdd: r = x + y; exact = addExact(x, y, r); break;
            case Instruction::FSub: r = x - y; exact = addExact(x, -y, r); break;
            case Instruction::FMul: r = x * y; exact = !std::isfinite(r) || (std::fma(x, y, -r) == 0 && (std::fabs(r) > 1e-280 || x == 0 || y == 0)); break;
            case Instruction::FDiv: r = x / y; exact = !std::isfinite(r) || !std::isfinite(y) || (std::fma(r, y, -x) == 0 && (std::fabs(r) > 1e-280 || x == 0)); break;
            case Instruction::FRem: r = std::fmod(x, y); break;
            }
            if (g_mode == FP_EXACT || exact) return vFP(r, w);
        }
        static const Op m[] = {FADD, FSUB, FMUL, FDIV};
        Op o;
        switch (op) {
        case Instruction::FAdd: o = m[0]; break;
        case Instruction::FSub: o = m[1]; break;
        case Instruction::FMul: o = m[2]; break;
        case Instruction::FDiv: o = m[3]; break;
        default: inconc(s, "unsupported", "symbolic frem"); s.done = true; return vUndef(true, w);
        }
        if (g_mode == FP_REAL) {
            auto nonfin = [](const Val& v) { return v.t == T_FP && !std::isfinite(v.d); };
            if (nonfin(a) || nonfin(b)) {
                if ((a.t == T_FP && std::isnan(a.d)) || (b.t == T_FP && std::isnan(b.d))) return vFP(NAN, w);
                auto sgn = [&](const Val& v) -> int {
                    if (v.t == T_FP) return v.d > 0 ? 1 : v.d < 0 ? -1 : 0;
                    if (decide(s, eFCmp(FEQ, v.e, mkFP(0, v.w)))) return 0;
                    return decide(s, eFCmp(FLT, mkFP(0, v.w), v.e)) ? 1 : -1;
                };
                double x, y;
                if (o == FADD || o == FSUB) { x = a.t == T_FP ? a.d : 0; y = b.t == T_FP ? b.d : 0; }
                else { x = nonfin(a) ? a.d : sgn(a); y = nonfin(b) ? b.d : sgn(b); }
                double r = o == FADD ? x + y : o == FSUB ? x - y : o == FMUL ? x * y : x / y;
                return vFP(r, w);
            }
            if (o == FDIV && (b.t == T_SYM || (b.t == T_FP && b.d == 0))) {
                bool z = b.t == T_FP ? b.d == 0 : (b.e->op == CONST_Q ? false : decide(s, eFCmp(FEQ, b.e, mkFP(0, w))) == 1);
                if (z) {
                    int sg;
                    if (a.t == T_FP) sg = a.d > 0 ? 1 : a.d < 0 ? -1 : 0;
                    else if (decide(s, eFCmp(FEQ, a.e, mkFP(0, w)))) sg = 0;
                    else sg = decide(s, eFCmp(FLT, mkFP(0, w), a.e)) ? 1 : -1;
                    if (s.done) return vUndef(true, w);
                    return vFP(sg == 0 ? NAN : sg > 0 ? INFINITY : -INFINITY, w);
                }
            }
        }
        return vE(eF(o, toE(a), toE(b)));
    }
    Val ibin(State& s, unsigned op, const Val& a, const Val& b, unsigned w, bool& divz) {
        if (a.t == T_UNDEF || b.t == T_UNDEF) {
            const Val& o = a.t == T_UNDEF ? b : a;
            if (op == Instruction::And && o.t == T_INT && o.c == 0) return o;
            if (op == Instruction::Or && o.t == T_INT && o.c == maskW(w)) return o;
            if (op == Instruction::Or && o.t == T_INT && o.c != 0) return o;
            // read-modify-write of a bit-field in fresh memory: the other bits of the unit are dead
            if (op == Instruction::And && o.t == T_INT && w <= 64) {
                int pc = __builtin_popcountll(o.c & maskW(w));
                if (pc < (int)w && (!(o.c & 1) || pc > (int)w / 2)) return vInt(0, w);
            }
            return vUndef(false, w);
        }
        if (a.t == T_INT && b.t == T_INT) {
            uint64_t x = a.c, y = b.c;
            int64_t sx = sextW(x, w), sy = sextW(y, w);
            switch (op) {
            case Instruction::Add: return vInt(x + y, w);
            case Instruction::Sub: return vInt(x - y, w);
            case Instruction::Mul: return vInt(x * y, w);
            case Instruction::UDiv: if (!y) { divz = true; return a; } return vInt(x / y, w);
            case Instruction::URem: if (!y) { divz = true; return a; } return vInt(x % y, w);
            case Instruction::SDiv: if (!y) { divz = true; return a; } if (sy == -1) return vInt(-x, w); return vInt(sx / sy, w);
            case Instruction::SRem: if (!y) { divz = true; return a; } if (sy == -1) return vInt(0, w); return vInt(sx % sy, w);
            case Instruction::Shl: return vInt(y >= w ? 0 : x << y, w);
            case Instruction::LShr: return vInt(y >= w ? 0 : x >> y, w);
            case Instruction::AShr: return vInt(y >= w ? (sx < 0 ? ~0ull : 0) : (uint64_t)(sx >> y), w);
            case Instruction::And: return vInt(x & y, w);
            case Instruction::Or: return vInt(x | y, w);
            case Instruction::Xor: return vInt(x ^ y, w);
            }
        }
        Op o = ADD;
        switch (op) {
        case Instruction::Add: o = ADD; break;
        case Instruction::Sub: o = SUB; break;
        case Instruction::Mul: o = MUL; break;
        case Instruction::UDiv: o = UDIV; break;
        case Instruction::URem: o = UREM; break;
        case Instruction::SDiv: o = SDIV; break;
        case Instruction::SRem: o = SREM; break;
        case Instruction::Shl: o = SHL; break;
        case Instruction::LShr: o = LSHR; break;
        case Instruction::AShr: o = ASHR; break;
        case Instruction::And: o = AND; break;
        case Instruction::Or: o = OR; break;
        case Instruction::Xor: o = XOR; break;
        }
        if (o == UDIV || o == UREM || o == SDIV || o == SREM) {
            if (b.t == T_INT ? b.c == 0 : decide(s, eCmp(EQ, toE(b), mkBV(0, w))) == 1) { divz = true; return a; }
        }
        return vE(eBin(o, toE(a), toE(b)));
    }
    Val icmp(unsigned p, const Val& a, const Val& b) {
        if (a.t == T_UNDEF || b.t == T_UNDEF) return vUndef(false, 1);
        unsigned w = a.w;
        if (a.t == T_INT && b.t == T_INT) {
            uint64_t x = a.c, y = b.c;
            int64_t sx = sextW(x, w), sy = sextW(y, w);
            bool r = false;
            switch (p) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            case CmpInst::ICMP_SGE: r = sx >= sy; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            case CmpInst::ICMP_SLE: r = sx <= sy; break;
            }
            return vInt(r, 1);
        }
        Expr *x = toE(a), *y = toE(b);
        Expr* r = nullptr;
        switch (p) {
        case CmpInst::ICMP_EQ: r = eCmp(EQ, x, y); break;
        case CmpInst::ICMP_NE: r = eNot(eCmp(EQ, x, y)); break;
        case CmpInst::ICMP_UGT: r = eCmp(ULT, y, x); break;
        case CmpInst::ICMP_UGE: r = eCmp(ULE, y, x); break;
        case CmpInst::ICMP_ULT: r = eCmp(ULT, x, y); break;
        case CmpInst::ICMP_ULE: r = eCmp(ULE, x, y); break;
        case CmpInst::ICMP_SGT: r = eCmp(SLT, y, x); break;
        case CmpInst::ICMP_SGE: r = eCmp(SLE, y, x); break;
        case CmpInst::ICMP_SLT: r = eCmp(SLT, x, y); break;
        case CmpInst::ICMP_SLE: r = eCmp(SLE, x, y); break;
        }
        return vE(r);
    }
    Val fcmp(unsigned p, const Val& a, const Val& b) {
        if (p == CmpInst::FCMP_FALSE) return vInt(0, 1);
        if (p == CmpInst::FCMP_TRUE) return vInt(1, 1);
        if (a.t == T_UNDEF || b.t == T_UNDEF) return vUndef(false, 1);
        if (a.t == T_FP && b.t == T_FP) {
            double x = a.d, y = b.d;
            bool un = std::isnan(x) || std::isnan(y), r = false;
            switch (p) {
            case CmpInst::FCMP_OEQ: r = x == y; break;
            case CmpInst::FCMP_OGT: r = x > y; break;
            case CmpInst::FCMP_OGE: r = x >= y; break;
            case CmpInst::FCMP_OLT: r = x < y; break;
            case CmpInst::FCMP_OLE: r = x <= y; break;
            case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break;
            case CmpInst::FCMP_UNE: r = un || x != y; break;
            }
            return vInt(r, 1);
        }
        Expr *x = toE(a), *y = toE(b);
        Expr* un = eOr(eIsNan(x), eIsNan(y));
        if (g_mode == FP_REAL) {
            // unordered variants must see NaN constants
            switch (p) {
            case CmpInst::FCMP_ORD: return vE(eNot(un));
            case CmpInst::FCMP_UNO: return vE(un);
            case CmpInst::FCMP_OEQ: return vE(eFCmp(FEQ, x, y));
            case CmpInst::FCMP_UEQ: return vE(eOr(un, eFCmp(FEQ, x, y)));
            case CmpInst::FCMP_ONE: return vE(eAnd(eNot(un), eNot(eFCmp(FEQ, x, y))));
            case CmpInst::FCMP_UNE: return vE(eOr(un, eNot(eFCmp(FEQ, x, y))));
            default: break;
            }
            if (un->op == CONST_BV && un->c) {
                bool r = p == CmpInst::FCMP_UGT || p == CmpInst::FCMP_UGE || p == CmpInst::FCMP_ULT || p == CmpInst::FCMP_ULE;
                return vInt(r, 1);
            }
            switch (p) {
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return vE(eFCmp(FLT, y, x));
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return vE(eFCmp(FLE, y, x));
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return vE(eFCmp(FLT, x, y));
            default: return vE(eFCmp(FLE, x, y));
            }
        }
        switch (p) {
        case CmpInst::FCMP_OEQ: return vE(eFCmp(FEQ, x, y));
        case CmpInst::FCMP_OGT: return vE(eFCmp(FLT, y, x));
        case CmpInst::FCMP_OGE: return vE(eFCmp(FLE, y, x));
        case CmpInst::FCMP_OLT: return vE(eFCmp(FLT, x, y));
        case CmpInst::FCMP_OLE: return vE(eFCmp(FLE, x, y));
        case CmpInst::FCMP_ONE: return vE(eAnd(eNot(un), eNot(eFCmp(FEQ, x, y))));
        case CmpInst::FCMP_ORD: return vE(eNot(un));
        case CmpInst::FCMP_UNO: return vE(un);
        case CmpInst::FCMP_UEQ: return vE(eOr(un, eFCmp(FEQ, x, y)));
        case CmpInst::FCMP_UGT: return vE(eNot(eFCmp(FLE, x, y)));
        case CmpInst::FCMP_UGE: return vE(eNot(eFCmp(FLT, x, y)));
        case CmpInst::FCMP_ULT: return vE(eNot(eFCmp(FLE, y, x)));
        case CmpInst::FCMP_ULE: return vE(eNot(eFCmp(FLT, y, x)));
        default: return vE(eNot(eFCmp(FEQ, x, y)));
        }
    }
    // value -> boolean expression; reports uninitialised conditions
    bool condOf(State& s, const Val& v, Expr*& e) {
        if (v.t == T_UNDEF) {
            violation(s, "uninit", "branch depends on an uninitialised value");
            s.done = true;
            return false;
        }
        e = toE(v);
        return true;
    }
    Val math1(State& s, const std::string& n, const Val& a, unsigned w) {
        if (a.t == T_UNDEF) return vUndef(true, w);
        if (n == "sqrt") {
            if (a.t == T_FP) {
                double r = w == 32 && g_mode == FP_EXACT ? (double)std::sqrt((float)a.d) : std::sqrt(a.d);
                if (g_mode == FP_EXACT || !std::isfinite(r) || std::fma(r, r, -a.d) == 0) return vFP(r, w);
                return vE(eF(FSQRT, toE(a)));
            }
            if (g_mode == FP_REAL && a.e->op != CONST_Q && decide(s, eFCmp(FLT, a.e, mkFP(0, w)))) return vFP(NAN, w);
            return vE(eF(FSQRT, a.e));
        }
        if (n == "fabs") {
            if (a.t == T_FP) return vFP(std::fabs(a.d), w);
            if (g_mode == FP_REAL) {
                int neg = decide(s, eFCmp(FLT, a.e, mkFP(0, w)));
                return vE(neg ? eF(FNEG, a.e) : a.e);
            }
            return vE(eF(FABS, a.e));
        }
        if (a.t == T_SYM && g_mode == FP_REAL && n == "log") {
            if (decide(s, eFCmp(FEQ, a.e, mkFP(0, w)))) return vFP(-INFINITY, w);
            if (decide(s, eFCmp(FLT, a.e, mkFP(0, w)))) return vFP(NAN, w);
            if (a.e->op == UF && g_ufs[a.e->c] == "exp") return vE(a.e->k[0]);
        }
        if (a.t == T_SYM && g_mode == FP_REAL && n == "tan") {
            const Expr* k = a.e;
            while (k->op == FPCAST) k = k->k[0];
            if (k->op == UF && g_ufs[k->c] == "atan") return vE(eFpCast(k->k[0], w));
        }
        if (a.t == T_SYM && g_mode == FP_REAL && n == "exp" && a.e->op == UF && g_ufs[a.e->c] == "log") return vE(a.e->k[0]);
        return vE(eUF(n, toE(a), nullptr, w));
    }

    // ------------------------------------------------------------ one instruction
    void step(State& s) {
        Frame& f = s.F();
        DInst& x = f.bb->insts[f.pc];
        f.fn->count++;
        s.steps++;
        ++totalSteps;
        switch (x.op) {
        case Instruction::Ret: {
            if (x.ops.empty()) doReturn(s, nullptr);
            else { Val r = val(s, x.ops[0]); doReturn(s, &r); }
            return;
        }
        case Instruction::Br: {
            if (x.ops.empty()) { jump(s, x.t0); return; }
            const Val& c = val(s, x.ops[0]);
            if (c.t == T_INT) { jump(s, c.c ? x.t0 : x.t1); return; }
            Expr* e;
            if (!condOf(s, c, e)) return;
            int d = decide(s, e);
            if (s.done) return;
            jump(s, d ? x.t0 : x.t1);
            return;
        }
        case Instruction::Switch: {
            Val c = val(s, x.ops[0]);
            if (c.t == T_UNDEF) { Expr* e; condOf(s, c, e); return; }
            if (c.t == T_INT) {
                for (auto& cs : x.cases) if (cs.first == c.c) { jump(s, cs.second); return; }
                jump(s, x.t0);
                return;
            }
            for (auto& cs : x.cases) {
                if (decide(s, eCmp(EQ, c.e, mkBV(cs.first, c.w)))) { if (!s.done) jump(s, cs.second); return; }
                if (s.done) return;
            }
            jump(s, x.t0);
            return;
        }
        case Instruction::Unreachable:
            violation(s, "unreachable", "execution reached undefined control flow");
            s.done = true;
            return;
        case Instruction::Alloca: {
            Val n = val(s, x.ops[0]);
            if (!needInt(s, n, "alloca size")) return;
            uint64_t a = alloc(s, x.aux * n.c, OK_STACK);
            s.F().allocas.push_back(a);
            s.F().regs[x.dst] = vPtr(a);
            break;
        }
        case Instruction::Load: {
            Val p = val(s, x.ops[0]);
            if (!needPtr(s, p)) return;
            Type* ty = x.I->getType();
            if (!access(s, p.c, x.aux, false, "load")) return;
            Frame& ff = s.F();
            if (x.w && x.w <= 64 && !ty->isVectorTy()) ff.regs[x.dst] = loadScalar(s, p.c, x.aux, x.w, x.fp);
            else ff.regs[x.dst] = loadTy(s, p.c, ty);
            break;
        }
        case Instruction::Store: {
            Val p = val(s, x.ops[1]);
            if (!needPtr(s, p)) return;
            Type* ty = cast<StoreInst>(x.I)->getValueOperand()->getType();
            uint64_t n = DL->getTypeStoreSize(ty);
            if (!access(s, p.c, n, true, "store")) return;
            const Val& v = val(s, x.ops[0]);
            if (v.t == T_AGG) storeTy(s, p.c, ty, v);
            else storeScalar(s, p.c, n, v);
            break;
        }
        case Instruction::GetElementPtr: {
            const Val& b = val(s, x.ops[0]);
            bool conc = b.t == T_INT, und = b.t == T_UNDEF;
            uint64_t r = conc ? b.c + x.aux : 0;
            for (auto& g : x.gep) {
                const Val& i = val(s, g.first);
                if (i.t == T_UNDEF) und = true;
                if (i.t != T_INT) conc = false;
                else r += sextW(i.c, i.w) * g.second;
            }
            if (und) s.F().regs[x.dst] = vUndef(false, 64);
            else if (conc) s.F().regs[x.dst] = vPtr(r);
            else {
                Expr* e = eBin(ADD, toE(b), mkBV(x.aux, 64));
                for (auto& g : x.gep) e = eBin(ADD, e, eBin(MUL, eSext(toE(val(s, g.first)), 64), mkBV(g.second, 64)));
                s.F().regs[x.dst] = vE(e);
            }
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: {
            bool dz = false;
            Val r = ibin(s, x.op, val(s, x.ops[0]), val(s, x.ops[1]), x.w, dz);
            if (dz) { violation(s, "arith", "integer division by zero"); s.done = true; }
            if (s.done) return;
            s.F().regs[x.dst] = r;
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            Val r = fbin(s, x.op, val(s, x.ops[0]), val(s, x.ops[1]), x.w);
            if (s.done) return;
            s.F().regs[x.dst] = r;
            break;
        }
        case Instruction::FNeg: {
            const Val& a = val(s, x.ops[0]);
            s.F().regs[x.dst] = a.t == T_UNDEF ? a : a.t == T_FP ? vFP(-a.d, x.w) : vE(eF(FNEG, a.e));
            break;
        }
        case Instruction::ICmp: s.F().regs[x.dst] = icmp(x.aux, val(s, x.ops[0]), val(s, x.ops[1])); break;
        case Instruction::FCmp: s.F().regs[x.dst] = fcmp(x.aux, val(s, x.ops[0]), val(s, x.ops[1])); break;
        case Instruction::Trunc: {
            const Val& a = val(s, x.ops[0]);
            s.F().regs[x.dst] = a.t == T_UNDEF ? vUndef(false, x.w) : a.t == T_INT ? vInt(a.c, x.w) : vE(eExtract(a.e, 0, x.w));
            break;
        }
        case Instruction::ZExt: {
            const Val& a = val(s, x.ops[0]);
            s.F().regs[x.dst] = a.t == T_UNDEF ? vUndef(false, x.w) : a.t == T_INT ? vInt(a.c, x.w) : vE(eZext(a.e, x.w));
            break;
        }
        case Instruction::SExt: {
            const Val& a = val(s, x.ops[0]);
            s.F().regs[x.dst] = a.t == T_UNDEF ? vUndef(false, x.w) : a.t == T_INT ? vInt(sextW(a.c, a.w), x.w) : vE(eSext(a.e, x.w));
            break;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            const Val& a = val(s, x.ops[0]);
            Val r;
            if (a.t == T_UNDEF) r = vUndef(true, x.w);
            else if (a.t == T_FP) r = vFP(x.w == 32 && (g_mode == FP_EXACT || !std::isfinite((float)a.d)) ? (double)(float)a.d : a.d, x.w);
            else r = vE(eFpCast(a.e, x.w));
            s.F().regs[x.dst] = r;
            break;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            Val a = val(s, x.ops[0]);
            Val r;
            bool sg = x.op == Instruction::SIToFP;
            if (a.t == T_SYM && g_mode == FP_REAL) {
                Expr* e = a.e;
                while (e->op == ZEXT || e->op == SEXT) e = e->k[0];
                if (e->op == VAR && inputVars.count("real:" + g_vars[e->c].name)) {
                    r = vE(eFpCast(inputVars["real:" + g_vars[e->c].name], x.w));
                    s.F().regs[x.dst] = r;
                    break;
                }
                if (!concretize(s, a)) return;
            }
            if (a.t == T_UNDEF) r = vUndef(true, x.w);
            else if (a.t == T_INT) {
                double d = sg ? (double)sextW(a.c, a.w) : (double)a.c;
                if (x.w == 32 && g_mode == FP_EXACT) d = sg ? (float)sextW(a.c, a.w) : (float)a.c;
                r = vFP(d, x.w);
            } else r = vE(mk(sg ? SITOFP : UITOFP, true, x.w, a.e));
            s.F().regs[x.dst] = r;
            break;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            Val a = val(s, x.ops[0]);
            bool sg = x.op == Instruction::FPToSI;
            if (a.t == T_UNDEF) { s.F().regs[x.dst] = vUndef(false, x.w); break; }
            if (a.t == T_SYM && g_mode == FP_REAL) {
                Model m;
                Expr* tmp = mkVar("conc", true, 64, VK_AUX);
                if (checkSat(s.pc, mk(FEQ, false, 1, tmp, a.e), &m, true) != R_SAT) { inconc(s, "solver", "fptosi"); s.done = true; return; }
                double k = std::trunc(m.d[tmp->c]);
                Expr* lo = k > 0 ? eFCmp(FLE, mkFP(k, a.w), a.e) : eFCmp(FLT, mkFP(k - 1, a.w), a.e);
                Expr* hi = k < 0 ? eFCmp(FLE, a.e, mkFP(k, a.w)) : eFCmp(FLT, a.e, mkFP(k + 1, a.w));
                if (++s.concretized > 2000) { inconc(s, "limit", "too many fptosi cases"); s.done = true; return; }
                int d = decide(s, eAnd(lo, hi));
                if (s.done) return;
                if (d != 1) return;  // retry with the remaining values
                a = vFP(k, a.w);
            }
            if (a.t == T_FP) {
                double d = std::trunc(a.d);
                uint64_t u = sg ? (uint64_t)(int64_t)d : (uint64_t)d;
                if (std::isnan(d) || (sg ? (d >= std::ldexp(1.0, x.w - 1) || d < -std::ldexp(1.0, x.w - 1)) : (d >= std::ldexp(1.0, x.w) || d < 0)))
                    s.F().regs[x.dst] = vUndef(false, x.w);
                else s.F().regs[x.dst] = vInt(u, x.w);
            } else s.F().regs[x.dst] = vE(mk(sg ? FPTOSI : FPTOUI, false, x.w, a.e));
            break;
        }
        case Instruction::BitCast: {
            const Val& a = val(s, x.ops[0]);
            Val r = a;
            if (a.t == T_UNDEF) r = vUndef(x.fp, x.w);
            else if (x.fp != a.fp && a.t != T_AGG) r = vE(x.fp ? eBV2FP(toE(a)) : eFP2BV(toE(a)));
            s.F().regs[x.dst] = r;
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            const Val& a = val(s, x.ops[0]);
            Val r = a;
            if (a.w != x.w && a.t == T_INT) r = vInt(a.c, x.w);
            s.F().regs[x.dst] = r;
            break;
        }
        case Instruction::Freeze: {
            Val a = val(s, x.ops[0]);
            s.F().regs[x.dst] = a;
            break;
        }
        case Instruction::Select: {
            const Val c = val(s, x.ops[0]);
            if (c.t == T_INT) { Val r = val(s, c.c ? x.ops[1] : x.ops[2]); s.F().regs[x.dst] = r; break; }
            const Val a = val(s, x.ops[1]), b = val(s, x.ops[2]);
            if (c.t == T_UNDEF) { s.F().regs[x.dst] = vUndef(x.fp, x.w); break; }
            bool canIte = (a.t == T_INT || a.t == T_FP || a.t == T_SYM) && (b.t == T_INT || b.t == T_FP || b.t == T_SYM) && !x.I->getType()->isPointerTy() &&
                          !(g_mode == FP_REAL && x.fp);
            if (canIte) { s.F().regs[x.dst] = vE(eIte(c.e, toE(a), toE(b))); break; }
            int d = decide(s, c.e);
            if (s.done) return;
            s.F().regs[x.dst] = d ? a : b;
            break;
        }
        case Instruction::ExtractValue: {
            const Val* a = &val(s, x.ops[0]);
            for (unsigned i : x.idx) { if (a->t != T_AGG) break; a = &(*a->a)[i]; }
            Val r = *a;
            s.F().regs[x.dst] = r;
            break;
        }
        case Instruction::InsertValue: {
            Val a = val(s, x.ops[0]);
            if (a.t != T_AGG) a = zeroAgg(x.I->getType(), true);
            std::function<Val(const Val&, unsigned, const Val&)> ins = [&](const Val& g, unsigned d, const Val& v) -> Val {
                std::vector<Val> c = *g.a;
                if (d + 1 == x.idx.size()) c[x.idx[d]] = v;
                else c[x.idx[d]] = ins(c[x.idx[d]], d + 1, v);
                return vAgg(c);
            };
            s.F().regs[x.dst] = ins(a, 0, val(s, x.ops[1]));
            break;
        }
        case Instruction::ExtractElement: {
            Val a = val(s, x.ops[0]), i = val(s, x.ops[1]);
            if (a.t != T_AGG || i.t != T_INT) { s.F().regs[x.dst] = vUndef(x.fp, x.w); break; }
            s.F().regs[x.dst] = (*a.a)[i.c];
            break;
        }
        case Instruction::InsertElement: {
            Val a = val(s, x.ops[0]), i = val(s, x.ops[2]);
            std::vector<Val> c;
            auto* vt = cast<FixedVectorType>(x.I->getType());
            if (a.t == T_AGG) c = *a.a;
            else c.assign(vt->getNumElements(), vUndef(vt->getElementType()->isFloatingPointTy(), vt->getElementType()->getPrimitiveSizeInBits()));
            c[i.c] = val(s, x.ops[1]);
            s.F().regs[x.dst] = vAgg(c);
            break;
        }
        case Instruction::LandingPad: {
            s.F().regs[x.dst] = vAgg({vPtr(s.T().lpPtr), vInt(s.T().lpSel, 32)});
            break;
        }
        case Instruction::Resume: {
            const Val& a = val(s, x.ops[0]);
            uint64_t p = (*a.a)[0].c;
            // resume unwinds out of this frame
            popFrame(s);
            if (s.T().stack.empty()) { // uncaught
                Frame fr;
                unwind(s, p);
                return;
            }
            unwind(s, p);
            return;
        }
        case Instruction::AtomicRMW: {
            auto* rm = cast<AtomicRMWInst>(x.I);
            Val p = val(s, x.ops[0]);
            if (!needPtr(s, p)) return;
            uint64_t n = DL->getTypeStoreSize(x.I->getType());
            if (!access(s, p.c, n, true, "atomicrmw")) return;
            Val old = loadScalar(s, p.c, n, x.w, false);
            Val v = val(s, x.ops[1]);
            Val nv;
            bool dz;
            switch (rm->getOperation()) {
            case AtomicRMWInst::Add: nv = ibin(s, Instruction::Add, old, v, x.w, dz); break;
            case AtomicRMWInst::Sub: nv = ibin(s, Instruction::Sub, old, v, x.w, dz); break;
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Or: nv = ibin(s, Instruction::Or, old, v, x.w, dz); break;
            case AtomicRMWInst::And: nv = ibin(s, Instruction::And, old, v, x.w, dz); break;
            default: inconc(s, "unsupported", "atomicrmw"); s.done = true; return;
            }
            storeScalar(s, p.c, n, nv);
            s.F().regs[x.dst] = old;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            Val p = val(s, x.ops[0]);
            if (!needPtr(s, p)) return;
            Type* ty = cast<AtomicCmpXchgInst>(x.I)->getCompareOperand()->getType();
            uint64_t n = DL->getTypeStoreSize(ty);
            unsigned w = ty->isPointerTy() ? 64 : ty->getIntegerBitWidth();
            if (!access(s, p.c, n, true, "cmpxchg")) return;
            Val old = loadScalar(s, p.c, n, w, false), c = val(s, x.ops[1]), nv = val(s, x.ops[2]);
            if (!needInt(s, old, "cmpxchg") || !needInt(s, c, "cmpxchg")) return;
            bool ok = old.c == c.c;
            if (ok) storeScalar(s, p.c, n, nv);
            s.F().regs[x.dst] = vAgg({old, vInt(ok, 1)});
            break;
        }
        case Instruction::Fence: break;
        case Instruction::Call: case Instruction::Invoke: doCall(s, x); return;
        default: {
            inconc(s, "unsupported", std::string("instruction ") + x.I->getOpcodeName());
            s.done = true;
            return;
        }
        }
        s.F().pc++;
    }
    int findHandler(Function* F) {
        std::string n = F->getName().str();
        if ((n == "rand" || n == "random") && !F->isDeclaration()) return -2;  // the harness has its own generator
        auto it = handlerIdx.find(n);
        if (it != handlerIdx.end()) return it->second;
        // intrinsics: longest prefix
        if (n.compare(0, 5, "llvm.") == 0) {
            std::string p = n;
            for (;;) {
                auto d = p.rfind('.');
                if (d == std::string::npos || d <= 4) break;
                p = p.substr(0, d);
                it = handlerIdx.find(p);
                if (it != handlerIdx.end()) return it->second;
            }
        }
        return -2;
    }
    void doCall(State& s, DInst& x) {
        Function* F = x.callee;
        std::vector<Val> args;
        size_t na = x.ops.size() - (F ? 0 : 1);
        args.reserve(na);
        if (!F) {
            Val p = val(s, x.ops.back());
            if (isa<InlineAsm>(cast<CallBase>(x.I)->getCalledOperand())) { finishCall(s, nullptr); return; }
            if (!needPtr(s, p)) return;
            auto it = faddr.find(p.c);
            if (it == faddr.end()) {
                const MObj* o = s.mem.get(p.c >> 32);
                violation(s, "memory", p.c == 0 ? "call through a null function pointer" : (o && !o->alive) ? "call through a dangling pointer" : "call through an invalid function pointer");
                s.done = true;
                return;
            }
            F = it->second;
        }
        for (size_t i = 0; i < na; ++i) args.push_back(val(s, x.ops[i]));
        // byval arguments: copy
        auto* cb = cast<CallBase>(x.I);
        if (!stubs.empty()) {
            auto it = stubs.find(F->getName().str());
            if (it != stubs.end()) {
                Function* G = M->getFunction(it->second);
                if (G) { stubsUsed.insert(demangle(F->getName().str())); F = G; }
            }
        }
        // messages built from symbolic numbers: their text is outside every claim
        if (args.size() == 2 && args[1].t == T_SYM && F->getName().starts_with("_ZNSt7__cxx119to_stringE"))
            if (Function* G = M->getFunction("symx_rt_to_string")) F = G;
        int h = (F == x.callee && x.handler != -1) ? x.handler : findHandler(F);
        if (F == x.callee) x.handler = h;
        if (h >= 0) {
            Val ret;
            unsigned depth = s.T().stack.size();
            int curT = s.cur;
            bool fin = handlers[h](*this, s, x, args, ret);
            (void)depth; (void)curT;
            if (s.done) return;
            if (fin) finishCall(s, &ret);
            return;
        }
        if (F->isDeclaration()) {
            inconc(s, "external", "call to external function " + demangle(F->getName().str()));
            s.done = true;
            return;
        }
        std::vector<uint64_t> bv;
        for (unsigned i = 0; i < na && i < F->arg_size(); ++i)
            if (cb->isByValArgument(i)) {
                uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
                uint64_t a = alloc(s, sz, OK_STACK);
                if (args[i].t == T_INT && access(s, args[i].c, sz, false, "byval")) copyMem(s, a, args[i].c, sz);
                if (s.done) return;
                args[i] = vPtr(a);
                bv.push_back(a);
            }
        if (s.T().stack.size() > 2000) { violation(s, "stack", "stack overflow (recursion deeper than 2000 frames)"); s.done = true; return; }
        pushFrame(s, F, args);
        for (auto a : bv) s.F().allocas.push_back(a);
    }
    void runState(std::unique_ptr<State> sp) {
        State& s = *sp;
        ++paths;
        while (!s.done) {
            if (s.T().stack.empty()) { threadExit(s); continue; }
            step(s);
            if (s.steps > maxSteps) { inconc(s, "limit", "step limit"); break; }
            if ((s.steps & 0x3ff) == 0 && nowS() - t0 > maxTime) { timeUp = true; break; }
        }
    }
    void run() {
        while (!work.empty()) {
            if (timeUp || nowS() - t0 > maxTime) { timeUp = true; break; }
            if (paths >= maxPaths) { timeUp = true; break; }
            if ((int)violations.size() >= maxViol) break;
            auto st = std::move(work.back());
            work.pop_back();
            runState(std::move(st));
        }
    }
#include "handlers.inc"
    // ------------------------------------------------------------ set up
    void initGlobalBytes(State& s, MObj* o, uint64_t off, const Constant* c) {
        Type* ty = c->getType();
        if (isa<UndefValue>(c)) { return; }
        if (isa<ConstantAggregateZero>(c) || c->isNullValue()) return;
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            uint64_t es = cd->getElementByteSize();
            for (unsigned i = 0; i < cd->getNumElements(); ++i) initGlobalBytes(s, o, off + i * es, cd->getElementAsConstant(i));
            return;
        }
        if (auto* cs = dyn_cast<ConstantStruct>(c)) {
            auto* sl = DL->getStructLayout(cs->getType());
            for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobalBytes(s, o, off + sl->getElementOffset(i), cs->getOperand(i));
            return;
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<FixedVectorType>(ty)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et);
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobalBytes(s, o, off + i * es, ca->getOperand(i));
            return;
        }
        Val v = constVal(c);
        uint64_t n = DL->getTypeStoreSize(ty);
        uint64_t u = v.c;
        if (v.t == T_FP && v.w == 32) { float f = v.d; uint32_t uu; memcpy(&uu, &f, 4); u = uu; }
        for (uint64_t i = 0; i < n && i < 8; ++i) o->data[off + i] = u >> (8 * i);
    }
    void load(const std::string& path) {
        SMDiagnostic err;
        M = parseIRFile(path, err, llctx);
        if (!M) { std::cerr << "cannot load " << path << ": " << err.getMessage().str() << "\n"; exit(3); }
        DL = &M->getDataLayout();
    }
    bool start(const std::string& entry) {
        auto st = std::make_unique<State>();
        State& s = *st;
        initState = &s;
        for (auto& F : *M) {
            if (F.isIntrinsic()) continue;
            auto o = std::make_shared<MObj>();
            o->kind = OK_FUNC;
            o->size = 1;
            uint64_t a = s.mem.add(o);
            gaddr[&F] = a;
            faddr[a] = &F;
        }
        for (auto& G : M->globals()) {
            uint64_t sz = DL->getTypeAllocSize(G.getValueType());
            bool ext = G.isDeclaration();
            if (ext && sz < 256) sz = 256;
            uint64_t a = alloc(s, sz, OK_GLOBAL, G.getName().str(), true);
            gaddr[&G] = a;
            if (ext) extNames[a >> 32] = G.getName().str();
            if (ext && G.getName() == "__libc_single_threaded") s.mem.getW(a >> 32)->data[0] = 1;
            if (G.getName().starts_with("_ZTVN10__cxxabiv1")) extNames[a >> 32] = G.getName().str();
        }
        for (auto& G : M->globals()) {
            if (!G.hasInitializer()) continue;
            MObj* o = s.mem.getW(gaddr[&G] >> 32);
            if (G.getName() == "llvm.global_ctors") continue;
            initGlobalBytes(s, o, 0, G.getInitializer());
            if (G.isConstant()) o->ro = true;
        }
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
            std::vector<std::pair<uint64_t, Function*>> l;
            if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                    auto* cs = cast<ConstantStruct>(ca->getOperand(i));
                    l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1))});
                }
            std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : l) s.script.push_back(p.second);
        }
        Function* E = M->getFunction(entry);
        if (!E || E->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return false; }
        s.script.push_back(E);
        s.th.emplace_back();
        work.push_back(std::move(st));
        return true;
    }
};

static std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void writeReports(std::ostream& o, const std::vector<Report>& v) {
    o << "[";
    for (size_t i = 0; i < v.size(); ++i) {
        o << (i ? "," : "") << "\n  {\"kind\":" << js(v[i].kind) << ",\"msg\":" << js(v[i].msg) << ",\"where\":" << js(v[i].where) << ",\"trace\":" << js(v[i].trace)
          << ",\"count\":" << v[i].count << ",\"solver_unknown\":" << (v[i].solverUnknown ? "true" : "false") << ",\"inputs\":[";
        for (size_t j = 0; j < v[i].inputs.size(); ++j) o << (j ? "," : "") << "[" << js(v[i].inputs[j].first) << "," << js(v[i].inputs[j].second) << "]";
        o << "]}";
    }
    o << "]";
}
int main(int argc, char** argv) {
    Engine E;
    std::string bc, entry, out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--bc") bc = nx();
        else if (a == "--entry") entry = nx();
        else if (a == "--mode") g_mode = nx() == "exact" ? FP_EXACT : FP_REAL;
        else if (a == "--timeout-ms") g_timeoutMs = std::stoi(nx());
        else if (a == "--branch-ms") g_branchMs = std::stoi(nx());
        else if (a == "--max-time") E.maxTime = std::stod(nx());
        else if (a == "--max-steps") E.maxSteps = std::stoull(nx());
        else if (a == "--max-viol") E.maxViol = std::stoi(nx());
        else if (a == "--sched") { auto m = nx(); E.schedMode = m == "explore" ? 2 : m == "join" ? 1 : 0; }
        else if (a == "--preempt") E.preemptBound = std::stoi(nx());
        else if (a == "--shard") { auto m = nx(); sscanf(m.c_str(), "%d/%d", &E.shardI, &E.shardN); }
        else if (a == "--stub") { auto m = nx(); auto p = m.find('='); E.stubs[m.substr(0, p)] = m.substr(p + 1); }
        else if (a == "--models") E.wantModels = std::stoi(nx());
        else if (a == "--out") out = nx();
        else if (a == "-v") { E.trace = true; g_verbose = true; }
        else { std::cerr << "unknown option " << a << "\n"; return 3; }
    }
    E.t0 = nowS();
    E.load(bc);
    E.initHandlers();
    if (!E.start(entry)) return 3;
    E.run();
    double wall = nowS() - E.t0;
    std::ofstream fo;
    std::ostream* o = &std::cout;
    if (!out.empty()) { fo.open(out); o = &fo; }
    *o << "{\"entry\":" << js(entry) << ",\n\"mode\":" << js(g_mode == FP_REAL ? "real" : "exact") << ",\n\"paths\":" << E.paths << ",\"completed\":" << E.completed
       << ",\"pending\":" << E.work.size() << ",\"time_up\":" << (E.timeUp ? "true" : "false") << ",\"forks\":" << E.forks << ",\"instructions\":" << E.totalSteps
       << ",\"mem_checks\":" << E.memChecks << ",\"objects\":" << E.objs
       << ",\n\"asserts\":" << E.assertsChecked << ",\"asserts_concrete\":" << E.assertsConcrete << ",\"asserts_proved\":" << E.assertsProved << ",\"asserts_within_tolerance\":" << E.assertsTol
       << ",\n\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown
       << ",\"cache_hits\":" << g_ss.cacheHits << ",\"identities\":" << g_ss.identities << ",\"identity_terms\":" << g_ss.identityTerms << ",\"interval_decisions\":" << g_ss.intervalHits
       << ",\"solver_s\":" << g_ss.time << ",\"identity_s\":" << g_ss.identityTime << ",\"wall_s\":" << wall << ",\n\"symbolic_vars\":" << g_vars.size() << ",\n\"reach\":{";
    bool first = true;
    for (auto& r : E.reach) { *o << (first ? "" : ",") << js(r.first) << ":" << r.second; first = false; }
    *o << "},\n\"assert_sites\":{";
    first = true;
    for (auto& r : E.assertSites) { *o << (first ? "" : ",") << js(r.first) << ":" << r.second; first = false; }
    *o << "},\n\"functions\":[";
    first = true;
    for (auto& p : E.dfns) {
        if (!p.second->count) continue;
        auto sp = p.first->getSubprogram();
        std::string fn = sp ? sp->getFilename().str() : "";
        if (fn.find("xmm") == std::string::npos && p.second->pretty.find("xmm::") != 0) continue;
        if (fn.find("harness") != std::string::npos) continue;
        if (p.second->pretty.find("std::") == 0 || p.second->pretty.find("Json::") == 0) continue;
        *o << (first ? "" : ",") << "\n " << js(p.second->pretty);
        first = false;
    }
    *o << "],\n\"stubs\":[";
    first = true;
    for (auto& r : E.stubsUsed) { *o << (first ? "" : ",") << js(r); first = false; }
    *o << "],\n\"samples\":[";
    first = true;
    for (auto& r : E.samplePaths) { *o << (first ? "" : ",") << js(r); first = false; }
    *o << "],\n\"inconclusive\":";
    writeReports(*o, E.inconclusive);
    *o << ",\n\"models\":";
    writeReports(*o, E.models);
    for (auto& f : E.forkSites) std::cerr << "forks " << f.second << " at " << f.first << "\n";
    *o << ",\n\"violations\":";
    writeReports(*o, E.violations);
    *o << "}\n";
    return 0;
}
