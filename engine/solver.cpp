#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <cstdlib>
#include <sstream>
#include <functional>
#include "solver.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <iostream>
#include <random>
#include <set>
#include <unordered_map>
#include <unordered_set>

SolverStats g_ss;
int g_timeoutMs = 5000;
int g_branchMs = 0;  // time for a branch on a transcendental term (0: default)
bool g_verbose = false;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- prime field evaluation (filter only)
typedef unsigned __int128 u128;
static const uint64_t P = (1ull << 61) - 1;
static uint64_t mulp(uint64_t a, uint64_t b) {
    u128 r = (u128)a * b;
    uint64_t lo = (uint64_t)(r & P), hi = (uint64_t)(r >> 61);
    uint64_t s = lo + hi;
    return s >= P ? s - P : s;
}
static uint64_t powp(uint64_t a, uint64_t e) {
    uint64_t r = 1;
    for (; e; e >>= 1, a = mulp(a, a)) if (e & 1) r = mulp(r, a);
    return r;
}
static uint64_t mix(uint64_t x) {
    x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; x ^= x >> 33;
    return x % P;
}
struct FieldEval {
    uint64_t seed;
    uint32_t cut;  // nodes with id < cut are atoms (0: expand everything)
    std::unordered_map<const Expr*, uint64_t> memo;
    bool ok = true;
    uint64_t modq(const mpq_class& q) {
        mpz_class p;
        mpz_import(p.get_mpz_t(), 1, 1, 8, 0, 0, &P);
        mpz_class n = q.get_num() % p, d = q.get_den() % p;
        if (n < 0) n += p;
        uint64_t nn = 0, dd = 0;
        mpz_export(&nn, nullptr, 1, 8, 0, 0, n.get_mpz_t());
        mpz_export(&dd, nullptr, 1, 8, 0, 0, d.get_mpz_t());
        if (dd == 0) { ok = false; return 0; }
        return mulp(nn, powp(dd, P - 2));
    }
    uint64_t ev(const Expr* e) {
        mpq_class q;
        if (constQ(e, q)) return modq(q);
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        uint64_t r;
        if (e->id < cut || e->n == 0) r = mix(e->id * 0x9E3779B97F4A7C15ull + seed);
        else {
            switch (e->op) {
            case FADD: { uint64_t s = ev(e->k[0]) + ev(e->k[1]); r = s >= P ? s - P : s; break; }
            case FSUB: { uint64_t s = ev(e->k[0]) + P - ev(e->k[1]); r = s >= P ? s - P : s; break; }
            case FMUL: r = mulp(ev(e->k[0]), ev(e->k[1])); break;
            case FDIV: { uint64_t d = ev(e->k[1]); if (!d) ok = false; r = mulp(ev(e->k[0]), powp(d, P - 2)); break; }
            case FNEG: { uint64_t v = ev(e->k[0]); r = v ? P - v : 0; break; }
            case FPCAST: r = ev(e->k[0]); break;
            case FABS: { uint64_t v = ev(e->k[0]); r = mix(std::min(v, P - v) + 77 + seed); break; }
            case FSQRT: r = mix(ev(e->k[0]) * 31 + 7 + seed); break;
            case UF: {
                uint64_t h = ev(e->k[0]);
                if (e->n > 1) h = mix(h + 0x1234567) ^ ev(e->k[1]);
                r = mix(h * 131 + e->c * 977 + seed);
                break;
            }
            default: r = mix(e->id * 0x9E3779B97F4A7C15ull + seed);
            }
        }
        memo[e] = r;
        return r;
    }
};

// ---------------------------------------------------------------- exact rational-function normal form
typedef std::vector<std::pair<uint32_t, uint16_t>> Mono;
struct MonoHash {
    size_t operator()(const Mono& m) const {
        size_t h = 1469598103934665603ull;
        for (auto& p : m) h = (h ^ p.first) * 1099511628211ull + p.second;
        return h;
    }
};
typedef std::map<Mono, mpq_class> Poly;
struct TooBig {};
static const size_t MAXTERMS = 60000;
static Mono mulMono(const Mono& a, const Mono& b) {
    Mono r;
    r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { r.push_back({a[i].first, (uint16_t)(a[i].second + b[j].second)}); ++i; ++j; }
    }
    return r;
}
static double g_nfDeadline = 0;
static Poly addP(const Poly& a, const Poly& b, int sgn = 1) {
    Poly r = a;
    for (auto& t : b) {
        auto it = r.find(t.first);
        if (it == r.end()) r.emplace(t.first, sgn > 0 ? t.second : mpq_class(-t.second));
        else {
            if (sgn > 0) it->second += t.second; else it->second -= t.second;
            if (it->second == 0) r.erase(it);
        }
    }
    if (r.size() > MAXTERMS) throw TooBig();
    return r;
}
static Poly mulP(const Poly& a, const Poly& b) {
    if (a.size() * b.size() > 4000000) throw TooBig();
    std::unordered_map<Mono, mpq_class, MonoHash> acc;
    size_t cnt = 0;
    for (auto& x : a) for (auto& y : b) {
        acc[mulMono(x.first, y.first)] += x.second * y.second;
        if (acc.size() > MAXTERMS) throw TooBig();
        if ((++cnt & 4095) == 0 && g_nfDeadline && now() > g_nfDeadline) throw TooBig();
    }
    Poly r;
    for (auto& t : acc) if (t.second != 0) r.emplace(t.first, t.second);
    return r;
}
static bool isOneP(const Poly& p) { return p.size() == 1 && p.begin()->first.empty() && p.begin()->second == 1; }
struct Rat {
    Poly n;
    std::map<int, int> d;  // denominator: factor id -> multiplicity
};
// a positive product with an exponential among its factors (such as a density)
static bool density(const Expr* e, bool& exp, int level) {
    if (e->op == FPCAST) return density(e->k[0], exp, level);
    if (e->op == FMUL) return density(e->k[0], exp, level) && density(e->k[1], exp, level);
    if (e->op == FDIV) return (level == 2 || !e->k[1]->has_uf) && density(e->k[0], exp, level);
    if (e->op == UF && g_ufs[e->c] == "exp") { exp = true; return true; }
    mpq_class q;
    return !e->has_uf && (level < 2 || !constQ(e, q));
}
struct NF {
    uint32_t cut;
    int opaque = 0;  // 1: densities are atoms, 2: and their quotients
    std::unordered_map<const Expr*, Rat> memo;
    std::vector<Poly> factors;
    std::vector<std::pair<const Expr*, uint32_t>> ufs;  // canonical uf apps
    std::map<uint32_t, Poly> sqOf;                        // sqrt atom -> radicand is substituted lazily (unused)
    Poly constP(const mpq_class& q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
    Rat atom(uint32_t id) { Rat r; r.n[Mono{{id, 1}}] = 1; return r; }
    int factorId(const Poly& p) {
        for (size_t i = 0; i < factors.size(); ++i) if (factors[i] == p) return i;
        factors.push_back(p);
        return factors.size() - 1;
    }
    Poly expand(const std::map<int, int>& d) {
        Poly r = constP(1);
        for (auto& f : d) for (int i = 0; i < f.second; ++i) r = mulP(r, factors[f.first]);
        return r;
    }
    Rat add(const Rat& a, const Rat& b, int sgn) {
        if (a.d == b.d) { Rat r; r.n = addP(a.n, b.n, sgn); r.d = a.d; if (r.n.empty()) r.d.clear(); return r; }
        std::map<int, int> l = a.d;
        for (auto& f : b.d) l[f.first] = std::max(l[f.first], f.second);
        std::map<int, int> ra, rb;
        for (auto& f : l) {
            auto ia = a.d.find(f.first); int ca = ia == a.d.end() ? 0 : ia->second;
            auto ib = b.d.find(f.first); int cb = ib == b.d.end() ? 0 : ib->second;
            if (f.second > ca) ra[f.first] = f.second - ca;
            if (f.second > cb) rb[f.first] = f.second - cb;
        }
        Rat r;
        r.n = addP(mulP(a.n, expand(ra)), mulP(b.n, expand(rb)), sgn);
        r.d = l;
        if (r.n.empty()) r.d.clear();
        return r;
    }
    Rat mul(const Rat& a, const Rat& b) {
        Rat r;
        // cancel factors
        std::map<int, int> da = a.d, db = b.d;
        Poly na = a.n, nb = b.n;
        auto cancel = [&](Poly& n, std::map<int, int>& d) {
            for (auto it = d.begin(); it != d.end();) {
                if (n == factors[it->first]) { n = constP(1); if (--it->second == 0) it = d.erase(it); else ++it; }
                else ++it;
            }
        };
        cancel(na, db);
        cancel(nb, da);
        r.n = mulP(na, nb);
        r.d = da;
        for (auto& f : db) r.d[f.first] += f.second;
        if (r.n.empty()) r.d.clear();
        return r;
    }
    Rat inv(const Rat& a) {
        if (a.n.empty()) throw TooBig();
        Rat r;
        r.n = expand(a.d);
        if (a.n.size() == 1 && a.n.begin()->first.empty()) {
            Poly c = constP(1 / a.n.begin()->second);
            r.n = mulP(r.n, c);
            return r;
        }
        // make monic so that equal factors up to a scalar coincide
        mpq_class lead = a.n.begin()->second;
        Poly m;
        for (auto& t : a.n) m[t.first] = t.second / lead;
        r.n = mulP(r.n, constP(1 / lead));
        if (m.size() == 1 && m.begin()->first.size() >= 1) {
            // monomial denominator: one factor per atom
            for (auto& v : m.begin()->first) { Poly f; f[Mono{{v.first, 1}}] = 1; r.d[factorId(f)] += v.second; }
        } else r.d[factorId(m)] += 1;
        return r;
    }
    bool equalRat(const Rat& a, const Rat& b) {
        Rat s = add(a, b, -1);
        return s.n.empty();
    }
    const Rat& nf(const Expr* e) {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        if (g_nfDeadline && now() > g_nfDeadline) throw TooBig();
        Rat r;
        mpq_class q;
        if (constQ(e, q)) r.n = constP(q);
        else if (e->id < cut || e->n == 0) r = atom(e->id);
        else if (bool x = false; opaque && (e->op == FMUL || e->op == FDIV) && e->has_uf && exprSign(e) == 2 && density(e, x, opaque) && x) r = atom(e->id);
        else switch (e->op) {
        case FADD: r = add(nf(e->k[0]), nf(e->k[1]), 1); break;
        case FSUB: r = add(nf(e->k[0]), nf(e->k[1]), -1); break;
        case FMUL: { Rat a = nf(e->k[0]), b = nf(e->k[1]); r = mul(a, b); break; }
        case FDIV: { Rat a = nf(e->k[0]), b = inv(nf(e->k[1])); r = mul(a, b); break; }
        case FNEG: r = nf(e->k[0]); for (auto& t : r.n) t.second = -t.second; break;
        case FPCAST: r = nf(e->k[0]); break;
        case FABS: case FSQRT: case UF: {
            // unify applications whose arguments have equal normal forms
            uint32_t id = e->id;
            std::vector<Rat> args;
            for (unsigned i = 0; i < e->n; ++i) args.push_back(nf(e->k[i]));
            bool found = false;
            for (auto& u : ufs) {
                const Expr* o = u.first;
                if (o->op != e->op || o->c != e->c || o->n != e->n) continue;
                bool eq = true;
                for (unsigned i = 0; i < e->n && eq; ++i) {
                    const Rat& oa = memo[o->k[i]];
                    eq = equalRat(oa, args[i]);
                    if (!eq && e->op == FABS) { Rat s = add(oa, args[i], 1); eq = s.n.empty(); }
                }
                if (eq) { id = u.second; found = true; break; }
            }
            if (!found) ufs.push_back({e, e->id});
            r = atom(id);
            break;
        }
        default: r = atom(e->id);
        }
        return memo[e] = r;
    }
};

static void collect(const Expr* e, std::unordered_set<const Expr*>& seen, std::vector<uint32_t>& ids) {
    if (!seen.insert(e).second) return;
    if (e->n && e->fp) ids.push_back(e->id);
    for (unsigned i = 0; i < e->n; ++i) if (e->k[i]->fp) collect(e->k[i], seen, ids);
}
static std::unordered_map<uint64_t, bool> g_eqCache;
bool proveEqReal(Expr* a, Expr* b) {
    if (a == b) return true;
    if (!a->fp || !b->fp) return false;
    uint64_t key = ((uint64_t)std::min(a->id, b->id) << 32) | std::max(a->id, b->id);
    auto ci = g_eqCache.find(key);
    if (ci != g_eqCache.end()) return ci->second;
    double t0 = now();
    auto fieldEq = [&](uint32_t cut) {
        for (uint64_t s = 1; s <= 2; ++s) {
            FieldEval f{s * 0x51ed2701ull + 17, cut};
            uint64_t x = f.ev(a), y = f.ev(b);
            if (!f.ok || x != y) return false;
        }
        return true;
    };
    bool res = false;
    if (fieldEq(0)) {
        std::unordered_set<const Expr*> seen;
        std::vector<uint32_t> ids;
        collect(a, seen, ids);
        collect(b, seen, ids);
        std::sort(ids.begin(), ids.end());
        // largest cut for which the identity still holds (fewest expanded nodes)
        size_t lo = 0, hi = ids.size();  // cut = ids[lo] known good when lo==0 (cut<=min id)
        while (lo + 1 < hi) {
            size_t mid = (lo + hi) / 2;
            if (fieldEq(ids[mid])) lo = mid; else hi = mid;
        }
        std::vector<uint32_t> cuts;
        if (!ids.empty()) cuts.push_back(ids[lo]);
        for (size_t f = 2; f <= 8 && lo; f *= 2) cuts.push_back(ids[lo - lo / f]);
        cuts.push_back(0);
        for (uint32_t c : cuts) {
            if (c && !fieldEq(c)) continue;
            try {
                g_nfDeadline = now() + 10;
                NF nf;
                nf.cut = c;
                Rat ra = nf.nf(a), rb = nf.nf(b);
                Rat s = nf.add(ra, rb, -1);
                if (s.n.empty()) { res = true; g_ss.identityTerms += ra.n.size() + rb.n.size(); break; }
            } catch (TooBig&) {}
        }
        g_nfDeadline = 0;
    }
    g_eqCache[key] = res;
    if (res) ++g_ss.identities;
    g_ss.identityTime += now() - t0;
    return res;
}

// ---------------------------------------------------------------- Z3
static z3::context* C = nullptr;
static z3::context& ctx() {
    if (!C) C = new z3::context();
    return *C;
}
struct Trans {
    std::unordered_map<const Expr*, z3::expr> memo;
    std::vector<z3::expr> side;
    std::vector<const Expr*> ufs;
    bool interpFp = true;
    bool usesBV = false, usesReal = false, usesFP = false;

    z3::expr real(const mpq_class& q) { return ctx().real_val(q.get_str().c_str()); }
    z3::sort fps(unsigned w) { return w == 32 ? ctx().fpa_sort<32>() : ctx().fpa_sort<64>(); }
    z3::expr fresh(const Expr* e, const char* pfx) {
        std::string n = std::string(pfx) + "!" + std::to_string(e->id);
        if (e->fp) {
            if (g_mode == FP_REAL) return ctx().real_const(n.c_str());
            return ctx().constant(n.c_str(), fps(e->w));
        }
        if (e->w == 1) return ctx().bool_const(n.c_str());
        return ctx().bv_const(n.c_str(), e->w);
    }
    z3::expr bv1(z3::expr b) { return z3::ite(b, ctx().bv_val(1, 1), ctx().bv_val(0, 1)); }
    z3::expr asBV(const Expr* e) { z3::expr x = tr(e); return e->w == 1 && x.is_bool() ? bv1(x) : x; }
    z3::expr tr(const Expr* e) {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        z3::expr r = tr2(e);
        memo.emplace(e, r);
        return r;
    }
    z3::expr fpval(double d, unsigned w) {
        // NaN / inf aware construction from the bit pattern
        if (w == 32) {
            float f = d; uint32_t u; memcpy(&u, &f, 4);
            return z3::to_expr(ctx(), Z3_mk_fpa_to_fp_bv(ctx(), ctx().bv_val(u, 32), fps(32)));
        }
        uint64_t u; memcpy(&u, &d, 8);
        return z3::to_expr(ctx(), Z3_mk_fpa_to_fp_bv(ctx(), ctx().bv_val((uint64_t)u, 64), fps(64)));
    }
    z3::expr tr2(const Expr* e) {
        z3::context& c = ctx();
        if (e->fp) { if (g_mode == FP_REAL) usesReal = true; else usesFP = true; }
        else if (e->w > 1) usesBV = true;
        switch (e->op) {
        case CONST_BV: if (e->w == 1) return c.bool_val(e->c != 0); return c.bv_val((uint64_t)e->c, e->w);
        case CONST_FP:
            if (g_mode == FP_REAL) {
                double d = asD(e);
                if (!std::isfinite(d)) return fresh(e, "nonfinite");
                return real(mpq_class(d));
            }
            return fpval(asD(e), e->w);
        case CONST_Q: return real(*e->q);
        case VAR: {
            std::string n = "v" + std::to_string(e->c);
            if (e->fp) return g_mode == FP_REAL ? c.real_const(n.c_str()) : c.constant(n.c_str(), fps(e->w));
            if (e->w == 1) return c.bool_const(n.c_str());
            return c.bv_const(n.c_str(), e->w);
        }
        case ADD: return asBV(e->k[0]) + asBV(e->k[1]);
        case SUB: return asBV(e->k[0]) - asBV(e->k[1]);
        case MUL: return asBV(e->k[0]) * asBV(e->k[1]);
        case UDIV: return z3::udiv(asBV(e->k[0]), asBV(e->k[1]));
        case SDIV: return asBV(e->k[0]) / asBV(e->k[1]);
        case UREM: return z3::urem(asBV(e->k[0]), asBV(e->k[1]));
        case SREM: return z3::srem(asBV(e->k[0]), asBV(e->k[1]));
        case SHL: return z3::shl(asBV(e->k[0]), asBV(e->k[1]));
        case LSHR: return z3::lshr(asBV(e->k[0]), asBV(e->k[1]));
        case ASHR: return z3::ashr(asBV(e->k[0]), asBV(e->k[1]));
        case AND: if (e->w == 1) return tr(e->k[0]) && tr(e->k[1]); return tr(e->k[0]) & tr(e->k[1]);
        case OR: if (e->w == 1) return tr(e->k[0]) || tr(e->k[1]); return tr(e->k[0]) | tr(e->k[1]);
        case XOR: if (e->w == 1) return tr(e->k[0]) != tr(e->k[1]); return tr(e->k[0]) ^ tr(e->k[1]);
        case NOT: return !tr(e->k[0]);
        case CONCAT: return z3::concat(asBV(e->k[0]), asBV(e->k[1]));
        case EXTRACT: {
            z3::expr x = asBV(e->k[0]).extract(e->c + e->w - 1, e->c);
            return e->w == 1 ? (x == c.bv_val(1, 1)) : x;
        }
        case ZEXT: return z3::zext(asBV(e->k[0]), e->w - e->k[0]->w);
        case SEXT: return z3::sext(asBV(e->k[0]), e->w - e->k[0]->w);
        case ITE: return z3::ite(tr(e->k[0]), tr(e->k[1]), tr(e->k[2]));
        case EQ: return tr(e->k[0]) == tr(e->k[1]);
        case ULT: return z3::ult(asBV(e->k[0]), asBV(e->k[1]));
        case ULE: return z3::ule(asBV(e->k[0]), asBV(e->k[1]));
        case SLT: return z3::slt(asBV(e->k[0]), asBV(e->k[1]));
        case SLE: return z3::sle(asBV(e->k[0]), asBV(e->k[1]));
        case FEQ: {
            z3::expr a = tr(e->k[0]), b = tr(e->k[1]);
            if (g_mode == FP_REAL) return a == b;
            return z3::to_expr(c, Z3_mk_fpa_eq(c, a, b));
        }
        case FLT: {
            z3::expr a = tr(e->k[0]), b = tr(e->k[1]);
            if (g_mode == FP_REAL) return a < b;
            return z3::to_expr(c, Z3_mk_fpa_lt(c, a, b));
        }
        case FLE: {
            z3::expr a = tr(e->k[0]), b = tr(e->k[1]);
            if (g_mode == FP_REAL) return a <= b;
            return z3::to_expr(c, Z3_mk_fpa_leq(c, a, b));
        }
        case FISNAN: return z3::to_expr(c, Z3_mk_fpa_is_nan(c, tr(e->k[0])));
        case FNEG: if (g_mode == FP_REAL) return -tr(e->k[0]); return z3::to_expr(c, Z3_mk_fpa_neg(c, tr(e->k[0])));
        case FABS: {
            z3::expr a = tr(e->k[0]);
            if (g_mode == FP_REAL) return z3::ite(a >= 0, a, -a);
            return z3::to_expr(c, Z3_mk_fpa_abs(c, a));
        }
        case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: {
            if (g_mode == FP_REAL) {
                z3::expr a = tr(e->k[0]);
                if (e->op == FSQRT) {
                    z3::expr s = fresh(e, "sqrt");
                    side.push_back(s >= 0);
                    side.push_back(s * s == a);
                    return s;
                }
                z3::expr b = tr(e->k[1]);
                if (e->op == FADD) return a + b;
                if (e->op == FSUB) return a - b;
                if (e->op == FMUL) return a * b;
                z3::expr q = fresh(e, "div");
                side.push_back(b != 0);
                side.push_back(q * b == a);
                if (exprSign(e->k[1]) == 2) side.push_back(b > 0);
                if (int g = exprSign(e)) side.push_back(g == 2 ? q > 0 : q >= 0);
                return q;
            }
            if (!interpFp) { ufs.push_back(e); return fresh(e, "op"); }
            z3::expr rm = z3::to_expr(c, Z3_mk_fpa_rne(c));
            z3::expr a = tr(e->k[0]);
            if (e->op == FSQRT) return z3::to_expr(c, Z3_mk_fpa_sqrt(c, rm, a));
            z3::expr b = tr(e->k[1]);
            switch (e->op) {
            case FADD: return z3::to_expr(c, Z3_mk_fpa_add(c, rm, a, b));
            case FSUB: return z3::to_expr(c, Z3_mk_fpa_sub(c, rm, a, b));
            case FMUL: return z3::to_expr(c, Z3_mk_fpa_mul(c, rm, a, b));
            default: return z3::to_expr(c, Z3_mk_fpa_div(c, rm, a, b));
            }
        }
        case FPCAST:
            if (g_mode == FP_REAL) return tr(e->k[0]);
            return z3::to_expr(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), tr(e->k[0]), fps(e->w)));
        case SITOFP:
            if (g_mode == FP_REAL) return z3::to_real(z3::bv2int(asBV(e->k[0]), true));
            return z3::to_expr(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), asBV(e->k[0]), fps(e->w)));
        case UITOFP:
            if (g_mode == FP_REAL) return z3::to_real(z3::bv2int(asBV(e->k[0]), false));
            return z3::to_expr(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), asBV(e->k[0]), fps(e->w)));
        case FPTOSI:
            if (g_mode == FP_REAL) { ufs.push_back(e); return fresh(e, "fptosi"); }
            return z3::to_expr(c, Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), tr(e->k[0]), e->w));
        case FPTOUI:
            if (g_mode == FP_REAL) { ufs.push_back(e); return fresh(e, "fptoui"); }
            return z3::to_expr(c, Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), tr(e->k[0]), e->w));
        case BV2FP:
            if (g_mode == FP_REAL) { ufs.push_back(e); return fresh(e, "bv2fp"); }
            return z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, tr(e->k[0]), fps(e->w)));
        case FP2BV:
            if (g_mode == FP_REAL) { ufs.push_back(e); return fresh(e, "fp2bv"); }
            return z3::to_expr(c, Z3_mk_fpa_to_ieee_bv(c, tr(e->k[0])));
        case UF: {
            for (unsigned i = 0; i < e->n; ++i) tr(e->k[i]);
            z3::expr r = fresh(e, "uf");
            ufs.push_back(e);
            if (g_mode == FP_REAL) {
                z3::expr a = tr(e->k[0]);
                const std::string& n = g_ufs[e->c];
                if (n == "exp") { side.push_back(r > 0); }
                if (n == "floor") { side.push_back(r <= a); side.push_back(a < r + 1); }
                if (n == "ceil") { side.push_back(r >= a); side.push_back(a > r - 1); }
            }
            return r;
        }
        }
        return fresh(e, "unk");
    }
    // congruence (and monotonicity for exp/log) between uf applications
    void pairAxioms() {
        for (size_t i = 0; i < ufs.size(); ++i) {
            const Expr* a = ufs[i];
            if (g_mode == FP_REAL && a->op == UF) {
                const std::string& n = g_ufs[a->c];
                z3::expr x = tr(a->k[0]), y = tr(a);
                if (n == "exp") {
                    side.push_back(y >= 1 + x);
                    side.push_back(z3::implies(x <= 0, y <= 1));
                }
                if (n == "log") side.push_back(y <= x - 1);
            }
            for (size_t j = 0; j < i; ++j) {
                const Expr* b = ufs[j];
                if (a->op != b->op || a->c != b->c || a->w != b->w || a->n != b->n || a->op == BV2FP) continue;
                if (a->op != UF) continue;
                z3::expr hyp = ctx().bool_val(true);
                for (unsigned k = 0; k < a->n; ++k) hyp = hyp && (tr(a->k[k]) == tr(b->k[k]));
                side.push_back(z3::implies(hyp, tr(a) == tr(b)));
                if (g_mode == FP_REAL && (g_ufs[a->c] == "exp" || g_ufs[a->c] == "log"))
                    side.push_back((tr(a->k[0]) < tr(b->k[0])) == (tr(a) < tr(b)));
            }
        }
    }
};

static std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
static void extractModel(z3::model& m, const std::set<uint32_t>& vars, Model* out) {
    for (uint32_t v : vars) {
        const VarInfo& vi = g_vars[v];
        std::string n = "v" + std::to_string(v);
        z3::context& c = ctx();
        if (vi.fp && g_mode == FP_REAL) {
            z3::expr x = m.eval(c.real_const(n.c_str()), true);
            std::string s;
            double d = 0;
            if (x.is_numeral()) {
                mpq_class q(std::string(Z3_get_numeral_string(c, x)));
                q.canonicalize();
                d = q.get_d();
            } else if (x.is_algebraic()) {
                s = Z3_get_numeral_decimal_string(c, x, 25);
                d = atof(s.c_str());
            }
            out->d[v] = d;
            out->val[v] = hexd(d);
        } else if (vi.fp) {
            z3::expr x = c.constant(n.c_str(), vi.w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>());
            z3::expr b = m.eval(z3::to_expr(c, Z3_mk_fpa_to_ieee_bv(c, m.eval(x, true))), true);
            uint64_t u = 0;
            b.is_numeral_u64(u);
            double d;
            if (vi.w == 32) { float f; uint32_t uu = u; memcpy(&f, &uu, 4); d = f; }
            else memcpy(&d, &u, 8);
            out->d[v] = d;
            out->val[v] = hexd(d);
        } else {
            uint64_t u = 0;
            if (vi.w == 1) u = m.eval(c.bool_const(n.c_str()), true).is_true();
            else m.eval(c.bv_const(n.c_str(), vi.w), true).is_numeral_u64(u);
            out->u[v] = u;
            out->val[v] = std::to_string(u);
        }
    }
}

// slicing on shared variables
static void sliceConstraints(const std::vector<Expr*>& pc, Expr* extra, std::vector<Expr*>& out) {
    std::set<uint32_t> vs(extra->vars->begin(), extra->vars->end());
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (used[i]) continue;
            bool hit = false;
            for (uint32_t v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
            if (hit) {
                used[i] = 1;
                ch = true;
                vs.insert(pc[i]->vars->begin(), pc[i]->vars->end());
            }
        }
    }
    for (size_t i = 0; i < pc.size(); ++i) if (used[i]) out.push_back(pc[i]);
}

// ------------------------------------------------ interval reasoning over the reals (sound, cheap)
struct Iv { double lo, hi; bool lo_open = false, hi_open = false; };
static double dn(double x) { return std::isfinite(x) ? std::nextafter(x, -INFINITY) : x; }
static double up(double x) { return std::isfinite(x) ? std::nextafter(x, INFINITY) : x; }
struct Intervals {
    std::unordered_map<const Expr*, Iv> bounds;  // from constraints
    std::unordered_map<const Expr*, Iv> memo;
    void load(const std::vector<Expr*>& pc) {
        for (Expr* c : pc) {
            bool neg = c->op == NOT;
            Expr* a = neg ? c->k[0] : c;
            if (a->op == FLT) {
                // a<b  or !(a<b) == b<=a
                Expr *x = a->k[0], *y = a->k[1];
                mpq_class q;
                if (constQ(y, q)) { if (!neg) setHi(x, up(q.get_d()), true, q); else setLo(x, dn(q.get_d()), false, q); }
                else if (constQ(x, q)) { if (!neg) setLo(y, dn(q.get_d()), true, q); else setHi(y, up(q.get_d()), false, q); }
            } else if (a->op == FEQ && !neg) {
                mpq_class q;
                if (constQ(a->k[0], q)) { setLo(a->k[1], dn(q.get_d()), false, q); setHi(a->k[1], up(q.get_d()), false, q); }
                else if (constQ(a->k[1], q)) { setLo(a->k[0], dn(q.get_d()), false, q); setHi(a->k[0], up(q.get_d()), false, q); }
            } else if (a->op == FEQ && neg) {
                mpq_class q;
                Expr* o = nullptr;
                if (constQ(a->k[0], q) && q == 0) o = a->k[1];
                else if (constQ(a->k[1], q) && q == 0) o = a->k[0];
                if (o) nz.insert(o);
            }
        }
    }
    std::unordered_set<const Expr*> nz;
    static double exact(const mpq_class& q, double approx) { double d = q.get_d(); return mpq_class(d) == q ? d : approx; }
    void setLo(const Expr* e, double v, bool open, const mpq_class& q) {
        v = exact(q, v);
        Iv& i = bounds.emplace(e, Iv{-INFINITY, INFINITY}).first->second;
        if (v > i.lo || (v == i.lo && open)) { i.lo = v; i.lo_open = open; }
    }
    void setHi(const Expr* e, double v, bool open, const mpq_class& q) {
        v = exact(q, v);
        Iv& i = bounds.emplace(e, Iv{-INFINITY, INFINITY}).first->second;
        if (v < i.hi || (v == i.hi && open)) { i.hi = v; i.hi_open = open; }
    }
    Iv get(const Expr* e) {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        Iv r = comp(e);
        if (e->op == FADD || e->op == FSUB || e->op == FMUL || e->op == FDIV) {
            double lo, hi;
            exprBounds(e, lo, hi);
            if (lo > r.lo) { r.lo = lo; r.lo_open = false; }
            if (hi < r.hi) { r.hi = hi; r.hi_open = false; }
            if (r.lo == 0 && exprSign(e) == 2) r.lo_open = true;
        }
        auto b = bounds.find(e);
        if (b != bounds.end()) {
            const Iv& x = b->second;
            if (x.lo > r.lo || (x.lo == r.lo && x.lo_open)) { r.lo = x.lo; r.lo_open = x.lo_open; }
            if (x.hi < r.hi || (x.hi == r.hi && x.hi_open)) { r.hi = x.hi; r.hi_open = x.hi_open; }
        }
        if (nz.count(e)) { if (r.lo == 0) r.lo_open = true; if (r.hi == 0) r.hi_open = true; }
        return memo[e] = r;
    }
    Iv comp(const Expr* e) {
        mpq_class q;
        if (constQ(e, q)) {
            double d = q.get_d();
            if (mpq_class(d) == q) return {d, d};
            return {dn(d), up(d)};
        }
        switch (e->op) {
        case FNEG: { Iv a = get(e->k[0]); return {-a.hi, -a.lo, a.hi_open, a.lo_open}; }
        case FPCAST: return get(e->k[0]);
        case FABS: {
            Iv a = get(e->k[0]);
            if (a.lo >= 0) return a;
            if (a.hi <= 0) return {-a.hi, -a.lo, a.hi_open, a.lo_open};
            return {0, std::max(-a.lo, a.hi)};
        }
        case FADD: case FSUB: {
            Iv a = get(e->k[0]), b = get(e->k[1]);
            if (e->op == FSUB) b = {-b.hi, -b.lo, b.hi_open, b.lo_open};
            double l = a.lo + b.lo, h = a.hi + b.hi;
            Iv r{l == 0 && a.lo == 0 && b.lo == 0 ? 0 : dn(l), h == 0 && a.hi == 0 && b.hi == 0 ? 0 : up(h)};
            if (a.lo >= 0 && b.lo >= 0 && r.lo < 0) r.lo = 0;
            if (a.lo >= 0 && b.lo > 0 && r.lo <= 0) { r.lo = 0; r.lo_open = true; }
            if (r.lo <= 0 && a.lo >= 0 && b.lo >= 0) {
                bool pa = a.lo > 0 || a.lo_open, pb = b.lo > 0 || b.lo_open;
                r.lo = 0; r.lo_open = pa || pb;
            }
            if (a.hi <= 0 && b.hi <= 0 && r.hi >= 0) {
                r.hi = 0; r.hi_open = (a.hi < 0 || a.hi_open) || (b.hi < 0 || b.hi_open);
            }
            return r;
        }
        case FMUL: {
            Iv a = get(e->k[0]), b = get(e->k[1]);
            if (e->k[0] == e->k[1]) {
                double m = std::max(std::fabs(a.lo), std::fabs(a.hi));
                bool p = a.lo > 0 || a.hi < 0 || (a.lo == 0 && a.lo_open) || (a.hi == 0 && a.hi_open) || nz.count(e->k[0]);
                double lo = 0;
                if (a.lo > 0) lo = dn(a.lo * a.lo); else if (a.hi < 0) lo = dn(a.hi * a.hi);
                if (lo <= 0) return {0, up(m * m), p};
                return {lo, up(m * m)};
            }
            return mulIv(a, b);
        }
        case FDIV: {
            Iv a = get(e->k[0]), b = get(e->k[1]);
            // denominator is non zero on this path
            if (b.lo >= 0) {
                Iv ib{b.hi == INFINITY ? 0 : dn(1 / b.hi), b.lo == 0 ? INFINITY : up(1 / b.lo)};
                if (ib.lo <= 0) { ib.lo = 0; ib.lo_open = true; }
                return mulIv(a, ib);
            }
            if (b.hi <= 0) {
                Iv ib{b.hi == 0 ? -INFINITY : dn(1 / b.hi), b.lo == -INFINITY ? 0 : up(1 / b.lo)};
                if (ib.hi >= 0) { ib.hi = 0; ib.hi_open = true; }
                return mulIv(a, ib);
            }
            return {-INFINITY, INFINITY};
        }
        case FSQRT: {
            Iv a = get(e->k[0]);
            double lo = a.lo > 0 ? std::max(0.0, dn(std::sqrt(a.lo))) : 0;
            return {lo, a.hi == INFINITY ? INFINITY : up(std::sqrt(std::max(0.0, a.hi))), a.lo > 0 ? lo == 0 : (a.lo == 0 && a.lo_open)};
        }
        case UF:
            if (g_ufs[e->c] == "exp") {
                Iv a = get(e->k[0]);
                double lo = a.lo == -INFINITY ? 0 : std::max(0.0, dn(dn(std::exp(a.lo))));
                double hi = a.hi == INFINITY ? INFINITY : (a.hi <= 0 ? std::min(1.0, up(up(std::exp(a.hi)))) : up(up(std::exp(a.hi))));
                return {lo, hi, lo == 0};
            }
            return {-INFINITY, INFINITY};
        case ITE: {
            Iv a = get(e->k[1]), b = get(e->k[2]);
            Iv r;
            if (a.lo < b.lo || (a.lo == b.lo && !a.lo_open)) { r.lo = a.lo; r.lo_open = a.lo_open; } else { r.lo = b.lo; r.lo_open = b.lo_open; }
            if (a.hi > b.hi || (a.hi == b.hi && !a.hi_open)) { r.hi = a.hi; r.hi_open = a.hi_open; } else { r.hi = b.hi; r.hi_open = b.hi_open; }
            return r;
        }
        default: return {-INFINITY, INFINITY};
        }
    }
    static double m1(double x, double y) { return (x == 0 || y == 0) ? 0 : x * y; }
    Iv mulIv(const Iv& a, const Iv& b) {
        double c[4] = {m1(a.lo, b.lo), m1(a.lo, b.hi), m1(a.hi, b.lo), m1(a.hi, b.hi)};
        double lo = c[0], hi = c[0];
        for (double x : c) { lo = std::min(lo, x); hi = std::max(hi, x); }
        Iv r{lo == 0 ? 0 : dn(lo), hi == 0 ? 0 : up(hi)};
        bool pa = a.lo > 0 || (a.lo == 0 && a.lo_open), pb = b.lo > 0 || (b.lo == 0 && b.lo_open);
        bool na = a.hi < 0 || (a.hi == 0 && a.hi_open), nb = b.hi < 0 || (b.hi == 0 && b.hi_open);
        if (a.lo >= 0 && b.lo >= 0 && r.lo <= 0) { r.lo = 0; r.lo_open = pa && pb; }
        if (a.hi <= 0 && b.hi <= 0 && r.lo <= 0) { r.lo = 0; r.lo_open = na && nb; }
        if (a.lo >= 0 && b.hi <= 0 && r.hi >= 0) { r.hi = 0; r.hi_open = pa && nb; }
        if (a.hi <= 0 && b.lo >= 0 && r.hi >= 0) { r.hi = 0; r.hi_open = na && pb; }
        return r;
    }
    // 1 true, 0 false, -1 unknown
    int lt(const Expr* a, const Expr* b) {
        Iv x = get(a), y = get(b);
        if (x.hi < y.lo || (x.hi == y.lo && (x.hi_open || y.lo_open) && std::isfinite(x.hi))) return 1;
        if (x.lo >= y.hi) return 0;
        return -1;
    }
    int eq(const Expr* a, const Expr* b) {
        Iv x = get(a), y = get(b);
        if (x.hi < y.lo || y.hi < x.lo) return 0;
        if (x.hi == y.lo && (x.hi_open || y.lo_open)) return 0;
        if (y.hi == x.lo && (y.hi_open || x.lo_open)) return 0;
        auto z = [&](const Expr* e) { mpq_class q; return constQ(e, q) && q == 0; };
        if ((z(a) && nz.count(b)) || (z(b) && nz.count(a))) return 0;
        return -1;
    }
    int truth(const Expr* c) {
        if (c->op == CONST_BV) return c->c != 0;
        if (c->op == NOT) { int t = truth(c->k[0]); return t < 0 ? t : !t; }
        if (c->op == FLT) return lt(c->k[0], c->k[1]);
        if (c->op == FEQ) return eq(c->k[0], c->k[1]);
        if (c->op == AND && c->w == 1) {
            int x = truth(c->k[0]), y = truth(c->k[1]);
            if (x == 0 || y == 0) return 0;
            if (x == 1 && y == 1) return 1;
            return -1;
        }
        if (c->op == OR && c->w == 1) {
            int x = truth(c->k[0]), y = truth(c->k[1]);
            if (x == 1 || y == 1) return 1;
            if (x == 0 && y == 0) return 0;
            return -1;
        }
        return -1;
    }
};

// Sign of a - b from its normal form, when all monomials agree once the signs of the atoms are known:
// 2 positive, 1 not negative, -1 not positive, -2 negative, 0 unknown
static int polySign(const Expr* a, const Expr* b, Intervals& iv) {
    auto sgn = [&](const Expr* e) {
        Iv v = iv.get(e);
        if (v.lo > 0 || (v.lo == 0 && v.lo_open)) return 2;
        if (v.hi < 0 || (v.hi == 0 && v.hi_open)) return -2;
        int g = exprSign(e);
        if (g) return g;
        return v.lo >= 0 ? 1 : v.hi <= 0 ? -1 : 0;
    };
    std::unordered_set<const Expr*> seen;
    std::vector<uint32_t> ids;
    collect(a, seen, ids);
    collect(b, seen, ids);
    std::sort(ids.begin(), ids.end());
    std::unordered_map<uint32_t, const Expr*> byId;
    for (auto e : seen) { byId[e->id] = e; }
    double end = now() + 6;
    for (int opaque = 2; opaque >= 0; --opaque) {
        if (opaque && !a->has_uf && !b->has_uf) continue;
        try {
            g_nfDeadline = std::min(end, now() + 3);
            NF nf;
            nf.cut = 0;
            nf.opaque = opaque;
            Rat s = nf.add(nf.nf(a), nf.nf(b), -1);
            g_nfDeadline = 0;
            std::function<int(const Poly&)> sp = [&](const Poly& p) {
                bool pos = true, neg = true, strict = false;
                for (auto& t : p) {
                    int g = t.second > 0 ? 2 : -2;
                    for (auto& f : t.first) {
                        auto it = byId.find(f.first);
                        int q = it == byId.end() ? 0 : sgn(it->second);
                        if (f.second % 2 == 0) q = std::abs(q) == 2 ? 2 : 1;
                        if (!q) return 0;
                        int m = std::min(std::abs(g), std::abs(q));
                        g = (g > 0) == (q > 0) ? m : -m;
                    }
                    if (g < 0) pos = false; else neg = false;
                    strict |= std::abs(g) == 2;
                    if (!pos && !neg) return 0;
                }
                if (p.empty()) return 1;
                return (pos ? 1 : -1) * (strict ? 2 : 1);
            };
            if (s.n.empty()) return 1;
            int r = sp(s.n);
            if (g_verbose) std::cerr << "polySign: " << s.n.size() << " terms, numerator sign " << r << ", " << s.d.size() << " factors\n";
            if (g_verbose && !r) {
                std::set<uint32_t> at;
                for (auto& t : s.n) for (auto& f : t.first) at.insert(f.first);
                for (uint32_t i : at) std::cerr << "   atom " << (byId.count(i) ? exprStr(byId[i], 4).substr(0, 200) + " sign " + std::to_string(sgn(byId[i])) : "?") << "\n";
            }
            for (auto& f : s.d) {
                if (!r) break;
                if (f.second % 2 == 0) continue;
                int q = sp(nf.factors[f.first]);
                r = q == 0 ? 0 : q > 0 ? r : -r;
            }
            if (r) return r;
        } catch (TooBig&) { if (g_verbose) std::cerr << "polySign: too big\n"; }
        g_nfDeadline = 0;
    }
    return 0;
}
// Lower bound of a polynomial of small size: a positive semidefinite quadratic part plus the bounds of the rest
static double quadLower(const Expr* e) {
    std::unordered_set<const Expr*> seen;
    std::vector<uint32_t> ids;
    collect(e, seen, ids);
    if (seen.size() > 120) return -INFINITY;
    double saved = g_nfDeadline, low = -INFINITY;
    try {
        g_nfDeadline = now() + 0.05;
        NF nf;
        nf.cut = 0;
        Rat s = nf.nf(e);
        if (s.d.empty() && s.n.size() <= 80) {
            std::unordered_map<uint32_t, const Expr*> byId;
            for (auto x : seen) byId[x->id] = x;
            std::map<uint32_t, size_t> idx;
            for (auto& t : s.n) {
                unsigned deg = 0;
                for (auto& f : t.first) deg += f.second;
                if (deg == 2) for (auto& f : t.first) idx.emplace(f.first, idx.size());
            }
            size_t n = idx.size();
            std::vector<std::vector<mpq_class>> q(n, std::vector<mpq_class>(n));
            double rest = 0;
            bool ok = n <= 12;
            for (auto& t : s.n) {
                unsigned deg = 0;
                for (auto& f : t.first) deg += f.second;
                if (deg == 2) {
                    size_t i = idx[t.first.front().first], j = idx[t.first.back().first];
                    if (i == j) q[i][i] += t.second; else { q[i][j] += t.second / 2; q[j][i] += t.second / 2; }
                    continue;
                }
                double lo = 1, hi = 1;
                for (auto& f : t.first) {
                    double a, b;
                    auto it = byId.find(f.first);
                    if (it == byId.end()) { ok = false; break; }
                    exprBounds(it->second, a, b);
                    if (!std::isfinite(a) || !std::isfinite(b)) { ok = false; break; }
                    for (int k = 0; k < f.second; ++k) {
                        double c[4] = {lo * a, lo * b, hi * a, hi * b};
                        lo = dn(*std::min_element(c, c + 4));
                        hi = up(*std::max_element(c, c + 4));
                    }
                }
                if (!ok) break;
                double c = t.second.get_d();
                rest = dn(rest + dn(std::min(dn(c) * lo, std::min(up(c) * lo, std::min(dn(c) * hi, up(c) * hi)))));
            }
            // elimination: all pivots must be positive, or null rows
            for (size_t k = 0; ok && k < n; ++k) {
                if (q[k][k] < 0) ok = false;
                else if (q[k][k] == 0) { for (size_t j = k; j < n; ++j) if (q[k][j] != 0) ok = false; }
                else for (size_t i = k + 1; i < n; ++i) {
                    if (q[i][k] == 0) continue;
                    mpq_class f = q[i][k] / q[k][k];
                    for (size_t j = k; j < n; ++j) q[i][j] -= f * q[k][j];
                }
            }
            if (ok) low = rest;
        }
    } catch (TooBig&) {}
    g_nfDeadline = saved;
    return low;
}
static struct QuadInit { QuadInit() { g_quadLower = quadLower; } } g_quadInit;
static bool hasDivision(const Expr* e, std::unordered_set<const Expr*>& seen) {
    if (!seen.insert(e).second) return false;
    if (e->op == FDIV) return true;
    for (unsigned i = 0; i < e->n; ++i) if (hasDivision(e->k[i], seen)) return true;
    return false;
}
// 1 the comparison holds, 0 it does not, -1 unknown
static int polyTruth(const Expr* c, Intervals& iv) {
    if (c->op == NOT) { int t = polyTruth(c->k[0], iv); return t < 0 ? t : !t; }
    if (c->op != FLT) return -1;
    std::unordered_set<const Expr*> seen;
    if (!hasDivision(c, seen)) return -1;
    int s = polySign(c->k[1], c->k[0], iv);  // a < b: b - a positive
    return s == 2 ? 1 : s < 0 ? 0 : -1;
}

static Res askZ3(const std::vector<Expr*>& cs, bool interp, bool pairs, int timeoutMs, Model* m) {
    Res res = R_UNKNOWN;
    try {
        Trans T;
        T.interpFp = interp;
        std::vector<z3::expr> as;
        std::set<uint32_t> vars;
        for (Expr* c : cs) {
            as.push_back(T.tr(c));
            vars.insert(c->vars->begin(), c->vars->end());
        }
        if (pairs) T.pairAxioms();
        const char* logic = nullptr;
        if (T.usesReal && !T.usesBV) logic = "QF_NRA";
        else if (T.usesFP) logic = "QF_FPBV";
        else if (!T.usesReal) logic = "QF_BV";
        z3::solver s = logic ? z3::solver(ctx(), logic) : z3::solver(ctx());
        z3::params p(ctx());
        if (timeoutMs) { p.set("timeout", (unsigned)timeoutMs); s.set(p); }
        for (auto& a : as) s.add(a);
        for (auto& a : T.side) s.add(a);
        auto r = s.check();
        if (r == z3::sat) {
            res = R_SAT;
            if (m) { z3::model zm = s.get_model(); extractModel(zm, vars, m); }
        } else if (r == z3::unsat) res = R_UNSAT;
    } catch (z3::exception& ex) {
        if (g_verbose) std::cerr << "z3: " << ex.msg() << "\n";
        res = R_UNKNOWN;
    }
    return res;
}
// Z3 does not watch its time limit in some polynomial computations: large queries over the reals
// are answered by a child process that can be stopped
static Res askChild(const std::vector<Expr*>& cs, bool interp, bool pairs, int timeoutMs, Model* m) {
    int fd[2];
    if (pipe(fd)) return askZ3(cs, interp, pairs, timeoutMs, m);
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); return askZ3(cs, interp, pairs, timeoutMs, m); }
    if (pid == 0) {
        close(fd[0]);
        Model mm;
        Res r = askZ3(cs, interp, pairs, 0, m ? &mm : nullptr);
        std::ostringstream o;
        o << (int)r << "\n";
        if (m && r == R_SAT) for (auto& v : mm.val) o << v.first << " " << v.second << " " << mm.u[v.first] << "\n";
        std::string s = o.str();
        size_t at = 0;
        while (at < s.size()) { ssize_t n = write(fd[1], s.data() + at, s.size() - at); if (n <= 0) break; at += n; }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    double end = now() + timeoutMs / 1000. + 0.05;
    bool done = false;
    while (!done) {
        double left = end - now();
        if (left <= 0) break;
        struct pollfd pf = {fd[0], POLLIN, 0};
        int k = poll(&pf, 1, (int)(left * 1000) + 1);
        if (k < 0 && errno != EINTR) break;
        if (k > 0) {
            char buf[65536];
            ssize_t n = read(fd[0], buf, sizeof buf);
            if (n > 0) s.append(buf, n);
            else done = true;
        }
    }
    close(fd[0]);
    if (!done) kill(pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    if (!done || s.empty()) return R_UNKNOWN;
    std::istringstream in(s);
    int r = R_UNKNOWN;
    in >> r;
    if (m && r == R_SAT) {
        uint32_t v;
        std::string val;
        uint64_t u;
        while (in >> v >> val >> u) {
            m->val[v] = val;
            if (g_vars[v].fp) m->d[v] = strtod(val.c_str(), nullptr);
            else m->u[v] = u;
        }
    }
    return (Res)r;
}
static bool largeReal(const std::vector<Expr*>& cs) {
    if (g_mode != FP_REAL) return false;
    std::unordered_set<const Expr*> seen;
    std::vector<const Expr*> st(cs.begin(), cs.end());
    unsigned nl = 0;
    while (!st.empty()) {
        const Expr* e = st.back();
        st.pop_back();
        if (!seen.insert(e).second) continue;
        if (e->op == FDIV || e->op == FSQRT || (e->op == FMUL && !isConst(e->k[0]) && !isConst(e->k[1]))) if (++nl > 3) return true;
        for (unsigned i = 0; i < e->n; ++i) st.push_back(e->k[i]);
    }
    return false;
}
static Res runZ3(const std::vector<Expr*>& cs, bool interp, bool pairs, int timeoutMs, Model* m) {
    double t0 = now();
    ++g_ss.queries;
    Res res = largeReal(cs) ? askChild(cs, interp, pairs, timeoutMs, m) : askZ3(cs, interp, pairs, timeoutMs, m);
    double dt = now() - t0;
    g_ss.time += dt;
    if (res == R_SAT) ++g_ss.sat; else if (res == R_UNSAT) ++g_ss.unsat; else ++g_ss.unknown;
    if (g_verbose && dt > 1.0) {
        std::cerr << "[z3] " << dt << "s res=" << res << " n=" << cs.size() << " last=" << exprStr(cs.back(), 5).substr(0, 400) << "\n";
    }
    return res;
}

struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 7; for (auto x : v) h = h * 1099511628211ull ^ x; return h; } };
static std::unordered_map<std::vector<uint32_t>, Res, KeyHash> g_cache;

// rewrite FEQ atoms of a conjunction element using exact identity normalisation
static Expr* simplifyEqs(Expr* c) {
    if (c->op == NOT) return eNot(simplifyEqs(c->k[0]));
    if (c->op == AND && c->w == 1) return eAnd(simplifyEqs(c->k[0]), simplifyEqs(c->k[1]));
    if (c->op == OR && c->w == 1) return eOr(simplifyEqs(c->k[0]), simplifyEqs(c->k[1]));
    if (c->op == FEQ && g_mode == FP_REAL && proveEqReal(c->k[0], c->k[1])) return mkBV(1, 1);
    if (c->op == FLT && g_mode == FP_REAL && proveEqReal(c->k[0], c->k[1])) return mkBV(0, 1);
    return c;
}

// Order of terms: a condition that closes a cycle with a strict step is impossible
struct Order {
    struct Edge { const Expr* to; bool strict; };
    std::unordered_map<const Expr*, std::vector<Edge>> g;
    static const Expr* strip(const Expr* e) { while (e->op == FPCAST) e = e->k[0]; return e; }
    // the steps a condition stands for
    static void steps(const Expr* c, std::vector<std::pair<const Expr*, Edge>>& out) {
        bool pos = true;
        if (c->op == NOT) { c = c->k[0]; pos = false; }
        if (c->op != FLT && c->op != FLE && !(c->op == FEQ && pos)) return;
        const Expr *a = strip(c->k[0]), *b = strip(c->k[1]);
        if (c->op == FEQ) { out.push_back({a, {b, false}}); out.push_back({b, {a, false}}); }
        else if (pos) out.push_back({a, {b, c->op == FLT}});
        else out.push_back({b, {a, c->op == FLE}});
    }
    void add(const Expr* c) {
        if (c->op == AND && c->w == 1) { add(c->k[0]); add(c->k[1]); return; }
        std::vector<std::pair<const Expr*, Edge>> st;
        steps(c, st);
        for (auto& s : st) g[s.first].push_back(s.second);
    }
    bool closes(const Expr* from, const Expr* to, bool strict) const {
        if (from == to) return strict;
        std::unordered_set<const Expr*> weak, strong;
        std::vector<std::pair<const Expr*, bool>> st{{to, strict}};
        while (!st.empty()) {
            auto [e, s] = st.back();
            st.pop_back();
            if (!(s ? strong : weak).insert(e).second) continue;
            if (e == from && s) return true;
            auto it = g.find(e);
            if (it == g.end()) continue;
            for (auto& n : it->second) st.push_back({n.to, s || n.strict});
        }
        return false;
    }
    bool impossible(const Expr* c) const {
        if (c->op == AND && c->w == 1) return impossible(c->k[0]) || impossible(c->k[1]);
        if (c->op == OR && c->w == 1) return impossible(c->k[0]) && impossible(c->k[1]);
        if (c->op == NOT && c->k[0]->op == AND && c->k[0]->w == 1) return false;
        std::vector<std::pair<const Expr*, Edge>> st;
        steps(c, st);
        for (auto& s : st) if (closes(s.first, s.second.to, s.second.strict)) return true;
        return false;
    }
};
Res checkSat(const std::vector<Expr*>& pc, Expr* extra, Model* m, bool slice, int timeoutMs) {
    if (!timeoutMs) timeoutMs = g_timeoutMs;
    if (extra && extra->op == CONST_BV && extra->c == 0) return R_UNSAT;
    std::vector<Expr*> cs;
    if (slice && extra) {
        sliceConstraints(pc, extra, cs);
        cs.push_back(extra);
    } else {
        cs = pc;
        if (extra) cs.push_back(extra);
    }
    std::vector<uint32_t> key;
    for (Expr* c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    if (!m) {
        auto it = g_cache.find(key);
        if (it != g_cache.end() && (it->second != R_UNKNOWN || (g_branchMs && timeoutMs == g_branchMs))) { ++g_ss.cacheHits; return it->second; }
    }
    Res r = R_UNKNOWN;
    bool decided = false;
    if (g_mode == FP_REAL && extra) {
        Intervals iv;
        std::vector<Expr*> hyp(cs.begin(), cs.end() - 1);
        iv.load(hyp);
        if (iv.truth(extra) == 0) { r = R_UNSAT; decided = true; ++g_ss.intervalHits; }
        if (!decided) {
            Order o;
            for (Expr* c : hyp) o.add(c);
            if (o.impossible(extra)) { r = R_UNSAT; decided = true; ++g_ss.intervalHits; }
        }
        if (!decided) {
            Expr* s = simplifyEqs(extra);
            if (s->op == CONST_BV && s->c == 0) { r = R_UNSAT; decided = true; }
            else {
                if (s != extra) cs.back() = s;
                if (iv.truth(s) == 0) { r = R_UNSAT; decided = true; ++g_ss.intervalHits; }
                if (!decided) {
                    static std::unordered_map<std::vector<uint32_t>, int, KeyHash> seen;
                    const Expr* at = s->op == NOT ? s->k[0] : s;
                    std::vector<uint32_t> k2;
                    for (Expr* c : hyp) k2.push_back(c->id);
                    std::sort(k2.begin(), k2.end());
                    k2.push_back(at->id);
                    auto it = seen.find(k2);
                    int t = it != seen.end() ? it->second : (seen[k2] = polyTruth(at, iv));
                    if (t >= 0 && s->op == NOT) t = !t;
                    if (t == 0) { r = R_UNSAT; decided = true; ++g_ss.intervalHits; }
                }
            }
        }
    }
    if (!decided) {
        if (g_mode == FP_EXACT) {
            // uninterpreted arithmetic first (sound for UNSAT), then bit-precise
            Model tmp;
            r = runZ3(cs, false, false, std::min(timeoutMs, 3000), m);
            bool hasArith = false;
            std::unordered_set<const Expr*> seen;
            std::vector<const Expr*> st(cs.begin(), cs.end());
            bool hasUf = false;
            while (!st.empty()) {
                const Expr* e = st.back();
                st.pop_back();
                if (!seen.insert(e).second) continue;
                if (e->op >= FADD && e->op <= FDIV) hasArith = true;
                if (e->op == FSQRT) hasArith = true;
                if (e->op == UF) hasUf = true;
                for (unsigned i = 0; i < e->n; ++i) st.push_back(e->k[i]);
            }
            if (r != R_UNSAT && (hasArith || hasUf)) {
                if (m) { m->val.clear(); m->d.clear(); m->u.clear(); }
                r = runZ3(cs, true, true, timeoutMs, m);
            }
        } else {
            r = runZ3(cs, true, false, timeoutMs, m);
            bool anyUf = false;
            for (Expr* c : cs) anyUf |= c->has_uf;
            if (r != R_UNSAT && anyUf && !(r == R_UNKNOWN && g_branchMs && timeoutMs == g_branchMs)) {
                Model m2;
                Res r2 = runZ3(cs, true, true, timeoutMs, &m2);
                if (r2 == R_UNSAT) { r = r2; if (m) m->val.clear(); }
                else if (r2 == R_SAT) { r = r2; if (m) *m = m2; }
                // otherwise keep the weaker answer of the first attempt
            }
        }
    }
    if (!m || r == R_UNSAT) g_cache[key] = r;
    return r;
}
