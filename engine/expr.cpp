#include "expr.h"
#include <algorithm>
#include <cmath>
#include <unordered_set>
#include <sstream>

FpMode g_mode = FP_REAL;
std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;
static uint32_t g_nextId = 1;

struct EHash {
    size_t operator()(const Expr* e) const {
        size_t h = e->op * 1315423911u ^ e->w * 2654435761u ^ (size_t)e->fp;
        h ^= e->c * 0x9E3779B97F4A7C15ull;
        for (unsigned i = 0; i < e->n; ++i) h = h * 1099511628211ull ^ (size_t)e->k[i]->id * 0x9E3779B97F4A7C15ull;
        if (e->q) h ^= std::hash<std::string>()(e->q->get_str(16));
        return h;
    }
};
struct EEq {
    bool operator()(const Expr* a, const Expr* b) const {
        if (a->op != b->op || a->w != b->w || a->fp != b->fp || a->c != b->c || a->n != b->n) return false;
        for (unsigned i = 0; i < a->n; ++i) if (a->k[i] != b->k[i]) return false;
        if ((a->q == nullptr) != (b->q == nullptr)) return false;
        if (a->q && *a->q != *b->q) return false;
        return true;
    }
};
static std::unordered_set<Expr*, EHash, EEq> g_table;
static std::vector<uint32_t> g_novars;

static Expr* intern(Expr& t) {
    auto it = g_table.find(&t);
    if (it != g_table.end()) return *it;
    Expr* e = new Expr(t);
    if (t.q) e->q = new mpq_class(*t.q);
    e->id = g_nextId++;
    e->has_uf = (e->op == UF);
    e->depth = 0;
    if (e->op == VAR) e->vars = new std::vector<uint32_t>{(uint32_t)e->c};
    else if (e->n == 0) e->vars = &g_novars;
    else {
        bool same = true;
        for (unsigned i = 0; i < e->n; ++i) {
            e->has_uf |= e->k[i]->has_uf;
            e->depth = std::max(e->depth, e->k[i]->depth + 1);
            if (e->k[i]->vars != e->k[0]->vars) same = false;
        }
        if (same) e->vars = e->k[0]->vars;
        else {
            std::vector<uint32_t> v;
            for (unsigned i = 0; i < e->n; ++i) {
                std::vector<uint32_t> r;
                std::set_union(v.begin(), v.end(), e->k[i]->vars->begin(), e->k[i]->vars->end(), std::back_inserter(r));
                v.swap(r);
            }
            e->vars = nullptr;
            for (unsigned i = 0; i < e->n; ++i) if (*e->k[i]->vars == v) e->vars = e->k[i]->vars;
            if (!e->vars) e->vars = new std::vector<uint32_t>(v);
        }
    }
    g_table.insert(e);
    return e;
}
Expr* mk(Op op, bool fp, unsigned w, Expr* a, Expr* b, Expr* c, uint64_t aux) {
    Expr t{}; t.op = op; t.fp = fp; t.w = w; t.c = aux; t.q = nullptr;
    t.n = 0;
    if (a) t.k[t.n++] = a;
    if (b) t.k[t.n++] = b;
    if (c) t.k[t.n++] = c;
    return intern(t);
}
Expr* mkBV(uint64_t v, unsigned w) { Expr t{}; t.op = CONST_BV; t.w = w; t.c = v & maskW(w); return intern(t); }
Expr* mkFP(double v, unsigned w) {
    Expr t{}; t.op = CONST_FP; t.fp = true; t.w = w;
    if (v != v) v = NAN;
    if (g_mode == FP_REAL && v == 0) v = 0.0;
    memcpy(&t.c, &v, 8);
    return intern(t);
}
Expr* mkQ(const mpq_class& q, unsigned w) {
    double d = q.get_d();
    if (std::isfinite(d) && mpq_class(d) == q) return mkFP(d, w);
    Expr t{}; t.op = CONST_Q; t.fp = true; t.w = w; mpq_class qq(q); t.q = &qq;
    return intern(t);
}
Expr* mkVar(const std::string& name, bool fp, unsigned w, VarKind k) {
    Expr t{}; t.op = VAR; t.fp = fp; t.w = w; t.c = g_vars.size();
    g_vars.push_back({name, fp, (uint16_t)w, k});
    return intern(t);
}
int ufId(const std::string& n) {
    for (size_t i = 0; i < g_ufs.size(); ++i) if (g_ufs[i] == n) return i;
    g_ufs.push_back(n);
    return g_ufs.size() - 1;
}
bool constQ(const Expr* e, mpq_class& q) {
    if (e->op == CONST_Q) { q = *e->q; return true; }
    if (e->op == CONST_FP) { double d = asD(e); if (!std::isfinite(d)) return false; q = d; return true; }
    return false;
}

static bool foldBin(Op op, uint64_t a, uint64_t b, unsigned w, uint64_t& r) {
    uint64_t m = maskW(w);
    int64_t sa = sextW(a, w), sb = sextW(b, w);
    switch (op) {
    case ADD: r = a + b; break;
    case SUB: r = a - b; break;
    case MUL: r = a * b; break;
    case UDIV: if (!b) return false; r = a / b; break;
    case UREM: if (!b) return false; r = a % b; break;
    case SDIV: if (!b || (sb == -1 && sa == sextW(1ull << (w - 1), w))) return false; r = sa / sb; break;
    case SREM: if (!b || sb == -1) { if (!b) return false; r = 0; } else r = sa % sb; break;
    case SHL: r = b >= w ? 0 : a << b; break;
    case LSHR: r = b >= w ? 0 : a >> b; break;
    case ASHR: r = b >= w ? (sa < 0 ? ~0ull : 0) : (uint64_t)(sa >> b); break;
    case AND: r = a & b; break;
    case OR: r = a | b; break;
    case XOR: r = a ^ b; break;
    default: return false;
    }
    r &= m;
    return true;
}
Expr* eNot(Expr* a) {
    if (a->op == CONST_BV) return mkBV(!a->c, 1);
    if (a->op == NOT) return a->k[0];
    return mk(NOT, false, 1, a);
}
Expr* eBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->op == CONST_BV && b->op == CONST_BV) {
        uint64_t r;
        if (foldBin(op, a->c, b->c, w, r)) return mkBV(r, w);
    }
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
    if (comm && (a->op == CONST_BV || (b->op != CONST_BV && a->id > b->id))) std::swap(a, b);
    if (b->op == CONST_BV) {
        uint64_t v = b->c;
        switch (op) {
        case ADD: case SUB: case OR: case XOR: case SHL: case LSHR: case ASHR:
            if (v == 0) return a;
            break;
        case MUL: if (v == 1) return a; if (v == 0) return b; break;
        case UDIV: case SDIV: if (v == 1) return a; break;
        case UREM: if (v == 1) return mkBV(0, w); break;
        case AND: if (v == 0) return b; if (v == maskW(w)) return a; break;
        default: break;
        }
        if (op == XOR && w == 1 && v == 1) return eNot(a);
        if (op == OR && v == maskW(w)) return b;
        if (op == SUB) return eBin(ADD, a, mkBV(-v, w));
        if (op == ADD && a->op == ADD && a->k[1]->op == CONST_BV) return eBin(ADD, a->k[0], mkBV(a->k[1]->c + v, w));
        if (op == AND && a->op == ZEXT && a->k[0]->w < w && (v & maskW(a->k[0]->w)) == maskW(a->k[0]->w)) return a;
    }
    if (a == b) {
        if (op == SUB || op == XOR) return mkBV(0, w);
        if (op == AND || op == OR) return a;
    }
    if (w == 1 && op == AND && (a == eNot(b))) return mkBV(0, 1);
    if (w == 1 && op == OR && (a == eNot(b))) return mkBV(1, 1);
    if (w == 1 && op == ADD) op = XOR;
    return mk(op, false, w, a, b);
}
Expr* eAnd(Expr* a, Expr* b) { return eBin(AND, a, b); }
Expr* eOr(Expr* a, Expr* b) { return eBin(OR, a, b); }
Expr* eCmp(Op op, Expr* a, Expr* b) {
    if (a->op == CONST_BV && b->op == CONST_BV) {
        bool r = false;
        int64_t sa = sextW(a->c, a->w), sb = sextW(b->c, b->w);
        switch (op) {
        case EQ: r = a->c == b->c; break;
        case ULT: r = a->c < b->c; break;
        case ULE: r = a->c <= b->c; break;
        case SLT: r = sa < sb; break;
        case SLE: r = sa <= sb; break;
        default: break;
        }
        return mkBV(r, 1);
    }
    if (a == b) return mkBV(op == EQ || op == ULE || op == SLE, 1);
    if (op == EQ) {
        if (a->op == CONST_BV) std::swap(a, b);
        if (b->op == CONST_BV) {
            if (a->w == 1) return b->c ? a : eNot(a);
            if (a->op == ZEXT) {
                unsigned kw = a->k[0]->w;
                if (b->c > maskW(kw)) return mkBV(0, 1);
                return eCmp(EQ, a->k[0], mkBV(b->c, kw));
            }
            if (a->op == ITE && isConst(a->k[1]) && isConst(a->k[2])) {
                bool e1 = a->k[1]->c == b->c, e2 = a->k[2]->c == b->c;
                if (e1 && e2) return mkBV(1, 1);
                if (e1) return a->k[0];
                if (e2) return eNot(a->k[0]);
                return mkBV(0, 1);
            }
            if (a->op == ADD && a->k[1]->op == CONST_BV) return eCmp(EQ, a->k[0], mkBV(b->c - a->k[1]->c, a->w));
        } else if (a->id > b->id) std::swap(a, b);
    }
    if (op == ULT && b->op == CONST_BV) {
        if (b->c == 0) return mkBV(0, 1);
        if (b->c == 1) return eCmp(EQ, a, mkBV(0, a->w));
    }
    if (op == ULE && a->op == CONST_BV && a->c == 0) return mkBV(1, 1);
    return mk(op, false, 1, a, b);
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
    if (c->op == CONST_BV) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == NOT) return eIte(c->k[0], b, a);
    if (a->w == 1 && !a->fp) {
        if (isBV(a, 1) && isBV(b, 0)) return c;
        if (isBV(a, 0) && isBV(b, 1)) return eNot(c);
        if (isBV(a, 1)) return eOr(c, b);
        if (isBV(a, 0)) return eAnd(eNot(c), b);
        if (isBV(b, 0)) return eAnd(c, a);
        if (isBV(b, 1)) return eOr(eNot(c), a);
    }
    return mk(ITE, a->fp, a->w, c, a, b);
}
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->op == CONST_BV) return mkBV(a->c >> lo, w);
    if (a->op == EXTRACT) return eExtract(a->k[0], a->c + lo, w);
    if (a->op == ZEXT) {
        unsigned kw = a->k[0]->w;
        if (lo >= kw) return mkBV(0, w);
        if (lo + w <= kw) return eExtract(a->k[0], lo, w);
        if (lo == 0) return eZext(a->k[0], w);
    }
    if (a->op == SEXT) {
        unsigned kw = a->k[0]->w;
        if (lo + w <= kw) return eExtract(a->k[0], lo, w);
    }
    if (a->op == CONCAT) {
        unsigned lw = a->k[1]->w;
        if (lo + w <= lw) return eExtract(a->k[1], lo, w);
        if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
    }
    if (a->op == ITE && isConst(a->k[1]) && isConst(a->k[2]))
        return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
    return mk(EXTRACT, false, w, a, nullptr, nullptr, lo);
}
Expr* eZext(Expr* a, unsigned w) {
    if (w == a->w) return a;
    if (a->op == CONST_BV) return mkBV(a->c, w);
    if (a->op == ZEXT) return eZext(a->k[0], w);
    return mk(ZEXT, false, w, a);
}
Expr* eSext(Expr* a, unsigned w) {
    if (w == a->w) return a;
    if (a->op == CONST_BV) return mkBV(sextW(a->c, a->w), w);
    if (a->op == ZEXT) return eZext(a->k[0], w);
    return mk(SEXT, false, w, a);
}
Expr* eConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (w <= 64 && hi->op == CONST_BV && lo->op == CONST_BV) return mkBV((hi->c << lo->w) | lo->c, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && lo->c + lo->w == hi->c)
        return eExtract(hi->k[0], lo->c, w);
    if (isBV(hi, 0)) return eZext(lo, w);
    return mk(CONCAT, false, w, hi, lo);
}
static bool isD(Expr* e, double v) { return e->op == CONST_FP && asD(e) == v; }
static size_t qbits(const mpq_class& q) { return mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2); }
static Expr* capQ(const mpq_class& q, unsigned w) {
    if (qbits(q) > 1200) return mkFP(q.get_d(), w);
    return mkQ(q, w);
}
Expr* eF(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isConst(a) && (!b || isConst(b))) {
        if (g_mode == FP_REAL) {
            mpq_class x, y;
            bool fx = constQ(a, x), fy = b ? constQ(b, y) : true;
            if (fx && fy) {
                switch (op) {
                case FADD: return capQ(x + y, w);
                case FSUB: return capQ(x - y, w);
                case FMUL: return capQ(x * y, w);
                case FDIV:
                    if (y == 0) return mkFP(x == 0 ? NAN : (x > 0 ? INFINITY : -INFINITY), w);
                    return capQ(x / y, w);
                case FNEG: return mkQ(-x, w);
                case FABS: return mkQ(abs(x), w);
                case FSQRT: {
                    if (x < 0) return mkFP(NAN, w);
                    mpz_class n = x.get_num(), d = x.get_den();
                    if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) {
                        mpz_class sn = sqrt(n), sd = sqrt(d);
                        return mkQ(mpq_class(sn, sd), w);
                    }
                    return mk(FSQRT, true, w, a);
                }
                default: break;
                }
            } else {
                auto dv = [](Expr* e) { return e->op == CONST_Q ? e->q->get_d() : asD(e); };
                double u = dv(a), v = b ? dv(b) : 0, r = 0;
                switch (op) {
                case FADD: r = u + v; break;
                case FSUB: r = u - v; break;
                case FMUL: r = u * v; break;
                case FDIV: r = u / v; break;
                case FNEG: r = -u; break;
                case FABS: r = std::fabs(u); break;
                case FSQRT: r = std::sqrt(u); break;
                default: break;
                }
                return mkFP(r, w);
            }
        } else {
            double u = asD(a), v = b ? asD(b) : 0, r = 0;
            if (w == 32) {
                float fu = u, fv = v, fr = 0;
                switch (op) {
                case FADD: fr = fu + fv; break;
                case FSUB: fr = fu - fv; break;
                case FMUL: fr = fu * fv; break;
                case FDIV: fr = fu / fv; break;
                case FNEG: fr = -fu; break;
                case FABS: fr = std::fabs(fu); break;
                case FSQRT: fr = std::sqrt(fu); break;
                default: break;
                }
                r = fr;
            } else {
                switch (op) {
                case FADD: r = u + v; break;
                case FSUB: r = u - v; break;
                case FMUL: r = u * v; break;
                case FDIV: r = u / v; break;
                case FNEG: r = -u; break;
                case FABS: r = std::fabs(u); break;
                case FSQRT: r = std::sqrt(u); break;
                default: break;
                }
            }
            return mkFP(r, w);
        }
    }
    if (op == FNEG && a->op == FNEG) return a->k[0];
    if (op == FABS && (a->op == FABS)) return a;
    if (op == FABS && a->op == FNEG) return eF(FABS, a->k[0]);
    if (g_mode == FP_REAL) {
        switch (op) {
        case FADD:
            if (isD(a, 0)) return b;
            if (isD(b, 0)) return a;
            if (b->op == FNEG) return eF(FSUB, a, b->k[0]);
            if (a->op == FNEG) return eF(FSUB, b, a->k[0]);
            break;
        case FSUB:
            if (isD(b, 0)) return a;
            if (a == b) return mkFP(0, w);
            if (isD(a, 0)) return eF(FNEG, b);
            if (b->op == FNEG) return eF(FADD, a, b->k[0]);
            break;
        case FMUL:
            if (isD(a, 0) || isD(b, 0)) return mkFP(0, w);
            if (isD(a, 1)) return b;
            if (isD(b, 1)) return a;
            if (isD(a, -1)) return eF(FNEG, b);
            if (isD(b, -1)) return eF(FNEG, a);
            break;
        case FDIV:
            if (isD(b, 1)) return a;
            if (isD(a, 0)) return a;  // denominator known non zero (engine decides beforehand)
            if (a == b) return mkFP(1, w);
            if (isConst(b)) { mpq_class y; if (constQ(b, y) && y != 0) return eF(FMUL, a, mkQ(1 / y, w)); }
            break;
        case FABS:
            if (a->op == UF && (g_ufs[a->c] == "exp")) return a;
            if (a->op == FSQRT) return a;
            break;
        default: break;
        }
    } else {
        if ((op == FMUL && isD(b, 1)) || (op == FDIV && isD(b, 1))) return a;
        if (op == FMUL && isD(a, 1)) return b;
    }
    if ((op == FADD || op == FMUL) && a->id > b->id) std::swap(a, b);
    return mk(op, true, w, a, b);
}
// Interval of a real-valued expression, from the bounds of the inputs; `pos`
// means strictly positive.  Bounds are rounded outwards.
bool g_noIntervals = false;
double (*g_quadLower)(const Expr*) = nullptr;
namespace {
struct Iv { double lo = -INFINITY, hi = INFINITY; bool pos = false; };
std::vector<Iv> ivMemo;
std::vector<char> ivHave;
double dn(double x) { return std::isfinite(x) ? std::nextafter(std::nextafter(x, -INFINITY), -INFINITY) : x; }
double up(double x) { return std::isfinite(x) ? std::nextafter(std::nextafter(x, INFINITY), INFINITY) : x; }
double mul0(double x, double y) { return x == 0 || y == 0 ? 0 : x * y; }
void factors(const Expr* e, std::vector<const Expr*>& f, bool& neg) {
    if (f.size() > 16) return;
    if (e->op == FPCAST) factors(e->k[0], f, neg);
    else if (e->op == FNEG) { neg = !neg; factors(e->k[0], f, neg); }
    else if (e->op == FMUL) { factors(e->k[0], f, neg); factors(e->k[1], f, neg); }
    else f.push_back(e);
}
Iv iv(const Expr* e) {
    Iv r;
    if (e->op == CONST_FP) {
        double d = asD(e);
        if (std::isfinite(d)) { r.lo = r.hi = d; r.pos = d > 0; }
        return r;
    }
    if (e->op == CONST_Q) {
        double d = e->q->get_d();
        r.lo = dn(d); r.hi = up(d); r.pos = *e->q > 0;
        return r;
    }
    if (e->id < ivHave.size() && ivHave[e->id]) return ivMemo[e->id];
    switch (e->op) {
    case VAR: r.lo = g_vars[e->c].lo; r.hi = g_vars[e->c].hi; r.pos = r.lo > 0; break;
    case FPCAST: r = iv(e->k[0]); break;
    case FNEG: { Iv a = iv(e->k[0]); r.lo = -a.hi; r.hi = -a.lo; break; }
    case FABS: {
        Iv a = iv(e->k[0]);
        r.hi = std::max(std::fabs(a.lo), std::fabs(a.hi));
        r.lo = a.lo >= 0 ? a.lo : a.hi <= 0 ? -a.hi : 0;
        r.pos = a.pos || r.lo > 0;
        break;
    }
    case FSQRT: {
        Iv a = iv(e->k[0]);
        r.lo = a.lo > 0 ? std::max(0., dn(std::sqrt(a.lo))) : 0;
        r.hi = a.hi >= 0 ? up(std::sqrt(a.hi)) : INFINITY;
        r.pos = a.pos;
        break;
    }
    case FADD: case FSUB: {
        Iv a = iv(e->k[0]), b = iv(e->k[1]);
        if (e->op == FSUB) { double l = -b.hi; b.hi = -b.lo; b.lo = l; b.pos = l > 0; }
        double l = a.lo + b.lo, h = a.hi + b.hi;
        r.lo = a.lo == 0 && b.lo == 0 ? 0 : std::isnan(l) ? -INFINITY : dn(l);
        r.hi = a.hi == 0 && b.hi == 0 ? 0 : std::isnan(h) ? INFINITY : up(h);
        if (a.lo >= 0 && b.lo >= 0) { r.lo = std::max(r.lo, 0.); r.pos = a.pos || b.pos; }
        if (r.lo < 0 && r.hi > 0 && std::isfinite(r.hi) && g_quadLower) r.lo = std::max(r.lo, g_quadLower(e));  // a variance
        r.pos |= r.lo > 0;
        break;
    }
    case FMUL: {
        Iv a = iv(e->k[0]), b = iv(e->k[1]);
        double c[4] = {mul0(a.lo, b.lo), mul0(a.lo, b.hi), mul0(a.hi, b.lo), mul0(a.hi, b.hi)};
        double l = *std::min_element(c, c + 4), h = *std::max_element(c, c + 4);
        r.lo = l == 0 ? 0 : dn(l);
        r.hi = h == 0 ? 0 : up(h);
        if (a.lo >= 0 && b.lo >= 0) { r.lo = std::max(r.lo, 0.); r.pos = a.pos && b.pos; }
        if (e->k[0] == e->k[1]) { r.lo = std::max(r.lo, 0.); r.pos = a.pos; }
        if (r.lo < 0) {  // products of squares and of factors of known sign
            std::vector<const Expr*> f;
            bool neg = false;
            factors(e, f, neg);
            std::sort(f.begin(), f.end(), [](const Expr* x, const Expr* y) { return x->id < y->id; });
            bool known = f.size() <= 16, pos = true;
            for (size_t i = 0; known && i < f.size(); ++i) {
                if (i + 1 < f.size() && f[i] == f[i + 1]) {
                    Iv v = iv(f[i]);
                    pos = pos && (v.lo > 0 || v.hi < 0);
                    ++i;
                    continue;
                }
                Iv v = iv(f[i]);
                if (v.lo >= 0) pos = pos && v.pos;
                else if (v.hi <= 0) { neg = !neg; pos = pos && v.hi < 0; }
                else known = false;
            }
            if (known && !neg) { r.lo = 0; r.pos = pos; }
            if (known && neg) r.hi = std::min(r.hi, 0.);
        }
        r.pos |= r.lo > 0;
        break;
    }
    case FDIV: {
        // a quotient is only built where its divisor is not zero
        Iv a = iv(e->k[0]), b = iv(e->k[1]);
        if (b.lo < 0 && b.hi > 0) break;
        bool neg = b.hi <= 0;
        if (neg) {
            double l = -a.hi; a.hi = -a.lo; a.lo = l; a.pos = l > 0;
            l = -b.hi; b.hi = -b.lo; b.lo = l;
        }
        auto q = [](double x, double y) { return x == 0 ? 0. : y == 0 ? x * INFINITY : std::isinf(y) ? (std::isinf(x) ? x : 0.) : x / y; };
        double l = a.lo >= 0 ? q(a.lo, b.hi) : q(a.lo, b.lo), h = a.hi >= 0 ? q(a.hi, b.lo) : q(a.hi, b.hi);
        if (a.lo >= 0 && std::isinf(b.hi)) l = 0;
        r.lo = l == 0 ? 0 : dn(l);
        r.hi = a.hi < 0 && std::isinf(b.hi) ? 0 : h == 0 && a.hi == 0 ? 0 : up(h);
        if (a.lo >= 0) { r.lo = std::max(r.lo, 0.); r.pos = a.pos; }
        r.pos |= r.lo > 0;
        break;
    }
    case ITE: {
        Iv a = iv(e->k[1]), b = iv(e->k[2]);
        r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); r.pos = a.pos && b.pos;
        break;
    }
    case UF: {
        const std::string& n = g_ufs[e->c];
        if (n == "exp") {
            Iv a = iv(e->k[0]);
            double l = std::exp(a.lo), h = std::exp(a.hi);
            r.lo = l < 1e-300 ? 0 : l * (1 - 1e-14);
            r.hi = a.hi == 0 ? 1 : h < 1e-300 ? 1e-300 : h * (1 + 1e-14);
            r.pos = true;
        } else if (n == "log") {
            Iv a = iv(e->k[0]);
            if (a.lo > 0) { double l = std::log(a.lo); r.lo = l - 1e-14 * (1 + std::fabs(l)); }
            if (a.hi > 0 && std::isfinite(a.hi)) { double h = std::log(a.hi); r.hi = h + 1e-14 * (1 + std::fabs(h)); }
            r.pos = r.lo > 0;
        }
        break;
    }
    default: break;
    }
    if (ivHave.size() <= e->id) { ivHave.resize(e->id + 1024); ivMemo.resize(e->id + 1024); }
    ivHave[e->id] = 1;
    ivMemo[e->id] = r;
    return r;
}
}
// floating-point evaluation of a real-mode condition or value (equalities up to rounding); throws on anything else
double evalReal(const Expr* e, std::vector<double> const& val, std::unordered_map<const Expr*, double>& memo) {
    mpq_class q;
    if (e->op == CONST_FP) return asD(e);
    if (e->op == CONST_Q) return e->q->get_d();
    if (e->op == CONST_BV) { if (e->w != 1) throw 1; return e->c != 0; }
    if (e->op == VAR) { if (!e->fp) throw 1; return val[e->c]; }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    double k[3] = {0, 0, 0}, r = 0;
    if (e->op == ITE) {
        r = evalReal(e->k[0], val, memo) != 0 ? evalReal(e->k[1], val, memo) : evalReal(e->k[2], val, memo);
        return memo[e] = r;
    }
    if (!e->fp && e->w != 1) throw 1;
    for (unsigned i = 0; i < e->n && i < 3; ++i) k[i] = evalReal(e->k[i], val, memo);
    switch (e->op) {
    case FADD: r = k[0] + k[1]; break;
    case FSUB: r = k[0] - k[1]; break;
    case FMUL: r = k[0] * k[1]; break;
    case FDIV: r = k[0] / k[1]; break;
    case FNEG: r = -k[0]; break;
    case FABS: r = std::fabs(k[0]); break;
    case FSQRT: r = std::sqrt(k[0]); break;
    case FPCAST: r = k[0]; break;
    case FEQ: r = std::fabs(k[0] - k[1]) <= 1e-7 * (1e-3 + std::fabs(k[0]) + std::fabs(k[1])); break;
    case FLT: r = k[0] < k[1]; break;
    case FLE: r = k[0] <= k[1]; break;
    case FISNAN: r = 0; break;
    case NOT: r = k[0] == 0; break;
    case AND: r = k[0] != 0 && k[1] != 0; break;
    case OR: r = k[0] != 0 || k[1] != 0; break;
    case EQ: r = k[0] == k[1]; break;
    case XOR: r = (k[0] != 0) != (k[1] != 0); break;
    case UF: {
        const std::string& n = g_ufs[e->c];
        if (n == "exp") r = exp(k[0]);
        else if (n == "log") r = log(k[0]);
        else if (n == "pow") r = pow(k[0], k[1]);
        else if (n == "atan") r = atan(k[0]);
        else if (n == "tan") r = tan(k[0]);
        else if (n == "sin") r = sin(k[0]);
        else if (n == "cos") r = cos(k[0]);
        else if (n == "atan2") r = atan2(k[0], k[1]);
        else if (n == "floor") r = floor(k[0]);
        else if (n == "ceil") r = ceil(k[0]);
        else throw 1;
        break;
    }
    default: throw 1;
    }
    return memo[e] = r;
}
void exprBounds(const Expr* e, double& lo, double& hi) { Iv v = iv(e); lo = v.lo; hi = v.hi; }
int exprSign(const Expr* e) { Iv v = iv(e); return v.pos ? 2 : v.lo >= 0 ? 1 : 0; }
namespace {
Expr* stripCast(Expr* e) { while (e->op == FPCAST) e = e->k[0]; return e; }
}
Expr* eFCmp(Op op, Expr* a, Expr* b) {
    if (isConst(a) && isConst(b)) {
        mpq_class x, y;
        bool r;
        if (constQ(a, x) && constQ(b, y)) r = op == FEQ ? x == y : op == FLT ? x < y : x <= y;
        else {
            auto dv = [](Expr* e) { return e->op == CONST_Q ? e->q->get_d() : asD(e); };
            double u = dv(a), v = dv(b);
            r = op == FEQ ? u == v : op == FLT ? u < v : u <= v;
        }
        return mkBV(r, 1);
    }
    if (g_mode == FP_REAL) {
        // comparisons with non finite constants (symbolic reals are finite)
        for (int i = 0; i < 2; ++i) {
            Expr* e = i ? b : a;
            if (e->op == CONST_FP && !std::isfinite(asD(e))) {
                double v = asD(e);
                if (v != v || op == FEQ) return mkBV(0, 1);
                bool r = i == 0 ? (v < 0) : (v > 0);
                return mkBV(r, 1);
            }
        }
        if (a == b) return mkBV(op != FLT, 1);
        if (op == FLE) return eNot(eFCmp(FLT, b, a));
        {   // the logarithm is strictly increasing where it exists
            Expr *x = stripCast(a), *y = stripCast(b);
            if (x->op == UF && y->op == UF && x->c == y->c && (g_ufs[x->c] == "log" || g_ufs[x->c] == "exp")) return eFCmp(op, x->k[0], y->k[0]);
        }
        if (op == FEQ && (isD(a, 0) || isD(b, 0))) {
            // zeros of square roots, sums of terms that are not negative, and products
            Expr* x = stripCast(isD(a, 0) ? b : a);
            Expr* z = isD(a, 0) ? a : b;
            if (x->op == FSQRT && exprSign(x->k[0]) >= 1) return eFCmp(FEQ, x->k[0], z);
            if (x->op == FADD && exprSign(x->k[0]) >= 1 && exprSign(x->k[1]) >= 1) return eAnd(eFCmp(FEQ, x->k[0], z), eFCmp(FEQ, x->k[1], z));
            if (x->op == FMUL && x->k[0] == x->k[1]) return eFCmp(FEQ, x->k[0], z);
            if (x->op == FMUL && isConst(x->k[0]) && !isD(x->k[0], 0)) return eFCmp(FEQ, x->k[1], z);
            if (x->op == FMUL && isConst(x->k[1]) && !isD(x->k[1], 0)) return eFCmp(FEQ, x->k[0], z);
            if (x->op == FSUB) return eFCmp(FEQ, x->k[0], x->k[1]);
        }
        {   // so is the square root
            Expr *x = stripCast(a), *y = stripCast(b);
            if (x->op == FSQRT && y->op == FSQRT && exprSign(x->k[0]) >= 1 && exprSign(y->k[0]) >= 1) return eFCmp(op, x->k[0], y->k[0]);
        }
        if (!g_noIntervals) {
            Iv x = iv(a), y = iv(b);
            if (x.hi < y.lo ) return mkBV(op == FLT, 1);
            if (y.hi < x.lo) return mkBV(0, 1);
            bool aZero = isD(a, 0), bZero = isD(b, 0);
            if (aZero && y.pos) return mkBV(op == FLT, 1);
            if (bZero && x.pos) return mkBV(0, 1);
            if (op == FLT && y.hi <= x.lo) return mkBV(0, 1);
        }
        // FLT / FEQ sign simplifications
        if (op == FLT) {
            if (b->op == CONST_FP && asD(b) <= 0 && ((a->op == UF && g_ufs[a->c] == "exp") || a->op == FSQRT || a->op == FABS))
                return mkBV(0, 1);
            if (a->op == CONST_FP && asD(a) <= 0 && (b->op == UF && g_ufs[b->c] == "exp")) return mkBV(1, 1);
            if (a->op == CONST_FP && asD(a) < 0 && (b->op == FSQRT || b->op == FABS)) return mkBV(1, 1);
        }
        if (op == FEQ && (isD(a, 0) || isD(b, 0))) {
            Expr* o = isD(a, 0) ? b : a;
            if (o->op == UF && g_ufs[o->c] == "exp") return mkBV(0, 1);
        }
    } else if (op == FEQ && a == b) return eNot(eIsNan(a));
    else if (op == FLT && a == b) return mkBV(0, 1);
    else if (op == FLE && a == b) return eNot(eIsNan(a));
    if (op == FEQ && a->id > b->id) std::swap(a, b);
    return mk(op, false, 1, a, b);
}
Expr* eIsNan(Expr* a) {
    if (a->op == CONST_FP) return mkBV(std::isnan(asD(a)), 1);
    if (a->op == CONST_Q || g_mode == FP_REAL) return mkBV(0, 1);
    if (a->op == FNEG || a->op == FABS || a->op == FPCAST) return eIsNan(a->k[0]);
    if (a->op == SITOFP || a->op == UITOFP) return mkBV(0, 1);
    return mk(FISNAN, false, 1, a);
}
Expr* eFpCast(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == CONST_FP) {
        double d = asD(a);
        if (g_mode != FP_REAL && w == 32) d = (float)d;
        if (g_mode == FP_REAL && w == 32 && std::isfinite(d) && !std::isfinite((float)d)) d = (float)d;
        return mkFP(d, w);
    }
    if (a->op == CONST_Q) return mkQ(*a->q, w);
    if (a->op == FPCAST && (g_mode == FP_REAL || (a->k[0]->w == w && w < a->w))) {
        if (a->k[0]->w == w) return a->k[0];
    }
    return mk(FPCAST, true, w, a);
}
Expr* eUF(const std::string& n, Expr* a, Expr* b, unsigned w) {
    if (isConst(a) && (!b || isConst(b))) {
        auto dv = [](Expr* e) { return e->op == CONST_Q ? e->q->get_d() : asD(e); };
        double u = dv(a), v = b ? dv(b) : 0, r = 0;
        bool ok = true;
        if (n == "exp") r = exp(u);
        else if (n == "log") r = log(u);
        else if (n == "pow") r = pow(u, v);
        else if (n == "atan") r = atan(u);
        else if (n == "tan") r = tan(u);
        else if (n == "sin") r = sin(u);
        else if (n == "cos") r = cos(u);
        else if (n == "atan2") r = atan2(u, v);
        else if (n == "floor") r = floor(u);
        else if (n == "ceil") r = ceil(u);
        else ok = false;
        if (ok) { if (w == 32 && g_mode != FP_REAL) r = (float)r; return mkFP(r, w); }
    }
    // log(1/x) = -log(x) (where defined)
    if (g_mode == FP_REAL && n == "log" && a->op == FDIV && isD(a->k[0], 1)) return eF(FNEG, eUF(n, a->k[1], nullptr, w));
    return mk(UF, true, w, a, b, nullptr, ufId(n));
}
Expr* eBV2FP(Expr* a) {
    if (a->op == FP2BV) return a->k[0];
    if (a->op == CONST_BV) {
        double d;
        if (a->w == 32) { float f; uint32_t u = a->c; memcpy(&f, &u, 4); d = f; }
        else memcpy(&d, &a->c, 8);
        return mkFP(d, a->w);
    }
    return mk(BV2FP, true, a->w, a);
}
Expr* eFP2BV(Expr* a) {
    if (a->op == BV2FP) return a->k[0];
    if (a->op == CONST_FP) {
        double d = asD(a);
        if (a->w == 32) { float f = d; if ((double)f == d || d != d) { uint32_t u; memcpy(&u, &f, 4); return mkBV(u, 32); } }
        else { uint64_t u; memcpy(&u, &d, 8); return mkBV(u, 64); }
    }
    return mk(FP2BV, false, a->w, a);
}
static const char* opn[] = {"bv", "fp", "q", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "not",
    "concat", "extract", "zext", "sext", "ite", "=", "u<", "u<=", "s<", "s<=", "f+", "f-", "f*", "f/", "fneg", "fabs", "fsqrt", "f=", "f<", "f<=", "isnan",
    "fpcast", "sitofp", "uitofp", "fptosi", "fptoui", "bv2fp", "fp2bv", "uf"};
std::string exprStr(const Expr* e, int d) {
    std::ostringstream o;
    switch (e->op) {
    case CONST_BV: o << e->c; return o.str();
    case CONST_FP: o << asD(e); return o.str();
    case CONST_Q: { auto s = e->q->get_str(); return s.size() > 30 ? std::to_string(e->q->get_d()) + "q" : s; }
    case VAR: return g_vars[e->c].name;
    default: break;
    }
    if (d == 0) return "..";
    o << "(" << (e->op == UF ? g_ufs[e->c].c_str() : opn[e->op]);
    for (unsigned i = 0; i < e->n; ++i) o << " " << exprStr(e->k[i], d - 1);
    o << ")";
    return o.str();
}
