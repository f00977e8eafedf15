// Hash-consed expression DAG used by the symbolic executor.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <gmpxx.h>

enum Op : uint8_t {
    CONST_BV, CONST_FP, CONST_Q, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, NOT,
    CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE,
    FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FEQ, FLT, FLE, FISNAN,
    FPCAST, SITOFP, UITOFP, FPTOSI, FPTOUI, BV2FP, FP2BV, UF
};
extern bool g_noIntervals;
enum FpMode { FP_REAL, FP_EXACT };
extern FpMode g_mode;

struct Expr {
    Op op;
    bool fp;         // sort: floating point (or real) when true, bit-vector otherwise (w==1: boolean)
    uint16_t w;      // width
    uint32_t id;
    uint64_t c;      // constant bits / var id / extract low bit / uf name id
    mpq_class* q;    // CONST_Q
    uint32_t n;
    Expr* k[3];
    std::vector<uint32_t>* vars;  // sorted variable ids
    bool has_uf;
    uint32_t depth;
};

enum VarKind { VK_INPUT, VK_AUX };
struct VarInfo { std::string name; bool fp; uint16_t w; VarKind kind; double lo = -INFINITY, hi = INFINITY; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;

Expr* mkBV(uint64_t v, unsigned w);
Expr* mkFP(double v, unsigned w);
Expr* mkQ(const mpq_class& q, unsigned w);
Expr* mkVar(const std::string& name, bool fp, unsigned w, VarKind k = VK_INPUT);
Expr* mk(Op op, bool fp, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, uint64_t aux = 0);
int ufId(const std::string& n);

// simplifying constructors
Expr* eBin(Op op, Expr* a, Expr* b);             // BV binary
Expr* eCmp(Op op, Expr* a, Expr* b);             // BV comparison
Expr* eNot(Expr* a);
Expr* eAnd(Expr* a, Expr* b);
Expr* eOr(Expr* a, Expr* b);
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eZext(Expr* a, unsigned w);
Expr* eSext(Expr* a, unsigned w);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eF(Op op, Expr* a, Expr* b = nullptr);     // FP arithmetic (FADD..FSQRT)
Expr* eFCmp(Op op, Expr* a, Expr* b);            // FEQ FLT FLE
Expr* eIsNan(Expr* a);
Expr* eFpCast(Expr* a, unsigned w);
Expr* eUF(const std::string& n, Expr* a, Expr* b, unsigned w);
Expr* eBV2FP(Expr* a);
Expr* eFP2BV(Expr* a);

inline bool isConst(const Expr* e) { return e->op == CONST_BV || e->op == CONST_FP || e->op == CONST_Q; }
inline bool isBV(const Expr* e, uint64_t v) { return e->op == CONST_BV && e->c == v; }
inline double asD(const Expr* e) { double d; memcpy(&d, &e->c, 8); return d; }
void exprBounds(const Expr* e, double& lo, double& hi);
extern double (*g_quadLower)(const Expr*);
double evalReal(const Expr* e, std::vector<double> const& val, std::unordered_map<const Expr*, double>& memo);  // throws int
int exprSign(const Expr* e);  // 2: positive, 1: not negative, 0: unknown
bool constQ(const Expr* e, mpq_class& q);         // finite fp constant as a rational
inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextW(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    return (int64_t)(((v & maskW(w)) ^ m) - m);
}
std::string exprStr(const Expr* e, int depth = 6);
