//% products and transposes: all shapes up to 3x3 (4x4 thorough); inverses: 1x1, 2x2 and 3x3, every real entry in [-10, 10]
//% arithmetic over the exact reals
#include "common.h"
#include "xmmMatrix.hpp"
using namespace xmm;
typedef Matrix<double> M;
typedef std::unique_ptr<M> P;

static void fill(M& m, const char* n) {
    for (unsigned i = 0; i < m.nrows * m.ncols; ++i) m.data[i] = symx_double(n, -10, 10);
}
#if THOROUGH
static const int N = 4;
#else
static const int N = 3;
#endif

//@ H_mat_product need=end,refused
extern "C" void H_mat_product() {
    unsigned r = 1 + symx_choose("r", N), k = 1 + symx_choose("k", N), k2 = 1 + symx_choose("k2", N), c = 1 + symx_choose("c", N);
    M a(r, k), b(k2, c);
    fill(a, "a");
    fill(b, "b");
    try {
        P p(a.product(&b));
        symx_assert(k == k2, "incompatible shapes are refused");
        symx_assert(p->nrows == r && p->ncols == c, "shape of the product");
        for (unsigned i = 0; i < r; ++i)
            for (unsigned j = 0; j < c; ++j) {
                double s = 0;
                for (unsigned l = 0; l < k; ++l) s += a.data[i * k + l] * b.data[l * c + j];
                symx_close(p->data[i * c + j], s, "entry of the product");
            }
        symx_reach("end");
    } catch (std::runtime_error&) {
        symx_assert(k != k2, "compatible shapes are accepted");
        symx_reach("refused");
    }
    symx_no_leak();
}

//@ H_mat_shape
extern "C" void H_mat_shape() {
    unsigned r = 1 + symx_choose("r", N), c = 1 + symx_choose("c", N);
    M a(r, c);
    fill(a, "a");
    VD old(a.data, a.data + r * c);
    P t(a.transpose());
    symx_assert(t->nrows == c && t->ncols == r, "shape of the transpose");
    double sum = 0;
    for (unsigned i = 0; i < r; ++i)
        for (unsigned j = 0; j < c; ++j) {
            symx_assert(t->data[j * r + i] == old[i * c + j], "entry of the transpose");
            sum += old[i * c + j];
        }
    symx_close(a.sum(), sum, "sum of the entries");
    unsigned i1 = symx_choose("i1", r), i2 = symx_choose("i2", r), j1 = symx_choose("j1", c), j2 = symx_choose("j2", c);
    a.swap_lines(i1, i2);
    a.swap_columns(j1, j2);
    for (unsigned i = 0; i < r; ++i)
        for (unsigned j = 0; j < c; ++j) {
            unsigned si = i == i1 ? i2 : i == i2 ? i1 : i, sj = j == j1 ? j2 : j == j2 ? j1 : j;
            symx_assert(a.data[i * c + j] == old[si * c + sj], "rows and columns are exchanged");
        }
    symx_reach("end");
    symx_no_leak();
}

static double det3(VD const& a) {
    return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
}
static void inverse_case(unsigned n, bool shared) {
    VD v(n * n);
    for (auto& x : v) x = symx_double("a", -10, 10);
    VD keep = v;
    double d = n == 1 ? v[0] : n == 2 ? v[0] * v[3] - v[1] * v[2] : det3(v);
    M own(n, n);
    own._data = v;
    own.data = own._data.begin();
    M sh(n, n, v.begin());
    M& a = shared ? sh : own;
    double det = -1;
    P inv;
    try {
        inv.reset(symx_choose("pinv", 2) ? a.pinv(&det) : a.gauss_jordan_inverse(&det));
    } catch (std::runtime_error&) {
        symx_reach("singular");
        if (n <= 2) symx_assert(d < 1e-6 && d > -1e-6, "a well conditioned matrix is inverted");
        return;
    }
    symx_assert(inv->nrows == n && inv->ncols == n, "shape of the inverse");
    symx_close(det, d, "determinant");
    for (unsigned i = 0; i < n * n; ++i) symx_assert(a.data[i] == keep[i], "the inverted matrix is unchanged");
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j) {
            double s = 0, t = 0;
            for (unsigned k = 0; k < n; ++k) {
                s += keep[i * n + k] * inv->data[k * n + j];
                t += inv->data[i * n + k] * keep[k * n + j];
            }
            symx_close(s, i == j, "matrix times inverse is the identity");
            symx_close(t, i == j, "inverse times matrix is the identity");
        }
    symx_reach("end");
}
//@ H_mat_inverse1 need=end,singular
extern "C" void H_mat_inverse1() { inverse_case(1, symx_choose("shared", 2)); symx_no_leak(); }
//@ H_mat_inverse2 need=end,singular
extern "C" void H_mat_inverse2() { inverse_case(2, symx_choose("shared", 2)); symx_no_leak(); }
//@ H_mat_inverse3 need=end
extern "C" void H_mat_inverse3() { inverse_case(3, false); symx_no_leak(); }

// exactly singular matrices are refused
//@ H_mat_singular
extern "C" void H_mat_singular() {
    unsigned n = 2 + symx_choose("n", 2);
    M a(n, n);
    fill(a, "a");
    // the last row is a combination of the others
    double k0 = symx_double("k0", -2, 2), k1 = symx_double("k1", -2, 2);
    for (unsigned j = 0; j < n; ++j) a.data[(n - 1) * n + j] = k0 * a.data[j] + (n == 3 ? k1 * a.data[n + j] : 0);
    bool thrown = false;
    double det = 1;
    P inv;
    try { inv.reset(a.gauss_jordan_inverse(&det)); } catch (std::runtime_error&) { thrown = true; }
    symx_assert(thrown, "a singular matrix is refused");
    bool t2 = false;
    M r(2u, 3u);
    try { inv.reset(r.gauss_jordan_inverse(&det)); } catch (std::runtime_error&) { t2 = true; }
    symx_assert(t2, "a non-square matrix is refused");
    symx_reach("end");
    symx_no_leak();
}

// Moore-Penrose inverse of rectangular matrices of full rank
//@ H_mat_pinv need=end
extern "C" void H_mat_pinv() {
    int wide = symx_choose("wide", 2);
    unsigned r = wide ? 1 : 2, c = wide ? 2 : 1;
    M a(r, c);
    fill(a, "a");
    symx_assume(a.data[0] * a.data[0] + a.data[1] * a.data[1] >= 0.01);
    double det = 1;
    P p(a.pinv(&det));
    symx_assert(p->nrows == c && p->ncols == r, "shape of the pseudo-inverse");
    P ap(a.product(p.get())), apa(ap->product(&a));
    for (unsigned i = 0; i < r * c; ++i) symx_close(apa->data[i], a.data[i], "A A+ A = A");
    P at(ap->transpose());
    for (unsigned i = 0; i < r * r; ++i) symx_close(ap->data[i], at->data[i], "A A+ is symmetric");
    symx_reach("end");
    symx_no_leak();
}

// copies own their data; resized matrices stay usable
//@ H_mat_copy need=end
extern "C" void H_mat_copy() {
    unsigned n = 1 + symx_choose("n", N), m = 1 + symx_choose("m", N);
    double x = symx_double("x", -10, 10);
    P a(new M(n, m));
    fill(*a, "a");
    VD old(a->data, a->data + n * m);
    int how = symx_choose("how", 3);
    M b(1u, 1u);
    if (how == 0) { M c(*a); a->data[0] = x; a.reset(); for (unsigned i = 0; i < n * m; ++i) symx_assert(c.data[i] == old[i], "a copy is independent of its source"); }
    else if (how == 1) { b = *a; a->data[0] = x; a.reset(); symx_assert(b.nrows == n && b.ncols == m, "shape"); for (unsigned i = 0; i < n * m; ++i) symx_assert(b.data[i] == old[i], "an assigned matrix is independent of its source"); }
    else {
        unsigned k = 1 + symx_choose("k", N);
        a->resize(k, k);
        for (unsigned i = 0; i < k * k; ++i) a->data[i] = x + i;
        P t(a->transpose());
        for (unsigned i = 0; i < k; ++i) for (unsigned j = 0; j < k; ++j) symx_close(t->data[i * k + j], x + j * k + i, "a resized matrix holds what is written to it");
    }
    symx_reach("end");
    symx_no_leak();
}
