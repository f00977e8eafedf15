//% gaussians of dimension 1..3 unimodal, (2,1) (3,1) (3,2) bimodal, full and diagonal; every mean and positive definite covariance in the stated ranges (reals)
//% histories of 3 covariance-mode requests; one change of dimension; copies, assignments and JSON round trips in both modes; every ellipse with axes in [0.1, 50] and slope in [-20, 20] or horizontal
#include "common.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
static const unsigned D[6][2] = {{1, 0}, {2, 0}, {2, 1}, {3, 1}, {3, 2}, {3, 0}};
static void spd(GaussianDistribution& g, unsigned n, bool full) {
    for (unsigned i = 0; i < n; ++i) g.mean[i] = symx_double("mean", -100, 100);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) {
        double v = i == j ? symx_double("v", 4, 16) : full ? symx_double("c", -1, 1) : 0;  // diagonally dominant, hence positive definite
        if (full) g.covariance[i * n + j] = g.covariance[j * n + i] = v; else if (i == j) g.covariance[i] = v;
    }
}
static void same(GaussianDistribution const& a, GaussianDistribution const& b, bool usable = true) {
    symx_assert(a.dimension.get() == b.dimension.get() && a.dimension_input.get() == b.dimension_input.get() && a.covariance_mode.get() == b.covariance_mode.get(), "shape");
    symx_assert(a.mean == b.mean, "mean");
    symx_assert(a.covariance == b.covariance, "covariance");
    symx_assert(a.output_covariance == b.output_covariance, "conditional covariance");
    if (!usable) return;
    unsigned n = a.dimension.get(), di = a.dimension_input.get();
    VF x;
    for (unsigned i = 0; i < n; ++i) x.push_back(symx_float("x", -100, 100));
    symx_assert(a.likelihood(x.data()) == b.likelihood(x.data()), "likelihood");
    if (di) {
        symx_assert(a.likelihood_input(x.data()) == b.likelihood_input(x.data()), "input likelihood");
        VF y, z, in(x.begin(), x.begin() + di);
        a.regression(in, y);
        b.regression(in, z);
        symx_assert(y == z, "regression");
    }
}
// switching the mode keeps the variances, drops the covariances, and is idempotent; the distribution stays consistent
//@ H_mode_switch need=end,noop shards=6
extern "C" void H_mode_switch() {
    unsigned const* c = D[symx_choose("cfg", 6)];
    unsigned n = c[0], di = c[1];
    bool full = symx_choose("full", 2);
    {
        GaussianDistribution g(di > 0, n, di, full ? CM::Full : CM::Diagonal);
        spd(g, n, full);
        g.updateInverseCovariance();
        VD m = g.mean, var;
        for (unsigned i = 0; i < n; ++i) var.push_back(full ? g.covariance[i * n + i] : g.covariance[i]);
        VD fullC = full ? g.covariance : VD();
        bool cur = full, wasDiag = !full;
        for (int s = 0; s < 3; ++s) {
            bool to = symx_choose("to", 2);
            if (to == cur) symx_reach("noop");
            g.covariance_mode.set(to ? CM::Full : CM::Diagonal);
            cur = to;
            wasDiag |= !to;
            symx_assert(g.mean == m, "the mean does not depend on the mode");
            symx_assert(g.covariance.size() == (cur ? n * n : n), "size of the covariance");
            for (unsigned i = 0; i < n; ++i) {
                symx_assert((cur ? g.covariance[i * n + i] : g.covariance[i]) == var[i], "variances are kept");
                if (cur) for (unsigned j = 0; j < n; ++j) if (i != j) symx_assert(g.covariance[i * n + j] == (wasDiag ? 0 : fullC[i * n + j]), "covariances are kept, or zero after the diagonal mode");
            }
        }
        // the switched distribution behaves like one built in that mode
        GaussianDistribution h(di > 0, n, di, cur ? CM::Full : CM::Diagonal);
        h.mean = m;
        h.covariance = g.covariance;
        h.updateInverseCovariance();
        if (!cur || wasDiag || n < 3) same(g, h);
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_gauss_copy need=end shards=6
extern "C" void H_gauss_copy() {
    unsigned const* c = D[symx_choose("cfg", 6)];
    unsigned n = c[0], di = c[1];
    bool full = (n < 3 || THOROUGH) && symx_choose("full", 2);
    {
        std::unique_ptr<GaussianDistribution> g(new GaussianDistribution(di > 0, n, di, full ? CM::Full : CM::Diagonal)), h;
        spd(*g, n, full);
        g->updateInverseCovariance();
        int how = symx_choose("how", 4);
        if (how == 0) h.reset(new GaussianDistribution(*g));
        else if (how == 1) { h.reset(new GaussianDistribution(true, 4, 2, CM::Diagonal)); *h = *g; *h = *&*h; }
        else if (how == 2) h.reset(new GaussianDistribution(g->toJson()));
        else { h.reset(new GaussianDistribution(false, 2, 0, full ? CM::Diagonal : CM::Full)); h->fromJson(g->toJson()); }
        same(*g, *h);
        VD m = g->mean, cv = g->covariance;
        // the copy has its own life: resizing, changing the mode or the values leaves the original alone
        switch (symx_choose("mut", 4)) {
        case 0: h->mean[0] += 1; h->covariance[0] += 1; h->updateInverseCovariance(); break;
        case 1: h->covariance_mode.set(full ? CM::Diagonal : CM::Full); symx_assert(h->covariance.size() == (full ? n : n * n), "the copy follows its own mode"); break;
        case 2: h->dimension.set(n + 1); symx_assert(h->mean.size() == n + 1 && h->covariance.size() == (full ? (n + 1) * (n + 1) : n + 1), "the copy follows its own dimension"); break;
        case 3: {
            g->dimension.set(n + 1);
            symx_assert(h->mean == m && h->covariance == cv && h->dimension.get() == n, "the original's changes leave the copy alone");
            GaussianDistribution k(*h);
            same(*h, k);
            symx_reach("end");
            return;
        }
        }
        symx_assert(g->mean == m && g->covariance == cv && g->dimension.get() == n && g->covariance_mode.get() == (full ? CM::Full : CM::Diagonal), "the copy's changes leave the original alone");
        GaussianDistribution k(*g);
        h.reset();
        same(*g, k);
    }
    symx_reach("end");
    symx_no_leak();
}
// changing a dimension gives vectors of the new size
//@ H_gauss_dims need=end shards=4
extern "C" void H_gauss_dims() {
    unsigned const* c = D[symx_choose("cfg", 6)];
    unsigned n = c[0], di = c[1];
    bool full = symx_choose("full", 2);
    {
        GaussianDistribution g(di > 0, n, di, full ? CM::Full : CM::Diagonal);
        if (symx_choose("pre", 2)) { spd(g, n, full); g.updateInverseCovariance(); }
        for (int s = 0; s < 2; ++s) {
            unsigned v = symx_choose("dim", 5);
            bool ok = true;
            try { if (di && symx_choose("inp", 2)) { if (v) g.dimension_input.set(v); } else g.dimension.set(v); } catch (std::domain_error&) { ok = false; }
            unsigned m = g.dimension.get(), mi = g.dimension_input.get();
            symx_assert(m >= (di ? 2 : 1), "minimal dimension");
            if (di) symx_assert(mi >= 1 && mi < m, "the input dimension stays below the dimension");
            symx_assert(g.mean.size() == m && g.covariance.size() == (full ? m * m : m), "sizes follow the dimension");
        }
        unsigned m = g.dimension.get();
        for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < (full ? m : 1); ++j) g.covariance[full ? i * m + j : i] = full && i != j ? 0 : 2;
        g.updateInverseCovariance();
        VF x(m, symx_float("x", -10, 10));
        symx_assert(g.likelihood(x.data()) >= 1e-180, "usable after a change of dimension");
        if (di) {
            VF y;
            symx_assert(g.likelihood_input(x.data()) >= 1e-180, "usable after a change of dimension");
            g.regression(VF(g.dimension_input.get(), 0.f), y);
            symx_assert(y.size() == m - g.dimension_input.get(), "one prediction per output dimension");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// an ellipse and the covariance it stands for
//@ H_ellipse_from need=end
extern "C" void H_ellipse_from() {
    bool full = symx_choose("full", 2);
    unsigned n = 2 + symx_choose("n", 2), d1 = symx_choose("d1", 2), d2 = n - 1;
    symx_assume(d1 != d2);
    {
        GaussianDistribution g(false, n, 0, full ? CM::Full : CM::Diagonal);
        for (unsigned i = 0; i < n; ++i) g.covariance[full ? i * n + i : i] = 1;
        Ellipse e;
        e.x = symx_float("x", -10, 10);
        e.y = symx_float("y", -10, 10);
        e.width = symx_float("w", 0.1f, 50);
        e.height = symx_float("h", 0.1f, 50);
        bool flat = !full || symx_choose("flat", 2);
        double t;
        if (flat) { e.angle = 0; t = 0; }
        else { t = symx_double("t", -20, 20); e.angle = std::atan(t); }
        g.fromEllipse(e, d1, d2);
        symx_assert(g.mean[d1] == e.x && g.mean[d2] == e.y, "centre");
        double w2 = (double)e.width * e.width / 5.991, h2 = (double)e.height * e.height / 5.991;
        // rotation of diag(w2, h2) by the angle: cos^2 = 1/(1+t^2), sin^2 = t^2/(1+t^2)
        double cc = 1 / (1 + t * t);
        double a = (w2 + h2 * t * t) * cc, b = (w2 - h2) * t * cc, c = (w2 * t * t + h2) * cc;
        if (full) {
            symx_close(g.covariance[d1 * n + d1], a, "first variance of the ellipse");
            symx_close(g.covariance[d1 * n + d2], b, "covariance of the ellipse");
            symx_close(g.covariance[d2 * n + d1], b, "the covariance matrix stays symmetric");
            symx_close(g.covariance[d2 * n + d2], c, "second variance of the ellipse");
        } else {
            symx_close(g.covariance[d1], a, "first variance of the ellipse");
            symx_close(g.covariance[d2], c, "second variance of the ellipse");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_ellipse_to need=end
extern "C" void H_ellipse_to() {
    bool full = symx_choose("full", 2);
    unsigned n = 2 + symx_choose("n", 2), d1 = symx_choose("d1", 2), d2 = n - 1;
    symx_assume(d1 != d2);
    {
        GaussianDistribution g(false, n, 0, full ? CM::Full : CM::Diagonal);
        double a = symx_double("a", 0.1, 50), c = symx_double("c", 0.1, 50), b = full ? symx_double("b", -20, 20) : 0;
        symx_assume(a * c - b * b > 0.001);
        if (full) { g.covariance[d1 * n + d1] = a; g.covariance[d2 * n + d2] = c; g.covariance[d1 * n + d2] = g.covariance[d2 * n + d1] = b; }
        else { g.covariance[d1] = a; g.covariance[d2] = c; }
        g.mean[d1] = symx_double("mx", -10, 10);
        g.mean[d2] = symx_double("my", -10, 10);
        Ellipse e = g.toEllipse(d1, d2);
        symx_assert(e.x == (float)g.mean[d1] && e.y == (float)g.mean[d2], "centre");
        // squared axes are 5.991 times the eigenvalues
        double w2 = (double)e.width * e.width / 5.991, h2 = (double)e.height * e.height / 5.991;
        symx_close(w2 + h2, a + c, "the squared axes add up to the trace");
        symx_close(w2 * h2, a * c - b * b, "and multiply to the determinant");
        symx_assert(e.width >= e.height, "width is the larger axis");
        bool t = false, u = false;
        try { g.toEllipse(n, 0); } catch (std::out_of_range&) { t = true; }
        try { g.fromEllipse(e, 0, n); } catch (std::out_of_range&) { u = true; }
        symx_assert(t && u, "dimensions out of range are refused");
    }
    symx_reach("end");
    symx_no_leak();
}
