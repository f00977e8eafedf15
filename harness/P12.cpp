//% dimensions 1..3 unimodal, (2,1) (3,1) (3,2) bimodal; full and diagonal covariances; every mean, observation and covariance in the stated ranges (reals)
//% likelihood bounds also over IEEE doubles with any finite covariance, including singular and indefinite ones, dimension 1..2
#include "common.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
static const unsigned D[5][2] = {{1, 0}, {2, 0}, {2, 1}, {3, 1}, {3, 2}};
static VF obs(unsigned n, const char* nm = "o") {
    VF v;
    for (unsigned i = 0; i < n; ++i) v.push_back(symx_float(nm, -1000, 1000));
    return v;
}
// covariance L L^T with a positive diagonal: every positive definite matrix
static void spd(GaussianDistribution& g, unsigned n, bool full) {
    double L[3][3] = {};
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) L[i][j] = i == j ? symx_double("l", 0.25, 4) : full ? symx_double("m", -4, 4) : 0;
    for (unsigned i = 0; i < n; ++i) g.mean[i] = symx_double("mean", -100, 100);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        double s = 0;
        for (unsigned k = 0; k < n; ++k) s += L[i][k] * L[j][k];
        if (full) g.covariance[i * n + j] = s; else if (i == j) g.covariance[i] = s;
    }
    g.updateInverseCovariance();
}
static double minor(double C[3][3], unsigned m) {
    if (m == 1) return C[0][0];
    if (m == 2) return C[0][0] * C[1][1] - C[0][1] * C[1][0];
    return C[0][0] * (C[1][1] * C[2][2] - C[1][2] * C[2][1]) - C[0][1] * (C[1][0] * C[2][2] - C[1][2] * C[2][0]) + C[0][2] * (C[1][0] * C[2][1] - C[1][1] * C[2][0]);
}
static double cof(double C[3][3], unsigned m, unsigned i, unsigned j) {
    if (m == 1) return 1;
    if (m == 2) return i == j ? C[1 - i][1 - i] : -C[i][j];
    unsigned a = (i + 1) % 3, b = (i + 2) % 3, c = (j + 1) % 3, d = (j + 2) % 3;
    return C[a][c] * C[b][d] - C[a][d] * C[b][c];
}
// likelihood against the density: p * sqrt(det (2 pi)^n) = exp(-d/2) where S (x) solves the quadratic form
//@ H_lik_diag need=end
extern "C" void H_lik_diag() {
    unsigned const* c = D[symx_choose("cfg", 5)];
    unsigned n = c[0], di = c[1];
    {
        GaussianDistribution g(di > 0, n, di, CM::Diagonal);
        spd(g, n, false);
        VF x = obs(n);
        double q = 0, det = 1;
        for (unsigned i = 0; i < n; ++i) { q += (x[i] - g.mean[i]) * (x[i] - g.mean[i]) / g.covariance[i]; det *= g.covariance[i]; }
        double want = std::exp(-0.5 * q) / std::sqrt(det * std::pow(2 * M_PI, double(n)));
        double p = g.likelihood(x.data());
        symx_assert(p >= 1e-180, "never below the floor");
        if (p > 1e-180) symx_close(p / want, 1, "density of the diagonal gaussian");
        if (di) {
            symx_close(g.likelihood_bimodal(x.data(), x.data() + di) / p, 1, "the joint likelihood is that of the concatenated observation");
            double qi = 0, deti = 1;
            for (unsigned i = 0; i < di; ++i) { qi += (x[i] - g.mean[i]) * (x[i] - g.mean[i]) / g.covariance[i]; deti *= g.covariance[i]; }
            double wi = std::exp(-0.5 * qi) / std::sqrt(deti * std::pow(2 * M_PI, double(di)));
            double pi = g.likelihood_input(x.data());
            symx_assert(pi >= 1e-180, "never below the floor");
            if (pi > 1e-180) symx_close(pi / wi, 1, "density of the input marginal");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_lik_full need=end shards=5
extern "C" void H_lik_full() {
    unsigned const* c = D[symx_choose("cfg", THOROUGH ? 5 : 4)];
    unsigned n = c[0], di = c[1];
    {
        GaussianDistribution g(di > 0, n, di, CM::Full);
        double C[3][3] = {};
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) C[i][j] = C[j][i] = i == j ? symx_double("v", 0.0625, 16) : symx_double("c", -16, 16);
        symx_assume(minor(C, 1) > 0.001);
        symx_assume(minor(C, 2) > 0.001 || n < 2);
        symx_assume(minor(C, 3) > 0.001 || n < 3);
        for (unsigned i = 0; i < n; ++i) g.mean[i] = symx_double("mean", -100, 100);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) g.covariance[i * n + j] = C[i][j];
        g.updateInverseCovariance();
        VF x = obs(n);
        // Mahalanobis distance through cofactors
        auto density = [&](unsigned m) {
            double det = minor(C, m), q = 0;
            for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < m; ++j) q += (x[i] - g.mean[i]) * cof(C, m, i, j) * (x[j] - g.mean[j]);
            return std::exp(-0.5 * q / det) / std::sqrt(det * std::pow(2 * M_PI, double(m)));
        };
        double p = g.likelihood(x.data()), want = density(n);
        symx_assert(p >= 1e-180, "never below the floor");
        if (p > 1e-180) symx_close(p / want, 1, "density of the full gaussian");
        if (di) {
            symx_close(g.likelihood_bimodal(x.data(), x.data() + di) / p, 1, "the joint likelihood is that of the concatenated observation");
            double pi = g.likelihood_input(x.data()), wi = density(di);
            symx_assert(pi >= 1e-180, "never below the floor");
            if (pi > 1e-180) symx_close(pi / wi, 1, "density of the input marginal");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// well inside the range of the exponential: a refutation fails in floating point too
//@ H_lik_joint need=end shards=3
extern "C" void H_lik_joint() {
    unsigned const* c = D[2 + symx_choose("cfg", 3)];
    unsigned n = c[0], di = c[1];
    {
        GaussianDistribution g(true, n, di, CM::Full);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j)
            g.covariance[i * n + j] = g.covariance[j * n + i] = i == j ? symx_double("v", 1, 2) : symx_double("c", -0.4, 0.4);
        for (unsigned i = 0; i < n; ++i) g.mean[i] = symx_double("mean", -2, 2);
        g.updateInverseCovariance();
        VF x;
        for (unsigned i = 0; i < n; ++i) x.push_back(symx_float("o", -2, 2));
        double p = g.likelihood(x.data());
        symx_close(g.likelihood_bimodal(x.data(), x.data() + di) / p, 1, "the joint likelihood is that of the concatenated observation");
        g.covariance_mode.set(CM::Diagonal);
        g.updateInverseCovariance();
        p = g.likelihood(x.data());
        symx_close(g.likelihood_bimodal(x.data(), x.data() + di) / p, 1, "the joint likelihood is that of the concatenated observation");
    }
    symx_reach("end");
    symx_no_leak();
}
// whatever the covariance, a likelihood is a positive finite number, or the covariance is refused
//@ H_lik_bound mode=exact need=end
extern "C" void H_lik_bound() {
    bool full = symx_choose("full", 2);
    unsigned n = full || !THOROUGH ? 1 : 1 + symx_choose("n", 2);
    {
        GaussianDistribution g(false, n, 0, full ? CM::Full : CM::Diagonal);
        for (auto& m : g.mean) m = symx_double("mean", -1e300, 1e300);
        for (auto& m : g.covariance) m = symx_double("cov", -1e300, 1e300);
        VF x;
        for (unsigned i = 0; i < n; ++i) x.push_back(symx_float("x", -1e38f, 1e38f));
        bool ok = true;
        try { g.updateInverseCovariance(); } catch (std::runtime_error&) { ok = false; }
        double p = 1;
        if (ok) { try { p = g.likelihood(x.data()); } catch (std::runtime_error&) {} }
        symx_assert(p >= 1e-180, "a likelihood is never below the floor and never NaN");
        symx_assert(p < INFINITY, "a likelihood is finite");
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_lik_misuse need=end
extern "C" void H_lik_misuse() {
    bool full = symx_choose("full", 2), bi = symx_choose("bi", 2);
    {
        GaussianDistribution g(bi, 2, bi ? 1 : 0, full ? CM::Full : CM::Diagonal);
        float x[2] = {symx_float("x", -10, 10), symx_float("x", -10, 10)};
        int t = 0;
        try { g.likelihood(x); } catch (std::runtime_error&) { t |= 1; }
        try { g.likelihood_input(x); } catch (std::runtime_error&) { t |= 2; }
        try { g.likelihood_bimodal(x, x + 1); } catch (std::runtime_error&) { t |= 4; }
        symx_assert(t == 7, "a distribution without an inverse covariance gives no likelihood");
        if (!bi) {
            spd(g, 2, full);
            t = 0;
            VF o;
            try { g.likelihood_input(x); } catch (std::runtime_error&) { t |= 1; }
            try { g.likelihood_bimodal(x, x + 1); } catch (std::runtime_error&) { t |= 2; }
            try { g.regression(VF(1, 0.f), o); } catch (std::runtime_error&) { t |= 4; }
            symx_assert(t == 7, "a unimodal distribution has no input modality");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
