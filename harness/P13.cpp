//% bimodal gaussians of dimension (2,1) (3,1) (3,2), full and diagonal covariances; every mean, observation and positive definite covariance in the stated ranges (reals)
#include "common.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
static const unsigned D[3][2] = {{2, 1}, {3, 1}, {3, 2}};
static void spd(GaussianDistribution& g, unsigned n, bool full) {
    double L[3][3] = {};
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) L[i][j] = i == j ? symx_double("l", 0.25, 4) : full ? symx_double("m", -4, 4) : 0;
    for (unsigned i = 0; i < n; ++i) g.mean[i] = symx_double("mean", -100, 100);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        double s = 0;
        for (unsigned k = 0; k < n; ++k) s += L[i][k] * L[j][k];
        if (full) g.covariance[i * n + j] = s; else if (i == j) g.covariance[i] = s;
    }
}
// the prediction is mean_o + C_oi C_ii^-1 (x - mean_i); C_ii^-1 through the adjugate
static void inv(GaussianDistribution& g, unsigned n, unsigned di, double M[2][2]) {
    if (di == 1) { M[0][0] = 1 / g.covariance[0]; return; }
    double a = g.covariance[0], b = g.covariance[1], c = g.covariance[n], d = g.covariance[n + 1], det = a * d - b * c;
    M[0][0] = d / det; M[0][1] = -b / det; M[1][0] = -c / det; M[1][1] = a / det;
}
//@ H_regression need=end shards=3
extern "C" void H_regression() {
    unsigned const* c = D[symx_choose("cfg", 3)];
    unsigned n = c[0], di = c[1];
    bool full = symx_choose("full", 2);
    {
        GaussianDistribution g(true, n, di, full ? CM::Full : CM::Diagonal);
        spd(g, n, full);
        g.updateInverseCovariance();
        VF x, y;
        for (unsigned i = 0; i < di; ++i) x.push_back(symx_float("x", -1000, 1000));
        y.assign(symx_choose("presize", 2) * 5, 1.f);
        g.regression(x, y);
        symx_assert(y.size() == n - di, "one prediction per output dimension");
        double M[2][2] = {};
        if (full) inv(g, n, di, M);
        for (unsigned o = 0; o < n - di; ++o) {
            double w = g.mean[di + o];
            if (full) for (unsigned e = 0; e < di; ++e) for (unsigned f = 0; f < di; ++f) w += g.covariance[(di + o) * n + e] * M[e][f] * (x[f] - g.mean[f]);
            symx_close(y[o], w, "conditional mean of the output given the input");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_conditional need=end shards=3
extern "C" void H_conditional() {
    unsigned const* c = D[symx_choose("cfg", 3)];
    unsigned n = c[0], di = c[1], dо = n - di;
    bool full = symx_choose("full", 2);
    {
        GaussianDistribution g(true, n, di, full ? CM::Full : CM::Diagonal);
        spd(g, n, full);
        g.updateInverseCovariance();
        double M[2][2] = {};
        if (full) inv(g, n, di, M);
        symx_assert(g.output_covariance.size() == (full ? dо * dо : dо), "size of the conditional covariance");
        for (unsigned a = 0; a < dо; ++a) for (unsigned b = 0; b < dо; ++b) {
            if (!full) { if (a == b) symx_close(g.output_covariance[a], g.covariance[di + a], "conditional variance of a diagonal gaussian"); continue; }
            double w = g.covariance[(di + a) * n + di + b];
            for (unsigned e = 0; e < di; ++e) for (unsigned f = 0; f < di; ++f) w -= g.covariance[(di + a) * n + e] * M[e][f] * g.covariance[f * n + di + b];
            symx_close(g.output_covariance[a * dо + b], w, "conditional covariance of the output given the input");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// the regression predicts the mean for the mean, and is the mode of the joint density along the output
//@ H_regression_mode need=end
extern "C" void H_regression_mode() {
    {
        GaussianDistribution g(true, 2, 1, CM::Full);
        spd(g, 2, true);
        g.updateInverseCovariance();
        VF x(1, symx_float("x", -10, 10)), y;
        g.regression(x, y);
        // stationarity of the quadratic form in the output, written with the covariance alone
        double a = g.covariance[0], b = g.covariance[1];
        symx_close((y[0] - g.mean[1]) * a, b * (x[0] - g.mean[0]), "best linear predictor");
        // regularisation adds to the diagonal only
        double d0 = g.covariance[0], d3 = g.covariance[3];
        double r0 = symx_double("r", 0, 10), r1 = symx_double("r", 0, 10);
        g.regularize(VD{r0, r1});
        symx_close(g.covariance[0], d0 + r0, "regularisation of the first variance");
        symx_close(g.covariance[3], d3 + r1, "regularisation of the last variance");
        symx_assert(g.covariance[1] == b && g.covariance[2] == b, "covariances are not regularised");
        GaussianDistribution h(false, 2, 0, CM::Diagonal);
        h.covariance = VD{d0, d3};
        h.regularize(VD{r0, r1});
        symx_close(h.covariance[0], d0 + r0, "regularisation of the first variance");
        symx_close(h.covariance[1], d3 + r1, "regularisation of the last variance");
    }
    symx_reach("end");
    symx_no_leak();
}
