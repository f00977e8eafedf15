//% 1..3 classes of 1..2 gaussians of dimension 1..2 (2 = one input, one output when bimodal), full and diagonal; every mean, positive definite covariance, mixture coefficient and observation in the stated ranges (reals)
#include "models.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
struct Shape { unsigned K, N, dim, din; bool full; };
static Shape shape() {
    static const unsigned S[][4] = {{1, 2, 1, 0}, {2, 2, 1, 0}, {3, 1, 1, 0}, {1, 2, 2, 0}, {1, 2, 2, 1}, {2, 1, 2, 1}, {2, 2, 2, 1}, {1, 1, 3, 1}};
    unsigned const* s = S[symx_choose("shape", 8)];
    Shape r{s[0], s[1], s[2], s[3], s[2] > 1 ? (bool)symx_choose("full", 2) : true};
    return r;
}
static void train(GMM& m, TrainingSet& ts, Shape s, unsigned window = 1) {
    fillSet(ts, s.K, 4, s.dim, s.din);
    quickTraining(m);
    m.configuration.gaussians.set(s.N);
    m.configuration.covariance_mode.set(s.full ? CM::Full : CM::Diagonal);
    m.shared_parameters->likelihood_window.set(window);
    m.train(&ts);
}
static void freeModel(GMM& m) {
    for (auto& c : m.models)
        for (unsigned k = 0; k < c.second.components.size(); ++k) {
            freeGaussian(c.second.components[k]);
            c.second.mixture_coeffs[k] = symx_float("w", 0.01f, 1);
        }
}
// likelihood of one gaussian; the floor of the density (P12) is left to the smallest shape
static double gauss(GaussianDistribution const& g, VF const& x, bool bimodal, bool floor = false) {
    double p = bimodal ? g.likelihood_input(x.data()) : g.likelihood(x.data());
    if (!floor) symx_assume(p > 1e-180);
    return p;
}
static VF observation(Shape s) {
    VF x;
    for (unsigned i = 0; i < (s.din ? s.din : s.dim); ++i) x.push_back(symx_float("x", -freeRange(s.dim), freeRange(s.dim)));
    return x;
}
//@ H_gmm_likelihood need=end shards=8
extern "C" void H_gmm_likelihood() {
    Shape s = shape();
    {
        TrainingSet ts(s.din ? MemoryMode::OwnMemory : MemoryMode::OwnMemory, s.din ? Multimodality::Bimodal : Multimodality::Unimodal);
        GMM m(s.din > 0);
        train(m, ts, s);
        symx_assert(m.size() == s.K && m.results.instant_likelihoods.size() == s.K, "one result per class");
        freeModel(m);
        VF x = observation(s);
        for (auto& c : m.models) for (auto& g : c.second.components) gauss(g, x, s.din > 0, s.K == 1 && s.dim == 1);
        m.filter(x);
        VD p;
        double total = 0;
        unsigned i = 0;
        for (auto& c : m.models) {
            SingleClassGMM& g = c.second;
            double want = 0;
            VD part;
            for (unsigned k = 0; k < s.N; ++k) {
                part.push_back(g.mixture_coeffs[k] * gauss(g.components[k], x, s.din > 0, true));
                want += part[k];
            }
            symx_close(g.results.instant_likelihood, want, "likelihood of a class: weighted sum over its gaussians");
            for (unsigned k = 0; k < s.N; ++k) symx_close(g.beta[k] * want, part[k], "probability of a gaussian");
            symx_close(m.results.instant_likelihoods[i], want, "likelihood reported for the class");
            symx_close(m.results.smoothed_log_likelihoods[i], std::log(want), "smoothed log-likelihood over one frame");
            symx_close(m.results.smoothed_likelihoods[i], want, "smoothed likelihood over one frame");
            p.push_back(want);
            total += want;
            ++i;
        }
        i = 0;
        for (auto& c : m.models) {
            symx_close(m.results.instant_normalized_likelihoods[i] * total, p[i], "normalised likelihood");
            symx_close(m.results.smoothed_normalized_likelihoods[i] * total, p[i], "normalised smoothed likelihood");
            if (c.first == m.results.likeliest) for (unsigned j = 0; j < s.K; ++j) symx_assert(p[i] >= p[j], "the likeliest class has the highest likelihood");
            ++i;
        }
        symx_assert(m.models.count(m.results.likeliest) == 1, "the likeliest class exists");
    }
    symx_reach("end");
    symx_no_leak();
}
// the smoothed likelihood is the geometric mean over the last frames, and forgets on reset
//@ H_gmm_window need=end,full shards=4
extern "C" void H_gmm_window() {
    unsigned W = 1 + symx_choose("window", 3), F = 1 + symx_choose("frames", THOROUGH ? 5 : 4);
    Shape s{2, 1, 1, 0, true};
    {
        TrainingSet ts;
        GMM m;
        train(m, ts, s, symx_choose("late", 2) ? 2 : W);
        if (m.shared_parameters->likelihood_window.get() != W) { m.shared_parameters->likelihood_window.set(W); m.reset(); }
        freeModel(m);
        std::vector<VD> hist(2);
        unsigned cut = symx_choose("reset", F + 1);
        for (unsigned f = 0; f < F; ++f) {
            if (f && f == cut) { m.reset(); hist.assign(2, VD()); }
            VF x = observation(s);
            unsigned i = 0;
            for (auto& c : m.models) hist[i++].push_back(c.second.mixture_coeffs[0] * gauss(c.second.components[0], x, false));
            m.filter(x);
        }
        VD want;
        for (unsigned i = 0; i < 2; ++i) {
            unsigned n = hist[i].size(), k = n < W ? n : W;
            if (k == W && n > W) symx_reach("full");
            double sum = 0;
            for (unsigned j = n - k; j < n; ++j) sum += std::log(hist[i][j]);
            want.push_back(sum / k);
            symx_close(m.results.smoothed_log_likelihoods[i], want[i], "mean log-likelihood over the window");
            symx_close(m.results.smoothed_likelihoods[i], std::exp(want[i]), "its exponential");
            symx_close(m.results.instant_likelihoods[i], hist[i].back(), "instant likelihood of the last frame");
        }
        for (unsigned i = 0; i < 2; ++i) symx_close(m.results.smoothed_normalized_likelihoods[i] * (m.results.smoothed_likelihoods[0] + m.results.smoothed_likelihoods[1]), m.results.smoothed_likelihoods[i], "normalised");
        symx_assert(m.results.likeliest == "a" ? want[0] >= want[1] : m.results.likeliest == "b" && want[1] >= want[0], "the likeliest class has the highest smoothed likelihood");
    }
    symx_reach("end");
    symx_no_leak();
}
static void checkRegression(SingleClassGMM& g, VF const& x, Shape s) {
    unsigned o = s.dim - s.din;
    VD val(o, 0), cov(s.full ? o * o : o, 0);
    for (unsigned k = 0; k < s.N; ++k) {
        VF y;
        g.components[k].regression(x, y);
        for (unsigned d = 0; d < o; ++d) val[d] += g.beta[k] * y[d];
        for (unsigned d = 0; d < cov.size(); ++d) cov[d] += g.beta[k] * g.beta[k] * g.components[k].output_covariance[d];
    }
    symx_assert(g.results.output_values.size() == o && g.results.output_covariance.size() == cov.size(), "size of the prediction");
    for (unsigned d = 0; d < o; ++d) symx_close(g.results.output_values[d], val[d], "prediction: mean of the gaussians' predictions by probability");
    for (unsigned d = 0; d < cov.size(); ++d) symx_close(g.results.output_covariance[d], cov[d], "covariance of the prediction");
}
//@ H_gmm_regression need=end shards=8
extern "C" void H_gmm_regression() {
    static const unsigned S[][4] = {{1, 1, 2, 1}, {1, 2, 2, 1}, {1, 2, 3, 1}, {2, 1, 2, 1}, {2, 2, 2, 1}, {2, 1, 3, 1}, {1, 2, 3, 2}, {3, 1, 2, 1}};
    unsigned const* p = S[symx_choose("shape", 8)];
    Shape s{p[0], p[1], p[2], p[3], (bool)symx_choose("full", 2)};
    bool mixture = s.K > 1 && symx_choose("mixture", 2);
    unsigned o = s.dim - s.din;
    {
        TrainingSet ts(MemoryMode::OwnMemory, Multimodality::Bimodal);
        GMM m(true);
        bool again = s.K == 2 && s.N == 1;  // a second frame, over a window of two
        train(m, ts, s, again ? 2 : 1);
        m.configuration.multiClass_regression_estimator = mixture ? MultiClassRegressionEstimator::Mixture : MultiClassRegressionEstimator::Likeliest;
        freeModel(m);
        if (again) m.filter(VF(s.din, 0.5f));
        VF x = observation(s);
        for (auto& c : m.models) for (auto& g : c.second.components) gauss(g, x, true);
        m.filter(x);
        for (auto& c : m.models) checkRegression(c.second, x, s);
        symx_assert(m.results.output_values.size() == o && m.results.output_covariance.size() == (s.full ? o * o : o), "size of the output");
        VD val(o, 0), cov(s.full ? o * o : o, 0);
        unsigned i = 0;
        for (auto& c : m.models) {
            double w = mixture ? m.results.smoothed_normalized_likelihoods[i] : c.first == m.results.likeliest;
            for (unsigned d = 0; d < o; ++d) val[d] += w * c.second.results.output_values[d];
            for (unsigned d = 0; d < cov.size(); ++d) cov[d] += w * c.second.results.output_covariance[d];
            ++i;
        }
        for (unsigned d = 0; d < o; ++d) symx_close(m.results.output_values[d], val[d], mixture ? "output: mean of the classes' predictions by normalised likelihood" : "output of the likeliest class");
        for (unsigned d = 0; d < cov.size(); ++d) symx_close(m.results.output_covariance[d], cov[d], "covariance of the output");
    }
    symx_reach("end");
    symx_no_leak();
}
// classes with their own covariance mode, mixed with the default
//@ H_gmm_mixed_modes need=end
extern "C" void H_gmm_mixed_modes() {
    bool full = symx_choose("full", 2), fullB = symx_choose("fullB", 2);
    unsigned o = 2;
    {
        TrainingSet ts(MemoryMode::OwnMemory, Multimodality::Bimodal);
        GMM m(true);
        fillSet(ts, 2, 4, 3, 1);
        quickTraining(m);
        m.configuration.gaussians.set(1);
        m.configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
        m.configuration["b"].covariance_mode.set(fullB ? CM::Full : CM::Diagonal);
        m.configuration.multiClass_regression_estimator = MultiClassRegressionEstimator::Mixture;
        m.train(&ts);
        freeModel(m);
        VF x(1, symx_float("x", -4, 4));
        for (auto& c : m.models) for (auto& g : c.second.components) gauss(g, x, true);
        m.filter(x);
        SingleClassGMM &a = m.models["a"], &b = m.models["b"];
        symx_assert(a.parameters.covariance_mode.get() == (full ? CM::Full : CM::Diagonal) && b.parameters.covariance_mode.get() == (fullB ? CM::Full : CM::Diagonal), "each class has its own mode");
        symx_assert(m.results.output_covariance.size() == (full ? 4 : 2), "size of the covariance");
        for (unsigned d = 0; d < o; ++d) for (unsigned e = 0; e < o; ++e) {
            if (!full && d != e) continue;
            double want = 0;
            unsigned i = 0;
            for (auto* c : {&a, &b}) {
                bool f = c == &a ? full : fullB;
                want += m.results.smoothed_normalized_likelihoods[i++] * (f ? c->results.output_covariance[d * o + e] : d == e ? c->results.output_covariance[d] : 0);
            }
            symx_close(m.results.output_covariance[full ? d * o + e : d], want, "covariance of the output");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
