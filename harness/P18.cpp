//% non-hierarchical HMMs, 1..2 classes, 1..3 states (4 thorough), 1..2 gaussians, dimension 1..2, left-right and ergodic, up to 3 observations (reals); every transition and prior probability in [1/16, 1], every gaussian and observation in range
#include "models.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
static void train(HierarchicalHMM& m, TrainingSet& ts, unsigned K, unsigned N, unsigned G, unsigned dim, unsigned din, bool erg, bool full) {
    fillSet(ts, K, 4 * N, dim, din);
    quickTraining(m);
    m.configuration.states.set(N);
    m.configuration.gaussians.set(G);
    m.configuration.hierarchical.set(false);
    m.configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
    m.configuration.transition_mode.set(erg ? TM::Ergodic : TM::LeftRight);
    m.train(&ts);
}
static VF obs(unsigned n, float R) {
    VF x;
    for (unsigned i = 0; i < n; ++i) x.push_back(symx_float("x", -R, R));
    return x;
}
// forward recursion on the parameters of the class; returns the likelihood of the observation
static double forward(SingleClassHMM const& c, VD& a, VF const& x, bool bimodal) {
    unsigned N = c.states.size();
    VD n(N, 0);
    bool erg = ergodic(c);
    if (a.empty()) {
        for (unsigned j = 0; j < N; ++j) n[j] = erg ? c.prior[j] : j == 0;
    } else
        for (unsigned j = 0; j < N; ++j)
            for (unsigned i = 0; i < N; ++i) {
                double t = erg ? c.transition[i * N + j] : i == j ? c.transition[2 * i] : 0;
                if (!erg && (i + 1) % N == j) t += c.transition[2 * i + 1];
                if (erg || i == j || (i + 1) % N == j) n[j] += a[i] * t;
            }
    double sum = 0;
    for (unsigned j = 0; j < N; ++j) if (!(a.empty() && !erg && j)) sum += n[j] *= mixture(c.states[j], x, bimodal);
    for (auto& v : n) v /= sum;
    a = n;
    return sum;
}
static void checkState(SingleClassHMM& c, VD const& a) {
    unsigned N = a.size(), l = c.results.likeliest_state;
    symx_assert(c.alpha.size() == N, "one probability per state");
    double sum = 0;
    for (unsigned j = 0; j < N; ++j) {
        symx_close(c.alpha[j], a[j], "state probability");
        sum += c.alpha[j];
    }
    symx_close(sum, 1, "state probabilities sum to 1");
    symx_assert(l < N, "likeliest state exists");
    for (unsigned j = 0; j < N; ++j) symx_assert(c.alpha[l] >= c.alpha[j], "likeliest state");
}
//@ H_hmm_forward need=end shards=8
extern "C" void H_hmm_forward() {
    static const unsigned S[][4] = {{1, 1, 1, 0}, {2, 1, 1, 0}, {3, 1, 1, 0}, {2, 2, 1, 0}, {2, 1, 2, 1}, {2, 1, 2, 0}};
    unsigned const* p = S[symx_choose("shape", 6)];
    bool erg = symx_choose("ergodic", 2);
    unsigned N = p[0], F = N == 3 && erg ? 2 : 3, W = 1 + symx_choose("window", 2);
    {
        TrainingSet ts(MemoryMode::OwnMemory, p[3] ? Multimodality::Bimodal : Multimodality::Unimodal);
        HierarchicalHMM m(p[3] > 0);
        m.shared_parameters->likelihood_window.set(W);
        train(m, ts, 1, N, p[1], p[2], p[3], erg, false);
        SingleClassHMM& c = m.models["a"];
        freeStates(c, 4);
        VD a, hist;
        for (unsigned f = 0; f < F; ++f) {
            VF x = obs(p[3] ? p[3] : p[2], 4);
            m.filter(x);
            hist.push_back(forward(c, a, x, p[3] > 0));
            checkState(c, a);
            symx_close(c.results.instant_likelihood, hist[f], "likelihood of the observation given the past");
            symx_close(m.results.instant_likelihoods[0], hist[f], "likelihood reported");
            unsigned k = f + 1 < W ? f + 1 : W;
            double s = 0;
            for (unsigned j = f + 1 - k; j <= f; ++j) s += std::log(hist[j]);
            symx_close(c.results.log_likelihood, s / k, "mean log-likelihood over the window");
            symx_close(m.results.smoothed_log_likelihoods[0], s / k, "smoothed log-likelihood reported");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// the window of states around the likeliest one
static void window(unsigned l, unsigned N, unsigned& lo, unsigned& hi) {
    lo = l >= N / 2 ? l - N / 2 : 0;
    hi = l + N / 2 < N ? l + N / 2 : N;
    if (hi <= lo) hi = lo + 1;
}
//@ H_hmm_progress need=end shards=8
extern "C" void H_hmm_progress() {
    unsigned N = 1 + symx_choose("states", THOROUGH ? 5 : 4);
    bool erg = symx_choose("ergodic", 2);
    unsigned F = erg || N > 3 ? 2 : 1 + symx_choose("frames", 3);
    {
        TrainingSet ts;
        HierarchicalHMM m;
        train(m, ts, 1, N, 1, 1, 0, erg, true);
        SingleClassHMM& c = m.models["a"];
        freeStates(c, 4);
        for (unsigned f = 0; f < F; ++f) m.filter(obs(1, 4));
        unsigned l = c.results.likeliest_state, lo, hi;
        for (unsigned j = 0; j < N; ++j) symx_assert(c.alpha[l] >= c.alpha[j], "likeliest state");
        window(l, N, lo, hi);
        double num = 0, den = 0;
        for (unsigned j = lo; j < hi; ++j) { num += c.alpha[j] * j; den += c.alpha[j]; }
        symx_close(c.results.progress * den * (N > 1 ? N - 1 : 1), num, "progress: centroid of the state probabilities over the window");
        // with the probabilities positive, the identity above puts the progress between 0 and 1
        for (unsigned j = 0; j < N; ++j) symx_assert(c.alpha[j] >= 0, "state probabilities are not negative");
        symx_assert(den > 0 && c.results.progress >= 0, "progress is not negative");
    }
    symx_reach("end");
    symx_no_leak();
}
static void checkPrediction(SingleClassHMM& c, VF const& x, HMM::RegressionEstimator est, unsigned o, bool full) {
    unsigned N = c.states.size(), lo = 0, hi = N;
    double norm = 1;
    VD val(o, 0), cov(full ? o * o : o, 0);
    symx_assert(c.results.output_values.size() == o && c.results.output_covariance.size() == cov.size(), "size of the prediction");
    if (est == HMM::RegressionEstimator::Windowed) {
        window(c.results.likeliest_state, N, lo, hi);
        norm = 0;
        for (unsigned j = lo; j < hi; ++j) norm += c.alpha[j];
    } else if (est == HMM::RegressionEstimator::Likeliest) { lo = c.results.likeliest_state; hi = lo + 1; }
    for (unsigned j = lo; j < hi; ++j) {
        double a = est == HMM::RegressionEstimator::Likeliest ? 1 : c.alpha[j], total = 0;
        SingleClassGMM& g = c.states[j];
        VD beta;
        for (unsigned k = 0; k < g.components.size(); ++k) { beta.push_back(g.mixture_coeffs[k] * g.components[k].likelihood_input(x.data())); total += beta[k]; }
        for (unsigned k = 0; k < g.components.size(); ++k) {
            VF y;
            g.components[k].regression(x, y);
            double b = beta[k] / total;
            for (unsigned d = 0; d < o; ++d) val[d] += a * b * y[d] / norm;
            for (unsigned d = 0; d < cov.size(); ++d) cov[d] += a * a * b * b * g.components[k].output_covariance[d] / norm;
        }
    }
    for (unsigned d = 0; d < o; ++d) symx_close(c.results.output_values[d], val[d], "prediction: mean of the states' predictions by state probability");
    for (unsigned d = 0; d < cov.size(); ++d) symx_close(c.results.output_covariance[d], cov[d], "covariance of the prediction");
}
//@ H_hmm_regression need=end shards=8
extern "C" void H_hmm_regression() {
    static const unsigned S[][4] = {{2, 1, 2, 1}, {3, 1, 2, 1}, {1, 2, 2, 1}, {2, 2, 2, 1}, {2, 1, 3, 1}, {4, 1, 2, 1}, {2, 1, 3, 2}, {1, 1, 2, 1}};
    unsigned sh = symx_choose("shape", 8);
    unsigned const* p = S[sh];
    bool erg = symx_choose("ergodic", 2), full = symx_choose("full", 2);
    HMM::RegressionEstimator est = (HMM::RegressionEstimator)symx_choose("estimator", 3);
    unsigned N = p[0], F = p[2] == 3 || N == 4 || (full && p[1] > 1) ? 1 : 2;
    if (!erg && F == 1) F = 2;
    if (!THOROUGH && full && p[2] == 3 && est == HMM::RegressionEstimator::Full) return;
    {
        TrainingSet ts(MemoryMode::OwnMemory, Multimodality::Bimodal);
        HierarchicalHMM m(true);
        m.configuration.regression_estimator.set(est);
        train(m, ts, 1, N, p[1], p[2], p[3], erg, full);
        SingleClassHMM& c = m.models["a"];
        freeStates(c, 4);
        VF x;
        for (unsigned f = 0; f < F; ++f) m.filter(x = obs(p[3], 4));
        checkPrediction(c, x, est, p[2] - p[3], full);
        symx_assert(m.results.output_values == c.results.output_values && m.results.output_covariance == c.results.output_covariance, "the model reports the prediction of its only class");
    }
    symx_reach("end");
    symx_no_leak();
}
// several classes: each follows its own recursion; results are normalised over classes; reset starts over
//@ H_hmm_classes need=end shards=12
extern "C" void H_hmm_classes() {
    int cfg = symx_choose("cfg", 6);
    bool erg = cfg & 1, bi = cfg > 1, mix = cfg > 3;
    unsigned cut = symx_choose("reset", 2), F = THOROUGH ? 2 : 1 + cut;
    {
        TrainingSet ts(MemoryMode::OwnMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal);
        HierarchicalHMM m(bi);
        m.configuration.multiClass_regression_estimator = mix ? MultiClassRegressionEstimator::Mixture : MultiClassRegressionEstimator::Likeliest;
        train(m, ts, 2, 2, 1, bi ? 2 : 1, bi, erg, true);
        std::vector<VD> a(2);
        for (auto& c : m.models) freeStates(c.second, 4);
        VD p;
        for (unsigned f = 0; f < F; ++f) {
            VF x = obs(1, 4);
            if (f == 1 && cut) {
                m.reset();
                a.assign(2, VD());
            }
            m.filter(x);
            p.clear();
            unsigned i = 0;
            for (auto& c : m.models) {
                p.push_back(forward(c.second, a[i], x, bi));
                checkState(c.second, a[i++]);
            }
        }
        unsigned i = 0;
        for (auto& c : m.models) {
            symx_close(m.results.instant_likelihoods[i], p[i], "likelihood of the class");
            symx_close(m.results.instant_normalized_likelihoods[i] * (p[0] + p[1]), p[i], "normalised likelihood");
            symx_close(m.results.smoothed_likelihoods[i], p[i], "smoothed likelihood");
            symx_close(m.results.smoothed_normalized_likelihoods[i] * (p[0] + p[1]), p[i], "normalised smoothed likelihood");
            if (c.first == m.results.likeliest) symx_assert(p[i] >= p[1 - i], "the likeliest class has the highest likelihood");
            ++i;
        }
        if (bi) {
            SingleClassHMM &A = m.models["a"], &B = m.models["b"];
            double wa = mix ? m.results.smoothed_normalized_likelihoods[0] : m.results.likeliest == "a", wb = mix ? m.results.smoothed_normalized_likelihoods[1] : m.results.likeliest == "b";
            symx_close(m.results.output_values[0], wa * A.results.output_values[0] + wb * B.results.output_values[0], "output of the classes");
            symx_close(m.results.output_covariance[0], wa * A.results.output_covariance[0] + wb * B.results.output_covariance[0], "covariance of the output");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
