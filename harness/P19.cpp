//% hierarchical HMMs, 1..3 classes of 2..3 states and 1..2 gaussians of dimension 1..2, left-right, ergodic and both, up to 3 observations (reals); every prior, transition, exit and exit-transition probability in the stated ranges, every gaussian and observation in range
//% exit points on any state but the first of a left-right class
#include "models.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
static void train(HierarchicalHMM& m, TrainingSet& ts, unsigned K, unsigned N, unsigned G, unsigned dim, unsigned din, int mode, bool full) {
    fillSet(ts, K, 4 * N, dim, din);
    quickTraining(m);
    m.configuration.states.set(N);
    m.configuration.gaussians.set(G);
    m.configuration.hierarchical.set(true);
    m.configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
    m.configuration.transition_mode.set(mode == 1 ? TM::Ergodic : TM::LeftRight);
    if (mode == 2) m.configuration["b"].transition_mode.set(TM::Ergodic);
    m.train(&ts);
}
static VF obs(unsigned n) {
    VF x;
    for (unsigned i = 0; i < n; ++i) x.push_back(symx_float("x", -4, 4));
    return x;
}
static std::vector<SingleClassHMM*> classes(HierarchicalHMM& m) {
    std::vector<SingleClassHMM*> r;
    for (auto& c : m.models) r.push_back(&c.second);
    return r;
}
// any parameters at both levels; returns the exit probabilities of the states
static std::vector<VD> freeModel(HierarchicalHMM& m) {
    std::vector<VD> e;
    for (auto* c : classes(m)) {
        freeStates(*c, 4);
        unsigned N = c->states.size(), last = N - 1;
        e.push_back(VD(N, 0));
        float x = symx_float("exit", 0.0625f, 0.5f);
        c->addExitPoint(last, x);
        e.back()[last] = x;
        if (N > 2) {
            x = symx_float("exit", 0.0625f, 0.5f);
            c->addExitPoint(1, x);
            e.back()[1] = x;
        }
    }
    unsigned K = m.size();
    symx_assert(m.prior.size() == K && m.transition.size() == K && m.exit_transition.size() == K, "class level parameters");
    for (unsigned i = 0; i < K; ++i) {
        symx_assert(m.transition[i].size() == K, "class level transitions");
        m.prior[i] = symx_double("P", 0.0625, 1);
        m.exit_transition[i] = symx_double("X", 0.0625, 0.5);
        for (auto& t : m.transition[i]) t = symx_double("T", 0.0625, 1);
    }
    return e;
}
struct Forward {
    std::vector<VD> a[3];  // continuing, exited to another class, exited to the end
    VD like, exitLike;
    void step(HierarchicalHMM& m, std::vector<VD> const& e, VF const& x, bool bimodal) {
        auto cs = classes(m);
        unsigned K = cs.size();
        std::vector<VD> front(K);
        bool first = a[0].empty();
        for (unsigned c = 0; c < K; ++c) {
            unsigned N = cs[c]->states.size();
            bool erg = ergodic(*cs[c]);
            VD& f = front[c];
            f.assign(N, 0);
            double in = m.prior[c];
            if (!first) {
                in = 0;
                for (unsigned s = 0; s < K; ++s)
                    for (unsigned k = 0; k < a[1][s].size(); ++k) in += a[1][s][k] * m.transition[s][c] + a[2][s][k] * m.prior[c];
            }
            for (unsigned k = 0; k < N; ++k) {
                if (erg) f[k] += in * cs[c]->prior[k];
                else if (k == 0) f[k] += in;
                if (!first) for (unsigned j = 0; j < N; ++j) {
                    if (!erg && j != k && j + 1 != k) continue;
                    double t = erg ? cs[c]->transition[j * N + k] : cs[c]->transition[2 * j + (j != k)];
                    f[k] += t * a[0][c][j] / (1 - e[c][j]);
                }
            }
        }
        double total = 0;
        for (auto& v : a) v.assign(K, VD());
        like.assign(K, 0);
        exitLike.assign(K, 0);
        for (unsigned c = 0; c < K; ++c) for (unsigned k = 0; k < front[c].size(); ++k) {
            double t = !ergodic(*cs[c]) && first && k ? 0 : front[c][k] * mixture(cs[c]->states[k], x, bimodal);
            double out = first ? 0 : e[c][k];
            a[0][c].push_back((1 - out) * t);
            a[1][c].push_back((1 - m.exit_transition[c]) * out * t);
            a[2][c].push_back(m.exit_transition[c] * out * t);
            like[c] += t;
            exitLike[c] += out * t;
            total += t;
        }
        for (auto& v : a) for (auto& w : v) for (auto& p : w) p /= total;
    }
};
static const unsigned S[][5] = {  // classes, states, gaussians, dimension, input
    {2, 2, 1, 1, 0}, {1, 3, 1, 1, 0}, {2, 2, 2, 1, 0}, {1, 2, 1, 2, 1}, {3, 2, 1, 1, 0}, {2, 3, 1, 1, 0}, {2, 2, 1, 2, 1}, {1, 2, 1, 2, 0}};
//@ H_hier_forward need=end shards=8 branch=120
extern "C" void H_hier_forward() {
    unsigned sh = symx_choose("shape", 8);
    unsigned const* p = S[sh];
    unsigned K = p[0], mode = symx_choose("mode", K > 1 ? 3 : 2), F = K * p[1] > 4 || p[2] > 1 ? 2 : 3;
    if (mode && F == 3 && !THOROUGH) F = 2;
    {
        TrainingSet ts(MemoryMode::OwnMemory, p[4] ? Multimodality::Bimodal : Multimodality::Unimodal);
        HierarchicalHMM m(p[4] > 0);
        train(m, ts, K, p[1], p[2], p[3], p[4], mode, false);
        auto e = freeModel(m);
        auto cs = classes(m);
        Forward w;
        for (unsigned f = 0; f < F; ++f) {
            VF x = obs(p[4] ? p[4] : p[3]);
            m.filter(x);
            w.step(m, e, x, p[4] > 0);
            double sum = 0, all = 0;
            for (unsigned c = 0; c < K; ++c) all += w.like[c];
            for (unsigned c = 0; c < K; ++c) {
                for (int h = 0; h < 3; ++h) {
                    symx_assert(cs[c]->alpha_h[h].size() == p[1], "one probability per state");
                    for (unsigned k = 0; k < p[1]; ++k) {
                        symx_close(cs[c]->alpha_h[h][k], w.a[h][c][k], h == 0 ? "probability of staying in the class" : h == 1 ? "probability of leaving for another class" : "probability of ending");
                        sum += cs[c]->alpha_h[h][k];
                    }
                }
                symx_close(cs[c]->results.instant_likelihood, w.like[c], "likelihood of the class");
                symx_close(cs[c]->results.exit_likelihood, w.exitLike[c], "exit likelihood");
                symx_close(cs[c]->results.exit_ratio * w.like[c], w.exitLike[c], "exit ratio");
                symx_close(m.results.instant_likelihoods[c], w.like[c], "likelihood reported");
                symx_close(m.results.instant_normalized_likelihoods[c] * all, w.like[c], "normalised likelihood");
                symx_close(m.results.smoothed_likelihoods[c], w.like[c], "smoothed likelihood");
                symx_close(m.results.smoothed_normalized_likelihoods[c] * all, w.like[c], "normalised smoothed likelihood");
            }
            symx_close(sum, 1, "probabilities over all classes and states sum to 1");
            if (f + 1 < F) {
                // the recursion does not depend on which class or state is likeliest: one case stands for all
                if (!THOROUGH) {
                    symx_assume(m.results.likeliest == "a");
                    for (auto* c : cs) symx_assume(c->results.likeliest_state == 0);
                }
                continue;
            }
            unsigned i = 0;
            for (auto& c : m.models) {
                if (c.first == m.results.likeliest) for (unsigned j = 0; j < K; ++j) symx_assert(m.results.instant_likelihoods[i] >= m.results.instant_likelihoods[j], "the likeliest class has the highest likelihood");
                ++i;
            }
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// one step from any state of the recursion, however it was reached
//@ H_hier_step need=end shards=8 branch=120
extern "C" void H_hier_step() {
    static const unsigned Z[][5] = {{3, 2, 1, 1, 0}, {2, 3, 1, 1, 0}, {1, 4, 1, 1, 0}, {3, 3, 1, 1, 0}, {2, 2, 1, 2, 1}, {2, 2, 2, 1, 0}};
    unsigned sh = symx_choose("case", THOROUGH ? 18 : 8), mode = sh % 3;
    unsigned const* p = Z[sh / 3];
    unsigned K = p[0];
    {
        TrainingSet ts(MemoryMode::OwnMemory, p[4] ? Multimodality::Bimodal : Multimodality::Unimodal);
        HierarchicalHMM m(p[4] > 0);
        train(m, ts, K, p[1], p[2], p[3], p[4], mode, false);
        VF x(p[4] ? p[4] : p[3], 0.5f);
        m.filter(x);
        auto e = freeModel(m);
        auto cs = classes(m);
        Forward w;
        for (int h = 0; h < 3; ++h) for (unsigned c = 0; c < K; ++c) {
            w.a[h].push_back(VD());
            for (unsigned k = 0; k < p[1]; ++k) {
                double a = h && !e[c][k] ? 0 : symx_double("a", 0.015625, 1);
                w.a[h][c].push_back(a);
                cs[c]->alpha_h[h][k] = a;
            }
        }
        x = obs(p[4] ? p[4] : p[3]);
        m.filter(x);
        w.step(m, e, x, p[4] > 0);
        for (unsigned c = 0; c < K; ++c) {
            for (int h = 0; h < 3; ++h)
                for (unsigned k = 0; k < p[1]; ++k) symx_close(cs[c]->alpha_h[h][k], w.a[h][c][k], h == 0 ? "probability of staying in the class, from any state" : h == 1 ? "probability of leaving for another class, from any state" : "probability of ending, from any state");
            symx_close(cs[c]->results.instant_likelihood, w.like[c], "likelihood of the class, from any state");
            symx_close(cs[c]->results.exit_likelihood, w.exitLike[c], "exit likelihood, from any state");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
static void window(unsigned l, unsigned N, unsigned& lo, unsigned& hi) {
    lo = l >= N / 2 ? l - N / 2 : 0;
    hi = l + N / 2 < N ? l + N / 2 : N;
    if (hi <= lo) hi = lo + 1;
}
// likeliest state, progress and prediction follow the probabilities of the states within the class
//@ H_hier_results need=end shards=8 branch=120
extern "C" void H_hier_results() {
    static const unsigned Z[][5] = {{1, 2, 1, 2, 1}, {1, 3, 1, 1, 0}, {2, 2, 1, 2, 1}, {1, 3, 1, 2, 1}, {1, 2, 2, 2, 1}, {2, 2, 1, 1, 0}, {1, 4, 1, 1, 0}, {1, 2, 1, 3, 1}};
    unsigned const* p = Z[symx_choose("shape", 8)];
    unsigned K = p[0], N = p[1], o = p[3] - p[4];
    bool bi = p[4], erg = symx_choose("ergodic", 2), full = bi && symx_choose("full", 2);
    HMM::RegressionEstimator est = (HMM::RegressionEstimator)(bi ? symx_choose("estimator", 3) : 0);
    bool mix = bi && K > 1 && est == HMM::RegressionEstimator::Full && symx_choose("mixture", 2);
    unsigned F = erg && (N > 2 || K > 1) ? 1 : 2;
    {
        TrainingSet ts(MemoryMode::OwnMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal);
        HierarchicalHMM m(bi);
        m.configuration.regression_estimator.set(est);
        m.configuration.multiClass_regression_estimator = mix ? MultiClassRegressionEstimator::Mixture : MultiClassRegressionEstimator::Likeliest;
        train(m, ts, K, N, p[2], p[3], p[4], erg, full);
        freeModel(m);
        auto cs = classes(m);
        VF x;
        for (unsigned f = 0; f < F; ++f) {
            m.filter(x = obs(bi ? p[4] : p[3]));
            if (f + 1 < F) {
                symx_assume(m.results.likeliest == "a");
                for (auto* c : cs) symx_assume(c->results.likeliest_state == 0);
            }
        }
        for (auto* c : cs) {
            VD w;
            for (unsigned k = 0; k < N; ++k) w.push_back(c->alpha_h[0][k] + c->alpha_h[1][k]);
            unsigned l = c->results.likeliest_state, lo, hi;
            symx_assert(l < N, "likeliest state exists");
            for (unsigned k = 0; k < N; ++k) symx_assert(w[l] >= w[k], "likeliest state");
            window(l, N, lo, hi);
            double num = 0, den = 0;
            for (unsigned k = lo; k < hi; ++k) { num += w[k] * k; den += w[k]; }
            symx_assert(den > 0, "the window has probability");
            symx_close(c->results.progress * den * (N - 1), num, "progress: centroid of the state probabilities over the window");
            symx_assert(c->results.progress >= 0, "progress is not negative");
            if (!bi) continue;
            if (est == HMM::RegressionEstimator::Full) { lo = 0; hi = N; den = 1; }
            if (est == HMM::RegressionEstimator::Likeliest) { lo = l; hi = l + 1; }
            VD val(o, 0), cov(full ? o * o : o, 0);
            symx_assert(c->results.output_values.size() == o && c->results.output_covariance.size() == cov.size(), "size of the prediction");
            for (unsigned k = lo; k < hi; ++k) {
                double a = w[k], n = den, total = 0;
                if (est == HMM::RegressionEstimator::Likeliest) a = n = 1;
                SingleClassGMM& g = c->states[k];
                VD beta;
                for (unsigned q = 0; q < g.components.size(); ++q) { beta.push_back(g.mixture_coeffs[q] * g.components[q].likelihood_input(x.data())); total += beta[q]; }
                for (unsigned q = 0; q < g.components.size(); ++q) {
                    VF y;
                    g.components[q].regression(x, y);
                    double b = beta[q] / total;
                    for (unsigned d = 0; d < o; ++d) val[d] += a * b * y[d] / n;
                    for (unsigned d = 0; d < cov.size(); ++d) cov[d] += a * a * b * b * g.components[q].output_covariance[d] / n;
                }
            }
            for (unsigned d = 0; d < o; ++d) symx_close(c->results.output_values[d], val[d], "prediction: mean of the states' predictions by state probability");
            for (unsigned d = 0; d < cov.size(); ++d) symx_close(c->results.output_covariance[d], cov[d], "covariance of the prediction");
        }
        if (bi) {
            symx_assert(m.results.output_values.size() == o && m.results.output_covariance.size() == (full ? o * o : o), "size of the output");
            for (unsigned d = 0; d < o; ++d) {
                double v = 0, q = 0;
                unsigned i = 0, at = full ? d * o + d : d;
                for (auto& c : m.models) {
                    double wt = mix ? m.results.smoothed_normalized_likelihoods[i] : c.first == m.results.likeliest;
                    v += wt * c.second.results.output_values[d];
                    q += wt * c.second.results.output_covariance[at];
                    ++i;
                }
                symx_close(m.results.output_values[d], v, "output of the classes");
                symx_close(m.results.output_covariance[at], q, "covariance of the output");
            }
        }
    }
    symx_reach("end");
    symx_no_leak();
}
static VD exits(SingleClassHMM& c) {
    VD r;
    Json::Value j = c.toJson()["exitProbabilities"];
    for (unsigned i = 0; i < j.size(); ++i) r.push_back(j[i].asDouble());
    return r;
}
// after training, and after adding or removing classes, the class level is uniform and has one entry per class; reset forgets the past
//@ H_hier_defaults need=end,refused shards=4
extern "C" void H_hier_defaults() {
    unsigned N = 2 + symx_choose("states", 2), mode = symx_choose("mode", 2), op = symx_choose("op", 4);
    {
        TrainingSet ts;
        HierarchicalHMM m;
        train(m, ts, 2, N, 1, 1, 0, mode, true);
        if (op == 1) { addPhrase(ts, 7, "c", 2, 0, 4 * N, 1, 0); m.train(&ts, "c"); }
        else if (op == 2) m.removeClass("a");
        else if (op == 3) { m.removeClass("b"); m.train(&ts, "b"); }
        unsigned K = op == 1 ? 3 : op == 2 ? 1 : 2;
        symx_assert(m.size() == K && m.prior.size() == K && m.transition.size() == K && m.exit_transition.size() == K, "one entry per class");
        for (unsigned i = 0; i < K; ++i) {
            symx_close(m.prior[i], 1. / K, "uniform prior over classes");
            symx_close(m.exit_transition[i], 0.1, "default exit transition");
            symx_assert(m.transition[i].size() == K, "one transition per pair of classes");
            for (double t : m.transition[i]) symx_close(t, 1. / K, "uniform transitions between classes");
        }
        for (auto* c : classes(m)) {
            VD e = exits(*c);
            symx_assert(e.size() == N, "one exit probability per state");
            for (unsigned k = 0; k < N; ++k) symx_close(e[k], k + 1 == N ? 0.1f : 0, "only the last state is an exit by default");
        }
        // exit points are set in every class, and refused out of range
        float x = symx_float("exit", 0, 1);
        int at = symx_int("state", -1, N + 1);
        bool ok = true;
        try { m.addExitPoint(at, x); } catch (std::out_of_range&) { ok = false; }
        symx_assert(ok == (at >= 0 && at < (int)N), "an exit point is a state");
        if (!ok) symx_reach("refused");
        for (auto* c : classes(m)) {
            VD e = exits(*c);
            for (unsigned k = 0; k < N; ++k) symx_assert(e[k] == (ok && at == (int)k ? x : k + 1 == N ? 0.1f : 0), "exit point in every class");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// resetting makes the next observation the first one
//@ H_hier_reset need=end branch=120 shards=4
extern "C" void H_hier_reset() {
    unsigned mode = symx_choose("mode", 4), W = 1 + symx_choose("window", 2), K = mode == 3 ? 1 : 2;
    {
        TrainingSet ts;
        HierarchicalHMM m;
        train(m, ts, K, 2, 1, 1, 0, mode % 3, true);
        m.shared_parameters->likelihood_window.set(W);
        m.reset();
        freeModel(m);
        HierarchicalHMM n(m);
        VF x = obs(1), y = obs(1);
        m.filter(x);
        m.reset();
        m.filter(y);
        n.filter(y);
        auto a = classes(m), b = classes(n);
        for (unsigned i = 0; i < K; ++i) {
            symx_assert(m.prior[i] == n.prior[i] && m.transition[i] == n.transition[i] && m.exit_transition[i] == n.exit_transition[i], "resetting keeps the probabilities of the class level");
            symx_close(m.results.smoothed_log_likelihoods[i], n.results.smoothed_log_likelihoods[i], "likelihoods as if it were the first observation");
            symx_close(m.results.instant_normalized_likelihoods[i], n.results.instant_normalized_likelihoods[i], "normalised likelihoods as if it were the first observation");
            symx_assert(a[i]->results.exit_likelihood == 0 && a[i]->results.exit_ratio == 0, "no exit on the first observation");
            for (int h = 0; h < 3; ++h) for (unsigned k = 0; k < 2; ++k) symx_close(a[i]->alpha_h[h][k], b[i]->alpha_h[h][k], "state probabilities as if it were the first observation");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
