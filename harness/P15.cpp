//% GMM training, sequential: 1 gaussian on 1..2 phrases of 1..3 frames, dimension 1..2 (every frame value and regularisation in range); one EM iteration from any state of a mixture of 2 gaussians on fixed frames, dimension 1..2; reals
#include "models.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
static VD regularisation(TrainingSet& cls, GMM& m) {
    VD r;
    double a = m.configuration.absolute_regularization.get(), b = m.configuration.relative_regularization.get();
    for (float s : cls.standardDeviation()) r.push_back(a > b * s ? a : b * s);
    return r;
}
// with one gaussian, training gives the mean and covariance of the data, plus the regularisation
//@ H_train_single need=end shards=16 branch=120
extern "C" void H_train_single() {
    static const unsigned S[][4] = {{1, 2, 1, 0}, {1, 3, 1, 0}, {2, 2, 1, 0}, {1, 2, 2, 0}, {2, 1, 2, 0}, {1, 2, 2, 1}};
    unsigned const* p = S[symx_choose("shape", 6)];
    unsigned P = p[0], T = p[1], dim = p[2], din = p[3];
    bool full = symx_choose("full", 2);
    unsigned it = dim > 1 || T > 2 ? 1 : 1 + symx_choose("iterations", 2);
    bool rel = symx_choose("relative", 2);  // which of the regularisations is the larger one
    {
        TrainingSet ts(MemoryMode::OwnMemory, din ? Multimodality::Bimodal : Multimodality::Unimodal);
        ts.dimension.set(dim);
        if (din) ts.dimension_input.set(din);
        addPhrase(ts, 0, "z", 1, 0, 4, dim, din);  // another class, with fixed values
        std::vector<VF> x;
        for (unsigned k = 0; k < P; ++k) {
            ts.addPhrase(k + 1, "a");
            for (unsigned t = 0; t < T; ++t) {
                VF v;
                for (unsigned d = 0; d < dim; ++d) v.push_back(rel ? (t + 2.f * k) * (d ? 1.5f : -1) + d : symx_float("x", -1, 1));
                x.push_back(v);
                if (din) { ts.getPhrase(k + 1)->record_input(VF(v.begin(), v.begin() + din)); ts.getPhrase(k + 1)->record_output(VF(v.begin() + din, v.end())); }
                else ts.getPhrase(k + 1)->record(v);
            }
        }
        GMM m(din > 0);
        quickTraining(m, it);
        m.configuration.gaussians.set(1);
        m.configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
        m.configuration.absolute_regularization.set(rel ? symx_double("abs", 0.0625, 0.09375) : symx_double("abs", 0.5, 2));
        m.configuration.relative_regularization.set(rel ? symx_double("rel", 0.25, 1) : 0.0625);
        m.train(&ts);
        symx_assert(m.size() == 2 && m.models.count("a") && !m.training(), "the classes are trained");
        SingleClassGMM& g = m.models["a"];
        VD r = regularisation(*ts.getPhrasesOfClass("a"), m);
        symx_assert(g.components.size() == 1 && g.mixture_coeffs.size() == 1, "one gaussian");
        symx_close(g.mixture_coeffs[0], 1, "its coefficient is 1");
        GaussianDistribution& c = g.components[0];
        symx_assert(c.dimension.get() == dim && c.covariance.size() == (full ? dim * dim : dim), "dimensions of the gaussian");
        double n = P * T;
        VD mu(dim, 0);
        for (auto& v : x) for (unsigned d = 0; d < dim; ++d) mu[d] += v[d] / n;
        for (unsigned d = 0; d < dim; ++d) symx_close(c.mean[d], mu[d], "mean of the frames");
        for (unsigned d = 0; d < dim; ++d) for (unsigned e = 0; e < dim; ++e) {
            if (!full && d != e) continue;
            double v = d == e ? r[d] : 0;
            for (auto& f : x) v += (f[d] - mu[d]) * (f[e] - mu[e]) / n;
            symx_close(c.covariance[full ? d * dim + e : d], v, d == e ? "variance of the frames plus regularisation" : "covariance of the frames");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// a gaussian with fixed values
static void fixGaussian(GaussianDistribution& g, unsigned k) {
    for (unsigned d = 0; d < g.dimension.get(); ++d) g.mean[d] = 0.5 + k - 0.25 * d;
    g.covariance = k ? VD{2, 0.5, 0.5, 1} : VD{1, -0.25, -0.25, 4};
    g.updateInverseCovariance();
}
// puts the class in an arbitrary state after an iteration, so that the next iteration starts from there
struct Intruder {
    GMM* m;
    bool full;
    int at, seen;
    std::vector<GaussianDistribution> from;
    VF coeffs;
    void on(TrainingEvent const& e) {
        if (e.status != TrainingEvent::Status::Run || ++seen != at) return;
        SingleClassGMM& g = m->models["a"];
        for (unsigned k = 0; k < g.components.size(); ++k) {
            freeGaussian(g.components[k], 2);
            g.mixture_coeffs[k] = symx_float("w", 0.125f, 1);
        }
        from = g.components;
        coeffs = g.mixture_coeffs;
    }
};
static void em(unsigned N, unsigned P, unsigned T, unsigned dim, unsigned din, bool full) {
    TrainingSet ts(MemoryMode::OwnMemory, din ? Multimodality::Bimodal : Multimodality::Unimodal);
    ts.dimension.set(dim);
    if (din) ts.dimension_input.set(din);
    for (unsigned k = 0; k < P; ++k) addPhrase(ts, k, "a", 0, k, k == 1 ? P == 4 ? 0 : T + 1 : k == 3 ? 0 : T, dim, din);
    GMM m(din > 0);
    quickTraining(m, 2);
    m.configuration.gaussians.set(N);
    m.configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
    m.configuration.absolute_regularization.set(0.25);
    m.configuration.relative_regularization.set(0.125);
    Intruder in{&m, full, 1, 0};
    m.training_events.addListener(&in, &Intruder::on);
    m.train(&ts);
    symx_assert(in.seen == 2 && m.size() == 1, "two iterations");
    SingleClassGMM& g = m.models["a"];
    VD r = regularisation(ts, m);
    // expectation: probability of each gaussian for each frame
    std::vector<VD> gamma;
    std::vector<VF> x;
    VD E(N, 0);
    for (unsigned k = 0; k < P; ++k) for (unsigned t = 0; t < ts.getPhrase(k)->size(); ++t) {
        VF v;
        for (unsigned d = 0; d < dim; ++d) v.push_back(ts.getPhrase(k)->getValue(t, d));
        VD q;
        double sum = 0;
        for (unsigned c = 0; c < N; ++c) {
            q.push_back(in.coeffs[c] * (din ? in.from[c].likelihood_bimodal(&v[0], &v[din]) : in.from[c].likelihood(&v[0])));
            sum += q[c];
        }
        for (unsigned c = 0; c < N; ++c) { q[c] /= sum; E[c] += q[c]; }
        x.push_back(v);
        gamma.push_back(q);
    }
    // maximisation
    double total = 0;
    for (unsigned c = 0; c < N; ++c) {
        symx_close(g.mixture_coeffs[c] * x.size(), E[c], "coefficient: mean probability of the gaussian");
        total += g.mixture_coeffs[c];
        GaussianDistribution& G = g.components[c];
        for (unsigned d = 0; d < dim; ++d) {
            double s = 0;
            for (unsigned i = 0; i < x.size(); ++i) s += gamma[i][c] * x[i][d];
            symx_close(G.mean[d] * E[c], s, "mean weighted by the probabilities");
        }
        for (unsigned d = 0; d < dim; ++d) for (unsigned e = 0; e < dim; ++e) {
            if (!full && d != e) continue;
            double s = 0;
            for (unsigned i = 0; i < x.size(); ++i) s += gamma[i][c] * (x[i][d] - G.mean[d]) * (x[i][e] - G.mean[e]);
            symx_close((G.covariance[full ? d * dim + e : d] - (d == e ? r[d] : 0)) * E[c], s, "covariance weighted by the probabilities, plus regularisation");
            if (full) symx_assert(G.covariance[d * dim + e] == G.covariance[e * dim + d], "symmetric covariance");
        }
    }
    symx_close(total, 1, "coefficients sum to 1");
}
//@ H_train_em need=end shards=8 branch=120
extern "C" void H_train_em() {
    static const unsigned S[][5] = {{2, 1, 4, 1, 0}, {2, 2, 3, 1, 0}, {3, 1, 4, 1, 0}, {2, 1, 4, 2, 0}, {2, 1, 4, 2, 1}, {2, 1, 6, 1, 0}, {2, 3, 2, 1, 0}, {2, 4, 2, 1, 0}};
    unsigned const* p = S[symx_choose("shape", 8)];
    bool full = symx_choose("full", 2);
    em(p[0], p[1], p[2], p[3], p[4], full);
    symx_reach("end");
    symx_no_leak();
}
