//% HMM training, sequential: one Baum-Welch iteration from any state of a class of 1..3 states and 1..2 gaussians of dimension 1..2 (every transition and prior probability in [1/16, 1], any gaussian) on 1..2 phrases of 2..4 fixed frames, left-right and ergodic, hierarchical or not; reals
#include "models.h"
using namespace xmm;
typedef GaussianDistribution::CovarianceMode CM;
// puts the class in an arbitrary state after the first iteration, so that the second one starts from there
struct Intruder {
    HierarchicalHMM* m;
    int seen;
    SingleClassHMM* from;
    double logLikelihood;
    std::vector<TrainingEvent::Status> order;
    void on(TrainingEvent const& e) {
        order.push_back(e.status);
        if (e.status != TrainingEvent::Status::Run) return;
        symx_assert(e.iterations == ++seen, "iterations are counted");
        if (seen == 2) logLikelihood = e.log_likelihood;
        if (seen != 1) return;
        SingleClassHMM& c = m->models["a"];
        freeStates(c, 2);
        if (!ergodic(c)) c.transition[2 * c.states.size() - 1] = 0;
        from->states = c.states;
        from->transition = c.transition;
        from->prior = c.prior;
    }
};
// transition from state i to state j
static double step(SingleClassHMM const& c, unsigned i, unsigned j) {
    unsigned N = c.states.size();
    return ergodic(c) ? c.transition[i * N + j] : i == j ? c.transition[2 * i] : c.transition[2 * i + 1];
}
// probability of each state for each frame, by the scaled forward and backward recursions
static std::vector<VD> forwardBackward(SingleClassHMM const& c, std::vector<VD> const& b) {
    unsigned N = b[0].size(), T = b.size();
    bool erg = ergodic(c);
    std::vector<VD> a(T, VD(N, 0)), z(T, VD(N, 0));
    VD ct(T);
    for (unsigned t = 0; t < T; ++t) {
        double sum = 0;
        for (unsigned j = 0; j < N; ++j) {
            if (!t) { if (erg) a[0][j] = c.prior[j]; else a[0][j] = j == 0; }
            else for (unsigned i = 0; i < N; ++i) if (erg || i == j || i + 1 == j) a[t][j] += a[t - 1][i] * step(c, i, j);
            if (t || erg || !j) a[t][j] *= b[t][j];
            sum += a[t][j];
        }
        for (auto& v : a[t]) v /= sum;
        ct[t] = 1 / sum;
    }
    for (unsigned j = 0; j < N; ++j) z[T - 1][j] = ct[T - 1];
    for (int t = T - 2; t >= 0; --t) for (unsigned i = 0; i < N; ++i) {
        for (unsigned j = 0; j < N; ++j) if (erg || i == j || i + 1 == j) z[t][i] += step(c, i, j) * z[t + 1][j] * b[t + 1][j];
        z[t][i] *= ct[t];
    }
    for (unsigned t = 0; t < T; ++t) for (unsigned i = 0; i < N; ++i) a[t][i] = a[t][i] * z[t][i] / ct[t];
    return a;
}
static void baumWelch(unsigned N, unsigned G, std::vector<unsigned> const& T, unsigned dim, unsigned din, bool erg, bool full, bool hier) {
    TrainingSet ts(MemoryMode::OwnMemory, din ? Multimodality::Bimodal : Multimodality::Unimodal);
    ts.dimension.set(dim);
    if (din) ts.dimension_input.set(din);
    for (unsigned k = 0; k < T.size(); ++k) addPhrase(ts, k, "a", 0, k, T[k], dim, din);
    HierarchicalHMM m(din > 0);
    quickTraining(m, 2);
    m.configuration.states.set(N);
    m.configuration.gaussians.set(G);
    m.configuration.hierarchical.set(hier);
    m.configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
    m.configuration.transition_mode.set(erg ? TM::Ergodic : TM::LeftRight);
    m.configuration.absolute_regularization.set(0.25);
    m.configuration.relative_regularization.set(0.125);
    SingleClassHMM from(m.shared_parameters);
    from.parameters.transition_mode.set(erg ? TM::Ergodic : TM::LeftRight);
    Intruder in{&m, 0, &from, 0, {}};
    m.training_events.addListener(&in, &Intruder::on);
    m.train(&ts);
    symx_assert(in.seen == 2 && m.size() == 1, "two iterations");
    SingleClassHMM& c = m.models["a"];
    symx_assert(c.states.size() == N, "number of states");
    for (auto& s : c.states) symx_assert(s.components.size() == G && s.mixture_coeffs.size() == G, "number of gaussians");
    // probability of every path of every phrase
    VD visits(N, 0), first(N, 0), E(N * G, 0), W(N * G, 0);
    std::vector<VD> moves(N, VD(N, 0)), gamma, weight;  // per frame, per (state, gaussian)
    std::vector<VF> x;
    double ll = 0;
    for (unsigned k = 0; k < T.size(); ++k) {
        std::vector<VD> part(T[k]), b(T[k], VD(N));
        for (unsigned t = 0; t < T[k]; ++t) {
            VF v;
            for (unsigned d = 0; d < dim; ++d) v.push_back(ts.getPhrase(k)->getValue(t, d));
            x.push_back(v);
            for (unsigned i = 0; i < N; ++i) {
                double p = 0;
                VD q;
                for (unsigned g = 0; g < G; ++g) {
                    auto& s = from.states[i];
                    q.push_back(s.mixture_coeffs[g] * (din ? s.components[g].likelihood_bimodal(&v[0], &v[din]) : s.components[g].likelihood(&v[0])));
                    p += q[g];
                }
                b[t][i] = p;
                for (auto v : q) part[t].push_back(v);
            }
        }
        std::vector<VD> in(T[k], VD(N, 0));
        std::vector<VD> mv(N, VD(N, 0));
        VD prefix(T[k], 0);  // likelihood of the first frames
        for (unsigned len = 1; len <= T[k]; ++len) {
            unsigned total = 1;
            for (unsigned t = 0; t < len; ++t) total *= N;
            for (unsigned code = 0; code < total; ++code) {
                std::vector<unsigned> s;
                for (unsigned t = 0, c = code; t < len; ++t, c /= N) s.push_back(c % N);
                bool ok = erg || s[0] == 0;
                for (unsigned t = 1; t < len; ++t) ok = ok && (erg || s[t] == s[t - 1] || s[t] == s[t - 1] + 1);
                if (!ok) continue;
                double p = b[0][s[0]];
                if (erg) p *= from.prior[s[0]];
                for (unsigned t = 1; t < len; ++t) p *= step(from, s[t - 1], s[t]) * b[t][s[t]];
                prefix[len - 1] += p;
                if (len < T[k]) continue;
                for (unsigned t = 0; t < len; ++t) in[t][s[t]] += p;
                for (unsigned t = 1; t < len; ++t) mv[s[t - 1]][s[t]] += p;
            }
        }
        if (!T[k]) continue;
        double L = prefix[T[k] - 1];
        for (unsigned t = 0; t < T[k]; ++t) ll += std::log(t ? prefix[t] / prefix[t - 1] : prefix[0]);
        for (unsigned i = 0; i < N; ++i) {
            first[i] += in[0][i] / L;
            for (unsigned j = 0; j < N; ++j) moves[i][j] += mv[i][j] / L;
        }
        auto fb = forwardBackward(from, b);
        for (unsigned t = 0; t < T[k]; ++t) {
            VD g, w;
            for (unsigned i = 0; i < N; ++i) for (unsigned q = 0; q < G; ++q) {
                g.push_back(in[t][i] / L * part[t][i * G + q] / b[t][i]);
                w.push_back(fb[t][i] * part[t][i * G + q] / b[t][i]);
            }
            gamma.push_back(g);
            weight.push_back(w);
            for (unsigned i = 0; i < N * G; ++i) W[i] += w[i];
            for (unsigned i = 0; i < N * G; ++i) E[i] += g[i];
        }
    }
    symx_close(in.logLikelihood, ll, "log-likelihood of the phrases");
    // gaussians
    if (G > 1) { E = W; gamma = weight; }
    VD reg;
    for (float s : ts.standardDeviation()) reg.push_back(std::max(0.25, 0.125 * s));
    for (unsigned i = 0; i < N; ++i) {
        double all = 0, sum = 0;
        for (unsigned g = 0; g < G; ++g) all += E[i * G + g];
        for (unsigned g = 0; g < G; ++g) {
            unsigned at = i * G + g;
            sum += c.states[i].mixture_coeffs[g];
            symx_close(c.states[i].mixture_coeffs[g] * all, E[at], "mixture coefficient: share of the gaussian in the state");
            GaussianDistribution& D = c.states[i].components[g];
            for (unsigned d = 0; d < dim; ++d) {
                double s = 0;
                for (unsigned f = 0; f < x.size(); ++f) s += gamma[f][at] * x[f][d];
                symx_close(D.mean[d] * E[at], s, "mean weighted by the probabilities of the state and gaussian");
            }
            for (unsigned d = 0; d < dim; ++d) for (unsigned e = 0; e < dim; ++e) {
                if (!full && d != e) continue;
                double s = 0;
                for (unsigned f = 0; f < x.size(); ++f) s += weight[f][at] * (x[f][d] - D.mean[d]) * (x[f][e] - D.mean[e]);
                symx_close((D.covariance[full ? d * dim + e : d] - (d == e ? reg[d] : 0)) * W[at], s, "covariance weighted by the probabilities, plus regularisation");
            }
        }
        symx_close(sum, 1, "mixture coefficients sum to 1");
    }
    // transitions and priors
    double n = 0;  // phrases with something to learn from
    for (unsigned t : T) n += t > 0;
    double r = 1e-5f * n;
    if (erg) {
        double sum = 0;
        symx_assert(c.prior.size() == N && c.transition.size() == N * N, "size of the transitions");
        for (unsigned i = 0; i < N; ++i) {
            sum += c.prior[i];
            symx_close(c.prior[i] * n, first[i], "prior: probability of starting in the state");
        }
        symx_close(sum, 1, "priors sum to 1");
    } else symx_assert(c.transition.size() == 2 * N, "size of the transitions");
    for (unsigned i = 0; i < N; ++i) {
        if (!hier && N > 1 && i == N - 1) continue;  // replaced by the cyclic transition
        double out = 0, sum = 0;
        for (unsigned j = 0; j < N; ++j) out += moves[i][j];
        if (erg) for (unsigned j = 0; j < N; ++j) {
            sum += c.transition[i * N + j];
            symx_close(c.transition[i * N + j] * out, moves[i][j], "transition: expected share of the moves out of the state");
        } else {
            bool last = i == N - 1;
            sum = c.transition[2 * i] + c.transition[2 * i + 1];
            if (last) symx_assert(c.transition[2 * i + 1] == 0, "the last state is not left");
            else symx_close(c.transition[2 * i + 1] * (out + 2 * r), moves[i][i + 1] + r, "transition to the next state: share of the moves, regularised");
        }
        symx_close(sum, 1, "transitions out of a state sum to 1");
    }
}
//@ H_baum_welch_leftright need=end shards=8 branch=120
extern "C" void H_baum_welch_leftright() {
    unsigned s = symx_choose("shape", 8);
    bool hier = symx_choose("hier", 2);
    switch (s) {
    case 0: baumWelch(2, 1, {3}, 1, 0, false, false, hier); break;
    case 1: baumWelch(2, 1, {2, 3}, 1, 0, false, true, hier); break;
    case 2: baumWelch(3, 1, {4}, 1, 0, false, false, hier); break;
    case 3: baumWelch(2, 2, {4}, 1, 0, false, false, hier); break;
    case 4: baumWelch(2, 1, {3}, 2, 0, false, false, hier); break;
    case 5: baumWelch(2, 1, {3}, 2, 1, false, false, hier); break;
    case 6: baumWelch(2, 1, {2, 0, 3}, 1, 0, false, false, hier); break;
    default: baumWelch(1, 1, {3}, 1, 0, false, true, hier);
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_baum_welch_ergodic need=end shards=8 branch=120
extern "C" void H_baum_welch_ergodic() {
    unsigned s = symx_choose("shape", 6);
    bool hier = symx_choose("hier", 2);
    switch (s) {
    case 0: baumWelch(2, 1, {3}, 1, 0, true, false, hier); break;
    case 1: baumWelch(2, 1, {2, 2}, 1, 0, true, true, hier); break;
    case 2: baumWelch(2, 2, {2}, 1, 0, true, false, hier); break;
    case 3: baumWelch(2, 1, {2}, 2, 1, true, false, hier); break;
    case 4: baumWelch(2, 1, {2, 0, 2}, 1, 0, true, false, hier); break;
    default: baumWelch(1, 1, {3}, 1, 0, true, true, hier);
    }
    symx_reach("end");
    symx_no_leak();
}
