// Helpers for the model harnesses.
#pragma once
#include "common.h"
// one phrase of n frames per (label, repetition), fixed values
inline float sampleValue(unsigned c, unsigned p, unsigned t, unsigned d) {
    return 2.f * c + 0.5f * p + 0.25f * t * (d + 1) + 0.125f * ((t * t + d) % 3);
}
inline void addPhrase(xmm::TrainingSet& ts, int idx, std::string const& label, unsigned c, unsigned p, unsigned frames, unsigned dim, unsigned din) {
    ts.addPhrase(idx, label);
    auto ph = ts.getPhrase(idx);
    for (unsigned t = 0; t < frames; ++t) {
        VF v;
        for (unsigned d = 0; d < dim; ++d) v.push_back(sampleValue(c, p, t, d));
        if (din) {
            ph->record_input(VF(v.begin(), v.begin() + din));
            ph->record_output(VF(v.begin() + din, v.end()));
        } else ph->record(v);
    }
}
// K classes a,b,c with one phrase each
inline void fillSet(xmm::TrainingSet& ts, unsigned K, unsigned frames, unsigned dim, unsigned din = 0, unsigned phrases = 1) {
    ts.dimension.set(dim);
    if (din) ts.dimension_input.set(din);
    int idx = 0;
    for (unsigned c = 0; c < K; ++c)
        for (unsigned p = 0; p < phrases; ++p) addPhrase(ts, idx++, std::string(1, char('a' + c)), c, p, frames, dim, din);
}
template <class M> void quickTraining(M& m, int iterations = 1) {
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.shared_parameters->em_algorithm_min_iterations.set(iterations);
    m.shared_parameters->em_algorithm_max_iterations.set(iterations);
}
// any mean and any diagonally dominant (hence positive definite) covariance
// (observations and means within +-freeRange keep the density above its floor)
inline float freeRange(unsigned dim) { return dim == 1 ? 20 : dim == 2 ? 8 : 4; }
inline void freeGaussian(xmm::GaussianDistribution& g, float R = 0) {
    unsigned n = g.dimension.get();
    if (!R) R = freeRange(n);
    bool full = g.covariance_mode.get() == xmm::GaussianDistribution::CovarianceMode::Full;
    for (unsigned i = 0; i < n; ++i) g.mean[i] = symx_double("mean", -R, R);
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j <= i; ++j) {
            if (!full && i != j) continue;
            double v = i == j ? symx_double("v", 4, 16) : symx_double("c", -1, 1);
            if (full) g.covariance[i * n + j] = g.covariance[j * n + i] = v;
            else g.covariance[i] = v;
        }
    g.updateInverseCovariance();
}
// likelihood of a mixture, from its public parameters
inline double mixture(xmm::SingleClassGMM const& g, VF const& x, bool bimodal) {
    double p = 0;
    for (unsigned k = 0; k < g.components.size(); ++k) p += g.mixture_coeffs[k] * (bimodal ? g.components[k].likelihood_input(x.data()) : g.components[k].likelihood(x.data()));
    return p;
}
typedef xmm::HMM::TransitionMode TM;
inline bool ergodic(xmm::SingleClassHMM const& c) { return c.parameters.transition_mode.get() == TM::Ergodic; }
// any transition and prior probabilities (positive), any gaussians
inline void freeStates(xmm::SingleClassHMM& c, float R) {
    for (auto& st : c.states)
        for (unsigned k = 0; k < st.components.size(); ++k) {
            freeGaussian(st.components[k], R);
            st.mixture_coeffs[k] = st.components.size() == 1 ? 1 : symx_float("w", 0.125f, 1);
        }
    for (auto& t : c.transition) t = symx_float("t", 0.0625f, 1);
    for (auto& t : c.prior) t = symx_float("p", 0.0625f, 1);
}
