// Comparison of models, and models in any state.
#pragma once
#include "models.h"
using namespace xmm;
static void sameParameters(ClassParameters<GMM> const& a, ClassParameters<GMM> const& b, const char* w) {
    symx_assert(a.gaussians.get() == b.gaussians.get() && a.relative_regularization.get() == b.relative_regularization.get() && a.absolute_regularization.get() == b.absolute_regularization.get() && a.covariance_mode.get() == b.covariance_mode.get(), w);
}
static void sameParameters(ClassParameters<HMM> const& a, ClassParameters<HMM> const& b, const char* w) {
    symx_assert(a.gaussians.get() == b.gaussians.get() && a.relative_regularization.get() == b.relative_regularization.get() && a.absolute_regularization.get() == b.absolute_regularization.get() && a.covariance_mode.get() == b.covariance_mode.get(), w);
    symx_assert(a.states.get() == b.states.get() && a.transition_mode.get() == b.transition_mode.get() && a.regression_estimator.get() == b.regression_estimator.get() && a.hierarchical.get() == b.hierarchical.get(), w);
}
template <class T> static void sameValues(std::vector<T> const& a, std::vector<T> const& b, const char* w) {
    symx_assert(a.size() == b.size(), w);
    for (unsigned i = 0; i < a.size(); ++i) symx_close(a[i], b[i], w);
}
static void sameClass(SingleClassGMM& a, SingleClassGMM& b) {
    sameParameters(a.parameters, b.parameters, "parameters of the class");
    sameValues(a.mixture_coeffs, b.mixture_coeffs, "mixture coefficients");
    symx_assert(a.components.size() == b.components.size(), "number of gaussians");
    for (unsigned i = 0; i < a.components.size(); ++i) {
        auto &x = a.components[i], &y = b.components[i];
        symx_assert(x.dimension.get() == y.dimension.get() && x.dimension_input.get() == y.dimension_input.get() && x.covariance_mode.get() == y.covariance_mode.get(), "dimensions and mode of the gaussian");
        sameValues(x.mean, y.mean, "means");
        sameValues(x.covariance, y.covariance, "covariances");
        sameValues(x.output_covariance, y.output_covariance, "output covariance");
    }
}
static void sameClass(SingleClassHMM& a, SingleClassHMM& b) {
    sameParameters(a.parameters, b.parameters, "parameters of the class");
    sameValues(a.prior, b.prior, "priors");
    sameValues(a.transition, b.transition, "transitions");
    VF x(a.states.size()), y(b.states.size());
    json2vector(a.toJson()["exitProbabilities"], x, a.states.size());
    json2vector(b.toJson()["exitProbabilities"], y, b.states.size());
    sameValues(x, y, "exit probabilities");
    symx_assert(a.states.size() == b.states.size(), "number of states");
    for (unsigned i = 0; i < a.states.size(); ++i) sameClass(a.states[i], b.states[i]);
}
static void sameTop(GMM&, GMM&) {}
static void sameTop(HierarchicalHMM& a, HierarchicalHMM& b) {
    sameValues(a.prior, b.prior, "priors of the classes");
    sameValues(a.exit_transition, b.exit_transition, "exit transitions of the classes");
    symx_assert(a.transition.size() == b.transition.size(), "transitions between classes");
    for (unsigned i = 0; i < a.transition.size(); ++i) sameValues(a.transition[i], b.transition[i], "transitions between classes");
}
template <class M> static void sameShared(M& a, M& b) {
    auto &x = *a.shared_parameters, &y = *b.shared_parameters;
    symx_assert(x.bimodal.get() == y.bimodal.get() && x.dimension.get() == y.dimension.get() && x.dimension_input.get() == y.dimension_input.get(), "dimensions");
    symx_assert(x.column_names.get() == y.column_names.get(), "column names");
    symx_assert(x.em_algorithm_min_iterations.get() == y.em_algorithm_min_iterations.get() && x.em_algorithm_max_iterations.get() == y.em_algorithm_max_iterations.get() && x.em_algorithm_percent_chg.get() == y.em_algorithm_percent_chg.get() && x.likelihood_window.get() == y.likelihood_window.get(), "stop rule and window");
}
template <class M> static void same(M& a, M& b, unsigned observations) {
    sameShared(a, b);
    symx_assert(a.configuration.multithreading == b.configuration.multithreading && a.configuration.multiClass_regression_estimator == b.configuration.multiClass_regression_estimator, "configuration");
    sameParameters(a.configuration, b.configuration, "default parameters");
    for (std::string l : {"a", "b", "z"}) {
        symx_assert(a.configuration.includes(l) == b.configuration.includes(l), "classes with their own parameters");
        if (a.configuration.includes(l)) sameParameters(a.configuration[l], b.configuration[l], "own parameters of a class");
    }
    symx_assert(a.size() == b.size(), "number of classes");
    for (auto& c : a.models) {
        symx_assert(b.hasClass(c.first) && b.models[c.first].label == c.first, "labels");
        symx_assert(b.models[c.first].shared_parameters == b.shared_parameters, "classes share the parameters of their model");
        sameClass(c.second, b.models[c.first]);
    }
    sameTop(a, b);
    if (!a.size()) return;
    a.reset();
    bool bi = a.shared_parameters->bimodal.get();
    unsigned n = bi ? a.shared_parameters->dimension_input.get() : a.shared_parameters->dimension.get();
    for (unsigned k = 0; k < observations; ++k) {
        VF x;
        for (unsigned d = 0; d < n; ++d) x.push_back(symx_float("x", -2, 2));
        a.filter(x);
        b.filter(x);
        sameValues(a.results.instant_likelihoods, b.results.instant_likelihoods, "likelihoods after restoring");
        sameValues(a.results.smoothed_log_likelihoods, b.results.smoothed_log_likelihoods, "smoothed likelihoods after restoring");
        symx_assert(a.results.likeliest == b.results.likeliest, "likeliest class after restoring");
        if (bi) {
            sameValues(a.results.output_values, b.results.output_values, "prediction after restoring");
            sameValues(a.results.output_covariance, b.results.output_covariance, "covariance of the prediction after restoring");
        }
    }
}
static void freeClass(SingleClassGMM& c) {
    for (unsigned k = 0; k < c.components.size(); ++k) {
        freeGaussian(c.components[k], 2);
        c.mixture_coeffs[k] = symx_float("w", 0.125f, 1);
    }
}
static void freeClass(SingleClassHMM& c) { freeStates(c, 2); }
static void freeTop(GMM&) {}
static void freeTop(HierarchicalHMM& m) {
    if (m.configuration.hierarchical.get()) m.addExitPoint(1, symx_float("exit", 0.125f, 0.875f));
    for (auto& p : m.prior) p = symx_double("prior", 0.0625, 1);
    for (auto& r : m.transition) for (auto& p : r) p = symx_double("between", 0.0625, 1);
    for (auto& p : m.exit_transition) p = symx_double("end", 0.0625, 0.9375);
}
