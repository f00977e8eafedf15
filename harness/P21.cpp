//% model JSON: GMM and hierarchical or plain HMM of 1..2 classes with 1..2 gaussians of dimension 1..2 (uni- and bimodal) and 2 states, every parameter value free; every configuration value in range with and without overrides for a class; restored by construction and into an untrained or differently trained model, then up to 2 observations on both; JSON in memory (text form outside); reals for the models, exact floats for the configuration
#include "same.h"
typedef GaussianDistribution::CovarianceMode CM;
static void shape(GMM&, unsigned, bool) {}
static void shape(HierarchicalHMM& m, unsigned erg, bool hier) {
    m.configuration.states.set(2);
    m.configuration.transition_mode.set(erg ? TM::Ergodic : TM::LeftRight);
    m.configuration.hierarchical.set(hier);
}
template <class M> static void models(unsigned K, unsigned G, unsigned dim, unsigned din, bool full, unsigned erg, bool hier) {
    TrainingSet ts(MemoryMode::OwnMemory, din ? Multimodality::Bimodal : Multimodality::Unimodal), other(MemoryMode::OwnMemory, Multimodality::Unimodal);
    fillSet(ts, K, 3, dim, din);
    ts.column_names.set(dim == 1 ? std::vector<std::string>{"x"} : std::vector<std::string>{"x", ""});
    fillSet(other, 3, 3, 1);
    M m(din > 0);
    quickTraining(m);
    m.configuration.gaussians.set(G);
    m.configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
    shape(m, erg, hier);
    m.shared_parameters->likelihood_window.set(2);
    m.train(&ts);
    for (auto& c : m.models) freeClass(c.second);
    freeTop(m);
    m.reset();  // the last state of a plain left-right HMM gets its cyclic transition
    // a configuration that has changed since the training
    if (symx_choose("reconfigured", 2)) m.configuration.gaussians.set(G + 1);
    Json::Value root = m.toJson();
    switch (symx_choose("restore", 3)) {
    case 0: { M r(root); same(m, r, 2); break; }
    case 1: { M r; r.fromJson(root); same(m, r, 2); break; }
    default: { M r; quickTraining(r); shape(r, erg, hier); r.configuration.gaussians.set(1); r.configuration["z"].gaussians.set(3); r.train(&other); r.fromJson(root); same(m, r, 2); }
    }
}
//@ H_json_gmm need=end shards=8 branch=120
extern "C" void H_json_gmm() {
    static const unsigned S[][5] = {{1, 1, 1, 0, 1}, {2, 1, 1, 0, 0}, {1, 2, 2, 0, 1}, {1, 1, 2, 1, 1}, {1, 2, 2, 1, 0}, {2, 1, 2, 1, 0}};
    unsigned const* p = S[symx_choose("shape", 6)];
    models<GMM>(p[0], p[1], p[2], p[3], p[4], 0, 0);
    symx_reach("end");
    symx_no_leak();
}
//@ H_json_hmm need=end shards=8 branch=120
extern "C" void H_json_hmm() {
    static const unsigned S[][5] = {{1, 1, 1, 0, 1}, {2, 1, 1, 0, 0}, {1, 2, 1, 0, 0}, {1, 1, 2, 1, 1}, {1, 1, 2, 0, 1}};
    unsigned const* p = S[symx_choose("shape", 5)];
    unsigned mode = symx_choose("mode", 4);
    models<HierarchicalHMM>(p[0], p[1], p[2], p[3], p[4], mode % 2, mode / 2);
    symx_reach("end");
    symx_no_leak();
}
static void freeParameters(ClassParameters<GMM>& p) {
    p.gaussians.set(symx_int("gaussians", 1, 1 << 30));
    p.relative_regularization.set(symx_double("relative", 1e-20, 1e6));
    p.absolute_regularization.set(symx_double("absolute", 1e-20, 1e6));
    p.covariance_mode.set(CM(symx_choose("mode", 2)));
}
static void freeParameters(ClassParameters<HMM>& p) {
    p.gaussians.set(symx_int("gaussians", 1, 1 << 30));
    p.states.set(symx_int("states", 1, 1 << 30));
    p.relative_regularization.set(symx_double("relative", 1e-20, 1e6));
    p.absolute_regularization.set(symx_double("absolute", 1e-20, 1e6));
    static const unsigned C[][4] = {{0, 0, 0, 1}, {0, 1, 1, 0}, {1, 0, 2, 0}, {1, 1, 0, 1}};
    unsigned const* c = C[symx_choose("modes", 4)];
    p.covariance_mode.set(CM(c[0]));
    p.transition_mode.set(TM(c[1]));
    p.regression_estimator.set(HMM::RegressionEstimator(c[2]));
    p.hierarchical.set(c[3]);
}
template <class M> static void configuration() {
    bool bi = symx_choose("bimodal", 2);
    M m(bi);
    auto& s = *m.shared_parameters;
    unsigned dim = 1 + bi + symx_choose("dimension", 2);
    s.dimension.set(dim);
    if (bi) s.dimension_input.set(symx_int("input", 1, dim - 1));
    std::vector<std::string> names(dim, "n");
    if (dim > 1) names[1] = "";
    s.column_names.set(names);
    s.em_algorithm_min_iterations.set(symx_int("min", 1, 1 << 30));
    s.em_algorithm_max_iterations.set(symx_int("max", 0, 1 << 30));
    s.em_algorithm_percent_chg.set(symx_double("percent", 0, 1e6));
    s.likelihood_window.set(symx_int("window", 1, 3));
    unsigned modes = symx_choose("threads", 3);
    m.configuration.multithreading = MultithreadingMode(modes);
    m.configuration.multiClass_regression_estimator = MultiClassRegressionEstimator(modes % 2);
    freeParameters(m.configuration);
    unsigned own = symx_choose("own", 3);
    if (own) freeParameters(m.configuration["b"]);
    if (own == 2) m.configuration["a"].gaussians.set(symx_int("gaussians", 1, 1 << 30));
    M r(!bi);
    r.configuration["z"].gaussians.set(3);
    if (symx_choose("restore", 2)) { r.fromJson(m.toJson()); same(m, r, 0); }
    else { M q(m.toJson()); same(m, q, 0); }
}
//@ H_json_configuration_gmm mode=exact need=end shards=8
extern "C" void H_json_configuration_gmm() {
    configuration<GMM>();
    symx_reach("end");
    symx_no_leak();
}
//@ H_json_configuration_hmm mode=exact need=end shards=8
extern "C" void H_json_configuration_hmm() {
    configuration<HierarchicalHMM>();
    symx_reach("end");
    symx_no_leak();
}
