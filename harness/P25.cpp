//% model copies: GMM and hierarchical or plain HMM of 1..2 classes, every parameter value free; copy construction, assignment to an untrained, a differently trained or the same model; then retraining, removal, reconfiguration, filtering or destruction of either side; copies of single classes; reals
#include "same.h"
struct Log {
    int events;
    void* from;
    void on(TrainingEvent const& e) { events++; from = e.model; }
};
typedef GaussianDistribution::CovarianceMode CM;
static void shape(GMM&, unsigned, bool) {}
static void shape(HierarchicalHMM& m, unsigned erg, bool hier) {
    m.configuration.states.set(2);
    m.configuration.transition_mode.set(erg ? TM::Ergodic : TM::LeftRight);
    m.configuration.hierarchical.set(hier);
}
// what one side may do without the other noticing
template <class M> static void disturb(M& m, TrainingSet& ts, unsigned op) {
    bool bi = m.shared_parameters->bimodal.get();
    switch (op) {
    case 0: m.train(&ts); break;
    case 1: m.train(&ts, "a"); break;
    case 2: m.removeClass("a"); break;
    case 3: m.clear(); break;
    case 4:
        m.configuration.gaussians.set(7);
        m.configuration["a"].gaussians.set(5);
        m.shared_parameters->likelihood_window.set(3);
        m.shared_parameters->em_algorithm_percent_chg.set(3);
        m.reset();
        break;
    case 5:
        m.reset();
        for (int k = 0; k < 2; ++k) m.filter(VF(bi ? m.shared_parameters->dimension_input.get() : m.shared_parameters->dimension.get(), 1.5f));
        break;
    default:
        for (auto& c : m.models) freeClass(c.second);
        freeTop(m);
    }
}
template <class M> static void copies(unsigned K, unsigned G, unsigned dim, unsigned din, bool full, unsigned erg, bool hier) {
    TrainingSet ts(MemoryMode::OwnMemory, din ? Multimodality::Bimodal : Multimodality::Unimodal), other;
    fillSet(ts, K, 3, dim, din);
    fillSet(other, 3, 3, 1);
    std::unique_ptr<M> m(new M(din > 0));
    quickTraining(*m);
    m->configuration.gaussians.set(G);
    m->configuration.covariance_mode.set(full ? CM::Full : CM::Diagonal);
    shape(*m, erg, hier);
    m->configuration["b"].gaussians.set(G + 1);
    Log log{0, 0};
    m->training_events.addListener(&log, &Log::on);
    m->train(&ts);
    log.events = 0;
    for (auto& c : m->models) freeClass(c.second);
    freeTop(*m);
    m->reset();
    M witness;  // restored from JSON, see P21
    witness.fromJson(m->toJson());
    std::unique_ptr<M> c;
    switch (symx_choose("copy", 4)) {
    case 0: c.reset(new M(*m)); break;
    case 1: c.reset(new M()); *c = *m; break;
    case 2: c.reset(new M()); quickTraining(*c); shape(*c, !erg, hier); c->configuration.gaussians.set(1); c->configuration["z"].gaussians.set(3); c->train(&other); *c = *m; break;
    default: { M& self = *m; *m = self; c.reset(new M(*m)); }
    }
    symx_assert(c->shared_parameters != m->shared_parameters, "parameters are not shared between models");
    for (auto& k : c->models) symx_assert(k.second.shared_parameters == c->shared_parameters, "classes share the parameters of their model");
    // one side changes or goes away, the other one stays as it was
    unsigned op = symx_choose("change", 8);
    bool second = symx_choose("second", 2);
    M &from = second ? *c : *m, &to = second ? *m : *c;
    Log quiet{0, 0};
    to.training_events.addListener(&quiet, &Log::on);
    if (op == 7) (second ? c : m).reset();
    else disturb(from, ts, op);
    if (op < 2) symx_assert(log.events > 0 && log.from == (void*)&from, "the copy notifies the listeners of its own training");
    else symx_assert(log.events == 0, "no events");
    symx_assert(quiet.events == 0, "listeners of the other model are not told");
    same(witness, to, 1);
    // and can be trained again
    log.events = 0;
    to.train(&ts);
    symx_assert(to.size() == K && log.events > 0 && log.from == (void*)&to, "a copy can be trained");
}
//@ H_copy_gmm need=end shards=8 branch=120
extern "C" void H_copy_gmm() {
    static const unsigned S[][5] = {{1, 2, 1, 0, 1}, {2, 1, 1, 0, 0}, {1, 1, 2, 1, 1}};
    unsigned const* p = S[symx_choose("shape", 3)];
    copies<GMM>(p[0], p[1], p[2], p[3], p[4], 0, 0);
    symx_reach("end");
    symx_no_leak();
}
//@ H_copy_hmm need=end shards=8 branch=120
extern "C" void H_copy_hmm() {
    static const unsigned S[][7] = {{1, 1, 1, 0, 1, 0, 0}, {2, 1, 1, 0, 0, 0, 1}, {1, 1, 1, 0, 0, 1, 1}, {1, 1, 2, 1, 1, 0, 1}};
    unsigned const* p = S[symx_choose("shape", 4)];
    copies<HierarchicalHMM>(p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
    symx_reach("end");
    symx_no_leak();
}
