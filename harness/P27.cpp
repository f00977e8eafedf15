//% shared parameters: histories of 3 (4 thorough) operations (each attribute set to any value of a range beyond its limits, copy, assignment, JSON) from a fresh one; configurations of GMM, hierarchical HMM and KMeans: histories of 3 (4 thorough) operations (default or class parameter changed, class or all reset, threading and regression mode, copy, assignment into any other, JSON), 2 labels; training with every mix of default and own parameters on 2 classes
//% integers -3..1000000 where only compared, doubles any value in [0, 1e6]; exact floats
#include "same.h"
#include "models/kmeans/xmmKMeans.hpp"
#include <map>
using namespace xmm;
#if THOROUGH
static const int STEPS = 3;
#else
static const int STEPS = 2;
#endif
// ---- shared parameters
struct SP {
    bool bi = false;
    unsigned dim = 1, din = 0, mn = 10, mx = 0, win = 1;
    double pc = 0.01;
    std::vector<std::string> cols;
};
static void check(SharedParameters& p, SP const& s) {
    symx_assert(p.bimodal.get() == s.bi && p.dimension.get() == s.dim && p.dimension_input.get() == s.din, "modality and dimensions");
    symx_assert(s.bi ? p.dimension_input.get() >= 1 && p.dimension_input.get() < p.dimension.get() : p.dimension_input.get() == 0, "the input is part of the dimensions");
    auto c = p.column_names.get();
    for (unsigned i = 0; i < s.cols.size(); ++i) symx_assert(i < c.size() ? c[i] == s.cols[i] : s.cols[i].empty(), "column names");
    symx_assert(c.size() <= s.dim, "one column name per dimension");
    symx_assert(p.em_algorithm_min_iterations.get() == s.mn && p.em_algorithm_max_iterations.get() == s.mx && p.likelihood_window.get() == s.win, "iterations and window");
    symx_assert(p.em_algorithm_percent_chg.get() == s.pc, "percentage of change");
}
// histories go on with accepted values, the refused ones end them
static bool refusals = false;
template <class A, class T> static bool put(A& a, T v, bool valid) {
    if (!refusals) symx_assume(valid);
    bool refused = false;
    auto old = a.get();
    try { a.set(v); } catch (std::domain_error&) { refused = true; }
    symx_assert(refused == !valid, "a value is accepted exactly when it is valid");
    if (refused) {
        symx_assert(a.get() == old, "a refused value changes nothing");
        symx_reach("refused");
    }
    return !refused;
}
static void step(SharedParameters& p, SP& s, int op) {
    switch (op) {
    case 0: {
        bool b = symx_choose("bimodal", 2);
        p.bimodal.set(b);
        s.bi = b;
        if (b) { if (s.dim < 2) s.dim = 2; if (s.din < 1) s.din = 1; }
        else s.din = 0;
        s.cols.resize(s.dim);
        break;
    }
    case 1: {
        unsigned d = symx_choose("dimension", 5);
        if (put(p.dimension, d, d >= (s.bi ? 2 : 1))) { s.dim = d; if (s.din >= d) s.din = d - 1; s.cols.resize(d); }
        break;
    }
    case 2: {
        unsigned d = s.bi ? symx_int("input", 0, 6) : 0;
        if (put(p.dimension_input, d, s.bi ? (d >= 1) & (d < s.dim) : true)) s.din = d;
        break;
    }
    case 3: {
        std::vector<std::string> c(s.dim, symx_choose("name", 2) ? "n" : "m");
        c[0] += "0";
        p.column_names.set(c);
        s.cols = c;
        if (!symx_choose("wrong", 2) || p.dimension.get() < 2) break;
        c.push_back("q");
        bool refused = false;
        try { p.column_names.set(c); } catch (std::domain_error&) { refused = true; }
        symx_assert(refused, "as many names as dimensions");
        break;
    }
    case 4: { int v = symx_int("min", 0, 1000000); if (put(p.em_algorithm_min_iterations, (unsigned)v, v >= 1)) s.mn = v; break; }
    case 5: { int v = symx_int("max", 0, 1000000); if (put(p.em_algorithm_max_iterations, (unsigned)v, true)) s.mx = v; break; }
    case 6: { double v = symx_double("percent", -1, 1e6); if (put(p.em_algorithm_percent_chg, v, v >= 0)) s.pc = v; break; }
    case 7: { int v = symx_int("window", 0, 1000000); if (put(p.likelihood_window, (unsigned)v, v >= 1)) s.win = v; break; }
    }
}
//@ H_shared_refused mode=exact need=end,refused
extern "C" void H_shared_refused() {
    SharedParameters p;
    SP s;
    s.cols.resize(1);
    if (symx_choose("bimodal", 2)) { p.bimodal.set(true); s.bi = true; s.dim = 2; s.din = 1; s.cols.resize(2); p.dimension.set(3); s.dim = 3; s.cols.resize(3); }
    refusals = true;
    step(p, s, 1 + symx_choose("op", 7));
    check(p, s);
    symx_reach("end");
}
//@ H_shared_history mode=exact need=end shards=16
extern "C" void H_shared_history() {
    int o0 = symx_choose("op", 40), o1 = o0 / 8;
    o0 %= 8;
    {
        std::unique_ptr<SharedParameters> p(new SharedParameters);
        SP s;
        s.cols.resize(1);
        check(*p, s);
        step(*p, s, o0);
        for (int k = 1; k < STEPS + !o1; ++k) step(*p, s, symx_choose("op", 8));
        check(*p, s);
        // carried over to another one, the source goes on or goes away
        if (o1) {
            std::unique_ptr<SharedParameters> q;
            if (o1 == 1) q.reset(new SharedParameters(*p));
            else {
                q.reset(new SharedParameters);
                if (symx_choose("dirty", 2)) { q->bimodal.set(true); q->dimension.set(4); q->dimension_input.set(3); q->column_names.set({"v", "w", "x", "y"}); q->likelihood_window.set(7); q->em_algorithm_max_iterations.set(70); }
                if (o1 == 2) *q = *p;
                else if (o1 == 3) q->fromJson(p->toJson());
                else q.reset(new SharedParameters(p->toJson()));
            }
            check(*q, s);
            p->bimodal.set(false);
            p->dimension.set(2);
            p->likelihood_window.set(33);
            symx_assert(p->column_names.get().size() == 2 && p->dimension_input.get() == 0, "the source follows its own dimension");
            check(*q, s);
            if (s.dim % 2) p.reset();
            step(*q, s, symx_choose("op", 2));
            check(*q, s);
        }
    }
    symx_reach("end");
    symx_no_leak();
}
// ---- configurations
typedef GaussianDistribution::CovarianceMode CM;
typedef HMM::RegressionEstimator RE;
template <class M> struct CP;
template <> struct CP<GMM> {
    int g = 10;
    double rel = 1e-2, abs = 1e-3;
    CM cov = CM::Full;
    static const int FIELDS = 4;
    void change(ClassParameters<GMM>& p, int f) {
        switch (f) {
        case 0: { int v = symx_int("gaussians", 0, 1000000); if (put(p.gaussians, (unsigned)v, v >= 1)) g = v; break; }
        case 1: { double v = symx_double("relative", 0, 1e6); if (put(p.relative_regularization, v, v >= 1e-20)) rel = v; break; }
        case 2: { double v = symx_double("absolute", 0, 1e6); if (put(p.absolute_regularization, v, v >= 1e-20)) abs = v; break; }
        case 3: cov = symx_choose("diagonal", 2) ? CM::Diagonal : CM::Full; p.covariance_mode.set(cov); break;
        }
    }
    void is(ClassParameters<GMM> const& p) const {
        symx_assert(p.gaussians.get() == (unsigned)g && p.covariance_mode.get() == cov, "gaussians and covariance mode");
        symx_assert(p.relative_regularization.get() == rel && p.absolute_regularization.get() == abs, "regularisation");
    }
};
template <> struct CP<HMM> {
    int st = 10, g = 1;
    double rel = 1e-2, abs = 1e-3;
    CM cov = CM::Full;
    TM tm = TM::LeftRight;
    RE re = RE::Full;
    bool hier = true;
    static const int FIELDS = 8;
    void change(ClassParameters<HMM>& p, int f) {
        switch (f) {
        case 0: { int v = symx_int("states", 0, 1000000); if (put(p.states, (unsigned)v, v >= 1)) st = v; break; }
        case 1: { int v = symx_int("gaussians", 0, 1000000); if (put(p.gaussians, (unsigned)v, v >= 1)) g = v; break; }
        case 2: { double v = symx_double("relative", 0, 1e6); if (put(p.relative_regularization, v, v >= 1e-20)) rel = v; break; }
        case 3: { double v = symx_double("absolute", 0, 1e6); if (put(p.absolute_regularization, v, v >= 1e-20)) abs = v; break; }
        case 4: cov = symx_choose("diagonal", 2) ? CM::Diagonal : CM::Full; p.covariance_mode.set(cov); break;
        case 5: tm = symx_choose("ergodic", 2) ? TM::Ergodic : TM::LeftRight; p.transition_mode.set(tm); break;
        case 6: re = (RE)symx_choose("estimator", 3); p.regression_estimator.set(re); break;
        case 7: hier = symx_choose("hierarchical", 2); p.hierarchical.set(hier); break;
        }
    }
    void is(ClassParameters<HMM> const& p) const {
        symx_assert(p.states.get() == (unsigned)st && p.gaussians.get() == (unsigned)g, "states and gaussians");
        symx_assert(p.covariance_mode.get() == cov && p.transition_mode.get() == tm && p.regression_estimator.get() == re && p.hierarchical.get() == hier, "modes");
        symx_assert(p.relative_regularization.get() == rel && p.absolute_regularization.get() == abs, "regularisation");
    }
};
template <> struct CP<KMeans> {
    int c = 1, mx = 50;
    float thr = 1e-20;
    static const int FIELDS = 3;
    void change(ClassParameters<KMeans>& p, int f) {
        switch (f) {
        case 0: { int v = symx_int("clusters", 0, 1000000); if (put(p.clusters, (unsigned)v, v >= 1)) c = v; break; }
        case 1: { int v = symx_int("max", 0, 1000000); if (put(p.max_iterations, (unsigned)v, v >= 1)) mx = v; break; }
        case 2: { float v = symx_float("threshold", -1, 1e6); if (put(p.relative_distance_threshold, v, v >= 0)) thr = v; break; }
        }
    }
    void is(ClassParameters<KMeans> const& p) const {
        symx_assert(p.clusters.get() == (unsigned)c && p.max_iterations.get() == (unsigned)mx, "clusters and iterations");
        symx_assert(p.relative_distance_threshold.get() == thr, "threshold");
    }
};
template <class M> struct Cfg {
    CP<M> def;
    std::map<std::string, CP<M>> own;
    int mt = (int)MultithreadingMode::Parallel, est = 0;
};
template <class M> static void check(Configuration<M>& c, Cfg<M> const& s) {
    s.def.is(c);
    symx_assert((int)c.multithreading == s.mt && (int)c.multiClass_regression_estimator == s.est, "threading and regression modes");
    for (std::string l : {"a", "b", "z"}) {
        symx_assert(c.includes(l) == (s.own.count(l) > 0), "a class has its own parameters from its first access until its reset");
        if (s.own.count(l)) s.own.at(l).is(c[l]);
    }
}
template <class M> static void step(Configuration<M>& c, Cfg<M>& s, int op) {
    std::string l(1, 'a' + (op == 1 || op == 2 ? symx_choose("label", 2) : 0));
    switch (op) {
    case 0: s.def.change(c, symx_choose("field", CP<M>::FIELDS)); break;
    case 1:
        if (!s.own.count(l)) s.own[l] = s.def;
        s.own[l].change(c[l], symx_choose("field", CP<M>::FIELDS));
        break;
    case 2: c.reset(l); s.own.erase(l); break;
    case 3:
        if (symx_choose("all", 2)) { c.reset(); s.own.clear(); break; }
        s.mt = symx_choose("threads", 3);
        s.est = symx_choose("regression", 2);
        c.multithreading = (MultithreadingMode)s.mt;
        c.multiClass_regression_estimator = (MultiClassRegressionEstimator)s.est;
        break;
    }
}
template <class M> static void configHistory(int o0, int way) {
    std::unique_ptr<Configuration<M>> c(new Configuration<M>);
    Cfg<M> s;
    check(*c, s);
    step(*c, s, o0);
    for (int k = 1; k < STEPS + !way; ++k) step(*c, s, symx_choose("op", 4));
    check(*c, s);
    if (!way) return;
    std::unique_ptr<Configuration<M>> d(new Configuration<M>);
    if (way > 1 && symx_choose("dirty", 2)) {
        CP<M> x;
        for (int f = 0; f < 2; ++f) { x.change(*d, f); x.change((*d)["b"], f); x.change((*d)["z"], f); }
        d->multithreading = MultithreadingMode::Background;
    }
    switch (way) {
    case 1: d.reset(new Configuration<M>(*c)); break;
    case 2: *d = *c; break;
    case 3: d->fromJson(c->toJson()); break;
    case 4: d.reset(new Configuration<M>(c->toJson())); break;
    }
    check(*d, s);
    Cfg<M> t = s;
    for (int f = 0; f < 2; ++f) {
        t.def.change(*c, f);
        if (!t.own.count("a")) t.own["a"] = t.def;
        t.own["a"].change((*c)["a"], f);
    }
    c->reset("b");
    t.own.erase("b");
    check(*c, t);
    check(*d, s);
    c.reset();
    int f = symx_choose("field", 2);
    s.def.change(*d, f);
    if (!s.own.count("b")) s.own["b"] = s.def;
    s.own["b"].change((*d)["b"], f);
    check(*d, s);
}
template <class M> static void configRefused() {
    Configuration<M> c;
    Cfg<M> s;
    refusals = true;
    bool own = symx_choose("own", 2);
    int f = symx_choose("field", CP<M>::FIELDS);
    if (own) s.own["b"] = s.def;
    if (own) s.own["b"].change(c["b"], f); else s.def.change(c, f);
    check(c, s);
}
//@ H_config_refused mode=exact need=end,refused
extern "C" void H_config_refused() {
    switch (symx_choose("model", 3)) {
    case 0: configRefused<GMM>(); break;
    case 1: configRefused<HMM>(); break;
    case 2: configRefused<KMeans>(); break;
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_config_gmm mode=exact need=end shards=16
extern "C" void H_config_gmm() {
    int o = symx_choose("first", 20);
    configHistory<GMM>(o % 4, o / 4);
    symx_reach("end");
    symx_no_leak();
}
//@ H_config_hmm mode=exact need=end shards=16
extern "C" void H_config_hmm() {
    int o = symx_choose("first", 20);
    configHistory<HMM>(o % 4, o / 4);
    symx_reach("end");
    symx_no_leak();
}
//@ H_config_kmeans mode=exact need=end shards=16
extern "C" void H_config_kmeans() {
    int o = symx_choose("first", 20);
    configHistory<KMeans>(o % 4, o / 4);
    symx_reach("end");
    symx_no_leak();
}
// ---- what training and recognition use
static void own(ClassParameters<GMM>& p, unsigned v) { p.gaussians.set(v); p.absolute_regularization.set(0.25 * v); p.covariance_mode.set(v > 1 ? CM::Diagonal : CM::Full); }
static void own(ClassParameters<HMM>& p, unsigned v) { p.states.set(v); p.absolute_regularization.set(0.25 * v); p.transition_mode.set(v > 1 ? TM::Ergodic : TM::LeftRight); }
static void expect(SingleClassGMM& c, unsigned v) {
    symx_assert(c.parameters.gaussians.get() == v && c.parameters.absolute_regularization.get() == 0.25 * v && (c.parameters.covariance_mode.get() == CM::Diagonal) == (v > 1), "a class is trained with its own parameters or the default ones");
    symx_assert(c.components.size() == v && c.mixture_coeffs.size() == v, "number of gaussians");
    for (auto& g : c.components) symx_assert((g.covariance_mode.get() == CM::Diagonal) == (v > 1), "covariance mode of the gaussians");
}
static void expect(SingleClassHMM& c, unsigned v) {
    symx_assert(c.parameters.states.get() == v && c.parameters.absolute_regularization.get() == 0.25 * v && ergodic(c) == (v > 1), "a class is trained with its own parameters or the default ones");
    symx_assert(c.states.size() == v && c.transition.size() == (v > 1 ? v * v : 2 * v), "number of states and topology");
}
template <class M> static void training() {
    TrainingSet ts;
    bool bi = symx_choose("bimodal", 2);
    if (bi) ts = TrainingSet(MemoryMode::OwnMemory, Multimodality::Bimodal);
    fillSet(ts, 2, 3, 2, bi ? 1 : 0);
    ts.column_names.set({"left", "right"});
    M m(bi);
    quickTraining(m, 1);
    // 0: default; 1, 2, 3: own
    unsigned a = symx_choose("a", 3), b = symx_choose("b", 3), def = 1 + symx_choose("default", 2);
    own(m.configuration, def);
    if (a) own(m.configuration["a"], a);
    if (b) { own(m.configuration["b"], b); }
    unsigned wa = a ? a : def, wb = b ? b : def;
    unsigned how = symx_choose("how", 3);
    if (how == 0) m.train(&ts);
    else { m.train(&ts, how == 1 ? "a" : "b"); m.train(&ts, how == 1 ? "b" : "a"); }
    symx_assert(m.size() == 2, "both classes");
    auto now = [&]() {
        expect(m.models["a"], wa);
        expect(m.models["b"], wb);
        auto& s = *m.shared_parameters;
        symx_assert(s.dimension.get() == 2 && s.bimodal.get() == bi && s.dimension_input.get() == (bi ? 1u : 0u), "dimensions of the training set");
        symx_assert(s.column_names.get() == ts.column_names.get(), "column names of the training set");
        for (auto& c : m.models) symx_assert(c.second.shared_parameters == m.shared_parameters, "all classes share the parameters of the model");
    };
    now();
    auto filter = [&]() {
        m.reset();
        for (int k = 0; k < 2; ++k) m.filter(bi ? VF{0.5f} : VF{0.5f, 0.25f});
        return m.results.instant_likelihoods;
    };
    auto before = filter();
    // changes apply to the next training
    unsigned change = symx_choose("change", 4);
    unsigned na = wa, nb = wb;
    switch (change) {
    case 0: own(m.configuration["a"], 3); na = 3; break;
    case 1:
        m.configuration.reset("a");
        na = def;
        break;
    case 2: m.configuration.reset(); na = nb = def; break;
    case 3:
        own(m.configuration, 3);
        if (!a) na = 3;
        if (!b) nb = 3;
        break;
    }
    now();
    symx_assert(filter() == before, "the parameters of a class are those of its training");
    unsigned again = symx_choose("again", 3);
    if (again == 0) { m.train(&ts); wa = na; wb = nb; }
    else { m.train(&ts, again == 1 ? "a" : "b"); (again == 1 ? wa : wb) = again == 1 ? na : nb; }
    now();
    filter();
}
//@ H_config_training_gmm mode=exact need=end shards=3
extern "C" void H_config_training_gmm() {
    training<GMM>();
    symx_reach("end");
    symx_no_leak();
}
//@ H_config_training_hmm mode=exact need=end shards=3
extern "C" void H_config_training_hmm() {
    training<HierarchicalHMM>();
    symx_reach("end");
    symx_no_leak();
}
