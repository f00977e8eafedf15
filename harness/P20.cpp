//% training lifecycle, sequential: GMM and HMM; stop rule for every minimum in 1..3, maximum in 0..4, percentage in [0.125, 100] on fixed data, and the limit of 1000 iterations; histories of 2 (3 thorough) operations (train all, train one class, remove, clear, set of another dimension, empty set) from an empty or a trained model, on up to 3 classes with any label, any class failing to converge; exact floats
#include "models.h"
#include <limits>
using namespace xmm;
struct Log {
    std::vector<TrainingEvent> all;
    void on(TrainingEvent const& e) { all.push_back(e); }
};
template <class M> static void configure(M& m, unsigned) { m.configuration.gaussians.set(1); }
template <> void configure(HierarchicalHMM& m, unsigned v) {
    m.configuration.states.set(2);
    m.configuration.hierarchical.set(v % 2);
    m.configuration.transition_mode.set(v / 2 ? TM::Ergodic : TM::LeftRight);
}
template <class M> static void stopRule(unsigned v) {
    TrainingSet ts;
    fillSet(ts, 1, 4, 1, 0, 2);
    M m;
    configure(m, v);
    m.configuration.multithreading = MultithreadingMode::Sequential;
    m.configuration.gaussians.set(1 + symx_choose("gaussians", 2));
    unsigned mn = 1 + symx_choose("min", 3), mx = symx_choose("max", 5);
    symx_assume(mn != mx);  // documented for one exceeding the other only
    double pc = symx_double("percent", 0.125, 100);
    m.shared_parameters->em_algorithm_min_iterations.set(mn);
    m.shared_parameters->em_algorithm_max_iterations.set(mx);
    m.shared_parameters->em_algorithm_percent_chg.set(pc);
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&ts);
    auto& e = log.all;
    symx_assert(e.size() >= 3, "iterations, end of the class, end of the training");
    unsigned n = e.size() - 2;
    double prev = 0;
    for (unsigned i = 0; i < n; ++i) {
        symx_assert(e[i].status == TrainingEvent::Status::Run && e[i].label == "a" && e[i].model == (void*)&m, "one event per iteration");
        symx_assert(e[i].iterations == i + 1, "iterations are counted");
        symx_assert(e[i].progression == float(i + 1) / float(mx > mn ? mx : mn), "progression");
        bool stop;
        if (mx > mn) stop = i + 1 >= mx;
        else stop = i && i + 1 >= mn && 100. * fabs((e[i].log_likelihood - prev) / e[i].log_likelihood) <= pc;
        prev = e[i].log_likelihood;
        // with a minimum of one iteration there is nothing to compare the first one with
        if (i || mx > mn) symx_assert(stop == (i + 1 == n), "the training stops as configured");
    }
    symx_assert(e[n].status == TrainingEvent::Status::Done && e[n].label == "a", "the class is done");
    symx_assert(e[n + 1].status == TrainingEvent::Status::Alldone && e[n + 1].label == "", "the training is done");
    symx_assert(m.trained() && !m.training() && m.size() == 1, "trained");
}
//@ H_stop_rule mode=exact need=end shards=8
extern "C" void H_stop_rule() {
    unsigned v = symx_choose("model", 5);
    if (!v) stopRule<GMM>(0); else stopRule<HierarchicalHMM>(v - 1);
    symx_reach("end");
    symx_no_leak();
}
//@ H_stop_limit mode=exact need=end
extern "C" void H_stop_limit() {
    TrainingSet ts;
    fillSet(ts, 1, 2, 1);
    GMM m;
    m.configuration.multithreading = MultithreadingMode::Sequential;
    m.configuration.gaussians.set(1);
    if (symx_choose("criterion", 2)) m.shared_parameters->em_algorithm_max_iterations.set(symx_int("max", 1001, 1 << 20));
    else m.shared_parameters->em_algorithm_min_iterations.set(symx_int("min", 1001, 1 << 20));
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(&ts);
    symx_assert(log.all.size() == 1002 && log.all[999].iterations == 1000 && log.all[1000].status == TrainingEvent::Status::Done, "at most 1000 iterations");
    symx_reach("end");
}
static bool same(GaussianDistribution const& a, GaussianDistribution const& b) { return a.mean == b.mean && a.covariance == b.covariance && a.dimension.get() == b.dimension.get(); }
static bool same(SingleClassGMM const& a, SingleClassGMM const& b) {
    bool ok = a.mixture_coeffs == b.mixture_coeffs && a.components.size() == b.components.size();
    for (unsigned k = 0; ok && k < a.components.size(); ++k) ok = same(a.components[k], b.components[k]);
    return ok;
}
static bool same(SingleClassHMM const& a, SingleClassHMM const& b) {
    bool ok = a.transition == b.transition && a.prior == b.prior && a.states.size() == b.states.size();
    for (unsigned k = 0; ok && k < a.states.size(); ++k) ok = same(a.states[k], b.states[k]);
    return ok;
}
template <class M> static void lifecycle(unsigned v) {
    TrainingSet one, two;
    one.dimension.set(1);
    two.dimension.set(2);
    unsigned bad = symx_choose("bad", 4);
    for (unsigned c = 0; c < 3; ++c)
        for (unsigned p = 0; p < 2; ++p) addPhrase(one, 2 * c + p, std::string(1, 'a' + c), c, p, 3, 1, 0);
    if (bad < 3) one.getPhrase(2 * bad + 1)->record({std::numeric_limits<float>::quiet_NaN()});
    addPhrase(two, 0, "b", 2, 0, 3, 2, 0);
    addPhrase(two, 1, "d", 1, 0, 3, 2, 0);
    one.column_names.set({"x"});
    two.column_names.set({"y", "z"});
    M m, ref1, ref2;
    for (auto p : {&m, &ref1, &ref2}) {
        configure(*p, v);
        quickTraining(*p, 1);
        p->configuration.multithreading = MultithreadingMode::Sequential;
    }
    // each class trained alone
    std::map<std::string, M> alone1, alone2;
    for (std::string l : {"a", "b", "c"}) { alone1[l] = ref1; alone1[l].train(&one, l); symx_assert(alone1[l].size() == (l[0] - 'a' != int(bad)), "a class that fails is removed"); }
    for (std::string l : {"b", "d"}) { alone2[l] = ref2; alone2[l].train(&two, l); }
    Log log;
    m.training_events.addListener(&log, &Log::on);
    std::map<std::string, M*> shadow;
    unsigned dim = 1;
#if THOROUGH
    const int len = 3;
#else
    const int len = 2;
#endif
    if (symx_choose("start", 2)) {
        m.train(&one);
        for (auto& a : alone1) if (a.second.size()) shadow[a.first] = &a.second;
    }
    for (int k = 0; k < len; ++k) {
        int op = symx_choose("op", 7);
        std::string label(1, 'a');
        if (op == 1 || op == 3 || op == 4) label[0] = char(symx_int("label", 'a', 'e'));
        log.all.clear();
        std::set<std::string> trained;
        bool refused = false, expect = false;
        auto& set = op == 2 || op == 3 ? two : one;
        auto& alone = op == 2 || op == 3 ? alone2 : alone1;
        try {
            switch (op) {
            case 0: case 2: {
                shadow.clear();
                trained = set.labels();
                dim = set.dimension.get();
                m.train(&set);
                break;
            }
            case 1: case 3: {
                bool known = set.labels().count(label);
                expect = !known || (shadow.size() && dim != set.dimension.get());
                if (!expect) { trained.insert(label); dim = set.dimension.get(); }
                m.train(&set, label);
                break;
            }
            case 4: expect = !shadow.count(label); shadow.erase(label); m.removeClass(label); break;
            case 5: m.clear(); shadow.clear(); break;
            default: { TrainingSet empty; m.train(&empty); m.train(nullptr); m.train(nullptr, "a"); }
            }
        } catch (std::exception const&) { refused = true; }
        symx_assert(refused == expect, "refused: unknown labels and other dimensions");
        // events
        unsigned i = 0;
        for (auto& l : trained) {
            bool ok = alone[l].size();
            if (ok) {
                symx_assert(log.all.size() > i + 1 && log.all[i].label == l && log.all[i].status == TrainingEvent::Status::Run && log.all[i + 1].label == l && log.all[i + 1].status == TrainingEvent::Status::Done, "events of a class");
                i += 2;
            } else {
                symx_assert(log.all.size() > i && log.all[i].label == l && log.all[i].status == TrainingEvent::Status::Error, "error event of a class");
                i++;
            }
            if (ok) shadow[l] = &alone[l]; else shadow.erase(l);
        }
        if (trained.size()) {
            symx_assert(log.all.size() == i + 1 && log.all[i].status == TrainingEvent::Status::Alldone, "end of the training");
            symx_assert(m.shared_parameters->dimension.get() == set.dimension.get() && m.shared_parameters->column_names.get() == set.column_names.get(), "dimension and column names of the set");
        } else symx_assert(log.all.empty(), "no events");
        // classes
        symx_assert(m.size() == shadow.size() && !m.training() && m.trained() == !shadow.empty(), "classes that trained");
        int index = 0;
        for (std::string l : {"a", "b", "c", "d", "e"}) {
            bool in = shadow.count(l);
            symx_assert(m.hasClass(l) == in && m.getIndex(l) == (in ? index : -1), "classes by label");
            if (in) {
                symx_assert(m.models[l].label == l && !m.models[l].isTraining() && m.models[l].shared_parameters == m.shared_parameters, "class of the model");
                symx_assert(same(m.models[l], shadow[l]->models[l]), "a class depends on its own phrases only");
            }
            index += in;
        }
        symx_assert(m.shared_parameters->dimension.get() == dim, "dimension");
    }
    // recognition with the classes that remain: same likelihoods as each of them alone
    if (shadow.size()) {
        std::vector<float> x(dim, 0.5f);
        x[0] = symx_choose("observed", 2);
        m.filter(x);
        symx_assert(m.results.instant_likelihoods.size() == shadow.size(), "one likelihood per class");
        for (auto& s : shadow) {
            s.second->filter(x);
            symx_assert(m.models[s.first].results.instant_likelihood == s.second->models[s.first].results.instant_likelihood, "likelihood of the class");
        }
    }
}
//@ H_lifecycle_gmm mode=exact need=end shards=8
extern "C" void H_lifecycle_gmm() {
    lifecycle<GMM>(0);
    symx_reach("end");
    symx_no_leak();
}
//@ H_lifecycle_hmm mode=exact need=end shards=8
extern "C" void H_lifecycle_hmm() {
    lifecycle<HierarchicalHMM>(0);
    symx_reach("end");
    symx_no_leak();
}
