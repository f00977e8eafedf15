//% training sets of 0..3 phrases (0..2 frames, 2 labels, unimodal and bimodal, any indices), copied by construction, by assignment over an empty or a filled set, or chained (copy of a copy)
//% afterwards any one change on either side (value, label, phrase added / removed, class removed, clear, dimension, column names, rescale), either side destroyed first; phrases held by the user beyond the life of the set
#include "common.h"
#include <map>
using namespace xmm;
static VF obs(unsigned n) {
    VF v;
    for (unsigned i = 0; i < n; ++i) v.push_back(symx_float("o", -1000, 1000));
    return v;
}
static int I[4];  // any distinct indices
struct Snap {
    unsigned dn, di;
    bool bi;
    std::vector<std::string> cols;
    std::map<int, std::pair<std::string, std::vector<VF>>> ph;
};
static Snap snap(TrainingSet& t) {
    Snap s;
    s.dn = t.dimension.get(); s.di = t.dimension_input.get(); s.bi = t.bimodal(); s.cols = t.column_names.get();
    for (auto& p : t) {
        std::vector<VF> rows;
        for (unsigned i = 0; i < p.second->size(); ++i) { VF r; for (unsigned d = 0; d < s.dn; ++d) r.push_back(p.second->getValue(i, d)); rows.push_back(r); }
        s.ph[p.first] = {p.second->label.get(), rows};
    }
    return s;
}
static void check(TrainingSet& t, Snap const& s) {
    symx_assert(t.dimension.get() == s.dn && t.dimension_input.get() == s.di && t.bimodal() == s.bi, "dimensions");
    symx_assert(t.column_names.get() == s.cols, "column names");
    symx_assert(t.size() == s.ph.size(), "number of phrases");
    std::set<std::string> L;
    for (auto& p : s.ph) {
        auto q = t.getPhrase(p.first);
        symx_assert(q != nullptr, "phrase");
        L.insert(p.second.first);
        symx_assert(q->label.get() == p.second.first, "label");
        symx_assert(q->size() == p.second.second.size(), "length");
        for (unsigned i = 0; i < q->size(); ++i) for (unsigned d = 0; d < s.dn; ++d) symx_assert(q->getValue(i, d) == p.second.second[i][d], "values");
    }
    symx_assert(t.labels() == L, "labels");
    for (auto& l : L) {
        TrainingSet* u = t.getPhrasesOfClass(l);
        symx_assert(u != nullptr, "class");
        unsigned m = 0;
        for (auto& p : s.ph) if (p.second.first == l) { ++m; symx_assert(u->getPhrase(p.first) == t.getPhrase(p.first), "the class refers to this set's own phrases"); }
        symx_assert(u->size() == m, "size of the class");
    }
    symx_assert(t.getPhrasesOfClass("none") == nullptr, "unknown class");
}
static void build(TrainingSet& t, bool bi, int np) {
    t.dimension.set(bi ? 3 : 2);
    if (bi) t.dimension_input.set(1);
    t.column_names.set(std::vector<std::string>(bi ? 3 : 2, "c"));
    for (int k = 0; k < np; ++k) {
        int idx = I[k];
        t.addPhrase(idx, k == 1 ? "b" : "a");
        int n = k == 2 ? 0 : 2 - k;
        for (int i = 0; i < n; ++i) t.getPhrase(idx)->record(obs(bi ? 3 : 2));
    }
}
static void mutate(TrainingSet& t, int op, unsigned dn) {
    switch (op) {
    case 0: for (auto& p : t) p.second->record(obs(dn)); break;
    case 1: if (t.getPhrase(I[0])) t.getPhrase(I[0])->label.set("z"); break;
    case 2: t.addPhrase(I[0], "n"); break;
    case 3: t.addPhrase(I[3], "n"); break;
    case 4: t.removePhrase(I[0]); break;
    case 5: t.removePhrasesOfClass("a"); break;
    case 6: t.clear(); break;
    case 7: t.dimension.set(4); break;
    case 8: t.column_names.set(std::vector<std::string>(dn, "q")); break;
    case 9: t.rescale(obs(dn), obs(dn)); break;
    }
}
//@ H_set_copy need=end shards=8
extern "C" void H_set_copy() {
    bool bi = symx_choose("bi", 2);
    int np = symx_choose("np", 4), how = symx_choose("how", 4);
    for (int i = 0; i < 4; ++i) {
        I[i] = symx_int("index", -1000, 1000);
        symx_assume(I[i] != 77);
        for (int k = 0; k < i; ++k) symx_assume(I[i] != I[k]);
    }
    {
        std::unique_ptr<TrainingSet> a(new TrainingSet(MemoryMode::OwnMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal)), b;
        build(*a, bi, np);
        Snap sa = snap(*a);
        std::vector<std::shared_ptr<Phrase>> held;
        if (how == 0) b.reset(new TrainingSet(*a));
        else if (how == 1) { b.reset(new TrainingSet); *b = *a; }
        else if (how == 2) {
            b.reset(new TrainingSet(MemoryMode::OwnMemory, bi ? Multimodality::Unimodal : Multimodality::Bimodal));
            b->addPhrase(I[0], "old");
            b->addPhrase(77, "old");
            held.push_back(b->getPhrase(77));
            *b = *a;
            TrainingSet& self = *b;
            *b = self;
        } else {
            TrainingSet c(*a);
            b.reset(new TrainingSet(c));
        }
        check(*a, sa);
        check(*b, sa);
        for (auto& p : *a) symx_assert(b->getPhrase(p.first) != p.second, "the phrases themselves are copied");
        bool onA = symx_choose("who", 2);
        mutate(onA ? *a : *b, symx_choose("op", 10), sa.dn);
        check(onA ? *b : *a, sa);
        Snap sm = snap(onA ? *a : *b);
        check(onA ? *a : *b, sm);
        // a relabelled phrase is seen by its own set only
        TrainingSet& other = onA ? *b : *a;
        if (auto p = other.getPhrase(I[0])) { p->label.set("r"); check(onA ? *a : *b, sm); symx_assert(other.labels().count("r") == 1, "each set follows the labels of its own phrases"); p->label.set("a"); check(other, sa); }
        // either set can go first, phrases can outlive it
        for (auto& p : *a) held.push_back(p.second);
        for (auto& p : *b) held.push_back(p.second);
        if (symx_choose("kill", 2)) { a.reset(); check(*b, onA ? sa : sm); } else { b.reset(); check(*a, onA ? sm : sa); }
        a.reset();
        b.reset();
        for (auto& p : held) p->label.set("survivor");
    }
    symx_reach("end");
    symx_no_leak();
}
