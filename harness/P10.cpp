//% any phrase index in -1000..1000 (symbolic), up to 4 phrases, histories of 3 (4 thorough) operations out of add (3 forms) / remove / remove class / relabel / clear / change of dimensions / change of column names, 3 labels
//% unimodal and bimodal sets
#include "common.h"
#include <map>
#include <set>
using namespace xmm;
#if THOROUGH
static const int STEPS = 4;
#else
static const int STEPS = 3;
#endif
static const char* LAB[3] = {"", "a", "b"};
struct Sh {
    bool bi;
    unsigned dn, di;
    std::map<int, std::string> lab;
    std::map<int, int> frames;
    std::vector<std::string> cols;
    std::vector<int> used;  // every index mentioned so far: symbolic integers
};
static void check(TrainingSet& t, Sh const& s) {
    symx_assert(t.size() == s.lab.size() && t.empty() == s.lab.empty(), "number of phrases");
    std::set<std::string> L;
    for (auto& p : s.lab) L.insert(p.second);
    symx_assert(t.labels() == L, "the labels are exactly those of the phrases");
    unsigned n = 0;
    for (auto it = t.cbegin(); it != t.cend(); ++it, ++n) symx_assert(s.lab.count(it->first) && it->second, "iteration visits the phrases");
    symx_assert(n == s.lab.size(), "iteration visits every phrase once");
    symx_assert(t.dimension.get() == s.dn && (!s.bi || t.dimension_input.get() == s.di), "dimensions");
    symx_assert(t.column_names.get() == s.cols, "column names");
    for (int k : s.used) {
        auto p = t.getPhrase(k);
        symx_assert((p != nullptr) == (s.lab.count(k) > 0), "a phrase exists exactly at the indices that were added");
        if (!p) continue;
        symx_assert(p->label.get() == s.lab.at(k), "label of the phrase");
        symx_assert(p->dimension.get() == s.dn && p->bimodal() == s.bi && (!s.bi || p->dimension_input.get() == s.di), "phrases follow the dimensions of the set");
        symx_assert(p->size() == (unsigned)s.frames.at(k), "length of the phrase");
        symx_assert(p->column_names == s.cols, "phrases carry the column names of the set");
    }
    for (int l = 0; l < 3; ++l) {
        TrainingSet* u = t.getPhrasesOfClass(LAB[l]);
        symx_assert((u != nullptr) == (L.count(LAB[l]) > 0), "a class exists exactly when a phrase has its label");
        if (!u) continue;
        unsigned m = 0;
        for (auto& p : s.lab) if (p.second == LAB[l]) { ++m; symx_assert(u->getPhrase(p.first) == t.getPhrase(p.first), "a class refers to the phrases of its label"); }
        symx_assert(u->size() == m, "and to no other phrase");
        symx_assert(u->dimension.get() == s.dn && u->bimodal() == s.bi && (!s.bi || u->dimension_input.get() == s.di), "a class has the dimensions of the set");
        symx_assert(u->column_names.get() == s.cols, "a class has the column names of the set");
    }
    symx_assert(t.getPhrasesOfClass("none") == nullptr && t.getPhrase(5000) == nullptr, "unknown class and index");
}
//@ H_set_history need=end,relabel,replaced,classgone shards=8 time=150
extern "C" void H_set_history() {
    int o0 = symx_choose("op", 9);
    {
        Sh s;
        s.bi = symx_choose("bi", 2);
        s.dn = s.bi ? 3 : 2;
        s.di = s.bi ? 2 : 0;
        TrainingSet t(MemoryMode::OwnMemory, s.bi ? Multimodality::Bimodal : Multimodality::Unimodal);
        t.dimension.set(s.dn);
        if (s.bi) t.dimension_input.set(s.di);
        s.cols.assign(s.dn, "");
        std::vector<std::shared_ptr<Phrase>> kept;  // phrases the user still holds after removal
        std::vector<std::string> keptLabels;
        int k0 = symx_int("index", -1000, 1000);
        s.used.push_back(k0);
        t.addPhrase(k0, "a");
        s.lab[k0] = "a";
        s.frames[k0] = 0;
        int steps = 1 + symx_choose("steps", STEPS);
        for (int i = 0; i < steps; ++i) {
            int op = i == 0 ? o0 : symx_choose("op", 9);
            int k = op < 4 || op == 5 ? symx_int("index", -1000, 1000) : 0;
            if (op < 4 || op == 5) s.used.push_back(k);
            const char* l = op < 3 || op == 4 || op == 5 ? op == 1 || op == 2 ? "b" : LAB[op ? 1 + symx_choose("l", 2) : symx_choose("l", i == 0 ? 2 : 3)] : "";
            if (op < 4 && s.lab.count(k)) { kept.push_back(t.getPhrase(k)); if (op < 3) symx_reach("replaced"); }
            switch (op) {
            case 0: t.addPhrase(k, l); s.lab[k] = l; s.frames[k] = 0; break;
            case 1: case 2: {
                std::shared_ptr<Phrase> p(new Phrase(MemoryMode::OwnMemory, s.bi ? Multimodality::Bimodal : Multimodality::Unimodal));
                p->dimension.set(s.dn);
                if (s.bi) p->dimension_input.set(s.di);
                p->column_names = s.cols;
                p->label.set(l);
                p->record(VF(s.dn, 1.f));
                if (op == 1) { t.addPhrase(k, *p); symx_assert(t.getPhrase(k) != p, "a copy is added"); }
                else { t.addPhrase(k, p); symx_assert(t.getPhrase(k) == p, "the very phrase is added"); }
                s.lab[k] = l;
                s.frames[k] = 1;
                break;
            }
            case 3: t.removePhrase(k); s.lab.erase(k); s.frames.erase(k); break;
            case 4: {
                bool alias = t.labels().count(l) && symx_choose("alias", 2);
                if (t.labels().count(l)) symx_reach("classgone");
                if (alias) t.removePhrasesOfClass(*t.labels().find(l)); else t.removePhrasesOfClass(l);
                for (auto it = s.lab.begin(); it != s.lab.end();) if (it->second == l) { s.frames.erase(it->first); it = s.lab.erase(it); } else ++it;
                break;
            }
            case 5: if (auto p = t.getPhrase(k)) { p->label.set(l); s.lab[k] = l; symx_reach("relabel"); } break;
            case 6: t.clear(); s.lab.clear(); s.frames.clear(); break;
            case 7:
                if (s.bi && symx_choose("inp", 2)) { s.di = s.dn - s.di; if (s.di >= s.dn || s.di < 1) s.di = 1; t.dimension_input.set(s.di); }
                else { s.dn = s.dn == 3 ? 2 : 3; if (s.di >= s.dn) s.di = s.dn - 1; t.dimension.set(s.dn); s.cols.resize(s.dn); }
                for (auto& f : s.frames) f.second = 0;
                break;
            case 8: for (auto& c : s.cols) c += "n"; t.column_names.set(s.cols); break;
            }
        }
        check(t, s);
        // phrases that were taken out and are still held elsewhere no longer concern the set
        for (auto& p : kept) {
            bool in = false;
            for (auto it = t.cbegin(); it != t.cend(); ++it) in |= it->second == p;
            if (!in) p->label.set("held");
        }
        check(t, s);
    }
    symx_reach("end");
    symx_no_leak();
}
// one phrase referenced at two indices
//@ H_set_alias need=end
extern "C" void H_set_alias() {
    {
        TrainingSet t;
        t.addPhrase(1, "a");
        std::shared_ptr<Phrase> p = t.getPhrase(1);
        t.addPhrase(2, p);
        symx_assert(t.size() == 2 && t.labels().size() == 1, "one phrase, two indices");
        t.getPhrasesOfClass("a");
        int r = symx_choose("r", 2);
        t.removePhrase(1 + r);
        p->label.set("b");
        symx_assert(t.size() == 1 && t.labels().size() == 1 && t.labels().count("b") == 1, "relabelling is seen through the remaining reference");
        symx_assert(t.getPhrasesOfClass("b") && t.getPhrasesOfClass("b")->getPhrase(2 - r) == p, "class of the remaining reference");
        if (symx_choose("k", 2)) t.addPhrase(2 - r, *p);
        symx_assert(t.labels().count("b") == 1, "a phrase replaced by its own copy");
    }
    symx_reach("end");
    symx_no_leak();
}
// shared memory sets
//@ H_set_shared need=end
extern "C" void H_set_shared() {
    bool bi = symx_choose("bi", 2);
    {
        float x[4] = {symx_float("x", -1, 1), symx_float("x", -1, 1), symx_float("x", -1, 1), symx_float("x", -1, 1)}, y[2] = {symx_float("y", -1, 1), symx_float("y", -1, 1)};
        TrainingSet t(MemoryMode::SharedMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal);
        symx_assert(!t.ownMemory() && t.bimodal() == bi, "modes");
        t.dimension.set(bi ? 3 : 2);
        if (bi) t.dimension_input.set(2);
        t.addPhrase(3, "a");
        auto p = t.getPhrase(3);
        symx_assert(!p->ownMemory() && p->bimodal() == bi, "phrases have the modes of the set");
        if (bi) p->connect(x, y, 2); else p->connect(x, 2);
        TrainingSet u(t);
        if (symx_choose("rm", 2)) t.removePhrase(3); else t.clear();
        symx_assert(t.empty() && t.labels().empty(), "removed");
        symx_assert(u.getPhrase(3)->size() == 2 && u.getPhrase(3)->getValue(1, 1) == x[3], "a copy reads the same user data");
        symx_assert(u.getPhrasesOfClass("a")->getPhrase(3)->getValue(0, 0) == x[0], "through the class as well");
    }
    symx_reach("end");
    symx_no_leak();
}
