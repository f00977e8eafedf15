//% phrases and training sets read from documents with one or two fields replaced by another kind of node, removed, negative, huge, or arrays of the wrong size
#include "common.h"
#include <functional>
using namespace xmm;

static bool small = false;
static Json::Value node(int k) {
    switch (k) {
    case 0: return Json::Value(symx_int("n", -2, 4));
    case 1: { Json::Value a(Json::arrayValue); int n = symx_int("len", 0, 7); for (int i = 0; i < n; ++i) a[i] = symx_float("e", -1000, 1000); return a; }
    case 2: return Json::Value(symx_double("d", -10, 10));
    case 3: return Json::Value(-2147483647);
    case 4: return Json::Value("text");
    case 5: return Json::Value();
    case 6: return Json::Value(true);
    case 7: { Json::Value a(Json::arrayValue); a[0] = 1.5; a[1] = "x"; a[2] = 2; a[3] = 3; a[4] = 4; return a; }
    case 8: return Json::Value(Json::arrayValue);
    case 9: return Json::Value(Json::objectValue);
    case 10: return Json::Value(small ? 40 : 65536);
    case 11: return Json::Value(small ? -65536 : 2147483647);
    case 12: { Json::Value a(Json::arrayValue); for (int i = 0; i < 5; ++i) a[i] = "long"; return a; }
    default: return Json::Value(1e30);
    }
}
static const int KINDS = 14;
static VF obs(unsigned n) {
    VF v;
    for (unsigned i = 0; i < n; ++i) v.push_back(symx_float("o", -1000, 1000));
    return v;
}
static void readable(Phrase& p) {
    unsigned dn = p.dimension.get();
    symx_assert(p.dimension_input.get() <= dn && dn >= 1, "dimensions of an accepted document");
    double s = 0;
    for (unsigned i = 0; i < p.size() && i < 4; ++i) for (unsigned d = 0; d < dn && d < 8; ++d) s += p.getValue(i, d);
    if (p.size()) s += p.getValue(p.size() - 1, dn - 1);
    symx_assert(s == s || s != s, "readable");
    if (dn < 8) { p.record(VF(dn, 0.f)); p.record(VF(dn, 0.f)); }
}
// a document is either read or refused with an exception: no invalid memory access, no leak, and a refused document leaves the object as it was
//@ H_bad_phrase need=end,refused shards=8
extern "C" void H_bad_phrase() {
    bool bi = symx_choose("bi", 2);
    static const char* F[9] = {"bimodal", "dimension", "dimension_input", "length", "label", "column_names", "data", "data_input", "data_output"};
    int f = symx_choose("field", 9), k = symx_choose("kind", KINDS);
    {
        Phrase a(MemoryMode::OwnMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal);
        a.dimension.set(bi ? 3 : 2);
        if (bi) a.dimension_input.set(2);
        a.record(obs(bi ? 3 : 2));
        a.record(obs(bi ? 3 : 2));
        a.column_names = std::vector<std::string>(bi ? 3 : 2, "c");
        Json::Value j = a.toJson();
        if (k == 5 && symx_choose("rm", 2)) j.removeMember(F[f]); else j[F[f]] = node(k);
        if (k < 2 && symx_choose("two", 2)) {
            int g = 1 + symx_choose("second", 3), h = 0;
            if (g != f) j[F[g]] = node(h);
        }
        int how = symx_choose("how", 2);
        bool refused = false;
        if (how == 0) {
            std::unique_ptr<Phrase> p;
            try { p.reset(new Phrase(j)); } catch (std::exception&) { refused = true; }
            if (p) readable(*p);
        } else {
            Phrase p;
            VF v = obs(1);
            p.record(v);
            p.label.set("keep");
            try { p.fromJson(j); } catch (std::exception&) { refused = true; }
            if (refused) symx_assert(p.size() == 1 && p.dimension.get() == 1 && !p.bimodal() && p.label.get() == "keep" && p.getValue(0, 0) == v[0], "a refused document leaves the phrase as it was");
            else readable(p);
        }
        if (refused) symx_reach("refused");
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_bad_set need=end,refused shards=8
extern "C" void H_bad_set() {
    small = true;
    bool bi = symx_choose("bi", 2);
    static const char* F[5] = {"bimodal", "dimension", "dimension_input", "column_names", "phrases"};
    static const char* G[8] = {"bimodal", "dimension", "dimension_input", "length", "label", "column_names", "data", "index"};
    int where = symx_choose("where", 3), k = symx_choose("kind", KINDS);
    {
        TrainingSet a(MemoryMode::OwnMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal);
        a.dimension.set(bi ? 3 : 2);
        if (bi) a.dimension_input.set(2);
        for (int i = 0; i < 2; ++i) { a.addPhrase(i, i ? "x" : "y"); a.getPhrase(i)->record(obs(bi ? 3 : 2)); }
        Json::Value j = a.toJson();
        if (where == 0) { const char* n = F[symx_choose("field", 5)]; if (k == 5) j.removeMember(n); else j[n] = node(k); }
        else if (where == 1) { const char* n = G[symx_choose("field", 8)]; if (k == 5) j["phrases"][1].removeMember(n); else j["phrases"][1][n] = node(k); }
        else j["phrases"][symx_choose("which", 3)] = node(k);
        bool refused = false;
        if (symx_choose("how", 2)) {
            std::unique_ptr<TrainingSet> t;
            try { t.reset(new TrainingSet(j)); } catch (std::exception&) { refused = true; }
            if (t) for (auto& p : *t) readable(*p.second);
        } else {
            TrainingSet t;
            t.addPhrase(3, "keep");
            t.getPhrase(3)->record(obs(1));
            auto p = t.getPhrase(3);
            try { t.fromJson(j); } catch (std::exception&) { refused = true; }
            if (refused) symx_assert(t.size() == 1 && t.getPhrase(3) == p && p->size() == 1 && t.labels().count("keep") == 1 && t.dimension.get() == 1, "a refused document leaves the training set as it was");
            else for (auto& q : t) readable(*q.second);
        }
        if (refused) symx_reach("refused");
    }
    symx_reach("end");
    symx_no_leak();
}
