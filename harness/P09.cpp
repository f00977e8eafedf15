//% phrases: unimodal dimension 1..3, bimodal (2,1) (3,1) (3,2), 0..3 frames plus modalities of different lengths; target fresh or with other content
//% training sets of 0..3 phrases with positive and negative indices, 0..2 frames each, up to 2 labels; read by constructor or into an existing set
//% every finite 32-bit float value
#include "common.h"
using namespace xmm;
static VF obs(unsigned n) {
    VF v;
    for (unsigned i = 0; i < n; ++i) v.push_back(symx_float("o", -3.4e38f, 3.4e38f));
    return v;
}
static const unsigned D[6][2] = {{2, 0}, {3, 2}, {1, 0}, {2, 1}, {3, 1}, {3, 0}};
static void same(Phrase& a, Phrase& b) {
    symx_assert(b.bimodal() == a.bimodal() && b.dimension.get() == a.dimension.get(), "kind and dimension");
    symx_assert(b.dimension_input.get() == a.dimension_input.get(), "input dimension");
    symx_assert(b.label.get() == a.label.get(), "label");
    symx_assert(b.size() == a.size(), "number of frames");
    symx_assert(b.ownMemory(), "a phrase read from JSON owns its data");
    symx_assert(b.empty() == (a.size() == 0), "emptiness");
    for (unsigned i = 0; i < a.size(); ++i) for (unsigned d = 0; d < a.dimension.get(); ++d) symx_assert(b.getValue(i, d) == a.getValue(i, d), "every value is read back");
}
static void make(Phrase& p, unsigned dn, unsigned di, int frames, const char* lab) {
    p.dimension.set(dn);
    if (di) p.dimension_input.set(di);
    p.label.set(lab);
    for (int i = 0; i < frames; ++i) p.record(obs(dn));
    for (unsigned d = 0; d < dn; ++d) p.column_names[d] = std::string(1, char('p' + d));
}
//@ H_phrase_json mode=exact need=end shards=4
extern "C" void H_phrase_json() {
    unsigned const* c = D[symx_choose("cfg", 6)];
    unsigned dn = c[0], di = c[1];
    int n = symx_choose("n", 4);
    {
        Phrase a(MemoryMode::OwnMemory, di ? Multimodality::Bimodal : Multimodality::Unimodal);
        make(a, dn, di, n, symx_choose("lab", 2) ? "lab" : "");
        if (di && symx_choose("async", 2)) { if (symx_choose("which", 2)) a.record_input(obs(di)); else a.record_output(obs(dn - di)); }
        Json::Value j = a.toJson();
        int how = symx_choose("how", 3);
        std::unique_ptr<Phrase> b;
        if (how == 0) b.reset(new Phrase(j));
        else {
            b.reset(new Phrase(MemoryMode::OwnMemory, how == 1 ? Multimodality::Bimodal : Multimodality::Unimodal));
            b->dimension.set(how == 1 ? 3 : 1);
            b->record(obs(how == 1 ? 3 : 1));
            b->label.set("other");
            b->fromJson(j);
        }
        bool emptyAsync = n == 0 && !a.empty();
        if (!emptyAsync) same(a, *b);
        symx_assert(b->column_names == a.column_names, "column names");
        // writing the copy gives the same document
        if (!symx_native()) { Json::Value k = b->toJson(); symx_assert(k["length"].asInt() == j["length"].asInt() && k["dimension"].asInt() == (int)dn, "same document"); }
        // the copy is usable
        VF o = obs(dn);
        b->record(o);
        symx_assert(b->size() == a.size() + 1, "a phrase read from JSON can be extended");
        for (unsigned d = 0; d < dn; ++d) symx_assert(b->getValue(a.size(), d) == o[d], "recorded after the frames that were read");
        for (unsigned i = 0; i < a.size(); ++i) for (unsigned d = 0; d < dn; ++d) symx_assert(b->getValue(i, d) == a.getValue(i, d), "the frames that were read stay");
        b->dimension.set(dn + 1);
        b->record(VF(dn + 1, 0.f));
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_set_json mode=exact need=end shards=8
extern "C" void H_set_json() {
    unsigned const* c = D[symx_choose("cfg", 4)];
    unsigned dn = c[0], di = c[1];
    int np = symx_choose("np", 4);
    {
        TrainingSet a(MemoryMode::OwnMemory, di ? Multimodality::Bimodal : Multimodality::Unimodal);
        a.dimension.set(dn);
        if (di) a.dimension_input.set(di);
        std::vector<std::string> cols;
        for (unsigned d = 0; d < dn; ++d) cols.push_back(std::string(1, char('p' + d)));
        a.column_names.set(cols);
        static const int idx[3] = {4, 0, -2};
        for (int k = 0; k < np; ++k) {
            a.addPhrase(idx[k], symx_choose("lab", 2) ? "x" : "y");
            int n = symx_choose("len", 3);
            for (int i = 0; i < n; ++i) a.getPhrase(idx[k])->record(obs(dn));
        }
        Json::Value j = a.toJson();
        std::unique_ptr<TrainingSet> b;
        if (symx_choose("how", 2)) b.reset(new TrainingSet(j));
        else {
            b.reset(new TrainingSet);
            b->addPhrase(9, "z");
            b->getPhrase(9)->record(VF(1, 0.f));
            b->fromJson(j);
        }
        symx_assert(b->bimodal() == a.bimodal() && b->dimension.get() == dn && b->dimension_input.get() == a.dimension_input.get(), "kind and dimensions");
        symx_assert(b->size() == a.size() && b->empty() == a.empty(), "number of phrases");
        symx_assert(b->labels() == a.labels(), "labels");
        symx_assert(b->column_names.get() == cols, "column names");
        symx_assert(b->getPhrase(9) == nullptr, "the former content is gone");
        for (int k = 0; k < np; ++k) {
            auto p = b->getPhrase(idx[k]);
            symx_assert(p != nullptr, "phrases keep their index");
            same(*a.getPhrase(idx[k]), *p);
            TrainingSet* s = b->getPhrasesOfClass(p->label.get());
            symx_assert(s && s->getPhrase(idx[k]) == p, "phrases are grouped by label");
        }
        if (np) {
            b->getPhrase(idx[0])->label.set("new");
            symx_assert(b->labels().count("new") == 1, "labels of phrases that were read are tracked");
            symx_assert(a.labels().count("new") == 0, "without touching the set that was written");
        }
    }
    symx_reach("end");
    symx_no_leak();
}
