//% copy construction and assignment between phrases of dimension 1..3 (unimodal, bimodal (2,1) (3,1) (3,2)), 0..2 frames (plus modalities of different lengths), targets with their own content, own and shared memory
//% every order of: change the source, change the copy, destroy either; all values symbolic
#include "common.h"
using namespace xmm;

struct Shadow {
    bool bi = false, own = true;
    unsigned dn = 1, di = 0;
    std::vector<VF> in, out;  // unimodal frames are in `in`
    std::string label;
    std::vector<std::string> cols;
    unsigned len() const { return bi ? std::min(in.size(), out.size()) : in.size(); }
};
static VF obs(unsigned n) {
    VF v;
    for (unsigned i = 0; i < n; ++i) v.push_back(symx_float("o", -1000, 1000));
    return v;
}
static void check(Phrase& p, Shadow const& s) {
    symx_assert(p.bimodal() == s.bi && p.ownMemory() == s.own, "modes");
    symx_assert(p.dimension.get() == s.dn, "dimension");
    if (s.bi) symx_assert(p.dimension_input.get() == s.di, "input dimension");
    symx_assert(p.label.get() == s.label, "label");
    symx_assert(p.column_names == s.cols, "column names");
    symx_assert(p.size() == s.len() && p.inputSize() == s.in.size(), "lengths");
    if (s.bi) symx_assert(p.outputSize() == s.out.size(), "output length");
    symx_assert(p.empty() == (s.in.empty() && s.out.empty()), "emptiness");
    for (unsigned i = 0; i < s.in.size(); ++i) for (unsigned d = 0; d < s.in[i].size(); ++d) symx_assert(p.getValue(i, d) == s.in[i][d], "values");
    for (unsigned i = 0; i < s.out.size(); ++i) for (unsigned d = 0; d < s.out[i].size(); ++d) symx_assert(p.getValue(i, s.di + d) == s.out[i][d], "output values");
    bool t = false, u = false;
    try { p.getValue(s.in.size(), 0); } catch (std::out_of_range&) { t = true; }
    try { p.getValue(0, s.dn); } catch (std::out_of_range&) { u = true; }
    symx_assert(t && u, "nothing past the end");
}
static void rec(Phrase& p, Shadow& s) {
    if (s.bi && s.in.size() != s.out.size()) {
        s.in.push_back(obs(s.di));
        p.record_input(s.in.back());
        return;
    }
    VF v = obs(s.dn);
    p.record(v);
    if (s.bi) { s.in.push_back(VF(v.begin(), v.begin() + s.di)); s.out.push_back(VF(v.begin() + s.di, v.end())); }
    else s.in.push_back(v);
}
static void build(std::unique_ptr<Phrase>& p, Shadow& s, const char* lab, int cfg, int frames) {
    static const unsigned D[6][2] = {{2, 0}, {3, 2}, {1, 0}, {2, 1}, {3, 1}, {3, 0}};
    s.dn = D[cfg][0]; s.di = D[cfg][1]; s.bi = s.di > 0;
    p.reset(new Phrase(MemoryMode::OwnMemory, s.bi ? Multimodality::Bimodal : Multimodality::Unimodal));
    p->dimension.set(s.dn);
    if (s.bi) p->dimension_input.set(s.di);
    p->label.set(lab);
    s.label = lab;
    s.cols.assign(s.dn, "");
    s.cols[s.dn - 1] = std::string(lab) + "x";
    p->column_names = s.cols;
    for (int i = 0; i < frames && i < 3; ++i) rec(*p, s);
    if (frames == 3 && s.bi) { s.out.push_back(obs(s.dn - s.di)); p->record_output(s.out.back()); }
    if (frames == 4) { rec(*p, s); p->clear(); s.in.clear(); s.out.clear(); }
}
static void mutate(Phrase& p, Shadow& s, int op) {
    switch (op) {
    case 0: rec(p, s); break;
    case 1: p.clear(); s.in.clear(); s.out.clear(); break;
    case 2: p.label.set("new"); s.label = "new"; p.column_names[0] = "c"; s.cols[0] = "c"; break;
    case 3: p.dimension.set(s.dn + 1); s.dn++; s.in.clear(); s.out.clear(); s.cols.push_back(""); break;
    case 4: {
        VF off(s.dn), gain(s.dn, 2.f);
        off[0] = 1;
        p.rescale(off, gain);
        unsigned n = s.len();
        for (unsigned i = 0; i < n; ++i) {
            for (unsigned d = 0; d < s.in[i].size(); ++d) s.in[i][d] = (s.in[i][d] - off[d]) * 2.f;
            if (s.bi) for (unsigned d = 0; d < s.out[i].size(); ++d) s.out[i][d] = s.out[i][d] * 2.f;
        }
        break;
    }
    }
}

//@ H_copy_construct need=end shards=4
extern "C" void H_copy_construct() {
    int cfg = symx_choose("cfg", 4);
    int frames = symx_choose("frames", 5);
    {
        std::unique_ptr<Phrase> a, b;
        Shadow sa, sb;
        build(a, sa, "A", cfg, frames);
        b.reset(new Phrase(*a));
        sb = sa;
        check(*b, sb);
        mutate(*a, sa, symx_choose("opa", 5));
        check(*b, sb);
        mutate(*b, sb, symx_choose("opb", 5));
        check(*a, sa);
        check(*b, sb);
        if (symx_choose("kill", 2)) { a.reset(); check(*b, sb); mutate(*b, sb, 0); check(*b, sb); }
        else { b.reset(); check(*a, sa); mutate(*a, sa, 0); check(*a, sa); }
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_copy_assign need=end shards=8
extern "C" void H_copy_assign() {
    int cfg = symx_choose("cfg", 4), fa = symx_choose("fa", 5);
    int cfb = symx_choose("cfgb", 3), fb = symx_choose("fb", 2);
    {
        std::unique_ptr<Phrase> a, b;
        Shadow sa, sb;
        build(a, sa, "A", cfg, fa);
        build(b, sb, "B", cfb, fb ? 2 : 0);
        *b = *a;
        sb = sa;
        check(*a, sa);
        check(*b, sb);
        Phrase& self = *b;
        *b = self;
        check(*b, sb);
        int o = symx_choose("op", 5);
        if (symx_choose("who", 2)) mutate(*a, sa, o); else mutate(*b, sb, o);
        check(*a, sa);
        check(*b, sb);
        if (symx_choose("kill", 2)) { a.reset(); mutate(*b, sb, 0); check(*b, sb); }
        else { b.reset(); mutate(*a, sa, 0); check(*a, sa); }
    }
    symx_reach("end");
    symx_no_leak();
}
// a copy keeps nothing of the listeners of the source, and the target keeps its own
//@ H_copy_listeners need=end
extern "C" void H_copy_listeners() {
    {
        TrainingSet t, u;
        t.addPhrase(0, "A");
        u.addPhrase(0, "B");
        std::shared_ptr<Phrase> a = t.getPhrase(0), b = u.getPhrase(0);
        a->record(obs(1));
        std::unique_ptr<Phrase> c(new Phrase(*a));
        c->label.set("C");
        symx_assert(t.labels().count("A") == 1 && t.labels().size() == 1, "relabelling the copy leaves the set of the source alone");
        *b = *a;
        symx_assert(a->label.get() == "A" && b->label.get() == "A", "the label is copied");
        symx_assert(t.labels().count("A") == 1, "the source's set is unchanged");
        b->label.set("D");
        symx_assert(u.labels().size() == 1 && u.labels().count("D") == 1, "after an assignment the target still notifies its own set");
        symx_assert(t.labels().count("A") == 1 && t.labels().size() == 1, "and not the set of the source");
        a->label.set("E");
        symx_assert(t.labels().size() == 1 && t.labels().count("E") == 1 && u.labels().count("D") == 1, "the source notifies its own set");
        if (symx_choose("k", 2)) c.reset();
        a->label.set("F");
        symx_assert(t.labels().count("F") == 1 && a->label.get() == "F" && b->label.get() == "D", "labels are independent");
    }
    symx_reach("end");
    symx_no_leak();
}
// copies of a phrase in shared memory refer to the same user data and never free it
//@ H_copy_shared need=end shards=4
extern "C" void H_copy_shared() {
    bool bi = symx_choose("bi", 2);
    int how = symx_choose("how", 4);  // 0: copy ctor, 1: assign to shared, 2: assign to own with content, 3: shared phrase receives an own phrase
    int con = symx_choose("con", 3);
    {
        unsigned dn = 3, di = bi ? 2 : 3;
        VF x = obs(2 * di), y = obs(2 * (bi ? 1 : 0));
        VF x0 = x, y0 = y;
        std::unique_ptr<Phrase> a(new Phrase(MemoryMode::SharedMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal)), b;
        a->dimension.set(dn);
        if (bi) a->dimension_input.set(di);
        unsigned n = con;
        if (n) { if (bi) a->connect(x.data(), y.data(), n); else a->connect(x.data(), n); }
        auto same = [&](Phrase& p) {
            symx_assert(!p.ownMemory() && p.bimodal() == bi && p.dimension.get() == dn, "modes of the copy");
            symx_assert(p.size() == n && p.empty() == (n == 0), "length of the copy");
            for (unsigned i = 0; i < n; ++i) for (unsigned d = 0; d < dn; ++d) symx_assert(p.getValue(i, d) == (d < di ? x[i * di + d] : y[i]), "the copy reads the user's data");
        };
        if (how == 0) b.reset(new Phrase(*a));
        else if (how == 1) {
            bool bb = symx_choose("bb", 2);
            b.reset(new Phrase(MemoryMode::SharedMemory, bb ? Multimodality::Bimodal : Multimodality::Unimodal));
            if (bb) b->connect(x.data(), x.data(), 1); else b->connect(x.data(), 2);
            *b = *a;
        } else if (how == 2) {
            bool bb = symx_choose("bb", 2);
            b.reset(new Phrase(MemoryMode::OwnMemory, bb ? Multimodality::Bimodal : Multimodality::Unimodal));
            b->record(VF(bb ? 2 : 1, 1.f));
            *b = *a;
        } else {
            Phrase o(MemoryMode::OwnMemory, symx_choose("ob", 2) ? Multimodality::Bimodal : Multimodality::Unimodal);
            unsigned od = o.dimension.get();
            VF v = obs(od);
            o.record(v);
            *a = o;
            symx_assert(a->ownMemory() && a->size() == 1 && a->dimension.get() == od, "a shared phrase can receive a phrase that owns its data");
            for (unsigned d = 0; d < od; ++d) symx_assert(a->getValue(0, d) == v[d], "values");
            o.clear();
            a->record(v);
            symx_assert(a->size() == 2, "it owns its data afterwards");
        }
        if (how < 3) {
            same(*b);
            x[0] = 7;
            same(*b);
            if (symx_choose("kill", 2)) { a.reset(); same(*b); b->disconnect(); symx_assert(b->size() == 0, "disconnected"); }
            else {
                b->disconnect();
                same(*a);
                b.reset();
                same(*a);
            }
            x[0] = x0[0];
        }
        symx_assert(x == x0 && y == y0, "the user's data is not written");
    }
    symx_reach("end");
    symx_no_leak();
}
