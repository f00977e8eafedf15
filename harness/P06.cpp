//% unimodal phrases of dimension 1..3, bimodal phrases of dimensions (2,1) (3,1) (3,2); own memory
//% histories of 5 (6 thorough) operations out of record / record_input / record_output / clear / clearInput / clearOutput / change of dimension, all values symbolic
//% long recordings of up to 600 frames, crossing the storage growth boundaries, with symbolic values at any position
//% shared-memory phrases: buffers of 1..3 frames, histories of 4 connect / disconnect operations
#include "common.h"
using namespace xmm;
#if THOROUGH
static const int STEPS = 6;
#else
static const int STEPS = 5;
#endif

static VF obs(unsigned n) {
    VF v;
    for (unsigned i = 0; i < n; ++i) v.push_back(symx_float("o", -1000, 1000));
    return v;
}
static bool outside(Phrase const& p, unsigned i, unsigned d) {
    try { p.getValue(i, d); } catch (std::out_of_range&) { return true; }
    return false;
}
static bool badptr(Phrase const& p, unsigned i) {
    try { p.bimodal() ? p.getPointer_input(i) : p.getPointer(i); } catch (std::out_of_range&) { return true; }
    return false;
}
typedef std::vector<VF> Rows;
static void check_uni(Phrase& p, Rows const& r, unsigned dim) {
    symx_assert(p.size() == r.size(), "number of frames");
    symx_assert(p.empty() == r.empty(), "empty exactly when there is no frame");
    symx_assert(p.inputSize() == r.size(), "unimodal input length follows the length");
    for (unsigned i = 0; i < r.size(); ++i) {
        float* q = p.getPointer(i);
        for (unsigned d = 0; d < dim; ++d) {
            symx_assert(p.getValue(i, d) == r[i][d], "recorded values are read back");
            symx_assert(q[d] == r[i][d], "frames are stored contiguously");
        }
    }
    symx_assert(outside(p, r.size(), 0), "frames past the end cannot be read");
    symx_assert(outside(p, 0, dim), "dimensions past the last cannot be read");
    symx_assert(badptr(p, r.size()), "no pointer past the end");
}

//@ H_phrase_unimodal need=end,refused
extern "C" void H_phrase_unimodal() {
    unsigned dim = 1 + symx_choose("dim", 3);
    Phrase p;
    p.dimension.set(dim);
    Rows r;
    for (int s = 0; s < STEPS; ++s) {
        switch (symx_choose("op", 4)) {
        case 0: r.push_back(obs(dim)); p.record(r.back()); break;
        case 1: p.clear(); r.clear(); break;
        case 2: {
            bool t = false, u = false, v = false;
            try { p.record(obs(dim + 1)); } catch (std::invalid_argument&) { t = true; }
            try { p.record(VF(dim - 1, 0.f)); } catch (std::invalid_argument&) { u = true; }
            try { p.record_input(VF(dim, 0.f)); } catch (std::runtime_error&) { v = true; }
            symx_assert(t && u, "observations of the wrong dimension are refused");
            symx_assert(v, "a unimodal phrase has no input modality");
            symx_reach("refused");
            break;
        }
        case 3: dim = dim % 3 + 1; p.dimension.set(dim); r.clear(); symx_assert(p.column_names.size() == dim, "one column name per dimension"); break;
        }
        check_uni(p, r, dim);
    }
    symx_reach("end");
    symx_no_leak();
}

static void check_bi(Phrase& p, Rows const& in, Rows const& out, unsigned di, unsigned dn) {
    unsigned len = std::min(in.size(), out.size());
    symx_assert(p.size() == len, "the length is the shorter of the two modalities");
    symx_assert(p.inputSize() == in.size() && p.outputSize() == out.size(), "modality lengths");
    symx_assert(p.empty() == (in.empty() && out.empty()), "empty exactly when nothing is recorded");
    for (unsigned i = 0; i < in.size(); ++i) for (unsigned d = 0; d < di; ++d) symx_assert(p.getValue(i, d) == in[i][d], "input values are read back");
    for (unsigned i = 0; i < out.size(); ++i) for (unsigned d = di; d < dn; ++d) symx_assert(p.getValue(i, d) == out[i][d - di], "output values are read back");
    for (unsigned i = 0; i < len; ++i) {
        float *a = p.getPointer_input(i), *b = p.getPointer_output(i);
        for (unsigned d = 0; d < di; ++d) symx_assert(a[d] == in[i][d], "input frames are contiguous");
        for (unsigned d = di; d < dn; ++d) symx_assert(b[d - di] == out[i][d - di], "output frames are contiguous");
    }
    symx_assert(outside(p, in.size(), 0) && outside(p, out.size(), dn - 1) && outside(p, 0, dn) && badptr(p, len), "nothing can be read past the end");
    bool t = false;
    try { p.getPointer(0); } catch (std::exception&) { t = true; }
    symx_assert(t, "a bimodal phrase has no single data array");
}
//@ H_phrase_bimodal need=end,refused,async shards=8
extern "C" void H_phrase_bimodal() {
    static const unsigned cfg[3][2] = {{2, 1}, {3, 1}, {3, 2}};
    int steps = STEPS - 1;
    int o0 = symx_choose("op0", 8);
    int c = symx_choose("dims", 3);
    unsigned dn = cfg[c][0], di = cfg[c][1];
    Phrase p(MemoryMode::OwnMemory, Multimodality::Bimodal);
    p.dimension.set(dn);
    p.dimension_input.set(di);
    Rows in, out;
    for (int s = 0; s < steps; ++s) {
        switch (s == 0 ? o0 : symx_choose("op", 8)) {
        case 0: {
            VF v = obs(dn);
            bool t = false;
            try { p.record(v); } catch (std::runtime_error&) { t = true; }
            symx_assert(t == (in.size() != out.size()), "synchronous recording needs modalities of the same length");
            if (!t) { in.push_back(VF(v.begin(), v.begin() + di)); out.push_back(VF(v.begin() + di, v.end())); }
            break;
        }
        case 1: in.push_back(obs(di)); p.record_input(in.back()); break;
        case 2: out.push_back(obs(dn - di)); p.record_output(out.back()); break;
        case 3: p.clear(); in.clear(); out.clear(); break;
        case 4: p.clearInput(); in.clear(); break;
        case 5: p.clearOutput(); out.clear(); break;
        case 6: {
            int t = 0;
            if (in.size() == out.size()) { try { p.record(VF(dn + 1, 0.f)); } catch (std::invalid_argument&) { ++t; } } else ++t;
            try { p.record_input(VF(di + 1, 0.f)); } catch (std::invalid_argument&) { ++t; }
            try { p.record_output(VF(dn - di - 1, 0.f)); } catch (std::invalid_argument&) { ++t; }
            symx_assert(t == 3, "observations of the wrong dimension are refused");
            symx_reach("refused");
            break;
        }
        case 7:
            if (symx_choose("which", 2) == 0) { di = dn == 3 ? 3 - di : 1; p.dimension_input.set(di); }
            else { dn = dn == 2 ? 3 : 4; p.dimension.set(dn); }
            in.clear();
            out.clear();
            break;
        }
        if (in.size() != out.size()) symx_reach("async");
        check_bi(p, in, out, di, dn);
    }
    symx_reach("end");
    symx_no_leak();
}

// growth of the storage: nothing recorded before is lost
//@ H_phrase_growth need=end
extern "C" void H_phrase_growth() {
    static const int lens[] = {255, 256, 257, 300, 511, 512, 513, 600};
    int n = lens[symx_choose("len", 8)];
    int mode = symx_choose("mode", 4);  // 0: unimodal, 1: synchronous, 2: input first, 3: interleaved unevenly
    Phrase p(MemoryMode::OwnMemory, mode ? Multimodality::Bimodal : Multimodality::Unimodal);
    unsigned dim = mode ? 3 : 2, di = 2;
    p.dimension.set(dim);
    if (mode) p.dimension_input.set(di);
    VF sym;
    auto val = [&](int i, unsigned d) -> float {
        if ((i % 85 == 0 || i % 256 == 255 || i == n - 1) && sym.size() < 4096) {}
        return (i * 3 + d) * 0.25f;
    };
    // a handful of symbolic frames around every growth boundary
    std::vector<VF> data(n, VF(dim));
    for (int i = 0; i < n; ++i)
        for (unsigned d = 0; d < dim; ++d) data[i][d] = (i % 256 == 0 || i % 256 == 255 || i == n - 1) ? symx_float("o", -10, 10) : val(i, d);
    auto in = [&](int i) { return VF(data[i].begin(), data[i].begin() + di); };
    auto out = [&](int i) { return VF(data[i].begin() + di, data[i].end()); };
    if (mode < 2) for (int i = 0; i < n; ++i) p.record(data[i]);
    else if (mode == 2) { for (int i = 0; i < n; ++i) p.record_input(in(i)); for (int i = 0; i < n; ++i) p.record_output(out(i)); }
    else {
        int a = 0, b = 0;
        while (a < n || b < n) {
            for (int k = 0; k < 3 && b < n; ++k) p.record_output(out(b++));
            for (int k = 0; k < 2 && a < n; ++k) p.record_input(in(a++));
        }
    }
    symx_assert(p.size() == (unsigned)n, "length");
    for (int i = 0; i < n; ++i) for (unsigned d = 0; d < dim; ++d) symx_assert(p.getValue(i, d) == data[i][d], "values survive the growth of the storage");
    p.clear();
    symx_assert(p.size() == 0 && p.empty(), "cleared");
    p.record(data[n - 1]);
    for (unsigned d = 0; d < dim; ++d) symx_assert(p.getValue(0, d) == data[n - 1][d], "recording after a clear");
    symx_reach("end");
    symx_no_leak();
}

// shared memory: the phrase reads the user's buffers and never frees or writes them
//@ H_phrase_shared need=end
extern "C" void H_phrase_shared() {
    bool bi = symx_choose("bimodal", 2);
    unsigned dim = bi ? 3 : 2, di = bi ? 2 : 2;
    {
        std::vector<std::unique_ptr<float[]>> bufs;
        Phrase p(MemoryMode::SharedMemory, bi ? Multimodality::Bimodal : Multimodality::Unimodal);
        p.dimension.set(dim);
        if (bi) p.dimension_input.set(di);
        symx_assert(!p.ownMemory() && p.bimodal() == bi, "modes");
        float *a = nullptr, *b = nullptr;
        unsigned la = 0, lb = 0;
        auto mk = [&](unsigned n) {
            bufs.emplace_back(new float[n]);
            for (unsigned i = 0; i < n; ++i) bufs.back()[i] = symx_float("b", -10, 10);
            return bufs.back().get();
        };
        for (int s = 0; s < 4; ++s) {
            unsigned l = 1 + symx_choose("len", 2);
            int op = symx_choose("op", bi ? 4 : 2);
            if (op == 0) {
                la = lb = l;
                a = mk(l * di);
                if (bi) { b = mk(l * (dim - di)); p.connect(a, b, l); } else p.connect(a, l);
            } else if (op == 1) { p.disconnect(); a = b = nullptr; la = lb = 0; }
            else if (op == 2) { la = l + 1; a = mk(la * di); p.connect_input(a, la); }
            else { lb = l; b = mk(lb * (dim - di)); p.connect_output(b, lb); }
            unsigned len = bi ? std::min(la, lb) : la;
            symx_assert(p.size() == len, "length of the connected data");
            for (unsigned i = 0; i < la; ++i) for (unsigned d = 0; d < di; ++d) symx_assert(p.getValue(i, d) == a[i * di + d], "the connected data is read");
            if (bi) for (unsigned i = 0; i < lb; ++i) symx_assert(p.getValue(i, di) == b[i], "the connected output is read");
            symx_assert(outside(p, la, 0), "nothing past the end");
            bool t = false, u = false;
            try { p.record(VF(dim, 0.f)); } catch (std::runtime_error&) { t = true; }
            try { p.clear(); } catch (std::runtime_error&) { u = true; }
            symx_assert(t && u, "a shared phrase cannot be recorded or cleared");
        }
        if (symx_choose("redim", 2)) { p.dimension.set(dim + 1); symx_assert(p.size() == 0, "changing the dimension disconnects"); }
        if (symx_choose("own", 2)) {
            Phrase q;
            bool t = false;
            float z[2] = {0, 0};
            try { q.connect(z, 1); } catch (std::runtime_error&) { t = true; }
            symx_assert(t, "a phrase that owns its data cannot be connected");
        }
    }
    symx_reach("end");
    symx_no_leak();
}

// the input dimension stays within the dimension
//@ H_phrase_dims need=end
extern "C" void H_phrase_dims() {
    Phrase p(MemoryMode::OwnMemory, Multimodality::Bimodal);
    for (int s = 0; s < 3; ++s) {
        int v = 1 + symx_choose("v", 5);
        try { if (symx_choose("which", 2)) p.dimension.set(v); else p.dimension_input.set(v); } catch (std::domain_error&) {}
        symx_assert(p.dimension_input.get() <= p.dimension.get(), "the input dimension never exceeds the dimension");
        symx_assert(p.dimension.get() >= 2, "a bimodal phrase has at least two dimensions");
        unsigned di = p.dimension_input.get(), dn = p.dimension.get();
        VF o = obs(dn);
        p.record(o);
        symx_assert(p.size() == 1, "recording after a change of dimension");
        for (unsigned d = 0; d < dn; ++d) symx_assert(p.getValue(0, d) == o[d], "recording after a change of dimension");
        p.clear();
        (void)di;
    }
    symx_reach("end");
    symx_no_leak();
}
