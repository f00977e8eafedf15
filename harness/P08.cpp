//% phrases of dimension 1..2 (unimodal) and (2,1) (3,2) (bimodal) with 1..3 frames; training sets of up to 3 phrases of 0..2 frames
//% statistics over the reals (float and double rounding set aside): all values symbolic in [-1000,1000]
#include "common.h"
using namespace xmm;
static VF obs(unsigned n) {
    VF v;
    for (unsigned i = 0; i < n; ++i) v.push_back(symx_float("o", -1000, 1000));
    return v;
}
typedef std::vector<VF> Rows;
static double meanOf(Rows const& r, unsigned d) { double s = 0; for (auto& x : r) s += x[d]; return s / (double)r.size(); }
static double varOf(Rows const& r, unsigned d) { double m = meanOf(r, d), s = 0; for (auto& x : r) s += (x[d] - m) * (x[d] - m); return s / (double)r.size(); }
template <class S>
static void stats(S const& p, Rows const& r, unsigned dn) {
    VF m = p.mean(), sd = p.standardDeviation();
    auto mm = p.minmax();
    symx_assert(m.size() == dn && sd.size() == dn && mm.size() == dn, "one value per dimension");
    for (unsigned d = 0; d < dn; ++d) {
        symx_close(m[d], meanOf(r, d), "mean");
        symx_assert(sd[d] >= 0, "the standard deviation is not negative");
        symx_close((double)sd[d] * sd[d], varOf(r, d), "standard deviation");
        bool lo = false, hi = false;
        for (auto& x : r) {
            symx_assert(mm[d].first <= x[d] && mm[d].second >= x[d], "every value lies between minimum and maximum");
            lo = lo | (mm[d].first == x[d]);
            hi = hi | (mm[d].second == x[d]);
        }
        symx_assert(lo & hi, "minimum and maximum are reached");
    }
}
static const unsigned D[4][2] = {{1, 0}, {2, 0}, {2, 1}, {3, 2}};
//@ H_stats_phrase need=end
extern "C" void H_stats_phrase() {
    unsigned* c = (unsigned*)D[symx_choose("cfg", 4)];
    unsigned dn = c[0], di = c[1];
    int n = 1 + symx_choose("n", 3);
    {
        Phrase p(MemoryMode::OwnMemory, di ? Multimodality::Bimodal : Multimodality::Unimodal);
        p.dimension.set(dn);
        if (di) p.dimension_input.set(di);
        Rows r;
        for (int i = 0; i < n; ++i) { r.push_back(obs(dn)); p.record(r.back()); }
        stats(p, r, dn);
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_rescale_phrase need=end
extern "C" void H_rescale_phrase() {
    unsigned* c = (unsigned*)D[symx_choose("cfg", 4)];
    unsigned dn = c[0], di = c[1];
    int n = symx_choose("n", 3);
    bool shared = symx_choose("shared", 2);
    {
        Phrase p(shared ? MemoryMode::SharedMemory : MemoryMode::OwnMemory, di ? Multimodality::Bimodal : Multimodality::Unimodal);
        p.dimension.set(dn);
        if (di) p.dimension_input.set(di);
        Rows r;
        for (int i = 0; i < n; ++i) r.push_back(obs(dn));
        std::unique_ptr<float[]> x(new float[n * (di ? di : dn)]), y(new float[n * (dn - di)]);
        for (int i = 0; i < n; ++i) {
            for (unsigned d = 0; d < dn; ++d)
                if (di && d >= di) y[i * (dn - di) + d - di] = r[i][d]; else x[i * (di ? di : dn) + d] = r[i][d];
            if (!shared) p.record(r[i]);
        }
        if (shared) { if (di) p.connect(x.get(), y.get(), n); else p.connect(x.get(), n); }
        VF off = obs(dn), gain = obs(dn);
        p.rescale(off, gain);
        symx_assert(p.size() == (unsigned)n, "same length");
        for (int i = 0; i < n; ++i) for (unsigned d = 0; d < dn; ++d) symx_close(p.getValue(i, d), (r[i][d] - off[d]) * gain[d], "every value is offset and scaled");
    }
    symx_reach("end");
    symx_no_leak();
}
static void fill(TrainingSet& ts, Rows& all, std::vector<int>& lens, unsigned dn, unsigned di, int most = 6) {
    int np = 1 + symx_choose("np", 3);
    static const int idx[3] = {4, 0, 2};
    int total = 0;
    for (int k = 0; k < np; ++k) {
        int n = symx_choose("len", 3);
        if (k == np - 1 && total + n == 0) n = 1;
        if (total + n > most) n = most - total;
        total += n;
        lens.push_back(n);
        ts.addPhrase(idx[k], k % 2 ? "b" : "a");
        for (int i = 0; i < n; ++i) { all.push_back(obs(dn)); ts.getPhrase(idx[k])->record(all.back()); }
    }
}
//@ H_stats_set need=end shards=4
extern "C" void H_stats_set() {
    unsigned* c = (unsigned*)D[symx_choose("cfg", 4)];
    unsigned dn = c[0], di = c[1];
    {
        TrainingSet ts(MemoryMode::OwnMemory, di ? Multimodality::Bimodal : Multimodality::Unimodal);
        ts.dimension.set(dn);
        if (di) ts.dimension_input.set(di);
        Rows all;
        std::vector<int> lens;
        fill(ts, all, lens, dn, di, dn == 1 ? 4 : dn == 2 ? (THOROUGH ? 4 : 3) : 2);
        stats(ts, all, dn);
    }
    symx_reach("end");
    symx_no_leak();
}
//@ H_rescale_set need=end shards=4
extern "C" void H_rescale_set() {
    unsigned* c = (unsigned*)D[symx_choose("cfg", 4)];
    unsigned dn = c[0], di = c[1];
    {
        TrainingSet ts(MemoryMode::OwnMemory, di ? Multimodality::Bimodal : Multimodality::Unimodal);
        ts.dimension.set(dn);
        if (di) ts.dimension_input.set(di);
        Rows all;
        std::vector<int> lens;
        fill(ts, all, lens, dn, di);
        VF off = obs(dn), gain = obs(dn);
        ts.rescale(off, gain);
        static const int idx[3] = {4, 0, 2};
        int row = 0;
        for (unsigned k = 0; k < lens.size(); ++k) for (int i = 0; i < lens[k]; ++i, ++row) for (unsigned d = 0; d < dn; ++d)
            symx_close(ts.getPhrase(idx[k])->getValue(i, d), (all[row][d] - off[d]) * gain[d], "every value of every phrase is offset and scaled");
    }
    symx_reach("end");
    symx_no_leak();
}
// after normalisation the whole set has mean 0 and standard deviation 1, with one offset and gain for all phrases
//@ H_normalize need=end shards=4
extern "C" void H_normalize() {
    unsigned* c = (unsigned*)D[symx_choose("cfg", 3)];
    unsigned dn = c[0], di = c[1];
    {
        TrainingSet ts(MemoryMode::OwnMemory, di ? Multimodality::Bimodal : Multimodality::Unimodal);
        ts.dimension.set(dn);
        if (di) ts.dimension_input.set(di);
        Rows all;
        std::vector<int> lens;
        fill(ts, all, lens, dn, di);
        VF m = ts.mean(), s = ts.standardDeviation();
        for (unsigned d = 0; d < dn; ++d) symx_assume(s[d] > 0.01f);
        ts.normalize();
        static const int idx[3] = {4, 0, 2};
        int row = 0;
        for (unsigned k = 0; k < lens.size(); ++k) for (int i = 0; i < lens[k]; ++i, ++row) for (unsigned d = 0; d < dn; ++d)
            symx_close((double)ts.getPhrase(idx[k])->getValue(i, d) * s[d], (double)all[row][d] - m[d], "values are centred and scaled by the statistics of the set");
    }
    symx_reach("end");
    symx_no_leak();
}
