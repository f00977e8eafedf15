//% KMeans: 1..3 clusters, sets of 1..2 phrases of 1..4 frames, dimension 1..2, uni- and bimodal, any frame values with the biased initialisation, any random initial centres with fixed frames, 1..3 iterations, thresholds 0, default and large; recognition after training, before it and after reconfiguration; claims about training end where a cluster loses all its frames; reals
#include "common.h"
#include "models/kmeans/xmmKMeans.hpp"
#include <cstdlib>
using namespace xmm;
// the pseudo-random generator returns any value
static VD drawn;
extern "C" long random() {
    int v = symx_number("random", 0, RAND_MAX);
    drawn.push_back(2. * v / float(RAND_MAX) - 1.);
    return v;
}
static float distance(const float* a, const float* b, unsigned n) {
    float s = 0;
    for (unsigned d = 0; d < n; ++d) s += (a[d] - b[d]) * (a[d] - b[d]);
    return std::sqrt(s);
}
// one iteration; false if a cluster has no frames
static bool lloyd(std::vector<VF> const& x, std::vector<VF>& c) {
    unsigned K = c.size(), D = c[0].size();
    std::vector<VF> sum(K, VF(D, 0));
    std::vector<unsigned> n(K, 0);
    for (auto& f : x) {
        unsigned best = 0;
        for (unsigned k = 1; k < K; ++k) if (distance(&f[0], &c[k][0], D) < distance(&f[0], &c[best][0], D)) best = k;
        n[best]++;
        for (unsigned d = 0; d < D; ++d) sum[best][d] += f[d];
    }
    for (unsigned k = 0; k < K; ++k) {
        if (!n[k]) return false;
        for (unsigned d = 0; d < D; ++d) c[k][d] = sum[k][d] / float(n[k]);
    }
    return true;
}
static unsigned total(std::vector<unsigned> const& v) { unsigned s = 0; for (auto t : v) s += t; return s; }
//@ H_training need=end,random,biased shards=8 branch=120
extern "C" void H_training() {
    drawn.clear();
    unsigned cfg = symx_choose("configuration", 7 * 2 * 3), shape = cfg % 7, it = 1 + cfg / 14;
    bool rnd = cfg / 7 % 2;
    if (!THOROUGH && it > (shape >= 5 ? !rnd : shape == 2 ? 1 : rnd || shape > 1 ? 2 : 3)) { symx_reach("end"); return; }
    static const std::vector<unsigned> T[] = {{3}, {2, 1}, {3, 1}, {2}, {2, 1}, {3}, {3}};
    static const unsigned P[][3] = {{2, 1, 0}, {2, 1, 0}, {2, 1, 0}, {2, 2, 1}, {1, 2, 0}, {3, 1, 0}, {3, 2, 1}};
    unsigned K = P[shape][0], D = P[shape][1], din = P[shape][2];
    int thr = it > 1 && (THOROUGH || !rnd) ? symx_choose("threshold", 3) : 0;
    {
        TrainingSet ts(MemoryMode::OwnMemory, din ? Multimodality::Bimodal : Multimodality::Unimodal);
        ts.dimension.set(D);
        if (din) ts.dimension_input.set(din);
        std::vector<VF> x;
        for (unsigned k = 0; k < T[shape].size(); ++k) {
            ts.addPhrase(k, k ? "b" : "a");
            for (unsigned t = 0; t < T[shape][k]; ++t) {
                VF v;
                static const float F[] = {0.5f, -1.25f, 2.f, 0.75f, -2.5f, 1.5f, -0.5f, 3.f};
                for (unsigned d = 0; d < D; ++d) v.push_back(rnd ? F[D * x.size() + d] : symx_float("x", -4, 4));
                x.push_back(v);
                if (din) { ts.getPhrase(k)->record_input(VF(v.begin(), v.begin() + din)); ts.getPhrase(k)->record_output(VF(v.begin() + din, v.end())); }
                else ts.getPhrase(k)->record(v);
            }
        }
        KMeans m(K);
        m.initialization_mode = rnd ? KMeans::InitializationMode::Random : KMeans::InitializationMode::Biased;
        m.configuration.max_iterations.set(it);
        if (thr == 0) m.configuration.relative_distance_threshold.set(0);
        if (thr == 2) m.configuration.relative_distance_threshold.set(1000);
        m.train(&ts);
        symx_assert(m.centers.size() == K * D && m.shared_parameters->dimension.get() == D, "one centre per cluster");
        // initial centres
        std::vector<VF> c(K, VF(D, 0));
        if (rnd) {
            VF dev = ts.standardDeviation();
            symx_assert(drawn.size() == K * D, "each coordinate is drawn");
            for (unsigned k = 0; k < K; ++k) for (unsigned d = 0; d < D; ++d) c[k][d] = dev[d] * drawn[k * D + d];
            symx_reach("random");
        } else {
            unsigned step = T[shape][0] / K;
            for (unsigned k = 0; k < K; ++k) for (unsigned d = 0; d < D; ++d) for (unsigned t = 0; t < step; ++t) c[k][d] += x[k * step + t][d] / float(step);
            symx_reach("biased");
        }
        std::vector<std::vector<VF>> all{c};
        for (unsigned i = 0; i < it; ++i) {
            if (!lloyd(x, c)) { symx_reach("end"); return; }
            all.push_back(c);
        }
        if (thr == 0 || K == 1) {
            for (unsigned k = 0; k < K; ++k) for (unsigned d = 0; d < D; ++d) symx_close(m.centers[k * D + d], c[k][d], "centres: means of the frames closest to the previous centres");
        } else {
            // stopped early: still the centres after some iteration, and after the last one or at rest
            bool some = false;
            for (unsigned i = it; i && !some; --i) {
                bool eq = true;
                for (unsigned k = 0; k < K; ++k) for (unsigned d = 0; d < D; ++d) eq = eq && m.centers[k * D + d] == all[i][k][d];
                if (!eq) continue;
                some = true;
                if (i == it || thr == 2) continue;
                for (unsigned k = 0; k < K; ++k) for (unsigned d = 0; d < D; ++d) symx_close(all[i][k][d], all[i - 1][k][d], "the training only stops early when the centres have not moved");
            }
            symx_assert(some, "centres after one of the iterations");
        }
    }
    symx_reach("end");
}
//@ H_recognition need=end shards=4 branch=120
extern "C" void H_recognition() {
    unsigned K = 1 + symx_choose("clusters", 3), D = 1 + symx_choose("dimension", 2);
    unsigned how = symx_choose("history", 5);
    KMeans m(K);
    if (how) {
        TrainingSet ts;
        ts.dimension.set(D);
        ts.addPhrase(0, "a");
        for (unsigned t = 0; t < 4; ++t) ts.getPhrase(0)->record(VF(D, t * t * 0.5f));
        m.initialization_mode = KMeans::InitializationMode::Biased;
        m.train(&ts);
        for (auto& c : m.centers) c = symx_float("c", -4, 4);
    } else m.shared_parameters->dimension.set(D);
    KMeans copy(m), assigned;
    assigned = m;
    if (how == 2) m.configuration.clusters.set(symx_int("other", 1, 5));
    if (how == 3) { m.configuration.clusters.set(symx_int("other", 1, 5)); m.reset(); }
    KMeans& u = how == 4 ? (symx_choose("assigned", 2) ? assigned : copy) : m;
    if (how == 4) m.centers.assign(K * D, 100.f);
    bool refused = false;
    try { u.filter(VF(D + 1, 0.f)); } catch (std::runtime_error&) { refused = true; }
    symx_assert(refused, "observations of another dimension are refused");
    for (int k = 0; k < 2; ++k) {
        VF x;
        for (unsigned d = 0; d < D; ++d) x.push_back(symx_float("x", -4, 4));
        u.filter(x);
        if (!how) { symx_assert(u.results.distances.empty() && u.results.likeliest == 0, "no clusters before training"); continue; }
        symx_assert(u.results.distances.size() == K, "one distance per trained cluster");
        symx_assert(u.results.likeliest < K, "likeliest cluster exists");
        for (unsigned c = 0; c < K; ++c) {
            symx_close(u.results.distances[c], distance(&x[0], &u.centers[c * D], D), "distance to the centre");
            symx_assert(u.results.distances[u.results.likeliest] <= u.results.distances[c], "likeliest: closest centre");
        }
    }
    symx_reach("end");
}
