//% capacities 1..3 (4 thorough), histories of 5 (7 thorough) operations out of push / clear / resize(1..3), 1 and 2 channels
//% pushed values: any real in [-1000, 1000]; queries after every operation
#include "common.h"
using namespace xmm;

#if THOROUGH
static const int STEPS = 6, CAPS = 4;
#else
static const int STEPS = 5, CAPS = 3;
#endif

static bool in_list(double v, VD const& l, size_t from) {
    bool f = false;
    for (size_t i = from; i < l.size(); ++i) f |= (v == l[i]);
    return f;
}

// single channel: the whole history is compared with a plain list
//@ H_ring_history need=end,full,throws
extern "C" void H_ring_history() {
    unsigned cap = 1 + symx_choose("cap", CAPS);
    CircularBuffer<double> b(cap);
    VD pushed;                 // everything ever pushed since the last clear
    size_t since = 0;          // pushes since the last resize / clear
    size_t retained = 0;       // elements held when it was last resized
    for (int s = 0; s < STEPS; ++s) {
        int op = symx_choose("op", 2 + CAPS);
        if (op == 0) {
            double v = symx_double("v", -1000, 1000);
            b.push(v);
            pushed.push_back(v);
            ++since;
        } else if (op == 1) {
            b.clear();
            pushed.clear();
            since = retained = 0;
        } else {
            unsigned before = b.size_t();
            b.resize(op - 1);
            cap = op - 1;
            symx_assert(b.size_t() <= before, "resizing never invents elements");
            if (before > cap) symx_assert(b.size_t() == cap, "shrinking keeps as many elements as fit");
            retained = b.size_t();
            since = 0;
        }
        symx_assert(b.size() == cap, "capacity");
        size_t n = b.size_t();
        symx_assert(n == std::min<size_t>(cap, retained + since), "number of stored elements");
        double sum = 0;
        for (size_t i = 0; i < n; ++i) {
            symx_assert(in_list(b(0, i), pushed, 0), "every stored element was pushed");
            sum += b(0, i);
        }
        size_t last = std::min<size_t>(since, cap);
        for (size_t k = 0; k < last; ++k) {
            bool f = false;
            for (size_t i = 0; i < n; ++i) f |= (b(0, i) == pushed[pushed.size() - 1 - k]);
            symx_assert(f, "the most recent elements are all stored");
        }
        if (n) {
            VD m = b.mean();
            symx_assert(m.size() == 1, "mean has one entry per channel");
            symx_close(m[0] * n, sum, "mean is the average of the stored elements");
        }
        if (n == cap) symx_reach("full");
        int thrown = 0;
        try { b(0, n); } catch (std::out_of_range&) { ++thrown; }
        try { b(1, 0); } catch (std::out_of_range&) { ++thrown; }
        symx_assert(thrown == 2, "reads outside the stored elements throw out_of_range");
        if (thrown) symx_reach("throws");
    }
    symx_reach("end");
    symx_no_leak();
}

// two channels stay aligned whatever the push interface
//@ H_ring_channels need=end
extern "C" void H_ring_channels() {
    unsigned cap = 1 + symx_choose("cap", CAPS);
    CircularBuffer<float, 2> b(cap);
    int n = 1 + symx_choose("n", CAPS + 2);
    VF x, y;
    for (int i = 0; i < n; ++i) {
        float a = symx_float("a", -100, 100), c = symx_float("c", -100, 100);
        if (symx_choose("how", 2)) { float p[2] = {a, c}; b.push(p); }
        else b.push(VF{a, c});
        x.push_back(a);
        y.push_back(c);
    }
    bool refused = false;
    try { b.push(1.f); } catch (std::invalid_argument&) { refused = true; }
    symx_assert(refused, "a scalar cannot be pushed in a multi-channel buffer");
    size_t m = std::min<size_t>(cap, n);
    symx_assert(b.size_t() == m, "number of stored frames");
    double sx = 0, sy = 0;
    for (size_t k = 0; k < m; ++k) {
        bool f = false;
        for (size_t i = 0; i < m; ++i) f |= (b(0, i) == x[n - 1 - k]) & (b(1, i) == y[n - 1 - k]);
        symx_assert(f, "the last frames are stored with their channels aligned");
        sx += x[n - 1 - k];
        sy += y[n - 1 - k];
    }
    VF mean = b.mean();
    symx_assert(mean.size() == 2, "mean has one entry per channel");
    symx_close(mean[0] * m, sx, "mean of channel 0");
    symx_close(mean[1] * m, sy, "mean of channel 1");
    bool t = false;
    try { b(2, 0); } catch (std::out_of_range&) { t = true; }
    symx_assert(t, "channel out of range throws");
    symx_reach("end");
    symx_no_leak();
}
