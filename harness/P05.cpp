//% 3 listeners, histories of 5 (6 thorough) operations out of add / remove / remove all / notify; symbolic event payload
#include "common.h"
#include "xmmEvents.hpp"
using namespace xmm;
struct Ev { double x; int hits; };
struct L {
    int n = 0;
    double last = 0;
    void on(Ev& e) { ++n; last = e.x; ++e.hits; }
};
struct Gen : EventGenerator<Ev> {};

#if THOROUGH
static const int STEPS = 6;
#else
static const int STEPS = 5;
#endif
//@ H_events need=end,delivered
extern "C" void H_events() {
    Gen g;
    std::unique_ptr<L> l[3];
    bool on[3] = {};
    int want[3] = {};
    for (auto& p : l) p.reset(new L);
    for (int s = 0; s < STEPS; ++s) {
        int op = symx_choose("op", 8);
        if (op < 3) { g.addListener(l[op].get(), &L::on); on[op] = true; }
        else if (op < 6) { g.removeListener(l[op - 3].get(), &L::on); on[op - 3] = false; }
        else if (op == 6) { g.removeListeners(); on[0] = on[1] = on[2] = false; }
        else {
            Ev e{symx_double("x", -10, 10), 0};
            g.notifyListeners(e);
            int k = 0;
            for (int i = 0; i < 3; ++i) if (on[i]) { ++want[i]; ++k; symx_assert(l[i]->last == e.x, "the event itself is delivered"); symx_reach("delivered"); }
            symx_assert(e.hits == k, "each registered listener is notified once, and nobody else");
        }
        for (int i = 0; i < 3; ++i) symx_assert(l[i]->n == want[i], "notifications per listener");
    }
    // a removed listener may be destroyed
    for (int i = 0; i < 3; ++i) if (!on[i]) l[i].reset();
    Ev e{1, 0};
    g.notifyListeners(e);
    symx_assert(e.hits == on[0] + on[1] + on[2], "final delivery");
    symx_reach("end");
    symx_no_leak();
}
