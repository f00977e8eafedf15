//% scalar attributes of type unsigned int, int, float, double, bool; vector attributes of size 0..3
//% any value and any pair of limits of the type (32-bit integers bit-precise, floats IEEE in exact mode); histories of 4 (5 thorough) operations
#include "common.h"
using namespace xmm;

struct Listener {
    int calls = 0;
    AttributeBase* last = nullptr;
    void onChange(AttributeBase* a) { ++calls; last = a; }
};

template <typename T>
void limits_case(Attribute<T>& att, Listener& l, T v, T lo, T hi, bool silent) {
    T old = att.get();
    att.setLimits(lo, hi);
    int before = l.calls;
    bool thrown = false;
    try { att.set(v, silent); } catch (std::domain_error&) { thrown = true; }
    bool inside = (lo <= v) & (v <= hi);
    symx_assert(thrown == !inside, "a value is accepted exactly when it lies within the limits");
    if (thrown) {
        symx_assert(att.get() == old, "a refused value leaves the attribute unchanged");
        symx_assert(l.calls == before, "a refused value notifies nobody");
        symx_reach("refused");
    } else {
        symx_assert(att.get() == v, "an accepted value is read back");
        symx_assert(att.changed, "an accepted value marks the attribute as changed");
        symx_assert(l.calls == before + (silent ? 0 : 1), "the listener is notified once unless silenced");
        if (!silent) symx_assert(l.last == &att, "the listener receives the attribute");
        symx_reach("accepted");
    }
}

//@ H_attr_int mode=exact need=accepted,refused,end
extern "C" void H_attr_int() {
    Attribute<int> att(0);
    Attribute<unsigned int> uatt(3);
    Listener l;
    att.onAttributeChange(&l, &Listener::onChange);
    uatt.onAttributeChange(&l, &Listener::onChange);
    for (int i = 0; i < 2; ++i) {
        bool silent = symx_choose("silent", 2);
        limits_case<int>(att, l, symx_int("v", INT32_MIN, INT32_MAX), symx_int("lo", INT32_MIN, INT32_MAX), symx_int("hi", INT32_MIN, INT32_MAX), silent);
        limits_case<unsigned int>(uatt, l, symx_int("uv", INT32_MIN, INT32_MAX), symx_int("ulo", INT32_MIN, INT32_MAX), symx_int("uhi", INT32_MIN, INT32_MAX), silent);
    }
    symx_reach("end");
    symx_no_leak();
}

//@ H_attr_float mode=exact need=accepted,refused,end
extern "C" void H_attr_float() {
    Attribute<float> att(0);
    Attribute<double> datt(0);
    Listener l;
    att.onAttributeChange(&l, &Listener::onChange);
    datt.onAttributeChange(&l, &Listener::onChange);
    bool silent = symx_choose("silent", 2);
    limits_case<float>(att, l, symx_float("v", -3e38f, 3e38f), symx_float("lo", -3e38f, 3e38f), symx_float("hi", -3e38f, 3e38f), silent);
    limits_case<double>(datt, l, symx_double("dv", -1e300, 1e300), symx_double("dlo", -1e300, 1e300), symx_double("dhi", -1e300, 1e300), silent);
    symx_reach("end");
    symx_no_leak();
}

// default limits accept everything; bool and default construction
//@ H_attr_default mode=exact
extern "C" void H_attr_default() {
    Attribute<unsigned int> u;
    Attribute<float> f;
    Attribute<double> d;
    Attribute<bool> b;
    unsigned v = symx_int("v", INT32_MIN, INT32_MAX);
    float x = symx_float("x", -3e38f, 3e38f);
    double y = symx_double("y", -1e300, 1e300);
    int flag = symx_choose("b", 2);
    u.set(v); f.set(x); d.set(y); b.set(flag);
    symx_assert(u.get() == v, "unsigned read back");
    symx_assert(f.get() == x, "float read back");
    symx_assert(d.get() == y, "double read back");
    symx_assert(b.get() == (bool)flag, "bool read back");
    bool t = false;
    try { Attribute<int> bad(symx_int("w", -100, 100), 5, 10); symx_assert(bad.get() >= 5 && bad.get() <= 10, "constructor enforces the limits"); }
    catch (std::domain_error&) { t = true; }
    symx_reach("end");
    symx_no_leak();
}

//@ H_attr_vector mode=exact need=accepted,refused,end
extern "C" void H_attr_vector() {
    int size = symx_choose("size", 4);
    double lo = symx_double("lo", -100, 100), hi = symx_double("hi", -100, 100);
    Attribute<VD> att;
    att.setLimits(lo, hi);
    Listener l;
    att.onAttributeChange(&l, &Listener::onChange);
    if (size) att.resize(size);
    symx_assert(att.size() == (unsigned)size, "resize sets the size");
    int n = symx_choose("n", 4);
    VD v;
    bool inside = true;
    for (int i = 0; i < n; ++i) {
        v.push_back(symx_double("v", -200, 200));
        inside &= (lo <= v[i]) & (v[i] <= hi);
    }
    VD old = att.get();
    bool silent = symx_choose("silent", 2);
    bool thrown = false;
    try { att.set(v, silent); } catch (std::domain_error&) { thrown = true; }
    bool ok = (size == 0 || n == size) & inside;
    symx_assert(thrown == !ok, "a vector is accepted exactly when its size and all its elements are admissible");
    VD now = att.get();
    VD const& want = thrown ? old : v;
    symx_assert(now.size() == want.size(), "size after set");
    for (size_t i = 0; i < want.size(); ++i) symx_assert(now[i] == want[i], "content after set");
    symx_assert(l.calls == (thrown || silent ? 0 : 1), "notified exactly when a new value was accepted");
    unsigned idx = symx_choose("idx", 5);
    bool out = false;
    try { double w = att.at(idx); symx_assert(w == now[idx], "element access"); } catch (std::out_of_range&) { out = true; }
    symx_assert(out == (idx >= now.size()), "element access is bounded by the size");
    symx_reach(thrown ? "refused" : "accepted");
    symx_reach("end");
    symx_no_leak();
}

// copies and assignments take the value and limits, never the listener
template <typename T>
void copy_case(T v1, T v2, T v3, T lo, T hi) {
    std::unique_ptr<Listener> la(new Listener), lb(new Listener);
    std::unique_ptr<Attribute<T>> a(new Attribute<T>(v1));
    Attribute<T> b(v2);
    a->setLimits(lo, hi);
    a->onAttributeChange(la.get(), &Listener::onChange);
    int hasB = symx_choose("listener_on_target", 2);
    if (hasB) b.onAttributeChange(lb.get(), &Listener::onChange);
    b = *a;
    symx_assert(b.get() == v1, "assignment copies the value");
    symx_assert(!b.changed, "an assigned attribute is not marked as changed");
    Attribute<T> c(*a);
    symx_assert(c.get() == v1, "copy construction copies the value");
    // the source and its listener go away: nothing may refer to them any more
    a.reset();
    la.reset();
    bool tb = false, tc = false;
    try { b.set(v3); } catch (std::domain_error&) { tb = true; }
    try { c.set(v3); } catch (std::domain_error&) { tc = true; }
    bool inside = (lo <= v3) & (v3 <= hi);
    symx_assert((tb == !inside) & (tc == !inside), "copies keep the limits of their source");
    symx_assert(lb->calls == (hasB && !tb ? 1 : 0), "an assigned attribute keeps its own listener");
    symx_reach("end");
    symx_no_leak();
}
//@ H_attr_copy mode=exact
extern "C" void H_attr_copy() {
    if (symx_choose("type", 2)) copy_case<unsigned int>(symx_int("v1", 0, INT32_MAX), symx_int("v2", 0, INT32_MAX), symx_int("v3", 0, INT32_MAX), symx_int("lo", 0, INT32_MAX), symx_int("hi", 0, INT32_MAX));
    else copy_case<float>(symx_float("w1", -100, 100), symx_float("w2", -100, 100), symx_float("w3", -100, 100), symx_float("flo", -100, 100), symx_float("fhi", -100, 100));
}
//@ H_attr_copy_vector mode=exact
extern "C" void H_attr_copy_vector() {
    std::unique_ptr<Listener> la(new Listener), lb(new Listener);
    double x = symx_double("x", -10, 10), y = symx_double("y", -10, 10), z = symx_double("z", -10, 10);
    if (symx_choose("strings", 2)) {
        typedef std::vector<std::string> VS;
        std::unique_ptr<Attribute<VS>> a(new Attribute<VS>(VS{"a", "b"}));
        Attribute<VS> b;
        a->onAttributeChange(la.get(), &Listener::onChange);
        b.onAttributeChange(lb.get(), &Listener::onChange);
        b = *a;
        a.reset();
        la.reset();
        symx_assert(b.get().size() == 2 && b.get()[1] == "b", "content");
        b.set(VS{"c"});
        symx_assert(b.get().size() == 1 && b.get()[0] == "c", "content");
    } else {
        std::unique_ptr<Attribute<VD>> a(new Attribute<VD>(VD{x, y}));
        a->setLimits(-5, 5);
        Attribute<VD> b;
        a->onAttributeChange(la.get(), &Listener::onChange);
        b.onAttributeChange(lb.get(), &Listener::onChange);
        b = *a;
        a.reset();
        la.reset();
        symx_assert(b.get().size() == 2, "size");
        symx_assert((b.get()[0] == x) & (b.get()[1] == y), "content");
        bool t = false;
        try { b.set(VD{z}); } catch (std::domain_error&) { t = true; }
        symx_assert(t == !((-5 <= z) & (z <= 5)), "limits are copied");
        if (t) { b.setLimits(); b.set(VD{z}); }
    }
    symx_assert(lb->calls == 1, "an assigned attribute keeps its own listener");
    symx_reach("end");
    symx_no_leak();
}
