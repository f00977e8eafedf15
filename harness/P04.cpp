//% arrays and vectors of int, float, double, bool and string, sizes 0..3; JSON nodes of every kind, arrays of size 0..4 with elements of every kind
//% numbers: every finite value of the type (IEEE / 32-bit)
#include "common.h"
#include <cstring>
using namespace xmm;

template <typename T> T value(const char* n);
template <> int value<int>(const char* n) { return symx_int(n, INT32_MIN, INT32_MAX); }
template <> float value<float>(const char* n) { return symx_float(n, -3.4e38f, 3.4e38f); }
template <> double value<double>(const char* n) { return symx_double(n, -1.7e308, 1.7e308); }
template <> bool value<bool>(const char* n) { return symx_choose(n, 2); }
template <> std::string value<std::string>(const char* n) { static const char* s[] = {"", "abc"}; return s[symx_choose(n, 2)]; }

// what the target holds before
template <typename T> T before() { return T(1); }
template <> std::string before<std::string>() { return "before"; }

template <typename T>
void roundtrip() {
    unsigned n = symx_choose("n", 4);
    std::vector<T> v, w(n, before<T>());
    for (unsigned i = 0; i < n; ++i) v.push_back(value<T>("v"));
    Json::Value j = vector2json(v);
    symx_assert(j.isArray() && j.size() == n, "a vector is written as an array of the same size");
    json2vector(j, w, n);
    for (unsigned i = 0; i < n; ++i) symx_assert(w[i] == v[i], "vector elements are read back");
    symx_reach("end");
}
template <typename T>
void roundtrip_array() {
    unsigned n = symx_choose("n", 4);
    T a[3], b[3] = {before<T>(), before<T>(), before<T>()};
    for (unsigned i = 0; i < n; ++i) a[i] = value<T>("v");
    Json::Value j = array2json(a, n);
    symx_assert(j.isArray() && j.size() == n, "an array is written as an array of the same size");
    json2array(j, b, n);
    for (unsigned i = 0; i < n; ++i) symx_assert(b[i] == a[i], "array elements are read back");
    symx_reach("end");
}
//@ H_json_rt_int mode=exact
extern "C" void H_json_rt_int() { if (symx_choose("arr", 2)) roundtrip_array<int>(); else roundtrip<int>(); symx_no_leak(); }
//@ H_json_rt_float mode=exact
extern "C" void H_json_rt_float() { if (symx_choose("arr", 2)) roundtrip_array<float>(); else roundtrip<float>(); symx_no_leak(); }
//@ H_json_rt_double mode=exact
extern "C" void H_json_rt_double() { if (symx_choose("arr", 2)) roundtrip_array<double>(); else roundtrip<double>(); symx_no_leak(); }
//@ H_json_rt_bool mode=exact
extern "C" void H_json_rt_bool() { if (symx_choose("arr", 2)) roundtrip_array<bool>(); else roundtrip<bool>(); symx_no_leak(); }
//@ H_json_rt_string mode=exact
extern "C" void H_json_rt_string() { if (symx_choose("arr", 2)) roundtrip_array<std::string>(); else roundtrip<std::string>(); symx_no_leak(); }

static Json::Value scalar(int k) {
    switch (k) {
    case 0: return Json::Value(1.5);
    case 1: return Json::Value(7);
    case 2: return Json::Value("text");
    case 3: return Json::Value();
    case 4: return Json::Value(true);
    case 5: return Json::Value(Json::arrayValue);
    default: return Json::Value(Json::objectValue);
    }
}
// any node is either read completely or refused with an exception; nothing is written outside the target
template <typename T>
void any_node(bool isString) {
    unsigned n = symx_choose("n", 3);
    int kind = symx_choose("kind", 9);
    Json::Value j;
    bool goodElems = true;
    unsigned sz = 0;
    if (kind < 7) j = scalar(kind);
    else {
        sz = symx_choose("size", 4);
        j = Json::Value(Json::arrayValue);
        for (unsigned i = 0; i < sz; ++i) {
            int k = symx_choose("elem", i == 0 ? 7 : 3);
            j[i] = scalar(k);
            if (isString ? k >= 5 : (k == 2 || k >= 5)) goodElems = false;
        }
    }
    bool isArr = kind == 5 || kind >= 7;
    std::vector<T> target(n);
    T raw[2];
    bool jsonErr = false, err = false;
    try {
        if (symx_choose("arr", 2)) { json2array(j, raw, n); }
        else { if (!isArr && n == 0) { symx_reach("end"); return; } json2vector(j, target, n); }
    } catch (JsonException& e) { jsonErr = true; symx_assert(std::strlen(e.what()) > 10, "a JsonException carries a message"); }
    catch (std::exception&) { err = true; }
    if (!isArr) symx_assert(jsonErr, "a node that is not an array is refused with a JsonException");
    else if (sz != n && n > 0) symx_assert(jsonErr, "an array of the wrong size is refused with a JsonException");
    else if (sz == n) symx_assert(goodElems ? !jsonErr && !err : err || jsonErr, "an array is accepted exactly when its elements convert");
    symx_assert(target.size() == n, "the target keeps its size");
    if (jsonErr) symx_reach("refused");
    symx_reach("end");
}
//@ H_json_any_float mode=exact need=end,refused
extern "C" void H_json_any_float() { any_node<float>(false); symx_no_leak(); }
//@ H_json_any_double mode=exact need=end,refused
extern "C" void H_json_any_double() { any_node<double>(false); symx_no_leak(); }
//@ H_json_any_string mode=exact need=end,refused
extern "C" void H_json_any_string() { any_node<std::string>(true); symx_no_leak(); }

// the exception object itself
//@ H_json_exception mode=exact
extern "C" void H_json_exception() {
    typedef JsonException::JsonErrorType E;
    int k = symx_choose("k", 3);
    E t = k == 0 ? E::JsonMissingNode : k == 1 ? E::JsonTypeError : E::JsonValueError;
    const char* word = k == 0 ? "Missing" : k == 1 ? "Type" : "Value";
    JsonException a(t, "inner");
    JsonException b(a, "outer");
    JsonException c(E::JsonTypeError);
    c = b;
    JsonException const& e = symx_choose("which", 2) ? b : c;
    std::string m = e.what();
    symx_assert(m.find(word) != std::string::npos, "the message names the kind of error");
    symx_assert(m.find("inner") != std::string::npos && m.find("outer") != std::string::npos, "the message names the nodes");
    symx_reach("end");
    symx_no_leak();
}
