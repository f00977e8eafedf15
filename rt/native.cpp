// Native side of the harness interface: runs a harness on concrete inputs
// against the real, natively compiled code.
//   prog HARNESS INPUTS [SEED]     INPUTS: lines "name value"
// exit 0: passed; 42: assertion failed; 77: assumption not met; otherwise crashed
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <random>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <dlfcn.h>
#include <cstdint>
#include <thread>

static std::map<std::string, std::string> in;
static std::map<std::string, int> cnt;
static unsigned long seed = 0;
static std::mt19937_64 rng;
static std::string uniq(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static double r01() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static double rnd(double lo, double hi) {
    switch (rng() % 4) {
    case 0: { double v = std::floor(lo + (hi - lo) * r01()); return v < lo ? lo : v; }
    case 1: { double v = std::floor((lo + (hi - lo) * r01()) * 8) / 8; return v < lo ? lo : v; }
    default: return lo + (hi - lo) * r01();
    }
}
static double fpIn(const char* name, double lo, double hi) {
    std::string n = uniq(name);
    auto it = in.find(n);
    if (seed && (rng() % 3 != 0 || it == in.end())) return rnd(lo, hi);
    double v = it == in.end() ? 0 : strtod(it->second.c_str(), nullptr);
    if (it == in.end()) v = lo <= 0 && 0 <= hi ? 0 : lo;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return v;
}
static double anyIn(const char* name) {
    std::string n = uniq(name);
    auto it = in.find(n);
    if (seed && (rng() % 3 != 0 || it == in.end())) return rnd(-10, 10);
    return it == in.end() ? 0 : strtod(it->second.c_str(), nullptr);
}
static long intIn(const char* name, long lo, long hi) {
    std::string n = uniq(name);
    auto it = in.find(n);
    long v = it == in.end() ? lo : (long)strtoull(it->second.c_str(), nullptr, 0);
    if (hi <= INT32_MAX) v = (int)v;
    return v < lo ? lo : v > hi ? hi : v;
}
static std::string reached;
static void finish(int rc) { printf("REACHED %s\n", reached.c_str()); fflush(stdout); _exit(rc); }
extern "C" {
double symx_double(const char* n, double lo, double hi) { return fpIn(n, lo, hi); }
float symx_float(const char* n, float lo, float hi) { float v = fpIn(n, lo, hi); return v < lo ? lo : v > hi ? hi : v; }
double symx_any_double(const char* n) { return anyIn(n); }
float symx_any_float(const char* n) { return anyIn(n); }
int symx_int(const char* n, int lo, int hi) { return intIn(n, lo, hi); }
int symx_number(const char* n, int lo, int hi) { return intIn(n, lo, hi); }
int symx_choose(const char* n, int k) { return intIn(n, 0, k - 1); }
void symx_assume(int c) { if (!c) finish(77); }
void symx_fail(const char* m) { printf("REPLAY-FAIL %s\n", m); finish(42); }
void symx_assert(int c, const char* m) { if (!c) symx_fail(m); }
void symx_close(double a, double b, const char* m) {
    if (a == b || (std::isnan(a) && std::isnan(b))) return;
    if (std::fabs(a - b) <= 5e-6 * (1 + std::fabs(b))) return;
    printf("got %.17g, expected %.17g\n", a, b);
    symx_fail(m);
}
void symx_reach(const char* l) { if (("," + reached + ",").find("," + std::string(l) + ",") == std::string::npos) reached += (reached.empty() ? "" : ",") + std::string(l); }
int symx_exact() { return 1; }
int symx_native() { return 1; }
int __attribute__((weak)) __lsan_do_recoverable_leak_check();
static bool wantLeak = false;
void symx_no_leak() { wantLeak = true; }
unsigned long symx_live() { return 0; }
void symx_dbg(const char* n, double v) { printf("dbg %s = %.17g\n", n, v); }
void symx_yield() { std::this_thread::yield(); }
int rand() {
    std::string n = uniq("rand");
    auto it = in.find(n);
    if (it == in.end()) return 1;
    return (int)strtoull(it->second.c_str(), nullptr, 0);
}
}
static void onTerminate() {
    printf("REPLAY-FAIL uncaught exception");
    try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); } catch (std::exception& e) { printf(" %s", typeid(e).name()); } catch (...) {}
    printf("\n");
    finish(42);
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    if (argc > 3) { seed = strtoul(argv[3], nullptr, 0); rng.seed(seed); }
    FILE* f = fopen(argv[2], "r");
    char n[256], v[256];
    if (f) { while (fscanf(f, "%255s %255s", n, v) == 2) in[n] = v; fclose(f); }
    std::set_terminate(onTerminate);
    void* h = dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    ((void (*)())h)();
    if (wantLeak && __lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check()) { printf("REPLAY-FAIL leak\n"); finish(42); }
    finish(0);
}
