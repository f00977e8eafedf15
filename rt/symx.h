// Harness interface.  In the symbolic executor these are primitives; in the
// native replay build they are defined by rt/native.cpp.
#pragma once
#include <cstddef>
extern "C" {
double symx_double(const char* name, double lo, double hi);  // any finite value in [lo,hi]
float symx_float(const char* name, float lo, float hi);
double symx_any_double(const char* name);  // any bit pattern (exact mode)
float symx_any_float(const char* name);
int symx_int(const char* name, int lo, int hi);
int symx_number(const char* name, int lo, int hi);  // an integer that is only used as a real number
int symx_choose(const char* name, int n);  // 0..n-1, all explored
void symx_assume(int c);
void symx_assert(int c, const char* msg);
void symx_close(double a, double b, const char* msg);  // equality (real mode), tolerance natively
void symx_fail(const char* msg);
void symx_reach(const char* label);  // vacuity witness
int symx_exact();
int symx_native();
void symx_no_leak();
unsigned long symx_live();
void symx_dbg(const char* n, double v);
void symx_yield();
}
