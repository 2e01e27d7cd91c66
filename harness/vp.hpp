// Harness interface: symbolic in the engine, read from a replay file natively.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
extern "C" {
double vp_real(const char* name);
long vp_int(const char* name, long lo, long hi);
int vp_choice(const char* name, int n);
long vp_param(const char* name, long deflt);
void vp_assume(int c);
void vp_assert(int c, const char* label);
void vp_eq(double a, double b, const char* label);
void vp_le(double a, double b, const char* label);
void vp_cover(const char* label);
void vp_fail(const char* label);
void vp_stop();
double vp_uf1(const char* f, double);
double vp_uf2(const char* f, double, double);
double vp_uf3(const char* f, double, double, double);
double vp_uf4(const char* f, double, double, double, double);
double vp_uf5(const char* f, double, double, double, double, double);
double vp_uf6(const char* f, double, double, double, double, double, double);
double vp_sel(int c, double a, double b); // c ? a : b, never a branch
long vp_live(const void* p);
void vp_print_real(const char* n, double x);
void vp_print_int(const char* n, long x);
}
#define VP_ENTRY extern "C" __attribute__((noinline, visibility("default"))) void
