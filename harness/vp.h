// Harness interface. In the symbolic build these are intrinsics of engine/symx.cpp;
// in the native replay build they are implemented by vp_native.cpp.
#pragma once
#include <cstdlib>
#include <cstring>
#include <cmath>
extern "C" {
double vp_real(const char *name, double lo, double hi);
double vp_real_i(const char *name, int i, double lo, double hi);
int vp_int(const char *name, int lo, int hi);
int vp_choose(const char *name, int lo, int hi);
int vp_param(const char *name, int def);
int vp_symbolic(void);
void vp_assume(bool c);
void vp_check(bool c, const char *label, int idx);
void vp_check_near(double a, double b, double tol, const char *label, int idx);
void vp_check_defined(double a, const char *label, int idx);
void vp_check_defined_i(int a, const char *label, int idx);
void vp_observe(const char *name, double v);
void vp_cover(const char *label);
int vp_heap_live(void);
int vp_file_exists(const char *f);
int vp_tok_count(const char *f);
int vp_tok_is(const char *f, int i, const char *s);
int vp_tok_isnum(const char *f, int i);
double vp_tok_double(const char *f, int i);
int vp_tok_prec(const char *f, int i);
int vp_tok_find(const char *f, int start, const char *sub);
void vp_file_clear(const char *f);
void vp_dump(const char *name, double v);
}
