// Native side of the harness interface: replays one model against the real code.
// VP_MODEL: file of "name value" lines; VP_PARAMS: "k=v,k=v".
#include "vp.h"
#include <cstdio>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
static std::map<std::string, double> &model() { static std::map<std::string, double> m; static bool init = false; if (!init) { init = true; if (const char *f = getenv("VP_MODEL")) { std::ifstream i(f); std::string n; std::string v; while (i >> n >> v) m[n] = strtod(v.c_str(), nullptr); } } return m; }
static double get(const std::string &n, double lo, double hi) { auto &m = model(); auto it = m.find(n); double v = it == m.end() ? (lo <= 0 && hi >= 0 ? 0.0 : lo) : it->second; if (v < lo) v = lo; if (v > hi) v = hi; return v; }
static void lab(const char *l, int i, const std::string &d) { std::string s = l; if (i != -1) s += "[" + std::to_string(i) + "]"; fprintf(stdout, "VPFAIL %s\t%s\n", s.c_str(), d.c_str()); fflush(stdout); }
extern "C" {
double vp_real(const char *n, double lo, double hi) { return get(n, lo, hi); }
double vp_real_i(const char *n, int i, double lo, double hi) { return get(std::string(n) + "_" + std::to_string(i), lo, hi); }
int vp_int(const char *n, int lo, int hi) { return (int)llround(get(n, lo, hi)); }
int vp_choose(const char *n, int lo, int hi) { return (int)llround(get(n, lo, hi)); }
int vp_param(const char *n, int d) { const char *p = getenv("VP_PARAMS"); std::string s = p ? p : "", k = std::string(n) + "="; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (t.compare(0, k.size(), k) == 0) return atoi(t.c_str() + k.size()); return d; }
int vp_symbolic(void) { return 0; }
void vp_assume(bool c) { if (!c) { fprintf(stdout, "VPASSUME\n"); fflush(stdout); _exit(77); } }
void vp_check(bool c, const char *l, int i) { if (!c) lab(l, i, "false"); }
void vp_check_near(double a, double b, double tol, const char *l, int i) { double d = std::fabs(a - b); if (!(d <= tol + 1e-9 * std::fmax(std::fabs(a), std::fabs(b)))) { char t[200]; snprintf(t, 200, "got %.17g expected %.17g (|diff| %.3g, allowed %.3g)", a, b, d, tol); lab(l, i, t); } }
void vp_check_defined(double a, const char *l, int i) { if (!std::isfinite(a)) lab(l, i, "not finite"); }
void vp_check_defined_i(int, const char *, int) {}
void vp_observe(const char *n, double v) { fprintf(stdout, "VPOBS %s %.17g\n", n, v); fflush(stdout); }
void vp_cover(const char *l) { fprintf(stdout, "VPCOVER %s\n", l); fflush(stdout); }
static bool rd(const char *f, std::vector<std::string> &t) { std::ifstream i(f); if (!i) return false; std::string w; while (i >> w) t.push_back(w); return true; }
int vp_file_exists(const char *f) { return access(f, F_OK) == 0; }
int vp_tok_count(const char *f) { std::vector<std::string> t; rd(f, t); return (int)t.size(); }
static std::string tok(const char *f, int i) { std::vector<std::string> t; rd(f, t); return i >= 0 && i < (int)t.size() ? t[i] : std::string(); }
int vp_tok_is(const char *f, int i, const char *s) { return tok(f, i) == s; }
int vp_tok_isnum(const char *f, int i) { std::string s = tok(f, i); if (s.empty()) return 0; char *e; strtod(s.c_str(), &e); return !*e; }
double vp_tok_double(const char *f, int i) { std::string s = tok(f, i); char *e; double d = strtod(s.c_str(), &e); return s.empty() || *e ? NAN : d; }
int vp_tok_prec(const char *f, int i) { std::string s = tok(f, i); int n = 0; for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '0' && c <= '9') n++; } return n; }
int vp_tok_find(const char *f, int st, const char *w) { std::vector<std::string> t; rd(f, t); for (int i = st; i < (int)t.size(); i++) if (t[i].find(w) != std::string::npos) return i; return -1; }
void vp_file_clear(const char *f) { unlink(f); }
void vp_dump(const char *n, double v) { fprintf(stderr, "DUMP %s = %.17g\n", n, v); }
}
// ---- heap accounting: blocks obtained by code under test are counted and filled with garbage
#ifndef VP_NO_HEAP
#include <dlfcn.h>
static long g_live = 0;
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
static bool counted(void *ra) { Dl_info d; return dladdr(ra, &d) && d.dli_fname && !strstr(d.dli_fname, ".so"); }
struct Hdr { size_t sz; unsigned magic, cnt; };
static void *al(size_t n, bool cnt, bool zero) { Hdr *h = (Hdr *)__libc_malloc(n + sizeof(Hdr)); if (!h) return nullptr; h->sz = n; h->magic = 0xC0FFEE11; h->cnt = cnt; if (cnt) g_live++; void *p = h + 1; memset(p, 0, zero ? n : 0); if (!zero) { unsigned long long *q = (unsigned long long *)p; double g = -3.1415926e+77; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((char *)p + i, &g, 8); (void)q; } return p; }
void *malloc(size_t n) { return al(n, counted(__builtin_return_address(0)), false); }
void *calloc(size_t a, size_t b) { return al(a * b, counted(__builtin_return_address(0)), true); }
void free(void *p) { if (!p) return; Hdr *h = (Hdr *)p - 1; if (h->magic != 0xC0FFEE11) { fprintf(stdout, "VPFAIL memory: invalid free\tinvalid or double free\n"); fflush(stdout); _exit(78); } h->magic = 0xDEADDEAD; if (h->cnt) g_live--; for (size_t i = 0; i + 8 <= h->sz; i += 8) { double g = 2.71828e+88; memcpy((char *)p + i, &g, 8); } __libc_free(h); }
void *realloc(void *p, size_t n) { if (!p) return al(n, counted(__builtin_return_address(0)), false); Hdr *h = (Hdr *)p - 1; void *q = al(n, h->cnt, false); memcpy(q, p, h->sz < n ? h->sz : n); free(p); return q; }
}
void *operator new(size_t n) { return al(n, counted(__builtin_return_address(0)), false); }
void *operator new[](size_t n) { return al(n, counted(__builtin_return_address(0)), false); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" int vp_heap_live(void) { return (int)g_live; }
#else
extern "C" int vp_heap_live(void) { return 0; }
#endif
