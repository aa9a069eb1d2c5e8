// Exact rationals: int64 fast path, GMP when it overflows.
#pragma once
#include <gmp.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <numeric>
#include <functional>

class Q {
    int64_t n_ = 0, d_ = 1;
    __mpq_struct *b_ = nullptr;          // when set, the value lives here
    typedef __int128 i128;
    static i128 ab(i128 x) { return x < 0 ? -x : x; }
    static i128 g128(i128 a, i128 b) { a = ab(a); b = ab(b); while (b) { i128 t = a % b; a = b; b = t; } return a; }
    static bool fits(i128 x) { return x > -(((i128)1) << 62) && x < (((i128)1) << 62); }
    void clr() { if (b_) { mpq_clear(b_); free(b_); b_ = nullptr; } }
    static void set_i128(mpz_t z, i128 v) {
        bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
        mpz_set_ui(z, (unsigned long)(u >> 64)); mpz_mul_2exp(z, z, 64);
        mpz_t lo; mpz_init_set_ui(lo, (unsigned long)u); mpz_add(z, z, lo); mpz_clear(lo);
        if (neg) mpz_neg(z, z);
    }
    void from128(i128 n, i128 d) {       // d>0
        i128 g = g128(n, d); if (g > 1) { n /= g; d /= g; }
        if (fits(n) && fits(d)) { n_ = (int64_t)n; d_ = (int64_t)d; return; }
        b_ = (__mpq_struct *)malloc(sizeof(__mpq_struct)); mpq_init(b_);
        set_i128(mpq_numref(b_), n); set_i128(mpq_denref(b_), d);
    }
    void shrink() {
        if (!b_) return;
        if (mpz_sizeinbase(mpq_numref(b_), 2) <= 61 && mpz_sizeinbase(mpq_denref(b_), 2) <= 61) {
            n_ = mpz_get_si(mpq_numref(b_)); d_ = mpz_get_si(mpq_denref(b_)); clr();
        }
    }
public:
    Q() {}
    Q(int64_t v) : n_(v), d_(1) { if (!fits(v)) { from128((i128)v, 1); } }
    Q(int v) : n_(v), d_(1) {}
    Q(int64_t n, int64_t d) { i128 N = n, D = d; if (D < 0) { N = -N; D = -D; } from128(N, D); }
    Q(const Q &o) : n_(o.n_), d_(o.d_) { if (o.b_) { b_ = (__mpq_struct *)malloc(sizeof(__mpq_struct)); mpq_init(b_); mpq_set(b_, o.b_); } }
    Q(Q &&o) noexcept : n_(o.n_), d_(o.d_), b_(o.b_) { o.b_ = nullptr; o.n_ = 0; o.d_ = 1; }
    Q &operator=(const Q &o) { if (this != &o) { Q t(o); *this = std::move(t); } return *this; }
    Q &operator=(Q &&o) noexcept { if (this != &o) { clr(); n_ = o.n_; d_ = o.d_; b_ = o.b_; o.b_ = nullptr; o.n_ = 0; o.d_ = 1; } return *this; }
    ~Q() { clr(); }
    static Q from_mpq(mpq_srcptr q) { Q r; r.b_ = (__mpq_struct *)malloc(sizeof(__mpq_struct)); mpq_init(r.b_); mpq_set(r.b_, q); r.shrink(); return r; }
    void get(mpq_ptr q) const { if (b_) mpq_set(q, b_); else { mpz_set_si(mpq_numref(q), n_); mpz_set_si(mpq_denref(q), d_); } }
    static Q exact(double x) { mpq_t q; mpq_init(q); mpq_set_d(q, x); Q r = from_mpq(q); mpq_clear(q); return r; }
    static Q parse(const std::string &s) {          // "a/b" or "a" or decimal "a.b"
        size_t dot = s.find('.'); std::string t = s; long k = 0;
        size_t e = t.find_first_of("eE"); 
        if (e != std::string::npos && t.find('/') == std::string::npos) { k = -atol(t.c_str() + e + 1); t = t.substr(0, e); dot = t.find('.'); }
        if (dot != std::string::npos) { k += (long)(t.size() - dot - 1); t.erase(dot, 1); }
        if (!t.empty() && t[0] == '+') t.erase(0, 1);
        mpq_t q; mpq_init(q); mpq_set_str(q, t.c_str(), 10); mpq_canonicalize(q);
        if (k) { mpz_t p; mpz_init(p); mpz_ui_pow_ui(p, 10, labs(k)); if (k > 0) mpz_mul(mpq_denref(q), mpq_denref(q), p); else mpz_mul(mpq_numref(q), mpq_numref(q), p); mpz_clear(p); mpq_canonicalize(q); }
        Q r = from_mpq(q); mpq_clear(q); return r;
    }
    bool zero() const { return !b_ && n_ == 0; }
    bool one() const { return !b_ && n_ == 1 && d_ == 1; }
    bool isint() const { return b_ ? mpz_cmp_ui(mpq_denref(b_), 1) == 0 : d_ == 1; }
    bool small() const { return !b_; }
    int64_t num() const { return n_; }
    int64_t den() const { return d_; }
    int sgn() const { return b_ ? mpq_sgn(b_) : (n_ > 0) - (n_ < 0); }
    size_t bits() const { return b_ ? mpz_sizeinbase(mpq_numref(b_), 2) + mpz_sizeinbase(mpq_denref(b_), 2) : 64; }
    Q operator-() const { Q r(*this); if (r.b_) mpq_neg(r.b_, r.b_); else r.n_ = -r.n_; return r; }
    friend Q operator+(const Q &a, const Q &b) {
        if (!a.b_ && !b.b_) { Q r;
            if (a.d_ == b.d_) { r.from128((i128)a.n_ + b.n_, a.d_); return r; }
            i128 x = (i128)a.n_ * b.d_, y = (i128)b.n_ * a.d_, s;
            if (!__builtin_add_overflow(x, y, &s)) { r.from128(s, (i128)a.d_ * b.d_); return r; } }
        return big(a, b, 0);
    }
    friend Q operator-(const Q &a, const Q &b) { return a + (-b); }
    friend Q operator*(const Q &a, const Q &b) {
        if (!a.b_ && !b.b_) { Q r; if (a.one()) return b; if (b.one()) return a; r.from128((i128)a.n_ * b.n_, (i128)a.d_ * b.d_); return r; }
        return big(a, b, 1);
    }
    friend Q operator/(const Q &a, const Q &b) {
        if (!a.b_ && !b.b_) { Q r; i128 n = (i128)a.n_ * b.d_, d = (i128)a.d_ * b.n_; if (d < 0) { n = -n; d = -d; } r.from128(n, d); return r; }
        return big(a, b, 2);
    }
    static Q big(const Q &a, const Q &b, int op) {
        mpq_t x, y; mpq_init(x); mpq_init(y); a.get(x); b.get(y);
        if (op == 0) mpq_add(x, x, y); else if (op == 1) mpq_mul(x, x, y); else mpq_div(x, x, y);
        Q r = from_mpq(x); mpq_clear(x); mpq_clear(y); return r;
    }
    friend bool operator==(const Q &a, const Q &b) {
        if (!a.b_ && !b.b_) return a.n_ == b.n_ && a.d_ == b.d_;
        if (!a.b_ || !b.b_) return false;      // canonical: big only when it does not fit
        return mpq_equal(a.b_, b.b_);
    }
    friend bool operator!=(const Q &a, const Q &b) { return !(a == b); }
    friend bool operator<(const Q &a, const Q &b) { return (a - b).sgn() < 0; }
    Q pow(int e) const { Q r(1), x(*this); if (e < 0) { x = Q(1) / x; e = -e; } while (e) { if (e & 1) r = r * x; x = x * x; e >>= 1; } return r; }
    Q abs() const { return sgn() < 0 ? -*this : *this; }
    double d() const { if (b_) return mpq_get_d(b_); return (double)n_ / (double)d_; }
    size_t hash() const { if (b_) { size_t h = mpz_get_ui(mpq_numref(b_)) * 0x9E3779B97F4A7C15ull ^ mpz_get_ui(mpq_denref(b_)); return h + mpq_sgn(b_); } return (size_t)n_ * 0x9E3779B97F4A7C15ull + (size_t)d_ * 0xC2B2AE3D27D4EB4Full; }
    std::string str() const { mpq_t q; mpq_init(q); get(q); char *s = mpq_get_str(nullptr, 10, q); std::string r(s); free(s); mpq_clear(q); return r; }
    std::string smt() const {
        mpq_t q; mpq_init(q); get(q); bool neg = mpq_sgn(q) < 0; if (neg) mpq_neg(q, q);
        char *a = mpz_get_str(nullptr, 10, mpq_numref(q)), *b = mpz_get_str(nullptr, 10, mpq_denref(q));
        std::string r; if (!strcmp(b, "1")) r = std::string(a) + ".0"; else r = std::string("(/ ") + a + ".0 " + b + ".0)";
        if (neg) r = "(- " + r + ")"; free(a); free(b); mpq_clear(q); return r;
    }
    // integer sqrt of numerator/denominator when both perfect squares
    bool perfect_sqrt(Q &out) const {
        if (sgn() < 0) return false;
        mpq_t q; mpq_init(q); get(q);
        bool ok = mpz_perfect_square_p(mpq_numref(q)) && mpz_perfect_square_p(mpq_denref(q));
        if (ok) { mpz_sqrt(mpq_numref(q), mpq_numref(q)); mpz_sqrt(mpq_denref(q), mpq_denref(q)); out = from_mpq(q); }
        mpq_clear(q); return ok;
    }
    static Q gcdpos(const Q &a, const Q &b) {        // gcd of numerators / lcm of denominators
        mpq_t x, y; mpq_init(x); mpq_init(y); a.get(x); b.get(y);
        mpz_gcd(mpq_numref(x), mpq_numref(x), mpq_numref(y)); mpz_lcm(mpq_denref(x), mpq_denref(x), mpq_denref(y)); mpq_canonicalize(x);
        Q r = from_mpq(x); mpq_clear(x); mpq_clear(y); return r;
    }
};
