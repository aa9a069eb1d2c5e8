// Hash-consed Laurent polynomials over symbolic atoms with exact rational coefficients.
// Atoms: BASE (symbolic input), UNIN (uninitialised memory), RAD (sqrt of a squarefree integer),
//        INV(q) (q*i = 1), SQRTA(p) (s*s = p, s >= 0).
#pragma once
#include "q.h"
#include <gmpxx.h>
#include <vector>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include <cassert>
#include <cstdio>

struct Poly;
typedef const Poly *P;
typedef uint32_t MonoId;
typedef uint32_t AtomId;

struct Iv { double lo = -INFINITY, hi = INFINITY; };
static inline double dn(double x) { return std::isfinite(x) ? std::nextafter(x, -INFINITY) : x; }
static inline double up(double x) { return std::isfinite(x) ? std::nextafter(x, INFINITY) : x; }
static inline Iv iv_add(Iv a, Iv b) { return {dn(a.lo + b.lo), up(a.hi + b.hi)}; }
static inline double m0(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
static inline Iv iv_mul(Iv a, Iv b) {
    double v[4] = {m0(a.lo, b.lo), m0(a.lo, b.hi), m0(a.hi, b.lo), m0(a.hi, b.hi)};
    return {dn(*std::min_element(v, v + 4)), up(*std::max_element(v, v + 4))};
}
static inline Iv iv_inv(Iv a) { if (a.lo > 0 || a.hi < 0) return {dn(1 / a.hi), up(1 / a.lo)}; if (a.lo == 0 && a.hi > 0) return {dn(1 / a.hi), INFINITY}; return {}; }
static inline Iv iv_pow(Iv a, int e) {
    if (e < 0) return iv_inv(iv_pow(a, -e));
    if (e == 0) return {1, 1};
    if (e % 2 == 0) { double m = std::max(std::fabs(a.lo), std::fabs(a.hi)), l = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi)); return {std::max(0.0, dn(std::pow(l, e))), up(std::pow(m, e))}; }
    return {dn(std::pow(a.lo, e)), up(std::pow(a.hi, e))};
}

enum AK { A_BASE, A_UNIN, A_RAD, A_INV, A_SQRT, A_MOD };
struct Atom { AK k; std::string name; P arg = nullptr; Q lo, hi; bool bounded = false; bool isint = false; int64_t rad = 0; Iv iv; bool pos = false; /* strictly positive */ };
struct Term { MonoId m; Q c; };
struct Poly { std::vector<Term> t; size_t h; uint32_t id; Iv iv; bool has_unin; };
struct Mono { std::vector<std::pair<AtomId, int>> f; size_t h; bool has_unin; bool special; Iv iv; };

static std::deque<Atom> atoms;
static std::deque<Mono> monos;
struct MonoKey { const std::vector<std::pair<AtomId, int>> *f; size_t h; bool operator==(const MonoKey &o) const { return h == o.h && *f == *o.f; } };
struct MonoKeyH { size_t operator()(const MonoKey &k) const { return k.h; } };
static std::unordered_map<size_t, std::vector<MonoId>> mono_tab;
static std::unordered_map<size_t, std::vector<P>> poly_tab;
static uint32_t poly_count = 0;
struct MM { MonoId m; Q c; P extra; };
static std::unordered_map<uint64_t, MM> mm_cache;
static std::unordered_map<uint64_t, P> add_cache, mul_cache;

static MonoId mono_intern(std::vector<std::pair<AtomId, int>> f) {
    size_t h = 1469598103934665603ull;
    for (auto &x : f) { h = (h ^ x.first) * 1099511628211ull; h = (h ^ (size_t)(x.second + 1000)) * 1099511628211ull; }
    auto &v = mono_tab[h];
    for (MonoId m : v) if (monos[m].f == f) return m;
    Mono mo; mo.h = h; mo.has_unin = false; mo.special = false; mo.iv = {1, 1};
    for (auto &x : f) { if (atoms[x.first].k == A_UNIN) mo.has_unin = true; if (atoms[x.first].k != A_BASE && atoms[x.first].k != A_UNIN) mo.special = true; mo.iv = iv_mul(mo.iv, iv_pow(atoms[x.first].iv, x.second)); }
    mo.f = std::move(f);
    monos.push_back(std::move(mo)); v.push_back((MonoId)monos.size() - 1);
    return (MonoId)monos.size() - 1;
}
static MonoId M1() { static MonoId m = mono_intern({}); return m; }

static P poly_intern(std::vector<Term> &&t) {   // t sorted, merged, nonzero
    size_t h = 0xcbf29ce484222325ull;
    for (auto &x : t) { h = (h ^ x.m) * 0x100000001b3ull; h = (h ^ x.c.hash()) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    auto &v = poly_tab[h];
    for (P p : v) if (p->t.size() == t.size()) {
        bool eq = true;
        for (size_t i = 0; i < t.size() && eq; i++) eq = p->t[i].m == t[i].m && p->t[i].c == t[i].c;
        if (eq) return p;
    }
    Poly *p = new Poly; p->h = h; p->id = ++poly_count; p->has_unin = false; Iv s{0, 0};
    for (auto &x : t) { if (monos[x.m].has_unin) p->has_unin = true; double c = x.c.d(); s = iv_add(s, iv_mul({dn(c), up(c)}, monos[x.m].iv)); }
    if (t.empty()) s = {0, 0};
    p->iv = s; p->t = std::move(t); v.push_back(p); return p;
}
static P poly_make(std::vector<Term> &&t) {
    std::sort(t.begin(), t.end(), [](const Term &a, const Term &b) { return a.m < b.m; });
    std::vector<Term> r; r.reserve(t.size());
    for (auto &x : t) { if (!r.empty() && r.back().m == x.m) r.back().c = r.back().c + x.c; else { if (!r.empty() && r.back().c.zero()) r.pop_back(); r.push_back(std::move(x)); } }
    if (!r.empty() && r.back().c.zero()) r.pop_back();
    return poly_intern(std::move(r));
}
static P pc(const Q &c) { std::vector<Term> t; if (!c.zero()) t.push_back({M1(), c}); return poly_intern(std::move(t)); }
static P pmono(MonoId m, const Q &c = Q(1)) { std::vector<Term> t; if (!c.zero()) t.push_back({m, c}); return poly_intern(std::move(t)); }
static P patom(AtomId a, int e = 1) { return pmono(mono_intern({{a, e}})); }
static bool is_const(P p) { return p->t.empty() || (p->t.size() == 1 && p->t[0].m == M1()); }
static Q const_of(P p) { return p->t.empty() ? Q(0) : p->t[0].c; }
static P P0() { static P z = pc(Q(0)); return z; }
static P Pone() { static P z = pc(Q(1)); return z; }

static P padd(P a, P b);
static P pmul(P a, P b);
static P pinv(P q);
static P pscale(P a, const Q &c) { if (c.zero()) return P0(); if (c.one()) return a; std::vector<Term> t; t.reserve(a->t.size()); for (auto &x : a->t) t.push_back({x.m, x.c * c}); return poly_intern(std::move(t)); }
static P pneg(P a) { return pscale(a, Q(-1)); }
static P psub(P a, P b) { if (a == b) return P0(); return padd(a, pneg(b)); }
static P ppow(P a, int e) { P r = Pone(); while (e > 0) { if (e & 1) r = pmul(r, a); e >>= 1; if (e) a = pmul(a, a); } return r; }

static P padd(P a, P b) {
    if (a->t.empty()) return b; if (b->t.empty()) return a;
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | b->id;
    auto it = add_cache.find(key); if (it != add_cache.end()) return it->second;
    std::vector<Term> r; r.reserve(a->t.size() + b->t.size());
    size_t i = 0, j = 0;
    while (i < a->t.size() && j < b->t.size()) {
        if (a->t[i].m < b->t[j].m) r.push_back(a->t[i++]);
        else if (a->t[i].m > b->t[j].m) r.push_back(b->t[j++]);
        else { Q c = a->t[i].c + b->t[j].c; if (!c.zero()) r.push_back({a->t[i].m, c}); i++; j++; }
    }
    while (i < a->t.size()) r.push_back(a->t[i++]);
    while (j < b->t.size()) r.push_back(b->t[j++]);
    P p = poly_intern(std::move(r)); add_cache.emplace(key, p); return p;
}
static const MM &mono_mul(MonoId a, MonoId b) {
    if (a > b) std::swap(a, b);
    uint64_t key = ((uint64_t)a << 32) | b;
    auto it = mm_cache.find(key); if (it != mm_cache.end()) return it->second;
    std::vector<std::pair<AtomId, int>> f; Q c(1); P extra = nullptr;
    auto &x = monos[a].f; auto &y = monos[b].f; size_t i = 0, j = 0;
    std::vector<std::pair<AtomId, int>> red;
    auto put = [&](AtomId at, int e) {
        if (!e) return;
        if (atoms[at].k == A_RAD) {
            int k = (e >= 0) ? e / 2 : (e - 1) / 2; int r = e - 2 * k; if (k) c = c * Q(atoms[at].rad).pow(k); e = r;
        } else if (atoms[at].k == A_SQRT && (e >= 2 || e <= -2)) { int k = e / 2; red.push_back({at, k}); e -= 2 * k; }
        if (e) f.push_back({at, e});
    };
    while (i < x.size() && j < y.size()) { if (x[i].first < y[j].first) { put(x[i].first, x[i].second); i++; } else if (x[i].first > y[j].first) { put(y[j].first, y[j].second); j++; } else { put(x[i].first, x[i].second + y[j].second); i++; j++; } }
    for (; i < x.size(); i++) put(x[i].first, x[i].second);
    for (; j < y.size(); j++) put(y[j].first, y[j].second);
    MonoId m = mono_intern(std::move(f));
    if (!red.empty()) { extra = Pone(); for (auto &r : red) { P ar = atoms[r.first].arg; extra = pmul(extra, r.second > 0 ? ppow(ar, r.second) : ppow(pinv(ar), -r.second)); } }
    return mm_cache.emplace(key, MM{m, c, extra}).first->second;
}
static P pmul(P a, P b) {
    if (a->t.empty() || b->t.empty()) return P0();
    if (is_const(a)) return pscale(b, a->t[0].c);
    if (is_const(b)) return pscale(a, b->t[0].c);
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | b->id;
    auto it = mul_cache.find(key); if (it != mul_cache.end()) return it->second;
    std::vector<Term> r; r.reserve(a->t.size() * b->t.size()); P ex = nullptr;
    for (auto &x : a->t) for (auto &y : b->t) {
        MM mm = mono_mul(x.m, y.m); Q c = x.c * y.c * mm.c;
        if (mm.extra) { P e = pmul(mm.extra, pmono(mm.m, c)); ex = ex ? padd(ex, e) : e; }
        else r.push_back({mm.m, std::move(c)});
    }
    P p = poly_make(std::move(r)); if (ex) p = padd(p, ex);
    mul_cache.emplace(key, p); return p;
}

// ---------- structure helpers
static int expo(MonoId m, AtomId a) { for (auto &x : monos[m].f) if (x.first == a) return x.second; return 0; }
static void atoms_of(P p, std::set<AtomId> &s) { for (auto &t : p->t) for (auto &x : monos[t.m].f) s.insert(x.first); }
static void atoms_closure(P p, std::set<AtomId> &s) {
    std::set<AtomId> d; atoms_of(p, d);
    for (AtomId a : d) if (s.insert(a).second && atoms[a].arg) atoms_closure(atoms[a].arg, s);
}
static int sign_iv(P p) { if (p->t.empty()) return 0; if (p->iv.lo > 0) return 1; if (p->iv.hi < 0) return -1; return 2; /*unknown*/ }
static bool atom_pos(AtomId a) { return atoms[a].pos || atoms[a].iv.lo > 0; }
static bool atom_nonneg(AtomId a) { return atoms[a].pos || atoms[a].iv.lo >= 0 || atoms[a].k == A_SQRT || atoms[a].k == A_RAD; }

// lexicographic order, highest atom id most significant
static bool lex_less(MonoId a, MonoId b) {
    if (a == b) return false;
    auto &x = monos[a].f; auto &y = monos[b].f; int i = (int)x.size() - 1, j = (int)y.size() - 1;
    while (i >= 0 || j >= 0) {
        AtomId ax = i >= 0 ? x[i].first : 0, ay = j >= 0 ? y[j].first : 0; int ex, ey;
        if (i >= 0 && j >= 0 && ax == ay) { ex = x[i--].second; ey = y[j--].second; }
        else if (j < 0 || (i >= 0 && ax > ay)) { ex = x[i--].second; ey = 0; }
        else { ex = 0; ey = y[j--].second; }
        if (ex != ey) return ex < ey;
    }
    return false;
}
struct LexCmp { bool operator()(MonoId a, MonoId b) const { return lex_less(b, a); } };   // descending
// m / d as plain exponent vectors; false when a resulting exponent of an atom is negative
static bool mono_div(MonoId m, MonoId d, MonoId &out) {
    std::vector<std::pair<AtomId, int>> f; auto &x = monos[m].f; auto &y = monos[d].f; size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
        if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) f.push_back(x[i++]);
        else if (i >= x.size() || x[i].first > y[j].first) { if (y[j].second > 0) return false; f.push_back({y[j].first, -y[j].second}); j++; }
        else { int e = x[i].second - y[j].second; if (e < 0) return false; if (e) f.push_back({x[i].first, e}); i++; j++; }
    }
    out = mono_intern(std::move(f)); return true;
}
// content: p = c * m * rest, rest primitive with positive lex-leading coefficient, no monomial factor
static P primitive(P p, Q &c, MonoId &m) {
    std::map<AtomId, int> mn; bool first = true; Q g(0);
    for (auto &t : p->t) {
        if (first) { for (auto &x : monos[t.m].f) mn[x.first] = x.second; g = t.c.abs(); first = false; }
        else {
            g = Q::gcdpos(g, t.c.abs());
            std::set<AtomId> seen; for (auto &x : monos[t.m].f) { seen.insert(x.first); auto it = mn.find(x.first); if (it == mn.end()) { if (x.second < 0) mn[x.first] = x.second; } else if (x.second < it->second) it->second = x.second; }
            for (auto &kv : mn) if (!seen.count(kv.first) && kv.second > 0) kv.second = 0;
        }
    }
    // atoms with RAD: do not pull out unless in all terms (min exponent handles it)
    std::vector<std::pair<AtomId, int>> f, inv; for (auto &kv : mn) if (kv.second) f.push_back(kv);
    m = mono_intern(f);
    MonoId lead = p->t[0].m; Q lc = p->t[0].c; for (auto &t : p->t) if (lex_less(lead, t.m)) { lead = t.m; lc = t.c; }
    if (lc.sgn() < 0) g = -g; c = g;
    std::vector<Term> r; for (auto &t : p->t) {
        std::vector<std::pair<AtomId, int>> ff; std::map<AtomId, int> e; for (auto &x : monos[t.m].f) e[x.first] += x.second; for (auto &x : f) e[x.first] -= x.second;
        for (auto &kv : e) if (kv.second) ff.push_back(kv);
        r.push_back({mono_intern(std::move(ff)), t.c / g});
    }
    return poly_make(std::move(r));
}
static bool plain(P p) { for (auto &t : p->t) if (monos[t.m].special) return false; return true; }

static bool divexact(P N, P q, P &out) {
    if (N->t.empty()) { out = N; return true; }
    if (!plain(q) || N->t.size() < 1) return false;
    if (q->t.size() > 1 && N->t.size() < 2) return false;
    if ((double)N->t.size() * q->t.size() > 4e6) return false;
    MonoId lq = q->t[0].m, sq = lq; Q lqc = q->t[0].c;
    for (auto &t : q->t) { if (lex_less(lq, t.m)) { lq = t.m; lqc = t.c; } if (lex_less(t.m, sq)) sq = t.m; }
    MonoId lN = N->t[0].m, sN = lN; for (auto &t : N->t) { if (lex_less(lN, t.m)) lN = t.m; if (lex_less(t.m, sN)) sN = t.m; }
    MonoId tmp; if (!mono_div(lN, lq, tmp) || !mono_div(sN, sq, tmp)) return false;
    std::map<MonoId, Q, LexCmp> rem; for (auto &t : N->t) rem.emplace(t.m, t.c);
    std::vector<Term> quo; size_t steps = 0;
    while (!rem.empty()) {
        auto it = rem.begin(); MonoId d; if (!mono_div(it->first, lq, d)) return false;
        Q c = it->second / lqc; quo.push_back({d, c});
        for (auto &t : q->t) {
            const MM &mm = mono_mul(d, t.m); if (mm.extra) return false;
            Q v = c * t.c * mm.c; auto jt = rem.find(mm.m);
            if (jt == rem.end()) rem.emplace(mm.m, -v); else { jt->second = jt->second - v; if (jt->second.zero()) rem.erase(jt); }
        }
        if (++steps > 20000) return false;
    }
    out = poly_make(std::move(quo)); return true;
}

// bring INV atoms over a common denominator and cancel: newest first
static P pnormal(P p) {
    static std::unordered_map<P, P> cache;
    auto it = cache.find(p); if (it != cache.end()) return it->second;
    P p0 = p; std::set<AtomId> done;
    for (;;) {
        std::set<AtomId> s; atoms_of(p, s); AtomId pick = 0; bool found = false;
        for (auto r = s.rbegin(); r != s.rend(); ++r) if (atoms[*r].k == A_INV && !done.count(*r)) { pick = *r; found = true; break; }
        if (!found) break;
        done.insert(pick);
        int emax = 0; for (auto &t : p->t) emax = std::max(emax, expo(t.m, pick));
        P q = atoms[pick].arg; std::map<int, std::vector<Term>> g;
        for (auto &t : p->t) { int e = expo(t.m, pick); std::vector<std::pair<AtomId, int>> f; for (auto &x : monos[t.m].f) if (x.first != pick) f.push_back(x); g[e].push_back({mono_intern(std::move(f)), t.c}); }
        P N = P0(); for (auto &kv : g) N = padd(N, pmul(poly_make(std::move(kv.second)), ppow(q, emax - kv.first)));
        // cancel
        Q cc; MonoId cm; P pr = N; bool zero = N->t.empty(); int e = emax;
        if (!zero) { P prim = primitive(N, cc, cm); P o; bool any = false; while (e > 0 && divexact(prim, q, o)) { prim = o; e--; any = true; } if (any) pr = pmul(prim, pmono(cm, cc)); }
        p = zero ? P0() : (e ? pmul(pr, patom(pick, e)) : pr);
    }
    cache[p0] = p; if (p != p0) cache[p] = p; return p;
}
// atoms created for 1/q
static std::unordered_map<P, AtomId> inv_atoms, sqrt_atoms;
static std::vector<AtomId> inv_list;
static AtomId new_atom(Atom a) { atoms.push_back(a); return (AtomId)atoms.size() - 1; }

// remainder of an integer-valued polynomial modulo m > 0, in [0, m)
static std::map<std::pair<P, int64_t>, AtomId> mod_atoms;
static P pmod(P p, int64_t m) {
    if (is_const(p)) { Q q = const_of(p); if (q.isint() && q.small()) { int64_t x = q.num() % m; return pc(Q(x < 0 ? x + m : x)); } }
    if (p->iv.lo >= 0 && p->iv.hi < (double)m) return p;
    auto k = std::make_pair(p, m); auto it = mod_atoms.find(k); if (it != mod_atoms.end()) return patom(it->second);
    Atom a; a.k = A_MOD; a.arg = p; a.rad = m; a.isint = true; a.name = "mod" + std::to_string(atoms.size()); a.iv = {0.0, (double)(m - 1)}; AtomId id = new_atom(a); mod_atoms[k] = id; return patom(id);
}
static P pfloordiv(P p, int64_t m) { return pscale(psub(p, pmod(p, m)), Q(1, m)); }

static P inv_prim(P q) {      // q primitive, >1 term
    // trial division by known denominators
    P r = Pone(); P o;
    for (AtomId a : inv_list) { if (q->t.size() < 2) break; P arg = atoms[a].arg; while (arg != q && q->t.size() > 1 && divexact(q, arg, o)) { q = o; r = pmul(r, patom(a)); } }
    if (is_const(q)) return pscale(r, Q(1) / const_of(q));
    if (q->t.size() == 1) { std::vector<std::pair<AtomId, int>> f; for (auto &x : monos[q->t[0].m].f) f.push_back({x.first, -x.second}); return pmul(r, pmul(pmono(M1(), Q(1) / q->t[0].c), pmono(mono_intern(f)))); }
    auto it = inv_atoms.find(q); AtomId a;
    if (it != inv_atoms.end()) a = it->second;
    else { Atom at; at.k = A_INV; at.arg = q; at.iv = iv_inv(q->iv); at.pos = q->iv.lo > 0; at.name = "inv" + std::to_string(atoms.size()); a = new_atom(at); inv_atoms[q] = a; inv_list.push_back(a); }
    return pmul(r, patom(a));
}
static P pinv(P q) {
    q = pnormal(q); assert(!q->t.empty());
    // q = N * prod inv^e ; 1/q = prod arg^e / N
    Q c; MonoId m; P rest = primitive(q, c, m);
    P r = pc(Q(1) / c); std::vector<std::pair<AtomId, int>> f;
    for (auto &x : monos[m].f) {
        if (atoms[x.first].k == A_INV) r = pmul(r, ppow(atoms[x.first].arg, x.second));
        else if (atoms[x.first].k == A_RAD) r = pmul(r, pscale(patom(x.first), Q(1, atoms[x.first].rad)));
        else f.push_back({x.first, -x.second});
    }
    // re-intern through pmul so SQRT exponents stay reduced
    for (auto &x : f) r = pmul(r, patom(x.first, x.second));
    if (is_const(rest)) return pscale(r, Q(1) / const_of(rest));
    // rationalise a denominator a + b*sqrt(k) with a single RAD
    std::set<AtomId> s; atoms_of(rest, s); AtomId rad = 0; int nrad = 0; for (AtomId a : s) if (atoms[a].k == A_RAD) { rad = a; nrad++; }
    if (nrad >= 1) {
        std::vector<Term> A, B; for (auto &t : rest->t) (expo(t.m, rad) ? B : A).push_back(t);
        P conj = psub(poly_make(std::move(A)), poly_make(std::move(B)));
        return pmul(pmul(r, conj), pinv(pmul(rest, conj)));
    }
    return pmul(r, inv_prim(rest));
}
static bool psqrt_poly(P p, P &out);
static P rad_atom(int64_t k) {
    static std::map<int64_t, AtomId> m; if (k == 1) return Pone();
    auto it = m.find(k); if (it != m.end()) return patom(it->second);
    Atom a; a.k = A_RAD; a.rad = k; a.name = "rad" + std::to_string(k); double s = std::sqrt((double)k); a.iv = {dn(s), up(s)}; a.pos = true; AtomId id = new_atom(a); m[k] = id; return patom(id);
}
// sqrt of positive rational as c * sqrt(squarefree); false if factoring is out of reach
static bool sqrt_const(const Q &v, P &out) {
    Q r; if (v.perfect_sqrt(r)) { out = pc(r); return true; }
    mpq_t q; mpq_init(q); v.get(q); mpz_t n; mpz_init(n); mpz_mul(n, mpq_numref(q), mpq_denref(q));   // sqrt(n)/den
    mpz_t den; mpz_init_set(den, mpq_denref(q)); mpz_t sq; mpz_init_set_ui(sq, 1); int64_t free_ = 1; bool ok = true; P radp = Pone();
    for (unsigned long pr = 2; pr < 2000; pr++) { int e = 0; while (mpz_divisible_ui_p(n, pr)) { mpz_divexact_ui(n, n, pr); e++; } for (int i = 0; i < e / 2; i++) mpz_mul_ui(sq, sq, pr); if (e & 1) { radp = pmul(radp, rad_atom((int64_t)pr)); (void)free_; } }
    if (mpz_cmp_ui(n, 1) != 0) { if (mpz_perfect_square_p(n)) { mpz_sqrt(n, n); mpz_mul(sq, sq, n); } else ok = false; }
    if (ok) { mpq_t f; mpq_init(f); mpz_set(mpq_numref(f), sq); mpz_set(mpq_denref(f), den); mpq_canonicalize(f); out = pscale(radp, Q::from_mpq(f)); mpq_clear(f); }
    mpq_clear(q); mpz_clear(n); mpz_clear(den); mpz_clear(sq); return ok;
}
// polynomial square root (exact), out up to sign
static bool psqrt_poly(P p, P &out) {
    if (!plain(p) || p->t.size() > 400) return false;
    std::map<MonoId, Q, LexCmp> rem; for (auto &t : p->t) rem.emplace(t.m, t.c);
    MonoId lm = rem.begin()->first; Q lc = rem.begin()->second, lr; if (!lc.perfect_sqrt(lr)) return false;
    std::vector<std::pair<AtomId, int>> f; for (auto &x : monos[lm].f) { if (x.second % 2) return false; f.push_back({x.first, x.second / 2}); }
    MonoId sm = mono_intern(f); std::vector<Term> r{{sm, lr}}; rem.erase(rem.begin());
    int steps = 0;
    while (!rem.empty()) {
        if (++steps > 60) return false;
        MonoId d; if (!mono_div(rem.begin()->first, sm, d)) return false;
        Q c = rem.begin()->second / (lr + lr);
        // subtract 2*c*d*r + (c d)^2
        auto sub = [&](MonoId m, const Q &v) { auto it = rem.find(m); if (it == rem.end()) rem.emplace(m, -v); else { it->second = it->second - v; if (it->second.zero()) rem.erase(it); } };
        for (auto &t : r) { MM mm = mono_mul(d, t.m); if (mm.extra) return false; sub(mm.m, c * t.c * mm.c * Q(2)); }
        MM mm = mono_mul(d, d); if (mm.extra) return false; sub(mm.m, c * c * mm.c);
        r.push_back({d, c});
    }
    out = poly_make(std::move(r)); return true;
}
// sqrt(p): returns value*|absarg| where absarg (may be null) still needs |.|
static P psqrt(P p, P &absarg) {
    absarg = nullptr; p = pnormal(p); if (p->t.empty()) return P0();
    Q c; MonoId m; P rest = primitive(p, c, m);
    if (c.sgn() < 0) { c = -c; rest = pneg(rest); }
    P outp = Pone(); P keep = Pone(); P ab = nullptr;
    for (auto &x : monos[m].f) {
        int e = x.second; int k = e >= 0 ? e / 2 : -((-e + 1) / 2); int r = e - 2 * k;   // r in {0,1}
        AtomId a = x.first; P half;
        half = k >= 0 ? ppow(patom(a), k) : (atoms[a].k == A_INV ? Pone() : ppow(patom(a, -1), -k));
        if (k) { if (atom_nonneg(a) || k % 2 == 0) outp = pmul(outp, half); else ab = ab ? pmul(ab, half) : half; }
        if (r) keep = pmul(keep, patom(a));
    }
    P cs; bool okc = sqrt_const(c, cs);
    if (okc) outp = pmul(outp, cs); else keep = pscale(keep, c);
    P sr;
    if (!is_const(rest)) { if (psqrt_poly(rest, sr)) { int sg = sign_iv(sr); if (sg == 1) outp = pmul(outp, sr); else if (sg == -1) outp = pmul(outp, pneg(sr)); else ab = ab ? pmul(ab, sr) : sr; } else keep = pmul(keep, rest); }
    else if (const_of(rest).sgn() < 0) keep = pneg(keep);
    if (ab) { int sg = sign_iv(ab); if (sg == 1) outp = pmul(outp, ab); else if (sg == -1) outp = pmul(outp, pneg(ab)); else absarg = ab; }
    if (keep == Pone()) return outp;
    auto it = sqrt_atoms.find(keep); AtomId a;
    if (it != sqrt_atoms.end()) a = it->second;
    else { Atom at; at.k = A_SQRT; at.arg = keep; at.name = "sqrt" + std::to_string(atoms.size()); at.iv = {keep->iv.lo > 0 ? dn(std::sqrt(keep->iv.lo)) : 0.0, keep->iv.hi > 0 ? up(std::sqrt(keep->iv.hi)) : INFINITY}; at.pos = keep->iv.lo > 0; a = new_atom(at); sqrt_atoms[keep] = a; }
    return pmul(outp, patom(a));
}
// clear every denominator. eq: only zero-ness must be kept; otherwise the sign is kept.
static P pclear(P p, bool eq) {
    p = pnormal(p);
    for (int guard = 0; guard < 200; guard++) {
        std::map<AtomId, std::pair<int, int>> ex; // min, max
        for (auto &t : p->t) for (auto &x : monos[t.m].f) { auto it = ex.find(x.first); if (it == ex.end()) ex[x.first] = {std::min(0, x.second), std::max(0, x.second)}; else { it->second.first = std::min(it->second.first, x.second); it->second.second = std::max(it->second.second, x.second); } }
        bool ch = false;
        for (auto r = ex.rbegin(); r != ex.rend(); ++r) {
            AtomId a = r->first; int mn = r->second.first, mx = r->second.second;
            if (atoms[a].k == A_INV && mx > 0) {
                // p = sum N_e i^e : multiply by q^mx
                P q = atoms[a].arg; int e = mx; std::map<int, std::vector<Term>> g;
                for (auto &t : p->t) { int k = expo(t.m, a); std::vector<std::pair<AtomId, int>> f; for (auto &x : monos[t.m].f) if (x.first != a) f.push_back(x); g[k].push_back({mono_intern(std::move(f)), t.c}); }
                int sg = sign_iv(q); bool neg = false; int E = e;
                if (!eq) { if (sg == 2 && (e & 1)) E = e + 1; if (sg == -1 && (e & 1)) neg = true; }
                P N = P0(); for (auto &kv : g) N = padd(N, pmul(poly_make(std::move(kv.second)), ppow(q, E - kv.first)));
                p = neg ? pneg(N) : N; ch = true; break;
            }
            if (mn < 0) { int e = -mn; if (!eq && !atom_nonneg(a) && (e & 1)) { if (atoms[a].iv.hi <= 0) p = pneg(p); else e++; } P mul = Pone(); for (int i = 0; i < e; i++) { P nx = patom(a); mul = (atoms[a].k == A_SQRT) ? nx : pmul(mul, nx); } p = pmul(p, mul); ch = true; break; }
        }
        if (!ch) break;
    }
    if (p->t.empty()) return p;
    // strip positive content (and, for equalities, non-zero monomial factors known non-zero)
    Q c; MonoId m; P rest = primitive(p, c, m); P r = c.sgn() < 0 && !eq ? pneg(rest) : rest;
    for (auto &x : monos[m].f) { if (atom_pos(x.first)) continue; r = pmul(r, patom(x.first, x.second)); }
    return r;
}
