// symx: a small symbolic executor for LLVM IR (clang -O0 + SROA) over real arithmetic.
// Path exploration by fork(); satisfiability by an external SMT solver (z3, SMT-LIB2 over a pipe).
#include "poly.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <chrono>
#include <random>
#include <sstream>
#include <iostream>
#include <unordered_set>
#include <unordered_map>

using namespace llvm;
typedef std::string Str;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ values
enum VK : uint8_t { V_UNDEF, V_INT, V_ISYM, V_BOOL, V_REAL, V_FX, V_AGG };
struct Bx;
struct Val { VK k = V_UNDEF; uint8_t w = 64; union { int64_t i; P p; const Bx *b; std::vector<Val> *a; }; Val() : i(0) {} };
enum { FX_NAN = 0, FX_PINF = 1, FX_NINF = 2 };
static Val vint(int64_t v, int w) { Val r; r.k = V_INT; r.w = w; if (w < 64) { v = (int64_t)((uint64_t)v << (64 - w)) >> (64 - w); } r.i = v; return r; }
static uint64_t uns(const Val &v) { return v.w >= 64 ? (uint64_t)v.i : ((uint64_t)v.i & ((1ull << v.w) - 1)); }
static Val vreal(P p) { Val r; r.k = V_REAL; r.p = p; return r; }
static Val vfx(int c) { Val r; r.k = V_FX; r.i = c; return r; }
static Val vptr(uint64_t a) { return vint((int64_t)a, 64); }

// atomic condition: sign of canonical polynomial c lies in mask (1 neg, 2 zero, 4 pos)
enum BK { B_T, B_F, B_ATOM, B_AND, B_OR };
struct Bx { BK k; P c; int mask; const Bx *l, *r; };
static const Bx BT{B_T, nullptr, 0, nullptr, nullptr}, BF{B_F, nullptr, 0, nullptr, nullptr};

// ------------------------------------------------------------------ options / result state
static Str opt_entry, opt_out, opt_z3 = "z3-new"; static std::map<Str, long> params; static double t_start, opt_timeout = 600; static unsigned opt_seed = 1; static int opt_qtimeout = 10000; static long opt_maxpaths = 100000; static int opt_jobs = 1; static Str opt_dump;
struct Stats { long instr = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, samples_used = 0, checks = 0, checks_ident = 0, checks_solver = 0, branches = 0; double solver_s = 0; };
static Stats st;
static std::set<Str> funcs, covers, stubs_hit, notes;
struct Fail { Str kind, label, detail, model; };
static std::vector<Fail> fails; static std::vector<Str> undecided;
static std::map<Str, int> fail_count;
struct Obs { Str name; Val v; }; static std::vector<Obs> observes;
struct PathEnd { Str kind, msg; };
static std::mt19937_64 rng;
static long depth_forks = 0; static Str path_id;
struct Shared { volatile long paths; volatile long jobs; }; static Shared *shm;

static Str jesc(const Str &s) { Str r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static Str psS(P p, size_t lim = 60) { Str s; size_t n = 0; for (auto &t : p->t) { if (n++ > lim) { s += " ..."; break; } s += (s.empty() ? "" : " + ") + t.c.str(); for (auto &x : monos[t.m].f) { s += "*" + atoms[x.first].name; if (x.second != 1) s += "^" + std::to_string(x.second); } } return s.empty() ? "0" : s; }

// ------------------------------------------------------------------ atoms for inputs
static std::map<Str, AtomId> base_by_name; static std::vector<AtomId> base_order;
static std::map<AtomId, Q> wit; static bool wit_ok = true;
static std::vector<const Bx *> pcs; static std::unordered_map<P, int> facts;
static const Bx *b_and(const Bx *a, const Bx *b), *b_or(const Bx *a, const Bx *b);

static Q rnd_q(AtomId a) {
    Atom &at = atoms[a];
    if (!at.bounded) { return Q((int64_t)(rng() % 41) - 20, 4); }
    if (at.isint) { Q span = at.hi - at.lo; int64_t n = span.small() ? span.num() : 1000; if (n > 1000 && rng() % 2) { int64_t lo = std::max<int64_t>(at.lo.small() ? at.lo.num() : -20, -20), hi = std::min<int64_t>(at.hi.small() ? at.hi.num() : 20, 20); if (lo <= hi) return Q(lo + (int64_t)(rng() % (uint64_t)(hi - lo + 1))); } return at.lo + Q((int64_t)(rng() % (uint64_t)(n + 1))); }
    int r = rng() % 8;
    if (r == 0 && at.lo.sgn() <= 0 && at.hi.sgn() >= 0) return Q(0);
    if (r == 1) { Q v = at.lo + (at.hi - at.lo) * Q((int64_t)(rng() % 65), 64) * Q(1, 1000); return v; }
    if (r == 2 && at.lo.sgn() < 0 && at.hi.sgn() > 0) { return ((rng() & 1) ? at.lo : at.hi) * Q((int64_t)(rng() % 65), 64000); }
    return at.lo + (at.hi - at.lo) * Q((int64_t)(rng() % 65), 64);
}
static AtomId base_atom(const Str &name, const Q &lo, const Q &hi, bool isint, bool bounded, AK k = A_BASE) {
    auto it = base_by_name.find(name); if (it != base_by_name.end()) return it->second;
    Atom a; a.k = k; a.name = name; a.lo = lo; a.hi = hi; a.bounded = bounded; a.isint = isint;
    if (bounded) { a.iv = {lo.isint() && lo.small() ? (double)lo.num() : dn(lo.d()), hi.isint() && hi.small() ? (double)hi.num() : up(hi.d())}; if (lo.zero()) a.iv.lo = 0; if (hi.zero()) a.iv.hi = 0; a.pos = lo.sgn() > 0; }
    AtomId id = new_atom(a); base_by_name[name] = id; base_order.push_back(id);
    wit[id] = rnd_q(id);
    return id;
}
// ---- numeric evaluation
typedef std::map<AtomId, Q> Asg;
struct Ev {
    const Asg &w; std::map<AtomId, mpf_class> v; bool bad = false; Ev(const Asg &a) : w(a) {}
    const mpf_class &at(AtomId a) {
        auto it = v.find(a); if (it != v.end()) return it->second;
        mpf_class r(0, 320); Atom &x = atoms[a];
        switch (x.k) {
        case A_BASE: case A_UNIN: { auto i2 = w.find(a); if (i2 != w.end()) { mpq_t q; mpq_init(q); i2->second.get(q); mpf_set_q(r.get_mpf_t(), q); mpq_clear(q); } break; }
        case A_RAD: { mpf_class k(0, 320); mpf_set_si(k.get_mpf_t(), x.rad); mpf_sqrt(r.get_mpf_t(), k.get_mpf_t()); break; }
        case A_INV: { mpf_class d = ev(x.arg); if (sgn(d) == 0 || abs(d) < mpf_class("1e-60")) { bad = true; r = 0; } else r = 1 / d; break; }
        case A_MOD: { mpf_class d = ev(x.arg), m(0, 320); mpf_set_si(m.get_mpf_t(), x.rad); r = d - m * floor(d / m + mpf_class("1e-40")); break; }
        case A_SQRT: { mpf_class d = ev(x.arg); if (sgn(d) < 0) { if (d < mpf_class("-1e-50")) bad = true; d = 0; } r = sqrt(d); break; }
        }
        return v.emplace(a, r).first->second;
    }
    mpf_class ev(P p) {
        mpf_class s(0, 320);
        for (auto &t : p->t) {
            mpf_class x(0, 320); mpq_t q; mpq_init(q); t.c.get(q); mpf_set_q(x.get_mpf_t(), q); mpq_clear(q);
            for (auto &f : monos[t.m].f) { mpf_class b = at(f.first); int e = f.second; if (e < 0) { if (sgn(b) == 0) { bad = true; return mpf_class(0, 320); } b = 1 / b; e = -e; } for (int i = 0; i < e; i++) x *= b; }
            s += x;
        }
        return s;
    }
    int sign(P p) { mpf_class x = ev(p); static mpf_class eps("1e-55"); if (abs(x) < eps) return 0; return sgn(x); }
};
static bool holds_atom(Ev &e, P c, int mask) { int s = e.sign(c); return mask & (s < 0 ? 1 : s == 0 ? 2 : 4); }
static bool holds(Ev &e, const Bx *b) {
    switch (b->k) { case B_T: return true; case B_F: return false; case B_ATOM: return holds_atom(e, b->c, b->mask); case B_AND: return holds(e, b->l) && holds(e, b->r); case B_OR: return holds(e, b->l) || holds(e, b->r); } return false;
}
static bool in_bounds(const Asg &w) { for (auto &kv : w) { Atom &a = atoms[kv.first]; if (a.bounded && (kv.second < a.lo || a.hi < kv.second)) return false; } return true; }

// ------------------------------------------------------------------ conditions
static bool const_atoms_only(P p) { std::set<AtomId> s; atoms_closure(p, s); for (AtomId a : s) if (atoms[a].k == A_BASE || atoms[a].k == A_UNIN) return false; return true; }
static int const_sign(P p) { Asg none; Ev e(none); return e.sign(p); }
static int flipmask(int m) { return ((m & 1) ? 4 : 0) | (m & 2) | ((m & 4) ? 1 : 0); }

static std::unordered_set<P> nonneg;            // values built as squares and sums/products of such
static bool is_nonneg(P p) { return p->iv.lo >= 0 || nonneg.count(p); }
static const Bx *mk_cmp(P p, int mask) {       // sign(p) in mask
    if (mask == 7) return &BT; if (mask == 0) return &BF;
    if (nonneg.count(p)) { mask &= ~1; if (!mask) return &BF; if ((mask | 1) == 7) return &BT; if (mask == 4) mask = 4; }
    bool eq = (mask == 2 || mask == 5);
    P c = pclear(p, eq);
    if (c->t.empty()) return (mask & 2) ? &BT : &BF;
    for (int guard = 0; guard < 6; guard++) {
        if (const_atoms_only(c)) { int s = const_sign(c); return (mask & (s < 0 ? 1 : s == 0 ? 2 : 4)) ? &BT : &BF; }
        // c = A*s + B with one SQRT atom s, A and B constant  -> compare squares
        AtomId sa = 0; int ns = 0; std::set<AtomId> as; atoms_of(c, as); bool other = false;
        for (AtomId a : as) { if (atoms[a].k == A_SQRT) { sa = a; ns++; } else if (atoms[a].k != A_RAD) other = true; }
        if (ns == 1 && !other) {
            std::vector<Term> A, B; for (auto &t : c->t) { if (expo(t.m, sa)) { std::vector<std::pair<AtomId, int>> f; for (auto &x : monos[t.m].f) if (x.first != sa) f.push_back(x); A.push_back({mono_intern(f), t.c}); } else B.push_back(t); }
            P PA = poly_make(std::move(A)), PB = poly_make(std::move(B)); int sA = const_sign(PA), sB = const_sign(PB);
            if (sA < 0) { PA = pneg(PA); PB = pneg(PB); sB = -sB; mask = flipmask(mask); }
            if (sB > 0) return (mask & 4) ? &BT : &BF;
            // A s - |B| : sign of A^2 arg - B^2
            if (PB->t.empty()) { if (mask == 5 || mask == 4) return mk_cmp(atoms[sa].arg, 4); if (mask == 2 || mask == 3) return mk_cmp(atoms[sa].arg, 3); if (mask & 2) return &BT; return &BF; }
            P d = psub(pmul(pmul(PA, PA), atoms[sa].arg), pmul(PB, PB)); c = pclear(d, eq);
            if (c->t.empty()) return (mask & 2) ? &BT : &BF; continue;
        }
        break;
    }
    Q cc; MonoId m; P pr = primitive(c, cc, m);
    if (m != M1()) pr = pmul(pr, pmono(m)); if (cc.sgn() < 0) { mask = flipmask(mask); }
    int pos = 7; if (pr->iv.lo > 0) pos = 4; else if (pr->iv.hi < 0) pos = 1; else { if (pr->iv.lo >= 0) pos &= ~1; if (pr->iv.hi <= 0) pos &= ~4; }
    // all terms structurally non-negative?
    { bool nn = true; for (auto &t : pr->t) { if (t.c.sgn() < 0) { nn = false; break; } for (auto &x : monos[t.m].f) if (x.second % 2 && !atom_nonneg(x.first)) { nn = false; break; } if (!nn) break; } if (nn) pos &= ~1; }
    { bool np = true; for (auto &t : pr->t) { if (t.c.sgn() > 0) { np = false; break; } for (auto &x : monos[t.m].f) if (x.second % 2 && !atom_nonneg(x.first)) { np = false; break; } if (!np) break; } if (np) pos &= ~4; }
    if (!(pos & mask)) return &BF; if (!(pos & ~mask)) return &BT;
    return new Bx{B_ATOM, pr, mask, nullptr, nullptr};
}
static const Bx *b_not(const Bx *b) {
    switch (b->k) { case B_T: return &BF; case B_F: return &BT; case B_ATOM: return new Bx{B_ATOM, b->c, 7 & ~b->mask, nullptr, nullptr}; case B_AND: return b_or(b_not(b->l), b_not(b->r)); case B_OR: return b_and(b_not(b->l), b_not(b->r)); } return b;
}
static const Bx *b_and(const Bx *a, const Bx *b) { if (a->k == B_F || b->k == B_F) return &BF; if (a->k == B_T) return b; if (b->k == B_T) return a; return new Bx{B_AND, nullptr, 0, a, b}; }
static const Bx *b_or(const Bx *a, const Bx *b) { if (a->k == B_T || b->k == B_T) return &BT; if (a->k == B_F) return b; if (b->k == B_F) return a; return new Bx{B_OR, nullptr, 0, a, b}; }
static void b_atoms(const Bx *b, std::set<AtomId> &s) { if (b->k == B_ATOM) atoms_closure(b->c, s); else if (b->k == B_AND || b->k == B_OR) { b_atoms(b->l, s); b_atoms(b->r, s); } }

// ------------------------------------------------------------------ solver
struct Z3 {
    int pid = 0, in = -1, out = -1; pid_t owner = 0; Str buf;
    void start() {
        if (in >= 0) { close(in); close(out); }
        int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
        pid = fork();
        if (!pid) { dup2(a[0], 0); dup2(b[1], 1); close(a[1]); close(b[0]); close(a[0]); close(b[1]); execlp(opt_z3.c_str(), opt_z3.c_str(), "-in", "-smt2", (char *)nullptr); _exit(127); }
        close(a[0]); close(b[1]); in = a[1]; out = b[0]; owner = getpid(); buf.clear(); fcntl(in, F_SETFD, FD_CLOEXEC); fcntl(out, F_SETFD, FD_CLOEXEC);
    }
    void stop() { if (pid && owner == getpid()) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } if (in >= 0) { close(in); close(out); } in = out = -1; pid = 0; }
    // returns text up to the marker, or "timeout"
    Str ask(const Str &q, double tmo) {
        if (owner != getpid() || !pid) { if (owner != getpid()) { if (in >= 0) { close(in); close(out); } in = out = -1; pid = 0; } start(); }
        Str s = q + "\n(echo \"@@END\")\n"; size_t o = 0;
        while (o < s.size()) { ssize_t k = write(in, s.data() + o, s.size() - o); if (k <= 0) { stop(); return "timeout"; } o += k; }
        double dl = now() + tmo;
        for (;;) {
            size_t p = buf.find("@@END"); if (p != Str::npos) { Str r = buf.substr(0, p); size_t nl = buf.find('\n', p); buf = nl == Str::npos ? "" : buf.substr(nl + 1); return r; }
            double left = dl - now(); if (left <= 0) { stop(); return "timeout"; }
            struct pollfd pf { out, POLLIN, 0 }; int k = poll(&pf, 1, (int)(left * 1000) + 1); if (k <= 0) continue;
            char tmp[65536]; ssize_t r = read(out, tmp, sizeof tmp); if (r <= 0) { stop(); return "timeout"; } buf.append(tmp, r);
        }
    }
} z3;
static Str smt_mono(MonoId m) { Str s; for (auto &x : monos[m].f) for (int i = 0; i < x.second; i++) s += " |" + atoms[x.first].name + "|"; return s; }
static Str smt_poly(P p) {
    if (p->t.empty()) return "0.0"; Str s; bool many = p->t.size() > 1; if (many) s = "(+";
    for (auto &t : p->t) { bool neg = false; for (auto &x : monos[t.m].f) if (x.second < 0) neg = true; if (neg) { fprintf(stderr, "negative exponent in smt: %s\n", psS(p).c_str()); }
        Str mm = smt_mono(t.m); s += " "; if (mm.empty()) s += t.c.smt(); else if (t.c.one() && monos[t.m].f.size() == 1 && monos[t.m].f[0].second == 1) s += mm.substr(1); else if (t.c.one()) s += "(*" + mm + ")"; else s += "(* " + t.c.smt() + mm + ")"; }
    if (many) s += ")"; return s;
}
static Str smt_b(const Bx *b) {
    switch (b->k) { case B_T: return "true"; case B_F: return "false";
    case B_AND: return "(and " + smt_b(b->l) + " " + smt_b(b->r) + ")"; case B_OR: return "(or " + smt_b(b->l) + " " + smt_b(b->r) + ")";
    case B_ATOM: { Str p = smt_poly(b->c); const char *op = b->mask == 1 ? "<" : b->mask == 3 ? "<=" : b->mask == 4 ? ">" : b->mask == 6 ? ">=" : b->mask == 2 ? "=" : "distinct"; return Str("(") + op + " " + p + " 0.0)"; } }
    return "true";
}
static bool fits_mask(const Bx *) { return true; }
static double parse_num(const Str &s, size_t &i, Q &q, bool &ok) {
    while (i < s.size() && isspace(s[i])) i++;
    if (s[i] == '(') { i++; while (isspace(s[i])) i++; if (s[i] == '-') { i++; parse_num(s, i, q, ok); q = -q; } else if (s[i] == '/') { i++; Q a, b; parse_num(s, i, a, ok); parse_num(s, i, b, ok); if (b.zero()) ok = false; else q = a / b; } else { ok = false; return 0; } while (i < s.size() && s[i] != ')') i++; i++; return 0; }
    size_t j = i; while (j < s.size() && (isdigit(s[j]) || s[j] == '.' || s[j] == 'e' || s[j] == '-')) j++;
    Str t = s.substr(i, j - i); if (j < s.size() && s[j] == '?') j++; if (t.empty()) { ok = false; return 0; } if (t.back() == '.') t += "0"; q = Q::parse(t); i = j; return 0;
}
static long dumpn = 0;
static void axioms(const std::set<AtomId> &need, Str &decl, Str &ax, std::vector<AtomId> &vars, bool &anyint) {
    for (AtomId a : need) {
        Atom &x = atoms[a]; Str n = "|" + x.name + "|"; if (x.isint) decl += "(declare-const |" + x.name + "!i| Int)(define-fun " + n + " () Real (to_real |" + x.name + "!i|))\n"; else decl += "(declare-const " + n + " Real)\n";
        if (x.k == A_BASE || x.k == A_UNIN) { vars.push_back(a); if (x.bounded) ax += "(assert (>= " + n + " " + x.lo.smt() + "))(assert (<= " + n + " " + x.hi.smt() + "))\n"; if (x.isint) anyint = true; }
        else if (x.k == A_MOD) { anyint = true; Str q = "|" + x.name + "!q|"; decl += "(declare-const " + q + " Int)\n"; ax += "(assert (= " + n + " (- " + smt_poly(x.arg) + " (* " + Q(x.rad).smt() + " (to_real " + q + ")))))(assert (>= " + n + " 0.0))(assert (< " + n + " " + Q(x.rad).smt() + "))\n"; }
        else if (x.k == A_RAD) ax += "(assert (= (* " + n + " " + n + ") " + Q(x.rad).smt() + "))(assert (> " + n + " 0.0))\n";
        else {
            // clear denominators of the argument for the axiom
            P arg = x.arg; std::map<AtomId, int> mn; for (auto &t : arg->t) for (auto &f : monos[t.m].f) if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second);
            P mult = Pone(); for (auto &kv : mn) for (int i = 0; i < -kv.second; i++) { P nx = patom(kv.first); if (atoms[kv.first].k == A_SQRT && i) break; mult = pmul(mult, nx); }
            P am = pmul(arg, mult); Str ms = smt_poly(mult);
            if (x.k == A_INV) ax += "(assert (= (* " + n + " " + smt_poly(am) + ") " + ms + "))\n";
            else ax += "(assert (= (* " + n + " " + n + " " + ms + ") " + smt_poly(am) + "))(assert (>= " + n + " 0.0))\n";
        }
    }
}
// 1 sat (model in *mod), 0 unsat, -1 unknown.
static int solve(const std::vector<const Bx *> &goal, Asg *mod, int tmo_ms) {
    for (auto g : goal) if (g->k == B_F) return 0;
    std::set<AtomId> need; for (auto g : goal) b_atoms(g, need);
    std::vector<const Bx *> use; std::vector<char> in(pcs.size(), 0); std::vector<std::set<AtomId>> pa(pcs.size());
    for (size_t i = 0; i < pcs.size(); i++) b_atoms(pcs[i], pa[i]);
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < pcs.size(); i++) if (!in[i]) { bool hit = false; for (AtomId a : pa[i]) if (atoms[a].k != A_RAD && need.count(a)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; need.insert(pa[i].begin(), pa[i].end()); } } }
    for (size_t i = 0; i < pcs.size(); i++) if (in[i]) use.push_back(pcs[i]);
    for (auto g : goal) use.push_back(g);
    bool anyint = false; Str s = "(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 24)\n(set-option :timeout " + std::to_string(tmo_ms) + ")\n", decl, ax;
    std::vector<AtomId> vars; axioms(need, decl, ax, vars, anyint);
    if (!anyint) s += "(set-logic QF_NRA)\n";
    s += decl + ax; for (auto u : use) s += "(assert " + smt_b(u) + ")\n";
    s += "(check-sat)";
    if (!opt_dump.empty()) { FILE *f = fopen((opt_dump + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumpn++) + ".smt2").c_str(), "w"); fputs(s.c_str(), f); fclose(f); }
    double t0 = now(); Str r = z3.ask(s, tmo_ms / 1000.0 + 5); st.queries++;
    int res = -1;
    if (r.find("(error") != Str::npos) { notes.insert("solver error: " + r.substr(0, 200)); res = -1; }
    else if (r.find("unsat") != Str::npos) res = 0; else if (r.find("unknown") != Str::npos || r.find("timeout") != Str::npos) res = -1; else if (r.find("sat") != Str::npos) res = 1;
    if (res == 1 && mod) {
        Str g = "(get-value ("; for (AtomId a : vars) g += " |" + atoms[a].name + "|"; g += " true))"; Str o = z3.ask(g, 10);
        *mod = wit; size_t i = 0;
        for (AtomId a : vars) { Str n = atoms[a].name, key = "(" + n + " "; size_t p = o.find(key); if (p == Str::npos) { key = "(|" + n + "| "; p = o.find(key); } if (p == Str::npos) continue; i = p + key.size(); Q q; bool ok = true; parse_num(o, i, q, ok); if (ok) { Atom &x = atoms[a]; if (x.bounded) { if (q < x.lo) q = x.lo; if (x.hi < q) q = x.hi; } (*mod)[a] = q; } }
    }
    st.solver_s += now() - t0; if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
    return res;
}
// look for an assignment satisfying path + goal by perturbing the witness
static bool sample(const Bx *goal, Asg &out, int n) {
    std::set<AtomId> vs; b_atoms(goal, vs); std::vector<AtomId> v; for (AtomId a : vs) if (atoms[a].k == A_BASE || atoms[a].k == A_UNIN) v.push_back(a);
    if (v.empty()) return false;
    for (int k = 0; k < n; k++) {
        Asg w = wit; int m = (k % 3 == 0) ? 1 : (k % 3 == 1 ? 2 : (int)v.size());
        if (m >= (int)v.size()) for (AtomId a : v) w[a] = rnd_q(a); else for (int i = 0; i < m; i++) { AtomId a = v[rng() % v.size()]; w[a] = rnd_q(a); }
        Ev e(w); if (!holds(e, goal) || e.bad) continue; bool ok = true; for (auto p : pcs) if (!holds(e, p)) { ok = false; break; } if (!ok || e.bad) continue;
        out = w; st.samples_used++; return true;
    }
    return false;
}
static bool wit_sat(const Bx *g) { if (!wit_ok) return false; Ev e(wit); bool r = holds(e, g); return r && !e.bad; }

static Str model_json(const Asg &w) {
    Str s = "{"; bool f = true;
    for (AtomId a : base_order) { if (atoms[a].k != A_BASE) continue; auto it = w.find(a); Q q = it == w.end() ? Q(0) : it->second; char b[64]; snprintf(b, sizeof b, "%.17g", q.d()); s += (f ? "" : ", "); s += "\"" + jesc(atoms[a].name) + "\": " + (atoms[a].isint && q.isint() ? q.str() : Str(b)); f = false; }
    return s + "}";
}
static std::map<Str, long> chosen;      // vp_choose results
static Str full_model(const Asg &w) { Str s = model_json(w); for (auto &kv : chosen) { s.insert(s.size() - 1, (s.size() > 2 ? ", " : "") + ("\"" + jesc(kv.first) + "\": " + std::to_string(kv.second))); } return s; }
static void add_fail(const Str &kind, const Str &label, const Str &detail, const Asg &w) { if (fail_count[kind + label.substr(0, label.find('['))]++ >= 4) return; fails.push_back({kind, label, detail, full_model(w)}); }

// ------------------------------------------------------------------ path decisions
struct Pending { const Bx *bad; Str label; P a, b; };
static std::vector<Pending> pending; static long ident_conf = 0;
static void flush_checks();
static std::vector<pid_t> kids;

static void add_fact(const Bx *b) {
    if (b->k == B_AND) { add_fact(b->l); add_fact(b->r); return; }
    if (b->k == B_T) return;
    pcs.push_back(b);
    if (b->k == B_ATOM) { auto it = facts.find(b->c); if (it == facts.end()) facts[b->c] = b->mask; else it->second &= b->mask; }
}
static int known(const Bx *b) {        // 1 true 0 false 2 unknown
    switch (b->k) { case B_T: return 1; case B_F: return 0;
    case B_ATOM: { auto it = facts.find(b->c); if (it == facts.end()) return 2; if (!(it->second & b->mask)) return 0; if (!(it->second & ~b->mask)) return 1; return 2; }
    case B_AND: { int l = known(b->l), r = known(b->r); if (!l || !r) return 0; if (l == 1 && r == 1) return 1; return 2; }
    case B_OR: { int l = known(b->l), r = known(b->r); if (l == 1 || r == 1) return 1; if (!l && !r) return 0; return 2; } }
    return 2;
}
static void child_reset() { st = Stats(); ident_conf = 0; funcs.clear(); covers.clear(); stubs_hit.clear(); notes.clear(); fails.clear(); undecided.clear(); kids.clear(); }
static bool b_unin(const Bx *b) { std::set<AtomId> s; b_atoms(b, s); for (AtomId a : s) if (atoms[a].k == A_UNIN) return true; return false; }
static Str where();
static void issue(const Str &kind, const Str &msg) { add_fail(kind, kind + ": " + msg, where(), wit); }

static void check_deadline() { if (now() - t_start > opt_timeout) throw PathEnd{"timeout", "engine time limit"}; }
// feasibility of path + b. 1 feasible (mod set), 0 infeasible, -1 unknown
static int feasible(const Bx *b, Asg &mod) {
    int k = known(b); if (k == 0) return 0;
    if (wit_sat(b)) { mod = wit; return 1; }
    if (wit_ok && sample(b, mod, 40)) return 1;
    int r = solve({b}, &mod, opt_qtimeout);
    if (r == -1 && wit_ok && sample(b, mod, 400)) return 1;
    return r;
}
static bool decide(const Bx *b, const char *why) {
    int k = known(b); if (k != 2) return k == 1;
    if (b->k == B_AND) { if (!decide(b->l, why)) return false; return decide(b->r, why); }
    if (b->k == B_OR) { if (decide(b->l, why)) return true; return decide(b->r, why); }
    check_deadline(); st.branches++;
    const Bx *nb = b_not(b); Asg mt, mf;
    if (b_unin(b)) { issue("uninit", Str("control flow depends on uninitialised memory (") + why + ")"); bool v = wit_sat(b); add_fact(v ? b : nb); return v; }
    int ft = feasible(b, mt); if (ft == 0) { facts.count(b->c) ? void(facts[b->c] &= nb->mask) : void(facts[b->c] = nb->mask); return false; }
    int ff = feasible(nb, mf); if (ff == 0) { facts.count(b->c) ? void(facts[b->c] &= b->mask) : void(facts[b->c] = b->mask); return true; }
    // both sides (possibly) feasible: fork
    flush_checks();
    if (__sync_add_and_fetch(&shm->paths, 1) > opt_maxpaths) throw PathEnd{"limit", "path limit"};
    fflush(nullptr); depth_forks++;
    bool par = false; if (opt_jobs > 1) { if (__sync_add_and_fetch(&shm->jobs, 1) < opt_jobs) par = true; else __sync_sub_and_fetch(&shm->jobs, 1); }
    pid_t pid = fork();
    if (pid == 0) { child_reset(); path_id += "1"; bool ok = ft == 1; if (ok) wit = mt; wit_ok = ok; rng.seed(opt_seed * 7919 + depth_forks); add_fact(b); if (!ok) notes.insert("explored a branch the solver left undecided"); if (par) { /* slot released on exit */ setenv("SYMX_PAR", "1", 1); } else unsetenv("SYMX_PAR"); return true; }
    if (par) kids.push_back(pid); else { int stt; waitpid(pid, &stt, 0); if (WIFSIGNALED(stt)) undecided.push_back("path process died"); }
    path_id += "0"; bool ok = ff == 1; if (ok) wit = mf; wit_ok = ok; add_fact(nb); if (!ok) notes.insert("explored a branch the solver left undecided"); return false;
}
static void assume(const Bx *b) {
    flush_checks(); int k = known(b); if (k == 1) return; if (k == 0) throw PathEnd{"assume", ""};
    Asg m; int f = feasible(b, m); if (f == 0) throw PathEnd{"assume", ""}; if (f == 1) { wit = m; wit_ok = true; } else wit_ok = false; add_fact(b);
}
static void flush_checks() {
    if (pending.empty()) return;
    std::vector<Pending> ps; ps.swap(pending);
    // split off those false at once
    std::vector<const Bx *> bad; std::vector<Pending *> live;
    { Str q, decl; std::set<AtomId> at; size_t terms = 0; long n = 0;
      for (auto &p : ps) if (p.bad->k == B_F && p.a && !is_const(p.a) && p.a->t.size() <= 400) { if (terms > 4000) break; std::map<AtomId, int> mn; for (auto &t : p.a->t) for (auto &f : monos[t.m].f) if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second); for (auto &t : p.b->t) for (auto &f : monos[t.m].f) if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second);
          P mult = Pone(); for (auto &kv : mn) for (int i = 0; i < -kv.second; i++) mult = pmul(mult, patom(kv.first)); P a2 = pmul(p.a, mult), b2 = p.a == p.b ? a2 : pmul(p.b, mult); bool neg = false; for (P z : {a2, b2}) for (auto &t : z->t) for (auto &f : monos[t.m].f) if (f.second < 0) neg = true; if (neg || b2->t.size() > 400) continue;
          terms += a2->t.size(); atoms_of(a2, at); atoms_of(b2, at); q += " (distinct " + smt_poly(a2) + " " + smt_poly(b2) + ")"; n++; }
      if (n) { std::set<AtomId> need; for (AtomId a : at) { need.insert(a); if (atoms[a].arg) atoms_closure(atoms[a].arg, need); } Str dc, ax; std::vector<AtomId> vs; bool ai = false; axioms(need, dc, ax, vs, ai); Str s = "(reset)\n(set-option :timeout 5000)\n" + dc + ax;
          double t0 = now(); Str r = z3.ask(s + "(assert (or" + q + " false))\n(check-sat)", 8); st.queries++; st.solver_s += now() - t0; if (r.find("unsat") != Str::npos) { st.unsat++; ident_conf += n; } else { st.unknown++; notes.insert("solver did not confirm a batch closed by normal form: " + r.substr(0, 60)); } } }
    for (auto &p : ps) { if (p.bad->k == B_F) { st.checks_ident++; continue; } if (known(p.bad) == 0) { st.checks_solver++; continue; } live.push_back(&p); }
    // quick refutation: witness / sampling
    std::vector<Pending *> rest;
    for (auto p : live) {
        Asg m; if (p->bad->k == B_T) { add_fail("check", p->label, "violated on the whole path", wit); continue; }
        bool hit = wit_sat(p->bad); if (hit) m = wit; else hit = wit_ok && sample(p->bad, m, live.size() > 40 ? 6 : 30);
        if (hit) { Str key = "check" + p->label.substr(0, p->label.find('[')); const char *how = "model found by evaluation"; if (fail_count[key] < 2) { Asg m2; int r = solve({p->bad}, &m2, 3000); how = r == 1 ? "solver: satisfiable" : r == 0 ? "model found by evaluation; solver disagrees" : "model found by evaluation; solver timed out"; } add_fail("check", p->label, how, m); continue; }
        rest.push_back(p);
    }
    // a label with enough counterexamples on this path already needs no further ones
    auto enough = [&](Pending *p) { return fail_count["check" + p->label.substr(0, p->label.find('['))] >= 4; };
    rest.erase(std::remove_if(rest.begin(), rest.end(), enough), rest.end());
    // batched solver query, bisecting on failure
    std::function<void(size_t, size_t)> go = [&](size_t lo, size_t hi) {
        if (lo >= hi) return; check_deadline(); if (enough(rest[lo]) && enough(rest[hi - 1])) return;
        const Bx *o = rest[lo]->bad; for (size_t i = lo + 1; i < hi; i++) o = b_or(o, rest[i]->bad);
        Asg m; int r = solve({o}, &m, opt_qtimeout * (hi - lo > 1 ? 1 : 3));
        if (r == 0) { st.checks_solver += hi - lo; return; }
        if (hi - lo == 1) { if (r == 1) add_fail("check", rest[lo]->label, "solver model", m); else { Asg m2; if (wit_ok && sample(rest[lo]->bad, m2, 3000)) add_fail("check", rest[lo]->label, "sampled model", m2); else undecided.push_back("check " + rest[lo]->label); } return; }
        size_t mid = (lo + hi) / 2; go(lo, mid); go(mid, hi);
    };
    // batches of bounded size; disjoint variable components stay separate enough through slicing
    size_t i = 0; while (i < rest.size()) { size_t j = i, terms = 0; while (j < rest.size() && j - i < 200) { size_t n = 0; std::function<void(const Bx *)> cnt = [&](const Bx *b) { if (b->k == B_ATOM) n += b->c->t.size(); else if (b->l) { cnt(b->l); cnt(b->r); } }; cnt(rest[j]->bad); if (j > i && terms + n > 400) break; terms += n; j++; } go(i, j); i = j; }
}

// ------------------------------------------------------------------ memory
struct Slot { Val v; uint8_t sz = 0, back = 0; };
enum OK_ { O_STACK, O_HEAP, O_NEW, O_NEWA, O_GLOBAL, O_FUNC };
struct Obj { uint32_t id; int64_t size; uint8_t kind; bool alive = true, ro = false; Str name; std::vector<Slot> s; Function *fn = nullptr; bool repo = false; bool lazy_zero = false; };
static std::vector<Obj *> objs(1, nullptr);
static const int64_t BIAS = 0x40000000;
static uint64_t addr_of(Obj *o, int64_t off = 0) { return ((uint64_t)o->id << 32) + (uint64_t)(off + BIAS); }
static Obj *new_obj(int64_t size, uint8_t kind, const Str &name) { Obj *o = new Obj; o->id = (uint32_t)objs.size(); o->size = size; o->kind = kind; o->name = name; if (size > (1ll << 28)) throw PathEnd{"error", "object too large"}; o->s.resize(size); objs.push_back(o); return o; }
static bool split(uint64_t a, Obj *&o, int64_t &off) { uint32_t id = a >> 32; off = (int64_t)(a & 0xffffffffu) - BIAS; if (!id || id >= objs.size()) { o = nullptr; return false; } o = objs[id]; return true; }
static Str where_obj(Obj *o) { return o ? o->name : Str("?"); }
[[noreturn]] static void mem_fault(const Str &kind, const Str &msg) { issue(kind, msg); throw PathEnd{"fault", kind + ": " + msg}; }
static Obj *access(uint64_t a, int64_t n, int64_t &off, bool wr) {
    Obj *o; if (a == 0 || !split(a, o, off)) mem_fault("memory", Str(wr ? "write" : "read") + " through an invalid pointer");
    if (!o->alive) mem_fault("memory", Str(wr ? "write" : "read") + " after lifetime end of " + o->name);
    if (off < 0 || off + n > o->size) mem_fault("memory", Str(wr ? "write" : "read") + " out of bounds of " + o->name);
    if (o->kind == O_FUNC) mem_fault("memory", "data access to a function");
    if (wr && o->ro) mem_fault("memory", "write to read-only " + o->name);
    return o;
}
// idealisation of double literals
static P ideal(double x) {
    static std::map<double, P> cache; auto it = cache.find(x); if (it != cache.end()) return it->second;
    P r = nullptr;
    if (x == std::floor(x) && std::fabs(x) < 9e15) r = pc(Q((int64_t)x));
    if (!r) { char b[64]; for (int p = 1; p <= 12 && !r; p++) { snprintf(b, sizeof b, "%.*e", p - 1, x); if (strtod(b, nullptr) == x) r = pc(Q::parse(b)); } }
    auto cf = [](double v, long maxq, double tol, int64_t &n, int64_t &d) { double y = v; int64_t p0 = 1, q0 = 0, p1 = (int64_t)std::floor(y), q1 = 1; for (int i = 0; i < 30; i++) { if (std::fabs((double)p1 / q1 - v) <= tol * std::fabs(v)) { n = p1; d = q1; return true; } double f = y - std::floor(y); if (f < 1e-12) return false; y = 1 / f; if (y > 1e9) return false; int64_t a = (int64_t)std::floor(y); int64_t p2 = a * p1 + p0, q2 = a * q1 + q0; if (q2 > maxq) return false; p0 = p1; q0 = q1; p1 = p2; q1 = q2; } return false; };
    int64_t n, d; double ax = std::fabs(x);
    if (!r && std::isfinite(x) && ax > 1e-6 && ax < 1e6 && cf(ax, 2000, 3e-16, n, d)) r = pc(Q(x < 0 ? -n : n, d));
    if (!r && std::isfinite(x) && ax > 1e-3 && ax < 1e3 && cf(ax * ax, 200, 4e-15, n, d)) { P s; if (sqrt_const(Q(n, d), s)) r = x < 0 ? pneg(s) : s; }
    if (!r) r = pc(Q::exact(x));
    cache[x] = r; return r;
}
static Val from_double(double x) { if (std::isnan(x)) return vfx(FX_NAN); if (std::isinf(x)) return vfx(x > 0 ? FX_PINF : FX_NINF); return vreal(ideal(x)); }

static void break_slot(Obj *o, int64_t start);
static bool slot_bytes(const Slot &s, uint8_t *out) {
    uint64_t b;
    if (s.v.k == V_INT) b = (uint64_t)s.v.i; else if (s.v.k == V_REAL && is_const(s.v.p) && s.sz == 8) { double d = const_of(s.v.p).d(); memcpy(&b, &d, 8); } else return false;
    for (int i = 0; i < s.sz; i++) out[i] = (uint8_t)(b >> (8 * i)); return true;
}
static void break_slot(Obj *o, int64_t start) {      // turn a multi-byte slot into single bytes (or undef)
    Slot s = o->s[start]; int n = s.sz; uint8_t by[16]; bool ok = slot_bytes(s, by);
    for (int i = 0; i < n; i++) { Slot &t = o->s[start + i]; t = Slot(); if (ok) { t.sz = 1; t.v = vint((int8_t)by[i], 8); } else { t.sz = 0; } }
}
static void clear_range(Obj *o, int64_t off, int64_t n) {
    if (o->s[off].back) break_slot(o, off - o->s[off].back);
    int64_t i = off; while (i < off + n) { Slot &t = o->s[i]; if (t.sz > 1) { if (i + t.sz > off + n) break_slot(o, i); else { int z = t.sz; for (int k = 0; k < z; k++) o->s[i + k] = Slot(); i += z; continue; } } o->s[i] = Slot(); i++; }
}
static void put_slot(Obj *o, int64_t off, const Val &v, int n) {
    Slot &s = o->s[off];
    if (s.sz == n && n > 0) { s.v = v; return; }
    clear_range(o, off, n); o->s[off].v = v; o->s[off].sz = n; for (int i = 1; i < n; i++) o->s[off + i].back = i;
}
static const DataLayout *DL;
static long unin_n = 0;
static Val undef_real(const Str &where_) { AtomId a = base_atom("uninit!" + std::to_string(unin_n++) + "!" + where_, Q(0), Q(0), false, false, A_UNIN); return vreal(patom(a)); }
static Val load_val(uint64_t a, Type *ty);
static void store_val(uint64_t a, const Val &v, Type *ty);
static Val get_slot(Obj *o, int64_t off, int n, bool fp, int w) {
    Slot &s = o->s[off];
    if (s.sz == n) {
        Val v = s.v;
        if (fp) { if (v.k == V_INT) { if (n == 8) { double d; memcpy(&d, &v.i, 8); return from_double(d); } if (n == 4) { float f; int32_t x = (int32_t)v.i; memcpy(&f, &x, 4); return from_double(f); } } if (v.k == V_UNDEF) { v = undef_real(o->name); s.v = v; } return v; }
        if (v.k == V_INT) return vint(v.i, w); return v;
    }
    // assemble bytes
    uint8_t by[16]; bool ok = true, un = false;
    for (int i = 0; i < n;) {
        Slot &t = o->s[off + i]; int64_t st0 = off + i - t.back; Slot &h = o->s[st0];
        if (h.sz == 0 || h.v.k == V_UNDEF) { un = true; i++; continue; }
        uint8_t tmp[16]; if (!slot_bytes(h, tmp)) { ok = false; break; }
        int p = (int)(off + i - st0); for (; p < h.sz && i < n; p++, i++) by[i] = tmp[p];
    }
    if (!ok) throw PathEnd{"error", "partial load of a symbolic value from " + o->name};
    if (un) { if (fp) { Val v = undef_real(o->name); put_slot(o, off, v, n); return v; } Val v; v.k = V_UNDEF; v.w = w; return v; }
    uint64_t b = 0; for (int i = 0; i < n && i < 8; i++) b |= (uint64_t)by[i] << (8 * i);
    if (fp) { if (n == 8) { double d; memcpy(&d, &b, 8); return from_double(d); } float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return from_double(f); }
    return vint((int64_t)b, w);
}
static Val load_val(uint64_t a, Type *ty) {
    if (auto *stt = dyn_cast<StructType>(ty)) { auto *L = DL->getStructLayout(stt); Val r; r.k = V_AGG; r.a = new std::vector<Val>; for (unsigned i = 0; i < stt->getNumElements(); i++) r.a->push_back(load_val(a + L->getElementOffset(i), stt->getElementType(i))); return r; }
    if (auto *at = dyn_cast<ArrayType>(ty)) { Val r; r.k = V_AGG; r.a = new std::vector<Val>; uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) r.a->push_back(load_val(a + i * es, at->getElementType())); return r; }
    if (auto *vt = dyn_cast<FixedVectorType>(ty)) { Val r; r.k = V_AGG; r.a = new std::vector<Val>; uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) r.a->push_back(load_val(a + i * es, vt->getElementType())); return r; }
    int n = (int)DL->getTypeStoreSize(ty); int64_t off; Obj *o = access(a, n, off, false);
    int w = ty->isPointerTy() ? 64 : ty->isIntegerTy() ? ty->getIntegerBitWidth() : 64;
    Val v = get_slot(o, off, n, ty->isFloatingPointTy(), w > 64 ? 64 : w); return v;
}
static void store_val(uint64_t a, const Val &v, Type *ty) {
    if (auto *stt = dyn_cast<StructType>(ty)) { auto *L = DL->getStructLayout(stt); for (unsigned i = 0; i < stt->getNumElements(); i++) store_val(a + L->getElementOffset(i), v.k == V_AGG ? (*v.a)[i] : Val(), stt->getElementType(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(ty)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) store_val(a + i * es, v.k == V_AGG ? (*v.a)[i] : Val(), at->getElementType()); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(ty)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) store_val(a + i * es, v.k == V_AGG ? (*v.a)[i] : Val(), vt->getElementType()); return; }
    int n = (int)DL->getTypeStoreSize(ty); int64_t off; Obj *o = access(a, n, off, true);
    if (v.k == V_AGG) throw PathEnd{"error", "aggregate store"};
    if (v.k == V_UNDEF) { clear_range(o, off, n); return; }
    put_slot(o, off, v, n);
}
static void mem_copy(uint64_t d, uint64_t s, int64_t n) {
    if (!n) return; int64_t so, dof; Obj *a = access(s, n, so, false), *b = access(d, n, dof, true);
    // isolate source slots at the borders
    if (a->s[so].back) break_slot(a, so - a->s[so].back);
    { int64_t i = so + n - 1; int64_t h = i - a->s[i].back; if (a->s[h].sz && h + a->s[h].sz > so + n) break_slot(a, h); }
    std::vector<Slot> tmp(a->s.begin() + so, a->s.begin() + so + n);
    clear_range(b, dof, n); std::copy(tmp.begin(), tmp.end(), b->s.begin() + dof);
}
static void mem_set(uint64_t d, const Val &v, int64_t n) {
    if (!n) return; int64_t off; Obj *o = access(d, n, off, true); clear_range(o, off, n);
    if (v.k == V_UNDEF) return; uint64_t byte = uns(v) & 255, rep = byte * 0x0101010101010101ull; int64_t i = 0;
    while (i < n && (off + i) % 8) { put_slot(o, off + i, vint((int8_t)byte, 8), 1); i++; }
    while (i + 8 <= n) { put_slot(o, off + i, vint((int64_t)rep, 64), 8); i += 8; }
    while (i < n) { put_slot(o, off + i, vint((int8_t)byte, 8), 1); i++; }
}
static Str read_cstr(uint64_t a) { Str s; int64_t off; Obj *o = access(a, 1, off, false); for (int64_t i = off;; i++) { if (i >= o->size) mem_fault("memory", "unterminated string in " + o->name); Val v = get_slot(o, i, 1, false, 8); if (v.k != V_INT) throw PathEnd{"error", "symbolic string"}; if (!v.i) break; s += (char)v.i; } return s; }

// ------------------------------------------------------------------ compiled functions
struct Opnd { int slot = -1; Val c; };
struct CF;
struct CI { unsigned op = 0; int dst = -1; std::vector<Opnd> o; Type *ty = nullptr; Instruction *I = nullptr; int64_t imm = 0; std::vector<std::pair<int, int64_t>> gep; int b0 = -1, b1 = -1; CF *callee = nullptr; unsigned sub = 0; std::vector<std::pair<int64_t, int>> cases; std::vector<unsigned> idx; };
struct Phi { int dst; std::map<int, Opnd> in; };
struct CB { std::vector<Phi> phis; std::vector<CI> ins; };
typedef std::function<Val(std::vector<Val> &, CallBase *)> Handler;
struct CF { Function *F; Str name, nice; int nregs = 0, nargs = 0; std::vector<CB> bl; Handler h; bool compiled = false, repo = false; };
static std::map<Function *, CF *> cfs; static std::map<GlobalValue *, Obj *> gobj; static Module *MOD;
static std::map<Str, Handler> builtins;
static std::vector<std::pair<CF *, Instruction *>> cstack;
static Str where() {
    Str s; int n = 0;
    for (auto it = cstack.rbegin(); it != cstack.rend() && n < 6; ++it, ++n) { s += it->first->nice; if (it->second) if (DILocation *l = it->second->getDebugLoc()) { Str f = l->getFilename().str(); size_t p = f.rfind('/'); s += "(" + (p == Str::npos ? f : f.substr(p + 1)) + ":" + std::to_string(l->getLine()) + ")"; } s += " < "; }
    return s;
}
static Obj *func_obj(Function *F) { auto it = gobj.find(F); if (it != gobj.end()) return it->second; Obj *o = new_obj(1, O_FUNC, F->getName().str()); o->fn = F; gobj[F] = o; return o; }
static Obj *global_obj(GlobalVariable *G);
static Val const_val(Constant *c);
static void init_mem(uint64_t a, Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) { int64_t n = DL->getTypeAllocSize(t); mem_set(a, vint(0, 8), n); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) init_mem(a + L->getElementOffset(i), s->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) init_mem(a + i * es, s->getElementAsConstant(i)); return; }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { uint64_t es = DL->getTypeAllocSize(isa<ConstantArray>(c) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) init_mem(a + i * es, cast<Constant>(c->getOperand(i))); return; }
    store_val(a, const_val(c), t);
}
static uint64_t fake_vptr() { static Obj *v = nullptr; if (!v) { v = new_obj(256, O_GLOBAL, "fake-vtable"); mem_set(addr_of(v), vint(0, 8), 256); } return addr_of(v, 128); }
static Obj *global_obj(GlobalVariable *G) {
    auto it = gobj.find(G); if (it != gobj.end()) return it->second;
    int64_t n = DL->getTypeAllocSize(G->getValueType()); bool ext = !G->hasInitializer(); if (ext && n < 512) n = 512;
    Obj *o = new_obj(n, O_GLOBAL, G->getName().str()); gobj[G] = o;
    if (!ext) init_mem(addr_of(o), G->getInitializer()); else { mem_set(addr_of(o), vint(0, 8), n); store_val(addr_of(o), vptr(fake_vptr()), PointerType::get(G->getContext(), 0)); }
    if (G->isConstant() && !ext) o->ro = true; return o;
}
static Val const_val(Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return vint((int64_t)i->getValue().extractBitsAsZExtValue(64, 0), 64); return vint(i->getSExtValue(), i->getBitWidth()); }
    if (auto *f = dyn_cast<ConstantFP>(c)) { APFloat v = f->getValueAPF(); bool li; if (&v.getSemantics() == &APFloat::IEEEsingle()) { float x = v.convertToFloat(); (void)li; return from_double(x); } v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return from_double(v.convertToDouble()); }
    if (isa<ConstantPointerNull>(c)) return vptr(0);
    if (isa<UndefValue>(c)) { if (auto *s = dyn_cast<StructType>(c->getType())) { Val r; r.k = V_AGG; r.a = new std::vector<Val>(s->getNumElements()); return r; } Val v; if (c->getType()->isIntegerTy()) v.w = std::min(64u, c->getType()->getIntegerBitWidth()); return v; }
    if (auto *F = dyn_cast<Function>(c)) return vptr(addr_of(func_obj(F)));
    if (auto *A = dyn_cast<GlobalAlias>(c)) return const_val(A->getAliasee());
    if (auto *G = dyn_cast<GlobalVariable>(c)) return vptr(addr_of(global_obj(G)));
    if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c)) { Val r; r.k = V_AGG; r.a = new std::vector<Val>; Type *t = c->getType(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = 0; i < n; i++) r.a->push_back(const_val(c->getAggregateElement(i))); return r; }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (auto *g = dyn_cast<GEPOperator>(e)) { APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) { Val b = const_val(cast<Constant>(g->getPointerOperand())); return vptr((uint64_t)b.i + off.getSExtValue()); } }
        if (e->getOpcode() == Instruction::BitCast || e->getOpcode() == Instruction::PtrToInt || e->getOpcode() == Instruction::IntToPtr || e->getOpcode() == Instruction::AddrSpaceCast) return const_val(e->getOperand(0));
    }
    std::string s; raw_string_ostream os(s); c->print(os); throw PathEnd{"error", "unsupported constant " + s};
}
static bool is_stream_name(const Str &n) {
    static const char *pre[] = {"_ZNSo", "_ZNKSo", "_ZNSt14basic_ofstream", "_ZNKSt14basic_ofstream", "_ZNSt13basic_fstream", "_ZNSt13basic_ostream", "_ZNKSt13basic_ostream", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt13basic_filebuf", "_ZNSt15basic_streambuf", "_ZNSt7__cxx1115basic_stringbuf", "_ZSt4endl", "_ZSt5flush", "_ZNSt6localeC", "_ZNSt6localeD", "_ZSt16__ostream_insert"};
    for (auto p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
    if (n.compare(0, 6, "_ZStls") == 0 && n.find("RSt13basic_ostream") != Str::npos && n.find("EOT_") == Str::npos) return true;
    return false;
}
static Val stream_call(const Str &name, std::vector<Val> &a, CallBase *cb);
static bool throwing(const Str &n) { return n.find("__throw_") != Str::npos || n == "__cxa_throw" || n == "__cxa_allocate_exception" || n == "_Unwind_Resume" || n == "__cxa_rethrow" || n == "_ZSt9terminatev" || n == "__clang_call_terminate"; }
static CF *get_cf(Function *F) {
    auto it = cfs.find(F); if (it != cfs.end()) return it->second;
    CF *c = new CF; cfs[F] = c; c->F = F; c->name = F->getName().str();
    if (auto *sp = F->getSubprogram()) { c->nice = sp->getName().str(); Str fn = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (!sp->getFilename().empty() && sp->getFilename()[0] == '/') fn = sp->getFilename().str(); c->repo = fn.find("/repo/") != Str::npos && fn.find("/repo/") < 2; } else c->nice = c->name;
    Str n = c->name;
    auto b = builtins.find(n); if (b != builtins.end()) { c->h = b->second; return c; }
    if (is_stream_name(n)) { c->h = [n](std::vector<Val> &a, CallBase *cb) { return stream_call(n, a, cb); }; return c; }
    if (throwing(n) && (F->isDeclaration() || n.find("__throw_") != Str::npos || n == "__clang_call_terminate")) { c->h = [n](std::vector<Val> &, CallBase *) -> Val { issue("exception", "uncaught exception " + demangle(n)); throw PathEnd{"fault", "exception"}; }; return c; }
    if (F->isIntrinsic()) {
        Str in = n;
        for (auto p : {"llvm.memcpy", "llvm.memmove", "llvm.memset", "llvm.fabs", "llvm.sqrt", "llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stacksave", "llvm.stackrestore", "llvm.expect", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs", "llvm.eh.typeid", "llvm.trap", "llvm.fmuladd", "llvm.fma", "llvm.pow", "llvm.is.constant", "llvm.objectsize", "llvm.experimental.noalias", "llvm.donothing", "llvm.minnum", "llvm.maxnum", "llvm.powi", "llvm.ubsantrap", "llvm.launder", "llvm.strip", "llvm.ctlz", "llvm.umul.with", "llvm.smul.with", "llvm.sadd.with", "llvm.uadd.with", "llvm.floor", "llvm.ceil", "llvm.copysign", "llvm.threadlocal", "llvm.is.fpclass", "llvm.exp", "llvm.log", "llvm.sin", "llvm.cos", "llvm.round", "llvm.trunc"})
            if (in.compare(0, strlen(p), p) == 0) { Str key = p; auto q = builtins.find(key); if (q != builtins.end()) c->h = q->second; return c; }
    }
    return c;
}
static void compile(CF *c) {
    c->compiled = true; Function *F = c->F; std::map<const Value *, int> reg; std::map<BasicBlock *, int> bi; int n = 0;
    for (auto &A : F->args()) reg[&A] = n++; c->nargs = n; int k = 0;
    for (auto &B : *F) { bi[&B] = k++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
    c->nregs = n; c->bl.resize(k);
    auto op = [&](Value *v) { Opnd o; auto it = reg.find(v); if (it != reg.end()) o.slot = it->second; else if (auto *cc = dyn_cast<Constant>(v)) o.c = const_val(cc); else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {} else throw PathEnd{"error", "operand"}; return o; };
    for (auto &B : *F) {
        CB &cb = c->bl[bi[&B]];
        for (auto &I : B) {
            if (auto *p = dyn_cast<PHINode>(&I)) { Phi ph; ph.dst = reg[&I]; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in[bi[p->getIncomingBlock(i)]] = op(p->getIncomingValue(i)); cb.phis.push_back(ph); continue; }
            CI x; x.op = I.getOpcode(); x.I = &I; x.ty = I.getType(); auto it = reg.find(&I); if (it != reg.end()) x.dst = it->second;
            if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isConditional()) { x.o.push_back(op(b->getCondition())); x.b0 = bi[b->getSuccessor(0)]; x.b1 = bi[b->getSuccessor(1)]; } else x.b0 = bi[b->getSuccessor(0)]; }
            else if (auto *s = dyn_cast<SwitchInst>(&I)) { x.o.push_back(op(s->getCondition())); x.b0 = bi[s->getDefaultDest()]; for (auto &cs : s->cases()) x.cases.push_back({cs.getCaseValue()->getSExtValue(), bi[cs.getCaseSuccessor()]}); }
            else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                x.o.push_back(op(g->getPointerOperand())); int64_t cst = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand(); if (StructType *stt = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) cst += ci->getSExtValue() * sz; else { x.o.push_back(op(ix)); x.gep.push_back({(int)x.o.size() - 1, sz}); } } }
                x.imm = cst;
            }
            else if (auto *cbI = dyn_cast<CallBase>(&I)) {
                for (auto &A : cbI->args()) x.o.push_back(op(A.get()));
                Function *cf = cbI->getCalledFunction(); if (!cf) if (auto *al = dyn_cast<GlobalAlias>(cbI->getCalledOperand())) cf = dyn_cast<Function>(al->getAliasee());
                if (cf) x.callee = get_cf(cf); else if (isa<InlineAsm>(cbI->getCalledOperand())) x.imm = 77; else { x.o.push_back(op(cbI->getCalledOperand())); }
                if (auto *iv = dyn_cast<InvokeInst>(&I)) x.b0 = bi[iv->getNormalDest()];
            }
            else { for (auto &o : I.operands()) x.o.push_back(op(o.get())); }
            if (auto *cm = dyn_cast<CmpInst>(&I)) x.sub = cm->getPredicate();
            if (auto *al = dyn_cast<AllocaInst>(&I)) x.imm = DL->getTypeAllocSize(al->getAllocatedType());
            if (auto *ld = dyn_cast<LoadInst>(&I)) x.ty = ld->getType();
            if (auto *s = dyn_cast<StoreInst>(&I)) x.ty = s->getValueOperand()->getType();
            if (auto *e = dyn_cast<ExtractValueInst>(&I)) x.idx.assign(e->idx_begin(), e->idx_end());
            if (auto *e = dyn_cast<InsertValueInst>(&I)) x.idx.assign(e->idx_begin(), e->idx_end());
            cb.ins.push_back(std::move(x));
        }
    }
}
// ------------------------------------------------------------------ arithmetic
static P to_poly(const Val &v) { if (v.k == V_REAL || v.k == V_ISYM) return v.p; if (v.k == V_INT) return pc(Q((int64_t)v.i)); if (v.k == V_UNDEF) return undef_real("undef").p; throw PathEnd{"error", "expected number"}; }
static Val vbool(const Bx *b) { if (b->k == B_T) return vint(1, 1); if (b->k == B_F) return vint(0, 1); Val v; v.k = V_BOOL; v.w = 1; v.b = b; return v; }
static int sign_of(P p) { if (decide(mk_cmp(p, 4), "sign")) return 1; if (decide(mk_cmp(p, 2), "sign")) return 0; return -1; }
static Val fx_neg(const Val &v) { if (v.k != V_FX) return vreal(pneg(v.p)); return vfx(v.i == FX_PINF ? FX_NINF : v.i == FX_NINF ? FX_PINF : FX_NAN); }
static Val f_add(Val a, Val b) {
    if (a.k == V_FX || b.k == V_FX) { if (a.k == V_FX && a.i == FX_NAN) return a; if (b.k == V_FX && b.i == FX_NAN) return b; if (a.k != V_FX) return b; if (b.k != V_FX) return a; return a.i == b.i ? a : vfx(FX_NAN); }
    P r = padd(a.p, b.p); if (is_nonneg(a.p) && is_nonneg(b.p)) nonneg.insert(r); return vreal(r);
}
static Val f_mul(Val a, Val b) {
    if (a.k == V_FX || b.k == V_FX) { if ((a.k == V_FX && a.i == FX_NAN) || (b.k == V_FX && b.i == FX_NAN)) return vfx(FX_NAN); int sa = a.k == V_FX ? (a.i == FX_PINF ? 1 : -1) : sign_of(a.p), sb = b.k == V_FX ? (b.i == FX_PINF ? 1 : -1) : sign_of(b.p); if (!sa || !sb) return vfx(FX_NAN); return vfx(sa * sb > 0 ? FX_PINF : FX_NINF); }
    P r = pmul(a.p, b.p); if (a.p == b.p || (is_nonneg(a.p) && is_nonneg(b.p))) nonneg.insert(r); return vreal(r);
}
static Val f_div(Val a, Val b) {
    if (a.k == V_FX || b.k == V_FX) { if ((a.k == V_FX && a.i == FX_NAN) || (b.k == V_FX && b.i == FX_NAN)) return vfx(FX_NAN); if (a.k == V_FX && b.k == V_FX) return vfx(FX_NAN); if (b.k == V_FX) return vreal(P0()); int sb = sign_of(b.p); if (sb >= 0) return a; return fx_neg(a); }
    P q = b.p; bool zero = false;
    if (is_const(q)) zero = q->t.empty(); else { const Bx *z = mk_cmp(q, 2); zero = (z->k == B_T) || (z->k != B_F && decide(z, "division by zero")); }
    if (zero) { notes.insert("division by zero reachable at " + where()); int s = sign_of(a.p); return vfx(s > 0 ? FX_PINF : s < 0 ? FX_NINF : FX_NAN); }
    if (is_const(q)) return vreal(pscale(a.p, Q(1) / const_of(q)));
    P r = pmul(a.p, pinv(q)); if (r->t.size() < 4000) r = pnormal(r); return vreal(r);
}
static Val f_abs(Val a) { if (a.k == V_FX) return a.i == FX_NAN ? a : vfx(FX_PINF); if (sign_iv(a.p) == 1) return a; if (decide(mk_cmp(a.p, 6), "fabs")) return a; return vreal(pneg(a.p)); }
static Val f_sqrt(Val a) {
    if (a.k == V_FX) return a.i == FX_PINF ? a : vfx(FX_NAN);
    if (decide(mk_cmp(a.p, 1), "sqrt of negative")) { notes.insert("sqrt of a negative number reachable at " + where()); return vfx(FX_NAN); }
    P ab; P r = psqrt(a.p, ab); if (ab) { Val t = f_abs(vreal(ab)); r = pmul(r, t.p); } return vreal(r);
}
static Val real_of(const Val &v) { if (v.k == V_REAL || v.k == V_FX) return v; if (v.k == V_UNDEF) return undef_real("undef"); if (v.k == V_INT) { double d; memcpy(&d, &v.i, 8); return from_double(d); } throw PathEnd{"error", "real expected"}; }
static Val f_cmp(unsigned pr, Val a, Val b) {
    a = real_of(a); b = real_of(b); bool uno = pr >= FCmpInst::FCMP_UNO && pr <= FCmpInst::FCMP_UNE; if (pr == FCmpInst::FCMP_UNO) uno = true;
    if (pr == FCmpInst::FCMP_TRUE) return vint(1, 1); if (pr == FCmpInst::FCMP_FALSE) return vint(0, 1);
    bool nan = (a.k == V_FX && a.i == FX_NAN) || (b.k == V_FX && b.i == FX_NAN);
    if (pr == FCmpInst::FCMP_ORD) return vint(!nan, 1); if (pr == FCmpInst::FCMP_UNO) return vint(nan, 1);
    if (nan) return vint(uno ? 1 : 0, 1);
    int mask = 0; switch (pr) { case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: mask = 2; break; case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: mask = 4; break; case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: mask = 6; break; case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: mask = 1; break; case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: mask = 3; break; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: mask = 5; break; }
    if (a.k == V_FX || b.k == V_FX) { double x = a.k == V_FX ? (a.i == FX_PINF ? INFINITY : -INFINITY) : 0, y = b.k == V_FX ? (b.i == FX_PINF ? INFINITY : -INFINITY) : 0; int s = x < y ? 1 : x == y ? 2 : 4; return vint((mask & s) != 0, 1); }
    return vbool(mk_cmp(psub(a.p, b.p), mask));
}
static int64_t concretise(const Val &v, const char *why) {
    if (v.k == V_INT) return v.i;
    if (v.k == V_BOOL) return decide(v.b, why) ? 1 : 0;
    if (v.k == V_UNDEF) { issue("uninit", Str("uninitialised integer used as ") + why); throw PathEnd{"fault", "uninitialised integer"}; }
    if (v.k == V_ISYM) { Iv iv = v.p->iv; double lo = std::ceil(iv.lo), hi = std::floor(iv.hi); if (!(hi - lo <= 300)) throw PathEnd{"error", Str("cannot concretise ") + why}; for (int64_t x = (int64_t)lo; x < (int64_t)hi; x++) if (decide(mk_cmp(psub(v.p, pc(Q(x))), 2), why)) return x; return (int64_t)hi; }
    throw PathEnd{"error", Str("concretise ") + why};
}
static Val visym(P p, int w) { if (is_const(p)) { Q q = const_of(p); if (q.isint() && q.small()) return vint(q.num(), w); } Val v; v.k = V_ISYM; v.w = w; v.p = p; return v; }
static const int64_t P2(int k) { return (int64_t)1 << k; }
static P as_unsigned(P p, int w) { return p->iv.lo >= 0 || w > 62 ? p : pmod(p, P2(w)); }
static P as_signed(P p, int w) { if (w > 62 || (p->iv.lo >= -(double)P2(w - 1) && p->iv.hi < (double)P2(w - 1))) return p; P h = pc(Q(P2(w - 1))); return psub(pmod(padd(p, h), P2(w)), h); }
static Val i_bin(unsigned op, Val a, Val b, int w) {
    if (w == 1 && (a.k == V_BOOL || b.k == V_BOOL)) {
        auto tb = [](const Val &v) -> const Bx * { if (v.k == V_BOOL) return v.b; if (v.k == V_INT) return (v.i & 1) ? &BT : &BF; return &BF; };
        const Bx *x = tb(a), *y = tb(b); if (op == Instruction::And) return vbool(b_and(x, y)); if (op == Instruction::Or) return vbool(b_or(x, y)); if (op == Instruction::Xor) return vbool(b_or(b_and(x, b_not(y)), b_and(b_not(x), y)));
    }
    if (a.k == V_UNDEF || b.k == V_UNDEF) { Val v; v.w = w; return v; }
    if (a.k == V_BOOL) a = vint(concretise(a, "bool"), w); if (b.k == V_BOOL) b = vint(concretise(b, "bool"), w);
    if (a.k == V_ISYM || b.k == V_ISYM) {
        if (op == Instruction::Add) return visym(padd(to_poly(a), to_poly(b)), w); if (op == Instruction::Sub) return visym(psub(to_poly(a), to_poly(b)), w); if (op == Instruction::Mul) return visym(pmul(to_poly(a), to_poly(b)), w);
        if (a.k == V_ISYM && b.k == V_INT) {
            P x = a.p; int64_t m = b.i;
            if ((op == Instruction::And) && m > 0 && ((m + 1) & m) == 0) return visym(pmod(x, m + 1), w);
            if (op == Instruction::Shl && m >= 0 && m < 31) return visym(as_signed(pscale(x, Q(P2(m))), w), w);
            if (op == Instruction::AShr && m >= 0 && m < 62) return visym(pfloordiv(x, P2(m)), w);
            if (op == Instruction::LShr && m >= 0 && m < 62 && (w <= 32 || x->iv.lo >= 0)) return visym(pfloordiv(as_unsigned(x, w), P2(m)), w);
            if ((op == Instruction::URem || op == Instruction::UDiv) && m > 0 && (w <= 32 || x->iv.lo >= 0)) { P u = as_unsigned(x, w); return visym(op == Instruction::URem ? pmod(u, m) : pfloordiv(u, m), w); }
            if ((op == Instruction::SRem || op == Instruction::SDiv) && m != 0 && m > INT32_MIN) { int64_t k = m < 0 ? -m : m; bool neg = x->iv.lo < 0 && (x->iv.hi < 0 || decide(mk_cmp(x, 1), "sign of a dividend")); P y = neg ? pneg(x) : x, r = pmod(y, k); if (op == Instruction::SRem) return visym(neg ? pneg(r) : r, w); P d = pscale(psub(y, r), Q(1, k)); return visym(neg != (m < 0) ? pneg(d) : d, w); }
        }
        a = vint(concretise(a, "integer operation"), w); b = vint(concretise(b, "integer operation"), w);
    }
    if (a.k == V_REAL || b.k == V_REAL) throw PathEnd{"error", "integer operation on floating-point bits"};
    int64_t x = a.i, y = b.i; uint64_t ux = uns(a), uy = uns(b);
    switch (op) {
    case Instruction::Add: return vint((int64_t)((uint64_t)x + (uint64_t)y), w); case Instruction::Sub: return vint((int64_t)((uint64_t)x - (uint64_t)y), w); case Instruction::Mul: return vint((int64_t)((uint64_t)x * (uint64_t)y), w);
    case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem:
        if (y == 0) { issue("arith", "integer division by zero"); throw PathEnd{"fault", "integer division by zero"}; }
        if (op == Instruction::SDiv) return vint(x / y, w); if (op == Instruction::SRem) return vint(x % y, w); if (op == Instruction::UDiv) return vint(ux / uy, w); return vint(ux % uy, w);
    case Instruction::And: return vint(x & y, w); case Instruction::Or: return vint(x | y, w); case Instruction::Xor: return vint(x ^ y, w);
    case Instruction::Shl: return vint(uy >= 64 ? 0 : (int64_t)(ux << uy), w); case Instruction::LShr: return vint(uy >= 64 ? 0 : (int64_t)(ux >> uy), w); case Instruction::AShr: return vint(x >> (uy > 63 ? 63 : uy), w);
    }
    throw PathEnd{"error", "int op"};
}
static Val i_cmp(unsigned pr, Val a, Val b) {
    if (a.k == V_UNDEF || b.k == V_UNDEF) { Val v; v.w = 1; return v; }
    if (a.k == V_BOOL || b.k == V_BOOL) { a = vint(concretise(a, "bool compare"), a.w); b = vint(concretise(b, "bool compare"), b.w); }
    if (a.k == V_ISYM || b.k == V_ISYM) {
        int mask = 0; bool un = false;
        switch (pr) { case ICmpInst::ICMP_EQ: mask = 2; break; case ICmpInst::ICMP_NE: mask = 5; break; case ICmpInst::ICMP_UGT: un = true; [[fallthrough]]; case ICmpInst::ICMP_SGT: mask = 4; break; case ICmpInst::ICMP_UGE: un = true; [[fallthrough]]; case ICmpInst::ICMP_SGE: mask = 6; break; case ICmpInst::ICMP_ULT: un = true; [[fallthrough]]; case ICmpInst::ICMP_SLT: mask = 1; break; case ICmpInst::ICMP_ULE: un = true; [[fallthrough]]; case ICmpInst::ICMP_SLE: mask = 3; break; }
        P x = to_poly(a), y = to_poly(b); if (un && (x->iv.lo < 0 || y->iv.lo < 0)) { int w = std::max(a.w, b.w); if (w > 32) throw PathEnd{"error", "unsigned comparison of a possibly negative symbolic integer"}; x = as_unsigned(x, w); y = as_unsigned(y, w); }
        return vbool(mk_cmp(psub(x, y), mask));
    }
    if (a.k == V_REAL || b.k == V_REAL) throw PathEnd{"error", "integer comparison of floating-point bits"};
    int64_t x = a.i, y = b.i; uint64_t ux = uns(a), uy = uns(b); bool r = false;
    switch (pr) { case ICmpInst::ICMP_EQ: r = ux == uy; break; case ICmpInst::ICMP_NE: r = ux != uy; break; case ICmpInst::ICMP_UGT: r = ux > uy; break; case ICmpInst::ICMP_UGE: r = ux >= uy; break; case ICmpInst::ICMP_ULT: r = ux < uy; break; case ICmpInst::ICMP_ULE: r = ux <= uy; break; case ICmpInst::ICMP_SGT: r = x > y; break; case ICmpInst::ICMP_SGE: r = x >= y; break; case ICmpInst::ICMP_SLT: r = x < y; break; case ICmpInst::ICMP_SLE: r = x <= y; break; }
    return vint(r, 1);
}
static bool cond_true(const Val &v, const char *why) {
    if (v.k == V_INT) return v.i & 1; if (v.k == V_BOOL) return decide(v.b, why);
    if (v.k == V_UNDEF) { issue("uninit", Str("control flow depends on uninitialised memory (") + why + ")"); return false; }
    return concretise(v, why) & 1;
}
// ------------------------------------------------------------------ interpreter
static Val run(CF *c, std::vector<Val> &args, CallBase *cb);
static Val run_body(CF *c, std::vector<Val> &args) {
    if (!c->compiled) compile(c);
    if (cstack.size() > 400) throw PathEnd{"error", "call depth"};
    std::vector<Val> R(c->nregs); for (int i = 0; i < c->nargs && i < (int)args.size(); i++) R[i] = args[i];
    struct Frame { std::vector<Obj *> al; ~Frame() { for (auto o : al) { o->alive = false; std::vector<Slot>().swap(o->s); } } } fr;
    if (c->repo) funcs.insert(c->nice);
    cstack.push_back({c, nullptr}); size_t depth = cstack.size();
    auto V = [&](const Opnd &o) -> const Val & { return o.slot >= 0 ? R[o.slot] : o.c; };
    int b = 0, prev = -1;
    for (;;) {
        CB &B = c->bl[b];
        if (!B.phis.empty()) { std::vector<Val> t; t.reserve(B.phis.size()); for (auto &p : B.phis) t.push_back(V(p.in.at(prev))); for (size_t i = 0; i < B.phis.size(); i++) R[B.phis[i].dst] = t[i]; }
        int nb = -1;
        for (auto &x : B.ins) {
            st.instr++; cstack[depth - 1].second = x.I; if ((st.instr & 0xfffff) == 0) check_deadline();
            switch (x.op) {
            case Instruction::Alloca: { int64_t n = x.imm * concretise(V(x.o[0]), "alloca"); Obj *o = new_obj(n, O_STACK, "local '" + x.I->getName().str() + "' of " + c->nice); fr.al.push_back(o); R[x.dst] = vptr(addr_of(o)); break; }
            case Instruction::Load: { const Val &p = V(x.o[0]); if (p.k != V_INT) { if (p.k == V_UNDEF) mem_fault("uninit", "load through an uninitialised pointer"); throw PathEnd{"error", "symbolic pointer"}; } R[x.dst] = load_val((uint64_t)p.i, x.ty); break; }
            case Instruction::Store: { const Val &p = V(x.o[1]); if (p.k != V_INT) { if (p.k == V_UNDEF) mem_fault("uninit", "store through an uninitialised pointer"); throw PathEnd{"error", "symbolic pointer"}; } store_val((uint64_t)p.i, V(x.o[0]), x.ty); break; }
            case Instruction::GetElementPtr: { const Val &p = V(x.o[0]); if (p.k == V_UNDEF) { R[x.dst] = Val(); break; } int64_t off = x.imm; bool un = false; for (auto &g : x.gep) { const Val &ix = V(x.o[g.first]); if (ix.k == V_UNDEF) { un = true; break; } off += concretise(ix, "index") * g.second; } if (un) { issue("uninit", "uninitialised index"); throw PathEnd{"fault", "uninitialised index"}; } R[x.dst] = vptr((uint64_t)p.i + (uint64_t)off); break; }
            case Instruction::FAdd: R[x.dst] = f_add(real_of(V(x.o[0])), real_of(V(x.o[1]))); break;
            case Instruction::FSub: R[x.dst] = f_add(real_of(V(x.o[0])), fx_neg(real_of(V(x.o[1])))); break;
            case Instruction::FMul: R[x.dst] = f_mul(real_of(V(x.o[0])), real_of(V(x.o[1]))); break;
            case Instruction::FDiv: R[x.dst] = f_div(real_of(V(x.o[0])), real_of(V(x.o[1]))); break;
            case Instruction::FNeg: R[x.dst] = fx_neg(real_of(V(x.o[0]))); break;
            case Instruction::FCmp: R[x.dst] = f_cmp(x.sub, V(x.o[0]), V(x.o[1])); break;
            case Instruction::ICmp: R[x.dst] = i_cmp(x.sub, V(x.o[0]), V(x.o[1])); break;
            case Instruction::FPExt: case Instruction::FPTrunc: R[x.dst] = real_of(V(x.o[0])); break;
            case Instruction::SIToFP: case Instruction::UIToFP: { Val a = V(x.o[0]); if (a.k == V_BOOL) a = vint(concretise(a, "bool to double"), 2); if (a.k == V_UNDEF) { R[x.dst] = undef_real("integer"); break; } if (a.k == V_INT && x.op == Instruction::UIToFP) a = vint((int64_t)uns(a), 64); R[x.dst] = vreal(to_poly(a)); break; }
            case Instruction::FPToSI: case Instruction::FPToUI: { Val a = real_of(V(x.o[0])); int w = x.ty->getIntegerBitWidth(); if (a.k == V_REAL && is_const(a.p)) { double d = const_of(a.p).d(); R[x.dst] = vint((int64_t)d, w); break; } if (a.k == V_REAL) { // truncation: enumerate
                    Iv iv = a.p->iv; double lo = std::floor(iv.lo), hi = std::floor(iv.hi); if (!(hi - lo < 300)) throw PathEnd{"error", "float to int of symbolic value"}; int64_t r = (int64_t)hi; bool done = false; for (int64_t k = (int64_t)lo; k < (int64_t)hi && !done; k++) { if (decide(mk_cmp(psub(a.p, pc(Q(k + 1))), 1), "float to int")) { r = k; done = true; } } if (r < 0 && !decide(mk_cmp(psub(a.p, pc(Q(r))), 2), "float to int")) r++; R[x.dst] = vint(r, w); break; }
                throw PathEnd{"error", "float to int of symbolic value"}; }
            case Instruction::SExt: { const Val &a = V(x.o[0]); int w = std::min(64u, x.ty->getIntegerBitWidth()); if (a.k == V_INT) R[x.dst] = vint(a.i, w); else if (a.k == V_ISYM) { R[x.dst] = a; R[x.dst].w = w; } else if (a.k == V_BOOL) R[x.dst] = vint(decide(a.b, "sext") ? -1 : 0, w); else { Val v; v.w = w; R[x.dst] = v; } break; }
            case Instruction::ZExt: { const Val &a = V(x.o[0]); int w = std::min(64u, x.ty->getIntegerBitWidth()); if (a.k == V_INT) R[x.dst] = vint((int64_t)uns(a), w); else if (a.k == V_ISYM) { if (a.p->iv.lo < 0 && a.w > 32) throw PathEnd{"error", "zext of possibly negative symbolic integer"}; R[x.dst] = visym(as_unsigned(a.p, a.w), w); } else if (a.k == V_BOOL) R[x.dst] = vint(decide(a.b, "bool value") ? 1 : 0, w); else { Val v; v.w = w; R[x.dst] = v; } break; }
            case Instruction::Trunc: { const Val &a = V(x.o[0]); int w = x.ty->getIntegerBitWidth(); if (a.k == V_INT) R[x.dst] = vint(a.i, w); else if (a.k == V_ISYM) { if (w == 1) R[x.dst] = vbool(mk_cmp(psub(pmod(a.p, 2), Pone()), 2)); else R[x.dst] = visym(as_signed(a.p, w), w); } else if (a.k == V_UNDEF) { Val v; v.w = w; R[x.dst] = v; } else R[x.dst] = vint(concretise(a, "trunc"), w); break; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: R[x.dst] = V(x.o[0]); break;
            case Instruction::Freeze: R[x.dst] = V(x.o[0]); break;
            case Instruction::BitCast: { Val a = V(x.o[0]); if (x.ty->isFloatingPointTy()) a = real_of(a); else if (x.ty->isIntegerTy() && a.k == V_REAL && is_const(a.p)) { double d = const_of(a.p).d(); int64_t i; memcpy(&i, &d, 8); a = vint(i, 64); } R[x.dst] = a; break; }
            case Instruction::Select: { Val cnd = V(x.o[0]); if (cnd.k == V_AGG) throw PathEnd{"error", "vector select"}; R[x.dst] = cond_true(cnd, "select") ? V(x.o[1]) : V(x.o[2]); break; }
            case Instruction::Br: if (x.b1 < 0) nb = x.b0; else nb = cond_true(V(x.o[0]), "branch") ? x.b0 : x.b1; break;
            case Instruction::Switch: { int64_t v = concretise(V(x.o[0]), "switch"); nb = x.b0; for (auto &cs : x.cases) if (cs.first == v) { nb = cs.second; break; } break; }
            case Instruction::Ret: { Val r; if (!x.o.empty()) r = V(x.o[0]); cstack.pop_back(); return r; }
            case Instruction::Unreachable: throw PathEnd{"fault", "unreachable executed"};
            case Instruction::Call: case Instruction::Invoke: {
                if (x.imm == 77) break; CF *cf = x.callee; size_t na = cast<CallBase>(x.I)->arg_size(); std::vector<Val> a; a.reserve(na); for (size_t i = 0; i < na; i++) a.push_back(V(x.o[i]));
                if (!cf) { const Val &fp = V(x.o[na]); Obj *o; int64_t off; if (fp.k != V_INT || !split((uint64_t)fp.i, o, off) || o->kind != O_FUNC) mem_fault("memory", "call through an invalid function pointer"); cf = get_cf(o->fn); }
                Val r = run(cf, a, cast<CallBase>(x.I)); if (x.dst >= 0) R[x.dst] = r; if (x.op == Instruction::Invoke) nb = x.b0; break;
            }
            case Instruction::ExtractValue: { Val a = V(x.o[0]); for (unsigned i : x.idx) { if (a.k != V_AGG) { a = Val(); break; } Val t = (*a.a)[i]; a = t; } R[x.dst] = a; break; }
            case Instruction::InsertValue: { Val a = V(x.o[0]); std::function<Val(Val, size_t, Type *)> ins = [&](Val g, size_t d, Type *t) -> Val { if (d == x.idx.size()) return V(x.o[1]); Val r; r.k = V_AGG; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); r.a = new std::vector<Val>(n); if (g.k == V_AGG) *r.a = *g.a; Type *et = t->isStructTy() ? t->getStructElementType(x.idx[d]) : t->getArrayElementType(); (*r.a)[x.idx[d]] = ins((*r.a)[x.idx[d]], d + 1, et); return r; }; R[x.dst] = ins(a, 0, x.I->getType()); break; }
            case Instruction::ExtractElement: { Val a = V(x.o[0]); int64_t i = concretise(V(x.o[1]), "vector index"); R[x.dst] = a.k == V_AGG ? (*a.a)[i] : Val(); break; }
            case Instruction::InsertElement: { Val a = V(x.o[0]); Val r; r.k = V_AGG; unsigned n = cast<FixedVectorType>(x.I->getType())->getNumElements(); r.a = new std::vector<Val>(n); if (a.k == V_AGG) *r.a = *a.a; (*r.a)[concretise(V(x.o[2]), "vector index")] = V(x.o[1]); R[x.dst] = r; break; }
            case Instruction::Fence: break;
            case Instruction::AtomicRMW: { auto *rm = cast<AtomicRMWInst>(x.I); uint64_t p = (uint64_t)V(x.o[0]).i; Type *t = rm->getValOperand()->getType(); Val old = load_val(p, t); Val nv = rm->getOperation() == AtomicRMWInst::Add ? i_bin(Instruction::Add, old, V(x.o[1]), old.w) : V(x.o[1]); store_val(p, nv, t); R[x.dst] = old; break; }
            default:
                if (x.I->isBinaryOp() && x.ty->isIntegerTy()) { R[x.dst] = i_bin(x.op, V(x.o[0]), V(x.o[1]), std::min(64u, x.ty->getIntegerBitWidth())); break; }
                throw PathEnd{"error", Str("unsupported instruction ") + x.I->getOpcodeName()};
            }
            if (nb >= 0) break;
        }
        if (nb < 0) throw PathEnd{"error", "fell off a block"};
        prev = b; b = nb;
    }
}
static Val run(CF *c, std::vector<Val> &args, CallBase *cb) {
    if (c->h) return c->h(args, cb);
    if (c->F->isDeclaration()) { if (throwing(c->name)) { issue("exception", "exception"); throw PathEnd{"fault", "exception"}; } throw PathEnd{"error", "unsupported external function " + c->name}; }
    return run_body(c, args);
}

// ------------------------------------------------------------------ streams and virtual files
struct Item { int kind; Str s; Val v; int prec; };          // 0 text, 1 number
struct Stream { bool isfile = false, open = false, str = false; Str fname; std::vector<Item> buf; int width = 0, prec = 6; bool fixed = false; };
static std::vector<Item> held;                                // symbolic numbers inside a C++ string: "\x01<index>\x02"
static std::map<uint64_t, Stream> streams; static std::map<Str, std::vector<Item>> vfiles;
static LLVMContext *CTX;
static Stream *find_stream(uint64_t a) { auto it = streams.upper_bound(a); if (it == streams.begin()) return nullptr; --it; if ((it->first >> 32) != (a >> 32) || a - it->first > 512) return nullptr; return &it->second; }
static void emit(Stream *s, Item it) {
    if (!s) return; int w = s->width; s->width = 0;
    if (w) { if (it.kind == 1 && it.v.k == V_INT) { Str t = std::to_string(it.v.i); if ((int)t.size() < w) { Item sp{0, Str(w - t.size(), ' '), Val(), 0}; emit(s, sp); } } else if (it.kind == 1 && w > 13) { Item sp{0, " ", Val(), 0}; emit(s, sp); } else if (it.kind == 0 && (int)it.s.size() < w) it.s = Str(w - it.s.size(), ' ') + it.s; }
    if (it.kind == 0 && it.s.find('\x01') != Str::npos) {
        Str t = it.s; size_t i = 0;
        auto put = [&](Item x) { if (s->isfile) { if (s->open) vfiles[s->fname].push_back(x); } else s->buf.push_back(x); };
        while (i < t.size()) { size_t j = t.find('\x01', i); if (j == Str::npos) j = t.size(); if (j > i) put(Item{0, t.substr(i, j - i), Val(), 0}); if (j >= t.size()) break; size_t e = t.find('\x02', j); if (e == Str::npos) throw PathEnd{"error", "number cut inside a string"}; put(held[atoi(t.substr(j + 1, e - j - 1).c_str())]); i = e + 1; }
        return;
    }
    if (it.kind == 0 || it.prec == 0) it.prec = s->fixed ? -1 : s->prec;
    if (s->isfile) { if (s->open) vfiles[s->fname].push_back(it); } else s->buf.push_back(it);
}
static void emit_text(Stream *s, const Str &t) { emit(s, Item{0, t, Val(), 0}); }
static Str read_string(uint64_t a) { Val p = load_val(a, PointerType::get(*CTX, 0)), n = load_val(a + 8, Type::getInt64Ty(*CTX)); Str s; int64_t off; if (n.k != V_INT || p.k != V_INT) throw PathEnd{"error", "symbolic string"}; if (!n.i) return s; Obj *o = access((uint64_t)p.i, n.i, off, false); for (int64_t i = 0; i < n.i; i++) { Val v = get_slot(o, off + i, 1, false, 8); if (v.k != V_INT) throw PathEnd{"error", "symbolic string"}; s += (char)v.i; } return s; }
static void write_string(uint64_t a, const Str &s) {
    uint64_t p = a + 16; if (s.size() > 15) { Obj *o = new_obj(s.size() + 1, O_NEW, "string buffer"); p = addr_of(o); store_val(a + 16, vint(s.size(), 64), Type::getInt64Ty(*CTX)); }
    store_val(a, vptr(p), PointerType::get(*CTX, 0)); store_val(a + 8, vint(s.size(), 64), Type::getInt64Ty(*CTX));
    for (size_t i = 0; i <= s.size(); i++) store_val(p + i, vint(i < s.size() ? s[i] : 0, 8), Type::getInt8Ty(*CTX));
}
static Str item_text(const Item &i) { if (i.kind == 0) return i.s; if (i.v.k == V_INT) return std::to_string(i.v.i); if (i.v.k == V_REAL && is_const(i.v.p)) { char b[64]; snprintf(b, 64, "%.*g", i.prec, const_of(i.v.p).d()); return b; } return "?"; }
static bool ends_with(const Str &s, const char *t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
static void do_open(uint64_t self, const Str &fn, int64_t mode) { Stream &s = streams[self]; s.isfile = true; s.open = true; s.fname = fn; if (!(mode & 1)) vfiles[fn].clear(); else vfiles[fn]; }
static Val stream_call(const Str &n, std::vector<Val> &a, CallBase *cb) {
    uint64_t self = !a.empty() && a[0].k == V_INT ? (uint64_t)a[0].i : 0; Val ret = a.empty() ? Val() : a[0];
    auto has = [&](const char *t) { return n.find(t) != Str::npos; };
    bool ofs = has("basic_ofstream") || has("basic_fstream"), sst = has("basic_stringstream") || has("basic_ostringstream");
    if (!has("_ZNSolsEPSt15basic_streambuf") && (has("basic_filebuf") || has("basic_streambuf") || has("basic_stringbuf"))) throw PathEnd{"error", "unmodelled stream buffer call " + n};
    if ((ofs || sst) && (has("C1E") || has("C2E"))) {
        streams.erase(self); Stream &s = streams[self]; s.isfile = ofs; s.str = sst;
        store_val(self, vptr(fake_vptr()), PointerType::get(*CTX, 0)); if (sst && has("basic_stringstream")) store_val(self + 16, vptr(fake_vptr()), PointerType::get(*CTX, 0));
        if (ofs && a.size() >= 2 && a[1].k == V_INT) { if (has("EPKc")) do_open(self, read_cstr((uint64_t)a[1].i), a.size() > 2 ? concretise(a[2], "mode") : 16); else if (has("ERKNSt7__cxx1112basic_string")) do_open(self, read_string((uint64_t)a[1].i), a.size() > 2 ? concretise(a[2], "mode") : 16); }
        else if (sst && a.size() >= 2 && has("ERKNSt7__cxx1112basic_string")) { Str t = read_string((uint64_t)a[1].i); (void)t; }
        return Val();
    }
    if ((ofs || sst) && (has("D1Ev") || has("D2Ev") || has("D0Ev"))) { streams.erase(self); return Val(); }
    if (ofs && has("4openE")) { if (has("EPKc")) do_open(self, read_cstr((uint64_t)a[1].i), concretise(a[2], "mode")); else do_open(self, read_string((uint64_t)a[1].i), concretise(a[2], "mode")); return Val(); }
    if (ofs && has("5closeEv")) { if (Stream *s = find_stream(self)) s->open = false; return Val(); }
    if (has("7is_openEv")) { Stream *s = find_stream(self); return vint(s && s->open, 1); }
    if (sst && has("3strEv")) { uint64_t th = (uint64_t)a[1].i; Stream *s = find_stream(th); Str t; if (s) for (auto &i : s->buf) { Str x = item_text(i); if (x == "?" || (i.kind == 1 && i.v.k == V_REAL)) { x = "\x01" + std::to_string(held.size()) + "\x02"; held.push_back(i); } t += x; } write_string(self, t); return Val(); }
    if (has("5rdbufEv")) { Stream *s = find_stream(ends_with(n, "5rdbufEv") ? self : 0); if (!s) throw PathEnd{"error", "stream buffer of an unknown stream"}; return vptr(self); }
    if (has("_ZNSolsEPSt15basic_streambuf")) { Stream *s = find_stream(self), *f = find_stream((uint64_t)a[1].i); if (!f) throw PathEnd{"error", "output of an unknown stream buffer"}; auto items = f->buf; for (auto &i : items) { if (s) { s->width = 0; if (s->isfile) { if (s->open) vfiles[s->fname].push_back(i); } else s->buf.push_back(i); } } return ret; }
    if (sst && has("3strERK")) { if (Stream *s = find_stream(self)) s->buf.clear(); emit_text(find_stream(self), read_string((uint64_t)a[1].i)); return Val(); }
    if (n.compare(0, 8, "_ZSt4end") == 0 || n.compare(0, 8, "_ZSt5flu") == 0) { if (has("4endl")) emit_text(find_stream(self), "\n"); return ret; }
    if (n.compare(0, 8, "_ZNSolsE") && (has("ios_base") || has("basic_ios"))) {
        Stream *s = find_stream(self);
        if (has("5widthEl") && s) { s->width = (int)concretise(a[1], "width"); return vint(0, 64); }
        if (has("9precisionEl") && s) { int o = s->prec; s->prec = (int)concretise(a[1], "precision"); return vint(o, 64); }
        if (has("cvbEv") || has("4goodEv")) return vint(1, 1);
        Type *rt = cb ? cb->getType() : nullptr; if (rt && rt->isIntegerTy()) return vint(0, rt->getIntegerBitWidth()); if (rt && rt->isPointerTy()) return ret; return Val();
    }
    if (n.compare(0, 8, "_ZNSolsE") == 0) {
        Str t = n.substr(8); Stream *s = find_stream(self);
        if (t == "d" || t == "f" || t == "e") { emit(s, Item{1, "", real_of(a[1]), 0}); return ret; }
        if (t == "b" || t == "i" || t == "j" || t == "l" || t == "m" || t == "x" || t == "y" || t == "s" || t == "t") { Val v = a[1]; if (v.k == V_BOOL) v = vint(concretise(v, "bool output"), 32); if (v.k == V_INT && (t == "j" || t == "m" || t == "y" || t == "t" || t == "b")) v = vint((int64_t)uns(v), 64); emit(s, Item{1, "", v, 0}); return ret; }
        if (t[0] == 'P' && t != "PKv") { Obj *o; int64_t off; if (split((uint64_t)a[1].i, o, off) && o->kind == O_FUNC) { if (o->name.find("4endl") != Str::npos) emit_text(s, "\n"); else if (o->name.find("ends") != Str::npos) emit_text(s, Str(1, 0)); else if (s && o->name.find("5fixed") != Str::npos) s->fixed = true; else if (s && (o->name.find("10scientific") != Str::npos || o->name.find("12defaultfloat") != Str::npos)) s->fixed = false; } return ret; }
        return ret;
    }
    if (n.compare(0, 6, "_ZStls") == 0) {
        Stream *s = find_stream(self);
        if (has("St5_Setw")) { if (s) s->width = (int)concretise(a[1], "setw"); return ret; }
        if (has("St13_Setprecision")) { if (s) s->prec = (int)concretise(a[1], "setprecision"); return ret; }
        if (has("__cxx1112basic_string")) { emit_text(s, read_string((uint64_t)a[1].i)); return ret; }
        if (ends_with(n, "PKc") || ends_with(n, "PKS3_") || ends_with(n, "PKa") || ends_with(n, "PKh")) { emit_text(s, read_cstr((uint64_t)a[1].i)); return ret; }
        if (ends_with(n, "_c") || ends_with(n, "ES5_c") || ends_with(n, "_a") || ends_with(n, "_h")) { emit_text(s, Str(1, (char)concretise(a[1], "char"))); return ret; }
        if (has("_Set") || has("_Reset")) return ret;
        throw PathEnd{"error", "unmodelled output operator " + n};
    }
    if (has("16__ostream_insert") || has("5writeEPKcl")) { Stream *s = find_stream(self); int64_t len = concretise(a[2], "length"), off; Str t; if (len) { Obj *o = access((uint64_t)a[1].i, len, off, false); for (int64_t i = 0; i < len; i++) { Val v = get_slot(o, off + i, 1, false, 8); t += (char)concretise(v, "char"); } } emit_text(s, t); return ret; }
    if (n == "_ZNSo3putEc") { emit_text(find_stream(self), Str(1, (char)concretise(a[1], "char"))); return ret; }
    if (has("flush") || has("locale") || has("_ZNSoD") || has("_ZNSoC")) return ret;
    throw PathEnd{"error", "unmodelled stream function " + n};
}
struct Tok { Str text; bool num = false; Val v; int prec = 6; };
static std::vector<Tok> tokens(const Str &f) {
    std::vector<Tok> r; auto it = vfiles.find(f); if (it == vfiles.end()) return r; Tok cur; bool have = false; int pieces = 0;
    auto fl = [&]() { if (have) { if (pieces != 1) cur.num = false; r.push_back(cur); } cur = Tok(); have = false; pieces = 0; };
    for (auto &i : it->second) {
        if (i.kind == 1) { cur.text += item_text(i); cur.num = true; cur.v = i.v; cur.prec = i.prec; have = true; pieces++; }
        else { bool np = true; for (char ch : i.s) { if (isspace((unsigned char)ch)) { fl(); np = true; } else { if (np) { pieces++; np = false; } cur.text += ch; have = true; } } }
    }
    fl();
    for (auto &t : r) if (!t.num && !t.text.empty()) { char *e; double d = strtod(t.text.c_str(), &e); if (!*e && t.text.find('?') == Str::npos) { t.num = true; t.v = from_double(d); } }
    return r;
}
// ------------------------------------------------------------------ builtins
static long heap_live() { long n = 0; for (auto o : objs) if (o && o->alive && (o->kind == O_HEAP || o->kind == O_NEW || o->kind == O_NEWA)) n++; return n; }
static void do_free(const Val &p, int kind, const char *what) {
    if (p.k == V_UNDEF) mem_fault("uninit", Str(what) + " of an uninitialised pointer"); if (p.i == 0) return;
    Obj *o; int64_t off; if (!split((uint64_t)p.i, o, off) || off != 0 || (o->kind != O_HEAP && o->kind != O_NEW && o->kind != O_NEWA)) mem_fault("memory", Str(what) + " of a pointer that was not allocated");
    if (!o->alive) mem_fault("memory", Str("double ") + what + " of " + o->name); if (o->kind != kind) mem_fault("memory", Str("mismatched ") + what + " of " + o->name);
    o->alive = false; std::vector<Slot>().swap(o->s);
}
static Str cur_fn() { for (auto it = cstack.rbegin(); it != cstack.rend(); ++it) if (it->first->repo) return it->first->nice; return cstack.empty() ? "?" : cstack.back().first->nice; }
static void install() {
    auto &B = builtins;
    auto alloc = [](int kind, const char *nm) { return [kind, nm](std::vector<Val> &a, CallBase *) { int64_t n = concretise(a[0], "allocation size"); if (n < 0) { issue("memory", "negative allocation size"); throw PathEnd{"fault", "allocation"}; } Obj *o = new_obj(n, kind, Str(nm) + " block of " + cur_fn()); return vptr(addr_of(o)); }; };
    B["malloc"] = alloc(O_HEAP, "malloc"); B["_Znwm"] = alloc(O_NEW, "new"); B["_Znam"] = alloc(O_NEWA, "new[]"); B["_ZnwmRKSt9nothrow_t"] = alloc(O_NEW, "new"); B["_ZnamRKSt9nothrow_t"] = alloc(O_NEWA, "new[]");
    B["calloc"] = [](std::vector<Val> &a, CallBase *) { int64_t n = concretise(a[0], "size") * concretise(a[1], "size"); Obj *o = new_obj(n, O_HEAP, "calloc block of " + cur_fn()); mem_set(addr_of(o), vint(0, 8), n); return vptr(addr_of(o)); };
    B["realloc"] = [](std::vector<Val> &a, CallBase *) { int64_t n = concretise(a[1], "size"); Obj *o = new_obj(n, O_HEAP, "realloc block of " + cur_fn()); if (a[0].i) { Obj *p; int64_t off; if (!split((uint64_t)a[0].i, p, off) || !p->alive || p->kind != O_HEAP || off) mem_fault("memory", "realloc of an invalid pointer"); mem_copy(addr_of(o), (uint64_t)a[0].i, std::min(n, p->size)); do_free(a[0], O_HEAP, "free"); } return vptr(addr_of(o)); };
    B["free"] = [](std::vector<Val> &a, CallBase *) { do_free(a[0], O_HEAP, "free"); return Val(); };
    auto del = [](std::vector<Val> &a, CallBase *) { do_free(a[0], O_NEW, "delete"); return Val(); }; auto dela = [](std::vector<Val> &a, CallBase *) { do_free(a[0], O_NEWA, "delete[]"); return Val(); };
    B["_ZdlPv"] = B["_ZdlPvm"] = del; B["_ZdaPv"] = B["_ZdaPvm"] = dela;
    auto mcpy = [](std::vector<Val> &a, CallBase *) { mem_copy((uint64_t)concretise(a[0], "pointer"), (uint64_t)concretise(a[1], "pointer"), concretise(a[2], "size")); return a[0]; };
    auto mset = [](std::vector<Val> &a, CallBase *) { mem_set((uint64_t)concretise(a[0], "pointer"), a[1], concretise(a[2], "size")); return a[0]; };
    for (auto n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove"}) B[n] = mcpy; for (auto n : {"llvm.memset", "memset"}) B[n] = mset;
    auto nop = [](std::vector<Val> &, CallBase *) { return Val(); };
    auto zero = [](std::vector<Val> &, CallBase *cb) { Type *t = cb->getType(); if (t->isIntegerTy()) return vint(0, std::min(64u, t->getIntegerBitWidth())); if (t->isPointerTy()) return vptr(0); return Val(); };
    for (auto n : {"llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stackrestore", "llvm.donothing", "llvm.experimental.noalias", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) B[n] = nop;
    for (auto n : {"__cxa_atexit", "printf", "puts", "putchar", "llvm.stacksave", "llvm.eh.typeid", "llvm.is.constant", "llvm.objectsize", "__cxa_guard_abort", "vfprintf", "perror"}) B[n] = zero;
    B["__cxa_guard_acquire"] = [](std::vector<Val> &a, CallBase *) { Val v = load_val((uint64_t)a[0].i, Type::getInt8Ty(*CTX)); return vint(v.i ? 0 : 1, 32); }; B["__cxa_guard_release"] = [](std::vector<Val> &a, CallBase *) { store_val((uint64_t)a[0].i, vint(1, 8), Type::getInt8Ty(*CTX)); return Val(); };
    B["llvm.expect"] = B["llvm.launder"] = B["llvm.strip"] = [](std::vector<Val> &a, CallBase *) { return a[0]; };
    auto ab = [](std::vector<Val> &a, CallBase *) { return f_abs(real_of(a[0])); }; for (auto n : {"llvm.fabs", "fabs", "fabsf"}) B[n] = ab;
    auto sq = [](std::vector<Val> &a, CallBase *) { return f_sqrt(real_of(a[0])); }; for (auto n : {"llvm.sqrt", "sqrt", "sqrtf"}) B[n] = sq;
    auto fma_ = [](std::vector<Val> &a, CallBase *) { return f_add(f_mul(real_of(a[0]), real_of(a[1])), real_of(a[2])); }; for (auto n : {"llvm.fmuladd", "llvm.fma", "fma"}) B[n] = fma_;
    B["hypot"] = [](std::vector<Val> &a, CallBase *) { return f_sqrt(f_add(f_mul(real_of(a[0]), real_of(a[0])), f_mul(real_of(a[1]), real_of(a[1])))); };
    auto pw = [](std::vector<Val> &a, CallBase *) -> Val { Val x = real_of(a[0]); Q e; if (a[1].k == V_INT) e = Q((int64_t)a[1].i); else { Val y = real_of(a[1]); if (y.k != V_REAL || !is_const(y.p)) throw PathEnd{"error", "pow with symbolic exponent"}; e = const_of(y.p); } bool half = false; if (!e.isint()) { Q e2 = e + e; if (!e2.isint()) throw PathEnd{"error", "pow exponent"}; half = true; e = e - Q(1, 2); } int k = (int)e.num(); Val r = vreal(Pone()); for (int i = 0; i < abs(k); i++) r = f_mul(r, x); if (k < 0) r = f_div(vreal(Pone()), r); if (half) r = f_mul(r, f_sqrt(x)); return r; };
    for (auto n : {"pow", "llvm.pow", "llvm.powi"}) B[n] = pw;
    auto fmx = [](bool mx) { return [mx](std::vector<Val> &a, CallBase *) { Val x = real_of(a[0]), y = real_of(a[1]); Val c = f_cmp(FCmpInst::FCMP_OLT, x, y); return cond_true(c, "fmax") == mx ? y : x; }; };
    for (auto n : {"fmax", "llvm.maxnum"}) B[n] = fmx(true); for (auto n : {"fmin", "llvm.minnum"}) B[n] = fmx(false);
    B["llvm.copysign"] = B["copysign"] = [](std::vector<Val> &a, CallBase *) { Val m = f_abs(real_of(a[0])); return cond_true(f_cmp(FCmpInst::FCMP_OLT, a[1], vreal(P0())), "copysign") ? fx_neg(m) : m; };
    auto flr = [](bool up_) { return [up_](std::vector<Val> &a, CallBase *) -> Val { Val x = real_of(a[0]); if (x.k == V_REAL && is_const(x.p)) { double d = const_of(x.p).d(); return from_double(up_ ? std::ceil(d) : std::floor(d)); } if (x.k == V_FX) return x; Iv iv = x.p->iv; double lo = std::floor(iv.lo), hi = std::ceil(iv.hi); if (!(hi - lo < 300)) throw PathEnd{"error", "floor of symbolic value"}; for (int64_t k = (int64_t)lo; k <= (int64_t)hi; k++) { if (up_ ? decide(mk_cmp(psub(x.p, pc(Q(k))), 3), "ceil") : decide(mk_cmp(psub(x.p, pc(Q(k + 1))), 1), "floor")) return vreal(pc(Q(k))); } throw PathEnd{"error", "floor"}; }; };
    B["floor"] = B["llvm.floor"] = flr(false); B["ceil"] = B["llvm.ceil"] = flr(true);
    auto imm = [](bool mx, bool sg) { return [mx, sg](std::vector<Val> &a, CallBase *) { Val c = i_cmp(sg ? ICmpInst::ICMP_SLT : ICmpInst::ICMP_ULT, a[0], a[1]); return cond_true(c, "max") == mx ? a[1] : a[0]; }; };
    B["llvm.smax"] = imm(true, true); B["llvm.smin"] = imm(false, true); B["llvm.umax"] = imm(true, false); B["llvm.umin"] = imm(false, false);
    auto iabs = [](std::vector<Val> &a, CallBase *) { return vint(std::llabs(concretise(a[0], "abs")), a[0].w); }; B["llvm.abs"] = B["abs"] = B["labs"] = iabs;
    B["strlen"] = [](std::vector<Val> &a, CallBase *) { return vint(read_cstr((uint64_t)a[0].i).size(), 64); };
    B["strcmp"] = [](std::vector<Val> &a, CallBase *) { return vint(strcmp(read_cstr((uint64_t)a[0].i).c_str(), read_cstr((uint64_t)a[1].i).c_str()), 32); };
    auto fmtout = [](std::vector<Val> &a, size_t fi) { Str f = read_cstr((uint64_t)a[fi].i), o; size_t k = fi + 1; for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { o += f[i]; continue; } Str sp = "%"; i++; while (i < f.size() && (isdigit(f[i]) || f[i] == '.' || f[i] == '-' || f[i] == '+' || f[i] == ' ' || f[i] == 'l' || f[i] == 'z' || f[i] == 'h')) { if (f[i] != 'l' && f[i] != 'z' && f[i] != 'h') sp += f[i]; i++; } if (i >= f.size()) break; char c = f[i], buf[512]; if (c == '%') { o += '%'; continue; } if (k >= a.size()) throw PathEnd{"error", "format without argument"}; if (c == 's') { snprintf(buf, 512, (sp + "s").c_str(), read_cstr((uint64_t)a[k].i).c_str()); } else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'c') { long long v = concretise(a[k], "formatted integer"); if (c == 'c') snprintf(buf, 512, "%c", (int)v); else snprintf(buf, 512, (sp + "ll" + c).c_str(), v); } else throw PathEnd{"error", Str("unmodelled format %") + c}; o += buf; k++; } return o; };
    auto putstr = [](uint64_t p, const Str &o) { for (size_t i = 0; i <= o.size(); i++) store_val(p + i, vint(i < o.size() ? (unsigned char)o[i] : 0, 8), Type::getInt8Ty(*CTX)); };
    B["snprintf"] = [=](std::vector<Val> &a, CallBase *) { Str o = fmtout(a, 2); int64_t n = concretise(a[1], "size"); if (n > 0) putstr((uint64_t)a[0].i, o.substr(0, (size_t)n - 1)); return vint((int64_t)o.size(), 32); };
    B["sprintf"] = [=](std::vector<Val> &a, CallBase *) { Str o = fmtout(a, 1); putstr((uint64_t)a[0].i, o); return vint((int64_t)o.size(), 32); };
    // C files
    auto cf = [](const Val &f) -> Stream * { auto it = streams.find((uint64_t)f.i); return it == streams.end() ? nullptr : &it->second; };
    B["fopen"] = [](std::vector<Val> &a, CallBase *) { Obj *o = new_obj(64, O_HEAP, "FILE"); Str md = read_cstr((uint64_t)a[1].i); o->kind = O_GLOBAL; uint64_t p = addr_of(o); do_open(p, read_cstr((uint64_t)a[0].i), md.find('a') != Str::npos || md.find('r') != Str::npos ? 1 : 16); return vptr(p); };
    B["fclose"] = [=](std::vector<Val> &a, CallBase *) { if (!cf(a[0]) || !cf(a[0])->open) mem_fault("memory", "fclose of a closed or invalid file"); streams.erase((uint64_t)a[0].i); return vint(0, 32); };
    B["fflush"] = [](std::vector<Val> &, CallBase *) { return vint(0, 32); };
    B["fputs"] = [=](std::vector<Val> &a, CallBase *) { emit_text(cf(a[1]), read_cstr((uint64_t)a[0].i)); return vint(1, 32); };
    B["fputc"] = B["putc"] = [=](std::vector<Val> &a, CallBase *) { emit_text(cf(a[1]), Str(1, (char)concretise(a[0], "char"))); return a[0]; };
    B["fwrite"] = [=](std::vector<Val> &a, CallBase *) { int64_t len = concretise(a[1], "size") * concretise(a[2], "size"); Str t; for (int64_t i = 0; i < len; i++) t += (char)concretise(load_val((uint64_t)a[0].i + i, Type::getInt8Ty(*CTX)), "char"); emit_text(cf(a[3]), t); return a[2]; };
    B["fprintf"] = [=](std::vector<Val> &a, CallBase *) { Stream *st = cf(a[0]); if (!st) return vint(0, 32); Str f = read_cstr((uint64_t)a[1].i); size_t k = 2;
        for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { emit_text(st, Str(1, f[i])); continue; } size_t b = i++; while (i < f.size() && strchr("0123456789.-+ #*lzh", f[i])) i++; if (i >= f.size()) break; if (f[i] == '%') { emit_text(st, "%"); continue; } if (k >= a.size()) throw PathEnd{"error", "format without argument"}; Str sp = f.substr(b, i - b); if (sp.find('*') != Str::npos) throw PathEnd{"error", "unmodelled format"};
            if (strchr("fegEGF", f[i])) { size_t d = sp.find('.'); int pr = d == Str::npos ? 6 : atoi(sp.c_str() + d + 1); bool lead = sp.size() > 1 && isdigit(sp[1]); if (lead) emit_text(st, " "); emit(st, Item{1, "", real_of(a[k]), f[i] == 'f' ? -1 : pr ? pr : 1}); }
            else if (f[i] == 's') emit_text(st, read_cstr((uint64_t)a[k].i)); else if (f[i] == 'c') emit_text(st, Str(1, (char)concretise(a[k], "char"))); else { st->width = sp.size() > 1 && isdigit(sp[1]) ? atoi(sp.c_str() + 1) : 0; emit(st, Item{1, "", a[k], 0}); } k++; } return vint(1, 32); };
    B["posix_memalign"] = [](std::vector<Val> &a, CallBase *) { Obj *o = new_obj(concretise(a[2], "size"), O_HEAP, "aligned block of " + cur_fn()); store_val((uint64_t)a[0].i, vptr(addr_of(o)), PointerType::get(*CTX, 0)); return vint(0, 32); };
    B["aligned_alloc"] = B["memalign"] = [](std::vector<Val> &a, CallBase *) { Obj *o = new_obj(concretise(a[1], "size"), O_HEAP, "aligned block of " + cur_fn()); return vptr(addr_of(o)); };
    B["llvm.is.fpclass"] = [](std::vector<Val> &a, CallBase *) -> Val { Val x = real_of(a[0]); int64_t m = concretise(a[1], "class"); if (x.k == V_FX) return vint(((x.i == FX_NAN ? 3 : x.i == FX_PINF ? 512 : 4) & m) != 0, 1); int64_t neg = m & 0x18, pos = m & 0x180, zer = m & 0x60; bool n = neg == 0x18, q = pos == 0x180, z = zer == 0x60; if ((neg && !n && neg != 8) || (pos && !q && pos != 256)) throw PathEnd{"error", "floating point class"}; n = neg != 0; q = pos != 0; if (zer && !z) { z = (zer == 0x40) ? q : false; } if (n == q && q == z) return vint(n, 1); int sg = sign_of(x.p); return vint(sg < 0 ? n : sg > 0 ? q : z, 1); };
    B["llvm.threadlocal"] = [](std::vector<Val> &a, CallBase *) { return a[0]; };
    auto cst = [](double (*g)(double)) { return [g](std::vector<Val> &a, CallBase *) -> Val { Val x = real_of(a[0]); if (x.k == V_REAL && is_const(x.p)) return from_double(g(const_of(x.p).d())); throw PathEnd{"error", "library function of a symbolic value"}; }; };
    B["cbrt"] = cst(std::cbrt); B["exp"] = B["llvm.exp"] = cst(std::exp); B["log"] = B["llvm.log"] = cst(std::log); B["sin"] = B["llvm.sin"] = cst(std::sin); B["cos"] = B["llvm.cos"] = cst(std::cos); B["round"] = B["llvm.round"] = cst(std::round); B["trunc"] = B["llvm.trunc"] = cst(std::trunc); B["log10"] = cst(std::log10); B["tan"] = cst(std::tan); B["atan"] = cst(std::atan);
    B["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = [](std::vector<Val> &a, CallBase *) { Type *i64 = Type::getInt64Ty(*CTX); std::__detail::_Prime_rehash_policy q; Val nr = load_val((uint64_t)a[0].i + 8, i64); q._M_next_resize = (size_t)concretise(nr, "hash table"); auto r = q._M_need_rehash((size_t)concretise(a[1], "hash table"), (size_t)concretise(a[2], "hash table"), (size_t)concretise(a[3], "hash table")); store_val((uint64_t)a[0].i + 8, vint((int64_t)q._M_next_resize, 64), i64); Val v; v.k = V_AGG; v.a = new std::vector<Val>; v.a->push_back(vint(r.first, 8)); v.a->push_back(vint((int64_t)r.second, 64)); return v; };
    B["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = [](std::vector<Val> &a, CallBase *) { std::__detail::_Prime_rehash_policy q; size_t r = q._M_next_bkt((size_t)concretise(a[1], "hash table")); store_val((uint64_t)a[0].i + 8, vint((int64_t)q._M_next_resize, 64), Type::getInt64Ty(*CTX)); return vint((int64_t)r, 64); };
    B["_ZSt11_Hash_bytesPKvmm"] = [](std::vector<Val> &a, CallBase *) { int64_t n = concretise(a[1], "size"); Str t; for (int64_t i = 0; i < n; i++) t += (char)concretise(load_val((uint64_t)a[0].i + i, Type::getInt8Ty(*CTX)), "hash"); return vint((int64_t)std::_Hash_bytes(t.data(), t.size(), (size_t)a[2].i), 64); };
    B["memchr"] = [](std::vector<Val> &a, CallBase *) { int64_t n = concretise(a[2], "size"), c = concretise(a[1], "char") & 255; for (int64_t i = 0; i < n; i++) { Val x = load_val((uint64_t)a[0].i + i, Type::getInt8Ty(*CTX)); if ((concretise(x, "char") & 255) == c) return vptr((uint64_t)a[0].i + i); } return vptr(0); };
    B["memcmp"] = [](std::vector<Val> &a, CallBase *) { int64_t n = concretise(a[2], "size"); int r = 0; for (int64_t i = 0; i < n && !r; i++) { Val x = load_val((uint64_t)a[0].i + i, Type::getInt8Ty(*CTX)), y = load_val((uint64_t)a[1].i + i, Type::getInt8Ty(*CTX)); uint64_t p = uns(vint(concretise(x, "memcmp"), 8)), q = uns(vint(concretise(y, "memcmp"), 8)); r = p < q ? -1 : p > q; } return vint(r, 32); };
    B["__gxx_personality_v0"] = nop;
    auto ovf = [](unsigned op, bool sg) { return [op, sg](std::vector<Val> &a, CallBase *) { Val r; r.k = V_AGG; r.a = new std::vector<Val>; __int128 x = sg ? (__int128)a[0].i : (__int128)uns(a[0]), y = sg ? (__int128)a[1].i : (__int128)uns(a[1]), z = op == Instruction::Mul ? x * y : x + y; Val v = vint((int64_t)z, a[0].w); __int128 back = sg ? (__int128)v.i : (__int128)uns(v); r.a->push_back(v); r.a->push_back(vint(back != z, 1)); return r; }; };
    B["llvm.umul.with"] = ovf(Instruction::Mul, false); B["llvm.smul.with"] = ovf(Instruction::Mul, true); B["llvm.uadd.with"] = ovf(Instruction::Add, false); B["llvm.sadd.with"] = ovf(Instruction::Add, true);
    B["llvm.ctlz"] = [](std::vector<Val> &a, CallBase *) { uint64_t u = uns(a[0]); int w = a[0].w, n = 0; while (n < w && !(u >> (w - 1 - n) & 1)) n++; return vint(n, w); };
    auto die = [](const char *k) { return [k](std::vector<Val> &, CallBase *) -> Val { issue("abort", k); throw PathEnd{"fault", k}; }; };
    B["abort"] = die("abort called"); B["llvm.trap"] = B["llvm.ubsantrap"] = die("trap"); B["exit"] = die("exit called");
    B["__assert_fail"] = [](std::vector<Val> &a, CallBase *) -> Val { issue("assert", "assertion failed: " + read_cstr((uint64_t)a[0].i)); throw PathEnd{"fault", "assert"}; };
    // std::list nodes
    Type *pt = PointerType::get(*CTX, 0);
    auto ld = [pt](uint64_t a) { Val v = load_val(a, pt); if (v.k != V_INT) mem_fault("uninit", "uninitialised list link"); return (uint64_t)v.i; };
    auto sto = [pt](uint64_t a, uint64_t v) { store_val(a, vptr(v), pt); };
    B["_ZNSt8__detail15_List_node_base7_M_hookEPS0_"] = [=](std::vector<Val> &a, CallBase *) { uint64_t t = a[0].i, p = a[1].i; sto(t, p); sto(t + 8, ld(p + 8)); sto(ld(p + 8), t); sto(p + 8, t); return Val(); };
    B["_ZNSt8__detail15_List_node_base9_M_unhookEv"] = [=](std::vector<Val> &a, CallBase *) { uint64_t t = a[0].i, nx = ld(t), pv = ld(t + 8); sto(pv, nx); sto(nx + 8, pv); return Val(); };
    B["_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_"] = [=](std::vector<Val> &a, CallBase *) { uint64_t self = a[0].i, f = a[1].i, l = a[2].i; if (self == l) return Val(); uint64_t lp = ld(l + 8), fp = ld(f + 8), sp = ld(self + 8); sto(lp, self); sto(fp, l); sto(sp, f); sto(self + 8, lp); sto(l + 8, fp); sto(f + 8, sp); return Val(); };
    B["_ZNSt8__detail15_List_node_base4swapERS0_S1_"] = [=](std::vector<Val> &a, CallBase *) { uint64_t x = a[0].i, y = a[1].i, xn = ld(x), xp = ld(x + 8), yn = ld(y), yp = ld(y + 8); auto put = [&](uint64_t h, uint64_t n, uint64_t p, bool e) { if (e) { sto(h, h); sto(h + 8, h); } else { sto(h, n); sto(h + 8, p); sto(p, h); sto(n + 8, h); } }; bool xe = xn == x, ye = yn == y; put(x, yn, yp, ye); put(y, xn, xp, xe); return Val(); };
    B["_ZNSt8__detail15_List_node_base10_M_reverseEv"] = [=](std::vector<Val> &a, CallBase *) { uint64_t t = a[0].i; do { uint64_t n = ld(t), p = ld(t + 8); sto(t, p); sto(t + 8, n); t = n; } while (t != (uint64_t)a[0].i); return Val(); };
    // std::map / std::set nodes: an unbalanced tree with the same ordering (rb node: color,parent,left,right)
    auto inc = [=](uint64_t x) { if (ld(x + 24)) { x = ld(x + 24); while (ld(x + 16)) x = ld(x + 16); } else { uint64_t y = ld(x + 8); while (x == ld(y + 24)) { x = y; y = ld(y + 8); } if (ld(x + 24) != y) x = y; } return x; };
    B["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"] = B["_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"] = [=](std::vector<Val> &a, CallBase *) { return vptr(inc((uint64_t)a[0].i)); };
    auto dec = [=](uint64_t x) { if (ld(ld(x + 8) + 8) == x && ld(x + 16) && concretise(load_val(x, Type::getInt32Ty(*CTX)), "color") == 0) return ld(x + 24); if (ld(x + 16)) { uint64_t y = ld(x + 16); while (ld(y + 24)) y = ld(y + 24); return y; } uint64_t y = ld(x + 8); while (x == ld(y + 16)) { x = y; y = ld(y + 8); } return y; };
    B["_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"] = B["_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"] = [=](std::vector<Val> &a, CallBase *) { return vptr(dec((uint64_t)a[0].i)); };
    B["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"] = [=](std::vector<Val> &a, CallBase *) { bool left = concretise(a[0], "insert") & 1; uint64_t x = a[1].i, p = a[2].i, h = a[3].i; sto(x + 8, p); sto(x + 16, 0); sto(x + 24, 0); store_val(x, vint(1, 32), Type::getInt32Ty(*CTX)); if (left) { sto(p + 16, x); if (p == h) { sto(h + 8, x); sto(h + 24, x); } else if (p == ld(h + 16)) sto(h + 16, x); } else { sto(p + 24, x); if (p == ld(h + 24)) sto(h + 24, x); } return Val(); };
    B["_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"] = [=](std::vector<Val> &a, CallBase *) { uint64_t z = a[0].i, h = a[1].i, y = z, x; 
        uint64_t nxt = inc(z), prv = ld(h + 16) == z ? 0 : dec(z); bool wasmin = ld(h + 16) == z, wasmax = ld(h + 24) == z;
        auto relink = [&](uint64_t o, uint64_t n) { uint64_t p = ld(o + 8); if (p == h) sto(h + 8, n); else if (ld(p + 16) == o) sto(p + 16, n); else sto(p + 24, n); if (n) sto(n + 8, p); };
        if (!ld(z + 16)) { x = ld(z + 24); relink(z, x); } else if (!ld(z + 24)) { x = ld(z + 16); relink(z, x); }
        else { y = ld(z + 24); while (ld(y + 16)) y = ld(y + 16); if (ld(y + 8) != z) { relink(y, ld(y + 24)); sto(y + 24, ld(z + 24)); sto(ld(z + 24) + 8, y); } relink(z, y); sto(y + 16, ld(z + 16)); sto(ld(z + 16) + 8, y); }
        if (wasmin) sto(h + 16, nxt); if (wasmax) sto(h + 24, prv ? prv : h); if (!ld(h + 8)) { sto(h + 16, h); sto(h + 24, h); } return vptr(z); };
    // ---- harness interface
    auto num = [](const Val &v) { Val r = real_of(v); if (r.k != V_REAL || !is_const(r.p)) throw PathEnd{"error", "constant expected"}; return const_of(r.p); };
    B["vp_real"] = [=](std::vector<Val> &a, CallBase *) { AtomId at = base_atom(read_cstr((uint64_t)a[0].i), num(a[1]), num(a[2]), false, true); return vreal(patom(at)); };
    B["vp_real_i"] = [=](std::vector<Val> &a, CallBase *) { AtomId at = base_atom(read_cstr((uint64_t)a[0].i) + "_" + std::to_string(concretise(a[1], "index")), num(a[2]), num(a[3]), false, true); return vreal(patom(at)); };
    B["vp_int"] = [=](std::vector<Val> &a, CallBase *) { AtomId at = base_atom(read_cstr((uint64_t)a[0].i), Q((int64_t)a[1].i), Q((int64_t)a[2].i), true, true); return visym(patom(at), 32); };
    B["vp_choose"] = [=](std::vector<Val> &a, CallBase *) { Str n = read_cstr((uint64_t)a[0].i); AtomId at = base_atom(n, Q((int64_t)a[1].i), Q((int64_t)a[2].i), true, true); int64_t v = concretise(visym(patom(at), 32), "choice"); return vint(v, 32); };
    B["vp_param"] = [=](std::vector<Val> &a, CallBase *) { Str n = read_cstr((uint64_t)a[0].i); auto it = params.find(n); return vint(it == params.end() ? a[1].i : it->second, 32); };
    B["vp_symbolic"] = [](std::vector<Val> &, CallBase *) { return vint(1, 32); };
    B["vp_assume"] = [](std::vector<Val> &a, CallBase *) { if (a[0].k == V_BOOL) assume(a[0].b); else if (!(concretise(a[0], "assume") & 1)) { flush_checks(); throw PathEnd{"assume", ""}; } return Val(); };
    B["vp_cover"] = [](std::vector<Val> &a, CallBase *) { covers.insert(read_cstr((uint64_t)a[0].i)); return Val(); };
    B["vp_observe"] = [](std::vector<Val> &a, CallBase *) { observes.push_back({read_cstr((uint64_t)a[0].i), a[1]}); return Val(); };
    auto lab = [](std::vector<Val> &a, int i) { Str s = read_cstr((uint64_t)a[i].i); if ((int)a.size() > i + 1 && a[i + 1].i != -1) s += "[" + std::to_string(a[i + 1].i) + "]"; return s; };
    B["vp_check"] = [=](std::vector<Val> &a, CallBase *) { st.checks++; Str l = lab(a, 1); if (a[0].k == V_BOOL) pending.push_back({b_not(a[0].b), l, nullptr, nullptr}); else if (a[0].k == V_UNDEF) add_fail("uninit", l + ": checked value is uninitialised", where(), wit); else if (!(a[0].i & 1)) pending.push_back({&BT, l, nullptr, nullptr}); else st.checks_ident++; return Val(); };
    B["vp_check_near"] = [=](std::vector<Val> &a, CallBase *) {
        st.checks++; Str l = lab(a, 3); Val x = a[0], y = a[1], t = real_of(a[2]);
        if (x.k == V_UNDEF || y.k == V_UNDEF) { add_fail("uninit", l + ": checked value is uninitialised", where(), wit); return Val(); }
        x = real_of(x); y = real_of(y);
        if (x.k == V_FX || y.k == V_FX || t.k == V_FX) { if (!(x.k == V_FX && y.k == V_FX && x.i == y.i && x.i != FX_NAN)) pending.push_back({&BT, l + " (not a finite number)", nullptr, nullptr}); else st.checks_ident++; return Val(); }
        if (x.p == y.p) { if (x.p->has_unin) { add_fail("uninit", l + ": checked value depends on uninitialised memory", where(), wit); return Val(); } pending.push_back({&BF, l, x.p, y.p}); return Val(); }
        P d = pnormal(psub(x.p, y.p)); if (d->has_unin) { add_fail("uninit", l + ": checked value depends on uninitialised memory", where(), wit); return Val(); }
        if (d->t.empty()) { pending.push_back({&BF, l, x.p, y.p}); return Val(); }
        const Bx *bad = b_or(mk_cmp(psub(d, t.p), 4), mk_cmp(psub(pneg(d), t.p), 4)); pending.push_back({bad, l, x.p, y.p}); return Val(); };
    B["vp_check_defined"] = [=](std::vector<Val> &a, CallBase *) { st.checks++; Str l = lab(a, 1); Val x = a[0]; if (x.k == V_UNDEF || (x.k == V_REAL && x.p->has_unin)) add_fail("uninit", l + ": value is uninitialised", where(), wit); else if (x.k == V_FX) pending.push_back({&BT, l + " (not a finite number)", nullptr, nullptr}); else st.checks_ident++; return Val(); };
    B["vp_check_defined_i"] = B["vp_check_defined"];
    B["vp_heap_live"] = [](std::vector<Val> &, CallBase *) { return vint(heap_live(), 32); };
    B["vp_file_exists"] = [](std::vector<Val> &a, CallBase *) { return vint(vfiles.count(read_cstr((uint64_t)a[0].i)), 32); };
    B["vp_tok_count"] = [](std::vector<Val> &a, CallBase *) { return vint(tokens(read_cstr((uint64_t)a[0].i)).size(), 32); };
    auto tk = [](std::vector<Val> &a) { auto t = tokens(read_cstr((uint64_t)a[0].i)); size_t i = (size_t)concretise(a[1], "token"); return i < t.size() ? t[i] : Tok(); };
    B["vp_tok_is"] = [=](std::vector<Val> &a, CallBase *) { Tok t = tk(a); return vint(t.text == read_cstr((uint64_t)a[2].i), 32); };
    B["vp_tok_isnum"] = [=](std::vector<Val> &a, CallBase *) { return vint(tk(a).num, 32); };
    B["vp_tok_double"] = [=](std::vector<Val> &a, CallBase *) { Tok t = tk(a); if (!t.num) return vfx(FX_NAN); if (t.v.k == V_INT || t.v.k == V_ISYM) return vreal(to_poly(t.v)); return real_of(t.v); };
    B["vp_tok_prec"] = [=](std::vector<Val> &a, CallBase *) { return vint(tk(a).prec, 32); };
    B["vp_tok_find"] = [](std::vector<Val> &a, CallBase *) { auto t = tokens(read_cstr((uint64_t)a[0].i)); Str w = read_cstr((uint64_t)a[2].i); for (size_t i = (size_t)concretise(a[1], "token"); i < t.size(); i++) if (t[i].text.find(w) != Str::npos) return vint(i, 32); return vint(-1, 32); };
    B["vp_file_clear"] = [](std::vector<Val> &a, CallBase *) { vfiles.erase(read_cstr((uint64_t)a[0].i)); return Val(); };
    B["vp_dump"] = [](std::vector<Val> &a, CallBase *) { Val v = a[1]; fprintf(stderr, "DUMP %s = %s\n", read_cstr((uint64_t)a[0].i).c_str(), v.k == V_REAL ? psS(v.p).c_str() : v.k == V_UNDEF ? "undef" : v.k == V_FX ? "fx" : std::to_string(v.i).c_str()); return Val(); };
}
static void finish(const Str &end, const Str &msg) {
    Str o = "{\"path\": \"" + path_id + "\", \"end\": \"" + jesc(end) + "\", \"msg\": \"" + jesc(msg) + "\"";
    o += ", \"where\": \"" + jesc(end == "ok" || end == "assume" ? "" : where()) + "\"";
    auto J = [&](const char *k, double v) { char b[64]; snprintf(b, 64, ", \"%s\": %.6g", k, v); o += b; };
    auto L = [&](const char *k, long v) { o += Str(", \"") + k + "\": " + std::to_string(v); };
    L("instr", st.instr); L("queries", st.queries); L("sat", st.sat); L("unsat", st.unsat); L("unknown", st.unknown); J("solver_s", st.solver_s); L("checks", st.checks); L("checks_ident", st.checks_ident); L("checks_ident_solver", ident_conf); L("checks_solver", st.checks_solver); L("branches", st.branches); L("constraints", (long)pcs.size()); L("samples_used", st.samples_used);
    auto set = [&](const char *k, const std::set<Str> &s) { o += Str(", \"") + k + "\": ["; bool f = true; for (auto &x : s) { o += (f ? "\"" : ", \"") + jesc(x) + "\""; f = false; } o += "]"; };
    set("funcs", funcs); set("covers", covers); set("notes", notes);
    o += ", \"undecided\": ["; for (size_t i = 0; i < undecided.size(); i++) o += (i ? ", \"" : "\"") + jesc(undecided[i]) + "\""; o += "]";
    o += ", \"fails\": ["; for (size_t i = 0; i < fails.size(); i++) o += Str(i ? ", " : "") + "{\"kind\": \"" + jesc(fails[i].kind) + "\", \"label\": \"" + jesc(fails[i].label) + "\", \"detail\": \"" + jesc(fails[i].detail) + "\", \"model\": " + fails[i].model + "}"; o += "]";
    if (wit_ok && (end == "ok")) { o += ", \"witness\": " + full_model(wit) + ", \"observed\": {"; Ev e(wit); bool f = true; for (auto &x : observes) { Str v; if (x.v.k == V_REAL || x.v.k == V_ISYM) { mpf_class r = e.ev(x.v.p); char b[64]; snprintf(b, 64, "%.12g", r.get_d()); v = b; } else if (x.v.k == V_INT) v = std::to_string(x.v.i); else v = "null"; o += (f ? "\"" : ", \"") + jesc(x.name) + "\": " + v; f = false; } o += "}"; }
    o += "}\n"; int fd = open(opt_out.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (write(fd, o.data(), o.size()) < 0) {} close(fd);
}
// solver confirmation of obligations closed by the polynomial normal form: sent as-is, one batch
int main(int argc, char **argv) {
    Str mod; t_start = now(); signal(SIGPIPE, SIG_IGN);
    for (int i = 1; i < argc; i++) { Str a = argv[i]; auto nx = [&]() { return Str(argv[++i]); };
        if (a == "--entry") opt_entry = nx(); else if (a == "--out") opt_out = nx(); else if (a == "--z3") opt_z3 = nx(); else if (a == "--timeout") opt_timeout = atof(nx().c_str()); else if (a == "--seed") opt_seed = atoi(nx().c_str()); else if (a == "--qtimeout") opt_qtimeout = atoi(nx().c_str()); else if (a == "--maxpaths") opt_maxpaths = atol(nx().c_str()); else if (a == "--jobs") opt_jobs = atoi(nx().c_str()); else if (a == "--dump") opt_dump = nx();
        else if (a == "--param") { Str p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = atol(p.c_str() + e + 1); } else mod = a; }
    rng.seed(opt_seed); new_atom(Atom{A_RAD, "unused"}); shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    LLVMContext ctx; CTX = &ctx; SMDiagnostic err; auto M = parseIRFile(mod, err, ctx); if (!M) { err.print("symx", errs()); return 3; }
    MOD = M.get(); DL = &M->getDataLayout(); install();
    Function *F = M->getFunction(opt_entry); if (!F) { fprintf(stderr, "no entry %s\n", opt_entry.c_str()); return 3; }
    unlink(opt_out.c_str()); Str end = "ok", msg;
    try {
        if (auto *G = M->getNamedGlobal("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &o : A->operands()) { auto *S = cast<ConstantStruct>(o.get()); if (auto *CFn = dyn_cast<Function>(S->getOperand(1))) { std::vector<Val> no; run(get_cf(CFn), no, nullptr); } }
        std::vector<Val> no; run(get_cf(F), no, nullptr); flush_checks();
    } catch (PathEnd &e) { end = e.kind; msg = e.msg; if (end == "fault") { try { flush_checks(); } catch (PathEnd &) {} } }
    finish(end, msg);
    for (pid_t k : kids) { int s; waitpid(k, &s, 0); if (WIFSIGNALED(s)) { undecided.push_back("path process died"); } }
    if (getenv("SYMX_PAR") && path_id.size()) __sync_sub_and_fetch(&shm->jobs, 1);
    z3.stop(); _exit(0);
}
