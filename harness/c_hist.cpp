// History semantics through the public interface; every node prescribed (one direction has two node planes), uniform strain in every element.
#include "ref.h"
struct Comp { RefPt p[2]; bool pl[2]; double f; };
// comp=0: one plastic material; comp=1: plastic layer in an elastic matrix; comp=2: two plastic layers
static Comp mats(Cfg &c, double tol) {
	Comp k; RefPt p; int comp = vp_param("comp", 0);
	p.E = vp_param("symE", 0) ? vp_real("E", 1e6, 1e8) : 1e7; p.nu = 0.25; p.Sy = vp_param("symSy", 0) ? vp_real("Sy", 1e3, 1e5) : 1e4; p.Ka = vp_param("symKa", 0) ? vp_real("Ka", 0.0, 1e6) : vp_param("Ka", 0) * 1.0;
	k.p[0] = k.p[1] = p; k.pl[0] = k.pl[1] = true; if (comp) { k.p[0].E = 4e7; k.p[0].nu = 0.2; k.p[0].Sy = 3e4; k.p[0].Ka = 2e5; if (comp == 1) k.pl[0] = false; }
	c.geom(false); for (int i = 0; i < 2; i++) { c.mt[i] = k.pl[i]; c.mat(i, k.p[i].E, k.p[i].nu, k.p[i].Sy, k.p[i].Ka); } c.type = 1; c.mp[4] = tol;
	// the first layer of elements (along y) is material 1
	c.mp[3] = comp ? c.h(1) : 100.0; k.f = comp ? 1.0 / (c.ny - 1) : 1.0; return k;
}
struct State { Hist h[2]; };
static bool step(const Comp &k, const double *e, const State &a, State &o, double *sig, double mg) {
	bool fl = false; double s[6]; for (int v = 0; v < 6; v++) sig[v] = 0; o = a;
	for (int i = 0; i < 2; i++) { double f = i ? k.f : 1 - k.f; if (f == 0) continue;
		if (k.pl[i]) { if (ref_step(k.p[i], e, a.h[i], o.h[i], s, mg)) fl = true; } else hooke(k.p[i].lam(), k.p[i].mu(), 3, e, s);
		for (int v = 0; v < 6; v++) sig[v] += f * s[v]; }
	return fl;
}
static int mk_up(int k) { return vp_choose(k == 0 ? "up0" : k == 1 ? "up1" : k == 2 ? "up2" : "up3", 0, vp_param("maxup", 2)); }
static double load(int k) { int s = vp_param("sg", 0); for (int i = 0; i < k; i++) s /= 10; s %= 10; return s == 0 ? vp_real_i("t", k, -0.1, 0.1) : s == 1 ? vp_real_i("t", k, 0.0, 0.1) : vp_real_i("t", k, -0.1, 0.0); }
static double tolS(double E) { return vp_symbolic() ? 1e-6 : 1e-7 * E; }
static void tolcheck(const double *s, const double *r, double T, const char *l) { for (int v = 0; v < 6; v++) vp_check_near(s[v], r[v], T, l, v); }
// steps: number of loading steps; dirs: decimal digits = direction of each step; upd: chosen per step
extern "C" void h_history() {
	Cfg c; Comp p = mats(c, -1.0); micropp_t *m = c.make(); int steps = vp_param("steps", 2), dirs = vp_param("dirs", 0), id = 3; double mg = 1e-3, T = tolS(c.E(0));
	State com, tri; bool had = false;
	for (int k = 0; k < steps; k++) {
		double t = load(k), e[6], s[6], r[6]; direction(dirs % 10, t, e); dirs /= 10;
		bool fl = step(p, e, com, tri, r, mg); if (fl) had = true;
		m->set_macro_strain(id, e); m->homogenize(); m->get_macro_stress(id, s);
		tolcheck(s, r, T, k ? "stress of a later step follows the committed history" : "stress of the first step");
		int nl = 9; m->get_nl_flag(id, &nl); vp_check(nl == (had ? 1 : 0), "non-linear flag", k);
		if (k && !fl && had) vp_cover("elastic unloading with history"); if (k && fl && had) vp_cover("reloading");
		if (vp_param("again", 0)) { m->homogenize(); m->get_macro_stress(id, s); tolcheck(s, r, T, "solving again without a commit changes nothing"); }
		int up = mk_up(k); for (int i = 0; i < up; i++) m->update_vars();
		if (up) com = tri;
		m->get_macro_stress(id, s); tolcheck(s, r, T, "commit leaves the reported stress alone");
		// a solve with the strain just committed: same stress, no further flow, whatever is committed next
		if (vp_param("hold", 0)) { m->homogenize(); m->get_macro_stress(id, s); tolcheck(s, r, T, "solving again at the committed strain gives the same stress"); if (up && vp_choose("hc", 0, 1)) m->update_vars(); }
		if (k == steps - 1) vp_observe("s0", s[0] + 2 * s[3]);
	}
	delete m; vp_cover("history");
}
// Several points share one cell: each result depends on that point's own strain and history only.
// order: the order in which the points are first set (0: 5,-2,9  1: 9,5,-2)
extern "C" void h_points() {
	Cfg c; Comp p = mats(c, -1.0); micropp_t *m = c.make(); int np = vp_param("np", 2), steps = vp_param("steps", 2), dirs = vp_param("dirs", 0); int ids[3] = { 5, -2, 9 }; double mg = 1e-3, T = tolS(c.E(0));
	State com[3], tri[3]; bool had[3] = { false, false, false }; double s[6], r[3][6], e[3][6];
	for (int k = 0; k < steps; k++) {
		for (int q = 0; q < np; q++) { int i = vp_param("order", 0) ? np - 1 - q : q;
			// the last point stays elastic and unloaded in the second step unless act=1
			direction((dirs + i) % 10, load(k * np + i), e[i]); m->set_macro_strain(ids[i], e[i]); }
		for (int i = 0; i < np; i++) if (step(p, e[i], com[i], tri[i], r[i], mg)) had[i] = true;
		m->homogenize();
		for (int i = 0; i < np; i++) { m->get_macro_stress(ids[i], s); tolcheck(s, r[i], T, "stress of each point depends on its own strain and history"); int nl = 9; m->get_nl_flag(ids[i], &nl); vp_check(nl == (had[i] ? 1 : 0), "non-linear flag of each point", i); if (i && had[0] != had[i]) vp_cover("points in different states"); }
		int up = vp_choose(k ? "upB" : "upA", 0, 1); if (up) { m->update_vars(); for (int i = 0; i < np; i++) com[i] = tri[i]; }
	}
	m->get_macro_stress(ids[0], s); vp_observe("s0", s[0] + 2 * s[3]); delete m; vp_cover("points");
}
// Reported tangent: column i is the change of the stress per unit change of strain component i, from the same committed history.
extern "C" void h_tangent() {
	Cfg c; Comp p = mats(c, -1.0); micropp_t *m = c.make(); int steps = vp_param("steps", 1), dirs = vp_param("dirs", 0), id = 8; double mg = 1e-3; State com, tri, o; double C[36], r[6], r1[6], e[6], e1[6]; bool fl = false;
	for (int k = 0; k < steps; k++) { direction(dirs % 10, load(k), e); dirs /= 10; fl = step(p, e, com, tri, r, mg); m->set_macro_strain(id, e); m->homogenize(); if (k < steps - 1 && vp_choose("commit", 0, 1)) { m->update_vars(); com = tri; } }
	m->get_macro_ctan(id, C); if (fl) vp_cover("tangent while flowing"); else vp_cover("elastic tangent");
	double d = 1e-8, T = 1e-4 * c.E(0);
	for (int i = 0; i < 6; i++) { for (int v = 0; v < 6; v++) e1[v] = e[v]; e1[i] += d; step(p, e1, com, o, r1, 0.0); for (int v = 0; v < 6; v++) vp_check_near(C[v * 6 + i], (r1[v] - r[v]) / d, T, "tangent column is the stress change per strain change", v * 6 + i); }
	vp_observe("C0", C[0] + C[7]); delete m; vp_cover("tangent");
}
// Linear shortcut: used exactly when the trace of the linear stress is below the user's tolerance and the point has no history.
extern "C" void h_shortcut() {
	Cfg c; double tol = vp_param("symtol", 1) ? vp_real("tol", 1.0, 1e7) : 1e5; Comp p = mats(c, tol); micropp_t *m = c.make(); int steps = vp_param("steps", 1), dirs = vp_param("dirs", 0), id = 4; double mg = 1e-3, T = tolS(c.E(0)); State com, tri; bool had = false;
	for (int k = 0; k < steps; k++) {
		double e[6], s[6], r[6], l[6] = { 0 }, h[6]; direction(dirs % 10, load(k), e); dirs /= 10;
		for (int i = 0; i < 2; i++) { double f = i ? p.f : 1 - p.f; hooke(p.p[i].lam(), p.p[i].mu(), 3, e, h); for (int v = 0; v < 6; v++) l[v] += f * h[v]; }
		double tr = l[0] + l[1] + l[2]; if (tr < 0) tr = -tr; bool lin = tr < tol && !had; vp_assume(tr < tol * (1 - mg) || tr > tol * (1 + mg));
		bool fl = step(p, e, com, tri, r, mg); if (lin) tri = com; if (fl && !lin) had = true;
		m->set_macro_strain(id, e); m->homogenize(); m->get_macro_stress(id, s);
		for (int v = 0; v < 6; v++) vp_check_near(s[v], lin ? l[v] : r[v], T, lin ? "linear answer below the tolerance" : had ? "full answer with history or above the tolerance" : "full answer above the tolerance", v);
		if (lin) { double C[36]; m->get_macro_ctan(id, C); for (int i = 0; i < 6; i++) { double u[6] = { 0 }, q[6] = { 0 }; u[i] = 1; for (int g = 0; g < 2; g++) { hooke(p.p[g].lam(), p.p[g].mu(), 3, u, h); for (int v = 0; v < 6; v++) q[v] += (g ? p.f : 1 - p.f) * h[v]; } for (int v = 0; v < 6; v++) vp_check_near(C[v * 6 + i], q[v], 1e-4 * c.E(0), "linear tangent below the tolerance", v * 6 + i); } }
		int nl = 9; m->get_nl_flag(id, &nl); vp_check(nl == (had ? 1 : 0), "non-linear flag", k);
		if (lin && fl) vp_cover("shortcut past the yield limit"); if (!lin && tr < tol) vp_cover("history disables the shortcut"); if (!lin && tr > tol) vp_cover("above the tolerance");
		if (k < steps - 1 && vp_choose("commit", 0, 1)) { m->update_vars(); com = tri; }
		if (k == steps - 1) vp_observe("s0", s[0] + 2 * s[3]);
	}
	delete m; vp_cover("shortcut");
}
