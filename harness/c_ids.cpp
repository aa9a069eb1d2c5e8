// Bookkeeping of macroscopic points by identifier; elastic composite, every node prescribed.
#include "h.h"
static void setup(Cfg &c) { c.geom(false); c.type = 1; c.mt[0] = vp_param("mt0", 0); c.mt[1] = vp_param("mt1", 0); c.mat(0, 3e7, 0.2, 1e9, 0.0); c.mat(1, 1e7, 0.25, 1e9, 0.0); c.mp[3] = 0.6 * c.mp[1]; c.mp[4] = vp_param("lin", 0) ? 1e30 : -1.0; }
static void answer(const Cfg &c, const double *e, double *s) { double a[6], b[6]; int k = 0; for (int ey = 0; ey < c.ny - 1; ey++) if ((ey + 0.5) * c.h(1) < c.mp[3]) k++; double f = (double)k / (c.ny - 1); hooke(c.lam(0), c.mu(0), c.dim, e, a); hooke(c.lam(1), c.mu(1), c.dim, e, b); for (int v = 0; v < c.nv; v++) s[v] = (1 - f) * a[v] + f * b[v]; }
static void strain(const Cfg &c, int k, double *e) { double t = vp_real_i("t", k, -0.1, 0.1); static const double D[4][6] = { { 1, 2, -1, 3, 1, -2 }, { -2, 1, 1, 1, -1, 3 }, { 1, 1, 1, -1, 2, 1 }, { 0, 3, -2, 1, 1, 1 } }; for (int v = 0; v < c.nv; v++) e[v] = t * D[k % 4][v]; }
static const char *ID[4] = { "id0", "id1", "id2", "id3" };
// n points with arbitrary (possibly equal) identifiers, then a query with an arbitrary identifier
extern "C" void h_ids() {
	Cfg c; setup(c); micropp_t *m = c.make(); int n = vp_param("np", 2), R = vp_param("range", 2000000000), id[4]; double e[4][6], r[6], T = vp_symbolic() ? 0.0 : 1.0;
	for (int i = 0; i < n; i++) { id[i] = vp_int(ID[i], -R, R); strain(c, i, e[i]); m->set_macro_strain(id[i], e[i]); }
	m->homogenize(); int q = vp_int("q", -R, R), last = -1; for (int i = 0; i < n; i++) if (id[i] == q) last = i;
	double s[6], C[36]; for (int v = 0; v < 6; v++) s[v] = 123.0 + v; for (int v = 0; v < 36; v++) C[v] = -7.0 - v; int nl = 9;
	m->get_macro_stress(q, s); m->get_macro_ctan(q, C); m->get_nl_flag(q, &nl); vp_check(nl == 0, "no history: flag is zero, for a known or unknown point", -1);
	if (last < 0) { vp_cover("unknown point"); for (int v = 0; v < 6; v++) vp_check_near(s[v], 123.0 + v, 0.0, "query of an unknown point leaves the stress alone", v); for (int v = 0; v < 36; v++) vp_check_near(C[v], -7.0 - v, 0.0, "query of an unknown point leaves the tangent alone", v); }
	else { vp_cover("known point"); if (last != 0 && id[0] == q) vp_cover("strain set twice"); answer(c, e[last], r); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], T, "result belongs to the strain last set under that identifier", v);
		for (int v = c.nv; v < 6; v++) vp_check_near(s[v], 123.0 + v, 0.0, "only the stress components of this dimension are written", v); for (int v = c.nv * c.nv; v < 36; v++) vp_check_near(C[v], -7.0 - v, 0.0, "only the tangent components of this dimension are written", v);
		for (int i = 0; i < c.nv; i++) { double u[6] = { 0 }; u[i] = 1; answer(c, u, r); for (int v = 0; v < c.nv; v++) vp_check_near(C[v * c.nv + i], r[v], vp_symbolic() ? 0.0 : 1e3, "tangent of the point", v * c.nv + i); } }
	vp_observe("s0", s[0]); delete m; vp_cover("identifiers");
}
// Results stay those of the last solve until the next one; setting a new strain or another point does not disturb them.
extern "C" void h_latest() {
	Cfg c; setup(c); micropp_t *m = c.make(); int R = 2000000000, a = vp_int("id0", -R, R), b = vp_int("id1", -R, R); double ea[6], eb[6], en[6], r[6], s[6], T = vp_symbolic() ? 0.0 : 1.0; strain(c, 0, ea); strain(c, 1, eb); strain(c, 2, en);
	m->set_macro_strain(a, ea); m->homogenize(); m->set_macro_strain(b, eb); m->get_macro_stress(a, s); answer(c, ea, r); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], T, "setting a strain leaves the last result in place", v);
	if (vp_choose("commit", 0, 1)) m->update_vars();
	m->homogenize(); m->get_macro_stress(a, s); answer(c, a == b ? eb : ea, r); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], T, "a point added later leaves the others alone", v);
	m->get_macro_stress(b, s); answer(c, eb, r); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], T, "a point added later gets its own result", v);
	m->set_macro_strain(a, en); m->homogenize(); m->get_macro_stress(a, s); answer(c, en, r); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], T, "a new strain replaces the previous one", v);
	m->get_macro_stress(b, s); if (a != b) { answer(c, eb, r); vp_cover("two points"); } else vp_cover("same point"); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], T, "a new strain for one point leaves the other alone", v);
	// the caller's arrays are only read
	double e2[6]; strain(c, 2, e2); for (int v = 0; v < c.nv; v++) vp_check_near(en[v], e2[v], 0.0, "the strain passed in is not modified", v);
	vp_observe("s0", s[0]); delete m; vp_cover("latest");
}
// Many points: results of each are those of its own strain, also after some strains change
extern "C" void h_many() {
	Cfg c; setup(c); micropp_t *m = c.make(); int n = vp_param("np", 60), st = vp_param("stride", 7919); double t = vp_real("t", -0.1, 0.1), w = vp_real("w", -0.1, 0.1), T = vp_symbolic() ? 0.0 : 1.0; vector<double> e(n * 6, 0.0);
	for (int r = 0; r < 2; r++) {
		for (int i = 0; i < n; i++) if (!r || i % 3 == 1) { double x = r ? w : t, *p = &e[i * 6]; for (int v = 0; v < c.nv; v++) p[v] = x * (v + 1) / (i + 2); p[i % c.nv] = -x; m->set_macro_strain((n / 2 - i) * st, p); }
		m->homogenize(); if (r) m->update_vars();
		for (int i = 0; i < n; i++) { double s[6] = { 0 }, q[6]; int nl = 9; m->get_macro_stress((n / 2 - i) * st, s); m->get_nl_flag((n / 2 - i) * st, &nl); answer(c, &e[i * 6], q); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], q[v], T, "each of many points has its own result", i * 6 + v); vp_check(nl == 0, "elastic points have no history", i); if (i == n - 1) vp_observe("s", s[0]); } }
	delete m; vp_cover("many points");
}
