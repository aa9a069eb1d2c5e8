// Detection of yielding on arbitrary element/integration point, residual with plastic points.
#include "ref.h"
extern "C" void stub_ctan_lin(micropp_t *m) asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin(micropp_t *m) { for (int i = 0; i < 36; i++) m->ctan_lin[i] = 0.0; }
// one corner node moved by t * (1,2,-1): the integration point next to it yields first
// comp 0: one plastic material; 1: plastic layer in an elastic matrix; 2: elastic layer in a plastic matrix; 3: two different plastic materials
static RefPt PP[2]; static int comp_of(int ey) { return vp_param("comp", 0) && ey == 0 ? 1 : vp_param("comp", 0) ? 0 : 1; }
static void two(Cfg &c, double Ka) { int k = vp_param("comp", 0); for (int i = 0; i < 2; i++) { RefPt &p = PP[i]; p.E = 1e7; p.nu = 0.25; p.Sy = 1e4; p.Ka = Ka; if (k == 3 && i == 0) { p.E = 2e7; p.Sy = 8e3; p.Ka = 200000; } c.mt[i] = k == 1 ? i : k == 2 ? 1 - i : 1; c.mat(i, p.E, p.nu, p.Sy, p.Ka); } c.mp[3] = k ? c.h(1) : 100.0; }
static bool point(const Cfg &c, int ey, const double *st, const Hist &h, Hist &o, double *sg, double mg) { int i = comp_of(ey); o = h; if (c.mt[i]) return ref_step(PP[i], st, h, o, sg, mg); hooke(PP[i].lam(), PP[i].mu(), 3, st, sg); return false; }
extern "C" void h_flag() {
	Cfg c; c.geom(false); c.mp[0] = c.mp[1] = c.mp[2] = 1.0; two(c, 0.0);
	micropp_t *m = c.make(); int N = c.nn() * 3; double t = vp_real("t", -0.1, 0.1); int node = vp_param("node", 0), nl_first = 0;
	// optionally one point carries history that makes it yield earlier or later
	int hg = vp_param("hg", -1); for (int i = 0; i < m->num_int_vars; i++) m->vars_old[i] = 0.0; Hist H; if (hg >= 0) { H.ep[3] = vp_param("hv", 5) * 1e-4; m->vars_old[hg * INT_VARS_GP + 3] = H.ep[3]; }
	for (int i = 0; i < N; i++) m->u[i] = 0.0; m->u[node * 3] = t; m->u[node * 3 + 1] = 2 * t; m->u[node * 3 + 2] = -t;
	bool nl = vp_param("nl0", 0); m->assembly_rhs(&nl); bool any = false; vector<double> ref(N, 0.0); double vol = c.h(0) * c.h(1) * c.h(2);
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int n[8], e = c.elem(ex, ey, ez); c.conn(ex, ey, ez, n);
		for (int g = 0; g < 8; g++) { double st[6], sg[6]; Hist o, z; ref_strain(c, m->u, ex, ey, ez, g, st); if (point(c, ey, st, e * 8 + g == hg ? H : z, o, sg, 1e-6)) any = true;
			for (int l = 0; l < 8; l++) if (!c.bnd(n[l])) for (int a = 0; a < 3; a++) for (int q = 0; q < 3; q++) { int v = a == q ? a : 2 + a + q; ref[n[l] * 3 + a] -= sg[v] * dshape(c, g, l, q) * vol / 8; } } }
	vp_check(nl == any, "residual evaluation reports yielding exactly when some integration point flows", -1); if (any) vp_cover("yield"); else vp_cover("no yield");
	for (int i = 0; i < N; i++) vp_check_near(m->b[i], ref[i], 1e-6 * (vp_symbolic() ? 1 : 1e3), "residual of a partly plastic cell", i);
	// a following elastic evaluation clears the report
	for (int i = 0; i < N; i++) m->u[i] = 0.0; if (hg < 0) { m->assembly_rhs(&nl); vp_check(!nl, "unloaded cell is not reported as yielding", -1); }
	vp_observe("t", t); delete m; vp_cover("flag");
}
// Partly plastic cell with a different history at every integration point: cell average, element averages, updated history.
extern "C" void h_plave() {
	Cfg c; c.geom(false); c.mp[0] = 1.0; c.mp[1] = 1.0; c.mp[2] = 1.0; int what = vp_param("what", 7); two(c, vp_param("Ka", 0));
	micropp_t *m = c.make(); int N = c.nn() * 3, ne = c.nelem(); double t = vp_param("neg", 0) ? vp_real("t", -0.1, 0.0) : vp_real("t", 0.0, 0.1); int node = vp_param("node", 0), only = vp_param("only", -1);
	vector<Hist> H(ne * 8), O(ne * 8); for (int i = 0; i < ne * 8; i++) { H[i].ep[3] = 1e-4 * (i % 5); H[i].ep[0] = 1e-4 * (i % 3); H[i].ep[1] = -H[i].ep[0]; H[i].ep[5] = -1e-4 * (i % 2); H[i].al = 1e-4 * (i % 7); }
	for (int i = 0; i < ne * 8; i++) { for (int v = 0; v < 6; v++) m->vars_old[i * INT_VARS_GP + v] = H[i].ep[v]; m->vars_old[i * INT_VARS_GP + 6] = H[i].al; }
	for (int i = 0; i < N; i++) m->u[i] = 0.0; m->u[node * 3] = t; m->u[node * 3 + 1] = 2 * t; m->u[node * 3 + 2] = -t;
	double S[6] = { 0 }, A[6] = { 0 }; vector<double> es(ne * 6, 0.0), ee(ne * 6, 0.0); int flows = 0;
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int e = c.elem(ex, ey, ez);
		for (int g = 0; g < 8; g++) { double st[6], sg[6]; ref_strain(c, m->u, ex, ey, ez, g, st); if (point(c, ey, st, H[e * 8 + g], O[e * 8 + g], sg, 1e-6)) flows++; for (int v = 0; v < 6; v++) { S[v] += sg[v] / (8 * ne); es[e * 6 + v] += sg[v] / 8; A[v] += st[v] / (8 * ne); ee[e * 6 + v] += st[v] / 8; } } }
	double T = vp_symbolic() ? 1e-6 : 1e-2;
	if (what & 1) { double s[6]; m->calc_ave_stress(s); for (int v = 0; v < 6; v++) vp_check_near(s[v], S[v], T, "average stress of a partly plastic cell", v); m->calc_ave_strain(s); for (int v = 0; v < 6; v++) vp_check_near(s[v], A[v], T * 1e-9, "average strain of a partly plastic cell", v); m->calc_ave_stress(s); vp_observe("s0", s[0]); }
	if (what & 2) { m->calc_fields(); for (int i = 0; i < ne * 6; i++) vp_check_near(m->elem_stress[i], es[i], T, "element stress of a partly plastic cell", i); for (int i = 0; i < ne * 6; i++) vp_check_near(m->elem_strain[i], ee[i], T * 1e-9, "element strain of a partly plastic cell", i); vp_observe("e0", m->elem_stress[0]); }
	if (what & 4) { bool nl; m->assembly_rhs(&nl); for (int i = 0; i < ne * 8; i++) { int ey = (i / 8 / (c.nx - 1)) % (c.ny - 1); if (!c.mt[comp_of(ey)]) continue; for (int v = 0; v < 7; v++) vp_check_near(m->vars_new[i * INT_VARS_GP + v], v < 6 ? O[i].ep[v] : O[i].al, vp_symbolic() ? 1e-12 : 1e-9, "each integration point updates its own history", i * 7 + v); } vp_observe("v0", m->vars_new[6]); }
	for (int i = 0; i < ne * 8; i++) for (int v = 0; v < 7; v++) vp_check_near(m->vars_old[i * INT_VARS_GP + v], v < 6 ? H[i].ep[v] : H[i].al, 0.0, "evaluating leaves the committed history alone", i * 7 + v);
	if (flows && flows < ne * 8) vp_cover("partly plastic"); delete m; vp_cover("plastic averages");
}
// Stiffness of a plastic element is the derivative of its residual; hist=2: another history at every integration point, node: one node moved as well.
extern "C" void h_plstiff() {
	Cfg c; c.geom(false); c.mp[0] = c.mp[1] = c.mp[2] = 1.0; RefPt p; p.E = 1e7; p.nu = 0.25; p.Sy = 1e4; p.Ka = vp_param("Ka", 0); c.mt[0] = c.mt[1] = 1; c.mat(0, p.E, p.nu, p.Sy, p.Ka); c.mat(1, p.E, p.nu, p.Sy, p.Ka); c.mp[3] = 100.0;
	micropp_t *m = c.make(); double e[6], s[6], s1[6], C[8][36], t = vp_real("t", -0.1, 0.1); int hist = vp_param("hist", 0), node = vp_param("node", -1); direction(vp_param("dir", 1), t, e); for (int n = 0; n < c.nn(); n++) { double x[3]; c.coor(n, x); affine(e, 3, x, m->u + n * 3); }
	// history of the element under test; its neighbours carry another one
	int ex = c.nx - 2, ey = c.ny - 2, ez = c.nz - 2, el = c.elem(ex, ey, ez); if (node >= 0) { int n[8]; c.conn(ex, ey, ez, n); m->u[n[node] * 3 + 1] += t / 2; m->u[n[node] * 3 + 2] -= t; }
	for (int i = 0; i < m->num_int_vars; i++) m->vars_old[i] = 1e-3;
	int flows = 0; double d = 1e-8; for (int g = 0; g < 8; g++) {
		Hist h, o; if (hist == 1) { h.ep[0] = 2e-4; h.ep[1] = h.ep[2] = -1e-4; h.al = 3e-4; } if (hist == 2) { h.ep[0] = 2e-4 * (g % 3); h.ep[1] = -h.ep[0]; h.ep[3 + g % 3] = 1e-4 * (g - 3); h.al = 1e-4 * g; }
		for (int v = 0; v < 6; v++) m->vars_old[(el * 8 + g) * 7 + v] = h.ep[v]; m->vars_old[(el * 8 + g) * 7 + 6] = h.al;
		if (hist == 2 || node >= 0) ref_strain(c, m->u, ex, ey, ez, g, e); if (g && hist < 2 && node < 0) { for (int v = 0; v < 36; v++) C[g][v] = C[0][v]; continue; }
		if (ref_step(p, e, h, o, s, 1e-3)) flows++; for (int i = 0; i < 6; i++) { double e1[6]; for (int v = 0; v < 6; v++) e1[v] = e[v]; e1[i] += d; ref_step(p, e1, h, o, s1, 0.0); for (int v = 0; v < 6; v++) C[g][v * 6 + i] = (s1[v] - s[v]) / d; } }
	double Ae[576], vol = c.h(0) * c.h(1) * c.h(2); m->get_elem_mat3D(ex, ey, ez, Ae); double T = 1e-4 * p.E;
	for (int i = 0; i < 24; i++) for (int j = 0; j < 24; j++) { double r = 0; for (int g = 0; g < 8; g++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { int v = i % 3 == a ? a : 2 + i % 3 + a, w = j % 3 == b ? b : 2 + j % 3 + b; r += C[g][v * 6 + w] * dshape(c, g, i / 3, a) * dshape(c, g, j / 3, b) * vol / 8; } vp_check_near(Ae[i * 24 + j], r, T, "element stiffness is the derivative of the element residual", i * 24 + j); }
	if (flows) vp_cover("plastic stiffness"); else vp_cover("elastic stiffness"); if (flows && flows < 8 && (hist == 2 || node >= 0)) vp_cover("partly plastic element"); vp_observe("A0", Ae[0]); delete m; vp_cover("element stiffness");
}
