// Bookkeeping of points, histories and commits around an arbitrary non-linear solve: the Newton solve is replaced by one that
// reports yielding or not as it likes and leaves arbitrary trial histories; the cell is elastic with every node prescribed, so stresses stay Hooke's law.
#include "h.h"
static Cfg *G; static int g_on, g_np, g_n, g_calls[8]; static bool g_fl[8]; static vector<double> H[8], K[8], N[8];
static const char *NM[32] = { "c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31" };
static int g_c;
extern "C" void stub_newton(micropp_t *m, bool *nl, int *its, double *err) asm("_ZN9micropp_t14newton_raphsonEPbPiPd");
extern "C" void stub_newton(micropp_t *m, bool *nl, int *its, double *err) {
	*nl = false; *its = 1; *err = 0.0; if (!g_on) return; static char I[64][8]; snprintf(I[g_n], 8, "i%d", g_n); *its = vp_int(I[g_n], 0, 40); *err = vp_real_i("err", g_n, 0.0, 1.0);
	// the last strain component tells which point is being solved
	int n = (G->ny - 1) * G->nx, p = (int)(2 * m->u[n * G->dim + (G->dim == 2 ? 0 : 2)] / (G->mp[1] * 0.001) + 0.5) - 1; if (p < 0 || p >= g_np) return;
	int k = g_calls[p]++, S = H[p].size(); for (int j = 0; j < S; j += k ? 9 : 1) vp_check_near(m->vars_old[j], H[p][j], 0.0, k ? "tangent is evaluated from the committed history of the point" : "stress is solved from the committed history of the point", j);
	double x = vp_real_i("x", g_n++, 1.0, 2.0); for (int j = 0; j < S; j++) m->vars_new[j] = x * (j + 1);
	if (k == 0) { g_fl[p] = vp_choose(NM[g_c++], 0, 1); *nl = g_fl[p]; for (int j = 0; j < S; j++) N[p][j] = x * (j + 1); } else *nl = vp_param("tn", 0);
}
extern "C" void h_book() {
	Cfg c; c.geom(false); c.type = 1; for (int i = 0; i < 2; i++) c.mat(i, 1e7, 0.25, 1e30, 0.0); c.mp[3] = 0.7; double tol = vp_param("lin", 0) ? 1e5 : -1.0; c.mp[4] = tol; G = &c; g_on = g_n = g_c = 0; g_np = vp_param("np", 2); int steps = vp_param("steps", 2), add = vp_param("add", 0), S = c.nelem() * 56; bool has[8]; int ids[8]; static const char *IN[8] = { "id0", "id1", "id2", "id3", "id4", "id5", "id6", "id7" };
	for (int p = 0; p < g_np; p++) { ids[p] = vp_param("symid", 0) ? vp_int(IN[p], -2000000000, 2000000000) : 10 * p - 7; for (int q = 0; q < p; q++) vp_assume(ids[p] != ids[q]); }
	for (int p = 0; p < g_np; p++) { H[p].assign(S, 0.0); K[p] = N[p] = H[p]; has[p] = false; }
	int live = vp_heap_live(); micropp_t *m = c.make(); double e[8][6], s[6], r[6], C[36];
	for (int k = 0; k < steps; k++) {
		int act = k < add ? g_np - 1 : g_np;
		for (int q = 0; q < act; q++) { int p = vp_param("rev", 0) ? act - 1 - q : q; for (int v = 0; v < c.nv; v++) e[p][v] = 0.001 * v; e[p][0] = vp_real_i("t", k * g_np + p, vp_param("neg", 0) ? -0.1 : 0.0, 0.1); e[p][c.nv - 1] = 0.001 * (p + 1); m->set_macro_strain(ids[p], e[p]); }
		for (int p = 0; p < g_np; p++) { g_calls[p] = 0; g_fl[p] = false; }
		g_on = 1; m->homogenize(); g_on = 0;
		for (int p = 0; p < act; p++) {
			hooke(c.lam(0), c.mu(0), c.dim, e[p], r); double tr = 0; for (int a = 0; a < c.dim; a++) tr += r[a]; if (tr < 0) tr = -tr; bool full = has[p] || tr >= tol; if (tol > 0) vp_assume(tr < tol * (1 - 1e-6) || tr > tol * (1 + 1e-6));
			if (full) { vp_cover("full solve"); vp_check(g_calls[p] > 0, has[p] ? "a point with history is always solved in full" : "above the tolerance a point is solved in full", p); } else { vp_cover("shortcut"); vp_check(g_calls[p] == 0, "below the tolerance a point without history takes the shortcut", p); }
			if (full && g_fl[p]) has[p] = true; if (full && has[p]) { K[p] = N[p]; if (!g_fl[p]) vp_cover("elastic step with history"); }
			m->get_macro_stress(ids[p], s); m->get_macro_ctan(ids[p], C); for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], vp_symbolic() ? 0.0 : 1.0, "stress of the point", v);
			for (int i = 0; i < c.nv; i++) { double u[6] = { 0 }, q[6]; u[i] = 1.0; hooke(c.lam(0), c.mu(0), c.dim, u, q); for (int v = 0; v < c.nv; v++) vp_check_near(C[v * c.nv + i], q[v], vp_symbolic() ? 0.0 : 1e3, "tangent of the point", v * c.nv + i); }
			int nl = 9; m->get_nl_flag(ids[p], &nl); vp_check(nl == (has[p] ? 1 : 0), "non-linear flag of the point", p); }
		int up = vp_choose(NM[g_c++], 0, vp_param("maxup", 1)); for (int i = 0; i < up; i++) m->update_vars(); if (up) for (int p = 0; p < g_np; p++) if (has[p]) H[p] = K[p];
		for (int p = 0; p < act; p++) { int nl = 9; m->get_nl_flag(ids[p], &nl); vp_check(nl == (has[p] ? 1 : 0), "a commit leaves the flag alone", p); if (p && has[p] != has[0]) vp_cover("points in different states"); }
	}
	vp_observe("s0", s[0]); delete m; if (vp_param("heap", 0)) vp_check(vp_heap_live() == live, "every allocation is released", -1); vp_cover("bookkeeping");
}
