// Several instances in one process do not influence each other.
#include "ref.h"
static RefPt P[2];
// kind 0: two plastic 3D cells; kind 1: an elastic 2D cell next to a plastic 3D one; kind 2: two elastic 2D cells
static void conf(Cfg &c, int k) {
	int two = vp_param("kind", 0) == 2 || (vp_param("kind", 0) && !k); if (two) { c.dim = c.nd = 2; c.nv = 3; } c.geom(false); c.type = 1; c.nx = k ? 3 : 2; c.ny = k ? 2 : 3; c.nz = two ? 1 : 2; c.mp[0] = k ? 4.0 : 1.0; c.mp[1] = k ? 2.0 : 1.0; c.mp[2] = k ? 1.0 : 0.5; c.mp[4] = vp_param("lin", 0) ? 1e30 : -1.0; P[k].E = k ? 4e7 : 1e7; P[k].nu = k ? 0.2 : 0.25; P[k].Sy = k ? 3e4 : 1e4; P[k].Ka = k ? 2e5 : 0.0;
	c.mt[0] = c.mt[1] = !two; for (int i = 0; i < 2; i++) c.mat(i, P[k].E, P[k].nu, P[k].Sy, P[k].Ka); c.mp[3] = 0.6; }
// every interleaving of the six calls each instance makes
extern "C" void h_instances() {
	Cfg c[2]; micropp_t *m[2] = { 0, 0 }; int pos[2] = { 0, 0 }; Hist h[2], o[2]; double e[2][6], s[6], r[6], T = vp_symbolic() ? 1e-6 : 1.0; int dir = vp_param("dir", 1), live = vp_heap_live();
	conf(c[0], 0); conf(c[1], 1); static const char *W[12] = { "w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9", "w10", "w11" };
	for (int n = 0; n < 12; n++) {
		int w = pos[0] == 6 ? 1 : pos[1] == 6 ? 0 : vp_choose(W[n], 0, 1);
		// both use the same identifier
		switch (pos[w]++) {
		case 0: m[w] = c[w].make(); break;
		case 1: direction(dir, w ? 0.006 : vp_real("t0", vp_param("lo", 0) * 0.001, 0.1), e[w]); if (c[w].dim == 2) e[w][2] = e[w][0]; m[w]->set_macro_strain(4, e[w]); break;
		case 2: m[w]->homogenize(); m[w]->update_vars(); if (c[w].dim == 3) { ref_step(P[w], e[w], h[w], o[w], r, 1e-3); h[w] = o[w]; } break;
		case 3: direction(dir, w ? -0.004 : 0.002, e[w]); if (c[w].dim == 2) e[w][2] = e[w][0]; m[w]->set_macro_strain(4, e[w]); break;
		case 4: m[w]->homogenize(); break;
		case 5: { Hist x; bool f = false; if (c[w].dim == 3) f = ref_step(P[w], e[w], h[w], x, r, 1e-3); else hooke(P[w].lam(), P[w].mu(), 2, e[w], r); m[w]->get_macro_stress(4, s); for (int v = 0; v < c[w].nv; v++) vp_check_near(s[v], r[v], T, "result of an instance is unaffected by another one", w * 6 + v);
			double C[36] = { 0 }; m[w]->get_macro_ctan(4, C); for (int i = 0; i < c[w].nv; i++) { double g[6], q[6]; Hist y; for (int v = 0; v < 6; v++) g[v] = v < c[w].nv ? e[w][v] : 0.0; g[i] += 1e-8; if (c[w].dim == 3) ref_step(P[w], g, h[w], y, q, 0.0); else hooke(P[w].lam(), P[w].mu(), 2, g, q); for (int v = 0; v < c[w].nv; v++) vp_check_near(C[v * c[w].nv + i], (q[v] - r[v]) / 1e-8, 1e-3 * P[w].E, "tangent of an instance is unaffected by another one", w * 36 + v * 6 + i); }
			int nl = 9; m[w]->get_nl_flag(4, &nl); vp_check(nl == (f || h[w].al > 0), "flag of an instance is unaffected by another one", w); if (w == 0) vp_observe("s0", s[0]); delete m[w]; m[w] = 0; break; } }
	}
	vp_check(vp_heap_live() == live, "every allocation is released", -1); vp_cover("instances");
}
