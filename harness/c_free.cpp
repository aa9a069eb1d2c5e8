// Two elastic composite cells with free nodes, alive at the same time: each delivers its own equilibrium response.
#include "fullref.h"
static void conf(Cfg &c, int k) {
	int kind = vp_param("kind", 0); c.dim = c.nd = kind == 2 || (kind == 1 && k) ? 3 : 2; c.nv = c.dim == 2 ? 3 : 6; c.nx = 3; c.ny = k && c.dim == 2 ? 4 : 3; c.nz = c.dim == 2 ? 1 : 3; c.geom(false); c.type = 1; c.mp[4] = vp_param("lin", 0) ? 1e30 : -1.0;
	for (int a = 0; a < 3; a++) c.mp[a] *= k ? 8.0 : 1.0; c.mp[3] = c.mp[1] * 0.45; c.mt[0] = c.mt[1] = 0; }
extern "C" void h_free() {
	Cfg c[2]; micropp_t *m[2] = { 0, 0 }; int pos[2] = { 0, 0 }, live = 0; double Cr[2][36], e[2][6], s[6], C[36]; static const double D[6] = { 1, -2, 3, 1, 2, -1 };
	double E[2] = { 1e7, 6e7 }, Er[2] = { 1.0, 10.0 }; for (int k = 0; k < 2; k++) { conf(c[k], k); c[k].mat(0, 1.0, k ? 0.2 : 0.25, 1.0, 0.0); c[k].mat(1, Er[1], k ? 0.35 : 0.3, 1.0, 0.0); reference(c[k], Er, Cr[k]); for (int i = 0; i < 2; i++) c[k].mat(i, E[k] * Er[i], c[k].nu(i), 1.0, 0.0); }
	static const char *W[8] = { "w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7" }; live = vp_heap_live();
	for (int n = 0; n < 8; n++) {
		int w = pos[0] == 4 ? 1 : pos[1] == 4 ? 0 : vp_choose(W[n], 0, 1);
		switch (pos[w]++) {
		case 0: m[w] = c[w].make(); break;
		case 1: case 2: { double t = pos[w] == 2 ? (w ? 0.03 : 0.02) : w ? -0.01 : vp_real("t", 0.001, 0.5); for (int v = 0; v < c[w].nv; v++) e[w][v] = t * D[c[w].dim == 2 && v == 2 ? 3 : v]; m[w]->set_macro_strain(4, e[w]); m[w]->homogenize(); break; }
		case 3: m[w]->get_macro_stress(4, s); m[w]->get_macro_ctan(4, C); for (int v = 0; v < c[w].nv; v++) { double r = 0; for (int q = 0; q < c[w].nv; q++) r += Cr[w][v * c[w].nv + q] * e[w][q] * E[w]; vp_check_near(s[v], r, 1e-5 * E[w] * Er[1], "equilibrium stress of an instance is unaffected by another one", w * 6 + v); }
			for (int i = 0; i < c[w].nv * c[w].nv; i++) vp_check_near(C[i], Cr[w][i] * E[w], 1e-5 * E[w] * Er[1], "effective tangent of an instance is unaffected by another one", w * 36 + i); if (w == 0) vp_observe("s0", s[0]); delete m[w]; m[w] = 0; break; }
	}
	vp_check(vp_heap_live() == live, "every allocation is released", -1); vp_cover("free instances");
}
