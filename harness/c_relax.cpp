#include "fullref.h"
extern "C" void stub_ctan_lin(micropp_t *m) asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin(micropp_t *m) { for (int i = 0; i < 36; i++) m->ctan_lin[i] = 0.0; }
// stress only, from a zero field (larger grids stay exact this way)
extern "C" void h_relax() {
	Cfg c; c.geom(false); if (vp_param("cube", 0)) c.mp[0] = c.mp[1] = c.mp[2] = 1.0; c.mp[3] = vp_param("w100", 90) / 100.0; c.mp[4] = -1.0;
	double E = vp_real("E", 1e7, 1e9), Er[2] = { 1.0, vp_param("ratio", 10) * 1.0 }; c.mat(0, 1.0, 0.25, 1.0, 0.0); c.mat(1, Er[1], 0.3, 1.0, 0.0);
	double Cr[36], eps[6], t = vp_param("neg", 0) ? vp_real("t", -0.5, -0.001) : vp_real("t", 0.001, 0.5), s[6]; reference(c, Er, Cr); c.mat(0, E, 0.25, 1.0, 0.0); c.mat(1, E * Er[1], 0.3, 1.0, 0.0);
	static const int D[5][6] = { { 1, 0, 0, 0, 0, 0 }, { 0, 0, 0, 1, 0, 0 }, { 1, -2, 3, 1, 2, -1 }, { 0, 1, 0, 0, 0, 1 }, { 2, 1, -1, -3, 1, 1 } };
	int d = vp_param("dir", 2); for (int v = 0; v < c.nv; v++) eps[v] = t * (c.dim == 2 && v == 2 ? D[d][3] : D[d][v]);
	micropp_t *m = c.make(); m->set_displ(eps); bool nl = true; int its = -1; double err = -1; m->newton_raphson(&nl, &its, &err); m->calc_ave_stress(s);
	for (int v = 0; v < c.nv; v++) { double r = 0; for (int w = 0; w < c.nv; w++) r += Cr[v * c.nv + w] * eps[w] * E; vp_check_near(s[v], r, 1e-4, "stress of the cell is that of the equilibrium solution", v); }
	vp_check(err <= 1e-5, "solve converges", -1); vp_check(!nl, "elastic cell is not flagged non-linear", -1);
	for (int n = 0; n < c.nn(); n++) if (c.bnd(n)) { double x[3], r[3]; c.coor(n, x); affine(eps, c.dim, x, r); for (int a = 0; a < c.dim; a++) vp_check_near(m->u[n * c.dim + a], r[a], vp_symbolic() ? 0.0 : 1e-12, "solve keeps the boundary displacement", n * c.dim + a); }
	vp_observe("s0", s[0]); delete m; vp_cover("relax");
}
