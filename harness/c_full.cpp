// Whole public-interface runs on grids with free nodes.
#include "fullref.h"
extern "C" void h_full() {
	Cfg c; c.geom(false); if (vp_param("cube", 0)) c.mp[0] = c.mp[1] = c.mp[2] = 1.0; c.mp[3] = vp_param("w100", 90) / 100.0; int lin = vp_param("lin", 0); c.mp[4] = lin ? 1e30 : -1.0;
	double E = vp_param("symE", 0) ? vp_real("E", 1e7, 1e9) : 1e7, Er[2] = { 1.0, vp_param("ratio", 10) * 1.0 }; c.mat(0, E, 0.25, 1.0, 0.0); c.mat(1, E * Er[1], 0.3, 1.0, 0.0);
	double Cr[36], eps[6], t = vp_param("neg", 0) ? vp_real("t", -0.5, -0.001) : vp_real("t", 0.001, 0.5), s[6], C[36]; reference(c, Er, Cr);
	static const int D[5][6] = { { 1, 0, 0, 0, 0, 0 }, { 0, 0, 0, 1, 0, 0 }, { 1, -2, 3, 1, 2, -1 }, { 0, 1, 0, 0, 0, 1 }, { 2, 1, -1, -3, 1, 1 } };
	int d = vp_param("dir", 2); for (int v = 0; v < c.nv; v++) eps[v] = t * (c.dim == 2 && v == 2 ? D[d][3] : D[d][v]);
	micropp_t *m = c.make(); m->set_macro_strain(11, eps); m->homogenize(); m->get_macro_stress(11, s); m->get_macro_ctan(11, C);
	double TS = 1e-5 * E * Er[1] * (lin ? 1.0 : 0.1), TC = 1e-5 * E * Er[1];
	for (int v = 0; v < c.nv; v++) { double r = 0; for (int w = 0; w < c.nv; w++) r += Cr[v * c.nv + w] * eps[w] * E; vp_check_near(s[v], r, TS, "stress of the cell is that of the equilibrium solution", v); }
	for (int i = 0; i < c.nv * c.nv; i++) vp_check_near(C[i], Cr[i] * E, TC, "tangent is the effective stiffness of the cell", i);
	// the interior displacement left by the solve balances the forces
	int nl = 5; m->get_nl_flag(11, &nl); vp_check(nl == 0, "elastic cell is not flagged non-linear", -1);
	if (!lin) { bool f; double r = m->assembly_rhs(&f); vp_check(r < 1.1e-5, "the field behind the result is in equilibrium", -1); }
	vp_observe("s0", s[0]); vp_observe("C0", C[0]); delete m; vp_cover("full solve");
}
