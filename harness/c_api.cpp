// Whole-library runs through the public interface on grids without free nodes (one dimension has two node planes),
// where every displacement is prescribed and the symbolic run is exact.
#include "h.h"
static void symmats(Cfg &c) { for (int i = 0; i < 2; i++) c.mat(i, vp_real_i("E", i, 1.0, 1e8), vp_param("symnu", 1) ? vp_real_i("nu", i, 0.0, 0.45) : (i ? 0.2 : 0.3), vp_real_i("Sy", i, 0.001, 1e5), vp_real_i("Ka", i, 0.0, 1e6)); }
static void symstrain(const Cfg &c, const char *n, double *e, double r) { for (int v = 0; v < c.nv; v++) e[v] = vp_real_i(n, v, -r, r); }
// volume fraction of material 1 by the documented geometry
static int nmat1(const Cfg &c) {
	int k = 0;
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) {
		double x = (ex + 0.5) * c.h(0) - c.mp[0] / 2, y = (ey + 0.5) * c.h(1) - c.mp[1] / 2, z = c.dim == 2 ? 0.0 : (ez + 0.5) * c.h(2) - c.mp[2] / 2;
		bool in = c.type == 1 ? (ey + 0.5) * c.h(1) < c.mp[3] : x * x + y * y + z * z < c.mp[3] * c.mp[3];
		if (in) k++;
	}
	return k;
}
// elastic composite: stress = <C> : eps, tangent = <C>, no history, flag 0
extern "C" void h_elastic() {
	Cfg c; c.geom(vp_param("symgeo", 1)); symmats(c); c.mp[3] = vp_real("width", 0.01, 5.0); int lin = vp_param("lin", 0); c.mp[4] = lin ? 1e30 : -1.0;
	micropp_t *m = c.make(); double eps[6], s[6], C[36], s1[6], s2[6]; symstrain(c, "eps", eps, 1.0);
	int id = vp_param("id", 7); m->set_macro_strain(id, eps); m->homogenize(); m->get_macro_stress(id, s); m->get_macro_ctan(id, C); int nl = 5; m->get_nl_flag(id, &nl);
	int k = nmat1(c); double f = (double)k / c.nelem(); double T = vp_symbolic() ? 0.0 : 1e-6 * (c.E(0) + c.E(1)) * 10;
	hooke(c.lam(0), c.mu(0), c.dim, eps, s1); hooke(c.lam(1), c.mu(1), c.dim, eps, s2);
	for (int v = 0; v < c.nv; v++) vp_check_near(s[v], (1 - f) * s1[v] + f * s2[v], T, "stress is the volume average of Hooke's law", v);
	for (int i = 0; i < c.nv; i++) { double e1[6] = { 0 }; e1[i] = 1.0; hooke(c.lam(0), c.mu(0), c.dim, e1, s1); hooke(c.lam(1), c.mu(1), c.dim, e1, s2);
		for (int v = 0; v < c.nv; v++) vp_check_near(C[v * c.nv + i], (1 - f) * s1[v] + f * s2[v], vp_symbolic() ? 0.0 : 1e-5 * (c.E(0) + c.E(1)), "tangent is the volume average of the elastic moduli", v * c.nv + i); }
	vp_check(nl == 0, "elastic point is not flagged non-linear", -1);
	vp_observe("s0", s[0]); vp_observe("sl", s[c.nv - 1]); delete m; vp_cover(lin ? "linear shortcut" : "full solve");
}
