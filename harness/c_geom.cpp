// Assignment of materials to elements and derived elastic constants.
#include "h.h"
extern "C" void stub_ctan_lin(micropp_t *m) asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin(micropp_t *m) { for (int i = 0; i < 36; i++) m->ctan_lin[i] = 0.0; }
extern "C" void h_geom() {
	Cfg c; c.geom(vp_param("symgeo", 1)); c.mp[3] = vp_real("width", 0.0, 5.0); c.mt[0] = vp_param("mt0", 0); c.mt[1] = vp_param("mt1", 1);
	for (int i = 0; i < 2; i++) c.mat(i, vp_real_i("E", i, 1.0, 1e8), vp_real_i("nu", i, 0.0, 0.45), vp_real_i("Sy", i, 1.0, 1e5), vp_real_i("Ka", i, 0.0, 1e6));
	micropp_t *m = c.make(); int ones = 0;
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int e = c.elem(ex, ey, ez);
		double x = (ex + 0.5) * c.h(0) - c.mp[0] / 2, y = (ey + 0.5) * c.h(1) - c.mp[1] / 2, z = c.dim == 2 ? 0.0 : (ez + 0.5) * c.h(2) - c.mp[2] / 2;
		bool in = c.type == 1 ? (ey + 0.5) * c.h(1) < c.mp[3] : x * x + y * y + z * z < c.mp[3] * c.mp[3];
		if (!vp_symbolic()) { double q = c.type == 1 ? (ey + 0.5) * c.h(1) - c.mp[3] : x * x + y * y + z * z - c.mp[3] * c.mp[3]; vp_assume(fabs(q) > 1e-12); }
		vp_check((m->elem_type[e] != 0) == in, c.type == 1 ? "layer: material by the height of the element centre" : "inclusion: material by the distance of the element centre", e); int k = in; ones += k;
		material_t q; m->get_material(e, q); double T = vp_symbolic() ? 0.0 : 1e-9 * c.E(k);
		vp_check_near(q.E, c.E(k), 0.0, "Young modulus of the element", e); vp_check_near(q.nu, c.nu(k), 0.0, "Poisson ratio of the element", e); vp_check_near(q.lambda, c.lam(k), T, "Lame constant of the element", e); vp_check_near(q.mu, c.mu(k), T, "shear modulus of the element", e); vp_check_near(q.k, c.lam(k) + 2 * c.mu(k) / 3, T, "bulk modulus of the element", e);
		vp_check_near(q.Sy, c.Sy(k), 0.0, "yield stress of the element", e); vp_check_near(q.Ka, c.Ka(k), 0.0, "hardening modulus of the element", e); vp_check(q.plasticity == (c.mt[k] == 1), "plasticity switch of the element", e); }
	if (ones && ones < c.nelem()) vp_cover("two materials"); if (!ones) vp_cover("no inclusion"); vp_observe("ones", ones); delete m; vp_cover("geometry");
}
