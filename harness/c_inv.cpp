// Stress invariants against their definitions.
#include "h.h"
extern "C" void h_inv() {
	Cfg c; c.geom(false); c.mat(0, 1, 0.2, 1, 0); c.mat(1, 1, 0.2, 1, 0); micropp_t *m = c.make(); double s[6]; for (int v = 0; v < 6; v++) s[v] = vp_real_i("s", v, -100.0, 100.0);
	double i1 = m->get_inv_1(s), tr = c.dim == 2 ? s[0] + s[1] : s[0] + s[1] + s[2]; vp_check_near(i1, tr, 1e-9 * !vp_symbolic(), "first invariant is the trace", -1);
	if (c.dim == 3) { double q = s[0] * s[0] + s[1] * s[1] + s[2] * s[2] + 2 * (s[3] * s[3] + s[4] * s[4] + s[5] * s[5]); vp_check_near(m->get_inv_2(s), (tr * tr - q) / 2, 1e-9 * !vp_symbolic(), "second invariant is half of trace squared minus square norm", -1); }
	vp_observe("i1", i1); delete m; vp_cover("invariants");
}
