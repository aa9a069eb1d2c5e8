// Arbitrary sequences of public calls: no invalid access, nothing uninitialised used or reported, every allocation released.
#include "ref.h"
extern "C" void h_life() {
	int live = vp_heap_live(); Cfg c; c.geom(false); c.mp[0] = 1.0; c.mp[1] = c.dim == 2 ? 1.0 : 2.0; c.type = vp_param("type", 1); int pl = vp_param("pl", 1); c.mt[0] = c.mt[1] = pl; if (vp_param("mix", 0)) c.mt[vp_param("mix", 0) - 1] = 0; c.mat(0, 3e7, 0.2, 3e4, 0.0); c.mat(1, 1e7, 0.25, 1e4, 0.0); c.mp[3] = c.type == 1 ? 0.6 * c.mp[1] : 0.4; c.mp[4] = vp_param("lin", 0) ? 1e4 : -1.0;
	micropp_t *m = c.make(); int L = vp_param("ops", 3), nid = vp_param("nid", 2), seq = vp_param("seq", 0); double acc = 0; static const char *N[8] = { "op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7" }, *P[8] = { "pt0", "pt1", "pt2", "pt3", "pt4", "pt5", "pt6", "pt7" };
	for (int k = 0; k < L; k++) {
		int op = seq ? seq % 10 - 1 : vp_choose(N[k], 0, 6); seq /= 10; int id = (op <= 1 && !k) ? 1 : (op == 0 || op == 4 || op == 5) ? vp_choose(P[k], 1, nid) : 1; double e[6], s[6], C[36]; int nl; static const int IDS[4] = { 0, 0, -7, 3 }; id = IDS[id];
		switch (op) {
		case 0: direction(vp_param("dir", 1), vp_real_i("t", k, 0.0, 0.1), e); if (c.dim == 2) e[2] = e[0] * 3; m->set_macro_strain(id, e); break;
		case 1: m->homogenize(); break;
		case 2: m->update_vars(); break;
		case 3: m->write_info_files(); break;
		case 4: m->output(k, id); break;
		case 5: for (int v = 0; v < 6; v++) s[v] = 0; for (int v = 0; v < 36; v++) C[v] = 0; m->get_macro_stress(id, s); m->get_macro_ctan(id, C); for (int v = 0; v < 6; v++) vp_check_defined(s[v], "reported stress is defined", v); for (int v = 0; v < 36; v++) vp_check_defined(C[v], "reported tangent is defined", v); acc += s[0]; break;
		case 6: m->get_nl_flag(id, &nl); vp_check(nl == 0 || nl == 1, "flag is zero or one", -1); break;
		}
	}
	vp_observe("acc", acc); delete m; vp_check(vp_heap_live() == live, "every allocation is released", -1); vp_cover("lifecycle");
	static const char *F[3] = { "micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat" }; for (int f = 0; f < 3; f++) if (vp_file_exists(F[f])) { int n = vp_tok_count(F[f]); for (int i = 0; i < n; i++) if (vp_tok_isnum(F[f], i)) vp_check_defined(vp_tok_double(F[f], i), "reported number is defined", f); }
}
// every grid shape: construct, solve, output, destroy
extern "C" void h_shapes() {
	int live = vp_heap_live(); Cfg c; c.geom(false); c.mt[0] = c.mt[1] = c.dim == 3; c.mat(0, 3e7, 0.2, 3e9, 0.0); c.mat(1, 1e7, 0.25, 1e9, 0.0); c.mp[3] = c.type == 1 ? 0.6 * c.mp[1] : 0.4; c.mp[4] = vp_param("lin", 1) ? 1e30 : -1.0;
	micropp_t *m = c.make(); double e[6] = { 0 }, s[6]; e[0] = vp_real("t", -0.001, 0.001); m->set_macro_strain(0, e); m->homogenize(); m->get_macro_stress(0, s); if (vp_param("out", 0)) m->output(0, 0); m->write_info_files(); for (int v = 0; v < c.nv; v++) vp_check_defined(s[v], "reported stress is defined", v);
	vp_observe("s0", s[0]); delete m; vp_check(vp_heap_live() == live, "every allocation is released", -1); vp_cover("shapes");
}
