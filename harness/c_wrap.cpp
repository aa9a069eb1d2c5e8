// Fortran entry points behave as the class methods on one instance; constructing again replaces the instance.
#include "ref.h"
extern "C" {
void micropp_construct_(int *dim, int size[3], int *micro_type, double *micro_params, int *mat_types, double *params);
void micropp_output_(int *tstep, int *gp_id);
void micropp_get_non_linear_flag_(int *gp_id, int *non_linear);
void micropp_set_macro_strain_(int *gp_id, double *macro_strain);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *gp_id, double *macro_stress);
void micropp_get_macro_ctan_(int *gp_id, double *macro_ctan);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}
static void conf(Cfg &c) { c.geom(false); c.type = vp_param("type", 1); int pl = vp_param("pl", 1); for (int i = 0; i < 2; i++) c.mt[i] = c.dim == 3 && pl; c.mat(0, 3e7, 0.2, 3e4, 0.0); c.mat(1, 1e7, 0.25, 1e4, 0.0); c.mp[3] = c.type == 1 ? 0.6 * c.mp[1] : 0.3; c.mp[4] = vp_param("lin", 0) ? 1e30 : -1.0; }
static void con(Cfg &c) { int d = c.dim, t = c.type, size[3] = { c.nx, c.ny, c.nz }; micropp_construct_(&d, size, &t, c.mp, c.mt, c.par); }
extern "C" void h_wrapper() {
	Cfg c; conf(c); con(c); micropp_t *m = c.make(); int steps = vp_param("steps", 1), dirs = vp_param("dirs", 1), R = 2000000000, id = vp_int("id", -R, R), id2 = vp_int("id2", -R, R), q = vp_int("q", -R, R), has2 = vp_param("two", 0);
	for (int k = 0; k < steps; k++) {
		double e[6], f[6]; direction(dirs % 10, vp_real_i("t", k, -0.1, 0.1), e); if (c.dim == 2) e[2] = e[3] + e[0]; dirs /= 10; for (int v = 0; v < 6; v++) f[v] = -0.5 * e[v];
		micropp_set_macro_strain_(&id, e); m->set_macro_strain(id, e); if (has2) { micropp_set_macro_strain_(&id2, f); m->set_macro_strain(id2, f); }
		micropp_homogenize_(); m->homogenize();
		double s[6], S[6], C[36], D[36]; for (int v = 0; v < 36; v++) C[v] = D[v] = 3.0; for (int v = 0; v < 6; v++) s[v] = S[v] = 3.0; int n = 7, N = 8;
		micropp_get_macro_stress_(&q, s); m->get_macro_stress(q, S); micropp_get_macro_ctan_(&q, C); m->get_macro_ctan(q, D); micropp_get_non_linear_flag_(&q, &n); m->get_nl_flag(q, &N);
		for (int v = 0; v < 6; v++) vp_check_near(s[v], S[v], 0.0, "Fortran stress equals the class result", v); for (int v = 0; v < 36; v++) vp_check_near(C[v], D[v], 0.0, "Fortran tangent equals the class result", v); vp_check(n == N, "Fortran flag equals the class result", -1);
		if (q == id) vp_cover("known point"); else vp_cover("unknown point"); if (N) vp_cover("with history");
		if (k < steps - 1 && vp_choose("commit", 0, 1)) { micropp_update_internal_variables_(); m->update_vars(); }
		if (k == steps - 1) vp_observe("s0", s[0]);
	}
	delete m; vp_cover("wrapper");
}
// output and information files name the same files with the same content as the class methods
extern "C" void h_wrapfiles() {
	Cfg c; conf(c); micropp_t *m = c.make(); int ts = 12, id = 5; double e[6]; direction(1, vp_real("t", 0.01, 0.1), e); if (c.dim == 2) e[2] = 0.0;
	m->set_macro_strain(id, e); m->homogenize(); m->output(ts, id); m->write_info_files(); const char *F[4] = { "micropp_5_12.vtu", "micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat" };
	vector<vector<double> > keep; vector<int> cnt; for (int f = 0; f < 4; f++) { int n = vp_tok_count(F[f]); cnt.push_back(n); vector<double> d; for (int i = 0; i < n; i++) d.push_back(vp_tok_isnum(F[f], i) ? vp_tok_double(F[f], i) : 0.0); keep.push_back(d); }
	delete m; for (int f = 0; f < 4; f++) vp_file_clear(F[f]);
	con(c); micropp_set_macro_strain_(&id, e); micropp_homogenize_(); micropp_output_(&ts, &id); micropp_write_convergence_file_();
	for (int f = 0; f < 4; f++) { vp_check(vp_file_exists(F[f]), "Fortran call writes the file", f); int n = vp_tok_count(F[f]); vp_check(n == cnt[f], "Fortran call writes as many entries", f); if (n == cnt[f]) for (int i = 0; i < n; i++) if (vp_tok_isnum(F[f], i)) vp_check_near(vp_tok_double(F[f], i), keep[f][i], 0.0, "Fortran call writes the same numbers", f * 100000 + i); }
	vp_observe("n", cnt[0]); vp_cover("wrapper files");
}
extern "C" void h_reconstruct() {
	Cfg c; conf(c); con(c); int id = 3, h1, h2, n = vp_param("times", 2); double e[6]; direction(1, vp_real("t", -0.1, 0.1), e); h1 = vp_heap_live();
	for (int k = 0; k < n; k++) { if (k != n - 1 || vp_param("use", 1)) { micropp_set_macro_strain_(&id, e); micropp_homogenize_(); } con(c); h2 = vp_heap_live(); vp_check(h2 == h1, "constructing again releases the previous instance", k);
		double s[6]; for (int v = 0; v < 6; v++) s[v] = 77.0; int nl = 5; micropp_get_macro_stress_(&id, s); micropp_get_non_linear_flag_(&id, &nl); for (int v = 0; v < 6; v++) vp_check_near(s[v], 77.0, 0.0, "a new instance starts without points", v); vp_check(nl == 0, "a new instance starts without history", -1); }
	vp_observe("h", 1); vp_cover("reconstruct");
}
// every sequence of solves of two points and commits, through both interfaces
extern "C" void h_wrapseq() {
	Cfg c; conf(c); con(c); micropp_t *m = c.make(); int L = vp_param("ops", 5), id[2] = { vp_param("ida", 0), vp_param("idb", -4) }, nops = vp_param("nops", 3); static const char *N[8] = { "op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7" }; static const double T[8] = { 0.01, -0.02, 0.03, 0.005, -0.01, 0.04, 0.02, -0.03 }; double t0 = vp_real("t", 0.5, 1.0), acc = 0;
	for (int k = 0; k < L; k++) {
		int op = vp_choose(N[k], 0, nops - 1); double e[6]; if (op < 2) { direction(vp_param("dir", 1), (k ? 1.0 : t0) * T[k] * (op ? -1.5 : 1.0), e); if (c.dim == 2) e[2] = e[3] + e[0]; micropp_set_macro_strain_(&id[op], e); m->set_macro_strain(id[op], e); micropp_homogenize_(); m->homogenize(); }
		else if (op == 2) { micropp_update_internal_variables_(); m->update_vars(); } else { micropp_homogenize_(); m->homogenize(); }
		for (int p = 0; p < 2; p++) { double s[6], S[6], C[36], D[36]; for (int v = 0; v < 36; v++) C[v] = D[v] = 3.0; for (int v = 0; v < 6; v++) s[v] = S[v] = 3.0; int n = 7, M = 8; micropp_get_macro_stress_(&id[p], s); m->get_macro_stress(id[p], S); micropp_get_macro_ctan_(&id[p], C); m->get_macro_ctan(id[p], D); micropp_get_non_linear_flag_(&id[p], &n); m->get_nl_flag(id[p], &M);
			for (int v = 0; v < 6; v++) vp_check_near(s[v], S[v], 0.0, "after any sequence of calls the Fortran stress equals the class result", v); for (int v = 0; v < 36; v++) vp_check_near(C[v], D[v], 0.0, "after any sequence of calls the Fortran tangent equals the class result", v); vp_check(n == M, "after any sequence of calls the Fortran flag equals the class result", p); acc += s[0]; }
	}
	vp_observe("acc", acc); delete m; vp_cover("wrapper sequence");
}
