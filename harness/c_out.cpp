// Files written for the user.
#include "ref.h"
static double W(double scale) { return vp_symbolic() ? 0.0 : 2e-5 * scale + 1e-12; }	// six significant digits natively
// first number of the data array called name, or -1
static int arr(const char *f, const char *name) { int i = vp_tok_find(f, 0, name); if (i < 0) return -1; i = vp_tok_find(f, i, ">"); return i < 0 ? -1 : i + 1; }
static int cnt(const char *f, int i) { if (i < 0) return -1; int n = 0; while (vp_tok_isnum(f, i + n)) n++; return n; }
static void num(const char *f, int i, double r, const char *l, int idx) { double v = vp_tok_double(f, i); vp_check_near(v, r, vp_symbolic() ? 0.0 : 2e-5 * fabs(v) + 1e-300, l, idx); if (vp_symbolic()) { int p = vp_tok_prec(f, i); if (p < 0) vp_check((v * v - 1e-6) * (v * v - 1e-10) >= 0, "small numbers keep their digits", idx); else vp_check(p >= 6, "numbers are written with six digits", idx); } }
static void inum(const char *f, int i, int r, const char *l, int idx) { vp_check_near(vp_tok_double(f, i), r, 0.0, l, idx); }
static void head(const char *f, const Cfg &c) {
	char a[80], b[80]; int i; snprintf(a, 80, "NumberOfPoints=\"%d\"", c.nn()); snprintf(b, 80, "NumberOfCells=\"%d\"", c.nelem());
	vp_check(vp_tok_find(f, 0, a) >= 0, "number of points", -1); vp_check(vp_tok_find(f, 0, b) >= 0, "number of cells", -1); vp_check(vp_tok_find(f, 0, "</VTKFile>") == vp_tok_count(f) - 1, "file is complete", -1);
	i = arr(f, "Name=\"Position\""); vp_check(cnt(f, i) == 3 * c.nn(), "one position per node", -1);
	for (int n = 0; n < c.nn(); n++) { double x[3]; c.coor(n, x); for (int k = 0; k < 3; k++) num(f, i + 3 * n + k, x[k], "node position", 3 * n + k); }
	int np = c.dim == 2 ? 4 : 8, e = 0; i = arr(f, "Name=\"connectivity\""); vp_check(cnt(f, i) == np * c.nelem(), "connectivity size", -1);
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int n[8]; c.conn(ex, ey, ez, n); for (int k = 0; k < np; k++) inum(f, i + np * e + k, n[k], "connectivity", np * e + k); e++; }
	i = arr(f, "Name=\"offsets\""); vp_check(cnt(f, i) == c.nelem(), "offsets size", -1); for (e = 0; e < c.nelem(); e++) inum(f, i + e, np * (e + 1), "offsets", e);
	i = arr(f, "Name=\"types\""); vp_check(cnt(f, i) == c.nelem(), "types size", -1); for (e = 0; e < c.nelem(); e++) inum(f, i + e, c.dim == 2 ? 9 : 12, "cell types", e);
}
static void comps(const char *f, const char *name, int n) { char a[80]; int i = vp_tok_find(f, 0, name); if (i < 0) { vp_check(false, "data array present", -1); return; } snprintf(a, 80, "NumberOfComponents=\"%d\"", n); int j = vp_tok_find(f, i, "NumberOfComponents="), k = vp_tok_find(f, i, a); vp_check(k >= 0 && j == k, "number of components", n); }
extern "C" void stub_ctan_lin(micropp_t *m) asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin(micropp_t *m) { for (int i = 0; i < 36; i++) m->ctan_lin[i] = 0.0; for (int i = 0; i < m->nvoi; i++) for (int j = 0; j < m->nvoi; j++) m->ctan_lin[i * m->nvoi + j] = 1e6 * (1 + (i + j) % 4 + (i == j)); }
// arbitrary state: every array of the file is that state
extern "C" void h_vtu() {
	Cfg c; c.geom(vp_param("symgeo", 1)); c.mp[3] = vp_param("symgeo", 1) ? vp_real("width", 0.01, 3.0) : 0.6; c.type = vp_param("type", 1); c.mt[0] = c.mt[1] = 1; c.mat(0, 3e7, 0.2, 3e4, 0.0); c.mat(1, 1e7, 0.25, 1e4, 0.0); micropp_t *m = c.make(); int N = c.nn() * c.dim;
	for (int i = 0; i < N; i++) { m->u[i] = vp_real_i("u", i, -1.0, 1.0); m->b[i] = vp_real_i("b", i, -1.0, 1.0); }
	for (int i = 0; i < c.nelem() * c.nv; i++) { m->elem_strain[i] = vp_real_i("st", i, -1.0, 1.0); m->elem_stress[i] = vp_real_i("sg", i, -1e6, 1e6); }
	int sym = vp_param("symv", 1); for (int i = 0; i < m->num_int_vars; i++) m->vars_old[i] = sym && i % 7 == 6 ? vp_real_i("v", i, 0.0, 1.0) : 0.0;
	// plastic strain: multiples of one symbolic amplitude, each with a rational norm
	double a = vp_real("a", 0.0, 0.1), Pn = 0; if (c.dim == 3) for (int i = 0; i < c.nelem() * 8; i++) { int k = 1 + i % 5, w = i % 3; double *v = m->vars_old + i * 7; if (w == 0) { v[0] = 3 * k * a; v[1] = -4 * k * a; } else if (w == 1) { v[2] = 2 * k * a; v[3] = 2 * k * a; v[4] = -2 * k * a; v[5] = 4 * k * a; v[0] = 4 * k * a; v[1] = -2 * k * a; } else { v[3] = -k * a; v[4] = k * a; } }
	// a file of that name already there, with another state, is replaced
	int ts = vp_param("ts", 3), id = vp_param("id", 7); if (vp_param("again", 1)) { for (int i = 0; i < N; i++) m->u[i] += 1.0; m->write_vtu(ts, id); for (int i = 0; i < N; i++) m->u[i] -= 1.0; } m->write_vtu(ts, id); char f[64]; snprintf(f, 64, "micropp_%d_%d.vtu", id, ts); vp_check(vp_file_exists(f), "file is named after the point and the step", -1); if (!vp_file_exists(f)) return; head(f, c);
	int i = arr(f, "Name=\"displ\""), j = arr(f, "Name=\"b\""); vp_check(cnt(f, i) == 3 * c.nn() && cnt(f, j) == 3 * c.nn(), "one vector per node", -1);
	for (int n = 0; n < c.nn(); n++) for (int k = 0; k < 3; k++) { num(f, i + 3 * n + k, k < c.dim ? m->u[n * c.dim + k] : 0.0, "displacement of the node", 3 * n + k); num(f, j + 3 * n + k, k < c.dim ? m->b[n * c.dim + k] : 0.0, "residual of the node", 3 * n + k); }
	comps(f, "Name=\"displ\"", 3); comps(f, "Name=\"strain\"", c.nv); comps(f, "Name=\"stress\"", c.nv); comps(f, "Name=\"elem_type\"", 1); comps(f, "Name=\"plasticity\"", 1); comps(f, "Name=\"hardening\"", 1); comps(f, "Name=\"Position\"", 3);
	i = arr(f, "Name=\"strain\""); j = arr(f, "Name=\"stress\""); vp_check(cnt(f, i) == c.nv * c.nelem() && cnt(f, j) == c.nv * c.nelem(), "one tensor per cell", -1); for (int k = 0; k < c.nv * c.nelem(); k++) { num(f, i + k, m->elem_strain[k], "strain of the cell", k); num(f, j + k, m->elem_stress[k], "stress of the cell", k); }
	i = arr(f, "Name=\"elem_type\""); vp_check(cnt(f, i) == c.nelem(), "one material per cell", -1); for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) inum(f, i + c.elem(ex, ey, ez), m->elem_type[c.elem(ex, ey, ez)], "material of the cell", c.elem(ex, ey, ez));
	i = arr(f, "Name=\"plasticity\""); j = arr(f, "Name=\"hardening\""); vp_check(cnt(f, i) == c.nelem() && cnt(f, j) == c.nelem(), "one history value per cell", -1);
	for (int e = 0; e < c.nelem(); e++) { double p = 0, h = 0; if (c.dim == 3) for (int g = 0; g < 8; g++) { const double *v = m->vars_old + (e * 8 + g) * 7; p += sqrt(tdot(v, v)) / 8; h += v[6] / 8; } num(f, i + e, p, "mean plastic strain of the cell", e); num(f, j + e, h, "mean hardening of the cell", e); }
	vp_observe("n", vp_tok_count(f)); delete m; vp_cover("vtu");
}
// rows of the information files: its and residual norms of every solve, strain, stress, tangent
static int g_call, g_on, g_w = 1; static int g_its[64], g_nl[64]; static double g_err[64];
extern "C" void stub_newton(micropp_t *m, bool *nl, int *its, double *err) asm("_ZN9micropp_t14newton_raphsonEPbPiPd");
extern "C" void stub_newton(micropp_t *m, bool *nl, int *its, double *err) { static char N[64][8], L[64][8]; *nl = false; if (!g_on) { *its = 0; *err = 0; return; } snprintf(N[g_call], 8, "i%d", g_call); snprintf(L[g_call], 8, "nl%d", g_call); int w = g_call % g_w ? 0 : vp_param("nl", 0); g_nl[g_call] = *nl = w ? vp_choose(L[g_call], 0, 1) : 0; *its = g_its[g_call] = vp_int(N[g_call], 0, 40); *err = g_err[g_call] = vp_real_i("err", g_call, 0.0, 1.0); g_call++; }
static int bar(const char *f, int k) { int p = -1; for (int i = 0; i <= k; i++) { p = vp_tok_find(f, p + 1, "|"); if (p < 0) return -1; } return p; }
extern "C" void h_info() {
	const char *F = "micropp_convergence.dat", *G = "micropp_eps_sig_ctan.dat", *H = "micropp_int_vars_n.dat"; g_on = g_call = 0;
	Cfg c; c.geom(false); c.mp[3] = 0.6 * c.mp[1]; c.mt[0] = c.mt[1] = 0; c.mat(0, 3e7, 0.2, 3e4, 0.0); c.mat(1, 1e7, 0.25, 1e4, 0.0); int lin = vp_param("lin", 0); c.mp[4] = lin ? 1e30 : -1.0;
	// an earlier instance leaves nothing behind
	if (vp_param("prior", 0)) { micropp_t *o = c.make(); double x[6] = { 0.01, 0, 0, 0, 0, 0 }; o->set_macro_strain(77, x); o->homogenize(); o->write_info_files(); delete o; }
	micropp_t *m = c.make(); g_on = 1;
	int np = vp_param("np", 2), rows = vp_param("rows", 2), ids[3] = { 31, -4, 8 }, w = 2 + 2 * (1 + c.nv), pre = vp_param("pre", 0);
	double e[3][6]; for (int i = 0; i < np; i++) { for (int v = 0; v < 6; v++) e[i][v] = v < c.nv ? vp_real_i("e", i * 6 + v, -0.1, 0.1) : 0.0; m->set_macro_strain(ids[i], e[i]); }
	if (pre) { m->write_info_files(); int q = bar(G, np - 1); vp_check(q > 0, "one entry per point", -1); if (q > 0) for (int i = 1; i <= 48; i++) if (vp_tok_isnum(G, q - i)) vp_check_defined(vp_tok_double(G, q - i), "values written before the first solve are defined", i); q = bar(F, np - 1); for (int i = 1; i <= w; i++) if (vp_tok_isnum(F, q - i)) vp_check_defined(vp_tok_double(F, q - i), "convergence values written before the first solve are defined", i); }
	double S[3][6], C[3][36]; int it0[3]; m->homogenize(); for (int i = 0; i < np; i++) { for (int v = 0; v < 6; v++) S[i][v] = 0; for (int v = 0; v < 36; v++) C[i][v] = 0; m->get_macro_stress(ids[i], S[i]); m->get_macro_ctan(ids[i], C[i]); }
	if (!lin) vp_assume(g_call > 0); for (int r = 0; r < rows; r++) m->write_info_files();
	int p = vp_tok_find(F, 0, "gp_id"); vp_check(p >= 0, "header names the points", -1); p = vp_tok_find(F, p, ":"); for (int i = 0; i < np; i++) inum(F, p + 1 + i, ids[i], "points listed in the header", i); p = vp_tok_find(G, 0, "gp_id"); p = vp_tok_find(G, p, ":"); for (int i = 0; i < np; i++) inum(G, p + 1 + i, ids[i], "points listed in the header", i);
	vp_check(vp_tok_find(F, vp_tok_find(F, 0, "gp_id") + 1, "gp_id") < 0, "header is written once", -1); vp_check(bar(F, (rows + pre) * np) < 0 && bar(G, (rows + pre) * np) < 0 && bar(H, (rows + pre) * np) < 0, "one entry per point and call", -1); vp_check(bar(H, (rows + pre) * np - 1) >= 0, "one history entry per point and call", -1);
	for (int r = 0; r < rows; r++) for (int i = 0; i < np; i++) {
		int q = bar(F, (r + pre) * np + i); vp_check(q >= w, "convergence entry present", i); if (q < w) continue; q -= w; inum(F, q, 0, "flag column", i);
		double tr = 0; { double l[6]; for (int a = 0; a < c.nv; a++) { l[a] = 0; for (int b = 0; b < c.nv; b++) l[a] += m->ctan_lin[a * c.nv + b] * e[i][b]; } tr = c.dim == 2 ? l[0] + l[1] : l[0] + l[1] + l[2]; if (tr < 0) tr = -tr; } num(F, q + 1, tr, "invariant column", i);
		for (int k = 0; k <= c.nv; k++) { num(F, q + 2 + 2 * k, lin ? 0 : g_its[i * (1 + c.nv) + k], "iterations of each solve", i * 7 + k); num(F, q + 3 + 2 * k, lin ? 0.0 : g_err[i * (1 + c.nv) + k], "residual norm of each solve", i * 7 + k); }
		q = bar(G, (r + pre) * np + i) - 48; vp_check(q >= 0, "strain, stress, tangent entry present", i); if (q < 0) continue; bool full = true; for (int k = 0; k < 48; k++) if (!vp_tok_isnum(G, q + k)) full = false; vp_check(full, "strain, stress and tangent are numbers", i); if (!full) continue;
		for (int v = 0; v < c.nv; v++) { num(G, q + v, e[i][v], "strain column", i * 6 + v); num(G, q + 6 + v, S[i][v], "stress column", i * 6 + v); } for (int v = 0; v < c.nv * c.nv; v++) num(G, q + 12 + v, C[i][v], "tangent column", i * 36 + v);
		for (int k = 0; k < 48; k++) vp_check_defined(vp_tok_double(G, q + k), "written value is defined", k); }
	vp_observe("n", vp_tok_count(F)); delete m; vp_cover("info");
}
// successive solves, each by the shortcut or by the full solve, points added in between: rows show the last solve of each point
extern "C" void h_infoseq() {
	const char *F = "micropp_convergence.dat", *G = "micropp_eps_sig_ctan.dat"; g_on = g_call = 0;
	Cfg c; c.geom(false); c.mp[3] = 0.6 * c.mp[1]; c.mat(0, 3e7, 0.2, 3e4, 0.0); c.mat(1, 1e7, 0.25, 1e4, 0.0); double tol = 1e4; c.mp[4] = tol; micropp_t *m = c.make(); g_on = 1; g_w = 1 + c.nv;
	int has[2] = { 0, 0 }, steps = vp_param("steps", 2), ids[2] = { 12, 5 }, np = 0, w = 2 + 2 * (1 + c.nv), rows = 0; double e[2][6]; static const double D[6] = { 1, 2, -1, 3, 1, -2 };
	for (int k = 0; k < steps; k++) {
		if (k == vp_param("add", 1)) np = 2; else if (!np) np = 1;
		for (int i = 0; i < np; i++) if (i == np - 1 || vp_param("both", 1)) { double t = vp_real_i("t", k * 2 + i, -0.1, 0.1); for (int v = 0; v < 6; v++) e[i][v] = v < c.nv ? t * D[v] * (i ? -1 : 1) : 0.0; m->set_macro_strain(ids[i], e[i]); }
		int call = g_call, its[2][7]; double er[2][7], tr[2], S[2][6], C[2][36]; bool lin[2]; m->homogenize();
		for (int i = 0; i < np; i++) { double l[6]; for (int a = 0; a < c.nv; a++) { l[a] = 0; for (int b = 0; b < c.nv; b++) l[a] += m->ctan_lin[a * c.nv + b] * e[i][b]; } tr[i] = c.dim == 2 ? l[0] + l[1] : l[0] + l[1] + l[2]; if (tr[i] < 0) tr[i] = -tr[i]; vp_assume(tr[i] < tol * 0.999 || tr[i] > tol * 1.001); lin[i] = tr[i] < tol && !has[i]; if (!lin[i] && g_nl[call]) { has[i] = 1; vp_cover("point with history recorded"); }
			for (int q = 0; q <= c.nv; q++) { its[i][q] = lin[i] ? 0 : g_its[call]; er[i][q] = lin[i] ? 0.0 : g_err[call]; if (!lin[i]) call++; } for (int v = 0; v < 36; v++) C[i][v] = 0; for (int v = 0; v < 6; v++) S[i][v] = 0; m->get_macro_stress(ids[i], S[i]); m->get_macro_ctan(ids[i], C[i]);
			if (k && lin[i]) vp_cover("shortcut after a solve"); if (!lin[i]) vp_cover("full solve recorded"); }
		vp_check(call == g_call, "a point is solved exactly when the shortcut does not apply", k);
		m->write_info_files();
		for (int i = 0; i < np; i++, rows++) { int q = bar(F, rows) - w; vp_check(q >= 0, "convergence entry present", rows); if (q < 0) return; inum(F, q, has[i], "flag column", i); num(F, q + 1, tr[i], "invariant column", i); for (int a = 0; a <= c.nv; a++) { num(F, q + 2 + 2 * a, its[i][a], "iterations of the last solve", rows * 7 + a); num(F, q + 3 + 2 * a, er[i][a], "residual norm of the last solve", rows * 7 + a); }
			q = bar(G, rows) - 48; vp_check(q >= 0, "strain, stress, tangent entry present", rows); if (q < 0) return; for (int v = 0; v < c.nv; v++) { num(G, q + v, e[i][v], "strain column", rows * 6 + v); num(G, q + 6 + v, S[i][v], "stress column", rows * 6 + v); } for (int v = 0; v < c.nv * c.nv; v++) num(G, q + 12 + v, C[i][v], "tangent column", rows * 36 + v); }
	}
	vp_check(bar(F, rows) < 0 && bar(G, rows) < 0 && bar("micropp_int_vars_n.dat", rows) < 0, "one entry per point and call", -1);
	vp_observe("n", vp_tok_count(F)); delete m; vp_cover("info sequence");
}
// history file and flag column after symbolic plastic steps through the public interface; VTU history of the output call
extern "C" void h_materials() {
	Cfg c; c.geom(false); for (int i = 0; i < 2; i++) c.mat(i, vp_real_i("E", i, 1.0, 1e9), vp_real_i("nu", i, 0.0, 0.49), vp_real_i("Sy", i, 0.0, 1e6), vp_real_i("Ka", i, 0.0, 1e6)); const char *F = "micropp_materials.dat"; g_on = 0;
	micropp_t *m = c.make(); vp_check(vp_tok_count(F) == 8, "four numbers per material", -1); if (vp_tok_count(F) == 8) for (int i = 0; i < 2; i++) { num(F, 4 * i, c.E(i), "Young modulus", i); num(F, 4 * i + 1, c.nu(i), "Poisson ratio", i); num(F, 4 * i + 2, c.Sy(i), "yield stress", i); num(F, 4 * i + 3, c.Ka(i), "hardening modulus", i); }
	const char *L[3] = { "micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat" }; for (int i = 0; i < 3; i++) vp_check(vp_file_exists(L[i]) && vp_tok_count(L[i]) == 0, "log files start empty", i);
	vp_observe("n", vp_tok_count(F)); delete m; vp_cover("materials");
}
