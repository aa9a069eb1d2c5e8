// Output of points with plastic history, through the public interface only.
#include "ref.h"
static int arr(const char *f, const char *name) { int i = vp_tok_find(f, 0, name); if (i < 0) return -1; i = vp_tok_find(f, i, ">"); return i < 0 ? -1 : i + 1; }
static void num(const char *f, int i, double r, double tol, const char *l, int idx) { double v = vp_tok_double(f, i); vp_check_near(v, r, (vp_symbolic() ? 0.0 : 2e-5 * fabs(v) + 1e-9) + tol, l, idx); }
static int bar(const char *f, int k) { int p = -1; for (int i = 0; i <= k; i++) { p = vp_tok_find(f, p + 1, "|"); if (p < 0) return -1; } return p; }
static RefPt P[2];
static int matof(const Cfg &c, int e) { int ey = (e / (c.nx - 1)) % (c.ny - 1); return (ey + 0.5) * c.h(1) < c.mp[3]; }
static void field(const char *f, const Cfg &c, const double *e, const Hist *h, double T) {
	int d = arr(f, "Name=\"displ\""), st = arr(f, "Name=\"strain\""), sg = arr(f, "Name=\"stress\""), b = arr(f, "Name=\"b\""), pl = arr(f, "Name=\"plasticity\""), ha = arr(f, "Name=\"hardening\""); if (d < 0 || st < 0 || sg < 0 || pl < 0 || ha < 0 || b < 0) { vp_check(false, "all data arrays are present", -1); return; }
	for (int n = 0; n < c.nn(); n++) { double x[3], u[3]; c.coor(n, x); affine(e, 3, x, u); for (int a = 0; a < 3; a++) { num(f, d + 3 * n + a, u[a], 0, "displacement written is that of the point's own strain", 3 * n + a); num(f, b + 3 * n + a, 0.0, T, "residual written is that of the solved state", 3 * n + a); } }
	for (int q = 0; q < c.nelem(); q++) { int k = matof(c, q); Hist o; double s[6]; ref_step(P[k], e, h[k], o, s, 0.0); for (int v = 0; v < 6; v++) { num(f, st + 6 * q + v, e[v], 0, "strain written is the point's own strain", 6 * q + v); num(f, sg + 6 * q + v, s[v], T, "stress written follows from the strain and the committed history", 6 * q + v); }
		num(f, pl + q, sqrt(tdot(h[k].ep, h[k].ep)), 1e-9, "plastic strain written is the committed one", q); num(f, ha + q, h[k].al, 1e-9, "hardening written is the committed one", q); }
}
extern "C" void h_outhist() {
	Cfg c; c.geom(false); c.type = 1; c.mt[0] = c.mt[1] = 1; P[0].E = 4e7; P[0].nu = 0.2; P[0].Sy = 3e4; P[0].Ka = vp_param("Ka", 0); P[1].E = 1e7; P[1].nu = 0.25; P[1].Sy = 1e4; P[1].Ka = vp_param("Ka", 0); for (int i = 0; i < 2; i++) c.mat(i, P[i].E, P[i].nu, P[i].Sy, P[i].Ka); int mix = vp_param("mix", 0); if (mix) { c.mt[mix - 1] = 0; P[mix - 1].Sy = 1e30; } c.mp[3] = c.ny > 2 ? 1.5 * c.h(1) / 2 : 100.0; c.mp[4] = -1.0;
	micropp_t *m = c.make(); int A = 6, B = -3, two = vp_param("two", 0), dir = vp_param("dir", 1), ts = vp_param("ts", 4); double ea[6], eb[6], s0[6], s1[6], T = vp_symbolic() ? 1e-6 : 5.0; Hist h[2], z[2], g[2];
	direction(dir, vp_real("t0", 0.0, 0.1), ea); direction(vp_param("dirb", dir), two ? vp_real("tb", -0.1, 0.0) : 0.0, eb); m->set_macro_strain(A, ea); if (two) m->set_macro_strain(B, eb); m->homogenize();
	int up = vp_choose("commit", 0, 1); if (up) { m->update_vars(); double s[6]; for (int k = 0; k < 2; k++) { ref_step(P[k], ea, z[k], h[k], s, 1e-3); ref_step(P[k], eb, z[k], g[k], s, 1e-3); } }
	double t1 = vp_param("second", 0) ? vp_real("t1", 0.0, 0.1) : 0.0; if (vp_param("second", 0)) { direction(dir, t1, ea); m->set_macro_strain(A, ea); m->homogenize(); }
	m->get_macro_stress(A, s0); int n0 = 0, n1 = 0; m->get_nl_flag(A, &n0);
	m->output(ts, A); char f[64]; snprintf(f, 64, "micropp_%d_%d.vtu", A, ts); vp_check(vp_file_exists(f), "file is named after the point and the step", -1); if (!vp_file_exists(f)) return; field(f, c, ea, h, T);
	if (two) { m->output(ts + 1, B); snprintf(f, 64, "micropp_%d_%d.vtu", B, ts + 1); vp_check(vp_file_exists(f), "file is named after the point and the step", 1); if (!vp_file_exists(f)) return; field(f, c, eb, g, T); }
	m->output(ts, 99); snprintf(f, 64, "micropp_%d_%d.vtu", 99, ts); vp_check(!vp_file_exists(f), "no file for an unknown point", -1);
	m->get_macro_stress(A, s1); m->get_nl_flag(A, &n1); for (int v = 0; v < 6; v++) vp_check_near(s1[v], s0[v], 0.0, "writing output leaves the results alone", v); vp_check(n0 == n1, "writing output leaves the flag alone", -1);
	// the history file lists the committed history of every integration point
	m->write_info_files(); const char *H = "micropp_int_vars_n.dat", *F = "micropp_convergence.dat"; int q = bar(H, 0), N = c.nelem() * 56; vp_check(q == N, "one history value per integration point and variable", -1);
	if (q == N) for (int e = 0; e < c.nelem(); e++) for (int k = 0; k < 8; k++) for (int v = 0; v < 7; v++) num(H, (e * 8 + k) * 7 + v, v < 6 ? h[matof(c, e)].ep[v] : h[matof(c, e)].al, 1e-9, "history file lists the committed history", (e * 8 + k) * 7 + v);
	q = bar(F, 0); vp_check(q > 16, "convergence entry present", -1); if (q > 16) num(F, q - 16, n0, 0, "flag column tells whether the point has history", -1);
	// a later commit and solve are those of the point, not of the output call
	if (vp_param("after", 0)) { m->output(ts, A); Hist o[2]; double s[6], r[6] = { 0 }; for (int k = 0; k < 2; k++) ref_step(P[k], ea, h[k], o[k], s, 0.0); m->update_vars(); direction(dir, vp_real("t2", -0.1, 0.0), ea); m->set_macro_strain(A, ea); m->homogenize(); m->get_macro_stress(A, s1); for (int e = 0; e < c.nelem(); e++) { Hist x; ref_step(P[matof(c, e)], ea, o[matof(c, e)], x, s, 1e-3); for (int v = 0; v < 6; v++) r[v] += s[v] / c.nelem(); } for (int v = 0; v < 6; v++) vp_check_near(s1[v], r[v], vp_symbolic() ? 1e-6 : 1.0, "output leaves the pending history alone", v);
		m->output(ts, A); snprintf(f, 64, "micropp_%d_%d.vtu", A, ts); field(f, c, ea, o, T); }
	if (n0 && up) vp_cover("output with history"); vp_observe("s0", s1[0]); delete m; vp_cover("output");
}
