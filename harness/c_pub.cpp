// Nothing cut, public interface only: what a cell with free nodes returns is what a converged solve returns, also after an earlier solve.
#include "fullref.h"
extern "C" void h_pub() {
	Cfg c; c.geom(false); c.mp[3] = vp_param("w100", 90) / 100.0; c.mp[4] = -1.0;
	double E = vp_real("E", 1e7, 1e9), Er[2] = { 1.0, 10.0 }, Cr[36], eps[6], s[6], t = vp_real("t", 0.001, 0.5); c.mat(0, E, 0.25, 1.0, 0.0); c.mat(1, E * Er[1], 0.3, 1.0, 0.0); reference(c, Er, Cr);
	static const int D[6] = { 1, -2, 3, 1, 2, -1 }; micropp_t *m = c.make();
	for (int k = 0; k < vp_param("steps", 2); k++) {
		for (int v = 0; v < c.nv; v++) eps[v] = (k ? -0.125 : t) * (c.dim == 2 && v == 2 ? D[3] : D[v]);
		m->set_macro_strain(11, eps); m->homogenize(); m->get_macro_stress(11, s);
		for (int v = 0; v < c.nv; v++) { double r = 0; for (int w = 0; w < c.nv; w++) r += Cr[v * c.nv + w] * eps[w] * E; vp_check_near(s[v], r, 1e-5 * E, "the solve behind the stress has converged", k * 6 + v); }
	}
	vp_observe("s0", s[0]); delete m; vp_cover("public solve");
}
static int arr(const char *f, const char *name) { int i = vp_tok_find(f, 0, name); if (i < 0) return -1; i = vp_tok_find(f, i, ">"); return i < 0 ? -1 : i + 1; }
static void num(const char *f, int i, double r, double tol, const char *l, int idx) { double v = vp_tok_double(f, i); vp_check_near(v, r, (vp_symbolic() ? 0.0 : 2e-5 * fabs(v)) + tol, l, idx); }
// the fields of a cell as the user sees them in its output file; w selects what is looked at
extern "C" void h_pubout() {
	Cfg c; c.geom(false); int w = vp_param("what", 1), hom = vp_param("hom", 0); c.mp[3] = hom ? 100.0 : vp_param("w100", 90) / 100.0; c.mp[4] = vp_param("lin", 0) ? 1e30 : -1.0; double E = 1e7, Er[2] = { 1.0, 10.0 }, Cr[36], e[6], S[6]; vector<double> U[6];
	c.mat(0, E, 0.25, 1.0, 0.0); c.mat(1, E * Er[1], 0.3, 1.0, 0.0); reference(c, Er, Cr, U); micropp_t *m = c.make(); static const double D[6] = { 1, -2, 3, 1, 2, -1 }; double t = vp_real("t", 0.001, 0.5);
	for (int v = 0; v < c.nv; v++) e[v] = t * D[c.dim == 2 && v == 2 ? 3 : v];
	m->set_macro_strain(4, e); m->homogenize(); m->get_macro_stress(4, S); m->output(1, 4); const char *f = "micropp_4_1.vtu"; if (!vp_file_exists(f)) { delete m; vp_cover("public output"); return; }
	int d = arr(f, "Name=\"displ\""), st = arr(f, "Name=\"strain\""), sg = arr(f, "Name=\"stress\""), et = arr(f, "Name=\"elem_type\""); if (d < 0 || st < 0 || sg < 0 || et < 0) { delete m; vp_cover("public output"); return; }
	vector<double> u(c.nn() * c.dim, 0.0), q(u); for (size_t i = 0; i < u.size(); i++) { q[i] = vp_tok_double(f, d + 3 * (i / c.dim) + i % c.dim); for (int v = 0; v < c.nv; v++) u[i] += U[v][i] * e[v]; }
	for (int n = 0; n < c.nn(); n++) if (w == 2 ? c.bnd(n) : w == 3 ? !c.bnd(n) : w == 22) { double x[3], r[3]; c.coor(n, x); affine(e, c.dim, x, r); for (int a = 0; a < c.dim; a++) num(f, d + 3 * n + a, w == 3 ? u[n * c.dim + a] : r[a], w == 2 ? 1e-12 : 1e-9, w == 2 ? "boundary node moves with the macroscopic strain" : w == 3 ? "free node is in equilibrium" : "uniform cell deforms uniformly", n * 3 + a); }
	double sum[6] = { 0 }, W = 0, M = 0;
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int k = c.elem(ex, ey, ez), mt = inmat1(c, ex, ey, ez), g = ngp(c); double a[6] = { 0 }, s[6];
		for (int i = 0; i < g; i++) { double x[6], y[6]; ref_strain(c, &q[0], ex, ey, ez, i, x); hooke(c.lam(mt), c.mu(mt), c.dim, x, y); for (int v = 0; v < c.nv; v++) { a[v] += x[v] / g; W += x[v] * y[v] / (g * c.nelem()); } } hooke(c.lam(mt), c.mu(mt), c.dim, a, s);
		if (w == 13) num(f, et + k, mt, 0.0, "element belongs to the material at its centre", k);
		for (int v = 0; v < c.nv; v++) { sum[v] += vp_tok_double(f, sg + c.nv * k + v) / c.nelem(); if (w == 18) { num(f, st + c.nv * k + v, a[v], 1e-6, "element strain is that of the displacements", k * 6 + v); num(f, sg + c.nv * k + v, s[v], 20.0 + 1e-5 * E * !vp_symbolic(), "element stress is that of the displacements", k * 6 + v); } if (w == 22) num(f, st + c.nv * k + v, e[v], 1e-8, "uniform cell strains uniformly", k * 6 + v); } }
	for (int v = 0; v < c.nv; v++) { M += S[v] * e[v]; if (w == 1 && !vp_param("lin", 0)) vp_check_near(sum[v], S[v], 1.0 + 1e-4 * E * !vp_symbolic(), "macroscopic stress is the average of the cell's", v); }
	if (w == 23) vp_check_near(M, W, 1e3 + 1e-4 * E * 10 * !vp_symbolic(), "macroscopic work equals the average work in the cell", -1);
	vp_observe("s0", S[0]); delete m; vp_cover("public output");
}
