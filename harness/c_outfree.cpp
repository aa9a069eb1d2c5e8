// Output of an elastic composite cell with free nodes: the file shows the equilibrium fields of the point's strain.
#include "fullref.h"
// the linear stiffness is not used here; without its solves every field stays proportional to the load
extern "C" void stub_ctan_lin(micropp_t *m) asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin(micropp_t *m) { for (int i = 0; i < 36; i++) m->ctan_lin[i] = 0.0; }
static int arr(const char *f, const char *name) { int i = vp_tok_find(f, 0, name); if (i < 0) return -1; i = vp_tok_find(f, i, ">"); return i < 0 ? -1 : i + 1; }
static void num(const char *f, int i, double r, double tol, const char *l, int idx) { double v = vp_tok_double(f, i); vp_check_near(v, r, (vp_symbolic() ? 0.0 : 2e-5 * fabs(v)) + tol, l, idx); }
extern "C" void h_outfree() {
	Cfg c; c.geom(false); c.mp[3] = vp_param("w100", 90) / 100.0; c.mp[4] = vp_param("lin", 0) ? 1e30 : -1.0; double E = 1e7, Er[2] = { 1.0, 10.0 }, Cr[36]; vector<double> U[6]; c.mat(0, 1.0, 0.25, 1.0, 0.0); c.mat(1, Er[1], 0.3, 1.0, 0.0); reference(c, Er, Cr, U);
	c.mat(0, E, 0.25, 1.0, 0.0); c.mat(1, E * Er[1], 0.3, 1.0, 0.0); micropp_t *m = c.make(); static const double D[6] = { 1, -2, 3, 1, 2, -1 }; double t = vp_real("t", 0.001, 0.5), e[2][6]; int ids[2] = { 5, -2 };
	for (int p = 0; p < 2; p++) { for (int v = 0; v < c.nv; v++) e[p][v] = p ? -0.5 * t * (v + 1) : t * D[c.dim == 2 && v == 2 ? 3 : v]; m->set_macro_strain(ids[p], e[p]); }
	if (vp_param("solve", 1)) m->homogenize();
	for (int q = 0; q < 2; q++) { int p = vp_param("rev", 0) ? 1 - q : q; m->output(q + 1, ids[p]); char f[64]; snprintf(f, 64, "micropp_%d_%d.vtu", ids[p], q + 1); vp_check(vp_file_exists(f), "file is named after the point and the step", p); if (!vp_file_exists(f)) return;
		int d = arr(f, "Name=\"displ\""), st = arr(f, "Name=\"strain\""), sg = arr(f, "Name=\"stress\""); if (d < 0 || st < 0 || sg < 0) { vp_check(false, "all data arrays are present", -1); return; }
		vector<double> u(c.nn() * c.dim, 0.0); for (size_t i = 0; i < u.size(); i++) for (int v = 0; v < c.nv; v++) u[i] += U[v][i] * e[p][v];
		for (int n = 0; n < c.nn(); n++) for (int a = 0; a < c.dim; a++) num(f, d + 3 * n + a, u[n * c.dim + a], 1e-9, "displacement written is the equilibrium one", n * 3 + a);
		for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int k = c.elem(ex, ey, ez), mt = inmat1(c, ex, ey, ez), g = ngp(c); double a[6] = { 0 }, s[6]; for (int i = 0; i < g; i++) { double x[6]; ref_strain(c, &u[0], ex, ey, ez, i, x); for (int v = 0; v < c.nv; v++) a[v] += x[v] / g; } hooke(c.lam(mt), c.mu(mt), c.dim, a, s);
			for (int v = 0; v < c.nv; v++) { num(f, st + c.nv * k + v, a[v], 1e-8, "strain written is that of equilibrium", k * 6 + v); num(f, sg + c.nv * k + v, s[v], 1.0, "stress written is that of equilibrium", k * 6 + v); } } }
	vp_observe("t", t); delete m; vp_cover("output of a relaxed cell");
}
