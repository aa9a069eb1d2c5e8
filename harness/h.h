// Shared helpers: configurations with symbolic geometry/material data, independent reference formulas.
#pragma once
#include "vp.h"
#include "micro.hpp"
#include <vector>
using std::vector;
struct Cfg {
	int dim, nx, ny, nz, nv, nd, type, mt[2];
	double mp[5], par[2 * MAX_MAT_PARAM];
	Cfg() { dim = vp_param("dim", 3); nx = vp_param("nx", 2); ny = vp_param("ny", 2); nz = dim == 2 ? 1 : vp_param("nz", 2); type = vp_param("type", 1);
		mt[0] = vp_param("mt0", 0); mt[1] = vp_param("mt1", 0); nv = dim == 2 ? 3 : 6; nd = dim;
		for (int i = 0; i < 2 * MAX_MAT_PARAM; i++) par[i] = 0.0; }
	// geometry: sym=1 symbolic lengths, else unit-ish concrete ones
	void geom(bool sym) {
		mp[0] = sym ? vp_real("lx", 0.25, 4.0) : 1.0; mp[1] = sym ? vp_real("ly", 0.25, 4.0) : 2.0; mp[2] = sym ? vp_real("lz", 0.25, 4.0) : 0.5;
		mp[3] = 0.0; mp[4] = 1.0e30; }
	void mat(int i, double E, double nu, double Sy, double Ka) { double *p = par + i * MAX_MAT_PARAM; p[0] = E; p[1] = nu; p[2] = Sy; p[3] = Ka; }
	double E(int i) const { return par[i * MAX_MAT_PARAM]; } double nu(int i) const { return par[i * MAX_MAT_PARAM + 1]; }
	double Sy(int i) const { return par[i * MAX_MAT_PARAM + 2]; } double Ka(int i) const { return par[i * MAX_MAT_PARAM + 3]; }
	double mu(int i) const { return E(i) / (2 * (1 + nu(i))); }
	double lam(int i) const { return E(i) * nu(i) / ((1 + nu(i)) * (1 - 2 * nu(i))); }
	double h(int a) const { return a == 0 ? mp[0] / (nx - 1) : a == 1 ? mp[1] / (ny - 1) : mp[2] / (nz - 1); }
	double vol() const { return dim == 2 ? mp[0] * mp[1] : mp[0] * mp[1] * mp[2]; }
	int nn() const { return nx * ny * nz; }
	int nez() const { return dim == 2 ? 1 : nz - 1; }
	int nelem() const { return (nx - 1) * (ny - 1) * nez(); }
	bool bnd(int n) const { int i = n % nx, j = (n / nx) % ny, k = n / (nx * ny); return i == 0 || i == nx - 1 || j == 0 || j == ny - 1 || (dim == 3 && (k == 0 || k == nz - 1)); }
	void coor(int n, double *x) const { x[0] = (n % nx) * h(0); x[1] = ((n / nx) % ny) * h(1); x[2] = dim == 2 ? 0.0 : (n / (nx * ny)) * h(2); }
	int elem(int ex, int ey, int ez) const { return ez * (nx - 1) * (ny - 1) + ey * (nx - 1) + ex; }
	void conn(int ex, int ey, int ez, int *n) const { int b = ez * nx * ny + ey * nx + ex; n[0] = b; n[1] = b + 1; n[2] = b + nx + 1; n[3] = b + nx; if (dim == 3) for (int i = 0; i < 4; i++) n[4 + i] = n[i] + nx * ny; }
	micropp_t *make() { int size[3] = { nx, ny, nz }; return new micropp_t(dim, size, type, mp, mt, par); }
};
// symmetric strain (engineering shear) as tensor component a,b
static inline double tens(const double *e, int dim, int a, int b) {
	if (a == b) return e[a];
	if (dim == 2) return 0.5 * e[2];
	int s = a + b; return 0.5 * (s == 1 ? e[3] : s == 2 ? e[4] : e[5]);
}
static inline void affine(const double *e, int dim, const double *x, double *u) { for (int a = 0; a < dim; a++) { u[a] = 0; for (int b = 0; b < dim; b++) u[a] += tens(e, dim, a, b) * x[b]; } }
// isotropic Hooke law, dim 2 = plane strain
static inline void hooke(double lam, double mu, int dim, const double *e, double *s) {
	double tr = 0; for (int a = 0; a < dim; a++) tr += e[a];
	for (int a = 0; a < dim; a++) s[a] = lam * tr + 2 * mu * e[a];
	for (int v = dim; v < (dim == 2 ? 3 : 6); v++) s[v] = mu * e[v];
}
static const double GP = 0.577350269189626;
static inline void gpsign(int gp, int *s) { static const int S[8][3] = { { -1, -1, -1 }, { 1, -1, -1 }, { 1, 1, -1 }, { -1, 1, -1 }, { -1, -1, 1 }, { 1, -1, 1 }, { 1, 1, 1 }, { -1, 1, 1 } }; for (int a = 0; a < 3; a++) s[a] = S[gp][a]; }
// derivative of the (multi)linear shape function of local node n along axis a at Gauss point gp
static inline double dshape(const Cfg &c, int gp, int n, int a) {
	int g[3], s[3]; gpsign(gp, g); gpsign(n, s); double v = s[a] / c.h(a);
	for (int b = 0; b < c.dim; b++) if (b != a) v = v * (1 + s[b] * g[b] * GP) / 2;
	return v;
}
// strain at Gauss point gp of element (ex,ey,ez) for nodal displacement u
static inline void ref_strain(const Cfg &c, const double *u, int ex, int ey, int ez, int gp, double *e) {
	int n[8]; c.conn(ex, ey, ez, n); double g[3][3]; int npe = c.dim == 2 ? 4 : 8;
	for (int a = 0; a < c.dim; a++) for (int b = 0; b < c.dim; b++) { g[a][b] = 0; for (int i = 0; i < npe; i++) g[a][b] += u[n[i] * c.dim + a] * dshape(c, gp, i, b); }
	for (int a = 0; a < c.dim; a++) e[a] = g[a][a];
	if (c.dim == 2) e[2] = g[0][1] + g[1][0]; else { e[3] = g[0][1] + g[1][0]; e[4] = g[0][2] + g[2][0]; e[5] = g[1][2] + g[2][1]; }
}
static inline int ngp(const Cfg &c) { return c.dim == 2 ? 4 : 8; }
