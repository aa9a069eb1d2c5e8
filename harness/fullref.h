// Whole solves on grids with free nodes: one-parameter load families, the real assembly, conjugate gradient and Newton loop in exact arithmetic,
// compared with an independent direct solution of the same discrete problem.
#pragma once
#include "h.h"
// strain-displacement operator, local stiffness by quadrature, direct elimination: all written here
static void cmat(const Cfg &c, int mat, double *C) { for (int i = 0; i < c.nv; i++) { double e[6] = { 0 }, s[6]; e[i] = 1.0; hooke(c.lam(mat), c.mu(mat), c.dim, e, s); for (int v = 0; v < c.nv; v++) C[v * c.nv + i] = s[v]; } }
static bool inmat1(const Cfg &c, int ex, int ey, int ez) {
	double x = (ex + 0.5) * c.h(0) - c.mp[0] / 2, y = (ey + 0.5) * c.h(1) - c.mp[1] / 2, z = c.dim == 2 ? 0.0 : (ez + 0.5) * c.h(2) - c.mp[2] / 2;
	return c.type == 1 ? (ey + 0.5) * c.h(1) < c.mp[3] : x * x + y * y + z * z < c.mp[3] * c.mp[3];
}
// reference effective stiffness of a cell with unit-scaled moduli (Er[mat]), column i = average stress for unit strain i
static void reference(const Cfg &c, const double Er[2], double *Ceff, vector<double> *U = 0) {
	Cfg k = c; for (int i = 0; i < 2; i++) k.mat(i, Er[i], c.nu(i), 0, 0);
	int dim = c.dim, npe = ngp(c), ne = npe * dim; double vol = c.h(0) * c.h(1) * (dim == 2 ? 1.0 : c.h(2));
	double Ke[2][576], C[2][36];
	for (int m = 0; m < 2; m++) { cmat(k, m, C[m]); for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) Ke[m][i * ne + j] = 0; }
	for (int g = 0; g < npe; g++) { double B[6][24]; for (int i = 0; i < ne; i++) for (int v = 0; v < c.nv; v++) B[v][i] = 0;
		for (int l = 0; l < npe; l++) for (int a = 0; a < dim; a++) for (int q = 0; q < dim; q++) { int v = a == q ? a : dim == 2 ? 2 : 2 + a + q; B[v][l * dim + a] += dshape(c, g, l, q); }
		for (int m = 0; m < 2; m++) for (int v = 0; v < c.nv; v++) for (int w = 0; w < c.nv; w++) for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) Ke[m][i * ne + j] += B[v][i] * C[m][v * c.nv + w] * B[w][j] * vol / npe; }
	vector<int> id(c.nn() * dim, -1); int nf = 0; for (int n = 0; n < c.nn(); n++) if (!c.bnd(n)) for (int a = 0; a < dim; a++) id[n * dim + a] = nf++;
	vector<double> K(nf * nf, 0.0);
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int n[8]; c.conn(ex, ey, ez, n); int m = inmat1(c, ex, ey, ez);
		for (int i = 0; i < ne; i++) { int gi = id[n[i / dim] * dim + i % dim]; if (gi >= 0) for (int j = 0; j < ne; j++) { int gj = id[n[j / dim] * dim + j % dim]; if (gj >= 0) K[gi * nf + gj] += Ke[m][i * ne + j]; } } }
	for (int s = 0; s < c.nv; s++) {
		double E[6] = { 0 }; E[s] = 1.0; vector<double> u(c.nn() * dim, 0.0), f(nf, 0.0), A(K);
		for (int n = 0; n < c.nn(); n++) if (c.bnd(n)) { double x[3]; c.coor(n, x); affine(E, dim, x, &u[n * dim]); }
		for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int n[8]; c.conn(ex, ey, ez, n); int m = inmat1(c, ex, ey, ez);
			for (int i = 0; i < ne; i++) { int gi = id[n[i / dim] * dim + i % dim]; if (gi >= 0) for (int j = 0; j < ne; j++) f[gi] -= Ke[m][i * ne + j] * u[n[j / dim] * dim + j % dim]; } }
		for (int p = 0; p < nf; p++) for (int r = p + 1; r < nf; r++) { double q = A[r * nf + p] / A[p * nf + p]; for (int k2 = p; k2 < nf; k2++) A[r * nf + k2] -= q * A[p * nf + k2]; f[r] -= q * f[p]; }
		for (int p = nf - 1; p >= 0; p--) { double q = f[p]; for (int k2 = p + 1; k2 < nf; k2++) q -= A[p * nf + k2] * f[k2]; f[p] = q / A[p * nf + p]; }
		for (int i = 0; i < c.nn() * dim; i++) if (id[i] >= 0) u[i] = f[id[i]];
		if (U) U[s] = u;
		double S[6] = { 0 };
		for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int m = inmat1(c, ex, ey, ez);
			for (int g = 0; g < npe; g++) { double st[6]; ref_strain(c, &u[0], ex, ey, ez, g, st); for (int v = 0; v < c.nv; v++) for (int w = 0; w < c.nv; w++) S[v] += C[m][v * c.nv + w] * st[w] / (npe * c.nelem()); } }
		for (int v = 0; v < c.nv; v++) Ceff[v * c.nv + s] = S[v];
	}
}
