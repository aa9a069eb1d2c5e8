// Sparse assembly, boundary conditions (functions of ell.cpp driven directly)
#include "vp.h"
#include "ell.hpp"
#include <vector>
using std::vector;
static const double BIG = 1000.0;
static int nx, ny, nz, nf, dim, nn, N;
static void grid() {
	dim = vp_param("dim", 2); nx = vp_param("nx", 3); ny = vp_param("ny", 3); nz = dim == 2 ? 1 : vp_param("nz", 3);
	nf = vp_param("nf", dim); nn = nx * ny * nz; N = nn * nf;
}
static bool bnd(int n) {
	int i = n % nx, j = (n / nx) % ny, k = n / (nx * ny);
	return i == 0 || i == nx - 1 || j == 0 || j == ny - 1 || (dim == 3 && (k == 0 || k == nz - 1));
}
// node list of an element, in the element-matrix order used by the library
static void conn(int ex, int ey, int ez, int *n) {
	int b = ez * nx * ny + ey * nx + ex;
	n[0] = b; n[1] = b + 1; n[2] = b + nx + 1; n[3] = b + nx;
	if (dim == 3) for (int i = 0; i < 4; i++) n[4 + i] = n[i] + nx * ny;
}
static void init(ell_matrix &m) { if (dim == 2) ell_init_2D(&m, nf, nx, ny); else ell_init_3D(&m, nf, nx, ny, nz); }
static void add(ell_matrix &m, int ex, int ey, int ez, double *Ae) { if (dim == 2) ell_add_struct2D(&m, ex, ey, Ae, nf, nx, ny); else ell_add_struct3D(&m, ex, ey, ez, Ae, nf, nx, ny, nz); }

// A x equals the sum over elements of the scattered element products, for every element matrix and every vector.
// One symbolic element matrix entry per (element,row,col) is too many for big grids; linearity is not assumed:
// each element gets Ae(i,j) = a_e + r_i*p + c_j*q + i*j-coded constants with symbolic a_e, so any misplaced entry shows.
extern "C" void h_assembly() {
	grid();
	int full = vp_param("full", 0);
	ell_matrix m; init(m);
	vp_check(m.nrow == N, "rows of the system", -1);
	ell_set_zero_mat(&m);
	int npe = dim == 2 ? 4 : 8, ne = npe * nf, nez = dim == 2 ? 1 : nz - 1;
	vector<double> x(N), y(N), ref(N, 0.0), Ae(ne * ne);
	for (int i = 0; i < N; i++) x[i] = vp_real_i("x", i, -BIG, BIG);
	int e = 0;
	for (int ez = 0; ez < nez; ez++) for (int ey = 0; ey < ny - 1; ey++) for (int ex = 0; ex < nx - 1; ex++, e++) {
		double a = vp_real_i("a", e, -BIG, BIG);
		for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++)
			Ae[i * ne + j] = full ? vp_real_i("A", (e * ne + i) * ne + j, -BIG, BIG) : a * (1 + i * 37 + j * 101);
		int n[8]; conn(ex, ey, ez, n);
		for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++)
			ref[n[i / nf] * nf + i % nf] += Ae[i * ne + j] * x[n[j / nf] * nf + j % nf];
		add(m, ex, ey, ez, &Ae[0]);
	}
	ell_mvp_2D(&m, &x[0], &y[0]);
	for (int i = 0; i < N; i++) vp_check_near(y[i], ref[i], 0.0, "assembled product row", i);
	vp_observe("y0", y[0]); vp_observe("yl", y[N - 1]);
	for (int i = 0; i < N; i++) for (int j = 0; j < m.nnz; j++) vp_check(m.cols[i * m.nnz + j] >= 0 && m.cols[i * m.nnz + j] < N, "column index in range", i);
	// zeroing really clears everything
	ell_set_zero_mat(&m); ell_mvp_2D(&m, &x[0], &y[0]);
	for (int i = 0; i < N; i++) vp_check_near(y[i], 0.0, 0.0, "cleared matrix row", i);
	ell_free(&m); vp_cover("assembly");
}
// Dirichlet rows: with arbitrary matrix contents, boundary rows become identity, interior rows lose exactly the
// boundary columns and keep every interior entry.
extern "C" void h_bc() {
	grid();
	ell_matrix m; init(m); ell_set_zero_mat(&m);
	int npe = dim == 2 ? 4 : 8, ne = npe * nf, nez = dim == 2 ? 1 : nz - 1;
	vector<double> x(N), y(N), ref(N, 0.0), Ae(ne * ne);
	for (int i = 0; i < N; i++) x[i] = vp_real_i("x", i, -BIG, BIG);
	int e = 0;
	for (int ez = 0; ez < nez; ez++) for (int ey = 0; ey < ny - 1; ey++) for (int ex = 0; ex < nx - 1; ex++, e++) {
		double a = vp_real_i("a", e, -BIG, BIG);
		for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) Ae[i * ne + j] = a * (1 + i * 37 + j * 101);
		add(m, ex, ey, ez, &Ae[0]);
		int n[8]; conn(ex, ey, ez, n);
		for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++)
			if (!bnd(n[i / nf]) && !bnd(n[j / nf])) ref[n[i / nf] * nf + i % nf] += Ae[i * ne + j] * x[n[j / nf] * nf + j % nf];
	}
	for (int i = 0; i < N; i++) if (bnd(i / nf)) ref[i] = x[i];
	if (dim == 2) ell_set_bc_2D(&m, nf, nx, ny); else ell_set_bc_3D(&m, nf, nx, ny, nz);
	ell_mvp_2D(&m, &x[0], &y[0]);
	for (int i = 0; i < N; i++) vp_check_near(y[i], ref[i], 0.0, bnd(i / nf) ? "boundary row is identity" : "interior row without boundary columns", i);
	vp_observe("y0", y[0]); vp_observe("ym", y[N / 2]);
	ell_free(&m); vp_cover("bc");
}
