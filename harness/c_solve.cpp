// Linear solvers on the structured sparse matrix.
#include "vp.h"
#include "ell.hpp"
#include <vector>
using std::vector;
static int nx, ny, nz, nf, dim, nn, N, alg;
static bool bnd(int n) { int i = n % nx, j = (n / nx) % ny, k = n / (nx * ny); return i == 0 || i == nx - 1 || j == 0 || j == ny - 1 || (dim == 3 && (k == 0 || k == nz - 1)); }
static void conn(int ex, int ey, int ez, int *n) { int b = ez * nx * ny + ey * nx + ex; n[0] = b; n[1] = b + 1; n[2] = b + nx + 1; n[3] = b + nx; if (dim == 3) for (int i = 0; i < 4; i++) n[4 + i] = n[i] + nx * ny; }
// symw: number of elements with a symbolic weight, symb: right hand side and initial guess symbolic entry by entry, symsc: symbolic scale; otherwise one-parameter families t * pattern
extern "C" void h_solver() {
	dim = vp_param("dim", 2); nx = vp_param("nx", 3); ny = vp_param("ny", 3); nz = dim == 2 ? 1 : vp_param("nz", 3); nf = vp_param("nf", 1); nn = nx * ny * nz; N = nn * nf; alg = vp_param("alg", 0);
	int npe = dim == 2 ? 4 : 8, ne = npe * nf, nez = dim == 2 ? 1 : nz - 1;
	ell_matrix m; if (dim == 2) ell_init_2D(&m, nf, nx, ny); else ell_init_3D(&m, nf, nx, ny, nz); ell_set_zero_mat(&m);
	// A = sum over elements of (B^T B-like) symmetric positive element matrices
	vector<double> D(N * N, 0.0), Ae(ne * ne), b(N), x(N), x0(N), b0; int e = 0;
	double sc = vp_param("symsc", 1) ? vp_real("scale", 0.001, 1000.0) : 1.5; int symw = vp_param("symw", 0), symb = vp_param("symb", 0);
	for (int ez = 0; ez < nez; ez++) for (int ey = 0; ey < ny - 1; ey++) for (int ex = 0; ex < nx - 1; ex++, e++) {
		double w = e < symw ? vp_real_i("w", e, 0.1, 10.0) : 1.0 + (e * 7 % 5);
		for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) { double k = i == j ? 4.0 + i % 3 : i / nf == j / nf ? 0.5 : -(1.0 + (i + j) % 2) / (2 * npe); Ae[i * ne + j] = w * sc * k; }
		int n[8]; conn(ex, ey, ez, n);
		for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) D[(n[i / nf] * nf + i % nf) * N + n[j / nf] * nf + j % nf] += Ae[i * ne + j];
		if (dim == 2) ell_add_struct2D(&m, ex, ey, &Ae[0], nf, nx, ny); else ell_add_struct3D(&m, ex, ey, ez, &Ae[0], nf, nx, ny, nz);
	}
	if (dim == 2) ell_set_bc_2D(&m, nf, nx, ny); else ell_set_bc_3D(&m, nf, nx, ny, nz);
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (bnd(i / nf) || bnd(j / nf)) D[i * N + j] = i == j ? 1.0 : 0.0;
	double t = vp_real("t", -10.0, 10.0); int k = 0, guess = vp_param("guess", 0), bb = vp_param("bb", 0);
	for (int i = 0; i < N; i++) { bool in = !bnd(i / nf); 
		b[i] = in ? (symb ? vp_real_i("b", i, -10.0, 10.0) : sc * t * (1.0 + (k++ * 5) % 7)) : bb ? (symb > 1 ? vp_real_i("b", i, -10.0, 10.0) : t * (i % 3)) : 0.0;
		x[i] = guess && (in || bb) ? (symb > 1 ? vp_real_i("x", i, -10.0, 10.0) : t * (i % 4)) : 0.0; }
	b0 = b; x0 = x; vector<double> v0(m.vals, m.vals + N * m.nnz); int nfree = 0; for (int i = 0; i < N; i++) if (!bnd(i / nf)) nfree++; int h0 = vp_heap_live();
	ell_solver s; s.max_its = vp_param("max", 30); s.min_tol = vp_real("tol", 1e-6, 1e-2); s.its = -7; s.err = -7.0;
	int rc = alg == 0 ? ell_solve_cgpd_2D(&s, &m, nf, nx, ny, &b[0], &x[0]) : alg == 1 ? ell_solve_cgpd_struct(&s, &m, nf, dim, nn, &b[0], &x[0]) : ell_solve_jacobi_2D(&s, &m, nf, nx, ny, &b[0], &x[0]);
	vp_check(rc == 0, "solver return code", -1);
	vp_check(vp_heap_live() == h0, "solver releases its work arrays", -1);
	double r2 = 0; for (int i = 0; i < N; i++) { double r = -b0[i]; for (int j = 0; j < N; j++) r += D[i * N + j] * x[j]; r2 += r * r; }
	vp_check(s.its >= 0 && s.its <= s.max_its, "iteration count within the limit", -1);
	double SL = vp_symbolic() ? 1.0 : 1.0 + 1e-6;
	if (s.err < s.min_tol) { vp_cover("converged"); vp_check(r2 < s.min_tol * s.min_tol * SL, "reported convergence means the returned vector solves the system to the tolerance", -1); }
	else vp_cover("not converged");
	if (alg != 2 && vp_param("must", 1)) vp_check(s.err < s.min_tol, "positive definite system of this size converges", -1);
	if (alg == 2 && s.its > 0) vp_check_near(s.err * s.err, r2, vp_symbolic() ? 0.0 : 1e-6 * r2, "reported residual is the residual of the returned vector", -1);
	vp_check(s.err >= s.min_tol ? s.its == s.max_its : true, "gives up only at the iteration limit", -1);
	for (int i = 0; i < N; i++) { vp_check_near(b[i], b0[i], 0.0, "right hand side unchanged", i); if (bnd(i / nf) && !bb) vp_check_near(x[i], 0.0, 0.0, "constrained unknowns keep their value", i); }
	for (int i = 0; i < N * m.nnz; i++) vp_check_near(m.vals[i], v0[i], 0.0, "matrix unchanged", i);
	if (alg != 2 && vp_param("must", 1)) vp_check(s.its <= nfree + (bb ? 1 : 0), "at most as many iterations as unknowns", -1);
	// each iteration lowers the energy x.Ax/2 - b.x
	if (alg != 2 && !symw && !symb) { double en = 0; for (int i = 0; i < N; i++) { en += b0[i] * (x0[i] - x[i]); for (int j = 0; j < N; j++) en += 0.5 * D[i * N + j] * (x[i] * x[j] - x0[i] * x0[j]); } vp_check(s.its > 0 ? en < 0 : en == 0, "a solve with iterations lowers the energy, one without leaves the vector", -1); }
	vp_observe("xm", x[N / 2]); vp_observe("its", s.its); ell_free(&m); vp_cover("solver");
}
