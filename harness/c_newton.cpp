// Newton loop control with the assembly and the linear solver replaced by arbitrary (symbolic) ones.
#include "h.h"
extern "C" void stub_ctan_lin() asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin() {}
static int n_rhs, n_mat, n_solve, since_rhs, order_bad, no_mat, stale, nl_since_mat, phase; static double last_err, sum_du[64]; static bool last_nl;
extern "C" double stub_rhs(micropp_t *m, bool *nl) asm("_ZN9micropp_t12assembly_rhsEPb");
extern "C" void stub_mat(micropp_t *m) asm("_ZN9micropp_t12assembly_matEv");
extern "C" int stub_solve2(ell_solver *s, ell_matrix *m, int nf, int nx, int ny, double *b, double *x) asm("_Z17ell_solve_cgpd_2DP10ell_solverP10ell_matrixiiiPdS3_");
extern "C" int stub_solve3(ell_solver *s, ell_matrix *m, int nf, int dim, int nn, double *b, double *x) asm("_Z21ell_solve_cgpd_structP10ell_solverP10ell_matrixiiiPdS3_");
extern "C" double stub_rhs(micropp_t *m, bool *nl) {
	int N = m->nn * m->dim; for (int i = 0; i < N; i++) m->b[i] = n_rhs + 1.0;
	if (since_rhs || n_rhs == 0) { last_err = phase ? (phase++ == 1 ? 0.5 : 0.0) : vp_real_i("err", n_rhs, 0.0, 1.0); int k = vp_param("nlat", 99); last_nl = k < 0 || k == n_rhs || (k >= 200 && n_rhs >= k - 200) || (k >= 100 && k < 200 && n_rhs <= k - 100); n_rhs++; }
	since_rhs = 0; *nl = last_nl; if (last_nl) nl_since_mat = 1; return last_err;
}
extern "C" void stub_mat(micropp_t *m) { int N = m->A.nrow * m->A.nnz; for (int i = 0; i < N; i++) m->A.vals[i] = n_solve + 1.0; n_mat++; nl_since_mat = last_nl; }
static int solve_any(ell_solver *s, ell_matrix *m, double *b, double *x) {
	// the right hand side handed to the linear solver must be that of the current displacement
	int N = m->nrow; if (since_rhs || !n_rhs) order_bad = 1; if (!n_mat) no_mat = 1; since_rhs = 1; for (int i = 0; i < N * m->nnz; i++) if (m->vals[i] != n_solve + 1.0 && nl_since_mat) stale = 1; for (int i = 0; i < N; i++) if (b[i] != n_rhs) order_bad = 1;
	for (int i = 0; i < N; i++) { x[i] = vp_real_i("du", n_solve * N + i, -1.0, 1.0); sum_du[i] += x[i]; }
	n_solve++; s->its = 1; s->err = 0.0; return 0;
}
extern "C" int stub_solve2(ell_solver *s, ell_matrix *m, int nf, int nx, int ny, double *b, double *x) { return solve_any(s, m, b, x); }
extern "C" int stub_solve3(ell_solver *s, ell_matrix *m, int nf, int dim, int nn, double *b, double *x) { return solve_any(s, m, b, x); }
extern "C" void h_newton() {
	Cfg c; c.geom(false); c.mat(0, 1e7, 0.25, 1.0, 0.0); c.mat(1, 1e7, 0.25, 1.0, 0.0); micropp_t *m = c.make(); int N = c.nn() * c.dim; vector<double> u0(N);
	for (int i = 0; i < N; i++) m->u[i] = u0[i] = vp_real_i("u", i, -1.0, 1.0);
	n_rhs = n_mat = n_solve = since_rhs = order_bad = no_mat = stale = nl_since_mat = phase = 0; last_err = -1; for (int i = 0; i < 64; i++) sum_du[i] = 0;
	bool nl = false; int its = -5; double err = -5; m->newton_raphson(&nl, &its, &err);
	double tol = 1.0e-5; vp_assume(n_rhs > 0);
	vp_check(n_solve <= 40, "at most forty linear solves", -1);
	vp_check(its == n_solve, "reported iterations equal the corrections made", -1);
	for (int i = 0; i < N; i++) vp_check_near(m->u[i], u0[i] + sum_du[i], vp_symbolic() ? 0.0 : 1e-12, "displacement is the initial guess plus every correction", i);
	if (err < tol) { vp_cover("converged"); if (n_solve == 0) vp_cover("no correction needed"); if (n_solve > 1) vp_cover("several corrections"); vp_check(!since_rhs, "reported convergence refers to the final displacement", -1); vp_check_near(err, last_err, 0.0, "reported residual norm is the computed one", -1); }
	else if (err > tol) { vp_cover("iteration limit"); vp_check(n_solve == 40, "gives up only at the iteration limit", n_solve); }
	vp_check(!order_bad, "the residual of the current displacement drives each correction", -1);
	vp_check(!no_mat, "the stiffness is assembled before it is used", -1);
	if (n_rhs) vp_check(nl == last_nl, "non-linear flag is that of the last evaluation", -1);
	vp_check(!stale, "each correction of a yielding cell uses the stiffness of the current displacement", -1);
	// a second solve from another displacement starts afresh
	for (int i = 0; i < N; i++) m->u[i] = u0[i] + 1.0; for (int i = 0; i < 64; i++) sum_du[i] = 0; int done = n_solve; double e1 = -5; phase = 1; since_rhs = 1; its = -5; m->newton_raphson(&nl, &its, &e1);
	vp_check(n_solve == done + 1 && its == 1, "the next solve makes its own corrections", -1); vp_check_near(e1, 0.0, 0.0, "the next solve reports its own residual", -1); for (int i = 0; i < N; i++) vp_check_near(m->u[i], u0[i] + 1.0 + sum_du[i], vp_symbolic() ? 0.0 : 1e-12, "the next solve corrects its own displacement", i);
	vp_check(!order_bad, "the residual of the current displacement drives the next solve", -1); vp_check(!stale, "the next solve of a yielding cell uses its own stiffness", -1);
	vp_observe("err", err); vp_observe("its", its); vp_observe("u0", m->u[0]); delete m; vp_cover("newton");
}
