// Kinematics and averages with arbitrary (symbolic) displacement fields; the linear pre-solve of the constructor is cut out.
#include "h.h"
extern "C" void stub_ctan_lin() asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin() {}
static void mats(Cfg &c, double Emax) {
	for (int i = 0; i < 2; i++) c.mat(i, vp_real_i("E", i, 0.01, Emax), vp_param("symnu", 1) ? vp_real_i("nu", i, 0.0, 0.45) : (i ? 0.2 : 0.3), 1.0, 0.0);
}
static void symu(const Cfg &c, double *u, int dense) {
	// dense: every node free; otherwise every node of a symbolic affine field plus a symbolic bump on selected nodes
	for (int i = 0; i < c.nn() * c.dim; i++) u[i] = vp_real_i("u", i, -10.0, 10.0);
	(void)dense;
}
// average stress/strain and element averages equal an independent quadrature, for every displacement field
extern "C" void h_average() {
	Cfg c; c.geom(true); mats(c, 1e9); c.mp[3] = 0.6; micropp_t *m = c.make();
	symu(c, m->u, 1);
	double ave[6], avs[6], rs[6] = { 0 }, re[6] = { 0 }; vector<double> es(c.nelem() * c.nv), ee(c.nelem() * c.nv);
	double we = c.dim == 2 ? c.h(0) * c.h(1) : c.h(0) * c.h(1) * c.h(2);
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) {
		int e = c.elem(ex, ey, ez), mat = m->elem_type[e] != 0; for (int v = 0; v < c.nv; v++) es[e * c.nv + v] = ee[e * c.nv + v] = 0;
		for (int g = 0; g < ngp(c); g++) { double st[6], sg[6]; ref_strain(c, m->u, ex, ey, ez, g, st); hooke(c.lam(mat), c.mu(mat), c.dim, st, sg);
			for (int v = 0; v < c.nv; v++) { es[e * c.nv + v] += sg[v] / ngp(c); ee[e * c.nv + v] += st[v] / ngp(c); } }
		for (int v = 0; v < c.nv; v++) { rs[v] += es[e * c.nv + v] * we; re[v] += ee[e * c.nv + v] * we; }
	}
	int what = vp_param("what", 3);
	if (what & 1) { m->calc_ave_stress(avs); m->calc_ave_strain(ave);
		for (int v = 0; v < c.nv; v++) { vp_check_near(avs[v], rs[v] / c.vol(), 0.0, "average stress is the volume average", v); vp_check_near(ave[v], re[v] / c.vol(), 0.0, "average strain is the volume average", v); } 
		vp_observe("s0", avs[0]); vp_observe("e0", ave[c.nv - 1]); }
	if (what & 2) { m->calc_fields();
		for (int i = 0; i < c.nelem() * c.nv; i++) { vp_check_near(m->elem_stress[i], es[i], 0.0, "element stress is the element average", i); vp_check_near(m->elem_strain[i], ee[i], 0.0, "element strain is the element average", i); } 
		vp_observe("es0", m->elem_stress[0]); }
	delete m; vp_cover("average");
}
// Boundary displacement follows the macroscopic strain on every boundary node, interior nodes are left alone,
// and the average strain equals the prescribed one whatever the interior does.
extern "C" void h_setdispl() {
	Cfg c; c.geom(true); mats(c, 1e9); micropp_t *m = c.make(); int N = c.nn() * c.dim;
	double eps[6]; for (int v = 0; v < c.nv; v++) eps[v] = vp_real_i("eps", v, -1.0, 1.0);
	vector<double> u0(N); for (int i = 0; i < N; i++) m->u[i] = u0[i] = vp_real_i("u", i, -10.0, 10.0);
	m->set_displ(eps);
	for (int n = 0; n < c.nn(); n++) { double x[3], r[3]; c.coor(n, x); affine(eps, c.dim, x, r);
		for (int a = 0; a < c.dim; a++) if (c.bnd(n)) vp_check_near(m->u[n * c.dim + a], r[a], 0.0, "boundary node follows the macroscopic strain", n * c.dim + a); else vp_check_near(m->u[n * c.dim + a], u0[n * c.dim + a], 0.0, "interior node keeps its displacement", n * c.dim + a); }
	double ave[6]; m->calc_ave_strain(ave);
	for (int v = 0; v < c.nv; v++) vp_check_near(ave[v], eps[v], 0.0, "average strain equals the prescribed strain", v);
	vp_observe("ul", m->u[N - 1]); vp_observe("a0", ave[c.nv - 1]);
	delete m; vp_cover("setdispl");
}
// Patch test: one material, affine displacement -> no residual anywhere, stress = Hooke
extern "C" void h_patch() {
	Cfg c; c.geom(true); double E = vp_real("E", 0.01, 1e9), nu = vp_real("nu", 0.0, 0.45); c.mat(0, E, nu, 1.0, 0.0); c.mat(1, E, nu, 1.0, 0.0); c.mp[3] = 0.5; micropp_t *m = c.make();
	double eps[6]; for (int v = 0; v < c.nv; v++) eps[v] = vp_real_i("eps", v, -1.0, 1.0);
	for (int n = 0; n < c.nn(); n++) { double x[3]; c.coor(n, x); affine(eps, c.dim, x, m->u + n * c.dim); }
	bool nl = true; double err = m->assembly_rhs(&nl);
	for (int i = 0; i < c.nn() * c.dim; i++) vp_check_near(m->b[i], 0.0, vp_symbolic() ? 0.0 : 1e-9 * E, "affine field in a uniform material is in equilibrium", i);
	vp_check_near(err, 0.0, vp_symbolic() ? 0.0 : 1e-9 * E, "residual norm of an equilibrium state is zero", -1);
	vp_check(!nl, "elastic state is not flagged non-linear", -1);
	double s[6], r[6]; m->calc_ave_stress(s); hooke(c.lam(0), c.mu(0), c.dim, eps, r);
	for (int v = 0; v < c.nv; v++) vp_check_near(s[v], r[v], vp_symbolic() ? 0.0 : 1e-9 * E, "uniform material: average stress is Hooke's law", v);
	vp_observe("s0", s[0]); delete m; vp_cover("patch");
}
// Element residual is stiffness times displacement; symmetric; energy; global system consistent
extern "C" void h_stiff() {
	Cfg c; c.geom(true); mats(c, 1e9); c.mp[3] = 0.6; micropp_t *m = c.make(); int N = c.nn() * c.dim, ne = ngp(c) * c.dim;
	for (int i = 0; i < N; i++) m->u[i] = vp_real_i("u", i, -10.0, 10.0);
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) {
		int n[8]; c.conn(ex, ey, ez, n); double Ae2[64], Ae3[576], be2[8], be3[24], *Ae = c.dim == 2 ? Ae2 : Ae3, *be = c.dim == 2 ? be2 : be3; bool nl;
		if (c.dim == 2) { m->get_elem_mat2D(ex, ey, Ae2); m->get_elem_rhs2D(ex, ey, &nl, be2); } else { m->get_elem_mat3D(ex, ey, ez, Ae3); m->get_elem_rhs3D(ex, ey, ez, &nl, be3); }
		int mat = m->elem_type[c.elem(ex, ey, ez)] != 0; double sc = vp_symbolic() ? 0.0 : 1e-8 * c.E(mat);
		for (int i = 0; i < ne; i++) { double r = 0; for (int j = 0; j < ne; j++) r += Ae[i * ne + j] * m->u[n[j / c.dim] * c.dim + j % c.dim]; vp_check_near(be[i], r, sc, "element residual is stiffness times displacement", i); }
		for (int i = 0; i < ne; i++) for (int j = 0; j < i; j++) vp_check_near(Ae[i * ne + j], Ae[j * ne + i], sc, "element stiffness is symmetric", i * ne + j);
		// virtual work: be . w = integral of sigma(u) : eps(w), i.e. be_i from an independent quadrature
		double vol = c.h(0) * c.h(1) * (c.dim == 2 ? 1.0 : c.h(2));
		for (int i = 0; i < ne; i++) { double r = 0; for (int g = 0; g < ngp(c); g++) { double st[6], sg[6]; ref_strain(c, m->u, ex, ey, ez, g, st); hooke(c.lam(mat), c.mu(mat), c.dim, st, sg);
				int a = i % c.dim, l = i / c.dim; for (int b = 0; b < c.dim; b++) { int v = a == b ? a : c.dim == 2 ? 2 : 2 + a + b; r += sg[v] * dshape(c, g, l, b) * vol / ngp(c); } }
			vp_check_near(be[i], r, sc, "element residual is the virtual work of the stress", i); }
		vp_observe("Ae0", Ae[0]); vp_observe("be0", be[ne - 1]);
		if (vp_param("oneelem", 0)) { delete m; vp_cover("stiff"); return; }
	}
	delete m; vp_cover("stiff");
}
// Global: residual and tangent of the same state: interior rows b = -K u (boundary values zero), boundary rows b = 0
extern "C" void h_global() {
	Cfg c; c.geom(vp_param("symgeo", 1)); mats(c, 1e9); c.mp[3] = 0.6; micropp_t *m = c.make(); int N = c.nn() * c.dim;
	for (int i = 0; i < N; i++) m->u[i] = c.bnd(i / c.dim) ? 0.0 : vp_real_i("u", i, -10.0, 10.0);
	bool nl; double err = m->assembly_rhs(&nl); vector<double> b(m->b, m->b + N), y(N), w(N);
	m->assembly_mat();
	ell_mvp_2D(&m->A, m->u, &y[0]); double sc = vp_symbolic() ? 0.0 : 1e-8 * (c.E(0) + c.E(1)), nrm = 0;
	for (int i = 0; i < N; i++) vp_check_near(y[i], -b[i], sc, "right hand side is minus stiffness times displacement", i);
	for (int i = 0; i < N; i++) w[i] = c.bnd(i / c.dim) ? vp_real_i("w", i, -10.0, 10.0) : 0.0;
	ell_mvp_2D(&m->A, &w[0], &y[0]);
	for (int i = 0; i < N; i++) vp_check_near(y[i], w[i], sc, "constrained unknowns are decoupled", i);
	// full residual with prescribed boundary values
	for (int i = 0; i < N; i++) m->u[i] = vp_real_i("v", i, -10.0, 10.0);
	err = m->assembly_rhs(&nl); vector<double> ref(N, 0.0); double vol = c.h(0) * c.h(1) * (c.dim == 2 ? 1.0 : c.h(2));
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) { int n[8]; c.conn(ex, ey, ez, n); int mat = m->elem_type[c.elem(ex, ey, ez)] != 0;
		for (int g = 0; g < ngp(c); g++) { double st[6], sg[6]; ref_strain(c, m->u, ex, ey, ez, g, st); hooke(c.lam(mat), c.mu(mat), c.dim, st, sg);
			for (int l = 0; l < ngp(c); l++) if (!c.bnd(n[l])) for (int a = 0; a < c.dim; a++) for (int q = 0; q < c.dim; q++) { int v = a == q ? a : c.dim == 2 ? 2 : 2 + a + q; ref[n[l] * c.dim + a] -= sg[v] * dshape(c, g, l, q) * vol / ngp(c); } } }
	for (int i = 0; i < N; i++) { vp_check_near(m->b[i], ref[i], sc, "assembled residual is the virtual work of the stress", i); nrm += ref[i] * ref[i]; }
	vp_check_near(err * err, nrm, vp_symbolic() ? 0.0 : 1e-8 * nrm, "residual norm", -1);
	vp_observe("b", m->b[(c.nn() / 2) * c.dim]); delete m; vp_cover("global");
}
// Hill-Mandel: mean(sigma:eps) - mean(sigma):E = -(interior residual).(u - E x)/V
extern "C" void h_hill() {
	Cfg c; c.geom(vp_param("symgeo", 1)); mats(c, 1e9); c.mp[3] = 0.6; micropp_t *m = c.make(); int N = c.nn() * c.dim;
	double eps[6]; for (int v = 0; v < c.nv; v++) eps[v] = vp_real_i("eps", v, -1.0, 1.0);
	for (int i = 0; i < N; i++) m->u[i] = vp_real_i("u", i, -10.0, 10.0);
	m->set_displ(eps); bool nl; m->assembly_rhs(&nl); double s[6], work = 0, mac = 0, res = 0; m->calc_ave_stress(s);
	for (int ez = 0; ez < c.nez(); ez++) for (int ey = 0; ey < c.ny - 1; ey++) for (int ex = 0; ex < c.nx - 1; ex++) for (int g = 0; g < ngp(c); g++) {
		double st[6], sg[6]; if (c.dim == 2) { m->get_strain2D(ex, ey, g, st); m->get_stress2D(ex, ey, g, st, &nl, sg); } else { m->get_strain3D(ex, ey, ez, g, st); m->get_stress3D(ex, ey, ez, g, st, &nl, sg); }
		for (int v = 0; v < c.nv; v++) work += sg[v] * st[v] / (c.nelem() * ngp(c)); }
	for (int v = 0; v < c.nv; v++) mac += s[v] * eps[v];
	for (int n = 0; n < c.nn(); n++) { double x[3], r[3]; c.coor(n, x); affine(eps, c.dim, x, r); for (int a = 0; a < c.dim; a++) res += -m->b[n * c.dim + a] * (m->u[n * c.dim + a] - r[a]); }
	vp_check_near(work - mac, res / c.vol(), vp_symbolic() ? 0.0 : 1e-7 * (fabs(work) + fabs(mac)), "macroscopic work equals mean microscopic work", -1);
	vp_observe("work", work); delete m; vp_cover("hill");
}
