// Constitutive law at one Gauss point, through the stress routine of the library, from an arbitrary admissible history.
#include "h.h"
extern "C" void stub_ctan_lin() asm("_ZN9micropp_t13calc_ctan_linEv");
extern "C" void stub_ctan_lin() {}
static double dot6(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + 2 * (a[3] * b[3] + a[4] * b[4] + a[5] * b[5]); }	// tensor components
struct Pt {
	micropp_t *m; int gp; double E, nu, mu, lam, Sy, Ka, eps[6], ep[6], al;
	double en[6], an, sig[6]; bool nl;
	int e, ex, ey, ez;
};
static void law(Pt &p, Cfg &c) {
	int k = vp_param("which", 0);
	p.E = vp_param("symE", 1) ? vp_real("E", 1.0, 1e12) : 1e7; p.nu = vp_param("symnu", 0) ? vp_real("nu", 0.0, 0.45) : 0.25; p.Sy = vp_real("Sy", 0.001, 1e10); p.Ka = vp_param("symKa", 1) ? vp_real("Ka", 0.0, 1e12) : 0.0;
	c.geom(false); c.type = 1; c.mt[0] = c.mt[1] = 1; c.mat(k, p.E, p.nu, p.Sy, p.Ka); c.mat(1 - k, 3.0, 0.1, 7.0, 5.0); c.mp[3] = k ? 100.0 : -1.0;
	p.mu = p.E / (2 * (1 + p.nu)); p.lam = p.E * p.nu / ((1 + p.nu) * (1 - 2 * p.nu));
	p.m = c.make(); p.ex = c.nx - 2; p.ey = c.ny - 2; p.ez = c.nz - 2; p.e = c.elem(p.ex, p.ey, p.ez); p.gp = vp_param("gp", 5);
}
static int at(const Pt &p, int v) { return intvar_ix(p.e, p.gp, v); }
static void eval(Pt &p) {
	for (int i = 0; i < p.m->num_int_vars; i++) p.m->vars_old[i] = 1e-3 * (i + 1);	// other points' history must not matter
	for (int v = 0; v < 6; v++) p.m->vars_old[at(p, v)] = p.ep[v];
	p.m->vars_old[at(p, 6)] = p.al;
	double st[6]; for (int v = 0; v < 6; v++) st[v] = p.eps[v];
	p.m->get_stress3D(p.ex, p.ey, p.ez, p.gp, st, &p.nl, p.sig);
	for (int v = 0; v < 6; v++) p.en[v] = p.m->vars_new[at(p, v)];
	p.an = p.m->vars_new[at(p, 6)];
}
static void dev(const double *t, double *d) { for (int i = 0; i < 6; i++) d[i] = t[i]; for (int i = 0; i < 3; i++) d[i] -= (t[0] + t[1] + t[2]) / 3.0; }
static void inputs(Pt &p, int mask, int hmask) {
	// mask / hmask: which strain / plastic strain components are symbolic, the rest zero
	for (int v = 0; v < 6; v++) p.eps[v] = (mask >> v) & 1 ? vp_real_i("eps", v, -1.0, 1.0) : 0.0;
	for (int v = 0; v < 6; v++) p.ep[v] = (hmask >> v) & 1 ? vp_real_i("ep", v, -1.0, 1.0) : 0.0;
	if (hmask & 4) p.ep[2] = -p.ep[0] - p.ep[1];
	p.al = hmask ? vp_real("alpha", 0.0, 10.0) : 0.0;
}
// Return mapping: Kuhn-Tucker conditions, flow rule, stress/strain relation.
extern "C" void h_return() {
	Cfg c; Pt p; law(p, c); inputs(p, vp_param("mask", 63), vp_param("hmask", 63)); eval(p);
	double S = vp_symbolic() ? 0.0 : 1e-7 * (p.E + p.Sy), T = vp_symbolic() ? 0.0 : 1e-9;
	double tr = p.eps[0] + p.eps[1] + p.eps[2], s[6], de[6], et[6], st[6];
	// elastic relation with the updated plastic strain (plastic strain in tensor components, total strain with engineering shear)
	for (int v = 0; v < 3; v++) vp_check_near(p.sig[v], p.lam * tr + 2 * p.mu * (p.eps[v] - p.en[v]), S, "stress is elastic in the elastic strain", v);
	for (int v = 3; v < 6; v++) vp_check_near(p.sig[v], p.mu * (p.eps[v] - 2 * p.en[v]), S, "stress is elastic in the elastic strain", v);
	for (int v = 0; v < 6; v++) de[v] = p.en[v] - p.ep[v];
	vp_check_near(de[0] + de[1] + de[2], 0.0, T, "plastic flow is volume preserving", -1);
	dev(p.sig, s); double nn2 = dot6(s, s), Y = p.Sy + p.Ka * p.an;
	// trial state, independently
	for (int v = 0; v < 6; v++) et[v] = v < 3 ? p.eps[v] - p.ep[v] : 0.5 * p.eps[v] - p.ep[v];
	dev(et, st); for (int v = 0; v < 6; v++) st[v] *= 2 * p.mu;
	double t2 = dot6(st, st), Y0 = p.Sy + p.Ka * p.al;
	if (p.nl) {
		vp_cover("plastic step");
		vp_check(3 * t2 > 2 * Y0 * Y0, "flow only outside the yield surface", -1);
		vp_check_near(3 * nn2, 2 * Y * Y, vp_symbolic() ? 0.0 : 1e-6 * Y * Y, "after flow the stress is on the yield surface", -1);
		vp_check(p.an > p.al, "hardening variable grows with flow", -1);
		vp_check_near(3 * (p.an - p.al) * (p.an - p.al), 2 * dot6(de, de), vp_symbolic() ? 0.0 : 1e-9, "hardening increment is the equivalent plastic strain increment", -1);
		for (int v = 0; v < 6; v++) for (int w = 0; w < v; w++) vp_check_near(de[v] * st[w], de[w] * st[v], S * 1e-2, "flow direction is the trial deviator", v * 6 + w);
		vp_check(dot6(p.sig, de) >= 0, "plastic dissipation is not negative", -1);
	} else {
		vp_cover("elastic step");
		vp_check(3 * t2 <= 2 * Y0 * Y0 * (vp_symbolic() ? 1 : 1 + 1e-9), "no flow only inside the yield surface", -1);
		for (int v = 0; v < 6; v++) vp_check_near(p.en[v], p.ep[v], 0.0, "elastic step keeps the plastic strain", v);
		vp_check_near(p.an, p.al, 0.0, "elastic step keeps the hardening variable", -1);
	}
	vp_observe("s0", p.sig[0]); vp_observe("s3", p.sig[3]); vp_observe("al", p.an); vp_observe("ep5", p.en[5]);
	delete p.m; 
}
// Committing the result and evaluating the same strain again changes nothing.
extern "C" void h_idem() {
	Cfg c; Pt p; law(p, c); inputs(p, vp_param("mask", 63), vp_param("hmask", 0)); eval(p); bool nl1 = p.nl;
	if (nl1) vp_cover("idempotent after flow");
	double s1[6], e1[6], a1 = p.an; for (int v = 0; v < 6; v++) { s1[v] = p.sig[v]; e1[v] = p.en[v]; p.ep[v] = p.en[v]; } p.al = p.an;
	eval(p); double S = vp_symbolic() ? 1e-9 * p.E : 1e-6 * (p.E + p.Sy);
	for (int v = 0; v < 6; v++) { vp_check_near(p.sig[v], s1[v], S, "repeating a committed strain reproduces the stress", v); vp_check_near(p.en[v], e1[v], vp_symbolic() ? 0.0 : 1e-9, "repeating a committed strain causes no further flow", v); }
	vp_check_near(p.an, a1, vp_symbolic() ? 0.0 : 1e-9, "repeating a committed strain does not harden", -1);
	vp_observe("s0", p.sig[0]); delete p.m; vp_cover("idempotent");
}
