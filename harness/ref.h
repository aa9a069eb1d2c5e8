// Reference J2 update (isotropic hardening), written independently of the library.
#pragma once
#include "h.h"
struct Hist { double ep[6], al; Hist() { for (int i = 0; i < 6; i++) ep[i] = 0.0; al = 0.0; } };
struct RefPt { double E, nu, Sy, Ka; double mu() const { return E / (2 * (1 + nu)); } double lam() const { return E * nu / ((1 + nu) * (1 - 2 * nu)); } };
static inline double tdot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + 2 * a[3] * b[3] + 2 * a[4] * b[4] + 2 * a[5] * b[5]; }
// returns flow?; margin>0: states closer than margin (relative to the yield radius) to the yield surface are excluded by assumption
static inline bool ref_step(const RefPt &p, const double *eps, const Hist &h, Hist &o, double *sig, double margin) {
	double et[6], s[6], tr = eps[0] + eps[1] + eps[2]; for (int v = 0; v < 6; v++) et[v] = v < 3 ? eps[v] - h.ep[v] : 0.5 * eps[v] - h.ep[v];
	double m = (et[0] + et[1] + et[2]) / 3.0; for (int v = 0; v < 6; v++) s[v] = 2 * p.mu() * (v < 3 ? et[v] - m : et[v]);
	double n2 = tdot(s, s), Y = p.Sy + p.Ka * h.al, K = p.lam() + 2.0 / 3.0 * p.mu();
	bool flow = 3 * n2 > 2 * Y * Y;
	if (margin > 0) { if (flow) vp_assume(3 * n2 > 2 * Y * Y * (1 + margin)); else vp_assume(3 * n2 < 2 * Y * Y * (1 - margin)); }
	o = h; double sc = 1.0;
	if (flow) { double n = sqrt(n2), f = n - sqrt(2.0 / 3) * Y, dl = f / (2 * p.mu() + 2.0 / 3.0 * p.Ka); for (int v = 0; v < 6; v++) o.ep[v] = h.ep[v] + dl * s[v] / n; o.al = h.al + sqrt(2.0 / 3) * dl; for (int v = 0; v < 6; v++) s[v] = s[v] - 2 * p.mu() * dl * (s[v] / n); (void)sc; }
	for (int v = 0; v < 6; v++) sig[v] = s[v] + (v < 3 ? K * tr : 0.0);
	return flow;
}
static inline void direction(int d, double t, double *e) {
	static const double D[10][6] = { { 0, 0, 0, 1, 0, 0 }, { 1, -0.5, -0.5, 0, 0, 0 }, { 1, 0, 0, 0, 0, 0 }, { 0, 0, 0, 0, 1, 0 }, { 0, 1, 0, 0, 0, 1 }, { 1, -2, 1, 0.5, -1, 0.25 },
		{ 0, 0, 0, 1, 1, 1 }, { 1, -0.5, -0.5, 3, 0, 0 }, { 2, 0.5, 0.5, 0, 0, 3 }, { 0, 1, 1, 0, -3, 0 } };
	for (int v = 0; v < 6; v++) e[v] = t * D[d][v];
}
