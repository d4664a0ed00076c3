// Square homotopies whose solution paths are known in closed form.
#pragma once
#include "sysgen.hpp"
namespace b2 {
using Cd = std::complex<double>;
struct HomCfg { int maxv = 3; bool sqrtkind = true; bool transcend = true; double sep = 0.75; bool homogenize = true; int maxdeg = 3; };
struct Hom {
	SysSpec s; Built b; int n = 0; bool homd = false;
	std::vector<ref::P> phi;                 // over variable n = time
	struct Q { bool on = false; Cd q0, q1; int sign = 1; };   // (x-phi)^2 = q0 + q1 t
	std::vector<Q> q; Cd t0;                 // sqrt branches are continued along straight lines from t0
	std::vector<double> gap;                 // distance to the nearest other root of the equation (kinds without sqrt)
	// the path through the start at t0, at time t (straight line from t0)
	std::vector<ref::C> at(ref::C const& t) const {
		std::vector<ref::C> x(n + 1, ref::C(0)); x[n] = t; std::vector<ref::C> r;
		for (int j = 0; j < n; ++j) { ref::C v = ref::eval(phi[j], x).v; if (q[j].on) { ref::C a = ref::toC(q[j].q0) + ref::toC(q[j].q1) * ref::toC(t0), z = ref::toC(q[j].q0) + ref::toC(q[j].q1) * t; ref::C root = boost::multiprecision::sqrt(a) * boost::multiprecision::sqrt(ref::C(z / a)); v += q[j].sign > 0 ? root : ref::C(-root); } r.push_back(v); }
		return r; }
	// smallest |x_j - nearest other root| along the straight line to t, sampled
	double clearance(Cd t1) const { double m = 1e9; for (int k = 0; k <= 40; ++k) { Cd t = t0 + (t1 - t0) * (k / 40.0); for (int j = 0; j < n; ++j) if (q[j].on) m = std::min(m, 2 * std::sqrt(std::abs(q[j].q0 + q[j].q1 * t))); else m = std::min(m, gap[j]); } return m; }
	template<class T> T num(ref::C const& z, unsigned p) const { if constexpr (std::is_same<T, dbl>::value) return dbl(z.real().convert_to<double>(), z.imag().convert_to<double>()); else return down(z, p); }
	template<class T> bertini::Vec<T> point(std::vector<ref::C> const& x, unsigned p) const { // in the coordinates of the system
		if (!homd) { bertini::Vec<T> v(n); for (int i = 0; i < n; ++i) v(i) = num<T>(x[i], p); return v; }
		bertini::Vec<T> v(n + 1); v(0) = num<T>(ref::C(1), p); for (int i = 0; i < n; ++i) v(i + 1) = num<T>(x[i], p); return b.sys.RescalePointToFitPatch(v); }
	template<class T> std::vector<ref::C> affine(bertini::Vec<T> const& v) const { std::vector<ref::C> r; if (!homd) for (int i = 0; i < n; ++i) r.push_back(up(v(i))); else for (int i = 0; i < n; ++i) r.push_back(ref::C(up(v(i + 1)) / up(v(0)))); return r; }
	// reference value and Jacobian of the system as written (not homogenized)
	void refeval(std::vector<ref::C> x, ref::C const& t, std::vector<ref::C>& f, std::vector<std::vector<ref::C>>& J) const { x.push_back(t); f.clear(); J.clear(); for (auto& e : s.f) { auto v = ref::eval(e, x); f.push_back(v.v); J.emplace_back(v.d.begin(), v.d.begin() + n); } }
};
inline ref::P cnum(Cd z) { return ref::num(ref::Q(z.real()), ref::Q(z.imag()), z.imag() == 0 && z.real() == std::floor(z.real()) ? 0 : 1); }
inline Cd dyadic(pbt::Gen& g, int mag, double den) { return {g.small_int(mag) / den, g.chance(40) ? g.small_int(mag) / den : 0}; }
inline Hom gen_hom(pbt::Gen& g, HomCfg c, Cd t0) {
	Hom h; h.n = g.range(1, c.maxv); h.t0 = t0; int n = h.n; h.s.nv = n; h.s.path = true; std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); h.s.groups.push_back({SysSpec::Affine, all});
	ref::P t = ref::var(n); h.q.resize(n); h.gap.assign(n, 1e9);
	std::vector<ref::P> w, G;
	for (int j = 0; j < n; ++j) {
		std::vector<ref::P> ts; std::vector<bool> ps; ts.push_back(cnum(dyadic(g, 8, 4))); ps.push_back(true); int d = g.range(1, 3);
		for (int k = 1; k <= d; ++k) { Cd a = dyadic(g, 6, 8); if (a == 0.) a = 0.5 / k; ts.push_back(ref::mult({cnum(a), k == 1 ? t : ref::ipow(t, k)}, {true, true})); ps.push_back(true); }
		if (c.transcend && g.chance(25)) { static const ref::Op o[] = {ref::Op::Exp, ref::Op::Sin, ref::Op::Cos}; ts.push_back(ref::mult({cnum(dyadic(g, 4, 4) + 0.25), ref::mk(o[g.below(3)], {t})}, {true, true})); ps.push_back(true); }
		h.phi.push_back(ref::sum(ts, ps)); w.push_back(ref::sum({ref::var(j), h.phi[j]}, {true, false})); }
	for (int j = 0; j < n; ++j) {
		int kind = g.weighted({2, 4, unsigned(c.sqrtkind ? 3 : 0), unsigned(c.maxdeg >= 3 ? 2 : 0)});
		auto away = [&] { Cd z; for (int k = 0; k < 9; ++k) { z = dyadic(g, 16, 8); if (std::abs(z) >= c.sep) break; z = 1; } return z; };
		if (kind == 0) { G.push_back(w[j]); }
		if (kind == 1) { Cd z = away(); h.gap[j] = std::abs(z); std::vector<ref::P> ch{w[j], cnum(z)}; std::vector<bool> ps{true, true}; for (int k = 0; k < n; ++k) if (k != j && g.chance(40)) { Cd e = dyadic(g, 2, 4); if (e != 0.) { ch.push_back(ref::mult({cnum(e), w[k]}, {true, true})); ps.push_back(true); } } G.push_back(ref::mult({w[j], ref::sum(ch, ps)}, {true, true})); }
		if (kind == 2) { h.q[j].on = true; h.q[j].q0 = away(); h.q[j].q1 = dyadic(g, 8, 8); h.q[j].sign = g.chance(50) ? -1 : 1; G.push_back(ref::sum({ref::ipow(w[j], 2), cnum(h.q[j].q0), ref::mult({cnum(h.q[j].q1), t}, {true, true})}, {true, false, false})); }
		if (kind == 3) { Cd z = away(); h.gap[j] = std::sqrt(std::abs(z)); G.push_back(ref::mult({w[j], ref::sum({ref::ipow(w[j], 2), cnum(z)}, {true, true})}, {true, true})); }
	}
	// mix the equations: unit lower triangular times unit upper triangular
	std::vector<std::vector<Cd>> L(n, std::vector<Cd>(n)), U = L, M = L; for (int i = 0; i < n; ++i) { L[i][i] = 1; U[i][i] = 1; for (int j = 0; j < i; ++j) { if (g.chance(50)) L[i][j] = dyadic(g, 2, 4); if (g.chance(50)) U[j][i] = dyadic(g, 2, 4); } }
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) M[i][j] += L[i][k] * U[k][j];
	int rot = g.below(n);
	for (int i = 0; i < n; ++i) { auto& row = M[(i + rot) % n]; std::vector<ref::P> ch; std::vector<bool> ps; for (int j = 0; j < n; ++j) if (row[j] != 0.) { ch.push_back(row[j] == 1. ? G[j] : ref::mult({cnum(row[j]), G[j]}, {true, true})); ps.push_back(true); } h.s.f.push_back(ch.size() == 1 ? ch[0] : ref::sum(ch, ps)); }
	h.b = build(g, h.s);
	if (c.homogenize && g.chance(35)) { h.b.sys.Homogenize(); h.b.sys.AutoPatch(); h.homd = true; g.label("homogenized and patched"); }
	g.note(h.s.show() + (h.homd ? "\n  homogenized and patched" : "")); for (int j = 0; j < n; ++j) g.note("  path x" + std::to_string(j) + " = " + ref::show(h.phi[j]) + (h.q[j].on ? (h.q[j].sign > 0 ? " + sqrt" : " - sqrt") : ""));
	return h;
}
// dense solve at 260 digits (partial pivoting); false if a pivot is tiny
inline bool rsolve(std::vector<std::vector<ref::C>> A, std::vector<ref::C> b, std::vector<ref::C>& x) {
	int n = b.size(); for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (ref::mag(A[i][k]) > ref::mag(A[p][k])) p = i; if (ref::mag(A[p][k]) < ref::R("1e-200")) return false; std::swap(A[p], A[k]); std::swap(b[p], b[k]); for (int i = k + 1; i < n; ++i) { ref::C m = A[i][k] / A[k][k]; for (int j = k; j < n; ++j) A[i][j] -= m * A[k][j]; b[i] -= m * b[k]; } }
	x.assign(n, ref::C(0)); for (int k = n; k--;) { ref::C s = b[k]; for (int j = k + 1; j < n; ++j) s -= A[k][j] * x[j]; x[k] = s / A[k][k]; } return true; }
inline ref::R dist(std::vector<ref::C> const& a, std::vector<ref::C> const& b) { ref::R m(0); for (size_t i = 0; i < a.size(); ++i) { ref::R d = ref::mag(ref::C(a[i] - b[i])); if (!(d <= m)) m = d; } return m; }
inline ref::R rnorm(std::vector<ref::C> const& a) { ref::R m(0); for (auto& z : a) m += ref::mag(z) * ref::mag(z); return boost::multiprecision::sqrt(m); }
inline double invnorm(std::vector<std::vector<ref::C>> const& J) { int n = J.size(); double s = 0; for (int k = 0; k < n; ++k) { std::vector<ref::C> e(n, ref::C(0)), x; e[k] = ref::C(1); if (!rsolve(J, e, x)) return 1e300; double m = rnorm(x).convert_to<double>(); s += m * m; } return std::sqrt(s); }
inline double fro(std::vector<std::vector<ref::C>> const& J) { double s = 0; for (auto& r : J) { double m = rnorm(r).convert_to<double>(); s += m * m; } return std::sqrt(s); }
} // namespace b2
