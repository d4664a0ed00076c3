// Homotopies with known Puiseux expansions at the target time, and runs of endgames on them.
#pragma once
#include "trackgen.hpp"
#include "bertini2/endgames.hpp"
namespace b2 {
namespace bt = bertini::tracking; namespace be = bertini::endgame;
struct PuiCfg { int maxv = 3; int maxc = 4; bool infinite = false; bool zero_target = false; };
struct Pui {
	SysSpec s; Built b; int n = 0; bool homd = false; Cd ts, t0; int cycle = 1; bool inf = false, singular = false;
	struct Comp { int c = 1, k = 1, branch = 0; Cd u = 1, w = 0; ref::P p; };  // x = p(tau) + branch of (u tau^k (1 + w tau))^(1/c); for infinite paths u tau^-k
	std::vector<Comp> comp; std::vector<ref::P> graph;  // further variables: polynomials in the first ones (indices as in the system, time last)
	static ref::C root(ref::C const& z, int c) { if (c == 1) return z; return boost::multiprecision::exp(ref::C(boost::multiprecision::log(z) / ref::C(c))); }
	ref::C unit(int j, int c) const { ref::R a = ref::R(2) * boost::math::constants::pi<ref::R>() * j / c; return ref::C(boost::multiprecision::cos(a), boost::multiprecision::sin(a)); }
	// at a point of the segment from t0 to ts, given as the share of the way still to go
	std::vector<ref::C> at(ref::R const& share) const {
		ref::C tau0 = ref::toC(t0) - ref::toC(ts), tau = tau0 * share; std::vector<ref::C> x(n + 1, ref::C(0)); x[n] = ref::toC(ts) + tau; size_t i = 0;
		for (; i < comp.size(); ++i) { auto& q = comp[i]; ref::C v = ref::eval(q.p, x).v; ref::R sr = share == 0 ? ref::R(0) : ref::R(boost::multiprecision::pow(share, ref::R((inf && i == 0) ? -q.k : q.k) / q.c)); ref::C lead = root(ref::toC(q.u), q.c) * root(tau0, q.c); ref::C z(1); for (int j = 0; j < q.k; ++j) z *= root(tau0, q.c); if (inf && i == 0) z = ref::C(1) / z; v += root(ref::toC(q.u), q.c) * z * sr * unit(q.branch, q.c) * root(ref::C(ref::C(1) + ref::toC(q.w) * tau), q.c); x[i] = v; (void)lead; }
		for (size_t j = 0; j < graph.size(); ++j, ++i) x[i] = ref::eval(graph[j], x).v;
		x.resize(n); return x; }
	template<class T> T num(ref::C const& z, unsigned p) const { if constexpr (std::is_same<T, dbl>::value) return dbl(z.real().convert_to<double>(), z.imag().convert_to<double>()); else return down(z, p); }
	template<class T> Vec<T> point(std::vector<ref::C> const& x, unsigned p, bool at_infinity = false) const {
		if (!homd) { Vec<T> v(n); for (int i = 0; i < n; ++i) v(i) = num<T>(x[i], p); return v; }
		Vec<T> v(n + 1); v(0) = num<T>(ref::C(at_infinity ? 0 : 1), p); for (int i = 0; i < n; ++i) v(i + 1) = num<T>(x[i], p); return b.sys.RescalePointToFitPatch(v); }
	// the end of the path in the coordinates of the system
	template<class T> Vec<T> end(unsigned p) const { if (!inf) return point<T>(at(ref::R(0)), p); std::vector<ref::C> x(n, ref::C(0)); x[0] = ref::C(1); for (size_t j = 0; j < graph.size(); ++j) { std::vector<ref::C> z(n + 1, ref::C(0)); z[n] = ref::toC(ts); auto v = ref::eval(graph[j], z); x[j + 1] = v.d[0]; for (size_t l = 1; l < j + 1; ++l) x[j + 1] += v.d[l] * x[l]; } return point<T>(x, p, true); }
};
inline int gcd_(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }
inline Pui gen_pui(Gen& g, PuiCfg cf) {
	Pui h; int n = h.n = g.range(1, cf.maxv); h.s.nv = n; h.s.path = true; std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); h.s.groups.push_back({SysSpec::Affine, all}); h.inf = cf.infinite;
	h.ts = cf.zero_target || g.chance(55) ? Cd(0) : Cd(0.125 * g.small_int(8), g.chance(50) ? 0.125 * g.small_int(8) : 0); static const double rs[] = {0.125, 0.0625, 0.25, 0.1}; double r = rs[g.below(4)]; Cd dir = g.chance(60) ? Cd(1) : Cd(0.25 * g.range(-4, 4), 0.25 * g.range(-4, 4)); if (dir == 0.) dir = 1; h.t0 = h.ts + r * dir;
	ref::P t = ref::var(n), tau = h.ts == 0. ? t : ref::sum({t, cnum(h.ts)}, {true, false}); int m = std::min(n, g.chance(25) && !h.inf ? 2 : 1); std::vector<ref::P> G;
	auto poly = [&](int d) { std::vector<ref::P> ts{cnum(dyadic(g, 8, 4))}; std::vector<bool> ps{true}; for (int k = 1; k <= d; ++k) { Cd a = dyadic(g, 6, 4); if (a == 0.) continue; ts.push_back(ref::mult({cnum(a), k == 1 ? tau : ref::ipow(tau, k)}, {true, true})); ps.push_back(true); } return ts.size() == 1 ? ts[0] : ref::sum(ts, ps); };
	for (int j = 0; j < m; ++j) {
		Pui::Comp q; q.p = poly(g.range(0, 3)); q.c = j == 0 ? g.range(1, cf.maxc) : g.range(1, 2); q.k = g.weighted({5, 2, 1}) + 1; q.branch = g.below(q.c); q.u = dyadic(g, 8, 4); if (std::abs(q.u) < 0.2) q.u = 1; if (g.chance(40)) q.w = dyadic(g, 8, 8); double far = std::abs(q.w) * std::abs(h.t0 - h.ts); if (far > 0.25) q.w = 0; if (h.inf && q.k > 2) q.k = 2;
		if (q.c == 1 && !h.inf) { q.k = g.range(1, 3); }
		ref::P wv = ref::sum({ref::var(j), q.p}, {true, false}), lhs = q.c == 1 ? wv : ref::ipow(wv, q.c), tk = q.k == 1 ? tau : ref::ipow(tau, q.k), uw = q.w == 0. ? cnum(q.u) : ref::mult({cnum(q.u), ref::sum({cnum(1), ref::mult({cnum(q.w), tau}, {true, true})}, {true, true})}, {true, true});
		if (h.inf) G.push_back(ref::sum({ref::mult({tk, lhs}, {true, true}), uw}, {true, false})); else G.push_back(ref::sum({lhs, ref::mult({uw, tk}, {true, true})}, {true, false}));
		int c = q.c / gcd_(q.c, q.k); h.cycle = h.cycle / gcd_(h.cycle, c) * c; if (q.c > 1) h.singular = true; h.comp.push_back(q); }
	for (int j = m; j < n; ++j) { std::vector<ref::P> ts{poly(1)}; std::vector<bool> ps{true}; for (int l = 0; l < j; ++l) { Cd a = dyadic(g, 4, 4); if (a != 0.) { ts.push_back(ref::mult({cnum(a), ref::var(l)}, {true, true})); ps.push_back(true); } } if (!h.inf && g.chance(50)) { ts.push_back(ref::mult({cnum(dyadic(g, 2, 4) + 0.25), ref::ipow(ref::var(0), 2)}, {true, true})); ps.push_back(true); } if (!h.inf && j > 1 && g.chance(30)) { ts.push_back(ref::mult({cnum(0.25), ref::var(0), ref::var(1)}, {true, true, true})); ps.push_back(true); } auto e = ts.size() == 1 ? ts[0] : ref::sum(ts, ps); h.graph.push_back(e); G.push_back(ref::sum({ref::var(j), e}, {true, false})); }
	std::vector<std::vector<Cd>> L(n, std::vector<Cd>(n)), U = L, M = L; for (int i = 0; i < n; ++i) { L[i][i] = 1; U[i][i] = 1; for (int j = 0; j < i; ++j) { if (g.chance(50)) L[i][j] = dyadic(g, 2, 4); if (g.chance(50)) U[j][i] = dyadic(g, 2, 4); } }
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) M[i][j] += L[i][k] * U[k][j];
	// with paths to infinity equations of different degrees must not be mixed: the leading forms would change
	if (h.inf) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i][j] = i == j;
	for (int i = 0; i < n; ++i) { auto& row = M[i]; std::vector<ref::P> ch; std::vector<bool> ps; for (int j = 0; j < n; ++j) if (row[j] != 0.) { ch.push_back(row[j] == 1. ? G[j] : ref::mult({cnum(row[j]), G[j]}, {true, true})); ps.push_back(true); } h.s.f.push_back(ch.size() == 1 ? ch[0] : ref::sum(ch, ps)); }
	h.b = build(g, h.s); if (h.inf || g.chance(35)) { h.b.sys.Homogenize(); h.b.sys.AutoPatch(); h.homd = true; g.label("homogenized and patched"); }
	std::ostringstream o; o << h.s.show() << (h.homd ? "\n  homogenized and patched" : "") << "\n  from " << h.t0 << " to " << h.ts << ", cycle number " << h.cycle; for (auto& q : h.comp) o << "\n  exponent " << (h.inf ? -q.k : q.k) << "/" << q.c << " branch " << q.branch << " coefficient " << q.u; g.note(o.str()); g.label("cycle number " + std::to_string(h.cycle)); return h;
}
struct EgConf { const Meth* m; double tol; be::EndgameConfig e; be::SecurityConfig sec; be::PowerSeriesConfig ps; be::CauchyConfig ca; bt::SteppingConfig st; bt::NewtonConfig nw; bool deflt = true;
	std::string show() const { std::ostringstream o; o << m->name << " tracking tolerance " << tol << " final tolerance " << e.final_tolerance << " samples " << e.num_sample_points << " factor " << e.sample_factor << " Newton " << nw.min_num_newton_iterations << ".." << nw.max_num_newton_iterations << " security " << sec.level << " max norm " << sec.max_norm << " max cycle " << ps.max_cycle_number << " amplification " << ps.cycle_number_amplification; return o.str(); } };
inline EgConf gen_egconf(Gen& g) {
	EgConf c; c.st.max_num_steps = 2000; static const int ms[] = {0, 5, 6, 7, 4, 3}; c.m = &meths[ms[g.below(6)]]; c.tol = std::pow(10., -double(g.range(5, 9))); c.nw.max_num_newton_iterations = g.range(2, 3);
	if (g.chance(60)) { c.deflt = false; static const double ft[] = {1e-11, 1e-8, 1e-10, 1e-9, 1e-7}; c.e.final_tolerance = ft[g.below(5)]; static const int fs[][2] = {{1, 2}, {1, 4}, {2, 5}, {3, 5}, {1, 10}, {3, 4}}; auto& f = fs[g.below(6)]; c.e.sample_factor = mpq_rational(f[0], f[1]); c.e.num_sample_points = g.range(3, 6); c.ps.max_cycle_number = g.range(4, 10); c.ps.cycle_number_amplification = g.range(1, 6); c.e.max_num_newton_iterations = g.range(8, 15); }
	g.note(c.show()); return c; }
template<class Tr> struct CT_ { using type = mpfr_complex; }; template<> struct CT_<bt::DoublePrecisionTracker> { using type = dbl; };
template<class Tr> void eg_setup(Tr& tr, EgConf const& c, Pui const& h) { tr.Setup(c.m->m, c.tol, 1e5, c.st, c.nw); if constexpr (std::is_same<Tr, bt::AMPTracker>::value) tr.PrecisionSetup(bt::AMPConfigFrom(h.b.sys)); if (h.inf) tr.SetInfiniteTruncation(false); }
inline void precise(Pui& h, unsigned p) { set_prec(p); h.b.sys.precision(p); }
} // namespace b2
