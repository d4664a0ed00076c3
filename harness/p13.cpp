// P13: multihomogeneous start systems, and start systems given by the user.
#include "polygen.hpp"
#include "bertini2/system/start_systems.hpp"
#include <set>
using namespace b2; using namespace pbt; using ref::C; using ref::R; using Cd = std::complex<double>;
using MH = bertini::start_system::MHomogeneous; typedef unsigned long long ull;
struct Case { SysSpec s; Built b; std::vector<std::vector<int>> t; bool hom = false; std::vector<int> dim; ull bez = 0; };
static ull bezout(std::vector<std::vector<int>> const& t, std::vector<int> left, size_t i) { if (i == t.size()) { for (int x : left) if (x) return 0; return 1; } ull r = 0; for (size_t k = 0; k < left.size(); ++k) if (left[k] && t[i][k]) { --left[k]; r += ull(t[i][k]) * bezout(t, left, i + 1); ++left[k]; } return r; }
static Case make(Gen& g, bool zeros) {
	Case c; SysSpec& s = c.s; c.hom = g.chance(60); int ng = g.range(1, 3), n = 0; for (int k = 0; k < ng; ++k) { bool h = c.hom && g.chance(35); int sz = g.range(1, 3); if (h) ++sz; std::vector<int> v; for (int i = 0; i < sz; ++i) v.push_back(s.nv++); s.groups.push_back({h ? SysSpec::Hom : SysSpec::Affine, v}); c.dim.push_back(h ? sz - 1 : sz); n += c.dim.back(); }
	bool anyaff = false; for (auto& q : s.groups) anyaff |= q.kind == SysSpec::Affine;
	for (int i = 0; i < n; ++i) { std::vector<int> d; int tot = 0; for (int k = 0; k < ng; ++k) { d.push_back(g.chance(30) ? 0 : g.range(1, ng == 1 ? 4 : n > 4 ? 2 : 3)); tot += d.back(); } if (!tot && !zeros) d[g.below(ng)] = 1; c.t.push_back(d); }
	if (!zeros) for (int k = 0; k < ng; ++k) { bool z = true; for (auto& d : c.t) z &= d[k] == 0; if (z) c.t[g.below(n)][k] = 1; }
	fill_functions(g, s, c.t); c.b = build(g, s); if (c.hom) { if (anyaff) c.b.sys.Homogenize(); c.b.sys.AutoPatch(); g.label("homogenized and patched"); } g.note(s.show() + (c.hom ? "\n homogenized and patched" : "")); c.bez = bezout(c.t, c.dim, 0); return c;
}
template<class T> void check_points(Gen& g, Case& c, MH const& mh, unsigned p, std::vector<ull> const& idx, std::vector<std::vector<C>>& nrm) {
	bool mp = !std::is_same<T, dbl>::value; R eps = eps_for<T>(p); nrm.clear(); unsigned nvar = c.s.nv; if (c.hom) for (auto& q : c.s.groups) nvar += q.kind == SysSpec::Affine;
	for (auto k : idx) {
		bertini::Vec<T> x = mh.template StartPoint<T>(k); PBT_CHECK(x.size() == int(nvar) && mh.NumVariables() == nvar, "start point " << k << " has " << x.size() << " coordinates, not " << nvar); std::vector<C> y; R big(1); for (int i = 0; i < x.size(); ++i) { y.push_back(up(x(i))); PBT_CHECK(!isnan(y[i].real()) && !isnan(y[i].imag()), "not a number"); big += ref::mag(y[i]); if (mp) PBT_CHECK(prec_of(x(i)) == p, "start point " << k << " has precision " << prec_of(x(i)) << ", not " << p); }
		// representative per group: affine ones are dehomogenized, homogeneous ones divided by their largest coordinate
		std::vector<C> a; size_t at = 0; for (auto& q : c.s.groups) { size_t n = q.v.size(); if (q.kind == SysSpec::Affine) { C h(1); if (c.hom) h = y[at++]; for (size_t i = 0; i < n; ++i) a.push_back(y[at + i] / h); } else { size_t m = 0; for (size_t i = 1; i < n; ++i) if (ref::mag(y[at + i]) > ref::mag(y[at + m])) m = i; for (size_t i = 0; i < n; ++i) a.push_back(y[at + i] / y[at + m]); } at += n; }
		bertini::Vec<T> f = mh.Eval(x); PBT_CHECK(f.size() == x.size(), "number of values " << f.size()); auto J = mh.Jacobian(x); PBT_CHECK(J.rows() == f.size() && J.cols() == x.size(), "jacobian size");
		// distance to the true root, by a newton step whose rounding is bounded through the condition number
		R nj(0), nf(0); bertini::Mat<T> JJ = J; auto lu = JJ.partialPivLu(); bertini::Vec<T> dx = lu.solve(f); bertini::Mat<T> inv = lu.inverse(); R ni(0); for (int i = 0; i < J.rows(); ++i) { R a1(0), a2(0); for (int j = 0; j < J.cols(); ++j) { a1 += ref::mag(up(J(i, j))); a2 += ref::mag(up(inv(i, j))); } nj = std::max(nj, a1); ni = std::max(ni, a2); nf = std::max(nf, ref::mag(up(f(i)))); }
		R step(0); for (int i = 0; i < dx.size(); ++i) step += ref::mag(up(dx(i))); R cond = nj * ni;
		std::vector<R> sc; for (size_t i = 0; i < c.t.size(); ++i) { R q(1); for (size_t k2 = 0; k2 < c.t[i].size(); ++k2) for (int e = 0; e < c.t[i][k2]; ++e) q *= R(1.5) * big; sc.push_back(q); }
		for (int i = 0; i < f.size(); ++i) { R tol = (i < int(sc.size()) ? sc[i] : big * 4) * eps * 4000; if (mp) PBT_CHECK(prec_of(f(i)) == p, "value at precision " << prec_of(f(i))); PBT_CHECK(ref::mag(up(f(i))) <= tol, "function " << i << " of the start system is " << b2::str(up(f(i))) << " at its start point " << k); }
		if (cond < (mp ? R(1e10) : R(1e6))) { g.label("well conditioned"); PBT_CHECK(step <= eps * 4000 * cond * cond * big, "start point " << k << " is " << step << " away from a solution of the start system"); }
		for (auto& o : nrm) { R d(0); for (size_t i = 0; i < a.size(); ++i) d = std::max(d, ref::mag(o[i] - a[i]) / (R(1) + ref::mag(a[i]))); PBT_CHECK(d > 1e-9, "start points coincide"); } nrm.push_back(a);
	}
}
static void points(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); Case c = make(g, false); if (c.bez > 3000) discard("too many"); MH mh(c.b.sys); bool tree = g.chance(40); if (tree) mh.SetEvalMethod(bertini::EvalMethod::FunctionTree);
	PBT_CHECK(mh.NumStartPoints() == c.bez, "number of start points is " << mh.NumStartPoints() << ", the multihomogeneous Bezout number is " << c.bez); PBT_CHECK(mh.NumNaturalFunctions() == c.t.size() && mh.Variables() == c.b.sys.Variables(), "variables or functions"); PBT_CHECK(mh.IsPatched() == c.hom, "patched unlike the target"); if (c.hom) PBT_CHECK(mh.IsHomogeneous(), "not homogeneous");
	{ size_t ia = 0, ih = 0; auto vg = c.b.sys.VariableGroups(), hg = c.b.sys.HomVariableGroups(); for (size_t k = 0; k < c.s.groups.size(); ++k) { auto& grp = c.s.groups[k].kind == SysSpec::Affine ? vg[ia++] : hg[ih++]; auto d = mh.Degrees(grp); for (size_t i = 0; i < c.t.size(); ++i) PBT_CHECK(d[i] == c.t[i][k], "degree of start function " << i << " in group " << k << " is " << d[i] << ", not " << c.t[i][k]); } }
	if (c.bez == 0) { g.label("no points"); return; }
	std::vector<ull> idx; if (c.bez <= 30) for (ull i = 0; i < c.bez; ++i) idx.push_back(i); else { std::set<ull> s{0, c.bez - 1}; while (s.size() < 30) s.insert(g.below(c.bez)); idx.assign(s.begin(), s.end()); }
	mh.precision(p); std::vector<std::vector<C>> A, B; check_points<dbl>(g, c, mh, p, idx, A); check_points<mpfr_complex>(g, c, mh, p, idx, B);
	if (g.chance(40)) { unsigned q = some_prec(g); set_prec(q); mh.precision(q); g.note("then precision " + std::to_string(q)); check_points<mpfr_complex>(g, c, mh, q, idx, A); R t = eps_of(std::min(p, q)); for (size_t i = 0; i < A.size(); ++i) for (size_t k = 0; k < A[i].size(); ++k) { R z = ref::mag(B[i][k]); PBT_CHECK(ref::mag(A[i][k] - B[i][k]) <= t * R("1e12") * (1 + z) * (1 + z), "start point moved when precision changed"); } }
	bool threw = false; try { mh.StartPoint<dbl>(c.bez + g.below(4)); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "no error for a start point past the end");
	if (c.bez > 1) g.nontrivial(); g.label(std::to_string(c.s.groups.size()) + " groups"); if (c.bez > 30) g.label("sampled indices");
}
static void zeros(Gen& g) { // zero rows and columns are refused
	set_prec(30); Case c = make(g, true); bool bad = false; for (size_t k = 0; k < c.dim.size(); ++k) { bool z = true; for (auto& d : c.t) z &= d[k] == 0; bad |= z; } for (auto& d : c.t) { bool z = true; for (int x : d) z &= x == 0; bad |= z; } if (!bad) discard("no zero row or column"); bool threw = false; try { MH mh(c.b.sys); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "no error for a zero row or column of degrees"); g.nontrivial();
}
static void user(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); Case c = make(g, false); unsigned n = g.range(0, 6), nv = c.b.sys.NumVariables(); bool mp = g.chance(50); std::vector<std::vector<Cd>> pts; bertini::SampCont<dbl> d; bertini::SampCont<mpfr_complex> m; for (unsigned i = 0; i < n; ++i) { std::vector<Cd> x; for (unsigned j = 0; j < nv; ++j) x.push_back(ref::coord(g)); pts.push_back(x); d.push_back(vec<dbl>(x, 16)); m.push_back(vec<mpfr_complex>(x, p)); }
	auto U = mp ? std::make_shared<bertini::start_system::User>(c.b.sys, m) : std::make_shared<bertini::start_system::User>(c.b.sys, d); PBT_CHECK(U->NumStartPoints() == n, "count");
	for (unsigned i = 0; i < n; ++i) { auto a = U->StartPoint<dbl>(i); auto b = U->StartPoint<mpfr_complex>(i); PBT_CHECK(a.size() == int(nv) && b.size() == int(nv), "size"); for (unsigned j = 0; j < nv; ++j) { PBT_CHECK(a(j) == pts[i][j], "double coordinate " << j << " of supplied point " << i); PBT_CHECK(up(b(j)) == ref::toC(pts[i][j]), "multiprecision coordinate"); PBT_CHECK(prec_of(b(j)) == p, "precision of supplied point"); } } if (n) g.nontrivial();
}
int main(int argc, char** argv) {
	Suite s; s.property = "P13"; s.assumptions = {"Targets have affine groups, or are homogenized and patched with affine and homogeneous groups; no ungrouped variables; as many functions as unknowns.", "The default precision is set, then the start system's."};
	s.subs = {
		{"points", "1-3 groups of 1-3 dimensions with random degree tables (zeros included), plain or homogenized and patched, at 16-190 digits in double and multiple precision, then at another precision; up to 30 start points each; the count is compared to brute-force expansion of the multihomogeneous Bezout number; non-trivial: more than one start point.", 1500, 20000, points},
		{"zeros", "degree tables with a zero row or column are refused.", 300, 3000, zeros},
		{"user", "start systems made of supplied points, in double or multiple precision; non-trivial: at least one point.", 300, 3000, user},
	}; return run_main(s, argc, argv);
}
