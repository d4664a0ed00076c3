// P12: total degree start systems.
#include "polygen.hpp"
#include "bertini2/system/start_systems.hpp"
#include <set>
using namespace b2; using namespace pbt; using ref::C; using ref::R; using Cd = std::complex<double>;
using TD = bertini::start_system::TotalDegree;
struct Case { SysSpec s; Built b; std::vector<int> deg; bool hom = false; unsigned long long bez = 1; };
static Case make(Gen& g, int maxv) {
	Case c; c.s.nv = g.range(1, maxv); std::vector<int> all(c.s.nv); for (int i = 0; i < c.s.nv; ++i) all[i] = i; c.s.groups.push_back({SysSpec::Affine, all});
	std::vector<std::vector<int>> table; for (int i = 0; i < c.s.nv; ++i) { int d = g.range(1, c.s.nv <= 2 ? 6 : 4); c.deg.push_back(d); table.push_back({d}); c.bez *= d; } fill_functions(g, c.s, table);
	c.b = build(g, c.s); if (g.chance(60)) { c.b.sys.Homogenize(); c.b.sys.AutoPatch(); c.hom = true; g.label("homogenized and patched"); }
	g.note(c.s.show() + (c.hom ? "\n homogenized and patched" : "")); return c;
}
static std::vector<unsigned long long> indices(Gen& g, unsigned long long n, unsigned most) { std::vector<unsigned long long> r; if (n <= most) for (unsigned long long i = 0; i < n; ++i) r.push_back(i); else { std::set<unsigned long long> s{0, n - 1}; while (s.size() < most) s.insert(g.below(n)); r.assign(s.begin(), s.end()); } return r; }
template<class T> void check_points(Gen& g, Case& c, TD const& td, unsigned p, std::vector<unsigned long long> const& idx, std::vector<std::vector<C>>& aff, bool scaled) {
	bool mp = !std::is_same<T, dbl>::value; R eps = eps_for<T>(p); unsigned n = c.s.nv, off = c.hom ? 1 : 0; aff.clear();
	for (auto k : idx) {
		bertini::Vec<T> x = td.template StartPoint<T>(k); PBT_CHECK(x.size() == int(n + off) && size_t(x.size()) == td.NumVariables(), "start point " << k << " has " << x.size() << " coordinates");
		std::vector<C> y; R big(1); for (int i = 0; i < x.size(); ++i) { y.push_back(up(x(i))); big = std::max(big, ref::mag(y[i])); if (mp) PBT_CHECK(prec_of(x(i)) == p, "start point " << k << " has precision " << prec_of(x(i)) << ", not " << p); }
		std::vector<C> a; for (unsigned i = 0; i < n; ++i) a.push_back(c.hom ? C(y[i + 1] / y[0]) : y[i]);
		for (unsigned i = 0; i < n; ++i) { T rv = td.template RandomValue<T>(i); C r = up(rv); C pw(1); for (int e = 0; e < c.deg[i]; ++e) pw *= a[i]; PBT_CHECK(ref::mag(pw - r) <= eps * 400 * c.deg[i] * (1 + ref::mag(r)), "coordinate " << i << " of start point " << k << " to the power " << c.deg[i] << " is " << b2::str(pw) << ", not the random value " << b2::str(r)); }
		bertini::Vec<T> f = td.Eval(x); PBT_CHECK(f.size() == int(n + off), "number of values " << f.size()); R sc(1); for (int d : c.deg) { R q(1); for (int e = 0; e < d; ++e) q *= big; sc = std::max(sc, q); }
		for (int i = 0; i < f.size(); ++i) { if (mp) PBT_CHECK(prec_of(f(i)) == p, "start system value at precision " << prec_of(f(i))); PBT_CHECK(ref::mag(up(f(i))) <= eps * 4000 * sc * (scaled ? 20 : 1) * 4, "function " << i << " of the start system is " << b2::str(up(f(i))) << " at its start point " << k); }
		aff.push_back(a);
	}
	for (size_t i = 0; i < aff.size(); ++i) for (size_t j = 0; j < i; ++j) { R d(0); for (unsigned k = 0; k < n; ++k) d = std::max(d, ref::mag(aff[i][k] - aff[j][k]) / (R(1e-30) + ref::mag(aff[i][k]))); PBT_CHECK(d > 1e-3, "start points " << idx[i] << " and " << idx[j] << " coincide"); }
	g.count(idx.size() * n);
}
static void points(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); Case c = make(g, 4); TD td(c.b.sys); bool tree = g.chance(40); if (tree) td.SetEvalMethod(bertini::EvalMethod::FunctionTree);
	PBT_CHECK(td.NumStartPoints() == c.bez, "number of start points is " << td.NumStartPoints() << ", the product of the degrees is " << c.bez);
	PBT_CHECK(td.NumNaturalFunctions() == size_t(c.s.nv) && td.NumVariables() == c.b.sys.NumVariables() && td.Variables() == c.b.sys.Variables(), "variables"); PBT_CHECK(td.IsPatched() == c.hom && td.IsHomogeneous() == c.hom, "homogeneous/patched unlike the target"); PBT_CHECK(!td.HavePathVariable(), "path variable");
	auto d = td.Degrees(); PBT_CHECK(d == c.deg, "degrees"); PBT_CHECK(td.IsPolynomial(), "not polynomial");
	if (c.hom) PBT_CHECK(td.GetPatch() == c.b.sys.GetPatch(), "patch is not the target's");
	bool scaled = false; if (g.chance(20)) { auto gam = bertini::node::Rational::Make(mpq_rational(3, 2), mpq_rational(-5, 4)); td *= gam; scaled = true; g.note("times a number"); PBT_CHECK(td.NumStartPoints() == c.bez, "count after scaling"); }
	auto idx = indices(g, c.bez, 40); std::vector<std::vector<C>> A, B; td.precision(p); check_points<dbl>(g, c, td, p, idx, A, scaled); check_points<mpfr_complex>(g, c, td, p, idx, B, scaled);
	for (size_t i = 0; i < A.size(); ++i) for (size_t k = 0; k < A[i].size(); ++k) PBT_CHECK(ref::mag(A[i][k] - B[i][k]) <= R(1e-11) * (1 + ref::mag(B[i][k])), "start point " << idx[i] << " differs between double and multiple precision");
	if (g.chance(50)) { unsigned q = some_prec(g); set_prec(q); td.precision(q); g.note("then precision " + std::to_string(q)); check_points<mpfr_complex>(g, c, td, q, idx, A, scaled); for (size_t i = 0; i < A.size(); ++i) for (size_t k = 0; k < A[i].size(); ++k) PBT_CHECK(ref::mag(A[i][k] - B[i][k]) <= (eps_of(std::min(p, q))) * 1000 * (1 + ref::mag(B[i][k])), "start point " << idx[i] << " moved when precision changed"); }
	if (g.chance(30)) { TD copy(td); std::vector<std::vector<C>> D; check_points<dbl>(g, c, copy, p, idx, D, scaled); }
	bool threw = false; try { td.StartPoint<dbl>(c.bez + g.below(5)); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "no error for a start point past the end");
	// each function depends on one variable (and the homogenizing one)
	if (!scaled) { unsigned off = c.hom; std::vector<Cd> pt; for (int i = 0; i < int(td.NumVariables()); ++i) pt.push_back(unitish(g)); bertini::Vec<dbl> x = vec<dbl>(pt, 16); auto J = td.Jacobian(x); std::set<int> used; for (int i = 0; i < c.s.nv; ++i) { int cnt = 0; for (int j = 0; j < c.s.nv; ++j) if (std::abs(J(i, j + off)) > 0) { ++cnt; used.insert(j); } PBT_CHECK(cnt == 1, "start function " << i << " depends on " << cnt << " variables"); } PBT_CHECK(int(used.size()) == c.s.nv, "some variable appears in no start function"); }
	if (c.bez > 1) g.nontrivial(); g.label(c.bez > 40 ? "many points" : "all points");
}
static void large(Gen& g) { // many paths: indices still give distinct points
	unsigned p = some_prec(g); set_prec(p); Case c; c.s.nv = g.range(5, 8); std::vector<int> all(c.s.nv); for (int i = 0; i < c.s.nv; ++i) all[i] = i; c.s.groups.push_back({SysSpec::Affine, all}); std::vector<std::vector<int>> table; for (int i = 0; i < c.s.nv; ++i) { int d = g.range(1, 30); c.deg.push_back(d); table.push_back({d}); c.bez *= d; }
	for (int i = 0; i < c.s.nv; ++i) c.s.f.push_back(ref::sum({ref::ipow(ref::var(g.below(c.s.nv)), c.deg[i]), ref::num(3)}, {true, false})); c.b = build(g, c.s); if (g.chance(60)) { c.b.sys.Homogenize(); c.b.sys.AutoPatch(); c.hom = true; } g.note(c.s.show());
	TD td(c.b.sys); PBT_CHECK(td.NumStartPoints() == c.bez, "number of start points is " << td.NumStartPoints() << ", the product of the degrees is " << c.bez);
	std::set<unsigned long long> s{0, c.bez - 1}; for (int i = 0; i < 10; ++i) s.insert(g.below(c.bez)); std::vector<unsigned long long> idx(s.begin(), s.end()); td.precision(p); std::vector<std::vector<C>> A;
	unsigned n = c.s.nv; for (auto k : idx) { auto x = td.StartPoint<mpfr_complex>(k); std::vector<C> a; for (unsigned i = 0; i < n; ++i) { C v = up(x(i + c.hom)); if (c.hom) v = v / up(x(0)); a.push_back(v); C r = up(td.RandomValue<mpfr_complex>(i)), pw(1); for (int e = 0; e < c.deg[i]; ++e) pw *= v; PBT_CHECK(ref::mag(pw - r) <= eps_of(p) * 400 * c.deg[i] * (1 + ref::mag(r)), "coordinate " << i << " of start point " << k << " is no root"); } for (auto& o : A) { R d(0); for (unsigned i = 0; i < n; ++i) d = std::max(d, ref::mag(o[i] - a[i]) / ref::mag(a[i])); PBT_CHECK(d > 1e-3, "start points coincide"); } A.push_back(a); } g.nontrivial();
}
static void refused(Gen& g) { // unsuitable targets are refused
	set_prec(30); Case c; SysSpec& s = c.s; int why = g.below(5); s.nv = g.range(2, 4); std::vector<int> all; for (int i = 0; i < s.nv; ++i) all.push_back(i); std::vector<std::vector<int>> t; const char* w[] = {"not square", "two groups", "path variable", "homogeneous group", "not polynomial"}; g.note(w[why]);
	if (why == 1 || why == 3) { unsigned cut = g.range(1, s.nv - 1); s.groups.push_back({why == 3 ? SysSpec::Hom : SysSpec::Affine, std::vector<int>(all.begin(), all.begin() + cut)}); s.groups.push_back({SysSpec::Affine, std::vector<int>(all.begin() + cut, all.end())}); } else s.groups.push_back({SysSpec::Affine, all});
	int nf = s.nv; if (why == 0) nf += g.chance(50) ? 1 : -1; for (int i = 0; i < nf; ++i) t.push_back(std::vector<int>(s.groups.size(), g.range(1, 3))); fill_functions(g, s, t); if (why == 4) { static const ref::Op o[] = {ref::Op::Sin, ref::Op::Exp, ref::Op::Log, ref::Op::Sqrt}; s.f[g.below(s.f.size())] = ref::mk(o[g.below(4)], {ref::var(g.below(s.nv))}); } if (why == 2) s.path = true;
	Built b = build(g, s); bool threw = false; try { TD td(b.sys); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "no error for an unsuitable target: " << w[why]); g.nontrivial();
}
int main(int argc, char** argv) {
	Suite s; s.property = "P12"; s.assumptions = {"Targets have one affine variable group, no others, as many functions as variables, and positive degrees; homogenized targets are patched.", "The default precision is set, then the start system's."};
	s.subs = {
		{"points", "square polynomial systems in 1-4 variables of degrees 1-6, homogenized and patched or not, scaled or not, at 16-190 digits in double and multiple precision, then at another precision; up to 40 start points each; non-trivial: more than one start point.", 4000, 40000, points},
		{"large", "5-8 variables and degrees up to 30: a dozen indices over the whole range; all non-trivial.", 3000, 30000, large},
		{"refused", "targets which are not square, have several groups, a path variable, homogeneous groups or are no polynomials.", 500, 3000, refused},
	}; return run_main(s, argc, argv);
}
