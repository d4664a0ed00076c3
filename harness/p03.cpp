// Degree, polynomiality and homogeneity reports.
#include "b2ref.hpp"
#include "bertini2/system/system.hpp"
using namespace pbt; using namespace b2; using namespace bertini::node; using ref::Op;

static std::vector<bool> subset(Gen& g, int n, bool nonempty = true) { std::vector<bool> s(n); int k = 0; for (int i = 0; i < n; ++i) { s[i] = g.chance(50); k += s[i]; } if (nonempty && !k) s[g.below(n)] = true; return s; }
static VarGroup grp(std::vector<VarP> const& v, std::vector<bool> const& s) { VarGroup r; for (size_t i = 0; i < v.size(); ++i) if (s[i]) r.push_back(v[i]); return r; }
static std::string shows(std::vector<bool> const& s) { std::string r = "{"; for (size_t i = 0; i < s.size(); ++i) if (s[i]) r += (r.size() > 1 ? ",x" : "x") + std::to_string(i); return r + "}"; }
// rewriting that keeps the expression's meaning so that trees of several shapes describe one polynomial
static ref::P homterm(Gen& g, ref::ExprGen& eg, std::vector<bool> const& s, int deg, int depth); 
static ref::P homsum(Gen& g, ref::ExprGen& eg, std::vector<bool> const& s, int deg, int depth) { // structurally homogeneous of the given degree in s
	int k = depth > 0 ? g.range(1, 3) : 1; if (k == 1) return homterm(g, eg, s, deg, depth); std::vector<ref::P> c; std::vector<bool> p; for (int i = 0; i < k; ++i) { c.push_back(homterm(g, eg, s, deg, depth - 1)); p.push_back(!g.chance(30)); } return ref::sum(c, p); }
static ref::P homterm(Gen& g, ref::ExprGen& eg, std::vector<bool> const& s, int deg, int depth) {
	std::vector<int> in, out; for (size_t i = 0; i < s.size(); ++i) (s[i] ? in : out).push_back(int(i));
	std::vector<ref::P> f; std::vector<bool> pos; int left = deg;
	while (left > 0) { int d = g.range(1, left); if (depth > 0 && g.chance(40)) { ref::P x = homsum(g, eg, s, d, depth - 1); if (g.chance(20)) x = ref::mk(Op::Neg, {x}); f.push_back(x); } else if (d > 1 && g.chance(50)) { bool viapow = g.chance(25); ref::P v = ref::var(in[g.below(in.size())]); f.push_back(viapow ? ref::mk(Op::Pow, {v, ref::num(d)}) : ref::ipow(v, d)); } else { f.push_back(ref::var(in[g.below(in.size())])); d = 1; } pos.push_back(true); left -= d; }
	if (f.empty() || g.chance(40)) { f.push_back(eg.number()); pos.push_back(true); }
	if (!out.empty() && g.chance(30)) { ref::P v = ref::var(out[g.below(out.size())]); static const Op fn[] = {Op::Sin, Op::Exp, Op::Cos}; f.push_back(g.chance(50) ? v : ref::mk(fn[g.below(3)], {v})); pos.push_back(true); }
	if (g.chance(15)) { f.push_back(ref::num(g.range(2, 7))); pos.push_back(false); }
	if (f.size() == 1) return g.chance(20) ? ref::mk(Op::Neg, {f[0]}) : f[0];
	return ref::mult(f, pos);
}

// Is e, as a function of the variables in s moved along a random line, a polynomial of degree at most d? (finite differences at 260 digits)
static int poly_along_line(Gen& g, ref::P const& e, std::vector<bool> const& s, int d) {
	auto base = ref::lift(ref::point(g, s.size())); std::vector<ref::C> dir(s.size(), ref::C(0)); for (size_t i = 0; i < s.size(); ++i) { dir[i] = s[i] ? ref::C(ref::R(g.range(1, 64)) / 256, ref::R(g.small_int(32)) / 256) : ref::C(0); base[i] = base[i] + ref::C(ref::R(13) / 64, ref::R(g.small_int(40)) / 128); }
	std::vector<ref::C> v; ref::R m(0); for (int k = 0; k <= d + 1; ++k) { auto x = base; for (size_t i = 0; i < s.size(); ++i) x[i] = base[i] + dir[i] * ref::C(k); auto r = ref::eval(e, x); if (r.bad) return -1; v.push_back(r.v); m += r.e + ref::mag(r.v); }
	for (int o = 0; o <= d; ++o) for (size_t k = 0; k + 1 < v.size() - o; ++k) v[k] = v[k + 1] - v[k];
	return ref::mag(v[0]) <= ref::R("1e-150") * (m + 1) ? 1 : 0;
}

static void judge(Gen& g, ref::P const& e, NodeP const& n, std::vector<VarP> const& vars, std::vector<bool> const& s, std::string const& tag) {
	int k = int(vars.size()); VarGroup G = grp(vars, s); int want = ref::sdeg(e, s), got = n->Degree(G);
	if (want != -2) PBT_CHECK((want < 0) == (got < 0) && (want < 0 || want == got), tag << "degree in " << shows(s) << " reported " << got << ", by structure " << want);
	PBT_CHECK(n->IsPolynomial(G) == (got >= 0), tag << "IsPolynomial in " << shows(s) << " disagrees with degree " << got);
	if (got >= 0 && got < 12) { int r = poly_along_line(g, e, s, got); if (r >= 0) PBT_CHECK(r == 1, tag << "reported polynomial of degree " << got << " in " << shows(s) << " but is not"); else g.label("line rejected"); }
	auto md = n->MultiDegree(G); PBT_CHECK(md.size() == G.size(), tag << "multidegree has " << md.size() << " entries for " << G.size() << " variables");
	for (int i = 0, j = 0; i < k; ++i) if (s[i]) { std::vector<bool> one(k); one[i] = true; int w = ref::sdeg(e, one); int d1 = n->Degree(vars[i]);
		if (w != -2) { PBT_CHECK((w < 0) == (d1 < 0) && (w < 0 || w == d1), tag << "degree in x" << i << " reported " << d1 << ", by structure " << w); PBT_CHECK((w < 0) == (md[j] < 0) && (w < 0 || w == md[j]), tag << "multidegree entry for x" << i << " reported " << md[j] << ", by structure " << w); }
		PBT_CHECK(n->IsPolynomial(vars[i]) == (d1 >= 0), tag << "IsPolynomial(x" << i << ") disagrees with degree " << d1); ++j; }
	std::vector<bool> all(k, true); int wa = ref::sdeg(e, all), ga = n->Degree(); if (wa != -2) PBT_CHECK((wa < 0) == (ga < 0) && (wa < 0 || wa == ga), tag << "total degree reported " << ga << ", by structure " << wa);
}
static void judge_hom(Gen& g, ref::P const& e, NodeP const& n, std::vector<VarP> const& vars, std::vector<bool> const& s, std::string const& tag, int byconstruction) {
	bool h = n->IsHomogeneous(grp(vars, s)); int d = n->Degree(grp(vars, s));
	if (byconstruction >= 0) { PBT_CHECK(h, tag << "a sum of products all of degree " << byconstruction << " in " << shows(s) << " is reported inhomogeneous"); PBT_CHECK(d == byconstruction, tag << "degree " << d << " for homogeneous of degree " << byconstruction); }
	g.label(h ? "reported homogeneous" : "reported inhomogeneous");
	auto scale = [&](bool rep, std::vector<bool> const& set, int deg, std::string const& w) { if (!rep) return; auto x = ref::lift(ref::point(g, vars.size())); for (auto& c : x) c = c + ref::C(ref::R(5) / 64, ref::R(3) / 32); ref::C lam(ref::R(g.range(3, 40)) / 16, ref::R(g.range(1, 9)) / 32); auto y = x; for (size_t i = 0; i < x.size(); ++i) if (set[i]) y[i] = x[i] * lam;
		auto a = ref::eval(e, x), b = ref::eval(e, y); if (a.bad || b.bad) { g.label("scaling point rejected"); return; }
		ref::C f(1); for (int i = 0; i < std::abs(deg); ++i) f = f * lam; if (deg < 0) f = ref::C(1) / f;
		bool ok = ref::close(b.v, a.v * f, ref::R("1e-200") * (b.e + ref::mag(b.v) + a.e * ref::mag(f) + 1));
		if (!ok && deg < 0) { for (int k = -80; k <= 80 && !ok; ++k) { ref::C q(1); for (int i = 0; i < std::abs(k); ++i) q = q * lam; if (k < 0) q = ref::C(1) / q; ok = ref::close(b.v, a.v * q, ref::R("1e-200") * (b.e + ref::mag(b.v) + a.e * ref::mag(q) + 1)); } } // quotients have no polynomial degree; any power will do
		PBT_CHECK(ok, tag << "reported homogeneous in " << w << " but does not scale with the power of its degree " << deg); };
	scale(h, s, d, shows(s));
	int i = g.below(vars.size()); std::vector<bool> one(vars.size()); one[i] = true; scale(n->IsHomogeneous(vars[i]), one, n->Degree(vars[i]), shows(one));
}

static void expressions(Gen& g) {
	ref::GenCfg c; c.nvars = g.range(1, 4); c.depth = 5; c.funcs = true;
	switch (g.below(3)) { case 0: case 1: c.poly = true; c.maxpow = 3; break; default: c.depth = 4; }
	ref::ExprGen eg(g, c); auto e = eg.gen(g.range(1, c.depth));
	set_prec(30); auto vars = make_vars(c.nvars); Builder b(g, vars); NodeP n = b.build(e);
	if (g.chance(50)) set_point(vars, ref::point(g, c.nvars)); // whatever the variables hold must not matter
	g.note("f = " + ref::show(e)); auto s = subset(g, c.nvars); g.note("group " + shows(s));
	NodeP top = g.chance(25) ? NodeP(Function::Make(n, "f")) : n;
	judge(g, e, top, vars, s, ""); judge_hom(g, e, top, vars, s, "", -1);
	ref::Poly p; if (c.poly && ref::expand(e, c.nvars, p, 300)) { std::vector<int> idx; for (int i = 0; i < c.nvars; ++i) if (s[i]) idx.push_back(i); int d = top->Degree(grp(vars, s)); PBT_CHECK(d >= p.degree(idx), "reported degree " << d << " is below the degree " << p.degree(idx) << " of the expanded polynomial"); if (top->IsHomogeneous(grp(vars, s)) && !p.zero()) PBT_CHECK(p.homogeneous(idx), "reported homogeneous but the expanded polynomial has terms of different degree"); }
	if (e->size >= 4) g.nontrivial();
}
static void homogeneous(Gen& g) {
	ref::GenCfg c; c.nvars = g.range(1, 4); ref::ExprGen eg(g, c); auto s = subset(g, c.nvars); int deg = g.range(0, 4);
	auto e = homsum(g, eg, s, deg, g.range(0, 3)); set_prec(30); auto vars = make_vars(c.nvars); Builder b(g, vars); g.note("f = " + ref::show(e) + " group " + shows(s));
	NodeP n = b.build(e); judge(g, e, n, vars, s, ""); judge_hom(g, e, n, vars, s, "", deg);
	// spoil it: add a term of another degree
	int od = g.range(0, 5); if (od == deg) od = deg + 1; auto t = homterm(g, eg, s, od, g.range(0, 1)); auto sp = g.chance(50) ? ref::sum({e, t}, {true, !g.chance(40)}) : ref::sum({t, e}, {true, !g.chance(40)});
	if (g.chance(30)) sp = ref::mult({ref::var(g.below(c.nvars)), sp}, {true, true});
	NodeP m = b.build(sp); g.note("spoiled: " + ref::show(sp)); judge(g, sp, m, vars, s, "spoiled: "); judge_hom(g, sp, m, vars, s, "spoiled: ", -1);
	PBT_CHECK(!m->IsHomogeneous(grp(vars, s)), "a sum of terms of degrees " << deg << " and " << od << " in " << shows(s) << " is reported homogeneous");
	g.nontrivial();
}
static void systems(Gen& g) {
	int nv = g.range(1, 4); ref::GenCfg c; c.nvars = nv; c.depth = 3; c.poly = !g.chance(20); c.maxpow = 3; c.transcend = true; c.share = false; ref::ExprGen eg(g, c); set_prec(30); auto vars = make_vars(nv); Builder b(g, vars);
	std::vector<std::vector<bool>> groups; { std::vector<int> lab(nv); int k = g.range(1, std::min(nv, 2)); for (int i = 0; i < nv; ++i) lab[i] = g.below(k); for (int q = 0; q < k; ++q) { std::vector<bool> s(nv); bool any = false; for (int i = 0; i < nv; ++i) if (lab[i] == q) s[i] = any = true; if (any) groups.push_back(s); } }
	bertini::System sys; bool homgroups = g.chance(50); std::vector<ref::P> f; int nf = g.range(1, 3);
	for (auto& s : groups) { if (homgroups) sys.AddHomVariableGroup(grp(vars, s)); else sys.AddVariableGroup(grp(vars, s)); g.note((homgroups ? "hom group " : "group ") + shows(s)); }
	for (int i = 0; i < nf; ++i) { std::vector<bool> all(nv, true); auto e = g.chance(50) ? homsum(g, eg, groups[g.below(groups.size())], g.range(1, 3), 2) : eg.gen(3); f.push_back(e); g.note("f" + std::to_string(i) + " = " + ref::show(e)); sys.AddFunction(b.build(e)); }
	std::vector<bool> all(nv, true); auto d = sys.Degrees(); PBT_CHECK(int(d.size()) == nf, "Degrees() length");
	bool poly = true, unknown = false, hom = true; int bound = -1;
	for (int i = 0; i < nf; ++i) { int w = ref::sdeg(f[i], all); if (w != -2) PBT_CHECK((w < 0) == (d[i] < 0) && (w < 0 || w == d[i]), "system degree of f" << i << " reported " << d[i] << " by structure " << w); if (w < 0) poly = false; if (w == -2) unknown = true; bound = std::max(bound, w);
		for (auto& s : groups) { auto dg = sys.Degrees(grp(vars, s)); int wg = ref::sdeg(f[i], s); if (wg == -2) unknown = true; else { PBT_CHECK((wg < 0) == (dg[i] < 0) && (wg < 0 || wg == dg[i]), "system degree of f" << i << " in " << shows(s) << " reported " << dg[i] << " by structure " << wg); } judge_hom(g, f[i], sys.Function(i), vars, s, "system function: ", -1); if (!sys.Function(i)->IsHomogeneous(grp(vars, s))) hom = false; } }
	if (!unknown) { PBT_CHECK(sys.IsPolynomial() == poly, "system reports polynomial = " << sys.IsPolynomial()); if (poly) PBT_CHECK(sys.DegreeBound() == bound, "DegreeBound " << sys.DegreeBound() << " expected " << bound); }
	if (homgroups) PBT_CHECK(sys.IsHomogeneous() == hom, "system reports homogeneous = " << sys.IsHomogeneous() << " but its functions say " << hom);
	if (poly && !unknown) { // reordering by degree
		bertini::System s2 = sys; bool dec = g.chance(50); if (dec) s2.ReorderFunctionsByDegreeDecreasing(); else s2.ReorderFunctionsByDegreeIncreasing(); auto d2 = s2.Degrees(s2.Variables()), d1 = sys.Degrees(sys.Variables());
		for (size_t i = 1; i < d2.size(); ++i) PBT_CHECK(dec ? d2[i - 1] >= d2[i] : d2[i - 1] <= d2[i], "functions not ordered by degree"); std::sort(d1.begin(), d1.end()); std::sort(d2.begin(), d2.end()); PBT_CHECK(d1 == d2, "reordering changed the set of degrees"); }
	g.nontrivial();
}

int main(int argc, char** argv) {
	Suite s; s.property = "P03";
	s.subs = {
		{"expressions", "a polynomial or general expression DAG in 1-4 variables and a subset of them as the group; degrees, multidegree, polynomiality and homogeneity against the definition, finite differences along lines, scaling and exact expansion; non-trivial = size >= 4.", 16000, 200000, expressions},
		{"homogeneous", "expressions homogeneous in a group by construction, then spoiled with a term of another degree; all cases non-trivial.", 10000, 150000, homogeneous},
		{"systems", "systems of 1-3 functions over one or two groups, affine or homogeneous; degrees, degree bound, polynomial and homogeneous reports, reordering by degree; all cases non-trivial.", 6000, 60000, systems},
	};
	s.assumptions = {"structural degree is compared exactly except for degenerate forms (zeroth powers of non-polynomials, non-literal exponents), where only soundness is judged"};
	return run_main(s, argc, argv);
}
