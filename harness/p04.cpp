// Homogenization and dehomogenization.
#include "sysgen.hpp"
using namespace pbt; using namespace b2; using ref::Op; using ref::P;

static std::vector<std::complex<double>> hpoint(Gen& g, SysSpec const& s, HomSpec const& h, bool ones) { // values indexed by reference variable
	int n = s.total(); for (int v : h.homvar) n = std::max(n, v + 1); auto p = ref::point(g, n); for (int v : h.homvar) if (v >= 0) p[v] = ones ? std::complex<double>(1) : unitish(g); return p; }

template<class T> static void compare(Gen& g, SysSpec const& s, HomSpec const& h, bertini::System const& sys, std::vector<std::complex<double>> const& p, unsigned prec, std::string const& what) {
	std::vector<std::complex<double>> o; for (int v : h.order) o.push_back(p[v]); auto x = vec<T>(o, prec);
	for (auto& e : h.f) if (ref::eval(e, ref::lift(p)).bad) { g.label("point rejected"); return; }
	bertini::Vec<T> r; if (s.path) { T t = scal<T>(p[s.nv], prec); r = sys.Eval(x, t); } else r = sys.Eval(x);
	PBT_CHECK(r.size() == long(s.f.size()), what << "wrong number of values"); auto q = ref::lift(p);
	for (size_t i = 0; i < s.f.size(); ++i) { auto v = ref::eval(h.f[i], q); if (v.bad) { g.label("point rejected"); continue; }
		ref::R tol = eps_for<T>(prec) * ref::R(4000) * (v.e + ref::mag(v.v)); PBT_CHECK(ref::close(up(r(i)), v.v, tol), what << "homogenized function " << i << " has value " << str(up(r(i))) << ", expected " << str(v.v) << " tolerance " << tol.str(3)); }
}

static void systems(Gen& g) {
	SysCfg c; c.maxv = 5; c.depth = 4; c.maxf = 3; auto s = gen_spec(g, c); unsigned prec = g.chance(50) ? 30 : some_prec(g); set_prec(prec);
	Built b = build(g, s); g.note(s.show()); auto h = homogenize(s); if (!h.ok) discard("not polynomial by structure");
	for (auto& d : h.deg) for (int x : d) if (x > 14) discard("degree too large");
	auto& sys = b.sys;
	if (g.chance(50)) { sys.SetEvalMethod(g.chance(50) ? bertini::EvalMethod::FunctionTree : bertini::EvalMethod::SLP); }
	HomSpec plain; plain.f = s.f; plain.order = s.order(); plain.homvar.assign(s.groups.size(), -1);
	if (g.chance(40)) { auto p = ref::point(g, s.total()); compare<dbl>(g, s, plain, sys, p, prec, "before homogenization: "); g.label("used before"); }
	if (g.chance(20)) (void)sys.Variables();
	sys.Homogenize(); if (g.chance(20)) { sys.Homogenize(); g.label("homogenized twice"); }
	bool anyaff = false, anyun = false; for (auto& q : s.groups) { anyaff |= q.kind == SysSpec::Affine; anyun |= q.kind == SysSpec::Ungrouped; }
	// variable ordering
	auto ord = sys.Variables(); PBT_CHECK(ord.size() == h.order.size() && sys.NumVariables() == ord.size(), "ordering has " << ord.size() << " variables, expected " << h.order.size());
	PBT_CHECK(sys.NumNaturalVariables() == size_t(s.nv), "natural variables changed"); std::map<int, VarP> hv;
	for (size_t i = 0; i < ord.size(); ++i) { int v = h.order[i]; if (v < s.nv) PBT_CHECK(ord[i] == b.vars[v], "variable " << i << " in the ordering is " << ord[i]->name() << ", expected x" << v); else { for (auto& w : b.vars) PBT_CHECK(ord[i] != w, "a user variable sits in the place of a homogenizing variable"); for (auto& w : hv) PBT_CHECK(w.second != ord[i] && w.second->name() != ord[i]->name(), "homogenizing variables not distinct"); hv[v] = ord[i]; } }
	size_t k = 0; auto sizes = sys.VariableGroupSizes(); for (auto& q : s.groups) if (q.kind != SysSpec::Ungrouped) { size_t want = q.v.size() + (q.kind == SysSpec::Affine); PBT_CHECK(k < sizes.size() && sizes[k] == want, "group size " << k << " reported wrongly"); ++k; } PBT_CHECK(k == sizes.size(), "number of group sizes");
	// degrees and homogeneity
	for (size_t j = 0; j < s.groups.size(); ++j) { if (s.groups[j].kind == SysSpec::Ungrouped) continue; VarGroup G; if (h.homvar[j] >= 0) G.push_back(hv[h.homvar[j]]); for (int v : s.groups[j].v) G.push_back(b.vars[v]);
		auto d = sys.Degrees(G); for (size_t i = 0; i < s.f.size(); ++i) { PBT_CHECK(d[i] == h.deg[i][j], "degree of function " << i << " in group " << j << " is " << d[i] << " after homogenization, was " << h.deg[i][j]); PBT_CHECK(sys.Function(i)->IsHomogeneous(G), "function " << i << " not homogeneous in group " << j); } }
	if (!anyun) PBT_CHECK(sys.IsHomogeneous(), "system reports inhomogeneous after homogenization"); PBT_CHECK(sys.IsPolynomial(), "system no longer polynomial");
	// values
	auto p = hpoint(g, s, h, false); g.note("point " + ref::show(p)); compare<dbl>(g, s, h, sys, p, prec, ""); p = hpoint(g, s, h, false); compare<mpfr_complex>(g, s, h, sys, p, prec, "mp: ");
	{ // homogenizing variables at one: the original functions
		auto p1 = hpoint(g, s, h, true); HomSpec o = h; o.f = s.f; compare<dbl>(g, s, o, sys, p1, prec, "with homogenizing variables at one: "); }
	// dehomogenize
	auto dehom = [&](auto tag) { using T = decltype(tag); auto p2 = hpoint(g, s, h, false); std::vector<std::complex<double>> o; for (int v : h.order) o.push_back(p2[v]); auto x = vec<T>(o, prec); bertini::Vec<T> y = sys.DehomogenizePoint(x); PBT_CHECK(y.size() == s.nv, "dehomogenized point has " << y.size() << " coordinates for " << s.nv << " variables"); size_t at = 0;
		for (size_t j = 0; j < s.groups.size(); ++j) for (int v : s.groups[j].v) { ref::C e = ref::toC(p2[v]); if (h.homvar[j] >= 0) e = e / ref::toC(p2[h.homvar[j]]); PBT_CHECK(ref::close(up(y(at)), e, eps_for<T>(prec) * 20 * (ref::mag(e))), "dehomogenized coordinate " << at << " is " << str(up(y(at))) << ", expected " << str(e)); ++at; } };
	dehom(dbl()); dehom(mpfr_complex());
	if (anyaff) g.nontrivial();
	for (auto& q : s.groups) g.label(q.kind == SysSpec::Affine ? "affine group" : q.kind == SysSpec::Hom ? "homogeneous group" : "ungrouped");
	if (s.path) g.label("path variable");
}

static void expression(Gen& g) {
	ref::GenCfg c; c.nvars = g.range(1, 4); c.depth = 5; c.poly = true; c.maxpow = 3; c.funcs = true; c.share = g.chance(60); ref::ExprGen eg(g, c); auto e = eg.gen(g.range(1, 5)); std::vector<bool> s(c.nvars + 1); int k = 0; for (int i = 0; i < c.nvars; ++i) { s[i] = g.chance(60); k += s[i]; } if (!k) s[0] = true;
	int d = ref::sdeg(e, s); if (d < 0 || d > 14) discard("not polynomial by structure or degree too large"); set_prec(30);
	auto vars = make_vars(c.nvars + 1); Builder b(g, vars); NodeP n = b.build(e); g.note("f = " + ref::show(e)); VarP hvar = vars[c.nvars]; VarGroup G; if (c.share || g.chance(50)) G.push_back(hvar); for (int i = 0; i < c.nvars; ++i) if (s[i]) { G.push_back(vars[i]); g.note("in group: x" + std::to_string(i)); }
	// a lone variable, number or the like is homogenized through its parent, as every function of a system is
	NodeP top = bertini::node::Function::Make(n, "f"); top->Homogenize(G, hvar); VarGroup GH = G; if (GH.empty() || GH[0] != hvar) GH.insert(GH.begin(), hvar);
	std::map<int, P> m; for (int i = 0; i < c.nvars; ++i) if (s[i]) m[i] = ref::mult({ref::var(i), ref::var(c.nvars)}, {true, false}); P want = ref::mult({ref::ipow(ref::var(c.nvars), d), ref::subst(e, m)}, {true, true});
	PBT_CHECK(top->IsHomogeneous(GH), "not homogeneous after homogenization"); PBT_CHECK(top->Degree(GH) == d, "degree " << top->Degree(GH) << " after homogenization, was " << d);
	for (int i = 0; i < 2; ++i) { auto p = ref::point(g, c.nvars + 1); p[c.nvars] = i ? std::complex<double>(1) : unitish(g); set_point(vars, p); top->Reset(); auto v = ref::eval(i ? e : want, ref::lift(p)); if (v.bad) continue; auto got = up(top->Eval<dbl>()); ref::R tol = eps_dbl() * ref::R(4000) * (v.e + ref::mag(v.v)); PBT_CHECK(ref::close(got, v.v, tol), "value " << str(got) << " at " << ref::show(p) << ", expected " << str(v.v)); }
	if (e->size >= 4) g.nontrivial();
}

static void refused(Gen& g) { // systems which cannot be homogenized are refused
	SysCfg c; c.maxv = 4; c.depth = 3; c.maxf = 2; c.time_transcend = false; auto s = gen_spec(g, c); std::vector<int> aff, hom; for (size_t i = 0; i < s.groups.size(); ++i) { if (s.groups[i].kind == SysSpec::Affine) aff.push_back(i); if (s.groups[i].kind == SysSpec::Hom) hom.push_back(i); }
	if (aff.empty() && hom.empty()) discard("no groups"); bool viahom = aff.empty() || (!hom.empty() && g.chance(50)); size_t w = g.below(s.f.size());
	auto& q = s.groups[viahom ? hom[g.below(hom.size())] : aff[g.below(aff.size())]]; P v = ref::var(q.v[g.below(q.v.size())]);
	if (viahom) { int d = ref::sdeg(s.f[w], s.mask(q)); if (d < 0) discard("degenerate"); s.f[w] = ref::sum({s.f[w], ref::ipow(v, d + 1 + g.below(2))}, {true, !g.chance(50)}); }
	else { P bad; switch (g.below(4)) { case 0: bad = ref::mk(Op::Sin, {v}); break; case 1: bad = ref::mult({ref::num(1), v}, {true, false}); break; case 2: bad = ref::mk(Op::Exp, {ref::mult({ref::num(2), v}, {true, true})}); break; default: bad = ref::ipow(v, -2); } s.f[w] = g.chance(50) ? ref::sum({s.f[w], bad}, {true, true}) : ref::mult({ref::sum({s.f[w], v}, {true, true}), bad}, {true, true}); }
	set_prec(30); Built b = build(g, s); g.note(s.show()); bool threw = false; try { b.sys.Homogenize(); } catch (std::exception const&) { threw = true; }
	PBT_CHECK(threw, "a system that is " << (viahom ? "not homogeneous in its homogeneous group" : "not polynomial") << " was homogenized without complaint"); g.nontrivial();
}

int main(int argc, char** argv) {
	Suite s; s.property = "P04";
	s.subs = {
		{"systems", "polynomial systems of 1-3 functions in 1-5 variables, partitioned into affine, homogeneous and ungrouped variables in any order, with shared subexpressions, subfunctions, constants, parameters and path variable; after homogenization (once or twice, fresh or already evaluated): ordering, degrees, homogeneity, values against prod h^D F(x/h) in double and 16-190 digits, values with h=1, dehomogenized points; non-trivial = has an affine group.", 12000, 150000, systems},
		{"expression", "one polynomial expression DAG and a subset of its variables; homogeneity, degree and values after homogenization; non-trivial = size >= 4.", 12000, 150000, expression},
		{"refused", "systems spoiled by a non-polynomial or inhomogeneous term must be refused; all cases non-trivial.", 4000, 40000, refused},
	};
	s.assumptions = {"degrees above 14 are not explored"};
	return run_main(s, argc, argv);
}
