// P06: saved objects reload to behave identically.
#include "world.hpp"
#include "polygen.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/system/slice.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/shared_ptr.hpp>
using namespace b2; using namespace pbt; using ref::C; using ref::R; using Cd = std::complex<double>; using namespace bertini::node;
typedef unsigned long long ull;
template<class T> std::string save(T const& x) { std::stringstream s; { boost::archive::text_oarchive a(s); a << x; } return s.str(); }
template<class T> void load(std::string const& t, T& x) { std::stringstream s(t); boost::archive::text_iarchive a(s); a >> x; }
template<class T> std::string text(T const& n) { std::ostringstream o; o.precision(17); o << n; return o.str(); }

struct Bundle { std::vector<VarP> vars; std::vector<NodeP> nodes; template<class A> void serialize(A& ar, unsigned) { if (order) { ar & vars; ar & nodes; } else { ar & nodes; ar & vars; } } bool order = true; };
static R tol2(R const& eps, R const& b) { return eps * R(20000) * b + eps * eps * R(1e12); } // the last term: products of two rounding errors
static void exprs(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); int nv = g.range(1, 3); ref::GenCfg c; c.nvars = nv; c.depth = g.range(0, 4); c.funcs = true; c.poly = g.chance(30); ref::ExprGen eg(g, c); int k = g.range(1, 3); std::vector<P> es; for (int i = 0; i < k; ++i) es.push_back(eg.gen(g.range(0, c.depth)));
	Bundle b; b.vars = make_vars(nv); Builder bl(g, b.vars); std::vector<P> model, base; std::vector<int> jac; std::string desc;
	for (auto& e : es) { base.push_back(e); auto n = bl.build(e); int how = g.below(5); if (how == 1) { int v = g.below(nv); b.nodes.push_back(n->Differentiate(b.vars[v])); model.push_back(ref::diff(e, v)); jac.push_back(-1); desc += "d/dx" + std::to_string(v) + " "; } else if (how == 2) { b.nodes.push_back(Jacobian::Make(n->Differentiate())); model.push_back(e); jac.push_back(1); desc += "Jacobian of "; } else { b.nodes.push_back(n); model.push_back(e); jac.push_back(-1); } desc += ref::show(e) + "\n"; }
	g.note(desc); b.order = g.chance(50);
	auto pt0 = ref::point(g, nv); set_point(b.vars, pt0); set_point(b.vars, pt0, p);
	auto look = [&](Bundle& B, char const* who) { auto pt = ref::point(g, nv); auto q = ref::lift(pt); set_point(B.vars, pt); set_point(B.vars, pt, p); for (size_t i = 0; i < B.nodes.size(); ++i) B.nodes[i]->Reset();
		for (size_t i = 0; i < B.nodes.size(); ++i) { auto v = ref::eval(model[i], q); if (v.bad || ref::eval(base[i], q).bad) { g.label("point rejected"); continue; } bool mp = g.chance(50); R eps = mp ? eps_of(p) : eps_dbl();
			if (jac[i] > 0) { auto J = std::dynamic_pointer_cast<Jacobian>(B.nodes[i]); PBT_CHECK(J, "a Jacobian came back as something else"); for (int x = 0; x < nv; ++x) { C got = mp ? up(J->EvalJ<mpfr_complex>(B.vars[x])) : up(J->EvalJ<dbl>(B.vars[x])); PBT_CHECK(ref::close(got, v.d[x], tol2(eps, v.de[x] + ref::mag(v.d[x]))), who << ": derivative " << x << " of expression " << i << " is " << b2::str(got) << ", expected " << b2::str(v.d[x])); } }
			else { C got; if (mp) { auto z = B.nodes[i]->Eval<mpfr_complex>(); PBT_CHECK(prec_of(z) == p, who << ": precision " << prec_of(z)); got = up(z); } else got = up(B.nodes[i]->Eval<dbl>()); PBT_CHECK(ref::close(got, v.v, tol2(eps, v.e + ref::mag(v.v))), who << ": expression " << i << " has value " << b2::str(got) << ", expected " << b2::str(v.v)); } g.nontrivial(); } };
	if (g.chance(50)) look(b, "before saving");
	std::vector<std::string> t0; for (auto& n : b.nodes) t0.push_back(text(*n)); std::string s = save(b); Bundle c2; c2.order = b.order; load(s, c2);
	PBT_CHECK(c2.vars.size() == b.vars.size() && c2.nodes.size() == b.nodes.size(), "number of things"); for (int i = 0; i < nv; ++i) { PBT_CHECK(c2.vars[i]->name() == b.vars[i]->name(), "variable name"); PBT_CHECK(c2.vars[i] != b.vars[i], "not a new variable"); }
	for (size_t i = 0; i < b.nodes.size(); ++i) { PBT_CHECK(text(*b.nodes[i]) == t0[i], "the original prints differently after saving"); PBT_CHECK(text(*c2.nodes[i]) == t0[i], "prints as " << text(*c2.nodes[i]) << " after reloading, was " << t0[i]); PBT_CHECK(typeid(*c2.nodes[i]) == typeid(*b.nodes[i]), "type changed");
		if (jac[i] < 0) { VarGroup ga(b.vars.begin(), b.vars.end()), gb(c2.vars.begin(), c2.vars.end()); PBT_CHECK(b.nodes[i]->Degree(ga) == c2.nodes[i]->Degree(gb), "degree changed"); PBT_CHECK(b.nodes[i]->MultiDegree(ga) == c2.nodes[i]->MultiDegree(gb), "multidegree changed"); PBT_CHECK(b.nodes[i]->IsPolynomial(ga) == c2.nodes[i]->IsPolynomial(gb), "polynomial changed"); PBT_CHECK(b.nodes[i]->IsHomogeneous(ga) == c2.nodes[i]->IsHomogeneous(gb), "homogeneous changed"); } }
	for (size_t i = 0; i < b.nodes.size(); ++i) for (size_t j = 0; j < b.nodes.size(); ++j) PBT_CHECK((b.nodes[i] == b.nodes[j]) == (c2.nodes[i] == c2.nodes[j]), "sharing changed");
	int rounds = g.range(1, 3); for (int r = 0; r < rounds; ++r) { look(c2, "reloaded"); look(b, "original"); }
	for (size_t i = 0; i < b.nodes.size(); ++i) if (jac[i] < 0) { int v = g.below(nv); auto d = c2.nodes[i]->Differentiate(c2.vars[v]); auto pt = ref::point(g, nv); auto w = ref::eval(model[i], ref::lift(pt)); if (w.bad || ref::eval(base[i], ref::lift(pt)).bad) continue; set_point(c2.vars, pt); d->Reset(); C got = up(d->Eval<dbl>()); PBT_CHECK(ref::close(got, w.d[v], tol2(eps_dbl(), w.de[v] + ref::mag(w.d[v]))), "derivative of the reloaded expression " << i << " is " << b2::str(got) << ", expected " << b2::str(w.d[v])); }
	if (g.chance(40)) { unsigned q = some_prec(g); set_prec(q); for (auto& n : c2.nodes) n->precision(q); for (auto& v : c2.vars) v->precision(q); p = q; g.note("then precision " + std::to_string(q)); auto keep = p; look(c2, "reloaded, other precision"); (void)keep; }
}
static void linears(Gen& g) { // products of linears and their differentials
	unsigned p = some_prec(g); set_prec(p); int nv = g.range(1, 3), nf = g.range(1, 3); auto vars = make_vars(nv + 1); VarGroup grp(vars.begin(), vars.begin() + nv); bool homv = g.chance(30), given = g.chance(40); std::shared_ptr<LinearProduct> lp; std::ostringstream o; o << nf << " linears in " << nv << " variables" << (homv ? ", homogeneous" : "") << (given ? ", given" : ", random") << " @" << p;
	if (given) { bertini::Mat<mpfr_complex> m(nf, nv + 1); for (int i = 0; i < nf; ++i) for (int j = 0; j <= nv; ++j) m(i, j) = lift(ref::coord(g), p); lp = LinearProduct::Make(grp, m, homv); } else lp = LinearProduct::Make(grp, nf, homv);
	if (!homv && g.chance(50)) { lp->Homogenize(grp, vars[nv]); o << " homogenized"; } g.note(o.str());
	Bundle b; b.vars = vars; b.nodes.push_back(lp); b.nodes.push_back(Jacobian::Make(lp->Differentiate())); int dv = g.below(nv + 1); b.nodes.push_back(lp->Differentiate(vars[dv])); b.order = g.chance(50); NodeP alone; 
	std::string s = save(b); Bundle c; c.order = b.order; load(s, c); PBT_CHECK(c.nodes.size() == 3 && c.vars.size() == vars.size(), "number of things"); for (int i = 0; i < 3; ++i) PBT_CHECK(text(*c.nodes[i]) == text(*b.nodes[i]), "text changed");
	auto look = [&](Bundle& B, std::vector<Cd> const& pt) { set_point(B.vars, pt); set_point(B.vars, pt, p); for (auto& n : B.nodes) n->Reset(); std::vector<C> r; for (int i : {0, 2}) { r.push_back(up(B.nodes[i]->Eval<dbl>())); auto z = B.nodes[i]->Eval<mpfr_complex>(); r.push_back(up(z)); PBT_CHECK(prec_of(z) == p, "precision " << prec_of(z)); } auto J = std::dynamic_pointer_cast<Jacobian>(B.nodes[1]); for (int v = 0; v <= nv; ++v) { r.push_back(up(J->EvalJ<dbl>(B.vars[v]))); r.push_back(up(J->EvalJ<mpfr_complex>(B.vars[v]))); } return r; };
	for (int k = 0; k < 3; ++k) { if (k == 2 && !given) { p = some_prec(g); set_prec(p); for (auto* B : {&b, &c}) { for (auto& n : B->nodes) n->precision(p); for (auto& v : B->vars) v->precision(p); } } auto pt = ref::point(g, nv + 1); auto x = look(b, pt), y = look(c, pt); for (size_t i = 0; i < x.size(); ++i) PBT_CHECK(x[i] == y[i], "value " << i << " is " << b2::str(y[i]) << " after reloading, was " << b2::str(x[i])); }
	g.nontrivial();
}
static void settings(Gen& g, bertini::System const& a, bertini::System const& b) {
	PBT_CHECK(a.NumVariables() == b.NumVariables() && a.NumNaturalFunctions() == b.NumNaturalFunctions() && a.NumTotalFunctions() == b.NumTotalFunctions() && a.NumVariableGroups() == b.NumVariableGroups() && a.NumHomVariableGroups() == b.NumHomVariableGroups() && a.NumUngroupedVariables() == b.NumUngroupedVariables() && a.NumHomVariables() == b.NumHomVariables() && a.NumPatches() == b.NumPatches() && a.NumConstants() == b.NumConstants() && a.NumParameters() == b.NumParameters() && a.NumImplicitParameters() == b.NumImplicitParameters(), "numbers of things changed");
	PBT_CHECK(a.HavePathVariable() == b.HavePathVariable() && a.IsPatched() == b.IsPatched() && a.IsHomogeneous() == b.IsHomogeneous() && a.IsPolynomial() == b.IsPolynomial(), "kind changed"); PBT_CHECK(a.precision() == b.precision(), "precision changed"); PBT_CHECK(a.GetEvalMethod() == b.GetEvalMethod() && a.GetDerivMethod() == b.GetDerivMethod(), "method changed"); PBT_CHECK(a.IsAutoSimplifying() == b.IsAutoSimplifying(), "autosimplify changed");
	auto u = a.Variables(), v = b.Variables(); PBT_CHECK(u.size() == v.size(), "ordering size"); for (size_t i = 0; i < u.size(); ++i) PBT_CHECK(u[i]->name() == v[i]->name(), "variable " << i << " is called " << v[i]->name() << ", was " << u[i]->name()); for (size_t i = 0; i < a.NumNaturalFunctions(); ++i) { PBT_CHECK(a.Function(i)->name() == b.Function(i)->name(), "function name " << i); } PBT_CHECK(a.VariableGroupSizes() == b.VariableGroupSizes(), "group sizes");
	if (a.IsPolynomial()) PBT_CHECK(a.Degrees() == b.Degrees(), "degrees changed"); if (a.HavePathVariable()) PBT_CHECK(a.GetPathVariable()->name() == b.GetPathVariable()->name(), "path variable's name");
}
static void systems(Gen& g) {
	SysCfg c; c.maxv = 4; c.depth = 3; c.poly = g.chance(70); auto s = gen_spec(g, c); unsigned prec = some_prec(g); set_prec(prec); Built b0 = build(g, s); g.note(s.show() + "\nprecision " + std::to_string(prec)); World w(g, s, std::move(b0)); w.prec = prec;
	if (g.chance(70)) w.configure(false); if (g.chance(40)) { bool as = g.chance(50); w.b.sys.SetAutoSimplify(as); }
	if (c.poly && g.chance(45)) { w.homog(); if (g.chance(70)) w.patch(); }
	if (g.chance(30)) { w.prec = some_prec(g); set_prec(w.prec); w.b.sys.precision(w.prec); g.note("precision " + std::to_string(w.prec)); w.hm.x = w.hm.t = false; }
	int pre = g.below(3); for (int i = 0; i < pre; ++i) { if (g.chance(50)) w.call<dbl>(); else w.call<mpfr_complex>(); } if (g.chance(15)) { w.b.sys.Differentiate(); w.forget(); }
	World v = w; int times = g.range(1, 2); for (int k = 0; k < times; ++k) { bool dirty = g.chance(30); bertini::System fresh; if (dirty) { auto z = Variable::Make("zz"); fresh.AddVariableGroup({z}); fresh.AddFunction(pow(z, 2) - 1); if (g.chance(50)) { fresh.Homogenize(); fresh.AutoPatch(); Vec<dbl> q(2); q(0) = 1; q(1) = 2; fresh.Eval(q); } } g.note(dirty ? "save, load over another system" : "save and load"); load(save(v.b.sys), fresh); v.b.sys = fresh; v.forget(); settings(g, w.b.sys, v.b.sys); }
	int steps = g.range(2, 7); w.comparisons = v.comparisons = 0; for (int i = 0; i < steps; ++i) { bool which = g.chance(70); World& x = which ? v : w; g.note(which ? "reloaded:" : "original:"); x.prec = w.prec; switch (g.weighted({6, 5, 1, 1, 1})) { case 0: x.call<dbl>(); break; case 1: x.call<mpfr_complex>(); break; case 2: x.configure(true); break; case 3: if (c.poly && !x.homd && g.chance(50)) x.homog(); else x.patch(); break; default: w.prec = v.prec = some_prec(g); set_prec(w.prec); w.b.sys.precision(w.prec); v.b.sys.precision(w.prec); w.hm.x = w.hm.t = v.hm.x = v.hm.t = false; g.note("both at precision " + std::to_string(w.prec)); } }
	if (v.comparisons >= 1) g.nontrivial();
}
template<class SS> void same_points(Gen& g, SS const& a, SS const& b, unsigned p, bool eval) {
	ull n = a.NumStartPoints(); PBT_CHECK(n == b.NumStartPoints(), "number of start points changed from " << n << " to " << b.NumStartPoints()); for (int k = 0; k < 5 && n; ++k) { ull i = g.below(n); auto x = a.template StartPoint<dbl>(i), y = b.template StartPoint<dbl>(i); PBT_CHECK(x.size() == y.size() && x == y, "start point " << i << " changed in double precision"); auto u = a.template StartPoint<mpfr_complex>(i), v = b.template StartPoint<mpfr_complex>(i); PBT_CHECK(u.size() == v.size(), "start point size"); for (int j = 0; j < u.size(); ++j) { PBT_CHECK(up(u(j)) == up(v(j)) && prec_of(v(j)) == p, "start point " << i << " changed in multiple precision"); }
		if (eval) { auto f = a.Eval(x); auto h = b.Eval(x); PBT_CHECK(f.size() == h.size() && f == h, "values of the start system changed"); auto F = a.Eval(u); auto H = b.Eval(u); for (int j = 0; j < F.size(); ++j) PBT_CHECK(up(F(j)) == up(H(j)), "multiprecision values of the start system changed"); auto J = a.Jacobian(x); auto K = b.Jacobian(x); PBT_CHECK(J == K, "Jacobian of the start system changed"); g.nontrivial(); } }
}
static void starts(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); SysSpec s; bool hom = g.chance(60); int kind = g.below(3), ng = kind == 0 ? 1 : g.range(1, 2), n = 0; std::vector<std::vector<int>> t; for (int k = 0; k < ng; ++k) { bool h = kind == 1 && hom && g.chance(35); int sz = g.range(1, 2) + h; std::vector<int> v; for (int i = 0; i < sz; ++i) v.push_back(s.nv++); s.groups.push_back({h ? SysSpec::Hom : SysSpec::Affine, v}); n += sz - h; } for (int i = 0; i < n; ++i) { std::vector<int> d; for (int k = 0; k < ng; ++k) d.push_back(g.range(1, 3)); t.push_back(d); } fill_functions(g, s, t); Built b = build(g, s); bool aff = false; for (auto& q : s.groups) aff |= q.kind == SysSpec::Affine; if (hom) { if (aff) b.sys.Homogenize(); b.sys.AutoPatch(); }
	const char* kn[] = {"total degree", "multihomogeneous", "user"}; g.note(s.show() + "\n" + kn[kind] + (hom ? ", homogenized" : "")); g.label(kn[kind]); bool ptr = g.chance(50); bool used = g.chance(50);
	using namespace bertini::start_system;
	if (kind == 0) { auto a = std::make_shared<TotalDegree>(b.sys); a->precision(p); if (used && a->NumStartPoints()) a->Eval(a->StartPoint<dbl>(0)); if (ptr) { std::shared_ptr<TotalDegree> r; load(save(a), r); same_points(g, *a, *r, p, true); } else { TotalDegree r; load(save(*a), r); same_points(g, *a, r, p, true); settings(g, *a, r); } unsigned q = some_prec(g); TotalDegree r; load(save(*a), r); set_prec(q); a->precision(q); r.precision(q); same_points(g, *a, r, q, true); }
	if (kind == 1) { auto a = std::make_shared<MHomogeneous>(b.sys); a->precision(p); if (used && a->NumStartPoints()) a->Eval(a->StartPoint<dbl>(0)); if (ptr) { std::shared_ptr<MHomogeneous> r; load(save(a), r); same_points(g, *a, *r, p, true); } else { MHomogeneous r; load(save(*a), r); same_points(g, *a, r, p, true); settings(g, *a, r); } unsigned q = some_prec(g); MHomogeneous r; load(save(*a), r); set_prec(q); a->precision(q); r.precision(q); same_points(g, *a, r, q, true); }
	if (kind == 2) { bool mp = g.chance(50); unsigned m = g.range(1, 4), nv = b.sys.NumVariables(); bertini::SampCont<dbl> d; bertini::SampCont<mpfr_complex> z; for (unsigned i = 0; i < m; ++i) { std::vector<Cd> x; for (unsigned j = 0; j < nv; ++j) x.push_back(ref::coord(g)); d.push_back(vec<dbl>(x, 16)); z.push_back(vec<mpfr_complex>(x, p)); if (mp) { auto third = z.back(); for (unsigned j = 0; j < nv; ++j) z.back()(j) /= lift(Cd(3, 0), p); } } auto a = mp ? std::make_shared<User>(b.sys, z) : std::make_shared<User>(b.sys, d); { std::shared_ptr<User> r; load(save(a), r); same_points(g, *a, *r, p, false); } g.nontrivial(); }
}
static void patches(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); std::vector<unsigned> sz; int ng = g.range(1, 3), n = 0; for (int i = 0; i < ng; ++i) { sz.push_back(g.range(1, 4)); n += sz.back(); } bertini::Patch a = g.chance(30) ? bertini::Patch::RandomReal(sz) : g.chance(30) ? bertini::Patch::Random(sz) : bertini::Patch(sz); g.note("patch of " + std::to_string(ng) + " groups, " + std::to_string(n) + " variables @" + std::to_string(p)); a.Precision(p); if (g.chance(30)) { p = some_prec(g); set_prec(p); a.Precision(p); }
	std::string t = save(a); if (g.chance(50)) set_prec(some_prec(g)); bertini::Patch b; if (g.chance(40)) b = bertini::Patch(std::vector<unsigned>{2, 3}); load(t, b); set_prec(p); PBT_CHECK(a == b && b == a, "reloaded patch is not equal"); PBT_CHECK(a.NumVariables() == b.NumVariables() && a.NumVariableGroups() == b.NumVariableGroups() && a.Precision() == b.Precision(), "shape or precision changed");
	for (int k = 0; k < 3; ++k) { if (k == 2) { p = some_prec(g); set_prec(p); a.Precision(p); b.Precision(p); g.note("then precision " + std::to_string(p)); } std::vector<Cd> pt; for (int i = 0; i < n; ++i) pt.push_back(unitish(g)); auto x = vec<dbl>(pt, p); auto z = vec<mpfr_complex>(pt, p); Vec<dbl> fa = a.Eval(x), fb = b.Eval(x); PBT_CHECK(fa.size() == fb.size() && fa == fb, "double values changed"); Vec<mpfr_complex> ga = a.Eval(z), gb = b.Eval(z); for (int i = 0; i < ga.size(); ++i) PBT_CHECK(up(ga(i)) == up(gb(i)) && prec_of(gb(i)) == p, "multiprecision values changed"); auto J = a.Jacobian(x); auto K = b.Jacobian(x); PBT_CHECK(J == K, "jacobian changed"); } g.nontrivial();
}
static mpfr_float some_float(Gen& g, unsigned p) { mpfr_float x; x.precision(p); int k = g.below(12); if (k == 0) { x = 0; return x; } if (k == 1) { x = g.chance(50) ? 1 : -1; return x; } mpfr_float y; y.precision(p); y = 0; mpfr_float sc; sc.precision(p); sc = 1; for (int i = 0; i < int(p) / 9 + 2; ++i) { sc /= 1000000000; y += sc * (unsigned long)g.below(1000000000); } int e = k < 6 ? 0 : k < 9 ? g.range(-40, 40) : g.range(-900, 900); mpfr_float ten; ten.precision(p); ten = 10; if (e > 0) for (int i = 0; i < e; ++i) y *= ten; else for (int i = 0; i < -e; ++i) y /= ten; if (g.chance(50)) y = -y; return y; }
static void numbers(Gen& g) {
	unsigned p = some_prec(g), q = some_prec(g); set_prec(p); int kind = g.below(8); g.label(std::to_string(kind)); g.nontrivial(); auto cx = [&](unsigned pp) { mpfr_complex z; z.precision(pp); z = mpfr_complex(some_float(g, pp), some_float(g, pp)); z.precision(pp); return z; }; auto info = [&](std::string const& s) { g.note(s); };
	if (kind == 0) { auto x = some_float(g, p); auto before = x; info(x.str() + " @" + std::to_string(p)); std::string t = save(x); set_prec(q); mpfr_float y; load(t, y); PBT_CHECK(x == y, "reloaded as " << y.str()); PBT_CHECK(y.precision() == x.precision(), "precision " << y.precision() << ", was " << x.precision()); PBT_CHECK(x == before, "saving disturbed it"); }
	if (kind == 1) { auto x = cx(p); info(x.str() + " @" + std::to_string(p)); std::string t = save(x); set_prec(q); mpfr_complex y; load(t, y); PBT_CHECK(x == y, "reloaded as " << y.str()); PBT_CHECK(y.precision() == x.precision(), "precision " << y.precision() << ", was " << x.precision()); }
	if (kind == 2) { mpz_int x = g.small_int(1000); for (int i = g.below(30); i > 0; --i) x = x * 1000000007 + (long)g.below(1000000); info(x.str()); mpz_int y; load(save(x), y); PBT_CHECK(x == y, "reloaded as " << y.str()); }
	if (kind == 3) { mpz_int n = g.small_int(1000), d = g.range(1, 1000); for (int i = g.below(12); i > 0; --i) { n = n * 1000000007 + (long)g.below(1000000); d = d * 998244353 + (long)g.below(1000); } mpq_rational x(n, d); info(x.str()); mpq_rational y; load(save(x), y); PBT_CHECK(x == y, "reloaded as " << y.str()); }
	if (kind == 4 || kind == 5) { int r = g.range(0, 4), c = kind == 4 ? 1 : g.range(0, 3); bertini::Mat<mpfr_complex> m(r, c), k; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = cx(p); if (g.chance(40)) { k.resize(g.range(0, 3), g.range(0, 3)); } std::string t = save(m); set_prec(q); load(t, k); PBT_CHECK(k.rows() == r && k.cols() == c, "size"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) PBT_CHECK(m(i, j) == k(i, j) && prec_of(m(i, j)) == prec_of(k(i, j)), "entry (" << i << "," << j << ") reloaded as " << k(i, j).str() << ", was " << m(i, j).str()); }
	if (kind == 6) { int r = g.range(0, 4), c = g.range(0, 3); bertini::Mat<dbl> m(r, c), k; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { double a, b; uint64_t u = g.bits(); std::memcpy(&a, &u, 8); u = g.bits(); std::memcpy(&b, &u, 8); if (!std::isfinite(a) || g.chance(20)) a = g.small_int(10) / 7.; if (!std::isfinite(b) || g.chance(20)) b = 0; m(i, j) = dbl(a, b); } load(save(m), k); PBT_CHECK(k.rows() == r && k.cols() == c && m == k, "double matrix changed"); }
	if (kind == 7) { int n = g.range(0, 5); bertini::Vec<mpfr_complex> v(n), w; for (int i = 0; i < n; ++i) v(i) = cx(p); std::string t = save(v); set_prec(q); load(t, w); PBT_CHECK(w.size() == n, "size"); for (int i = 0; i < n; ++i) PBT_CHECK(v(i) == w(i) && prec_of(v(i)) == prec_of(w(i)), "entry " << i); }
}
int main(int argc, char** argv) {
	Suite s; s.property = "P06"; s.assumptions = {"Expressions, systems and start systems are loaded while the default precision is the one they were saved at; numbers, matrices and patches under any.", "Values of variables are not part of what is saved: a point is set after loading."};
	s.subs = {
		{"exprs", "1-3 expressions over shared variables, as they are, differentiated or as Jacobians, saved with their variables in one archive; text, type, degrees, sharing, then values and derivatives of original and reloaded at several points against the reference; non-trivial: at least one compared point.", 6000, 60000, exprs},
		{"linears", "linear products (random or given coefficients, homogenized or not), their derivatives and Jacobians; all non-trivial.", 1200, 12000, linears},
		{"systems", "generated systems in any state (methods, homogenized, patched, differentiated, evaluated, precision) saved and loaded once or twice, over an empty or another system; then calls and further operations on both; non-trivial: at least one comparison on the reloaded system.", 6000, 60000, systems},
		{"starts", "total degree, multihomogeneous and user start systems by value and by pointer: start points, values and Jacobians; non-trivial: at least one start point.", 800, 8000, starts},
		{"patches", "patches, loaded over empty or other ones, at other precisions; all non-trivial.", 1500, 15000, patches},
		{"numbers", "multiprecision floats and complex numbers of magnitudes 1e-900 to 1e900, integers, rationals, vectors and matrices (empty ones too), double matrices from random bits, loaded at another default precision; all non-trivial.", 6000, 60000, numbers},
	}; return run_main(s, argc, argv);
}
