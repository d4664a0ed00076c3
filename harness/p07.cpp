// Every way of evaluating a system gives its mathematical values and derivatives.
#include "world.hpp"
using namespace pbt; using namespace b2; using ref::Op; using ref::P;
using bertini::EvalMethod; using bertini::DerivMethod; using bertini::Vec;
#include <set>

namespace {
void history(Gen& g, bool poly) {
	SysCfg c; c.maxv = 4; c.depth = 3; c.maxf = 3; c.poly = poly; auto s = gen_spec(g, c); unsigned prec = some_prec(g); set_prec(prec);
	Built b0 = build(g, s); g.note(s.show() + "\nprecision " + std::to_string(prec)); World w(g, s, std::move(b0)); w.prec = prec;
	if (g.chance(80)) w.configure(false); if (g.chance(30)) { bool as = g.chance(50); w.b.sys.SetAutoSimplify(as); g.note(as ? "autosimplify on" : "autosimplify off"); }
	if (poly && g.chance(40)) { w.homog(); if (g.chance(60)) w.patch(); }
	int steps = g.range(2, 12);
	for (int i = 0; i < steps; ++i) switch (g.weighted({8, 5, 2, 1, 1, 1, 1})) {
		case 0: w.call<dbl>(); break;
		case 1: w.call<mpfr_complex>(); break;
		case 2: w.configure(true); break;
		case 3: if (poly && !w.homd && g.chance(50)) w.homog(); else w.patch(); break;
		case 4: w.prec = some_prec(g); set_prec(w.prec); w.b.sys.precision(w.prec); w.hm.x = w.hm.t = false; g.note("precision " + std::to_string(w.prec)); break;
		case 5: if (g.chance(50)) { w.b.sys.Differentiate(); w.forget(); g.note("differentiate"); } else { w.b.sys.Reset(); g.note("reset"); } break;
		default: w.b.sys.Simplify(); g.note("simplify"); w.forget(); break; }
	if (w.comparisons >= 2) g.nontrivial(); if (s.path) g.label("path variable");
}
void polynomial(Gen& g) { history(g, true); }
void general(Gen& g) { history(g, false); }

// the raw derivatives handed out by the system
void nodes(Gen& g) {
	SysCfg c; c.maxv = 3; c.depth = 3; c.maxf = 2; c.poly = g.chance(60); auto s = gen_spec(g, c); set_prec(30); Built b = build(g, s); g.note(s.show()); auto& sys = b.sys; auto order = s.order();
	if (g.chance(60)) sys.SetEvalMethod(g.chance(50) ? EvalMethod::SLP : EvalMethod::FunctionTree); if (g.chance(60)) sys.SetDerivMethod(g.chance(50) ? DerivMethod::JacobianNode : DerivMethod::Derivatives);
	auto p = ref::point(g, s.total()); std::vector<ref::Val> v; for (auto& e : s.f) { v.push_back(ref::eval(e, ref::lift(p))); if (v.back().bad) discard("point rejected"); }
	std::vector<std::complex<double>> o; for (int k : order) o.push_back(p[k]); auto x = vec<dbl>(o, 30); auto evalsys = [&](std::string const& when) { Vec<dbl> r = s.path ? sys.Eval(x, dbl(p[s.nv])) : sys.Eval(x); for (size_t i = 0; i < s.f.size(); ++i) PBT_CHECK(ref::close(up(r(i)), v[i].v, eps_dbl() * 20000 * (v[i].e + ref::mag(v[i].v))), when << "value of function " << i << " is " << str(up(r(i))) << " expected " << str(v[i].v)); Mat<dbl> J = s.path ? sys.Jacobian(x, dbl(p[s.nv])) : sys.Jacobian(x); for (size_t i = 0; i < s.f.size(); ++i) for (size_t j = 0; j < order.size(); ++j) PBT_CHECK(ref::close(up(J(i, j)), v[i].d[order[j]], eps_dbl() * 20000 * (v[i].de[order[j]] + ref::mag(v[i].d[order[j]]))), when << "Jacobian entry " << i << "," << j); };
	if (g.chance(50)) evalsys("before: ");
	set_point(b.vars, p); if (s.path) b.t->set_current_value<dbl>(p[s.nv]);
	auto space = sys.GetSpaceDerivatives(); PBT_CHECK(space.size() == s.f.size() * order.size(), "number of space derivatives"); for (auto& n : space) n->Reset();
	for (size_t j = 0; j < order.size(); ++j) for (size_t i = 0; i < s.f.size(); ++i) { auto got = up(space[i + j * s.f.size()]->Eval<dbl>()); PBT_CHECK(ref::close(got, v[i].d[order[j]], eps_dbl() * 20000 * (v[i].de[order[j]] + ref::mag(v[i].d[order[j]]))), "space derivative node of function " << i << " by variable " << j << " has value " << str(got) << " expected " << str(v[i].d[order[j]])); }
	if (s.path) { auto td = sys.GetTimeDerivatives(); PBT_CHECK(td.size() == s.f.size(), "number of time derivatives"); for (size_t i = 0; i < s.f.size(); ++i) { td[i]->Reset(); auto got = up(td[i]->Eval<dbl>()); PBT_CHECK(ref::close(got, v[i].d[s.nv], eps_dbl() * 20000 * (v[i].de[s.nv] + ref::mag(v[i].d[s.nv]))), "time derivative node of function " << i << " has value " << str(got) << " expected " << str(v[i].d[s.nv])); } }
	evalsys("after asking for the derivatives: "); g.nontrivial();
}

// implicit parameters: variables which are not part of the point
void implicit(Gen& g) {
	SysCfg c; c.minv = 2; c.maxv = 4; c.depth = 3; c.maxf = 2; c.funcs = false; c.hom = false; c.max_groups = 2; auto s = gen_spec(g, c); int ip = s.groups.back().v.back(); s.groups.back().v.pop_back(); if (s.groups.back().v.empty()) s.groups.pop_back(); if (s.groups.empty()) discard("no variable left");
	unsigned prec = some_prec(g); set_prec(prec); Built b; b.vars = make_vars(s.nv); if (s.path) b.t = bertini::node::Variable::Make("t"); auto all = b.vars; if (s.path) all.push_back(b.t); b.b = std::make_shared<Builder>(g, all); add_structure(g, s, b); b.sys.AddImplicitParameter(b.vars[ip]); for (size_t i = 0; i < s.f.size(); ++i) b.sys.AddFunction(b.b->build(s.f[i]), "f" + std::to_string(i));
	g.note(s.show() + "\nimplicit parameter x" + std::to_string(ip)); World w(g, s, std::move(b)); w.prec = prec; w.impl = ip; if (g.chance(80)) w.configure(false);
	auto setp = [&] { w.impl_val = ref::coord(g); g.note("parameter value " + ref::show({w.impl_val})); Vec<dbl> d(1); d(0) = w.impl_val; Vec<mpfr_complex> m(1); m(0) = lift(w.impl_val, w.prec); w.b.sys.SetImplicitParameters(d); w.b.sys.SetImplicitParameters(m); }; setp();
	int steps = g.range(2, 8); for (int i = 0; i < steps; ++i) switch (g.weighted({6, 3, 3, 1})) { case 0: w.call<dbl>(); break; case 1: w.call<mpfr_complex>(); break; case 2: setp(); break; default: w.configure(true); }
	if (w.comparisons >= 2) g.nontrivial();
}
void mismatches(Gen& g) { // wrong numbers of values are refused
	SysCfg c; c.maxv = 3; c.depth = 2; c.maxf = 2; auto s = gen_spec(g, c); set_prec(30); Built b = build(g, s); g.note(s.show()); if (g.chance(60)) b.sys.SetEvalMethod(g.chance(50) ? EvalMethod::SLP : EvalMethod::FunctionTree);
	auto run = [&](std::string const& what, auto fn) { bool threw = false; try { fn(); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, what << " accepted"); };
	auto& sys = b.sys; int n = s.nv; auto mkv = [&](int k) { Vec<dbl> x(k); for (int i = 0; i < k; ++i) x(i) = 1; return x; }; int wrong = g.chance(50) ? n + 1 : n - 1; Vec<dbl> x = mkv(n), y = mkv(wrong); dbl t(0.5);
	if (s.path) { run("evaluation without time", [&] { sys.Eval(x); }); run("Jacobian without time", [&] { sys.Jacobian(x); }); run("too many or few variables", [&] { sys.Eval(y, t); }); run("too many or few variables (Jacobian)", [&] { sys.Jacobian(y, t); }); }
	else { run("evaluation with time and no path variable", [&] { sys.Eval(x, t); }); run("Jacobian with time and no path variable", [&] { sys.Jacobian(x, t); }); run("too many or few variables", [&] { sys.Eval(y); }); run("too many or few variables (Jacobian)", [&] { sys.Jacobian(y); }); run("time derivative without path variable", [&] { sys.TimeDerivative(x, t); }); }
	run("values of the wrong length", [&] { sys.SetVariables(y); }); g.nontrivial();
}
}
int main(int argc, char** argv) {
	Suite s; s.property = "P07";
	s.subs = {
		{"polynomial", "polynomial systems of 1-3 functions in 1-4 variables of all group kinds, subfunctions, constants, parameters, path variable, optionally homogenized and patched; 2-12 steps interleaving all calling forms of values / Jacobian / time derivative in double and 16-190 digits, from given or stored points, with changes of evaluation and derivative method, precision, simplification; non-trivial = at least 2 comparisons.", 30000, 300000, polynomial},
		{"general", "the same with non-polynomial functions.", 20000, 200000, general},
		{"nodes", "derivative expressions handed out by the system; all non-trivial.", 8000, 60000, nodes},
		{"implicit", "systems with an implicit parameter set between calls; non-trivial = at least 2 comparisons.", 8000, 60000, implicit},
		{"mismatches", "calls with the wrong number of values or time must throw; all non-trivial.", 500, 4000, mismatches},
	};
	s.assumptions = {"points on or near branch cuts and poles, or with values beyond 1e30, are not compared"};
	return run_main(s, argc, argv);
}
