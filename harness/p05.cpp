// Simplification preserves values and derivatives.
#include <set>
#include "sysgen.hpp"
#include "bertini2/function_tree/simplify.hpp"
using namespace pbt; using namespace b2; using ref::Op; using ref::P;

static bool modest(P const& e) { if (e->op == Op::Num) { auto ok = [](ref::Q const& q) { return abs(q) < 1000000 && denominator(q) < 1000000; }; return ok(e->re) && ok(e->im); } for (auto& c : e->ch) if (!modest(c)) return false; return true; }
// sprinkle zeros, ones, nested sums and products that keep the value
static P spice(Gen& g, P const& e, ref::ExprGen& eg, std::map<ref::Expr*, P>& memo) {
	auto it = memo.find(e.get()); if (it != memo.end()) return it->second; P r = e;
	if (!e->ch.empty()) { std::vector<P> ch; for (auto& c : e->ch) ch.push_back(spice(g, c, eg, memo)); r = ref::mk(e->op, ch); r->n = e->n; r->pos = e->pos; }
	auto zero = [&]() -> P { switch (g.below(6)) { case 0: return ref::num(0); case 1: return ref::num(0, 0, 1); case 2: return ref::mult({ref::num(0), eg.leaf()}, {true, true}); case 3: return ref::sum({ref::num(1), ref::num(1)}, {true, false}); case 4: return ref::mk(Op::Neg, {ref::num(0)}); default: return ref::mult({eg.leaf(), ref::num(0, 0, 2), eg.leaf()}, {true, true, true}); } };
	auto one = [&]() -> P { switch (g.below(6)) { case 0: return ref::num(1); case 1: return ref::num(1, 0, 2); case 2: return ref::ipow(ref::var(g.below(eg.c.nvars)), 0); case 3: return ref::mult({ref::num(2), ref::num(2)}, {true, false}); case 4: return ref::sum({ref::num(1), zero()}, {true, true}); default: return ref::mult({ref::num(1), ref::num(1)}, {true, g.chance(50)}); } };
	while (g.chance(30)) switch (g.below(8)) {
		case 0: r = ref::sum({r, zero()}, {true, g.chance(50)}); break; case 1: r = ref::sum({zero(), r}, {g.chance(50), true}); break;
		case 2: r = ref::mult({r, one()}, {true, !g.chance(30)}); break; case 3: r = ref::mult({one(), r}, {!g.chance(30), true}); break;
		case 4: r = ref::sum({r}, {true}); break; case 5: r = ref::mult({r}, {true}); break;
		case 6: r = ref::sum({r, eg.leaf(), zero()}, {true, true, false}); break; // changes the value, which is fine: the reference is the spiced expression
		default: r = ref::mk(Op::Neg, {ref::mk(Op::Neg, {r})}); break; }
	return memo[e.get()] = r;
}
// is some partial result too close to zero or one for doubles to tell it from zero or one?
static bool ambiguous(P const& e, std::vector<ref::C> const& x) {
	std::set<ref::Expr*> seen; bool bad = false; ref::R eps = eps_dbl() * ref::R(10000);
	auto look = [&](P const& p) { auto v = ref::eval(p, x); if (v.bad) { bad = true; return; } ref::R m = ref::mag(v.v), o = ref::mag(v.v - ref::C(1)); ref::R t = eps * (v.e + m); if ((m != 0 && m <= t) || (o != 0 && o <= t) || (m != 0 && m < ref::R(1e-250))) bad = true; };
	std::function<void(P const&)> go = [&](P const& p) { if (bad || !seen.insert(p.get()).second) return; look(p); if ((p->op == Op::Sum || p->op == Op::Mult) && p->ch.size() > 2) for (size_t k = 2; k < p->ch.size(); ++k) { auto q = ref::mk(p->op, std::vector<P>(p->ch.begin(), p->ch.begin() + k)); q->pos.assign(p->pos.begin(), p->pos.begin() + k); look(q); } for (auto& c : p->ch) go(c); };
	go(e); return bad;
}
static std::vector<std::complex<double>> generic(Gen& g, int n) { std::vector<std::complex<double>> p(n); for (auto& z : p) { auto u = [&] { return (double(g.bits() >> 11) / 9007199254740992.0) * 1.7 + 0.15; }; z = {u(), u() - 0.9}; } return p; }
static ref::R slack(2000);

static void expression(Gen& g) {
	ref::GenCfg c; c.nvars = g.range(1, 3); c.depth = 4; c.funcs = g.chance(30); c.transcend = g.chance(50); c.poly = g.chance(40); ref::ExprGen eg(g, c); std::map<ref::Expr*, P> memo; int nr = g.range(1, 2); std::vector<P> roots; for (int i = 0; i < nr; ++i) { P e = eg.gen(g.range(1, 3)); if (!modest(e)) discard("numbers too large for the double test"); roots.push_back(spice(g, e, eg, memo)); }
	unsigned prec = some_prec(g); set_prec(prec); auto vars = make_vars(c.nvars); Builder b(g, vars); std::vector<NodeP> n; for (auto& r : roots) { n.push_back(b.build(r)); g.note("f = " + ref::show(r)); }
	if (g.chance(40)) { set_point(vars, ref::point(g, c.nvars)); for (auto& r : roots) if (ref::eval(r, ref::lift(ref::point(g, c.nvars))).bad) discard("bad point"); for (auto& x : n) (void)x->Eval<dbl>(); }
	int compared = 0, changed = 0;
	auto compare = [&](std::string const& when) { auto p = ref::point(g, c.nvars); auto x = ref::lift(p); for (auto& r : roots) if (ref::eval(r, x).bad) { g.label("point rejected"); return; }
		set_point(vars, p); set_point(vars, p, prec); for (size_t i = 0; i < n.size(); ++i) n[i]->Reset();
		for (size_t i = 0; i < n.size(); ++i) { auto v = ref::eval(roots[i], x); ref::R m = v.e + ref::mag(v.v); auto a = up(n[i]->Eval<dbl>()), z = up(n[i]->Eval<mpfr_complex>());
			PBT_CHECK(ref::close(a, v.v, eps_dbl() * slack * m), when << ": double value " << str(a) << " of root " << i << " at " << ref::show(p) << ", expected " << str(v.v)); PBT_CHECK(ref::close(z, v.v, eps_of(prec) * slack * m), when << ": " << prec << "-digit value " << str(z) << " of root " << i << " at " << ref::show(p) << ", expected " << str(v.v));
			int k = g.below(c.nvars); auto d = n[i]->Differentiate(vars[k]); d->Reset(); auto dv = up(d->Eval<mpfr_complex>()); if (ref::mag(v.d[k]) < ref::R(1e25)) PBT_CHECK(ref::close(dv, v.d[k], eps_of(prec) * slack * slack * (v.de[k] + ref::mag(v.d[k]))), when << ": derivative by x" << k << " of root " << i << " is " << str(dv) << ", expected " << str(v.d[k])); ++compared; } };
	int steps = g.range(1, 4);
	for (int s = 0; s < steps; ++s) {
		auto gp = generic(g, c.nvars); for (auto& r : roots) if (ambiguous(r, ref::lift(gp))) discard("doubles cannot tell"); 
		set_point(vars, gp); for (auto& x : n) x->Reset(); size_t w = g.below(n.size()); unsigned k = 0;
		if (g.chance(25)) { auto d = n[w]->Differentiate(vars[g.below(c.nvars)]); d->Reset(); (void)d; }
		switch (g.below(4)) { case 0: k = bertini::Simplify(n[w]); g.note("Simplify"); break; case 1: k = n[w]->EliminateZeros(); g.note("EliminateZeros"); break; case 2: k = n[w]->EliminateOnes(); g.note("EliminateOnes"); break; default: k = n[w]->ReduceDepth(); g.note("ReduceDepth"); }
		if (k) ++changed; compare("after simplification"); }
	// simplified derivatives
	{ auto gp = generic(g, c.nvars); size_t w = g.below(n.size()); int k = g.below(c.nvars); bool amb = false; P dr = ref::diff(roots[w], k); if (ambiguous(roots[w], ref::lift(gp)) || ambiguous(dr, ref::lift(gp))) amb = true;
	  auto p = ref::point(g, c.nvars); auto v = ref::eval(roots[w], ref::lift(p)); if (!amb && !v.bad && ref::mag(v.d[k]) < ref::R(1e25) && !ref::eval(dr, ref::lift(p)).bad) { auto d = n[w]->Differentiate(vars[k]); set_point(vars, gp); d->Reset(); bertini::Simplify(d); set_point(vars, p, prec); d->Reset(); auto dv = up(d->Eval<mpfr_complex>()); PBT_CHECK(ref::close(dv, v.d[k], eps_of(prec) * slack * slack * (v.de[k] + ref::mag(v.d[k]))), "simplified derivative by x" << k << " is " << str(dv) << ", expected " << str(v.d[k]) << " at " << ref::show(p)); g.label("simplified derivative"); compare("after simplifying a derivative"); } }
	if (changed && compared) { g.nontrivial(); g.label("tree changed"); }
}

static void systems(Gen& g) {
	SysCfg c; c.maxv = 3; c.poly = g.chance(60); auto s = gen_spec(g, c); for (auto& f : s.f) if (!modest(f)) discard("large numbers"); ref::GenCfg ec; ec.nvars = s.total(); ref::ExprGen eg(g, ec); std::map<ref::Expr*, P> memo; if (g.chance(70)) for (auto& f : s.f) f = spice(g, f, eg, memo);
	unsigned prec = 30; set_prec(prec); Built b = build(g, s); g.note(s.show()); auto& sys = b.sys; if (g.chance(50)) sys.SetEvalMethod(g.chance(50) ? bertini::EvalMethod::FunctionTree : bertini::EvalMethod::SLP); if (g.chance(30)) sys.SetDerivMethod(bertini::DerivMethod::JacobianNode); sys.SetAutoSimplify(g.chance(60));
	auto ord = s.order(); int steps = g.range(2, 5); int compared = 0, simplified = 0;
	for (int st = 0; st < steps; ++st) {
		if (g.chance(40)) { // leave whatever values in the variables, zeros and ones included
			auto p = ref::point(g, s.total()); if (g.chance(50)) for (auto& z : p) z = double(g.below(2)); auto all = b.vars; if (s.path) all.push_back(b.t); set_point(all, p); g.label("arbitrary values held"); }
		switch (g.below(4)) { case 0: sys.Simplify(); ++simplified; g.note("Simplify"); break; case 1: sys.SimplifyFunctions(); ++simplified; g.note("SimplifyFunctions"); break; case 2: sys.SimplifyDerivatives(); ++simplified; g.note("SimplifyDerivatives"); break; default: bertini::Simplify(sys); ++simplified; g.note("free Simplify"); }
		auto p = ref::point(g, s.total()); auto q = ref::lift(p); bool bad = false; std::vector<ref::Val> v; for (auto& f : s.f) { v.push_back(ref::eval(f, q)); bad |= v.back().bad; } if (bad) { g.label("point rejected"); continue; }
		auto run = [&](auto tag) { using T = decltype(tag); std::vector<std::complex<double>> o; for (int i : ord) o.push_back(p[i]); auto x = vec<T>(o, prec); bertini::Vec<T> f; bertini::Mat<T> J; bertini::Vec<T> dt; if (s.path) { T t = scal<T>(p[s.nv], prec); f = sys.Eval(x, t); J = sys.Jacobian(x, t); dt = sys.TimeDerivative(x, t); } else { f = sys.Eval(x); J = sys.Jacobian(x); }
			for (size_t i = 0; i < s.f.size(); ++i) { PBT_CHECK(ref::close(up(f(i)), v[i].v, eps_for<T>(prec) * slack * (v[i].e + ref::mag(v[i].v))), "value of f" << i << " is " << str(up(f(i))) << ", expected " << str(v[i].v)); for (size_t j = 0; j < ord.size(); ++j) { auto& d = v[i].d[ord[j]]; if (ref::mag(d) < ref::R(1e12)) PBT_CHECK(ref::close(up(J(i, j)), d, eps_for<T>(prec) * slack * slack * (v[i].de[ord[j]] + ref::mag(d))), "Jacobian entry " << i << "," << j << " is " << str(up(J(i, j))) << ", expected " << str(d)); } if (s.path) { auto& d = v[i].d[s.nv]; if (ref::mag(d) < ref::R(1e12)) PBT_CHECK(ref::close(up(dt(i)), d, eps_for<T>(prec) * slack * slack * (v[i].de[s.nv] + ref::mag(d))), "time derivative " << i << " is " << str(up(dt(i))) << ", expected " << str(d)); } } };
		if (g.chance(50)) run(dbl()); else run(mpfr_complex()); ++compared; }
	if (compared && simplified) g.nontrivial();
}

int main(int argc, char** argv) {
	Suite s; s.property = "P05";
	s.subs = {
		{"expression", "1-2 expressions sharing subexpressions, sprinkled with zeros, ones and nested one- and many-term sums and products; 1-4 calls of Simplify, EliminateZeros, EliminateOnes or ReduceDepth with the variables at generic values, values and derivatives compared with the reference in double and 16-190 digits after each, and after simplifying a derivative; non-trivial = some call changed the tree.", 9000, 120000, expression},
		{"systems", "systems in both evaluation and derivative methods with auto-simplification on or off, variables holding arbitrary values (zeros and ones included) when Simplify, SimplifyFunctions or SimplifyDerivatives is called; values, Jacobian, time derivative compared; non-trivial = compared after a simplification.", 6000, 60000, systems},
	};
	s.assumptions = {"expression-level elimination decides by double evaluation at the variables' current values, by design; it is exercised at generic values and where doubles can tell a subexpression from zero and one"};
	return run_main(s, argc, argv);
}
