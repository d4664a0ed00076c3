// Expression evaluation: every expression evaluates to its mathematical value, in both number types.
#include "b2ref.hpp"
using namespace pbt; using namespace b2;

static std::string classify(ref::P const& e, Gen& g) { (void)g; return ref::show(e); }

static void history(Gen& g, ref::GenCfg cfg) {
	cfg.nvars = g.range(1, 4);
	ref::ExprGen eg(g, cfg);
	int nroots = g.range(1, 3);
	std::vector<ref::P> roots; for (int i = 0; i < nroots; ++i) roots.push_back(eg.gen(g.range(1, cfg.depth)));
	unsigned prec = 16; if (g.chance(60)) prec = some_prec(g);
	set_prec(prec);
	auto vars = make_vars(cfg.nvars); Builder b(g, vars);
	std::vector<NodeP> nodes; for (auto& r : roots) nodes.push_back(b.build(r));
	for (size_t i = 0; i < roots.size(); ++i) g.note("root " + std::to_string(i) + ": " + classify(roots[i], g));
	std::vector<std::complex<double>> pd, pm; // current values per number type
	int steps = g.range(1, 6); int compared = 0;
	for (int s = 0; s < steps; ++s) {
		bool mp = g.chance(50);
		bool change = s == 0 || (mp ? pm : pd).empty() || g.chance(70);
		if (mp && g.chance(30)) { // change the working precision, as a multiprecision caller does
			prec = some_prec(g); set_prec(prec); for (auto& n : nodes) n->precision(prec); for (auto& v : vars) v->precision(prec); change = true; g.note("precision " + std::to_string(prec)); g.label("precision change"); }
		if (change) {
			auto& cur = mp ? pm : pd;
			if (cur.empty() || g.chance(50)) cur = ref::point(g, cfg.nvars); else cur[g.below(cur.size())] = ref::coord(g);
			if (mp) set_point(vars, cur, prec); else set_point(vars, cur);
			for (auto& n : nodes) n->Reset();
			g.note(std::string(mp ? "mp " : "dbl ") + "point " + ref::show(cur));
		}
		auto x = ref::lift(mp ? pm : pd);
		size_t w = g.below(nodes.size()); if (g.chance(40)) w = nodes.size();
		for (size_t i = 0; i < nodes.size(); ++i) {
			if (w < nodes.size() && i != w) continue;
			auto v = ref::eval(roots[i], x); if (v.bad) { g.label("point rejected: " + v.why); continue; }
			bool inplace = g.chance(50);
			ref::C got; 
			if (mp) { mpfr_complex z; if (inplace) nodes[i]->EvalInPlace<mpfr_complex>(z); else z = nodes[i]->Eval<mpfr_complex>(); got = up(z); 
				PBT_CHECK(z.precision() == prec, "multiprecision value of root " << i << " has precision " << z.precision() << ", working precision is " << prec); }
			else { dbl z(7, 7); if (inplace) nodes[i]->EvalInPlace<dbl>(z); else z = nodes[i]->Eval<dbl>(); got = up(z); }
			ref::R tol = (mp ? eps_of(prec) : eps_dbl()) * ref::R(400) * (v.e + ref::mag(v.v));
			PBT_CHECK(ref::close(got, v.v, tol), (mp ? "multiprecision" : "double") << " value of root " << i << " is " << str(got) << ", exact value is " << str(v.v) << ", tolerance " << tol.str(3));
			++compared; g.label(mp ? "mp" : "dbl");
		}
	}
	int sz = 0; for (auto& r : roots) sz += r->size;
	if (compared && sz >= 4) g.nontrivial();
}

// mp result converges: more digits, closer to the exact value; numbers given exactly are re-expanded, not rounded once
static void refine(Gen& g) {
	ref::GenCfg cfg; cfg.nvars = g.range(1, 3); cfg.depth = 4; cfg.transcend = g.chance(60); cfg.floats = true;
	ref::ExprGen eg(g, cfg); auto r = eg.gen(g.range(1, 4));
	set_prec(16 + g.below(3) * 10);
	auto vars = make_vars(cfg.nvars); Builder b(g, vars); auto n = b.build(r); auto f = bertini::node::Function::Make(n, "f"); NodeP top = g.chance(50) ? NodeP(f) : n;
	auto p = ref::point(g, cfg.nvars); auto v = ref::eval(r, ref::lift(p)); if (v.bad) discard(v.why);
	g.note(ref::show(r) + " at " + ref::show(p));
	int k = g.range(2, 4);
	for (int i = 0; i < k; ++i) {
		unsigned prec = some_prec(g); set_prec(prec); top->precision(prec); for (auto& w : vars) w->precision(prec); set_point(vars, p, prec); top->Reset();
		auto got = up(top->Eval<mpfr_complex>()); ref::R tol = eps_of(prec) * ref::R(400) * (v.e + ref::mag(v.v));
		g.note("precision " + std::to_string(prec));
		PBT_CHECK(ref::close(got, v.v, tol), "at precision " << prec << " value " << str(got) << " exact " << str(v.v) << " tol " << tol.str(3));
	}
	if (r->size >= 3) g.nontrivial();
}

int main(int argc, char** argv) {
	Suite s; s.property = "P01";
	ref::GenCfg full; full.funcs = true; full.depth = 4;
	ref::GenCfg poly; poly.poly = true; poly.constants = false; poly.depth = 5; poly.funcs = true;
	ref::GenCfg rat; rat.transcend = false; rat.depth = 4;
	s.subs = {
		{"transcendental", "1-3 roots sharing subexpressions over +,-,*,/,integer and general powers, sqrt, exp, log, trig and inverse trig, numbers, pi, e, named functions; a history of 1-6 steps re-pointing variables, changing precision, evaluating by value or in place in double or 16-190 digit arithmetic; non-trivial = at least one comparison made and total expression size >= 4.", 20000, 300000, [=](Gen& g) { history(g, full); }},
		{"polynomial", "same histories over polynomial expressions of depth up to 5; same rule.", 12000, 150000, [=](Gen& g) { history(g, poly); }},
		{"rational", "same histories over rational functions; same rule.", 12000, 150000, [=](Gen& g) { history(g, rat); }},
		{"refine", "one expression re-evaluated at 2-4 working precisions in any order; non-trivial = expression size >= 3.", 10000, 150000, refine},
	};
	s.assumptions = {"reference: MPFR/MPC at 260 digits with a first-order running error bound, tolerance 400 eps times that bound", "points within 1e-3 of branch cuts or poles are not compared"};
	return run_main(s, argc, argv);
}
