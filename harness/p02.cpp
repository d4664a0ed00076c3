// Symbolic differentiation equals the mathematical derivative.
#include "b2ref.hpp"
using namespace pbt; using namespace b2; using namespace bertini::node;

static ref::GenCfg config(Gen& g) {
	ref::GenCfg c; c.depth = 4; c.funcs = true;
	switch (g.below(3)) { case 0: c.poly = true; c.depth = 5; break; case 1: c.transcend = false; break; default: break; }
	c.nvars = g.range(1, 4); return c;
}
static ref::R tolerance(ref::R const& eps, ref::R const& bound, ref::R const& m) { return eps * ref::R(20000) * (bound + m) + eps * eps * ref::R(1e12); } // the last term: products of two rounding errors

static void check_value(Gen& g, NodeP const& n, std::vector<VarP> const& vars, std::vector<std::complex<double>> const& p, ref::C const& want, ref::R const& bound, unsigned prec, bool mp, std::string const& what) {
	n->Reset(); ref::C got;
	if (mp) { got = up(n->Eval<mpfr_complex>()); } else got = up(n->Eval<dbl>());
	ref::R tol = tolerance(mp ? eps_of(prec) : eps_dbl(), bound, ref::mag(want));
	PBT_CHECK(ref::close(got, want, tol), what << (mp ? " (multiprecision)" : " (double)") << " is " << str(got) << ", mathematical value " << str(want) << ", tolerance " << tol.str(3));
}

static void first_order(Gen& g) {
	auto c = config(g); ref::ExprGen eg(g, c); auto e = eg.gen(g.range(1, c.depth));
	unsigned prec = some_prec(g); set_prec(prec);
	auto vars = make_vars(c.nvars); Builder b(g, vars); NodeP n = b.build(e); NodeP top = g.chance(40) ? NodeP(Function::Make(n, "f")) : n;
	g.note("f = " + ref::show(e));
	std::vector<NodeP> D; for (int i = 0; i < c.nvars; ++i) D.push_back(top->Differentiate(vars[i]));
	bool reprec = g.chance(30);
	int pts = g.range(1, 3), used = 0;
	for (int k = 0; k < pts; ++k) {
		auto p = ref::point(g, c.nvars); auto v = ref::eval(e, ref::lift(p)); if (v.bad) { g.label("point rejected: " + v.why); continue; }
		g.note("at " + ref::show(p) + " precision " + std::to_string(prec));
		if (reprec && k) { prec = some_prec(g); set_prec(prec); top->precision(prec); for (auto& d : D) d->precision(prec); for (auto& w : vars) w->precision(prec); }
		set_point(vars, p); set_point(vars, p, prec);
		bool mp = g.chance(50);
		for (int i = 0; i < c.nvars; ++i) check_value(g, D[i], vars, p, v.d[i], v.de[i], prec, mp, "d/dx" + std::to_string(i));
		check_value(g, top, vars, p, v.v, v.e, prec, mp, "the original expression after differentiation");
		++used;
	}
	if (used && e->size >= 3) g.nontrivial();
}

static void jacobian_form(Gen& g) {
	auto c = config(g); ref::ExprGen eg(g, c); int nf = g.range(1, 2); std::vector<ref::P> es; for (int i = 0; i < nf; ++i) es.push_back(eg.gen(g.range(1, c.depth)));
	unsigned prec = some_prec(g); set_prec(prec);
	auto vars = make_vars(c.nvars); Builder b(g, vars); std::vector<std::shared_ptr<Jacobian>> J; std::vector<NodeP> F;
	for (auto& e : es) { auto n = b.build(e); F.push_back(n); J.push_back(Jacobian::Make(n->Differentiate())); g.note("f = " + ref::show(e)); }
	std::vector<std::complex<double>> pd, pm; int steps = g.range(2, 10), used = 0;
	for (int s = 0; s < steps; ++s) {
		bool mp = g.chance(40); auto& cur = mp ? pm : pd;
		if (cur.empty() || g.chance(30)) { cur = ref::point(g, c.nvars); if (mp) set_point(vars, cur, prec); else set_point(vars, cur); for (auto& j : J) j->Reset(); for (auto& f : F) f->Reset(); g.note(std::string(mp ? "mp" : "dbl") + " point " + ref::show(cur)); }
		int f = g.below(nf), i = g.below(c.nvars);
		auto v = ref::eval(es[f], ref::lift(cur)); if (v.bad) { g.label("point rejected: " + v.why); continue; }
		g.note("ask df" + std::to_string(f) + "/dx" + std::to_string(i));
		ref::C got; bool ip = g.chance(50);
		if (mp) { mpfr_complex z; if (ip) J[f]->EvalJInPlace<mpfr_complex>(z, vars[i]); else z = J[f]->EvalJ<mpfr_complex>(vars[i]); got = up(z); }
		else { dbl z; if (ip) J[f]->EvalJInPlace<dbl>(z, vars[i]); else z = J[f]->EvalJ<dbl>(vars[i]); got = up(z); }
		ref::R tol = tolerance(mp ? eps_of(prec) : eps_dbl(), v.de[i], ref::mag(v.d[i]));
		PBT_CHECK(ref::close(got, v.d[i], tol), "Jacobian form df" << f << "/dx" << i << (mp ? " (mp)" : " (dbl)") << " is " << str(got) << ", mathematical value " << str(v.d[i]) << " tol " << tol.str(3));
		++used;
		if (g.chance(30)) { // interleave with evaluating the function itself
			F[f]->Reset(); auto gv = mp ? up(F[f]->Eval<mpfr_complex>()) : up(F[f]->Eval<dbl>()); ref::R t2 = tolerance(mp ? eps_of(prec) : eps_dbl(), v.e, ref::mag(v.v));
			PBT_CHECK(ref::close(gv, v.v, t2), "function value after Jacobian evaluation " << str(gv) << " expected " << str(v.v)); }
	}
	if (used >= 2 && es[0]->size >= 3) g.nontrivial();
}

static void second_order(Gen& g) {
	auto c = config(g); if (c.depth > 3) c.depth = 3; ref::ExprGen eg(g, c); auto e = eg.gen(g.range(1, c.depth));
	unsigned prec = some_prec(g); set_prec(prec);
	auto vars = make_vars(c.nvars); Builder b(g, vars); NodeP n = b.build(e);
	int i = g.below(c.nvars), j = g.below(c.nvars), k = g.below(c.nvars);
	auto p = ref::point(g, c.nvars); auto x = ref::lift(p);
	auto r1 = ref::diff(e, i); auto v = ref::eval(r1, x); if (v.bad) discard(v.why);
	auto v0 = ref::eval(e, x); if (v0.bad) discard(v0.why);
	g.note("f = " + ref::show(e) + " differentiated by x" + std::to_string(i) + ", x" + std::to_string(j) + " at " + ref::show(p));
	// the reference's two ways of differentiating must agree, or the reference itself is suspect
	if (!ref::close(v.v, v0.d[i], ref::R("1e-200") * (v.e + v0.de[i] + ref::mag(v.v)))) discard("reference disagrees with itself");
	NodeP d1 = n->Differentiate(vars[i]); NodeP d2 = d1->Differentiate(vars[j]);
	set_point(vars, p); set_point(vars, p, prec); bool mp = g.chance(50);
	check_value(g, d2, vars, p, v.d[j], v.de[j], prec, mp, "second derivative");
	check_value(g, d1, vars, p, v0.d[i], v0.de[i] + v.e, prec, mp, "first derivative after differentiating it again");
	if (g.chance(25) && e->size < 12) { auto r2 = ref::diff(r1, j); auto w = ref::eval(r2, x); if (!w.bad) { NodeP d3 = d2->Differentiate(vars[k]); check_value(g, d3, vars, p, w.d[k], w.de[k], prec, mp, "third derivative"); g.label("third order"); } }
	if (e->size >= 3) g.nontrivial();
}

// products of linear forms, as used by multihomogeneous start systems
static void linear_product(Gen& g) {
	int nv = g.range(1, 3), nf = g.range(1, 3); unsigned prec = some_prec(g); set_prec(prec);
	auto vars = make_vars(nv + 2); VarGroup grp(vars.begin(), vars.begin() + nv); // vars[nv] can become the homogenizing variable, vars[nv+1] is unrelated
	std::shared_ptr<LinearProduct> lp; bool homvars = g.chance(30); bool given = g.chance(40);
	std::vector<std::vector<ref::C>> co(nf, std::vector<ref::C>(nv + 1));
	if (given) { bertini::Mat<mpfr_complex> m(nf, nv + 1); for (int i = 0; i < nf; ++i) for (int j = 0; j <= nv; ++j) { auto z = ref::coord(g); m(i, j) = lift(z, prec); co[i][j] = ref::toC(z); if (homvars && j == nv) co[i][j] = ref::C(0); } lp = LinearProduct::Make(grp, m, homvars); }
	else { lp = LinearProduct::Make(grp, nf, homvars); bertini::Mat<mpq_rational> re, im; lp->GetRatCoeffs(re, im);
		for (int i = 0; i < nf; ++i) for (int j = 0; j <= nv; ++j) co[i][j] = ref::C(ref::R(boost::multiprecision::numerator(re(i, j))) / ref::R(boost::multiprecision::denominator(re(i, j))), ref::R(boost::multiprecision::numerator(im(i, j))) / ref::R(boost::multiprecision::denominator(im(i, j)))); }
	bool hom = !homvars && g.chance(40); if (hom) lp->Homogenize(grp, vars[nv]);
	NodeP extra = vars[nv + 1]; NodeP f = g.chance(50) ? NodeP(lp) : NodeP(lp) * extra; bool times = f != NodeP(lp);
	g.note("product of " + std::to_string(nf) + " linear forms in " + std::to_string(nv) + " variables" + (given ? ", given coefficients" : ", random coefficients") + (hom ? ", homogenized" : "") + (homvars ? ", homogeneous group" : "") + (times ? ", times another variable" : ""));
	auto jac = Jacobian::Make(f->Differentiate()); std::vector<NodeP> D; for (auto& v : vars) D.push_back(f->Differentiate(v));
	int pts = g.range(1, 2);
	for (int k = 0; k < pts; ++k) {
		if (k && g.chance(60) && !given) { prec = some_prec(g); set_prec(prec); f->precision(prec); jac->precision(prec); for (auto& d : D) d->precision(prec); for (auto& w : vars) w->precision(prec); g.note("precision " + std::to_string(prec)); }
		auto p = ref::point(g, nv + 2); auto x = ref::lift(p); g.note("at " + ref::show(p));
		std::vector<ref::C> L(nf), Lm(nf); ref::R scale(1); ref::C one(1);
		for (int i = 0; i < nf; ++i) { ref::C s(0); ref::R m(0); for (int j = 0; j <= nv; ++j) { ref::C t = co[i][j] * (j < nv ? x[j] : (hom ? x[nv] : one)); s += t; m += ref::mag(co[i][j]) + ref::mag(t); } L[i] = s; scale *= m + 1; }
		scale *= ref::R(1) + ref::mag(x[nv + 1]);
		auto value = [&](int drop) { ref::C r(1); for (int i = 0; i < nf; ++i) if (i != drop) r *= L[i]; return r; };
		ref::C ex = times ? x[nv + 1] : one; ref::C val = value(-1) * ex;
		std::vector<ref::C> der(nv + 2, ref::C(0)); for (int i = 0; i < nf; ++i) { for (int j = 0; j < nv; ++j) der[j] += co[i][j] * value(i) * ex; if (hom) der[nv] += co[i][nv] * value(i) * ex; } if (times) der[nv + 1] = value(-1);
		set_point(vars, p); set_point(vars, p, prec);
		bool mp = g.chance(50); ref::R eps = mp ? eps_of(prec) : eps_dbl(); ref::R tol = eps * ref::R(1000) * scale;
		f->Reset(); auto gv = mp ? up(f->Eval<mpfr_complex>()) : up(f->Eval<dbl>());
		PBT_CHECK(ref::close(gv, val, tol), "linear product value " << str(gv) << " expected " << str(val) << " tol " << tol.str(3) << (mp ? " mp" : " dbl"));
		for (int j = 0; j < nv + 2; ++j) {
			jac->Reset(); auto gj = mp ? up(jac->EvalJ<mpfr_complex>(vars[j])) : up(jac->EvalJ<dbl>(vars[j]));
			PBT_CHECK(ref::close(gj, der[j], tol), "linear product: Jacobian form d/dx" << j << " is " << str(gj) << " expected " << str(der[j]) << (mp ? " mp" : " dbl"));
			D[j]->Reset(); auto gd = mp ? up(D[j]->Eval<mpfr_complex>()) : up(D[j]->Eval<dbl>());
			PBT_CHECK(ref::close(gd, der[j], tol), "linear product: derivative d/dx" << j << " is " << str(gd) << " expected " << str(der[j]) << (mp ? " mp" : " dbl"));
		}
	}
	g.nontrivial();
}

int main(int argc, char** argv) {
	Suite s; s.property = "P02";
	s.subs = {
		{"first_order", "one polynomial, rational or transcendental expression DAG in 1-4 variables, all first partials, 1-3 points, double or multiprecision, optional precision change; non-trivial = a usable point and size >= 3.", 24000, 300000, first_order},
		{"jacobian_form", "1-2 expressions differentiated without a variable, a history of 2-10 queries (which function, which variable, which number type, new point, value interleaved); non-trivial = at least 2 comparisons and size >= 3.", 14000, 200000, jacobian_form},
		{"second_order", "second (and sometimes third) partials against nested symbolic differentiation of the reference; non-trivial = size >= 3.", 10000, 150000, second_order},
		{"linear_product", "products of 1-3 linear forms, random or given coefficients, optionally homogenized or multiplied by another variable; values, partials and Jacobian form; all cases non-trivial.", 4000, 40000, linear_product},
	};
	s.assumptions = {"points within 1e-3 of branch cuts or poles are not compared", "tolerance 20000 eps times the running error bound"};
	return run_main(s, argc, argv);
}
