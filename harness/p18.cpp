// P18: predictors and the corrector, on homotopies with known paths.
#include "homgen.hpp"
#include "bertini2/trackers/explicit_predictors.hpp"
#include "bertini2/trackers/newton_corrector.hpp"
using namespace b2; using namespace pbt; using ref::C; using ref::R; using bertini::Vec;
using bertini::SuccessCode; using bertini::tracking::Predictor; namespace predict = bertini::tracking::predict; namespace correct = bertini::tracking::correct;
using AMP = bertini::tracking::AdaptiveMultiplePrecisionConfig;
struct Meth { Predictor m; const char* name; int order; bool est; int est_order; };
static const Meth meths[] = {{Predictor::Euler, "Euler", 1, false, 0}, {Predictor::Constant, "Constant", 0, false, 0}, {Predictor::HeunEuler, "HeunEuler", 2, true, 2}, {Predictor::RK4, "RK4", 4, false, 0}, {Predictor::RKF45, "RKF45", 4, true, 5}, {Predictor::RKCashKarp45, "CashKarp45", 4, true, 5}, {Predictor::RKDormandPrince56, "DormandPrince56", 5, true, 6}, {Predictor::RKVerner67, "Verner67", 6, true, 7}};
static const Meth& meth(Gen& g) { return meths[g.below(8)]; }
static void precise(Hom& h, unsigned p) { set_prec(p); h.b.sys.precision(p); }
struct Out { SuccessCode code; double err = 0, size = 0, nJ = 0, nJi = 0, cond = 0; };
// any of the three forms of a prediction step
template<class T> Out step(predict::ExplicitRKPredictor& P, bool est, int form, Vec<T>& next, bertini::System const& S, Vec<T> const& x, T const& t, T const& dt, AMP const& amp) {
	Out o; unsigned since = 1; if (form == 2 && !est) form = 1;
	if (form == 0) o.code = P.Predict(next, S, x, t, dt, o.cond, since, 1u, 1e-5);
	if (form == 1) o.code = P.Predict(next, o.size, o.nJ, o.nJi, S, x, t, dt, o.cond, since, 1u, 1e-5, amp);
	if (form == 2) o.code = P.Predict(next, o.err, o.size, o.nJ, o.nJi, S, x, t, dt, o.cond, since, 1u, 1e-5, amp);
	return o; }
static AMP easy() { AMP a; a.epsilon = 1; a.Phi = 1; a.Psi = 1; a.degree_bound = 1; a.coefficient_bound = 1; return a; }

static void order(Gen& g) {
	set_prec(110); Cd t0(0.125 * g.range(-4, 8), g.chance(50) ? 0.125 * g.small_int(4) : 0); auto const& m = meth(g); HomCfg c; Hom h = gen_hom(g, c, t0); if (h.clearance(t0) < 0.7) discard("near a singularity"); precise(h, 110);
	static const Cd dirs[] = {{1, 0}, {-1, 0}, {0, 1}, {-0.6, 0.8}, {0.8, -0.6}}; Cd dir = dirs[g.below(5)]; int form = g.below(3); g.note(std::string(m.name) + " form " + std::to_string(form)); 
	predict::ExplicitRKPredictor P(m.m, h.b.sys); PBT_CHECK(int(P.Order()) == int(predict::Order(m.m)) && P.HasErrorEstimate() == m.est && P.PredictorMethod() == m.m, "the predictor does not know its method"); int ord = P.Order(); PBT_CHECK(ord == m.order, "order of " << m.name << " is " << ord);
	R e[2], est[2]; double hs[2] = {1e-6, 1e-6 / 64};
	for (int k = 0; k < 2; ++k) { C dt = ref::toC(dir) * R(hs[k]); auto x = h.point<mpfr_complex>(h.at(ref::toC(t0)), 110); Vec<mpfr_complex> nx; mpfr_complex t = lift(t0, 110), d = down(dt, 110); auto o = step<mpfr_complex>(P, m.est, form, nx, h.b.sys, x, t, d, easy()); PBT_CHECK(o.code == SuccessCode::Success, "prediction failed with code " << int(o.code)); 
		e[k] = dist(h.affine<mpfr_complex>(nx), h.at(C(ref::toC(t0) + up(d)))); est[k] = R(o.err); if (form == 2 && m.est) { R sp = R(o.size) * boost::multiprecision::pow(R(ref::mag(dt)), ord + 1); PBT_CHECK(boost::multiprecision::abs(R(sp - est[k])) <= est[k] * 1e-8 , "size proportion " << o.size << " times |dt|^" << ord + 1 << " is not the error estimate " << o.err); } }
	for (int i = 0; i < h.n + h.homd; ++i) ; R floor("1e-98"); g.label(m.name);
	R kfloor = floor * 1000; if (e[1] < kfloor) { PBT_CHECK(e[0] < R("1e-60") || m.order > 4, "error " << e[0].str(5) << " at the longer step but none at the shorter"); g.label("exact"); return; }
	double slope = (boost::multiprecision::log(R(e[0] / e[1])) / boost::multiprecision::log(R(64))).convert_to<double>(); g.note("local error " + e[0].str(4) + " then " + e[1].str(4) + ", slope " + std::to_string(slope));
	PBT_CHECK(slope >= m.order + 1 - 0.2, m.name << " has local error " << e[0].str(5) << " at |dt|=1e-6 and " << e[1].str(5) << " at |dt|=1e-6/64: order " << slope - 1 << ", stated " << m.order);
	if (form == 2 && m.est && est[1] > 1e-98) { double s2 = (boost::multiprecision::log(R(est[0] / est[1])) / boost::multiprecision::log(R(64))).convert_to<double>(); g.note("estimate slope " + std::to_string(s2)); PBT_CHECK(s2 >= m.est_order - 0.2, m.name << " error estimate decreases like |dt|^" << s2); }
	g.nontrivial();
}

// one predictor object through a history of methods, precisions, systems: every step agrees with a new object's, and with the same step at much higher precision
static void histories(Gen& g) {
	set_prec(60); Cd t0(0.125 * g.range(-4, 8), g.chance(50) ? 0.125 * g.small_int(4) : 0); HomCfg c; Hom h[2] = {gen_hom(g, c, t0), gen_hom(g, c, t0)}; for (auto& q : h) if (q.clearance(t0) < 0.5) discard("near a singularity");
	int which = 0; unsigned p = 60; for (auto& q : h) precise(q, p); const Meth* m = &meth(g); predict::ExplicitRKPredictor P(m->m, h[0].b.sys); int n = g.range(2, 7); int compared = 0, changes = 0; AMP amp = easy();
	for (int k = 0; k < n; ++k) {
		switch (g.below(5)) {
		case 0: m = &meth(g); P.PredictorMethod(m->m); g.note(std::string("method ") + m->name); ++changes; break;
		case 1: { p = some_prec(g); if (p == 16) p = 17; for (auto& q : h) precise(q, p); P.ChangePrecision(p); PBT_CHECK(P.precision() == p, "precision"); g.note("precision " + std::to_string(p)); ++changes; break; }
		case 2: which = !which; P.ChangeSystem(h[which].b.sys); P.ChangePrecision(p); g.note("system " + std::to_string(which)); ++changes; break;
		default: ;
		}
		Hom& H = h[which]; Cd dt0(g.small_int(16) / 64., g.small_int(16) / 64.); if (dt0 == 0.) dt0 = 0.0625; bool dbls = g.chance(50); int form = g.below(3); std::ostringstream o; o << m->name << (dbls ? " double" : " mp") << " dt " << dt0 << " form " << form; g.note(o.str());
		auto X = H.at(ref::toC(t0)); 
		auto far = [&](std::vector<C>& want) { unsigned q = 2 * p + 60; precise(H, q); predict::ExplicitRKPredictor F(m->m, H.b.sys); Vec<mpfr_complex> nx; auto x = H.point<mpfr_complex>(X, q); auto r = step<mpfr_complex>(F, m->est, 0, nx, H.b.sys, x, lift(t0, q), lift(dt0, q), amp); bool ok = r.code == SuccessCode::Success; if (ok) { want.clear(); for (int i = 0; i < nx.size(); ++i) want.push_back(up(nx(i))); } precise(H, p); return ok ? r.cond : -1.0; };
		std::vector<C> want; double cond = far(want); bool big = cond < 0; for (auto& z : want) if (ref::mag(z) > 1e6) big = true; 
		auto run = [&](auto tag) { using T = decltype(tag); Vec<T> nx(1), ny; auto x = H.point<T>(X, p); T t = scal<T>(t0, p), dt = scal<T>(dt0, p); auto before = x; auto r = step<T>(P, m->est, form, nx, H.b.sys, x, t, dt, amp); predict::ExplicitRKPredictor F(m->m, H.b.sys); auto s = step<T>(F, m->est, form, ny, H.b.sys, x, t, dt, amp);
			if (big) return; PBT_CHECK(r.code == s.code, "code " << int(r.code) << " where a new predictor has " << int(s.code)); PBT_CHECK(x == before, "the current point was changed"); if (r.code == SuccessCode::HigherPrecisionNecessary) { g.label("higher precision asked for"); return; }
			PBT_CHECK(r.code == SuccessCode::Success, "prediction failed with code " << int(r.code)); PBT_CHECK(nx.size() == ny.size() && nx.size() == x.size(), "size of prediction"); R eps = eps_for<T>(p); R bad(0); 
			for (int i = 0; i < nx.size(); ++i) { PBT_CHECK(prec_of(nx(i)) == (std::is_same<T, dbl>::value ? 16u : p), "prediction has precision " << prec_of(nx(i))); R d = ref::mag(C(up(nx(i)) - up(ny(i)))); PBT_CHECK(d <= eps * 10 * (1 + ref::mag(want[i])), m->name << ": coordinate " << i << " predicted as " << b2::str(up(nx(i))) << " but by a new predictor as " << b2::str(up(ny(i)))); R dd = ref::mag(C(up(nx(i)) - want[i])); if (!(dd <= bad)) bad = dd; }
			// stages may come near a singularity: the reference step's sensitivity is unknown, so only flag clear loss of digits
			R tol = eps * 1e5 * (1 + rnorm(want)) * (1 + R(cond)); PBT_CHECK(bad <= tol, m->name << (std::is_same<T, dbl>::value ? " in double" : " in multiple precision") << " differs by " << bad.str(3) << " from the same step at high precision (condition number " << cond << ")");
			if (form > 0) { PBT_CHECK(std::isfinite(r.nJ) && r.nJ > 0 && std::abs(r.nJ - s.nJ) <= 1e-9 * r.nJ, "norm of the Jacobian " << r.nJ << " but a new predictor has " << s.nJ); if (!H.homd) { std::vector<C> f; std::vector<std::vector<C>> J; H.refeval(X, ref::toC(t0), f, J); double F = fro(J), I = invnorm(J), rt = std::sqrt(double(H.n)); PBT_CHECK(r.nJ <= F * rt * 1.001 && r.nJ >= F / rt * 0.999, "norm of the Jacobian " << r.nJ << ", Frobenius norm " << F); PBT_CHECK(r.nJi <= I * rt * 1.001 && r.nJi > 0, "norm of the inverse Jacobian estimated " << r.nJi << " but is at most " << I); } PBT_CHECK(r.nJi * r.nJ <= r.cond * 1.0e6 + 1e6, "condition number estimate"); }
			++compared; };
		if (dbls) run(dbl()); else run(mpfr_complex()); }
	if (compared && changes) g.nontrivial();
}
// exactly singular Jacobian: a failure code, and the predictor is usable afterwards
static void singular(Gen& g) {
	unsigned p = some_prec(g); if (p == 16) p = 17; set_prec(p); Cd t0(0.125 * g.range(0, 8), 0); HomCfg c; c.homogenize = false; c.maxv = 3; Hom good = gen_hom(g, c, t0); Hom h = good; h.b.sys = bertini::System(); if (good.clearance(t0) < 0.5) discard("near a singularity");
	// one equation becomes a square of a linear form vanishing on the path, or a combination of the others
	int n = h.n; int k = g.below(n); if (n > 1 && g.chance(50)) { int o = (k + 1) % n; h.s.f[k] = ref::mult({cnum(2. * (1 + g.below(3))), h.s.f[o]}, {true, true}); g.label("dependent equations"); } else { ref::P w = ref::sum({ref::var(k), good.phi[k]}, {true, false}); h.s.f[k] = ref::ipow(w, 2); h.q[k].on = false; g.label("double root"); }
	// the path value in coordinate k as the square's root
	h.b = build(g, h.s); precise(good, p); precise(h, p); auto const& m = meth(g); predict::ExplicitRKPredictor P(m.m, h.b.sys); g.note(h.s.show()); g.note(m.name);
	auto X = h.at(ref::toC(t0)); std::vector<C> f; std::vector<std::vector<C>> J; h.refeval(X, ref::toC(t0), f, J); std::vector<C> dummy; 
	// only points representable exactly make the Jacobian exactly singular in arithmetic
	bool dep = n > 1; for (auto& z : X) { Cd d{z.real().convert_to<double>(), z.imag().convert_to<double>()}; if (ref::mag(C(ref::toC(d) - z)) != 0) discard("start not representable"); }
	auto run = [&](auto tag) { using T = decltype(tag); Vec<T> nx; auto x = h.point<T>(X, p); int form = g.below(3); auto r = step<T>(P, m.est, form, nx, h.b.sys, x, scal<T>(t0, p), scal<T>({-0.125, 0}, p), easy()); PBT_CHECK(r.code != SuccessCode::Success, m.name << " reports success at a singular Jacobian"); 
		correct::NewtonCorrector N(h.b.sys); auto y = x; Vec<T> z; auto cc = N.Correct(z, h.b.sys, y, scal<T>(t0, p), 1e-30, 1u, 3u); PBT_CHECK(cc != SuccessCode::Success, "the corrector reports success at a singular Jacobian");
		P.ChangeSystem(good.b.sys); if (!std::is_same<T, dbl>::value) P.ChangePrecision(p); predict::ExplicitRKPredictor F(m.m, good.b.sys); auto G = good.at(ref::toC(t0)); auto gx = good.point<T>(G, p); Vec<T> a, b; auto ra = step<T>(P, m.est, 0, a, good.b.sys, gx, scal<T>(t0, p), scal<T>({-0.0625, 0}, p), easy()), rb = step<T>(F, m.est, 0, b, good.b.sys, gx, scal<T>(t0, p), scal<T>({-0.0625, 0}, p), easy()); PBT_CHECK(ra.code == rb.code, "after a singular system: code " << int(ra.code) << " instead of " << int(rb.code)); if (ra.code == SuccessCode::Success) for (int i = 0; i < a.size(); ++i) PBT_CHECK(ref::mag(C(up(a(i)) - up(b(i)))) <= eps_for<T>(p) * 100 * (1 + ref::mag(up(b(i)))), "after a singular system the prediction differs"); };
	if (g.chance(50)) run(dbl()); else run(mpfr_complex()); g.nontrivial();
}
// Newton's method against the same iteration carried out at 260 digits
static void corrector(Gen& g) {
	unsigned p = some_prec(g); if (p == 16) p = 17; set_prec(p); Cd t0(0.125 * g.range(-4, 8), g.chance(50) ? 0.125 * g.small_int(4) : 0); HomCfg c; c.homogenize = false; Hom h[2] = {gen_hom(g, c, t0), gen_hom(g, c, t0)}; for (auto& q : h) { if (q.clearance(t0) < 0.5) discard("near a singularity"); precise(q, p); } correct::NewtonCorrector N(h[0].b.sys); int which = 0; int steps = g.range(1, 4), done = 0;
	for (int s = 0; s < steps; ++s) {
		if (s && g.chance(30)) { which = !which; N.ChangeSystem(h[which].b.sys); g.note("other system"); } if (s && g.chance(40)) { p = some_prec(g); if (p == 16) p = 17; for (auto& q : h) precise(q, p); g.note("precision " + std::to_string(p)); } N.ChangePrecision(p); Hom& H = h[which];
		auto run = [&](auto tag) { using T = decltype(tag); bool mp = !std::is_same<T, dbl>::value; R eps = eps_for<T>(p); unsigned mn = g.range(1, 3), mx = mn + g.below(5); int form = g.below(3); double digits = mp ? p : 16; double tol = std::pow(10., -double(g.range(1, int(std::min(digits * 0.6, 60.)))));
			double off = std::pow(10., -double(g.range(0, 6))) * 0.25; auto X = H.at(ref::toC(t0)); Vec<T> x(H.n); std::vector<C> z; for (int i = 0; i < H.n; ++i) { Cd d{g.small_int(8) / 8., g.small_int(8) / 8.}; x(i) = H.num<T>(C(X[i] + ref::toC(d) * R(off)), p); z.push_back(up(x(i))); } std::ostringstream o; o << (mp ? "mp " : "double ") << p << " form " << form << " iterations " << mn << ".." << mx << " tol " << tol << " offset " << off; g.note(o.str());
			// the reference iteration
			int need = -1; bool fuzzy = false; std::vector<double> stepn; double worst = 0, normJ = 0, big = 0; bool bad = false;
			for (unsigned k = 0; k < mx; ++k) { std::vector<C> f, dz; std::vector<std::vector<C>> J; H.refeval(z, ref::toC(t0), f, J); double I = invnorm(J); if (I > 1e4) { bad = true; break; } worst = std::max(worst, I); normJ = std::max(normJ, fro(J)); for (auto& v : f) v = -v; rsolve(J, f, dz); R m(0); for (int i = 0; i < H.n; ++i) { m = std::max(m, ref::mag(dz[i])); z[i] += dz[i]; big = std::max(big, ref::mag(z[i]).convert_to<double>()); } double md = m.convert_to<double>(); double noise = (eps * 1e4 * R(worst) * R(1 + normJ) * R(1 + big)).convert_to<double>(); stepn.push_back(md); if (md < tol * 3 + noise && md > tol / 3 - noise) fuzzy = true; if (md < tol && k + 1 >= mn) { need = k + 1; break; } }
			if (bad || fuzzy) { g.label("not decided"); return; }
			Vec<T> r; double dz = -1, nJ = 0, nJi = 0, cond = 0; AMP a = easy(); SuccessCode code; auto keep = x;
			if (form == 0) code = N.Correct(r, H.b.sys, x, scal<T>(t0, p), tol, mn, mx); else if (form == 1) code = N.Correct(r, H.b.sys, x, scal<T>(t0, p), tol, mn, mx, a); else code = N.Correct(r, dz, nJ, nJi, cond, H.b.sys, x, scal<T>(t0, p), tol, mn, mx, a);
			PBT_CHECK(keep == x, "the start point was changed");
			if (code == SuccessCode::HigherPrecisionNecessary) { PBT_CHECK(form > 0, "precision asked for in fixed precision"); double most = 3 + std::log10(worst * 4 * (3 * normJ + 1) + 1) - std::log10(tol) + std::log10(worst * 4 + big + 1); PBT_CHECK(digits <= most + 2, "higher precision asked for at " << digits << " digits, where " << most << " are plenty"); g.label("higher precision asked for"); return; }
			PBT_CHECK((code == SuccessCode::Success) == (need > 0), "code " << int(code) << ", but Newton's method " << (need > 0 ? "converges in " + std::to_string(need) + " iterations" : std::string("does not converge")) << "; step norms of the exact iteration: " << [&] { std::ostringstream q; for (double v : stepn) q << v << " "; return q.str(); }());
			if (code != SuccessCode::Success) PBT_CHECK(code == SuccessCode::FailedToConverge, "code " << int(code));
			{ std::ostringstream q; q << "steps of the exact iteration:"; for (double v : stepn) q << " " << v; for (int i = 0; i < H.n; ++i) q << "\n start " << b2::str(up(x(i))) << " end " << b2::str(up(r(i))); g.note(q.str()); } R lim = eps * 1e4 * R(worst) * R(1 + normJ) * R(1 + big); for (int i = 0; i < H.n; ++i) { PBT_CHECK(prec_of(r(i)) == (mp ? p : 16u), "precision of the result " << prec_of(r(i))); PBT_CHECK(ref::close(up(r(i)), z[i], lim), "coordinate " << i << " is " << b2::str(up(r(i))) << " after " << stepn.size() << " iterations, off by " << ref::mag(C(up(r(i)) - z[i])).str(3) << " (allowed " << lim.str(3) << "); exactly " << b2::str(z[i])); }
			if (form == 2) { PBT_CHECK(std::abs(dz - stepn.back()) <= 1e-6 * stepn.back() + lim.template convert_to<double>(), "norm of the last step reported as " << dz << " but is " << stepn.back()); PBT_CHECK(nJi <= worst * 2 * std::sqrt(double(H.n)) + 1e-9 && nJi > 0, "norm of the inverse"); PBT_CHECK(std::abs(cond - nJ * nJi) <= 1e-9 * cond, "condition number is not the product of the norms"); }
			++done; g.label(need > 0 ? "converged" : "did not converge"); };
		if (g.chance(50)) run(dbl()); else run(mpfr_complex()); }
	if (done) g.nontrivial();
}
int main(int argc, char** argv) {
	Suite s; s.property = "P18"; s.assumptions = {"Methods: all the predictor offers; Heun (without Euler) and Norsett 3(4) are refused by it with an exception.", "Square homotopies with a path known in closed form, other solutions at distance at least 0.5."};
	s.subs = {
		{"order", "all predictor methods on generated homotopies at 110 digits: local error at |dt|=1e-6 and 1e-6/64 in several directions, order measured; non-trivial: the error is above rounding level.", 1200, 12000, order},
		{"histories", "one predictor object through changes of method, precision (17-190) and system, stepping in double and multiple precision in all three call forms, against a new object and a much more precise step.", 1000, 10000, histories},
		{"singular", "exactly singular Jacobians: predictor and corrector fail, and work on the next system.", 600, 5000, singular},
		{"corrector", "Newton's method in all three call forms, double and multiple precision, against the same iteration at 260 digits: code, point, reported norms.", 1500, 15000, corrector},
	}; return run_main(s, argc, argv);
}
