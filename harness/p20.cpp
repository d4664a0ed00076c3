// P20: adaptive precision tracking on homotopies with known paths.
#include "trackgen.hpp"
using namespace b2; using namespace pbt; using ref::C; using ref::R; namespace bt = bertini::tracking; using T = mpfr_complex; using Tr = bt::AMPTracker; using AMP = bt::AdaptiveMultiplePrecisionConfig;
static unsigned start_prec(Gen& g) { static const unsigned ps[] = {16, 30, 17, 20, 40, 50, 63, 100}; return ps[g.below(8)]; }
struct Run { SuccessCode rc; Vec<T> end; unsigned prec; };
struct AConf { Conf c; AMP a; bool preserve = false; };
static void setup(Tr& tr, AConf const& c) { tr.Setup(c.c.m->m, c.c.tol, c.c.trunc, c.c.st, c.c.nw); tr.PrecisionSetup(c.a); tr.PrecisionPreservation(c.preserve); }
static AConf gen_aconf(Gen& g, Track& k, unsigned p) { AConf c; c.c = gen_conf(g, k, 40); c.c.trunc = k.maxnorm * 4 + 10; c.a = bt::AMPConfigFrom(k.h.b.sys); if (g.chance(40)) { c.a.safety_digits_1 = g.range(0, 3); c.a.safety_digits_2 = g.range(0, 3); c.a.consecutive_successful_steps_before_precision_decrease = g.range(1, 12); c.a.max_num_precision_decreases = g.range(0, 10); c.c.st.consecutive_successful_steps_before_stepsize_increase = g.range(1, 6); } if (g.chance(35)) { c.preserve = true; double most = std::pow(10., -double(p)) * 1e3; if (c.c.tol < most) c.c.tol = most; } std::ostringstream o; o << "start precision " << p << " " << c.c.show() << (c.preserve ? " precision preserved" : "") << " safety " << c.a.safety_digits_1 << " " << c.a.safety_digits_2; g.note(o.str()); return c; }
static R slack(Track const& k, AConf const& c, unsigned p) { return R(2.5) * R(c.c.tol) + eps_of(p) * R(1e3) * R(k.cond); }
static Vec<T> start(Track& k, unsigned p) { precise(k.h, p); return k.h.point<T>(k.h.at(ref::toC(k.t0)), p); }
static Run track(Gen& g, Track& k, AConf const& c, Tr& tr, unsigned p, Vec<T> x) {
	precise(k.h, p); auto keep = x; Run r; T a = lift(k.t0, p), b = lift(k.t1, p); auto a0 = a, b0 = b; r.rc = tr.TrackPath(r.end, a, b, x); PBT_CHECK(x == keep && a == a0 && b == b0 && prec_of(x(0)) == p, "tracking changed its input"); r.prec = tr.CurrentPrecision();
	// system, tracker and workspace agree
	PBT_CHECK(bertini::DefaultPrecision() == r.prec && k.h.b.sys.precision() == r.prec, "after " << code(r.rc) << " the tracker is at precision " << r.prec << ", the system at " << k.h.b.sys.precision() << ", the default precision is " << bertini::DefaultPrecision());
	if (c.preserve) PBT_CHECK(r.prec == p, "precision " << p << " should have been preserved, but is " << r.prec); return r; }
static void succeed(Gen& g, Track& k, AConf const& c, Tr& tr, unsigned p, Run& r, const char* who) {
	PBT_CHECK(r.rc == SuccessCode::Success, who << "tracking a well separated path gives " << code(r.rc) << " at time " << b2::str(up(tr.CurrentTime())) << " precision " << r.prec << " after " << tr.NumTotalStepsTaken() << " steps");
	for (int i = 0; i < r.end.size(); ++i) PBT_CHECK(prec_of(r.end(i)) == r.prec, who << "the result has precision " << prec_of(r.end(i)) << ", the tracker " << r.prec); PBT_CHECK(r.prec <= std::max(p, c.a.maximum_precision), who << "precision " << r.prec << " above the maximum");
	unsigned q = std::max(r.prec, p) + 20; auto here = bertini::DefaultPrecision(); precise(k.h, q); auto want = k.h.point<T>(k.h.at(ref::toC(k.t1)), q); precise(k.h, here); PBT_CHECK(r.end.size() == want.size(), who << "size of the result"); R d = vdist<T>(r.end, want); PBT_CHECK(d <= slack(k, c, std::min(r.prec, 1000u)), who << "the path ends at " << vshow<T>(want) << " but tracking returned " << vshow<T>(r.end) << ", off by " << d.str(3) << " (tolerance " << c.c.tol << ")");
	C te = ref::toC(k.t1); PBT_CHECK(ref::mag(C(up(tr.CurrentTime()) - te)) <= eps_of(16) * 4 * ref::mag(te), who << "success at time " << b2::str(up(tr.CurrentTime()))); PBT_CHECK(vdist<T>(tr.CurrentPoint(), r.end) <= eps_of(r.prec) * 10 * R(1 + k.maxnorm), who << "current point " << vshow<T>(tr.CurrentPoint()) << " is not the result");
	double len = std::abs(k.t0 - k.t1); unsigned least = len > 0 ? std::ceil(len / std::max(c.c.st.max_step_size.convert_to<double>(), c.c.st.initial_step_size.convert_to<double>()) * (1 - 1e-9)) : 0; PBT_CHECK(tr.NumTotalStepsTaken() >= least, who << tr.NumTotalStepsTaken() << " steps, although the longest step allows no less than " << least);
}
static void follow(Gen& g) {
	unsigned p = start_prec(g); HomCfg hc; Track k = gen_track(g, hc, p); AConf c = gen_aconf(g, k, p); g.label(c.c.m->name); if (g.chance(50)) set_prec(start_prec(g)); precise(k.h, bertini::DefaultPrecision()); Tr tr(k.h.b.sys); setup(tr, c); auto x = start(k, p); if (g.chance(50)) for (int i = 0; i < x.size(); ++i) x(i) += lift(Cd(g.small_int(4), g.small_int(4)) * (c.c.tol / 16), p);
	std::vector<Cd> z(k.h.b.sys.NumVariables()); for (auto& w : z) w = Cd(0.125 * g.small_int(8), 0.125 * g.small_int(8)); Vec<T> f0 = k.h.b.sys.Eval(vec<T>(z, p), lift(Cd(0.25, 0.5), p));
	Run r = track(g, k, c, tr, p, x); if (k.t0 == k.t1) { PBT_CHECK(r.rc == SuccessCode::Success, "tracking over no time: " << code(r.rc)); g.label("no time"); return; }
	succeed(g, k, c, tr, p, r, ""); if (r.prec > p) g.label("precision rose"); if (r.prec < p) g.label("precision fell"); precise(k.h, p); Vec<T> f1 = k.h.b.sys.Eval(vec<T>(z, p), lift(Cd(0.25, 0.5), p)); R e = eps_of(p) * 100; for (int i = 0; i < f0.size(); ++i) PBT_CHECK(ref::mag(C(up(f0(i)) - up(f1(i)))) <= e * (10 + ref::mag(up(f0(i)))), "tracking changed the tracked system"); if (tr.NumTotalStepsTaken() > 3) g.nontrivial();
}
static void limits(Gen& g) {
	unsigned p = start_prec(g); HomCfg hc; Track k = gen_track(g, hc, p); if (k.t0 == k.t1) discard("no time"); AConf c = gen_aconf(g, k, p); c.c.st.min_num_steps = 1; int kind = g.below(4); double len = std::abs(k.t1 - k.t0), smax = std::max(c.c.st.max_step_size.convert_to<double>(), c.c.st.initial_step_size.convert_to<double>()); int natural = std::ceil(len / smax * (1 - 1e-9)); bool inf_on = true; Tr tr(k.h.b.sys);
	if (kind == 0) c.c.st.max_num_steps = g.range(0, natural + 2); if (kind == 1) c.c.st.min_step_size = c.c.st.initial_step_size * mpq_rational(g.range(1, 6), 3); if (kind == 2 || kind == 3) { if (k.maxnorm < 0.05) discard("path at the origin"); static const double fr[] = {0.5, 0.9, 1.2, 0.1, 2}; c.c.trunc = k.maxnorm * fr[g.below(5)]; inf_on = kind == 2; }
	setup(tr, c); if (!inf_on) tr.SetInfiniteTruncation(false); auto x = start(k, p); Run r = track(g, k, c, tr, p, x); std::ostringstream o; o << "max steps " << c.c.st.max_num_steps << " min step " << c.c.st.min_step_size.convert_to<double>() << " truncation " << c.c.trunc << (inf_on ? "" : " off") << " largest norm " << k.maxnorm << ": " << code(r.rc); g.note(o.str()); g.label(std::string(kind == 0 ? "max steps " : kind == 1 ? "min step " : kind == 2 ? "truncation " : "truncation off ") + code(r.rc)); double total = tr.NumTotalStepsTaken();
	double smin = c.c.st.min_step_size.convert_to<double>(), first = std::min(c.c.st.initial_step_size.convert_to<double>(), len);
	if (kind == 0) { PBT_CHECK(r.rc == SuccessCode::Success || r.rc == SuccessCode::MaxNumStepsTaken, code(r.rc)); if (int(c.c.st.max_num_steps) < natural) PBT_CHECK(r.rc == SuccessCode::MaxNumStepsTaken, "success although at least " << natural << " steps are needed and " << c.c.st.max_num_steps << " allowed"); if (r.rc == SuccessCode::MaxNumStepsTaken) PBT_CHECK(total >= c.c.st.max_num_steps, total << " steps of " << c.c.st.max_num_steps); }
	if (kind == 1) { if (first < smin * (1 - 1e-9)) PBT_CHECK(r.rc == SuccessCode::MinStepSizeReached && total == 0, "steps shorter than allowed: " << code(r.rc) << " after " << total << " steps"); else if (first > smin * (1 + 1e-9)) PBT_CHECK(r.rc == SuccessCode::Success || (r.rc == SuccessCode::MinStepSizeReached && total > 0 && double(tr.CurrentStepsize()) < smin * (1 + 1e-12)), code(r.rc) << " after " << total << " steps, step " << double(tr.CurrentStepsize())); }
	if (kind == 2) { if (c.c.trunc > k.maxnorm * 1.05 + 0.01) PBT_CHECK(r.rc == SuccessCode::Success, "largest norm " << k.maxnorm << ", threshold " << c.c.trunc << ": " << code(r.rc)); if (c.c.trunc < k.endnorm * 0.99 - 1e-3) PBT_CHECK(r.rc == SuccessCode::GoingToInfinity, "norm at the end " << k.endnorm << ", threshold " << c.c.trunc << ": " << code(r.rc)); PBT_CHECK(r.rc == SuccessCode::Success || r.rc == SuccessCode::GoingToInfinity, code(r.rc)); }
	if (kind == 3) PBT_CHECK(r.rc == SuccessCode::Success, "truncation is off: " << code(r.rc));
	if (r.rc == SuccessCode::Success) succeed(g, k, c, tr, p, r, ""); else if (r.rc != SuccessCode::GoingToInfinity) { unsigned here = r.prec; auto cp = tr.CurrentPoint(); C now = up(tr.CurrentTime()); precise(k.h, here + 30); auto w = k.h.point<T>(k.h.at(now), here + 30); precise(k.h, here); PBT_CHECK(vdist<T>(cp, w) <= slack(k, c, std::min(p, here)) + R(1e-12), "after " << code(r.rc) << " at time " << b2::str(now) << " the tracker is at " << vshow<T>(cp) << ", path at " << vshow<T>(w)); g.nontrivial(); }
}
// paths that run close to a branch point: the precision needed rises
static void near_singular(Gen& g) {
	static const unsigned ps[] = {16, 30, 20, 50}; unsigned p = ps[g.below(4)]; set_prec(p); HomCfg hc; hc.maxv = 2; Track k; k.t0 = 1; k.t1 = g.chance(50) ? Cd(0) : Cd(0.0625 * g.range(0, 4), 0); k.h = gen_hom(g, hc, k.t0); if (k.h.clearance(k.t1) < 0.3) discard("near another singularity");
	// add one more variable y with y^2 = (t - s)^2 + d^2 or y^2 = t - t1 + d: branch points at distance about d from the path
	int e = g.range(1, 14), mult = g.range(1, 9); bool through = g.chance(50); double s = 0.25 + 0.0625 * g.range(0, 7); 
	SysSpec S = k.h.s; int n = S.nv; // variables 0..n-1, time n -> y takes index n, time n+1
	std::function<ref::P(ref::P const&)> shift = [&](ref::P const& q) -> ref::P { if (q->op == ref::Op::Var) return q->n == n ? ref::var(n + 1) : q; if (q->ch.empty()) return q; auto c = std::make_shared<ref::Expr>(*q); for (auto& x : c->ch) x = shift(x); return c; };
	SysSpec N; N.nv = n + 1; N.path = true; for (auto& f : S.f) N.f.push_back(shift(f)); std::vector<int> all; for (int i = 0; i <= n; ++i) all.push_back(i); N.groups.push_back({SysSpec::Affine, all}); ref::P t = ref::var(n + 1), y = ref::var(n);
	ref::Q D = mult; for (int i = 0; i < e; ++i) D /= 10; R dd = R(D);
	ref::P q = through ? ref::sum({ref::ipow(ref::sum({t, cnum(s)}, {true, false}), 2), ref::num(D * D, 0, 1)}, {true, true}) : ref::sum({t, cnum(k.t1), ref::num(D, 0, 1)}, {true, false, true});
	N.f.push_back(ref::sum({ref::ipow(y, 2), q}, {true, false})); k.h.s = N; k.h.n = n + 1; Hom old = k.h; k.h.b = build(g, N); k.h.homd = false; for (auto& f : k.h.phi) f = shift(f); 
	auto yat = [&](C const& tt) { C z = through ? C((tt - R(s)) * (tt - R(s)) + dd * dd) : C(tt - ref::toC(k.t1) + dd); return C(boost::multiprecision::sqrt(z)); };
	auto at = [&](C const& tt) { Hom h2 = k.h; h2.n = n; h2.phi.resize(n); std::vector<C> x(n + 2, C(0)); x[n + 1] = tt; std::vector<C> r; for (int j = 0; j < n; ++j) { C v = ref::eval(k.h.phi[j], x).v; if (k.h.q[j].on) { C a = ref::toC(k.h.q[j].q0) + ref::toC(k.h.q[j].q1) * ref::toC(k.t0), z = ref::toC(k.h.q[j].q0) + ref::toC(k.h.q[j].q1) * tt; C root = boost::multiprecision::sqrt(a) * boost::multiprecision::sqrt(C(z / a)); v += k.h.q[j].sign > 0 ? root : C(-root); } r.push_back(v); } r.push_back(yat(tt)); return r; };
	precise(k.h, p); AConf c; c.c.m = &meths[g.below(8)]; c.c.tol = std::pow(10., -double(g.range(5, c.c.m->order > 1 ? 16 : 7))); c.c.nw.max_num_newton_iterations = g.range(2, 4); c.c.st.initial_step_size = mpq_rational(1, 64); c.c.st.max_step_size = mpq_rational(1, 64); c.a = bt::AMPConfigFrom(k.h.b.sys); if (g.chance(30)) { static const unsigned mx[] = {20, 30, 40, 60, 16}; c.a.maximum_precision = mx[g.below(5)]; } c.c.st.max_num_steps = 20000; std::ostringstream o; o << N.show() << "\n start precision " << p << " " << c.c.show() << " maximum precision " << c.a.maximum_precision << " branch point at " << dd.str(3) << (through ? " beside time " + std::to_string(s) : std::string(" beyond the end")) << " end " << k.t1; g.note(o.str());
	Tr tr(k.h.b.sys); setup(tr, c); Vec<T> x(n + 1); { auto X = at(ref::toC(k.t0)); for (int i = 0; i <= n; ++i) x(i) = down(X[i], p); } Run r = track(g, k, c, tr, p, x); g.label(code(r.rc)); if (r.prec > p) g.label("ended at higher precision"); std::ostringstream o2; o2 << code(r.rc) << " precision " << r.prec << " steps " << tr.NumTotalStepsTaken(); g.note(o2.str());
	PBT_CHECK(r.rc == SuccessCode::Success || r.rc == SuccessCode::MaxPrecisionReached || r.rc == SuccessCode::MinStepSizeReached || r.rc == SuccessCode::SingularStartPoint || r.rc == SuccessCode::MaxNumStepsTaken, "tracking ends with " << code(r.rc)); if (r.rc == SuccessCode::MaxPrecisionReached) PBT_CHECK(r.prec > c.a.maximum_precision, "maximum precision reported at " << r.prec); if (r.rc == SuccessCode::SingularStartPoint) PBT_CHECK(c.a.maximum_precision < 100, "regular start point called singular");
	if (c.a.maximum_precision == 300) PBT_CHECK(r.rc == SuccessCode::Success, "with precision up to 300 digits: " << code(r.rc) << " at precision " << r.prec); if (r.rc != SuccessCode::Success) { g.nontrivial(); return; }
	PBT_CHECK(r.prec <= std::max(p, c.a.maximum_precision), "success at precision " << r.prec << " above the maximum"); auto X = at(ref::toC(k.t1)); R worst(0); if (through && ref::mag(C(up(r.end(n)) + X[n])) < ref::mag(C(up(r.end(n)) - X[n]))) { g.label("other branch"); if (dd >= R(0.1)) pbt::fail("tracking left its path for one at distance " + dd.str(3)); X[n] = -X[n]; } for (int i = 0; i <= n; ++i) { R e = ref::mag(C(up(r.end(i)) - X[i])); worst = std::max(worst, e); } 
	// the two values of y differ by twice |y|: below the tolerance either is as good
	PBT_CHECK(worst <= R(4) * R(c.c.tol) + eps_of(16) * 1e4 / ref::mag(X[n]), "the path ends at " << b2::str(X[n]) << " (last coordinate) but tracking returned " << vshow<T>(r.end) << ", off by " << worst.str(3) << " (tolerance " << c.c.tol << ")"); g.nontrivial();
}
static void reuse(Gen& g) {
	unsigned p = start_prec(g); HomCfg hc; hc.maxv = 2; std::vector<Track> ks; for (int i = 0; i < 2; ++i) ks.push_back(gen_track(g, hc, p)); for (auto& k : ks) if (k.t0 == k.t1) discard("no time"); int which = 0; AConf c = gen_aconf(g, ks[0], p); Tr tr(ks[0].h.b.sys); setup(tr, c); int n = g.range(2, 5), done = 0; bool changed = false;
	for (int s = 0; s < n; ++s) {
		Track& k = ks[which];
		switch (g.below(8)) {
		case 0: { p = start_prec(g); if (c.preserve && c.c.tol < std::pow(10., -double(p)) * 1e3) { c.preserve = false; tr.PrecisionPreservation(false); } g.note("precision " + std::to_string(p)); changed = true; break; }
		case 1: { which = !which; precise(ks[which].h, p); tr.SetSystem(ks[which].h.b.sys); c = gen_aconf(g, ks[which], p); setup(tr, c); g.note("other system"); changed = true; break; }
		case 2: { c = gen_aconf(g, k, p); setup(tr, c); changed = true; break; }
		case 3: { SteppingConfig bad = c.c.st; bad.max_num_steps = g.below(3); tr.Set<SteppingConfig>(bad); Run r = track(g, k, c, tr, p, start(k, p)); g.note(std::string("limited run: ") + code(r.rc)); tr.Set<SteppingConfig>(c.c.st); changed = true; break; }
		case 4: { AMP a = c.a; a.maximum_precision = 16; tr.PrecisionSetup(a); unsigned q = 30; AConf c2 = c; c2.preserve = false; tr.PrecisionPreservation(false); Run r = track(g, k, c2, tr, q, start(k, q)); g.note(std::string("starting above the maximum precision: ") + code(r.rc)); PBT_CHECK(r.rc == SuccessCode::MaxPrecisionReached || r.rc == SuccessCode::SingularStartPoint, "started above the maximum precision: " << code(r.rc)); setup(tr, c); changed = true; break; }
		case 5: { if (!done) break; // refinement at the tracker's precision
			unsigned q = tr.CurrentPrecision(); if (q == 16) break; precise(k.h, q); Vec<T> e; auto x = k.h.point<T>(k.h.at(ref::toC(k.t0)), q); for (int i = 0; i < x.size(); ++i) x(i) += lift(Cd(0.001, 0.0005), q); auto rc = tr.Refine(e, x, lift(k.t0, q), 1e-6, 8u); if (rc == SuccessCode::HigherPrecisionNecessary) break; PBT_CHECK(rc == SuccessCode::Success, "refining a point near the path: " << code(rc)); R d = vdist<T>(e, k.h.point<T>(k.h.at(ref::toC(k.t0)), q)); PBT_CHECK(d <= R(2.5e-6) + eps_of(q) * 1000 * R(k.cond), "refined point is off by " << d.str(3)); g.note("refine"); break; }
		default: ;
		}
		Track& q = ks[which]; Run r = track(g, q, c, tr, p, start(q, p)); succeed(g, q, c, tr, p, r, "used tracker: "); ++done; std::ostringstream o; o << "track: precision " << p << " -> " << r.prec << ", " << tr.NumTotalStepsTaken() << " steps"; g.note(o.str()); }
	if (done > 1 && changed) g.nontrivial();
}
// the documented criteria and the choice of step length and precision
static void criteria(Gen& g) {
	auto pw = [&](int lo, int hi) { return std::pow(10., g.range(lo, hi)) * (1 + g.below(9)); }; AMP a; a.epsilon = g.range(1, 30); a.Phi = pw(-2, 6); a.Psi = pw(-2, 6); a.safety_digits_1 = g.range(-1, 5); a.safety_digits_2 = g.range(-1, 5); double J = pw(-4, 6), Ji = pw(-4, 12), tol = pw(-20, -3), d = pw(-12, 1), z = pw(-3, 5); unsigned N = g.range(1, 5); unsigned p = some_prec(g); set_prec(p);
	namespace am = bt::amp; double A = a.safety_digits_1 + std::log10(Ji * a.epsilon * (J + a.Phi)), D = std::log10(Ji * ((2 + a.epsilon) * J + a.epsilon * a.Phi) + 1), B = a.safety_digits_1 + D + (-std::log10(tol) + std::log10(d)) / N, Cc = a.safety_digits_2 - std::log10(tol) + std::log10(Ji * a.Psi + z); std::ostringstream o; o << "A " << A << " B " << B << " C " << Cc << " precision " << p; g.note(o.str());
	auto near = [](double x, double y) { return std::abs(x - y) <= 1e-9 * (1 + std::abs(x)); }; PBT_CHECK(near(am::CriterionARHS(J, Ji, a), A) && near(am::D(J, Ji, a), D) && near(am::CriterionBRHS(J, Ji, N, tol, d, a), B) && near(am::CriterionCRHS(Ji, z, tol, a), Cc), "right hand sides: " << am::CriterionARHS(J, Ji, a) << " " << am::CriterionBRHS(J, Ji, N, tol, d, a) << " " << am::CriterionCRHS(Ji, z, tol, a) << " instead of " << A << " " << B << " " << Cc);
	Vec<dbl> v(2); v << dbl(z * 0.6, 0), dbl(0, z * 0.8); Vec<mpfr_complex> w(2); w << mpfr_complex(z * 0.6, 0), mpfr_complex(0, z * 0.8); auto verdict = [&](bool got, double digits, double rhs, const char* what) { if (std::abs(digits - rhs) > 1e-6) PBT_CHECK(got == (digits > rhs), what << (got ? " satisfied" : " violated") << " at " << digits << " digits, needs more than " << rhs); };
	verdict(am::CriterionA<dbl>(J, Ji, a), 16, A, "criterion A"); verdict(am::CriterionB<dbl>(J, Ji, N, tol, d, a), 16, B, "criterion B"); verdict(am::CriterionC<dbl>(Ji, v, tol, a), 16, Cc, "criterion C"); verdict(am::CriterionA<mpfr_complex>(J, Ji, a), p, A, "criterion A"); verdict(am::CriterionB<mpfr_complex>(J, Ji, N, tol, d, a), p, B, "criterion B"); verdict(am::CriterionC<mpfr_complex>(Ji, w, tol, a), p, Cc, "criterion C");
	// choice
	unsigned order = g.range(0, 7), dB = g.range(0, 120), lo = g.range(10, 120), hi = lo + g.below(180); set_prec(std::max(p, 30u)); mpfr_float smax = pow(mpfr_float(10), -int(g.range(0, 12))), smin = smax / pow(mpfr_float(10), int(g.range(0, 30))); auto step_for = [&](unsigned q) { return std::pow(10., -(double(dB) - q) * N / (order + 1)); };
	unsigned q = g.range(16, 150); double got = double(bt::StepsizeSatisfyingCriterionB(q, dB, N, order)), want = step_for(q); if (want > 1e-250 && want < 1e250) PBT_CHECK(std::abs(std::log10(got) - std::log10(want)) <= 1.0001, "step satisfying criterion B with " << dB << " digits at precision " << q << ", " << N << " iterations, order " << order << ": " << got << ", should be about " << want);
	unsigned np; mpfr_float ns; bt::MinimizeTrackingCost(np, ns, lo, smin, hi, smax, dB, N, order); double best = 1e300, bestp = 0; std::vector<unsigned> cand; if (lo <= 16) cand.push_back(16); unsigned a0 = lo < 20 ? 20 : (lo + 9) / 10 * 10; for (unsigned x = a0; x <= hi; x += 10) cand.push_back(x); PBT_CHECK((np == 16 && lo <= 16) || (np >= lo && np >= 17 && np <= std::max(20u, hi)), "precision " << np << " chosen between " << lo << " and " << hi); PBT_CHECK(ns <= smax && ns > 0, "step length " << double(ns) << " above the maximum " << double(smax));
	auto cost = [&](unsigned x, double s) { return (x == 16 ? 1 : 10.35 + 0.13 * x) / s; }; double sc = std::min(step_for(np), double(smax)); PBT_CHECK(std::abs(std::log10(double(ns)) - std::log10(sc)) <= 1.0001, "step length " << double(ns) << " chosen with precision " << np << ", criterion B gives " << sc); double mine = cost(np, sc); for (unsigned x : cand) { double s = std::min(step_for(x), double(smax)); PBT_CHECK(mine <= cost(x, s) * 10.1, "precision " << np << " chosen at cost " << mine << ", but precision " << x << " costs " << cost(x, s)); }
	g.nontrivial();
}
int main(int argc, char** argv) {
	Suite s; s.property = "P20"; s.assumptions = {"Square homotopies with a path known in closed form.", "For 'follow', 'limits', 'reuse': other solutions at distance at least 0.5 and step lengths small against that distance."};
	s.subs = {
		{"follow", "generated homotopies, start precision 16-100 digits, predictors, tolerances, safety digits, with and without preservation of precision; demanded: success, the end of this path within tolerance at the end time, one precision throughout. Non-trivial: more than 3 steps.", 260, 5000, follow},
		{"limits", "limits on steps, step length, size; the stored point stays on the path. Non-trivial: stopped early.", 200, 4000, limits},
		{"near_singular", "paths beside a branch point at distance 1e-1 to 1e-14 (through or ending), with maximum precision 16-300. Success must be the true end; with 300 digits success is demanded.", 160, 3000, near_singular},
		{"reuse", "one tracker through changes of precision, system, settings, failed runs, refinements: still follows. Non-trivial: at least two runs and one change.", 80, 1500, reuse},
		{"criteria", "the three criteria against the documented formulas, and the choice of precision and step length against brute force.", 1500, 20000, criteria},
	}; return run_main(s, argc, argv);
}
