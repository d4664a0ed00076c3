// P19: fixed precision tracking on homotopies with known paths.
#include "trackgen.hpp"
using namespace b2; using namespace pbt; using ref::C; using ref::R; namespace bt = bertini::tracking;
template<class T> struct TrOf; template<> struct TrOf<dbl> { using type = bt::DoublePrecisionTracker; }; template<> struct TrOf<mpfr_complex> { using type = bt::MultiplePrecisionTracker; };
template<class T> using Tr = typename TrOf<T>::type;
template<class T> void setup(Tr<T>& tr, Conf const& c) { tr.Setup(c.m->m, c.tol, c.trunc, c.st, c.nw); }
static unsigned mp_prec(Gen& g) { static const unsigned ps[] = {30, 17, 20, 40, 50, 63, 80}; return ps[g.below(7)]; }
static double digits_of(dbl, unsigned) { return 16; } static double digits_of(mpfr_complex, unsigned p) { return p; }
template<class T> R slack(Track const& k, Conf const& c, unsigned p) { return R(2.5) * R(c.tol) + eps_for<T>(p) * R(1e3) * R(k.cond); }
template<class T> struct Probe { Vec<T> x; T t; Vec<T> f; Probe(Gen& g, Hom& h, unsigned p) { std::vector<Cd> z(h.b.sys.NumVariables()); for (auto& w : z) w = Cd(0.125 * g.small_int(8), 0.125 * g.small_int(8)); x = vec<T>(z, p); t = scal<T>(Cd(0.25, 0.5), p); f = h.b.sys.Eval(x, t); } void same(Gen& g, Hom& h) { Vec<T> e = h.b.sys.Eval(x, t); for (int i = 0; i < f.size(); ++i) PBT_CHECK(e(i) == f(i), "tracking changed the value of function " << i << " of the tracked system from " << b2::str(up(f(i))) << " to " << b2::str(up(e(i)))); } };
template<class T> void succeed(Gen& g, Track const& k, Conf const& c, unsigned p, Tr<T>& tr, SuccessCode rc, Vec<T> const& end, const char* who) {
	PBT_CHECK(rc == SuccessCode::Success, who << "tracking a well separated path gives " << code(rc) << " at time " << b2::str(up(tr.CurrentTime())) << " after " << tr.NumTotalStepsTaken() << " steps");
	auto want = k.h.point<T>(k.h.at(ref::toC(k.t1)), p); PBT_CHECK(end.size() == want.size(), who << "size of the result"); R d = vdist<T>(end, want); PBT_CHECK(d <= slack<T>(k, c, p), who << "the path ends at " << vshow<T>(want) << " but tracking returned " << vshow<T>(end) << ", off by " << d.str(3) << " (tolerance " << c.tol << ")");
	C te = ref::toC(k.t1); PBT_CHECK(ref::mag(C(up(tr.CurrentTime()) - te)) <= eps_for<T>(p) * 4 * ref::mag(te), who << "success at time " << b2::str(up(tr.CurrentTime()))); PBT_CHECK(vdist<T>(tr.CurrentPoint(), end) == 0, who << "current point " << vshow<T>(tr.CurrentPoint()) << " is not the result");
	for (int i = 0; i < end.size(); ++i) PBT_CHECK(prec_of(end(i)) == (std::is_same<T, dbl>::value ? 16u : p), who << "precision of the result is " << prec_of(end(i))); PBT_CHECK(tr.CurrentPrecision() == (std::is_same<T, dbl>::value ? 16u : p), who << "precision of the tracker");
	unsigned least = 0; double len = std::abs(k.t0 - k.t1); if (len > 0) { least = std::max<double>(std::ceil(len / std::max(c.st.max_step_size, c.st.initial_step_size).template convert_to<double>() * (1 - 1e-9)), c.st.min_num_steps); } PBT_CHECK(tr.NumTotalStepsTaken() >= least, who << tr.NumTotalStepsTaken() << " steps, although settings ask for at least " << least);
}
template<class T> void follow_t(Gen& g) {
	unsigned p = std::is_same<T, dbl>::value ? 17 : mp_prec(g); HomCfg hc; Track k = gen_track(g, hc, p); Conf c = gen_conf(g, k, digits_of(T(), p)); c.trunc = k.maxnorm * 4 + 10; g.note((std::is_same<T, dbl>::value ? "double " : "mp " + std::to_string(p) + " ") + c.show()); g.label(c.m->name);
	Tr<T> tr(k.h.b.sys); setup<T>(tr, c); Probe<T> probe(g, k.h, p); auto x = k.h.point<T>(k.h.at(ref::toC(k.t0)), p); if (g.chance(50)) for (int i = 0; i < x.size(); ++i) x(i) += scal<T>(Cd(g.small_int(4), g.small_int(4)) * (c.tol / 16), p);
	auto keep = x; T a = scal<T>(k.t0, p), b = scal<T>(k.t1, p), a0 = a, b0 = b; Vec<T> end; if (g.chance(50)) end = Vec<T>::Zero(1 + g.below(4)); auto rc = tr.TrackPath(end, a, b, x); PBT_CHECK(x == keep && a == a0 && b == b0, "tracking changed its input");
	if (k.t0 == k.t1) { PBT_CHECK(rc == SuccessCode::Success && vdist<T>(end, x) == 0, "tracking over no time does not return the start point"); g.label("no time"); return; }
	succeed<T>(g, k, c, p, tr, rc, end, ""); probe.same(g, k.h); if (tr.NumTotalStepsTaken() > 3) g.nontrivial();
}
static void follow(Gen& g) { if (g.chance(40)) follow_t<mpfr_complex>(g); else follow_t<dbl>(g); }
// limits on steps, size, step length; and in every case the stored point is on the path
template<class T> void limits_t(Gen& g) {
	unsigned p = std::is_same<T, dbl>::value ? 17 : mp_prec(g); HomCfg hc; Track k = gen_track(g, hc, p); if (k.t0 == k.t1) discard("no time"); Conf c = gen_conf(g, k, digits_of(T(), p)); c.trunc = k.maxnorm * 4 + 10; c.st.min_num_steps = 1; int kind = g.below(5); double len = std::abs(k.t1 - k.t0), s = c.st.initial_step_size.template convert_to<double>(); int natural = std::ceil(len / std::min(std::max(s, c.st.max_step_size.template convert_to<double>()), len) * (1 - 1e-9)); 
	bool inf_on = true; Tr<T> tr(k.h.b.sys); if (kind == 0) c.st.max_num_steps = g.range(0, natural + 2); if (kind == 1) c.st.min_step_size = c.st.initial_step_size * mpq_rational(g.range(1, 6), 3); if (kind == 2 || kind == 3) { if (k.maxnorm < 0.05) discard("path at the origin"); static const double fr[] = {0.5, 0.9, 1.2, 0.1, 2}; c.trunc = k.maxnorm * fr[g.below(5)]; inf_on = kind == 2; } if (kind == 4) { c.st.min_num_steps = g.range(2, 200); if (g.chance(50)) c.st.min_step_size = dy(len / 64); }
	setup<T>(tr, c); if (!inf_on) tr.SetInfiniteTruncation(false); else if (g.chance(30)) { tr.SetInfiniteTruncation(false); tr.SetInfiniteTruncation(true); } if (g.chance(30)) { tr.SetInfiniteTruncationTolerance(c.trunc); } PBT_CHECK(tr.InfiniteTruncation() == inf_on && tr.InfiniteTruncationTolerance() == c.trunc && tr.TrackingTolerance() == c.tol && tr.GetPredictor() == c.m->m && tr.NumVariables() == unsigned(k.h.b.sys.NumVariables()), "settings not kept");
	std::ostringstream o; o << c.show() << " max steps " << c.st.max_num_steps << " min step " << c.st.min_step_size.template convert_to<double>() << " truncation " << c.trunc << (inf_on ? "" : " off") << " largest norm " << k.maxnorm; g.note((std::is_same<T, dbl>::value ? "double " : "mp ") + o.str());
	auto x = k.h.point<T>(k.h.at(ref::toC(k.t0)), p); Vec<T> end; auto rc = tr.TrackPath(end, scal<T>(k.t0, p), scal<T>(k.t1, p), x); g.label(std::string(kind == 0 ? "max steps " : kind == 1 ? "min step " : kind == 2 ? "truncation " : kind == 3 ? "truncation off " : "min number ") + code(rc)); double total = tr.NumTotalStepsTaken();
	auto onpath = [&](C const& t, Vec<T> const& v, const char* what) { auto w = k.h.point<T>(k.h.at(t), p); R d = vdist<T>(v, w); PBT_CHECK(d <= slack<T>(k, c, p) + eps_for<T>(p) * R(1e3) * R(k.cond) * R(1 / k.safe), what << ": after " << code(rc) << " at time " << b2::str(t) << " the tracker is at " << vshow<T>(v) << ", path at " << vshow<T>(w)); };
	C now = up(tr.CurrentTime()); double smin = c.st.min_step_size.template convert_to<double>(), first = std::min(s, len / c.st.min_num_steps);
	if (kind == 1 || kind == 4) { if (first < smin * (1 - 1e-9)) PBT_CHECK(rc == SuccessCode::MinStepSizeReached && total == 0, "steps shorter than allowed: " << code(rc) << " after " << total << " steps"); else if (first > smin * (1 + 1e-9)) { PBT_CHECK(rc == SuccessCode::Success || rc == SuccessCode::MinStepSizeReached, code(rc)); if (rc == SuccessCode::MinStepSizeReached) { PBT_CHECK(total > 0, "minimum step size reported at once"); PBT_CHECK(double(tr.CurrentStepsize()) < smin * (1 + 1e-12), "step size " << double(tr.CurrentStepsize()) << " is not below the minimum " << smin); } } }
	if (kind == 0) { PBT_CHECK(rc == SuccessCode::Success || rc == SuccessCode::MaxNumStepsTaken, code(rc)); if (int(c.st.max_num_steps) < natural) { PBT_CHECK(rc == SuccessCode::MaxNumStepsTaken, "success although at least " << natural << " steps are needed and " << c.st.max_num_steps << " allowed"); } if (rc == SuccessCode::MaxNumStepsTaken) PBT_CHECK(total >= c.st.max_num_steps, total << " steps of " << c.st.max_num_steps); }
	if (kind == 2) { // times at which the norm is compared are the accepted steps; only clear cases are decided
		if (c.trunc > k.maxnorm * 1.05 + 0.01) PBT_CHECK(rc == SuccessCode::Success, "largest norm " << k.maxnorm << ", threshold " << c.trunc << ": " << code(rc)); if (c.trunc < k.endnorm * 0.99 - 1e-3) PBT_CHECK(rc == SuccessCode::GoingToInfinity, "norm at the end " << k.endnorm << ", threshold " << c.trunc << ": " << code(rc)); PBT_CHECK(rc == SuccessCode::Success || rc == SuccessCode::GoingToInfinity, code(rc));
		if (rc == SuccessCode::GoingToInfinity) { double n = 0; for (auto& z : k.h.affine<T>(tr.CurrentPoint())) n += std::norm(toCd(z)); n = std::sqrt(n); PBT_CHECK(n > c.trunc * (1 - 1e-9), "called infinite at norm " << n << ", threshold " << c.trunc); } }
	if (kind == 3) PBT_CHECK(rc == SuccessCode::Success, "truncation is off: " << code(rc));
	if (rc == SuccessCode::Success) succeed<T>(g, k, c, p, tr, rc, end, ""); else if (rc != SuccessCode::GoingToInfinity) onpath(now, tr.CurrentPoint(), "stored point"); if (rc != SuccessCode::Success) g.nontrivial();
}
static void limits(Gen& g) { if (g.chance(35)) limits_t<mpfr_complex>(g); else limits_t<dbl>(g); }
// reuse: a tracker with a history gives what a new one gives
template<class T> void reuse_t(Gen& g) {
	unsigned p = std::is_same<T, dbl>::value ? 17 : mp_prec(g); HomCfg hc; hc.maxv = 2; std::vector<Track> ks; for (int i = 0; i < 2; ++i) ks.push_back(gen_track(g, hc, p)); for (auto& k : ks) if (k.t0 == k.t1) discard("no time");
	int which = 0; Conf c = gen_conf(g, ks[0], digits_of(T(), p)); c.trunc = 1e5; Tr<T> tr(ks[0].h.b.sys); setup<T>(tr, c); bool reinit = true, trunc = true; int n = g.range(2, 6), done = 0; bool changed = false, failed_before = false;
	for (int s = 0; s < n; ++s) {
		Track& k = ks[which];
		switch (g.below(9)) {
		case 0: { auto& m = meths[g.below(8)]; if (m.order == 0 && c.tol < 1e-6) break; c.m = &m; tr.SetPredictor(c.m->m); g.note(std::string("predictor ") + c.m->name); changed = true; break; }
		case 1: { double tol = std::pow(10., -double(g.range(4, 6))); c.tol = tol; tr.SetTrackingTolerance(tol); g.note("tolerance " + std::to_string(tol)); changed = true; break; }
		case 2: { which = !which; tr.SetSystem(ks[which].h.b.sys); PBT_CHECK(&tr.GetSystem() == &ks[which].h.b.sys, "system"); Conf d = gen_conf(g, ks[which], digits_of(T(), p)); d.trunc = 1e5; c = d; setup<T>(tr, c); g.note("other system, " + c.show()); changed = true; break; }
		case 3: { Conf d = gen_conf(g, k, digits_of(T(), p)); d.trunc = 1e5; c = d; setup<T>(tr, c); g.note("setup " + c.show()); changed = true; break; }
		case 4: { // a path that fails
			SteppingConfig bad = c.st; bad.max_num_steps = g.below(3); tr.template Set<SteppingConfig>(bad); Vec<T> e; auto rc = tr.TrackPath(e, scal<T>(k.t0, p), scal<T>(k.t1, p), k.h.point<T>(k.h.at(ref::toC(k.t0)), p)); g.note(std::string("limited run: ") + code(rc)); tr.template Set<SteppingConfig>(c.st); failed_before = true; break; }
		case 5: { // wandering refinement
			Vec<T> e; auto x = k.h.point<T>(k.h.at(ref::toC(k.t0)), p); for (int i = 0; i < x.size(); ++i) x(i) += scal<T>(Cd(0.001, 0.0005), p); auto rc = tr.Refine(e, x, scal<T>(k.t0, p), 1e-6, 8u); PBT_CHECK(rc == SuccessCode::Success, "refining a point near the path: " << code(rc)); R d = vdist<T>(e, k.h.point<T>(k.h.at(ref::toC(k.t0)), p)); PBT_CHECK(d <= R(2.5e-6) + eps_for<T>(p) * 1000 * R(k.cond), "refined point is off by " << d.str(3)); g.note("refine"); break; }
		case 6: { // wrong input is refused
			bool threw = false; try { Vec<T> e; Vec<T> x = Vec<T>::Zero(k.h.b.sys.NumVariables() + 1); tr.TrackPath(e, scal<T>(k.t0, p), scal<T>(k.t1, p), x); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "a start point of wrong size is accepted"); if (!std::is_same<T, dbl>::value) { threw = false; auto x = k.h.point<T>(k.h.at(ref::toC(k.t0)), p); set_prec(p + 10); try { Vec<T> e; for (int i = 0; i < x.size(); ++i) x(i) = scal<T>(Cd(1), p + 10); tr.TrackPath(e, scal<T>(k.t0, p + 10), scal<T>(k.t1, p + 10), x); } catch (std::exception const&) { threw = true; } set_prec(p); PBT_CHECK(threw, "a start point of another precision is accepted"); } for (double bad : {0., -1.}) { threw = false; try { tr.SetTrackingTolerance(bad); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "tolerance " << bad << " accepted"); } g.note("wrong input"); break; }
		default: ;
		}
		Track& q = ks[which]; auto x = q.h.point<T>(q.h.at(ref::toC(q.t0)), p); Vec<T> e1, e2; auto r1 = tr.TrackPath(e1, scal<T>(q.t0, p), scal<T>(q.t1, p), x); Tr<T> fresh(q.h.b.sys); setup<T>(fresh, c); auto r2 = fresh.TrackPath(e2, scal<T>(q.t0, p), scal<T>(q.t1, p), x);
		PBT_CHECK(r1 == r2, "used tracker: " << code(r1) << ", new tracker: " << code(r2)); PBT_CHECK(tr.NumTotalStepsTaken() == fresh.NumTotalStepsTaken(), "used tracker takes " << tr.NumTotalStepsTaken() << " steps, new one " << fresh.NumTotalStepsTaken()); if (r1 == SuccessCode::Success) { R d = vdist<T>(e1, e2); PBT_CHECK(d <= eps_for<T>(p) * 100 * R(q.cond), "used tracker ends at " << vshow<T>(e1) << ", new one at " << vshow<T>(e2)); }
		if (q.maxnorm < 5e4) succeed<T>(g, q, c, p, tr, r1, e1, "used tracker: "); ++done; g.note("track"); }
	if (done > 1 && (changed || failed_before)) g.nontrivial();
}
static void reuse(Gen& g) { if (g.chance(35)) reuse_t<mpfr_complex>(g); else reuse_t<dbl>(g); }
// any path and settings at all: success means a solution at the end time
template<class T> void sound_t(Gen& g) {
	unsigned p = std::is_same<T, dbl>::value ? 17 : mp_prec(g); set_prec(p); HomCfg hc; hc.sep = 0.1; Track k; k.t0 = g.chance(60) ? Cd(1) : Cd(1, 0.25); k.t1 = g.chance(60) ? Cd(0) : Cd(0.0625 * g.range(0, 8), 0); k.h = gen_hom(g, hc, k.t0); precise(k.h, p); Conf c; c.m = &meths[g.below(8)]; c.tol = std::pow(10., -double(g.range(2, 9))); c.st.initial_step_size = mpq_rational(1, g.range(1, 64)); c.st.step_size_fail_factor = mpq_rational(g.range(1, 3), 4); c.st.min_step_size = mpq_rational(1, 1 << 20); c.st.max_num_steps = 2000; c.nw.max_num_newton_iterations = g.range(1, 5); c.trunc = 1e4; g.note(c.show());
	Tr<T> tr(k.h.b.sys); setup<T>(tr, c); auto x = k.h.point<T>(k.h.at(ref::toC(k.t0)), p); Vec<T> end; auto rc = tr.TrackPath(end, scal<T>(k.t0, p), scal<T>(k.t1, p), x); g.label(code(rc)); PBT_CHECK(rc == SuccessCode::Success || rc == SuccessCode::MaxNumStepsTaken || rc == SuccessCode::MinStepSizeReached || rc == SuccessCode::GoingToInfinity, "tracking ends with " << code(rc)); if (rc != SuccessCode::Success) return;
	auto z = k.h.affine<T>(end); for (auto& w : z) PBT_CHECK(w == w, "success with a non-number"); std::vector<C> f, dz; std::vector<std::vector<C>> J; k.h.refeval(z, ref::toC(k.t1), f, J); double I = invnorm(J), F = fro(J), nz = rnorm(z).template convert_to<double>(); if (I > 1e8 || nz > 1e3) { g.label("nearly singular end"); return; } for (auto& v : f) v = -v; rsolve(J, f, dz); double d = rnorm(dz).template convert_to<double>(); double sc = k.h.homd ? 4 * (1 + nz) / std::min(1., toCd(up(end(0))).real() * 0 + std::abs(toCd(up(end(0))))) : 1;
	double noise = (eps_for<T>(p) * R(1e4) * R(I) * R(F + 1) * R(1 + nz)).template convert_to<double>(); double newton_quadratic = I * c.tol; PBT_CHECK(d <= c.tol * 2 * sc * (1 + (newton_quadratic > 0.1 ? 10 * newton_quadratic : 0)) + noise, "success, but Newton's method moves the result " << vshow<T>(end) << " by " << d << " (tolerance " << c.tol << ", |J^-1| " << I << ")"); g.nontrivial();
}
static void sound(Gen& g) { if (g.chance(30)) sound_t<mpfr_complex>(g); else sound_t<dbl>(g); }
// the lengths of steps follow the settings
template<class Tr> struct StepLog : bertini::Observer<Tr> { using Em = typename bt::TrackerTraits<Tr>::EventEmitterType; using CT = typename bt::TrackerTraits<Tr>::BaseComplexType; struct E { char k; R size; C time, dt; }; std::vector<E> ev;
	void Observe(bertini::AnyEvent const& e) override { auto any = dynamic_cast<bt::TrackingEvent<Em> const*>(&e); if (!any) return; char k = dynamic_cast<bt::NewStep<Em> const*>(&e) ? 'n' : dynamic_cast<bt::SuccessfulStep<Em> const*>(&e) ? 's' : dynamic_cast<bt::FailedStep<Em> const*>(&e) ? 'f' : 0; if (!k) return; auto& t = any->Get(); E x; x.k = k; x.size = k == 'n' ? R(up(CT(t.CurrentStepsize())).real()) : R(0); if (k == 'n') { x.time = up(t.CurrentTime()); x.dt = up(t.DeltaT()); } ev.push_back(x); } };
template<class T> void steps_t(Gen& g) {
	unsigned p = std::is_same<T, dbl>::value ? 17 : mp_prec(g); HomCfg hc; Track k = gen_track(g, hc, p, 0.2); if (k.t0 == k.t1) discard("no time"); Conf c = gen_conf(g, k, digits_of(T(), p)); c.trunc = 1e6; auto& st = c.st; static const int ff[][2] = {{2, 1}, {3, 2}, {3, 1}, {1, 1}, {5, 4}, {10, 1}}, lf[][2] = {{1, 2}, {1, 4}, {3, 4}, {1, 10}}, ms[][2] = {{1, 1}, {1, 4}, {1, 10}, {1, 32}}; auto q = [](const int* a) { return mpq_rational(a[0], a[1]); }; st.step_size_success_factor = q(ff[g.below(6)]); st.step_size_fail_factor = q(lf[g.below(4)]); st.consecutive_successful_steps_before_stepsize_increase = g.range(1, 7); st.max_step_size = q(ms[g.below(4)]); if (g.chance(70)) { st.initial_step_size = st.max_step_size * mpq_rational(1, 1 << g.below(6)); } st.max_num_steps = g.range(20, 250); st.min_num_steps = g.chance(30) ? g.range(2, 30) : 1; if (g.chance(40)) c.nw.max_num_newton_iterations = c.nw.min_num_newton_iterations = 1; std::ostringstream o; o << c.show() << " success factor " << st.step_size_success_factor << " fail factor " << st.step_size_fail_factor << " after " << st.consecutive_successful_steps_before_stepsize_increase; g.note(o.str());
	Tr<T> tr(k.h.b.sys); setup<T>(tr, c); StepLog<Tr<T>> log; tr.AddObserver(log); auto x = k.h.point<T>(k.h.at(ref::toC(k.t0)), p); int runs = g.range(1, 2); bool reinit = true; R have(0); R eps = eps_for<T>(p) * 8; auto near = [&](R const& a, R const& b) { return boost::multiprecision::abs(R(a - b)) <= eps * b * 16; };
	for (int r = 0; r < runs; ++r) { if (r) { if (g.chance(40)) { reinit = false; tr.ReinitializeInitialStepSize(false); g.note("keeping the step size"); } if (!reinit && g.chance(40)) { have = R(1) / R(g.range(3, 50)); if constexpr (std::is_same<T, dbl>::value) tr.SetStepSize(have.convert_to<double>()); else { bertini::mpfr_float h(have); h.precision(p); tr.SetStepSize(h); have = R(h); } } } log.ev.clear(); Vec<T> e; auto rc = tr.TrackPath(e, scal<T>(k.t0, p), scal<T>(k.t1, p), x);
		R len = ref::mag(C(ref::toC(k.t1) - ref::toC(k.t0))), most = std::min(R(st.max_step_size), R(len / st.min_num_steps)), size = reinit ? std::min(R(st.initial_step_size), R(len / st.min_num_steps)) : have; unsigned run = 0, grown = 0, failed = 0; 
		for (size_t i = 0; i < log.ev.size(); ++i) { auto& v = log.ev[i]; if (v.k == 'n') { PBT_CHECK(near(v.size, size), "run " << r << " step " << i / 2 << ": step size " << v.size.str(12) << ", settings ask for " << size.str(12) << " (" << run << " successes since the last change)"); C left = ref::toC(k.t1) - v.time; R d = ref::mag(left); C want = d < size ? left : C(left * C(size / d)); if (boost::multiprecision::abs(R(d - size)) > eps * 100) PBT_CHECK(ref::mag(C(want - v.dt)) <= eps * 16 * (ref::mag(want) + len), "a step at time " << b2::str(v.time) << " of " << b2::str(v.dt) << ", expected " << b2::str(want)); }
			else if (v.k == 's') { if (++run >= st.consecutive_successful_steps_before_stepsize_increase) { R n = std::min(R(size * R(st.step_size_success_factor)), most); if (n > size * (1 + eps * 4)) { size = n; run = 0; ++grown; } else if (n > size) { size = n; run = 0; } } } else { run = 0; size *= R(st.step_size_fail_factor); ++failed; } }
		have = up(T(tr.CurrentStepsize())).real(); PBT_CHECK(near(have, size), "after " << code(rc) << " the step size is " << have.str(12) << ", settings ask for " << size.str(12)); if (grown) g.label("grown"); if (failed) g.label("failed steps"); if (grown && failed) g.nontrivial(); }
}
static void steps(Gen& g) { if (g.chance(30)) steps_t<mpfr_complex>(g); else steps_t<dbl>(g); }
int main(int argc, char** argv) {
	Suite s; s.property = "P19"; s.assumptions = {"Square homotopies with a path known in closed form, other solutions at distance at least 0.5 and condition below 1e6, step lengths small against that distance (otherwise only that a success is a solution is checked).", "Double precision, and fixed multiple precision of 17-80 digits."};
	s.subs = {
		{"follow", "generated homotopies (1-3 variables, polynomial and transcendental in time, some homogenized and patched), times and settings; demanded: success, the end of this path within tolerance, the end time, inputs and system untouched. Non-trivial: more than 3 steps.", 350, 8000, follow},
		{"limits", "maximum and minimum number of steps, minimum step length, truncation thresholds: the right code in decided cases, the stored point on the path. Non-trivial: tracking stopped early.", 280, 6000, limits},
		{"reuse", "one tracker through changes of predictor, tolerance, settings, system, failed runs, refinements, refused calls: same codes, steps and ends as a new tracker. Non-trivial: at least two runs and one change.", 110, 3000, reuse},
		{"sound", "arbitrary step lengths and separations: success implies a solution at the end time within tolerance.", 280, 6000, sound},
		{"steps", "factors and counts for growing and shrinking steps, longest and least steps, reinitialized or kept step sizes: every step has the length settings ask for. Non-trivial: steps grew and failed.", 280, 6000, steps},
	}; return run_main(s, argc, argv);
}
