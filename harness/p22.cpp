// P22: Cauchy endgame on paths with known Puiseux expansions
#include "eggen.hpp"
using namespace b2; using namespace pbt; using ref::C; using ref::R;
template<class Tr> using EG = typename be::EndgameSelector<Tr>::Cauchy;
template<class Tr> struct World { using T = typename CT_<Tr>::type; Pui h; EgConf c; unsigned p; std::unique_ptr<Tr> tr; std::unique_ptr<EG<Tr>> eg; };
template<class Tr> static const char* nm() { return std::is_same<Tr, bt::AMPTracker>::value ? "adaptive" : std::is_same<Tr, bt::DoublePrecisionTracker>::value ? "double" : "multiple"; }
// close to the target a tracker with long steps can end on another branch of the same path; any branch will do
template<class T> static R nearest(Pui h, Vec<T> const& x, R const& share, unsigned q, unsigned back) { R best(1e300); precise(h, q); int c0 = h.comp[0].c, c1 = h.comp.size() > 1 ? h.comp[1].c : 1; for (int i = 0; i < c0; ++i) for (int j = 0; j < c1; ++j) { h.comp[0].branch = i; if (h.comp.size() > 1) h.comp[1].branch = j; R d = vdist<T>(x, h.template point<T>(h.at(share), q)); if (!(d >= best)) best = d; } precise(h, back); return best; }
template<class Tr> static unsigned prec(Gen& g) { if (std::is_same<Tr, bt::DoublePrecisionTracker>::value) return 16; static const unsigned a[] = {16, 30, 50, 20}, m[] = {30, 50, 40, 70}; return std::is_same<Tr, bt::AMPTracker>::value ? a[g.below(4)] : m[g.below(4)]; }
template<class Tr> static void make(World<Tr>& w) { precise(w.h, w.p); w.tr = std::make_unique<Tr>(w.h.b.sys); eg_setup(*w.tr, w.c, w.h); w.eg = std::make_unique<EG<Tr>>(*w.tr, w.c.e, w.c.ca, w.c.sec); }
template<class Tr> static SuccessCode go(Gen& g, World<Tr>& w) { using T = typename World<Tr>::T; precise(w.h, w.p); Vec<T> x = w.h.template point<T>(w.h.at(R(1)), w.p), x0 = x; T a = scal<T>(w.h.t0, w.p), b = scal<T>(w.h.ts, w.p), a0 = a, b0 = b; SuccessCode rc = w.h.ts == 0. && g.chance(50) ? w.eg->Run(a, x) : w.eg->Run(a, x, b); PBT_CHECK(x == x0 && a == a0 && b == b0, "the endgame changed its input"); g.note(std::string(nm<Tr>()) + " " + code(rc)); g.label(std::string(nm<Tr>()) + " " + code(rc)); return rc; }
// the samples the endgame holds lie on the path, at times approaching the target by the sample factor
template<class Tr> static void samples(Gen& g, World<Tr>& w) {
	using T = typename World<Tr>::T; auto& ts = w.eg->template GetPSEGTimes<T>(); auto& ss = w.eg->template GetPSEGSamples<T>(); unsigned n = w.c.e.num_sample_points; PBT_CHECK(ts.size() == ss.size() && ts.size() == n, ts.size() << " times, " << ss.size() << " samples, " << n << " asked for"); PBT_CHECK(w.eg->LatestTime() == ts.back(), "latest time");
	R eps = std::is_same<Tr, bt::AMPTracker>::value ? eps_of(16) : eps_of(w.p), f = R(w.c.e.sample_factor); auto here = bertini::DefaultPrecision(); C t0 = ref::toC(w.h.t0), tg = ref::toC(w.h.ts); R full = ref::mag(C(t0 - tg));
	for (size_t i = 0; i < ts.size(); ++i) { C tau = up(ts[i]) - tg; R share = ref::mag(tau) / full; if (share < eps * 1e6) continue; PBT_CHECK(ref::mag(C(tau - (t0 - tg) * share)) <= (full + ref::mag(tg)) * eps * 50, "sample time " << b2::str(up(ts[i])) << " is not between start and target");
		if (i + 1 < ts.size()) { C next = up(ts[i + 1]) - tg; PBT_CHECK(ref::mag(C(next - tau * f)) <= (ref::mag(tau) + ref::mag(tg)) * eps * 50, "successive sample times " << b2::str(up(ts[i])) << " and " << b2::str(up(ts[i + 1])) << " do not approach " << b2::str(tg) << " by the factor " << f.str(4)); }
		unsigned q = std::max(w.p, prec_of(ss[i](0))) + 20; precise(w.h, q); auto want = w.h.template point<T>(w.h.at(share), q); precise(w.h, here); R d = nearest<T>(w.h, ss[i], share, q, here), noise = eps * 1e5 / share + R(w.c.e.final_tolerance); PBT_CHECK(d <= noise + R(5 * w.c.tol) || share < eps * 1e9, "sample at " << b2::str(up(ts[i])) << " is " << vshow<T>(ss[i]) << " but the path is at " << vshow<T>(want)); } }
template<class Tr> static void verify(Gen& g, World<Tr>& w, const char* who = "") {
	using T = typename World<Tr>::T; Pui& h = w.h; EgConf& c = w.c; auto e = w.eg->template FinalApproximation<T>(); constexpr bool adaptive = std::is_same<Tr, bt::AMPTracker>::value; auto here = bertini::DefaultPrecision(); unsigned q = std::max(w.p, here) + 20; precise(h, q); Vec<T> want = h.template end<T>(q); precise(h, here); PBT_CHECK(e.size() == want.size(), who << "size of the approximation"); R d = vdist<T>(e, want);
	for (int i = 0; i < e.size(); ++i) PBT_CHECK(prec_of(e(i)) == (adaptive ? prec_of(e(0)) : w.p), who << "precision of the approximation " << prec_of(e(i)));
	R left = ref::mag(C(up(w.eg->LatestTime()) - ref::toC(h.ts))), allow = R(50) * R(c.e.final_tolerance); std::ostringstream o; o << "error " << d.str(3) << " estimate " << w.eg->ApproximateError() << " cycle " << w.eg->CycleNumber() << " latest time " << left.str(3) << " before the target, precision " << prec_of(e(0)); g.note(o.str());
	// in fixed precision a root of multiplicity c is attainable to about eps^(1/c) only, once sampling has run into rounding
	int mult = 1; for (auto& k : h.comp) mult = std::max(mult, k.c); if (!adaptive && left < eps_of(w.p) * 1e4) allow += R(10) * boost::multiprecision::pow(R(eps_of(w.p) * 1000), R(1) / mult);
	PBT_CHECK(w.eg->ApproximateError() <= c.e.final_tolerance, who << "success with estimated error " << w.eg->ApproximateError() << ", final tolerance " << c.e.final_tolerance);
	PBT_CHECK(d <= allow, who << "the path ends at " << vshow<T>(want) << " but the endgame reports success with " << vshow<T>(e) << ", off by " << d.str(3) << " (final tolerance " << c.e.final_tolerance << ")");
	PBT_CHECK(vdist<T>(w.eg->template PreviousApproximation<T>(), want) <= allow * 1000, who << "the previous approximation is far off");
	if (left > eps_of(w.p) * 1e6 && boost::multiprecision::pow(left, R(1) / mult) > R(1000 * c.tol) && h.comp.size() == 1 && h.comp[0].k == 1 && !h.inf && !(h.comp[0].c == 1)) PBT_CHECK(w.eg->CycleNumber() % h.cycle == 0, who << "cycle number " << w.eg->CycleNumber() << " reported for a path of cycle number " << h.cycle);
	samples<Tr>(g, w); g.label(std::string("cycle ") + (w.eg->CycleNumber() == unsigned(h.cycle) ? "right" : w.eg->CycleNumber() % h.cycle == 0 ? "multiple" : "wrong")); g.nontrivial(); }
template<class Tr> static bool easy(World<Tr>& w) { for (auto& q : w.h.comp) if (q.c > 2) return false; double f = w.c.e.sample_factor.template convert_to<double>(); return w.h.comp.size() == 1 && w.p >= 30 && f < 0.55 && f > 0.2 && w.c.m->order >= 4; }
template<class Tr> static void run(Gen& g) { World<Tr> w; w.p = prec<Tr>(g); set_prec(w.p); w.h = gen_pui(g, PuiCfg()); w.c = gen_egconf(g); w.c.sec.level = g.below(2); make(w); auto rc = go(g, w); if (easy(w)) { g.label("success demanded"); PBT_CHECK(rc == SuccessCode::Success, "an easy path, but the endgame reports " << code(rc)); } if (rc == SuccessCode::Success) verify(g, w); }
// stopping rules: time too close to the target, norm too large
template<class Tr> static void limits(Gen& g) {
	World<Tr> w; w.p = prec<Tr>(g); set_prec(w.p); int kind = g.below(3); PuiCfg cf; cf.infinite = kind == 2; cf.maxc = 3; w.h = gen_pui(g, cf); w.c = gen_egconf(g); w.c.sec.level = g.range(-1, 2); using T = typename World<Tr>::T; double r = std::abs(w.h.t0 - w.h.ts); auto E = w.h.inf ? std::vector<C>() : w.h.at(R(0)); R big(0); for (auto& z : E) big = std::max(big, ref::mag(z)); double en = big.convert_to<double>();
	if (kind == 0) { w.c.e.min_track_time = r * std::pow(10., -double(g.range(0, 5))) * (1 + g.below(3)) / 3; w.c.e.final_tolerance = 1e-11; } if (kind == 1) { if (en < 0.2) discard("ends near the origin"); static const double fr[] = {0.5, 0.1, 20}; int f = g.below(3); w.c.sec.max_norm = f == 2 ? 20 * en + 100 : en * fr[f]; }
	std::ostringstream o; o << "minimal time " << w.c.e.min_track_time << " security level " << w.c.sec.level << " max norm " << w.c.sec.max_norm << " end of norm " << en; g.note(o.str()); make(w); auto rc = go(g, w); R left = ref::mag(C(up(w.eg->LatestTime()) - ref::toC(w.h.ts))); double f = w.c.e.sample_factor.template convert_to<double>(), first = r * std::pow(f, double(w.c.e.num_sample_points) - 1);
	if (kind == 0) { g.label("minimal time"); bool initial = left.template convert_to<double>() > first * (1 - 1e-6); PBT_CHECK(initial || left >= R(w.c.e.min_track_time) * R(1 - 1e-10), "sampled at " << left.str(4) << " before the target, although " << w.c.e.min_track_time << " is the minimum"); if (rc == SuccessCode::MinTrackTimeReached) { PBT_CHECK(left * R(f) <= R(w.c.e.min_track_time) * R(1 + 1e-10), "minimal time reported at " << left.str(4)); g.nontrivial(); } }
	if (kind == 1) { g.label("max norm"); if (w.c.sec.level > 0 || w.c.sec.max_norm > 10 * en + 10) PBT_CHECK(rc != SuccessCode::SecurityMaxNormReached, "norm limit reported"); else { PBT_CHECK(!easy(w) || rc == SuccessCode::Success || rc == SuccessCode::SecurityMaxNormReached, code(rc)); g.nontrivial(); } }
	if (kind == 2) { g.label("to infinity"); if (w.c.sec.level <= 0) { if (easy(w)) PBT_CHECK(rc == SuccessCode::SecurityMaxNormReached || rc == SuccessCode::Success, "a path to infinity, but the endgame reports " << code(rc)); g.nontrivial(); } else PBT_CHECK(rc != SuccessCode::SecurityMaxNormReached, "norm limit reported at security level " << w.c.sec.level); }
	if (rc == SuccessCode::Success) verify(g, w); }
// one endgame object for many runs
template<class Tr> static void reuse(Gen& g) {
	World<Tr> w; w.p = prec<Tr>(g); set_prec(w.p); w.h = gen_pui(g, PuiCfg()); w.c = gen_egconf(g); make(w); int n = g.range(2, 4); for (int i = 0; i < n; ++i) {
		switch (g.below(6)) {
		case 0: { auto e = w.c.e; e.min_track_time = 0.05; w.eg->template Set<be::EndgameConfig>(e); go(g, w); w.eg->template Set<be::EndgameConfig>(w.c.e); break; }
		case 1: { auto c2 = gen_egconf(g); w.c.e = c2.e; w.c.ca = c2.ca; w.eg->template Set<be::EndgameConfig>(w.c.e); w.eg->template Set<be::CauchyConfig>(w.c.ca); break; }
		case 2: { double ft = std::pow(10., -double(g.range(7, 11))); w.c.e.final_tolerance = ft; w.eg->template Set<be::EndgameConfig>(w.c.e); std::ostringstream o; o << "final tolerance " << ft; g.note(o.str()); break; }
		case 3: { auto& q = w.h.comp[0]; q.branch = g.below(q.c); g.note("branch " + std::to_string(q.branch)); break; }
		case 4: { if (std::is_same<Tr, bt::AMPTracker>::value) { w.p = prec<Tr>(g); g.note("precision " + std::to_string(w.p)); } break; }
		default: { auto t2 = std::make_unique<Tr>(w.h.b.sys); eg_setup(*t2, w.c, w.h); w.eg->SetTracker(*t2); w.tr = std::move(t2); g.note("other tracker"); } }
		auto rc = go(g, w); if (easy(w)) PBT_CHECK(rc == SuccessCode::Success, "an easy path, but a used endgame reports " << code(rc)); if (rc == SuccessCode::Success) verify(g, w, "used endgame: "); } }
using D = bt::DoublePrecisionTracker; using M = bt::MultiplePrecisionTracker; using A = bt::AMPTracker;
static void limits_all(Gen& g) { switch (g.below(3)) { case 0: return limits<D>(g); case 1: return limits<M>(g); default: return limits<A>(g); } }
static void reuse_all(Gen& g) { switch (g.below(3)) { case 0: return reuse<D>(g); case 1: return reuse<M>(g); default: return reuse<A>(g); } }
// circles, closing of loops and the Cauchy integral on exact data x = a + u tau^(k/c)
static void steps(Gen& g) {
	unsigned p = g.chance(50) ? 30 : 50; set_prec(p); using T = mpfr_complex; SysSpec s; int n = g.range(1, 3); s.nv = n; s.path = true; std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); s.groups.push_back({SysSpec::Affine, all}); Cd ts = g.chance(50) ? Cd(0) : Cd(0.25 * g.small_int(4), 0.25 * g.small_int(4)); int c = g.range(1, 5), k = g.range(1, 3); while (gcd_(c, k) != 1) k = 1; double r = g.chance(50) ? 0.125 : 0.5; Cd dir = g.chance(50) ? Cd(1) : Cd(-1, 1); ref::P t = ref::var(n), tau = ts == 0. ? t : ref::sum({t, cnum(ts)}, {true, false}); std::vector<Cd> a(n), b(n); for (int i = 0; i < n; ++i) { a[i] = dyadic(g, 8, 4); b[i] = dyadic(g, 4, 4) + Cd(0.5, 0); if (b[i] == 0.) b[i] = 1; }
	ref::P w = ref::sum({ref::var(0), cnum(a[0])}, {true, false}); Cd bc = 1; for (int i = 0; i < c; ++i) bc *= b[0]; ref::P tk = k == 1 ? tau : ref::ipow(tau, k); s.f.push_back(ref::sum({c == 1 ? w : ref::ipow(w, c), ref::mult({cnum(bc), tk}, {true, true})}, {true, false})); for (int i = 1; i < n; ++i) s.f.push_back(ref::sum({ref::mult({cnum(b[0]), ref::sum({ref::var(i), cnum(a[i])}, {true, false})}, {true, true}), ref::mult({cnum(b[i]), w}, {true, true})}, {true, false})); auto B = build(g, s);
	be::EndgameConfig e; e.num_sample_points = g.range(3, 8); static const int fs[][2] = {{1, 2}, {1, 4}, {2, 5}, {3, 5}, {1, 10}}; auto& f = fs[g.below(5)]; e.sample_factor = mpq_rational(f[0], f[1]); be::CauchyConfig ca; ca.num_needed_for_stabilization = g.range(2, 4); static const double ms[] = {0.751, 0.551, 0.911}; ca.minimum_for_c_over_k_stabilization = ms[g.below(3)]; B.sys.precision(p); M tr(B.sys); SteppingConfig st; st.initial_step_size = mpq_rational(1, 64) * dy(r); st.max_step_size = st.initial_step_size; tr.Setup(Predictor::RKCashKarp45, 1e-8, 1e5, st, NewtonConfig()); EG<M> eg(tr, e, ca);
	std::ostringstream o; o << s.show() << "\n exponent " << k << "/" << c << " target " << ts << " radius " << r << " samples " << e.num_sample_points << " factor " << e.sample_factor; g.note(o.str()); C t0 = ref::toC(r * dir); R pi = boost::math::constants::pi<R>();
	auto path = [&](R const& share, R const& angle) { C z(1), q = Pui::root(t0, c) * R(boost::multiprecision::pow(share, R(1) / c)) * C(boost::multiprecision::cos(R(angle / c)), boost::multiprecision::sin(R(angle / c))); for (int j = 0; j < k; ++j) z *= q; Vec<T> x(n); for (int j = 0; j < n; ++j) x(j) = down(C(ref::toC(a[j]) + ref::toC(b[j]) * z), p); return x; };
	bertini::TimeCont<T> times; bertini::SampCont<T> samp; R share(1); for (unsigned i = 0; i < e.num_sample_points; ++i) { times.push_back(down(C(ref::toC(ts) + t0 * share), p)); samp.push_back(path(share, R(0))); share *= R(e.sample_factor); } eg.SetPSEGTimes(times); eg.SetPSEGSamples(samp); R ck = up(T(eg.ComputeCOverK<T>())).real(), want = std::max(R(1), R(c) / k); PBT_CHECK(boost::multiprecision::abs(R(ck - want)) <= eps_of(p) * 1e8, "c over k estimated as " << ck.str(6) << ", should be " << want.str(6));
	{ bertini::TimeCont<T> arr; unsigned m = ca.num_needed_for_stabilization + g.below(3); bool stable = true; double last = 0; for (unsigned i = 0; i < m; ++i) { double v = 1 + 0.125 * g.below(8); arr.push_back(lift(Cd(v), p)); if (i && i < ca.num_needed_for_stabilization && std::min(v, last) / std::max(v, last) < ca.minimum_for_c_over_k_stabilization) stable = false; last = v; } PBT_CHECK(eg.CheckForCOverKStabilization<T>(arr) == stable, "stabilization of c over k reported " << !stable); }
	T tt = down(ref::toC(ts), p); eg.ClearAndSeedCauchyData<T>(); R sh = ref::mag(C(up(times.back()) - ref::toC(ts))) / ref::mag(t0); unsigned N = e.num_sample_points; if (sh < R(1e-4)) { g.label("too close"); return; }
	for (int loop = 1; loop <= c; ++loop) { auto rc = eg.CircleTrack<T>(tt); if (rc != SuccessCode::Success) return; auto& ct = eg.GetCauchyTimes<T>(); auto& cs = eg.GetCauchySamples<T>(); PBT_CHECK(ct.size() == loop * N + 1 && cs.size() == ct.size(), ct.size() << " points on the circles after " << loop << " loops");
		for (unsigned i = (loop - 1) * N; i < ct.size(); ++i) { R ang = 2 * pi * i / N; C wt = ref::toC(ts) + t0 * sh * C(boost::multiprecision::cos(ang), boost::multiprecision::sin(ang)); PBT_CHECK(ref::mag(C(up(ct[i]) - wt)) <= eps_of(p) * 1000, "point " << i << " of the circles at time " << b2::str(up(ct[i])) << ", should be " << b2::str(wt)); auto x = path(sh, ang); PBT_CHECK(vdist<T>(cs[i], x) <= R(1e-6), "point " << i << " of the circles is " << vshow<T>(cs[i]) << ", the path is at " << vshow<T>(x)); }
		bool closed = eg.CheckClosedLoop<T>(); PBT_CHECK(closed == (loop == c), "after " << loop << " loops of a path of cycle number " << c << (closed ? " the loop is called closed" : " the loop is not called closed")); }
	eg.CycleNumber(c); Vec<T> x; auto rc = eg.ComputeCauchyApproximationOfXAtT0<T>(x); if (rc != SuccessCode::Success || k >= c * int(N)) return; Vec<T> mean(n); for (int j = 0; j < n; ++j) mean(j) = down(ref::toC(a[j]), p); R d = vdist<T>(x, mean); PBT_CHECK(d <= R(1e-7), "Cauchy integral gives " << vshow<T>(x) << ", the path ends at " << vshow<T>(mean)); g.nontrivial();
}
int main(int argc, char** argv) {
	Suite s; s.property = "P22";
	s.subs = {
		{"double", "paths with leading exponent k/c (c up to 4, k up to 3, two ramified variables possible), target zero or not, start radius, sample factor 1/10-3/4, 3-6 samples, tolerances, affine or homogenized; success must be the true end, with the true cycle number for exponents 1/c. Non-trivial: success.", 260, 5000, run<D>, 60},
		{"multiple", "the same in fixed multiple precision; success demanded for easy paths.", 160, 3000, run<M>, 60},
		{"adaptive", "the same in adaptive precision.", 200, 4000, run<A>, 60},
		{"limits", "minimal time, norm limits by security level, paths to infinity. Non-trivial: a limit applied.", 160, 3000, limits_all, 60},
		{"steps", "estimates of c over k and their stabilization, circles around the target, closing of loops, Cauchy integral on exact data. Non-trivial: the integral was compared.", 160, 4000, steps, 60},
		{"reuse", "several runs of one endgame through changes of settings, branch, precision, tracker, failed runs.", 80, 1500, reuse_all, 90},
	};
	return run_main(s, argc, argv);
}
