// P21: power series endgame on paths with known Puiseux expansions; Hermite interpolation.
#include "eggen.hpp"
using namespace b2; using namespace pbt; using ref::C; using ref::R;
template<class Tr> using EG = typename be::EndgameSelector<Tr>::PSEG;
template<class Tr> struct World { using T = typename CT_<Tr>::type; Pui h; EgConf c; unsigned p; std::unique_ptr<Tr> tr; std::unique_ptr<EG<Tr>> eg; };
template<class Tr> static const char* nm() { return std::is_same<Tr, bt::AMPTracker>::value ? "adaptive" : std::is_same<Tr, bt::DoublePrecisionTracker>::value ? "double" : "multiple"; }
// close to the target a tracker with long steps can end on another branch of the same path; any branch will do
template<class T> static R nearest(Pui h, Vec<T> const& x, R const& share, unsigned q, unsigned back) { R best(1e300); precise(h, q); int c0 = h.comp[0].c, c1 = h.comp.size() > 1 ? h.comp[1].c : 1; for (int i = 0; i < c0; ++i) for (int j = 0; j < c1; ++j) { h.comp[0].branch = i; if (h.comp.size() > 1) h.comp[1].branch = j; R d = vdist<T>(x, h.template point<T>(h.at(share), q)); if (!(d >= best)) best = d; } precise(h, back); return best; }
template<class Tr> static unsigned prec(Gen& g) { if (std::is_same<Tr, bt::DoublePrecisionTracker>::value) return 16; static const unsigned a[] = {16, 30, 50, 20}, m[] = {30, 50, 40, 70}; return std::is_same<Tr, bt::AMPTracker>::value ? a[g.below(4)] : m[g.below(4)]; }
template<class Tr> static void make(World<Tr>& w) { precise(w.h, w.p); w.tr = std::make_unique<Tr>(w.h.b.sys); eg_setup(*w.tr, w.c, w.h); w.eg = std::make_unique<EG<Tr>>(*w.tr, w.c.e, w.c.ps, w.c.sec); }
template<class Tr> static SuccessCode go(Gen& g, World<Tr>& w) { using T = typename World<Tr>::T; precise(w.h, w.p); Vec<T> x = w.h.template point<T>(w.h.at(R(1)), w.p), x0 = x; T a = scal<T>(w.h.t0, w.p), b = scal<T>(w.h.ts, w.p), a0 = a, b0 = b; SuccessCode rc = w.h.ts == 0. && g.chance(50) ? w.eg->Run(a, x) : w.eg->Run(a, x, b); PBT_CHECK(x == x0 && a == a0 && b == b0, "the endgame changed its input"); g.note(std::string(nm<Tr>()) + " " + code(rc)); g.label(std::string(nm<Tr>()) + " " + code(rc)); return rc; }
// the samples the endgame holds lie on the path, at times approaching the target by the sample factor
template<class Tr> static void samples(Gen& g, World<Tr>& w) {
	using T = typename World<Tr>::T; auto& ts = w.eg->template GetTimes<T>(); auto& ss = w.eg->template GetSamples<T>(); unsigned n = w.c.e.num_sample_points; PBT_CHECK(ts.size() == ss.size() && ts.size() >= n && ts.size() <= n + 1, ts.size() << " times, " << ss.size() << " samples, " << n << " asked for"); PBT_CHECK(w.eg->LatestTime() == ts.back(), "latest time");
	R eps = std::is_same<Tr, bt::AMPTracker>::value ? eps_of(16) : eps_of(w.p), f = R(w.c.e.sample_factor); auto here = bertini::DefaultPrecision(); C t0 = ref::toC(w.h.t0), tg = ref::toC(w.h.ts); R full = ref::mag(C(t0 - tg));
	for (size_t i = 0; i < ts.size(); ++i) { C tau = up(ts[i]) - tg; R share = ref::mag(tau) / full; if (share < eps * 1e6) continue; PBT_CHECK(ref::mag(C(tau - (t0 - tg) * share)) <= (full + ref::mag(tg)) * eps * 50, "sample time " << b2::str(up(ts[i])) << " is not between start and target");
		if (i + 1 < ts.size()) { C next = up(ts[i + 1]) - tg; PBT_CHECK(ref::mag(C(next - tau * f)) <= (ref::mag(tau) + ref::mag(tg)) * eps * 50, "successive sample times " << b2::str(up(ts[i])) << " and " << b2::str(up(ts[i + 1])) << " do not approach " << b2::str(tg) << " by the factor " << f.str(4)); }
		unsigned q = std::max(w.p, prec_of(ss[i](0))) + 20; precise(w.h, q); auto want = w.h.template point<T>(w.h.at(share), q); precise(w.h, here); R d = nearest<T>(w.h, ss[i], share, q, here), noise = eps * 1e5 / share + R(w.c.e.final_tolerance); PBT_CHECK(d <= noise + R(5 * w.c.tol) || share < eps * 1e9, "sample at " << b2::str(up(ts[i])) << " is " << vshow<T>(ss[i]) << " but the path is at " << vshow<T>(want)); } }
template<class Tr> static void verify(Gen& g, World<Tr>& w, const char* who = "") {
	using T = typename World<Tr>::T; Pui& h = w.h; EgConf& c = w.c; auto e = w.eg->template FinalApproximation<T>(); constexpr bool adaptive = std::is_same<Tr, bt::AMPTracker>::value; auto here = bertini::DefaultPrecision(); unsigned q = std::max(w.p, here) + 20; precise(h, q); Vec<T> want = h.template end<T>(q); precise(h, here); PBT_CHECK(e.size() == want.size(), who << "size of the approximation"); R d = vdist<T>(e, want);
	for (int i = 0; i < e.size(); ++i) PBT_CHECK(prec_of(e(i)) == (adaptive ? w.tr->CurrentPrecision() : w.p), who << "precision of the approximation " << prec_of(e(i)) << ", of the tracker " << w.tr->CurrentPrecision());
	R left = ref::mag(C(up(w.eg->LatestTime()) - ref::toC(h.ts))), allow = R(50) * R(c.e.final_tolerance); std::ostringstream o; o << "error " << d.str(3) << " estimate " << w.eg->ApproximateError() << " cycle " << w.eg->CycleNumber() << " latest time " << left.str(3) << " before the target, precision " << prec_of(e(0)); g.note(o.str());
	// in fixed precision a root of multiplicity c is attainable to about eps^(1/c) only, once sampling has run into rounding
	int mult = 1; for (auto& k : h.comp) mult = std::max(mult, k.c); if (!adaptive && left < eps_of(w.p) * 1e4) allow += R(10) * boost::multiprecision::pow(R(eps_of(w.p) * 1000), R(1) / mult);
	PBT_CHECK(w.eg->ApproximateError() <= c.e.final_tolerance, who << "success with estimated error " << w.eg->ApproximateError() << ", final tolerance " << c.e.final_tolerance);
	PBT_CHECK(d <= allow, who << "the path ends at " << vshow<T>(want) << " but the endgame reports success with " << vshow<T>(e) << ", off by " << d.str(3) << " (final tolerance " << c.e.final_tolerance << ")");
	PBT_CHECK(vdist<T>(w.eg->template PreviousApproximation<T>(), want) <= allow * 1000, who << "the previous approximation is far off");
	if (left > eps_of(w.p) * 1e6 && h.comp.size() == 1 && h.comp[0].k == 1 && !h.inf && !(h.comp[0].c == 1)) PBT_CHECK(w.eg->CycleNumber() % h.cycle == 0, who << "cycle number " << w.eg->CycleNumber() << " reported for a path of cycle number " << h.cycle);
	samples<Tr>(g, w); g.nontrivial(); }
template<class Tr> static bool easy(World<Tr>& w) { for (auto& q : w.h.comp) if (q.c > 2) return false; double f = w.c.e.sample_factor.template convert_to<double>(); return w.h.comp.size() == 1 && w.p >= 30 && f < 0.55 && f > 0.2 && w.c.m->order >= 4; }
template<class Tr> static void run(Gen& g) { World<Tr> w; w.p = prec<Tr>(g); set_prec(w.p); w.h = gen_pui(g, PuiCfg()); w.c = gen_egconf(g); w.c.sec.level = g.below(2); make(w); auto rc = go(g, w); if (easy(w)) { g.label("success demanded"); PBT_CHECK(rc == SuccessCode::Success, "an easy path, but the endgame reports " << code(rc)); } if (rc == SuccessCode::Success) verify(g, w); }
// stopping rules: time too close to the target, norm too large
template<class Tr> static void limits(Gen& g) {
	World<Tr> w; w.p = prec<Tr>(g); set_prec(w.p); int kind = g.below(3); PuiCfg cf; cf.infinite = kind == 2; cf.maxc = 3; w.h = gen_pui(g, cf); w.c = gen_egconf(g); w.c.sec.level = g.range(-1, 2); using T = typename World<Tr>::T; double r = std::abs(w.h.t0 - w.h.ts); auto E = w.h.inf ? std::vector<C>() : w.h.at(R(0)); R big(0); for (auto& z : E) big = std::max(big, ref::mag(z)); double en = big.convert_to<double>();
	if (kind == 0) { w.c.e.min_track_time = r * std::pow(10., -double(g.range(0, 5))) * (1 + g.below(3)) / 3; w.c.e.final_tolerance = 1e-11; } if (kind == 1) { if (en < 0.2) discard("ends near the origin"); static const double fr[] = {0.5, 0.1, 20}; int f = g.below(3); w.c.sec.max_norm = f == 2 ? 20 * en + 100 : en * fr[f]; }
	std::ostringstream o; o << "minimal time " << w.c.e.min_track_time << " security level " << w.c.sec.level << " max norm " << w.c.sec.max_norm << " end of norm " << en; g.note(o.str()); make(w); auto rc = go(g, w); R left = ref::mag(C(up(w.eg->LatestTime()) - ref::toC(w.h.ts))); double f = w.c.e.sample_factor.template convert_to<double>(), first = r * std::pow(f, double(w.c.e.num_sample_points) - 1);
	if (kind == 0) { g.label("minimal time"); bool initial = left.template convert_to<double>() > first * (1 - 1e-6); PBT_CHECK(initial || left >= R(w.c.e.min_track_time) * R(1 - 1e-10), "sampled at " << left.str(4) << " before the target, although " << w.c.e.min_track_time << " is the minimum"); if (rc == SuccessCode::MinTrackTimeReached) { PBT_CHECK(left * R(f) <= R(w.c.e.min_track_time) * R(1 + 1e-10), "minimal time reported at " << left.str(4)); g.nontrivial(); } }
	if (kind == 1) { g.label("max norm"); if (w.c.sec.level > 0 || w.c.sec.max_norm > 10 * en + 10) PBT_CHECK(rc != SuccessCode::SecurityMaxNormReached, "norm limit reported"); else { PBT_CHECK(rc != SuccessCode::Success, "success although the end has norm " << en << ", above the limit"); if (easy(w)) PBT_CHECK(rc == SuccessCode::SecurityMaxNormReached, code(rc)); g.nontrivial(); } }
	if (kind == 2) { g.label("to infinity"); if (w.c.sec.level <= 0) { PBT_CHECK(rc != SuccessCode::Success, "success for a path to infinity"); if (easy(w)) PBT_CHECK(rc == SuccessCode::SecurityMaxNormReached, "a path to infinity, but the endgame reports " << code(rc)); g.nontrivial(); } else PBT_CHECK(rc != SuccessCode::SecurityMaxNormReached, "norm limit reported at security level " << w.c.sec.level); }
	if (rc == SuccessCode::Success) verify(g, w); }
// one endgame object for many runs
template<class Tr> static void reuse(Gen& g) {
	World<Tr> w; w.p = prec<Tr>(g); set_prec(w.p); w.h = gen_pui(g, PuiCfg()); w.c = gen_egconf(g); make(w); int n = g.range(2, 4); for (int i = 0; i < n; ++i) {
		switch (g.below(6)) {
		case 0: { auto e = w.c.e; e.min_track_time = 0.05; w.eg->template Set<be::EndgameConfig>(e); go(g, w); w.eg->template Set<be::EndgameConfig>(w.c.e); break; }
		case 1: { auto c2 = gen_egconf(g); w.c.e = c2.e; w.c.ps = c2.ps; w.eg->template Set<be::EndgameConfig>(w.c.e); w.eg->template Set<be::PowerSeriesConfig>(w.c.ps); break; }
		case 2: { double ft = std::pow(10., -double(g.range(7, 11))); w.c.e.final_tolerance = ft; w.eg->template Set<be::EndgameConfig>(w.c.e); std::ostringstream o; o << "final tolerance " << ft; g.note(o.str()); break; }
		case 3: { auto& q = w.h.comp[0]; q.branch = g.below(q.c); g.note("branch " + std::to_string(q.branch)); break; }
		case 4: { if (std::is_same<Tr, bt::AMPTracker>::value) { w.p = prec<Tr>(g); g.note("precision " + std::to_string(w.p)); } break; }
		default: { auto t2 = std::make_unique<Tr>(w.h.b.sys); eg_setup(*t2, w.c, w.h); w.eg->SetTracker(*t2); w.tr = std::move(t2); g.note("other tracker"); } }
		auto rc = go(g, w); if (easy(w)) PBT_CHECK(rc == SuccessCode::Success, "an easy path, but a used endgame reports " << code(rc)); if (rc == SuccessCode::Success) verify(g, w, "used endgame: "); } }
using D = bt::DoublePrecisionTracker; using M = bt::MultiplePrecisionTracker; using A = bt::AMPTracker;
static void limits_all(Gen& g) { switch (g.below(3)) { case 0: return limits<D>(g); case 1: return limits<M>(g); default: return limits<A>(g); } }
static void reuse_all(Gen& g) { switch (g.below(3)) { case 0: return reuse<D>(g); case 1: return reuse<M>(g); default: return reuse<A>(g); } }
// steps of the endgame on exact data x = a + u tau^(k/c)
static void steps(Gen& g) {
	unsigned p = g.chance(50) ? 30 : 60; set_prec(p); using T = mpfr_complex; SysSpec s; int n = g.range(1, 3); s.nv = n; s.path = true; std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); s.groups.push_back({SysSpec::Affine, all}); Cd ts = g.chance(50) ? Cd(0) : Cd(0.25 * g.small_int(4), 0.25 * g.small_int(4)); int c = g.range(1, 6), k = g.range(1, 3); while (gcd_(c, k) != 1) k = 1; double r = g.chance(50) ? 0.125 : 0.5; Cd dir = g.chance(50) ? Cd(1) : Cd(-1, 1); ref::P t = ref::var(n), tau = ts == 0. ? t : ref::sum({t, cnum(ts)}, {true, false}); std::vector<Cd> a(n), b(n); for (int i = 0; i < n; ++i) { a[i] = dyadic(g, 8, 4); b[i] = dyadic(g, 4, 4) + Cd(0.5, 0); if (b[i] == 0.) b[i] = 1; }
	// x0 = a0 + b0 z with z^c = tau^k; the others linear in x0
	ref::P w = ref::sum({ref::var(0), cnum(a[0])}, {true, false}); Cd bc = 1; for (int i = 0; i < c; ++i) bc *= b[0]; ref::P tk = k == 1 ? tau : ref::ipow(tau, k); s.f.push_back(ref::sum({c == 1 ? w : ref::ipow(w, c), ref::mult({cnum(bc), tk}, {true, true})}, {true, false})); for (int i = 1; i < n; ++i) s.f.push_back(ref::sum({ref::mult({cnum(b[0]), ref::sum({ref::var(i), cnum(a[i])}, {true, false})}, {true, true}), ref::mult({cnum(b[i]), w}, {true, true})}, {true, false})); auto B = build(g, s);
	be::EndgameConfig e; e.num_sample_points = g.range(3, 5); static const int fs[][2] = {{1, 2}, {1, 4}, {2, 5}, {3, 5}, {1, 10}}; auto& f = fs[g.below(5)]; e.sample_factor = mpq_rational(f[0], f[1]); be::PowerSeriesConfig ps; ps.max_cycle_number = g.range(1, 8); ps.cycle_number_amplification = g.range(1, 6); B.sys.precision(p); M tr(B.sys); tr.Setup(Predictor::RKF45, 1e-6, 1e5, SteppingConfig(), NewtonConfig()); EG<M> eg(tr, e, ps);
	std::ostringstream o; o << s.show() << "\n exponent " << k << "/" << c << " target " << ts << " samples " << e.num_sample_points << " factor " << e.sample_factor << " max cycle " << ps.max_cycle_number << " amplification " << ps.cycle_number_amplification; g.note(o.str()); int m = e.num_sample_points + (g.chance(50) ? 1 : 0); bertini::TimeCont<T> times; bertini::SampCont<T> samp; R fr = R(e.sample_factor), share(1); C t0 = ref::toC(r * dir); Pui help; for (int i = 0; i < m; ++i) { C z(1); for (int j = 0; j < k; ++j) z *= Pui::root(t0, c) * R(boost::multiprecision::pow(share, R(1) / c)); Vec<T> x(n); for (int j = 0; j < n; ++j) x(j) = down(C(ref::toC(a[j]) + ref::toC(b[j]) * z), p); times.push_back(down(C(ref::toC(ts) + t0 * share), p)); samp.push_back(x); share *= fr; }
	eg.SetTimes(times); eg.SetSamples(samp); eg.SetRandVec<T>(n); unsigned got = eg.ComputeBoundOnCycleNumber<T>(); PBT_CHECK(got == eg.UpperBoundOnCycleNumber(), "bound"); auto bound = [&](double est) { return est < 1 ? 1u : std::max(unsigned(std::round(est) * ps.cycle_number_amplification), ps.max_cycle_number); }; double est = double(c) / k; PBT_CHECK(got == bound(est * (1 + 1e-9)) || got == bound(est * (1 - 1e-9)), "bound on the cycle number " << got << ", should be " << bound(est));
	eg.ComputeAllDerivatives<T>(); T tt = down(ref::toC(ts), p); unsigned cyc = eg.ComputeCycleNumber<T>(tt); PBT_CHECK(cyc == eg.CycleNumber() && cyc >= 1 && cyc <= got, "cycle number " << cyc << ", bound " << got); 
	if (unsigned(c) <= got && k <= 2) { PBT_CHECK(cyc % c == 0 || n == 0, "cycle number " << cyc << " from exact data with exponent " << k << "/" << c); Vec<T> x; eg.ComputeApproximationOfXAtT0<T>(x, tt); R d(0); for (int j = 0; j < n; ++j) d = std::max(d, ref::mag(C(up(x(j)) - ref::toC(a[j])))); if (cyc == unsigned(c)) { PBT_CHECK(d <= eps_of(p) * 1e12, "approximation " << vshow<T>(x) << " off by " << d.str(3) << " from exact data"); g.nontrivial(); } }
	// collecting samples by tracking
	bertini::TimeCont<T> t2; bertini::SampCont<T> s2; auto rc = eg.ComputeInitialSamples(times[0], tt, samp[0], t2, s2); if (rc != SuccessCode::Success) return; PBT_CHECK(t2.size() == e.num_sample_points && s2.size() == t2.size(), t2.size() << " initial samples"); for (size_t i = 0; i < t2.size(); ++i) { PBT_CHECK(ref::mag(C(up(t2[i]) - up(times[i]))) <= eps_of(p) * 100, "initial sample " << i << " at time " << b2::str(up(t2[i])) << ", should be " << b2::str(up(times[i]))); PBT_CHECK(vdist<T>(s2[i], samp[i]) <= R(1e-4), "initial sample " << i << " is " << vshow<T>(s2[i]) << ", the path is at " << vshow<T>(samp[i])); }
}
// interpolation
template<class T> static T ev(std::vector<Cd> const& a, T const& t, int der, unsigned p) { T v = scal<T>(0., p); for (size_t i = a.size(); i-- > size_t(der);) v = T(v * t + scal<T>(a[i] * (der ? double(i) : 1.), p)); return v; }
template<class T> static void interp(Gen& g, unsigned p) {
	set_prec(p); int n = g.range(1, 5), extra = g.below(3), dim = g.range(1, 3), N = n + extra; bool back = g.chance(50); bertini::TimeCont<T> ts; bertini::SampCont<T> ss, ds; std::vector<Cd> tc; bool cluster = g.chance(30) && n >= 2; int deg = cluster ? g.range(3, 6) : g.range(0, n == 1 ? 1 : 2); std::vector<std::vector<Cd>> a(dim); for (auto& v : a) { for (int i = 0; i <= deg; ++i) v.push_back(dyadic(g, 8, 4)); } double sc = cluster ? std::pow(2., -double(g.range(4, 12))) : 1; Cd tg = cluster ? dyadic(g, 4, 4) : dyadic(g, 16, 8); if (!cluster && g.chance(30)) tg = 0;
	for (int i = 0; i < N; ++i) { Cd z; for (int tries = 0;; ++tries) { z = cluster ? tg + sc * std::pow(0.5, i) : Cd(0.25 * g.range(-8, 8), g.chance(40) ? 0.25 * g.range(-8, 8) : 0); bool ok = true; for (auto& y : tc) if (y == z) ok = false; if (ok) break; if (tries > 30) discard("times"); } tc.push_back(z); }
	for (auto& z : tc) { T t = scal<T>(z, p); ts.push_back(t); Vec<T> s(dim), d(dim); for (int j = 0; j < dim; ++j) { s(j) = ev<T>(a[j], t, 0, p); d(j) = ev<T>(a[j], t, 1, p); } ss.push_back(s); ds.push_back(d); } T target = scal<T>(tg, p); auto cs = back ? bertini::ContStart::Back : bertini::ContStart::Front;
	// entries not asked for must not matter
	for (int i = 0; i < N; ++i) if (back ? i < extra : i >= n) for (int j = 0; j < dim; ++j) ss[i](j) = scal<T>(Cd(77, 5), p), ds[i](j) = scal<T>(Cd(-55, 3), p); std::ostringstream o; o << n << " of " << N << " points, from the " << (back ? "back" : "front") << ", degree " << deg << " target " << tg << " times"; for (auto& z : tc) o << " " << z; g.note(o.str()); R eps = eps_of(p);
	auto H = [&](T const& at, bertini::TimeCont<T> const& t, bertini::SampCont<T> const& s, bertini::SampCont<T> const& d) { return be::HermiteInterpolateAndSolve<T>(at, n, t, s, d, cs); }; Vec<T> x = H(target, ts, ss, ds); R amp(1), top(1); for (int i = 0; i < n; ++i) amp *= 64; if (cluster) amp = R(1e4); PBT_CHECK(x.size() == dim, "size");
	for (int j = 0; j < dim; ++j) { double sum = 0; for (auto& z : a[j]) sum += std::abs(z); double tm = 1; for (int i = 0; i < deg; ++i) tm *= 1 + 4.; top = R(1 + sum * tm); C want = up(ev<T>(a[j], target, 0, p)); R d = ref::mag(C(up(x(j)) - want)); R allow = eps * amp * top * 100; if (cluster) { R e5 = eps * top; for (int i = 0; i < 2 * n; ++i) e5 *= 64; allow = R(sc) * sc * sc * top * 100 + e5; } PBT_CHECK(d <= allow, (cluster ? "interpolating close to the target" : "interpolating a polynomial of degree ") << deg << " gives " << b2::str(up(x(j))) << ", true value " << b2::str(want)); }
	g.label(cluster ? "clustered" : "exact"); if (deg > 0) g.nontrivial(); if (cluster) return;
	// arbitrary data: linear in the data, covariant under affine changes of time, reproduces the newest sample
	bertini::SampCont<T> s1, d1, s3, d3; Cd al = dyadic(g, 4, 2); for (int i = 0; i < N; ++i) { Vec<T> s(dim), d(dim); for (int j = 0; j < dim; ++j) { s(j) = scal<T>(dyadic(g, 8, 4), p); d(j) = scal<T>(dyadic(g, 8, 4), p); } s1.push_back(s); d1.push_back(d); s3.push_back(Vec<T>(s * scal<T>(al, p) + ss[i])); d3.push_back(Vec<T>(d * scal<T>(al, p) + ds[i])); } Vec<T> h1 = H(target, ts, s1, d1), h3 = H(target, ts, s3, d3); R tol = eps * 1e4 * top; for (int i = 0; i < 2 * n; ++i) tol *= 24; PBT_CHECK(vdist<T>(h3, Vec<T>(h1 * scal<T>(al, p) + x)) <= tol, "not linear in the data");
	Cd m = dyadic(g, 4, 2); if (m == 0.) m = 2; Cd sh = dyadic(g, 4, 2); bertini::TimeCont<T> t4; bertini::SampCont<T> d4; for (int i = 0; i < N; ++i) { t4.push_back(T(ts[i] * scal<T>(m, p) + scal<T>(sh, p))); d4.push_back(Vec<T>(d1[i] / scal<T>(m, p))); } Vec<T> h4 = H(T(target * scal<T>(m, p) + scal<T>(sh, p)), t4, s1, d4); PBT_CHECK(vdist<T>(h4, h1) <= tol * 100, "not covariant under a change of time: " << vshow<T>(h4) << " vs " << vshow<T>(h1)); int newest = back ? N - 1 : n - 1; Vec<T> h5 = H(ts[newest], ts, s1, d1); PBT_CHECK(vdist<T>(h5, s1[newest]) <= tol, "the newest sample is not reproduced");
}
static void interpolation(Gen& g) { if (g.chance(40)) interp<dbl>(g, 16); else interp<mpfr_complex>(g, g.chance(50) ? 30 : 60); }
static bool cubic() { be::EndgameConfig e; bertini::TimeCont<dbl> t{dbl(2), dbl(1)}; bertini::SampCont<dbl> s(2), d(2); for (int i = 0; i < 2; ++i) { s[i].resize(1); d[i].resize(1); s[i](0) = t[i] * t[i] * t[i]; d[i](0) = 3. * t[i] * t[i]; } return std::abs(be::HermiteInterpolateAndSolve<dbl>(dbl(0), 2, t, s, d)(0)) > 1e-6; }
int main(int argc, char** argv) {
	Suite s; s.property = "P21";
	s.subs = {
		{"double", "paths with leading exponent k/c (c up to 4, k up to 3, two ramified variables possible), target zero or not, start radius, sample factor 1/10-3/4, 3-6 samples, tolerances, affine or homogenized; success must be the true end, with the true cycle number for exponents 1/c. Non-trivial: success.", 260, 5000, run<D>, 60},
		{"multiple", "the same in fixed multiple precision; success demanded for easy paths.", 160, 3000, run<M>, 60},
		{"adaptive", "the same in adaptive precision.", 200, 4000, run<A>, 60},
		{"limits", "minimal time, norm limits by security level, paths to infinity. Non-trivial: a limit applied.", 160, 3000, limits_all, 60},
		{"reuse", "several runs of one endgame through changes of settings, branch, precision, tracker, failed runs.", 80, 1500, reuse_all, 90},
		{"steps", "bound on the cycle number, cycle number and extrapolation from exact data; initial samples. Non-trivial: the extrapolation was compared.", 500, 10000, steps, 60},
		{"interpolation", "Hermite interpolation: polynomials of degree up to 2 exactly (degree 1 from one point), third-order closeness near the target, linearity, covariance, reproduction of the newest sample.", 1500, 40000, interpolation},
	};
	s.known = {{"hermite-degree-3", "HermiteInterpolateAndSolve (interpolation.hpp) does not reproduce t^3 from values and derivatives at 2 and 1 (degree 3 up to 2n-1 from n points); the repair makes existing tests fail, which ask for more accuracy than true Hermite interpolation gives", cubic}};
	return run_main(s, argc, argv);
}
