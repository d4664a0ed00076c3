// P27: observers: histories of attaching, detaching and emitting against a model, and the event logs of trackers and endgames.
#include "eggen.hpp"
#include "bertini2/trackers/observers.hpp"
#include "bertini2/endgames/observers.hpp"
#include <boost/log/core.hpp>
using namespace b2; using namespace pbt; using ref::C; using ref::R; using T = mpfr_complex;
// --- histories on an observable of our own -------------------------------------------------------------------------
struct Src; struct Ping : bertini::AnyEvent { int id; Ping(int i) : id(i) {} };
struct Src : bertini::Observable { void emit(int id, bool constant) const { if (constant) { const Ping p(id); this->NotifyObservers(p); } else { Ping p(id); this->NotifyObservers(p); } } };
struct Act { int when; int kind; /* 0 add 1 remove */ int src, who; };
struct World { std::vector<Src> src; struct Obs : bertini::AnyObserver { World* w = nullptr; int me = 0; std::vector<Act> script; int seen = 0; std::vector<int> log; void Observe(bertini::AnyEvent const& e) override; }; std::vector<std::unique_ptr<Obs>> obs; std::vector<std::vector<bool>> on; int cur = -1; std::vector<int> touched /* attachments to the emitting source changed while it notified */; std::string err; std::string trace;
	void add(int s, int o) { trace += " +" + std::to_string(o) + "@" + std::to_string(s); if (s == cur && !on[s][o]) touched[o] = 1; on[s][o] = true; src[s].AddObserver(*obs[o]); }
	void rem(int s, int o) { trace += " -" + std::to_string(o) + "@" + std::to_string(s); if (s == cur && on[s][o]) touched[o] = 1; on[s][o] = false; src[s].RemoveObserver(*obs[o]); } };
void World::Obs::Observe(bertini::AnyEvent const& e) { auto p = dynamic_cast<Ping const*>(&e); if (!p) { w->err = "an event arrived as something else"; return; } if (!w->on[w->cur][me]) w->err = "observer " + std::to_string(me) + " was notified of event " + std::to_string(p->id) + " after being removed"; log.push_back(p->id); int k = seen++; for (auto& a : script) if (a.when == k) { if (a.kind == 0) w->add(a.src, a.who); else w->rem(a.src, a.who); } }
static void histories(Gen& g) {
	World w; int ns = g.range(1, 2), no = g.range(1, 5); w.src.resize(ns); w.on.assign(ns, std::vector<bool>(no, false)); w.touched.assign(no, 0); for (int i = 0; i < no; ++i) { w.obs.emplace_back(new World::Obs); w.obs[i]->w = &w; w.obs[i]->me = i; }
	bool acts = false; for (int i = 0; i < no; ++i) { int n = g.weighted({4, 2, 1}); for (int k = 0; k < n; ++k) { Act a{g.range(0, 4), g.range(0, 1), int(g.below(ns)), g.chance(50) ? i : int(g.below(no))}; w.obs[i]->script.push_back(a); acts = true; std::ostringstream o; o << "observer " << i << " at its event " << a.when << (a.kind ? " removes " : " adds ") << a.who << " at " << a.src; g.note(o.str()); } }
	int ops = g.range(1, 24), id = 0, seen = 0; std::vector<std::vector<std::pair<int, int>>> want(no); // (event, 1 must 0 may)
	for (int k = 0; k < ops; ++k) { int what = g.weighted({4, 4, 2}); int s = g.below(ns), o = g.below(no); if (what == 0) w.add(s, o); else if (what == 2) w.rem(s, o); else { int e = id++; w.trace += " !" + std::to_string(e) + "@" + std::to_string(s); std::vector<bool> before = w.on[s]; w.cur = s; w.touched.assign(no, 0); w.src[s].emit(e, g.chance(50)); w.cur = -1; for (int i = 0; i < no; ++i) { if (w.touched[i]) want[i].push_back({e, 0}); else if (before[i]) want[i].push_back({e, 1}); } if (!w.err.empty()) { g.note(w.trace); fail(w.err); } } }
	g.note(w.trace); for (int i = 0; i < no; ++i) { size_t p = 0; for (auto& [e, must] : want[i]) { if (p < w.obs[i]->log.size() && w.obs[i]->log[p] == e) { ++p; ++seen; } else PBT_CHECK(!must, "observer " << i << " missed event " << e << " (or saw an earlier one again)"); } PBT_CHECK(p == w.obs[i]->log.size(), "observer " << i << " saw event " << w.obs[i]->log[p] << " more often than once, out of order, or without watching"); }
	if (seen >= 3 && (acts || no > 1)) g.nontrivial(); if (acts) g.label("observers change the list while notified");
}
// --- logs of trackers ----------------------------------------------------------------------------------------------
enum K { Init, Started, New, Pred, Corr, Ok, Bad, PFail1, PFail, CFail, PHigh, CHigh, Prec, Inf, Sing, Ended, Other }; static const char* kn[] = {"Initializing", "TrackingStarted", "NewStep", "SuccessfulPredict", "SuccessfulCorrect", "SuccessfulStep", "FailedStep", "FirstStepPredictorMatrixSolveFailure", "PredictorMatrixSolveFailure", "CorrectorMatrixSolveFailure", "PredictorHigherPrecisionNecessary", "CorrectorHigherPrecisionNecessary", "PrecisionChanged", "InfinitePathTruncation", "SingularStartPoint", "TrackingEnded", "unknown event"};
template<class Tr> using CTof = typename bt::TrackerTraits<Tr>::BaseComplexType;
template<class Tr> struct Ev { K k = Other; CTof<Tr> time, dt, t0, t1; Vec<CTof<Tr>> point, res; unsigned prec = 0, from = 0, to = 0; const void* who = nullptr; bool tracking = false; double last = -1; };
template<class V> bool same(V const& a, V const& b) { return a.size() == b.size() && (a.size() == 0 || a == b); }
template<class Tr> bool operator==(Ev<Tr> const& a, Ev<Tr> const& b) { return a.k == b.k && a.prec == b.prec && a.from == b.from && a.to == b.to && a.who == b.who && (a.k == Init || (a.time == b.time && same(a.point, b.point))) && same(a.res, b.res); }
template<class Tr> struct Log : bertini::Observer<Tr> { using Em = typename bt::TrackerTraits<Tr>::EventEmitterType; using CT = CTof<Tr>; std::vector<Ev<Tr>> ev; std::function<void(int)> hook;
	template<class N> static Vec<CT> conv(Vec<N> const& v) { Vec<CT> r(v.size()); for (int i = 0; i < v.size(); ++i) r(i) = CT(v(i)); return r; }
	void Observe(bertini::AnyEvent const& e) override { Ev<Tr> x; auto any = dynamic_cast<bt::TrackingEvent<Em> const*>(&e); if (any) { x.tracking = true; auto& t = any->Get(); x.who = &t; x.prec = t.CurrentPrecision();
			if (auto p = dynamic_cast<bt::Initializing<Em, CT> const*>(&e)) { x.k = Init; x.t0 = p->StartTime(); x.t1 = p->EndTime(); x.res = p->StartPoint(); } else { x.time = t.CurrentTime(); x.point = t.CurrentPoint(); x.last = double(t.LatestNormOfStep());
				if (dynamic_cast<bt::TrackingStarted<Em> const*>(&e)) x.k = Started; if (dynamic_cast<bt::NewStep<Em> const*>(&e)) { x.k = New; x.dt = t.DeltaT(); } if (dynamic_cast<bt::SuccessfulStep<Em> const*>(&e)) x.k = Ok; if (dynamic_cast<bt::FailedStep<Em> const*>(&e)) x.k = Bad; if (dynamic_cast<bt::TrackingEnded<Em> const*>(&e)) x.k = Ended; if (dynamic_cast<bt::InfinitePathTruncation<Em> const*>(&e)) x.k = Inf; if (dynamic_cast<bt::SingularStartPoint<Em> const*>(&e)) x.k = Sing;
				if (dynamic_cast<bt::FirstStepPredictorMatrixSolveFailure<Em> const*>(&e)) x.k = PFail1; if (dynamic_cast<bt::PredictorMatrixSolveFailure<Em> const*>(&e)) x.k = PFail; if (dynamic_cast<bt::CorrectorMatrixSolveFailure<Em> const*>(&e)) x.k = CFail; if (dynamic_cast<bt::PredictorHigherPrecisionNecessary<Em> const*>(&e)) x.k = PHigh; if (dynamic_cast<bt::CorrectorHigherPrecisionNecessary<Em> const*>(&e)) x.k = CHigh;
				if (auto p = dynamic_cast<bt::PrecisionChanged<Em> const*>(&e)) { x.k = Prec; x.from = p->Previous(); x.to = p->Next(); } if (auto p = dynamic_cast<bt::SuccessfulPredict<Em, CT> const*>(&e)) { x.k = Pred; x.res = p->ResultingPoint(); } if (auto p = dynamic_cast<bt::SuccessfulCorrect<Em, CT> const*>(&e)) { x.k = Corr; x.res = p->ResultingPoint(); }
				if constexpr (!std::is_same<CT, dbl>::value) { if (auto p = dynamic_cast<bt::SuccessfulPredict<Em, dbl> const*>(&e)) { x.k = Pred; x.res = conv(p->ResultingPoint()); } if (auto p = dynamic_cast<bt::SuccessfulCorrect<Em, dbl> const*>(&e)) { x.k = Corr; x.res = conv(p->ResultingPoint()); } } } }
		ev.push_back(x); if (hook) hook(ev.size() - 1); } };
template<class Tr> std::string tail(std::vector<Ev<Tr>> const& ev, size_t i) { std::string s; for (size_t k = i < 6 ? 0 : i - 6; k <= i && k < ev.size(); ++k) s += std::string(k ? ", " : "") + kn[ev[k].k]; return s; }
// the events of one call of TrackPath must tell its story
template<class Tr> void story(Gen& g, Tr const& tr, std::vector<Ev<Tr>> const& ev, CTof<Tr> const& t0, CTof<Tr> const& t1, Vec<CTof<Tr>> const& x0, SuccessCode rc, Vec<CTof<Tr>> const& end, unsigned p) {
	using CT = CTof<Tr>; constexpr bool amp = std::is_same<Tr, bt::AMPTracker>::value; PBT_CHECK(ev.size() >= 3, ev.size() << " events"); for (auto& e : ev) { PBT_CHECK(e.k != Other && e.tracking, "an event of unknown kind"); PBT_CHECK(e.who == &tr, "an event of another tracker"); }
	PBT_CHECK(ev[0].k == Init && ev[0].t0 == t0 && ev[0].t1 == t1 && same(ev[0].res, x0), "the first event is " << kn[ev[0].k] << ", or does not say where tracking starts and ends"); PBT_CHECK(ev[1].k == Started && ev[1].time == t0 && vdist<CT>(ev[1].point, x0) <= eps_of(16) * 4 * (1 + ref::mag(up(x0(0))) + vdist<CT>(x0, Vec<CT>::Zero(x0.size()))) && ev[1].prec == p, "the second event is " << kn[ev[1].k] << " at precision " << ev[1].prec << " and time " << b2::str(up(ev[1].time)) << ", point " << vshow<CT>(ev[1].point)); PBT_CHECK(ev.back().k == Ended, "the last event is " << kn[ev.back().k]);
	int state = 0 /* 0 between steps, 1 new, 2 predicted, 3 corrected, 4 failed */; unsigned prec = p, ok = 0, bad = 0, inf = 0, sing = 0; size_t step = 0, corr = 0, lastok = 0; 
	for (size_t i = 2; i + 1 < ev.size(); ++i) { auto& e = ev[i]; auto bad_here = [&](std::string const& m) { fail(m + ": " + tail(ev, i)); }; g.count(); if (inf && e.k != Prec) bad_here("an event after the truncation of the path");
		PBT_CHECK(e.prec == prec, kn[e.k] << " at precision " << e.prec << " although the last change was to " << prec);
		switch (e.k) { case Init: case Started: case Ended: bad_here("tracking starts or ends twice"); break;
		case New: if (state != 0) bad_here("a step begins within a step"); if (sing) bad_here("a step after a singular start point"); state = 1; step = i; break;
		case Pred: if (state != 1) bad_here("prediction out of place"); state = 2; break; case Corr: if (state != 2) bad_here("correction out of place"); state = 3; corr = i; PBT_CHECK(e.last >= 0 && e.last < double(tr.TrackingTolerance()) * (1 + 1e-12), "a step is corrected, the last Newton step has length " << e.last); if (tr.template Get<bt::NewtonConfig>().max_num_newton_iterations == 1) { R d = vdist<CT>(e.res, ev[i - 1].res); R sc(1); for (int j = 0; j < e.res.size(); ++j) sc += ref::mag(up(e.res(j))); PBT_CHECK(ref::mag(R(d - R(e.last))) <= R(e.last) * R(1e-6) + eps_of(std::min(16u, e.prec)) * 10 * sc, "one Newton iteration moved the point by " << d.str(5) << ", reported is " << e.last); } break;
		case PFail1: case PFail: case PHigh: if (state != 1) bad_here("failure to predict out of place"); state = 4; break; case CFail: case CHigh: if (state != 2) bad_here("failure to correct out of place"); state = 4; break;
		case Ok: { if (state != 3) bad_here("success of a step without correction"); state = 0; ++ok; lastok = i; C want = up(ev[step].time) + up(ev[step].dt); PBT_CHECK(ref::mag(C(up(e.time) - want)) <= eps_of(16) * 4 * (ref::mag(want) + ref::mag(up(ev[step].time))), "a step from " << b2::str(up(ev[step].time)) << " of length " << b2::str(up(ev[step].dt)) << " ends at " << b2::str(up(e.time))); R d = vdist<CT>(e.point, ev[corr].res), sc(1); for (int j = 0; j < e.point.size(); ++j) sc += ref::mag(up(e.point(j))); if (!amp) PBT_CHECK(d == 0, "the accepted point is not the corrected one"); else PBT_CHECK(d <= R(tr.TrackingTolerance()) * 2 + eps_of(std::min(e.prec, ev[corr].prec)) * 100 * sc, "the accepted point is " << vshow<CT>(e.point) << ", the corrected one " << vshow<CT>(ev[corr].res)); break; }
		case Bad: if (state == 0) bad_here("failure of a step which did not begin"); if (!amp && state == 3) bad_here("failure of a corrected step"); state = 0; ++bad; PBT_CHECK(ref::mag(C(up(e.time) - up(ev[step].time))) <= eps_of(16) * 4 * ref::mag(up(e.time)), "a failed step moved the time from " << b2::str(up(ev[step].time)) << " to " << b2::str(up(e.time))); break;
		case Inf: if (state == 0) bad_here("truncation without a step"); ++inf; break; case Sing: ++sing; break;
		case Prec: if (!amp) bad_here("a tracker of fixed precision changes precision"); PBT_CHECK(e.from == prec && e.to != prec, "precision changes from " << e.from << " to " << e.to << " but it was " << prec); prec = e.to; break; default: break; } }
	PBT_CHECK(ev.back().prec == prec && tr.CurrentPrecision() == prec, "precision at the end"); PBT_CHECK((rc == SuccessCode::GoingToInfinity) == (inf == 1), code(rc) << " with " << inf << " truncations"); PBT_CHECK((rc == SuccessCode::SingularStartPoint) == (sing == 1), code(rc) << " with " << sing << " singular start points"); PBT_CHECK(inf || state == 0, "the last step has no outcome"); PBT_CHECK(ok + bad == tr.NumTotalStepsTaken(), ok << " successful and " << bad << " failed steps were announced, the tracker counts " << tr.NumTotalStepsTaken());
	if (rc == SuccessCode::Success && ok) { auto& e = ev[lastok]; PBT_CHECK(ref::mag(C(up(e.time) - up(t1))) <= eps_of(16) * 4 * (ref::mag(up(t1))) , "the last accepted step ends at time " << b2::str(up(e.time))); R d = vdist<CT>(e.point, end); R sc(1); for (int j = 0; j < end.size(); ++j) sc += ref::mag(up(end(j))); PBT_CHECK(d <= eps_of(std::min(prec, e.prec)) * 10 * sc, "the last accepted point is not the result"); }
	if (ok) g.label("steps accepted"); if (bad) g.label("steps rejected"); g.label(code(rc)); if (ok + bad >= 4) g.nontrivial();
}
template<class Tr> void setup(Tr& tr, Conf const& c, bt::AdaptiveMultiplePrecisionConfig const* a) { tr.Setup(c.m->m, c.tol, c.trunc, c.st, c.nw); if constexpr (std::is_same<Tr, bt::AMPTracker>::value) tr.PrecisionSetup(*a); }
template<class Tr> void tracker(Gen& g, unsigned p) {
	using CT = CTof<Tr>; constexpr bool amp = std::is_same<Tr, bt::AMPTracker>::value; HomCfg hc; Track k = gen_track(g, hc, p, 0.2); if (k.t0 == k.t1) discard("no time"); Conf c = gen_conf(g, k, amp ? 40 : p); c.trunc = k.maxnorm * 4 + 10; bt::AdaptiveMultiplePrecisionConfig a; bool preserve = false;
	// now and then steps which are far too long, tight limits, tolerances that need more precision
	int kind = g.below(6); if (kind == 1) { c.st.initial_step_size = mpq_rational(1, 2); c.st.max_step_size = 1; } if (kind == 2) c.st.max_num_steps = g.range(1, 12); if (kind == 3) c.st.min_step_size = c.st.initial_step_size * mpq_rational(g.range(1, 6), 8); if (kind == 4 && k.maxnorm > 0.05) c.trunc = k.maxnorm * 0.125 * g.range(2, 10); if (kind == 5) c.nw.max_num_newton_iterations = c.nw.min_num_newton_iterations = 1; c.st.max_num_steps = std::min(c.st.max_num_steps, 500u);
	if (amp) { a = bt::AMPConfigFrom(k.h.b.sys); if (g.chance(50)) { a.consecutive_successful_steps_before_precision_decrease = g.range(1, 5); a.maximum_precision = g.range(20, 60); if (g.chance(50)) c.tol = std::pow(10., -double(g.range(8, 25))); } preserve = g.chance(25); if (preserve) c.tol = std::max(c.tol, std::pow(10., -double(p)) * 1e3); } g.note(c.show());
	CT t0, t1; auto point = [&] { precise(k.h, p); auto x = k.h.at(ref::toC(k.t0)); t0 = scal<CT>(k.t0, p); t1 = scal<CT>(k.t1, p); return k.h.point<CT>(x, p); }; Vec<CT> x0 = point(), plain;
	SuccessCode rc0; unsigned steps0; { Tr tr(k.h.b.sys); setup(tr, c, &a); if constexpr (amp) tr.PrecisionPreservation(preserve); rc0 = tr.TrackPath(plain, t0, t1, x0); steps0 = tr.NumTotalStepsTaken(); }
	x0 = point(); Tr tr(k.h.b.sys); setup(tr, c, &a); if constexpr (amp) tr.PrecisionPreservation(preserve); Log<Tr> full, part, twice; Log<Tr> rest[2]; bt::MinMaxPrecisionRecorder<Tr> mm; bt::FirstPrecisionRecorder<Tr> fp; bt::PrecisionAccumulator<Tr> pa; bt::GoryDetailLogger<Tr> gory;
	int from = g.range(0, 40), to = from + g.range(1, 60); bool sentinel = g.chance(50); tr.AddObserver(sentinel ? full : rest[0]); tr.AddObserver(fp); tr.AddObserver(sentinel ? rest[0] : full); tr.AddObserver(mm); tr.AddObserver(pa); tr.AddObserver(twice); tr.AddObserver(twice); tr.AddObserver(rest[1]); if (g.chance(20)) { tr.AddObserver(gory); g.label("logging observer"); }
	full.hook = [&](int i) { if (i == from) tr.AddObserver(part); if (i == to) tr.RemoveObserver(part); };
	Vec<CT> end; SuccessCode rc = tr.TrackPath(end, t0, t1, x0); if (amp) { /* estimates of condition numbers draw random numbers, so that two runs may step differently */ if (rc == SuccessCode::Success && rc0 == rc) { R d = vdist<CT>(plain, end), sc(1); for (int j = 0; j < end.size(); ++j) sc += ref::mag(up(end(j))); PBT_CHECK(d <= (R(c.tol) * 5 + eps_of(16) * 100) * sc * R(k.cond), "with observers tracking ends at " << vshow<CT>(end) << ", without at " << vshow<CT>(plain)); } } else PBT_CHECK(rc == rc0 && steps0 == tr.NumTotalStepsTaken() && same(plain, end), "with observers tracking gives " << code(rc) << " after " << tr.NumTotalStepsTaken() << " steps, without " << code(rc0) << " after " << steps0 << (same(plain, end) ? "" : ", another result"));
	std::ostringstream o; o << full.ev.size() << " events, " << code(rc) << ", " << steps0 << " steps"; g.note(o.str()); story<Tr>(g, tr, full.ev, t0, t1, x0, rc, end, p);
	auto cmp = [&](Log<Tr> const& l, const char* who) { PBT_CHECK(l.ev.size() == full.ev.size(), who << " saw " << l.ev.size() << " events of " << full.ev.size()); for (size_t i = 0; i < l.ev.size(); ++i) PBT_CHECK(l.ev[i] == full.ev[i], who << " saw something else as event " << i << ": " << kn[l.ev[i].k] << " not " << kn[full.ev[i].k]); }; cmp(rest[0], "another observer"); cmp(rest[1], "an observer added later"); cmp(twice, "an observer added twice");
	{ size_t n = full.ev.size(); auto& l = part.ev; size_t first = from + 1; if (!l.empty() && size_t(from) < n && l[0] == full.ev[from] && l.size() > 0 && (first >= n || !(l[0] == full.ev[first]))) first = from; std::vector<Ev<Tr>> w; for (size_t i = first; i < n && i < size_t(to); ++i) w.push_back(full.ev[i]); PBT_CHECK(l.size() == w.size() || (l.size() == w.size() + 1 && size_t(to) < n && false) , "an observer attached at event " << from << " and removed at " << to << " saw " << l.size() << " events of " << n); for (size_t i = 0; i < w.size(); ++i) PBT_CHECK(l[i] == w[i], "an observer attached for a while saw something else"); }
	// the recorders
	auto& P = pa.Precisions(); PBT_CHECK(P.size() == full.ev.size(), "precisions recorded: " << P.size() << " for " << full.ev.size() << " events"); for (size_t i = 0; i < P.size(); ++i) PBT_CHECK(P[i] == full.ev[i].prec, "recorded precision " << P[i] << " at event " << i);
	unsigned lo = p, hi = p, next = 0; CT when; bool rose = false; for (auto& e : full.ev) if (e.k == Prec) { lo = std::min(lo, e.to); hi = std::max(hi, e.to); if (e.to > e.from && !rose) { rose = true; when = e.time; next = e.to; } } PBT_CHECK(mm.MinPrecision() == lo && mm.MaxPrecision() == hi, "recorded precisions " << mm.MinPrecision() << ".." << mm.MaxPrecision() << ", used " << lo << ".." << hi);
	PBT_CHECK(fp.StartPrecision() == p, "recorded start precision " << fp.StartPrecision()); PBT_CHECK(fp.DidPrecisionIncrease() == rose, "increase of precision " << (rose ? "missed" : "invented")); if (rose) { PBT_CHECK(fp.NextPrecision() == next && fp.TimeOfIncrease() == when, "first increase recorded to " << fp.NextPrecision() << ", was to " << next); g.label("precision increases"); }
	// removed observers stay silent, the others go on; a second path is a story of its own
	size_t n0 = full.ev.size(); bool gone = g.chance(50); if (gone) { tr.RemoveObserver(rest[0]); tr.RemoveObserver(rest[0]); } full.hook = nullptr; tr.RemoveObserver(part); size_t np = part.ev.size(), nr = rest[0].ev.size(); x0 = point(); rc = tr.TrackPath(end, t0, t1, x0); std::vector<Ev<Tr>> second(full.ev.begin() + n0, full.ev.end()); story<Tr>(g, tr, second, t0, t1, x0, rc, end, p); PBT_CHECK(part.ev.size() == np, "a removed observer was notified"); PBT_CHECK(rest[0].ev.size() == (gone ? nr : full.ev.size()), "after " << (gone ? "removal" : "another path") << ": " << rest[0].ev.size() << " events"); PBT_CHECK(rest[1].ev.size() == full.ev.size(), "an observer missed events of the second path"); for (size_t i = n0; i < full.ev.size(); ++i) PBT_CHECK(rest[1].ev[i] == full.ev[i], "observers saw different events");
	PBT_CHECK(mm.MinPrecision() <= p && mm.MaxPrecision() >= p, "recorded precisions after the second path");
}
template<class Tr> using MO = bertini::MultiObserver<Tr, Log, bt::StepFailScreenPrinter, Log>;
static void accumulate(Gen& g) {
	using Tr = bt::AMPTracker; static const unsigned ps[] = {16, 30, 20}; unsigned p = ps[g.below(3)]; HomCfg hc; Track k = gen_track(g, hc, p, 0.2); if (k.t0 == k.t1) discard("no time"); Conf c = gen_conf(g, k, 40); c.trunc = k.maxnorm * 4 + 10; c.st.max_num_steps = 400; auto a = bt::AMPConfigFrom(k.h.b.sys); if (g.chance(50)) c.tol = std::pow(10., -double(g.range(8, 25))); g.note(c.show()); precise(k.h, p); Vec<T> x0 = k.h.point<T>(k.h.at(ref::toC(k.t0)), p), end; T t0 = lift(k.t0, p), t1 = lift(k.t1, p);
	Tr tr(k.h.b.sys), other(k.h.b.sys); setup(tr, c, &a); setup(other, c, &a); bt::AMPPathAccumulator<Tr> path; bt::AMPPathAccumulator<Tr, bt::NewStep> news; MO<Tr> mo; bt::PrecisionAccumulator<Tr> pa; bt::MinMaxPrecisionRecorder<Tr> mm; Log<Tr> log, foreign; tr.AddObserver(path); tr.AddObserver(mo); tr.AddObserver(log); tr.AddObserver(news); tr.AddObserver(pa); tr.AddObserver(mm); other.AddObserver(foreign);
	auto* out = std::cout.rdbuf(nullptr); auto rc = tr.TrackPath(end, t0, t1, x0); std::cout.rdbuf(out); std::cout.clear(); PBT_CHECK(foreign.ev.empty(), "an observer of another tracker was notified"); auto& P = path.Path(); auto& N = news.Path(); size_t i = 0, j = 0; for (auto& e : log.ev) { if (e.k == Ok) { PBT_CHECK(i < P.size() && same(P[i], e.point), "accepted point " << i << " is not in the recorded path of " << P.size()); ++i; } if (e.k == New) { PBT_CHECK(j < N.size() && same(N[j], e.point), "step " << j << " is not recorded"); ++j; } } PBT_CHECK(i == P.size() && j == N.size(), "the recorded path has " << P.size() << " points for " << i << " accepted steps");
	R d; if (rc == SuccessCode::Success && P.size()) { d = vdist<T>(P.back(), end); R sc(1); for (int q = 0; q < end.size(); ++q) sc += ref::mag(up(end(q))); PBT_CHECK(d <= eps_of(16) * 10 * sc || d <= eps_of(prec_of(end(0))) * 10 * sc, "the recorded path does not end at the result"); PBT_CHECK(vdist<T>(N.front(), x0) <= eps_of(16) * 10 * sc || vdist<T>(N.front(), x0) <= R(c.tol) * 2, "the recorded steps do not begin at the start point"); }
	for (auto* l : {&std::get<0>(mo.observers_), &std::get<2>(mo.observers_)}) { PBT_CHECK(l->ev.size() == log.ev.size(), "a part of a multiobserver saw " << l->ev.size() << " of " << log.ev.size() << " events"); for (size_t q = 0; q < log.ev.size(); ++q) PBT_CHECK(l->ev[q] == log.ev[q], "a part of a multiobserver saw something else"); } PBT_CHECK(pa.Precisions().size() == log.ev.size() && mm.MinPrecision() <= p && mm.MaxPrecision() >= p, "precisions recorded"); if (P.size() >= 3) g.nontrivial();
}
// --- endgames ------------------------------------------------------------------------------------------------------
template<class EG> struct EgLog : bertini::Observer<EG> { using Em = EG; using CT = typename EG::BaseComplexType; int approx = 0, conv = 0, fail_ = 0, secure = 0, minimal = 0, cycle = 0, total = 0; bool after = false; Vec<CT> last; double err = -1; CT when; Vec<CT> at; CT circle; bool odd = false;
	void Observe(bertini::AnyEvent const& e) override { ++total; if (conv) after = true; if (auto p = dynamic_cast<be::ApproximatedRoot<Em> const*>(&e)) { ++approx; last = p->Get().template FinalApproximation<CT>(); err = double(p->Get().ApproximateError()); } if (auto p = dynamic_cast<be::Converged<Em> const*>(&e)) { ++conv; at = p->Get().template FinalApproximation<CT>(); when = p->Get().LatestTime(); } if (dynamic_cast<be::SecurityMaxNormReached<Em> const*>(&e)) ++secure; if (dynamic_cast<be::MinTrackTimeReached<Em> const*>(&e)) ++minimal; if (dynamic_cast<be::CycleNumTooHigh<Em> const*>(&e)) ++cycle; if (dynamic_cast<be::EndgameFailure<Em> const*>(&e)) ++fail_; } };
template<class Tr, class EG> void endgame(Gen& g, unsigned p) {
	using CT = CTof<Tr>; PuiCfg pc; pc.maxv = 2; pc.maxc = 3; pc.infinite = g.chance(25); Pui h = gen_pui(g, pc); EgConf c = gen_egconf(g); if (pc.infinite && g.chance(50)) { c.sec.level = 0; c.sec.max_norm = 1e4; } else c.sec.level = 1; if (g.chance(15)) c.e.min_track_time = 1e-2; precise(h, p); Tr tr(h.b.sys); eg_setup(tr, c, h); EG eg(tr); eg.template Set<be::EndgameConfig>(c.e); eg.template Set<be::SecurityConfig>(c.sec);
	auto go = [&](EG& e) { precise(h, p); CT t0 = scal<CT>(h.t0, p), ts = scal<CT>(h.ts, p); Vec<CT> x = h.point<CT>(h.at(ref::R(1)), p); return e.Run(t0, x, ts); };
	EgLog<EG> a, b; Log<Tr> lt; be::GoryDetailLogger<EG> gory; bool logger = g.chance(25); eg.AddObserver(a); if (logger) eg.AddObserver(gory); eg.AddObserver(b); eg.AddObserver(b); tr.AddObserver(lt); SuccessCode rc = go(eg); std::ostringstream o; o << code(rc) << ", " << a.total << " events of the endgame, " << lt.ev.size() << " of the tracker"; g.note(o.str()); g.label(code(rc));
	PBT_CHECK((rc == SuccessCode::Success) == (a.conv == 1), code(rc) << " with " << a.conv << " announcements of convergence"); PBT_CHECK(!a.after, "events after convergence"); PBT_CHECK(a.total == b.total && a.approx == b.approx && a.conv == b.conv && a.fail_ == b.fail_, "two observers saw different events"); PBT_CHECK((rc == SuccessCode::SecurityMaxNormReached) == (a.secure > 0), code(rc) << " with " << a.secure << " announcements of the security norm"); PBT_CHECK(rc != SuccessCode::CycleNumTooHigh || a.cycle == 1, "cycle number too high was announced " << a.cycle << " times");
	if (rc == SuccessCode::Success) { PBT_CHECK(a.approx >= 1, "converged without approximation"); PBT_CHECK(same(a.at, a.last) && same(a.at, Vec<CT>(eg.template FinalApproximation<CT>())), "the approximation announced is not the final one"); PBT_CHECK(a.err == double(eg.ApproximateError()), "the error announced is " << a.err << ", the final one " << double(eg.ApproximateError())); PBT_CHECK(a.fail_ == 0, "success, but a failure was announced"); PBT_CHECK(a.when == eg.LatestTime(), "time of convergence"); }
	// every path tracked by the endgame starts and ends once
	int init = 0, ended = 0; for (auto& e : lt.ev) { if (e.k == Init) { PBT_CHECK(init == ended, "tracking within tracking"); ++init; } if (e.k == Ended) { ++ended; PBT_CHECK(init == ended, "tracking ends twice"); } } PBT_CHECK(init == ended && init > 0, init << " paths started, " << ended << " ended");
	// removal
	eg.RemoveObserver(a); tr.RemoveObserver(lt); int n = a.total, m = lt.ev.size(), bt_ = b.total; SuccessCode rc2 = go(eg); PBT_CHECK(a.total == n && int(lt.ev.size()) == m, "removed observers were notified"); PBT_CHECK(rc2 != SuccessCode::Success || b.total > bt_, "an observer still attached saw nothing"); (void)rc2; if (a.approx >= 2) g.nontrivial();
}
static void eg_all(Gen& g) { static const unsigned ps[] = {30, 20, 16, 40}; switch (g.below(6)) { case 0: endgame<bt::DoublePrecisionTracker, be::EndgameSelector<bt::DoublePrecisionTracker>::PSEG>(g, 16); break; case 1: endgame<bt::DoublePrecisionTracker, be::EndgameSelector<bt::DoublePrecisionTracker>::Cauchy>(g, 16); break; case 2: { unsigned p = ps[g.below(2)]; set_prec(p); endgame<bt::MultiplePrecisionTracker, be::EndgameSelector<bt::MultiplePrecisionTracker>::PSEG>(g, p); break; } case 3: { unsigned p = ps[g.below(2)]; set_prec(p); endgame<bt::MultiplePrecisionTracker, be::EndgameSelector<bt::MultiplePrecisionTracker>::Cauchy>(g, p); break; } case 4: { unsigned p = ps[g.below(4)]; set_prec(p); endgame<bt::AMPTracker, be::EndgameSelector<bt::AMPTracker>::PSEG>(g, p); break; } default: { unsigned p = ps[g.below(4)]; set_prec(p); endgame<bt::AMPTracker, be::EndgameSelector<bt::AMPTracker>::Cauchy>(g, p); } } }
int main(int argc, char** argv) {
	boost::log::core::get()->set_logging_enabled(false); Suite s; s.property = "P27"; static const unsigned ps[] = {16, 30, 20, 40, 50};
	s.subs = {{"histories", "1-2 observables, 1-5 observers that may attach and detach one another while being notified, up to 24 operations, against a model; non-trivial: at least 3 notifications with several observers or observers that act", 6000, 200000, histories},
		{"double", "double precision tracking of known paths, with limits that make steps fail; the whole log is checked against the call and the tracker's state; non-trivial: at least 4 steps", 160, 4000, [](Gen& g) { tracker<bt::DoublePrecisionTracker>(g, 16); }},
		{"multiple", "the same in fixed multiple precision", 120, 3000, [](Gen& g) { unsigned p = ps[1 + g.below(4)]; set_prec(p); tracker<bt::MultiplePrecisionTracker>(g, p); }},
		{"adaptive", "the same in adaptive precision, with the precision recorders", 160, 4000, [](Gen& g) { unsigned p = ps[g.below(5)]; tracker<bt::AMPTracker>(g, p); }},
		{"accumulators", "path and precision accumulators and multiobservers on adaptive tracking, against the log; non-trivial: at least 3 accepted steps", 100, 2500, accumulate},
		{"endgames", "observers of endgames of both kinds and their trackers; non-trivial: at least 2 approximations", 160, 4000, eg_all, 60}};
	return run_main(s, argc, argv);
}
