#pragma once
#include "p23.hpp"
#include "bertini2/blackbox/switches_zerodim.hpp"
#include "bertini2/blackbox/user_homotopy.hpp"
#include "bertini2/system/precon.hpp"
namespace b2 { namespace bb = bertini::blackbox; using US = bertini::start_system::User;
inline bb::ZeroDimRT gen_rt(Gen& g) { bb::ZeroDimRT rt; static const bb::type::Tracker t[] = {bb::type::Tracker::FixedDouble, bb::type::Tracker::Adaptive, bb::type::Tracker::FixedMultiple}; rt.tracker = t[g.below(3)]; rt.endgame = g.chance(50) ? bb::type::Endgame::PowerSeries : bb::type::Endgame::Cauchy; std::string s = std::string(rt.tracker == bb::type::Tracker::FixedDouble ? "double" : rt.tracker == bb::type::Tracker::Adaptive ? "adaptive" : "multiple") + (rt.endgame == bb::type::Endgame::Cauchy ? ", Cauchy" : ", power series"); g.label(s); g.note(s); return rt; }
// which of the six combinations an algorithm is; the action is run on the one asked for
template<class St, template<class, class> class Pol, class F> void the(Gen& g, bb::ZeroDimRT const& rt, ba::AnyZeroDim* z, F f) {
	int found = 0; bool right = false; auto is = [&](auto* tr, auto* eg, bb::type::Tracker t, bb::type::Endgame e) { using Z = ba::ZeroDim<std::remove_pointer_t<decltype(tr)>, std::remove_pointer_t<decltype(eg)>, bertini::System, St, Pol>; if (dynamic_cast<Z*>(z)) { ++found; if (rt.tracker == t && rt.endgame == e) right = true; } };
	using bb::type::Tracker; using bb::type::Endgame; is((DT*)0, (PS<DT>*)0, Tracker::FixedDouble, Endgame::PowerSeries); is((DT*)0, (CA<DT>*)0, Tracker::FixedDouble, Endgame::Cauchy); is((MT*)0, (PS<MT>*)0, Tracker::FixedMultiple, Endgame::PowerSeries); is((MT*)0, (CA<MT>*)0, Tracker::FixedMultiple, Endgame::Cauchy); is((AT*)0, (PS<AT>*)0, Tracker::Adaptive, Endgame::PowerSeries); is((AT*)0, (CA<AT>*)0, Tracker::Adaptive, Endgame::Cauchy);
	PBT_CHECK(found == 1, "the algorithm is none with this start system and these systems"); PBT_CHECK(right, "the algorithm has another tracker or endgame than asked for");
	auto go = [&](auto* tr, auto* eg) { using Z = ba::ZeroDim<std::remove_pointer_t<decltype(tr)>, std::remove_pointer_t<decltype(eg)>, bertini::System, St, Pol>; f(*dynamic_cast<Z*>(z)); }; bool ps = rt.endgame == Endgame::PowerSeries;
	switch (rt.tracker) { case Tracker::FixedDouble: ps ? go((DT*)0, (PS<DT>*)0) : go((DT*)0, (CA<DT>*)0); break; case Tracker::FixedMultiple: ps ? go((MT*)0, (PS<MT>*)0) : go((MT*)0, (CA<MT>*)0); break; default: ps ? go((AT*)0, (PS<AT>*)0) : go((AT*)0, (CA<AT>*)0); } }
inline unsigned gen_p(Gen& g, bb::ZeroDimRT const& rt) { static const unsigned ps[] = {16, 20, 30}; return rt.tracker == bb::type::Tracker::FixedDouble ? 16 : rt.tracker == bb::type::Tracker::FixedMultiple ? ps[1 + g.below(2)] : ps[g.below(3)]; }
// solve, and if an endgame was not close enough, from closer
template<class ZD> void solve_all(Gen& g, ZD& zd, Zd const& z, unsigned p, bool all, const char* who) { using CT = typename ZD::BaseComplexType; double ft = std::pow(10., -double(g.range(7, 9))), same = 1e-7, tol = std::max(ft * 1e2, 1e-9); auto go = [&] { zd.Solve(); std::string w = solved(g, zd, z, tol, all, same, who); if (w.empty()) for (auto& m : zd.FinalSolutionMetadata()) if (m.endgame_success != SuccessCode::Success) w = std::string(who) + "a path failed"; return w; }; tune(g, zd, z, p, ft, same); std::string w = go(); for (double b : {1e-2, 1e-3, 1e-5}) { if (w.empty()) return; g.note(w); set_prec(p); auto zc = zd.template Get<ba::ZeroDimConfig<CT>>(); zc.endgame_boundary = scal<CT>(Cd(b), p); zd.Set(zc); auto t = zd.template Get<ba::TolerancesConfig>(); t.newton_before_endgame = t.newton_during_endgame = 1e-8; zd.Set(t); w = go(); g.label("endgame nearer the target"); } if (!w.empty()) { if (std::is_same<typename ZD::TrackerT, DT>::value) pbt::discard("too hard for double precision: " + w); pbt::fail(w); } }
void run_td(Gen& g); void run_mh(Gen& g); void run_user(Gen& g); void run_shape(Gen& g); void run_nonsense(Gen& g); void run_precon(Gen& g);
}
