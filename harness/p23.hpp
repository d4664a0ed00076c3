#pragma once
#include "zdgen.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"
#include "bertini2/nag_algorithms/output.hpp"
namespace b2 { namespace ba = bertini::algorithm; using ref::C; using ref::R; using TD = bertini::start_system::TotalDegree; using MH = bertini::start_system::MHomogeneous;
template<class Tr> using PS = typename be::EndgameSelector<Tr>::PSEG; template<class Tr> using CA = typename be::EndgameSelector<Tr>::Cauchy;
using DT = bt::DoublePrecisionTracker; using MT = bt::MultiplePrecisionTracker; using AT = bt::AMPTracker;
// what must hold of any run is checked at once; an outcome that depends on being close enough to the target for an endgame is described in the result
#define OUTCOME(c, m) do { g.count(); if (!(c) && wrong.empty()) { std::ostringstream q_; q_ << m; wrong = q_.str(); } } while (0)
template<class ZD> std::string solved(Gen& g, ZD& zd, Zd const& z, double tol, bool all, double same_tol, const char* who) { std::string wrong;
	using CT = typename ZD::BaseComplexType; auto& S = zd.FinalSolutions(); auto& M = zd.FinalSolutionMetadata(); auto& B = zd.EndgameBoundaryData(); size_t N = z.paths; PBT_CHECK(S.size() == N && M.size() == N && B.size() == N, who << S.size() << " solutions for " << N << " paths"); std::vector<int> hits(z.root.size(), 0), which(N, -1); std::ostringstream o; int bad = 0;
	for (size_t i = 0; i < N; ++i) { auto& m = M[i]; PBT_CHECK(m.path_index == i && m.solution_index == i, who << "indices of path " << i << " are " << m.path_index << " " << m.solution_index); PBT_CHECK(B[i].success_code == m.pre_endgame_success, who << "path " << i << " before the endgame: " << code(B[i].success_code) << " and " << code(m.pre_endgame_success)); PBT_CHECK(m.pre_endgame_success != SuccessCode::NeverStarted, who << "path " << i << " was never tracked"); if (m.pre_endgame_success != SuccessCode::Success) { ++bad; o << " " << i << ":" << code(m.pre_endgame_success); PBT_CHECK(m.endgame_success == SuccessCode::NeverStarted, who << "path " << i << " failed before the endgame but the endgame says " << code(m.endgame_success)); continue; } PBT_CHECK(m.endgame_success != SuccessCode::NeverStarted, who << "path " << i << " reached the endgame but it never ran");
		if (m.endgame_success != SuccessCode::Success) { ++bad; o << " " << i << ":" << code(m.endgame_success) << " in the endgame"; continue; }
		unsigned p = prec_of(S[i](0)); set_prec(p); zd.TargetSystem().precision(p); Vec<CT> x = zd.TargetSystem().DehomogenizePoint(S[i]); PBT_CHECK(x.size() == int(z.s.nv), who << "solution " << i << " has " << x.size() << " coordinates"); R best(1e9); for (size_t k = 0; k < z.root.size(); ++k) { R d(0); auto ord = z.s.order(); for (int q = 0; q < z.s.nv; ++q) { R e = ref::mag(C(up(x(q)) - z.root[k][ord[q]])); if (!(e <= d)) d = e; } if (d < best) { best = d; which[i] = k; } } R t = R(tol) * (1 + z.big) * (1 + z.big) * z.cond; OUTCOME(which[i] >= 0 && best <= t, who << "path " << i << " ends at " << vshow<CT>(x) << ", " << best.str(3) << " away from any solution (tolerance " << t.str(3) << ")"); if (which[i] >= 0) hits[which[i]]++;
		Vec<CT> f = zd.TargetSystem().Eval(S[i]); R fr(0); for (int q = 0; q < f.size(); ++q) fr = std::max(fr, ref::mag(up(f(q)))); PBT_CHECK(std::abs(fr.convert_to<double>() - m.function_residual) <= 1e-6 * (m.function_residual + fr.convert_to<double>()) + 1e-13, who << "residual of path " << i << " is " << fr.str(4) << ", reported " << m.function_residual); PBT_CHECK(m.accuracy_estimate >= 0 && m.accuracy_estimate_user_coords >= 0 && m.cycle_num >= 1, who << "metadata of path " << i << ": accuracy " << m.accuracy_estimate << " cycle number " << m.cycle_num); }
	g.note(std::string(who) + std::to_string(N - bad) + " of " + std::to_string(N) + " paths succeeded" + (bad ? ", others:" + o.str() : "")); if (bad) g.label("some paths failed");
	if (all) { OUTCOME(bad == 0, who << bad << " of " << N << " paths failed:" << o.str()); for (size_t k = 0; k < z.root.size(); ++k) OUTCOME(hits[k] == z.mult[k], who << "solution " << k << " of multiplicity " << z.mult[k] << " is the end of " << hits[k] << " paths"); }
	// multiplicities and extraction agree with the final points
	size_t single = 0; for (size_t i = 0; i < N; ++i) if (M[i].endgame_success == SuccessCode::Success) { int want = 1; bool clear = true; for (size_t j = 0; j < N; ++j) if (j != i && M[j].endgame_success == SuccessCode::Success) { R d(0); for (int q = 0; q < S[i].size(); ++q) { R e = ref::mag(C(up(S[i](q)) - up(S[j](q)))); d += e * e; } double e = std::sqrt(d.convert_to<double>()); if (e < same_tol) ++want; if (e > same_tol * 0.999 && e < same_tol * 1.001) clear = false; } if (clear) PBT_CHECK(M[i].multiplicity == want, who << "multiplicity of path " << i << " is " << M[i].multiplicity << ", but " << want << " final points agree"); if (all && clear && which[i] >= 0) OUTCOME(M[i].multiplicity == z.mult[which[i]], who << "multiplicity of path " << i << " is " << M[i].multiplicity << ", that of the solution " << z.mult[which[i]]); single += M[i].multiplicity == 1; }
	auto E = ba::output::NonsingularSolutions::Extract(zd); PBT_CHECK(E.size() == single, who << E.size() << " nonsingular solutions extracted, " << single << " have multiplicity one"); if (all) for (auto& x : E) { R best(1e9); for (size_t k = 0; k < z.root.size(); ++k) if (z.mult[k] == 1) { R d(0); auto ord = z.s.order(); for (int q = 0; q < z.s.nv; ++q) d = std::max(d, ref::mag(C(up(x(q)) - z.root[k][ord[q]]))); best = std::min(best, d); } OUTCOME(best <= R(tol) * (1 + z.big) * (1 + z.big) * z.cond, who << "an extracted point is no solution"); }
	if (all && wrong.empty()) { auto A = ba::output::AllSolutions::Extract(zd); PBT_CHECK(A.size() == N, who << A.size() << " solutions extracted"); for (size_t i = 0; i < N; ++i) { R d(0); auto ord = z.s.order(); for (int q = 0; q < z.s.nv; ++q) d = std::max(d, ref::mag(C(up(A[i](q)) - z.root[which[i]][ord[q]]))); OUTCOME(d <= R(tol) * (1 + z.big) * (1 + z.big) * z.cond, who << "extracted solution " << i << " is another one"); } }
	// what is written agrees with what was computed
	std::stringstream raw; ba::output::Classic<ZD>::RawData(raw, zd); auto num = [&](const char* what) { double a = 0; std::string w; raw >> w; std::istringstream q(w); PBT_CHECK(bool(q >> a), who << "raw output: expected " << what << ", found '" << w << "'"); return a; }; auto close = [](double a, double b) { return std::abs(a - b) <= 1e-4 * (std::abs(a) + std::abs(b)) + 1e-300; };
	PBT_CHECK(num("number of variables") == zd.TargetSystem().NumVariables(), who << "number of variables written"); for (size_t i = 0; i < N; ++i) if (M[i].endgame_success != SuccessCode::NeverStarted) { PBT_CHECK(num("path index") == i, who << "index of path " << i << " as written"); PBT_CHECK(num("precision") == prec_of(S[i](0)), who << "precision of path " << i << " as written"); for (int q = 0; q < S[i].size(); ++q) { double a = num("real part"), b = num("imaginary part"); Cd w = toCd(up(S[i](q))); PBT_CHECK(std::abs(a - w.real()) + std::abs(b - w.imag()) <= 1e-14 * (1 + std::abs(w)), who << "coordinate " << q << " of path " << i << " is written as " << a << " " << b << ", is " << w); } PBT_CHECK(close(num("residual"), M[i].function_residual), who << "residual of path " << i << " as written"); PBT_CHECK(close(num("condition number"), M[i].condition_number), who << "condition number of path " << i << " as written"); PBT_CHECK(close(num("Newton residual"), M[i].newton_residual) && M[i].newton_residual >= 0, who << "Newton residual of path " << i << " as written"); if (M[i].endgame_success == SuccessCode::Success) PBT_CHECK(M[i].newton_residual <= std::max(zd.template Get<ba::TolerancesConfig>().newton_during_endgame, zd.template GetFromEndgame<be::EndgameConfig>().final_tolerance), who << "path " << i << " converged with a last Newton step of " << M[i].newton_residual); Cd t(num("time"), 0); t = Cd(t.real(), num("time")); PBT_CHECK(std::abs(t - toCd(up(M[i].final_time_used))) < 1e-14, who << "time of path " << i << " as written"); PBT_CHECK(close(num("accuracy"), M[i].accuracy_estimate), who << "accuracy of path " << i << " as written"); num("time"); num("time"); PBT_CHECK(num("cycle number") == M[i].cycle_num, who << "cycle number of path " << i << " as written"); PBT_CHECK(num("code") == int(M[i].endgame_success), who << "code of path " << i << " as written"); }
	return wrong; }
// what the caller's system computes, to see that solving leaves it alone
struct Before { std::vector<Cd> x; Vec<dbl> f; unsigned nv, nf; bool hom, patched;
	Before(Gen& g, bertini::System const& s) { nv = s.NumVariables(); nf = s.NumTotalFunctions(); hom = s.IsHomogeneous(); patched = s.IsPatched(); x.resize(nv); for (auto& c : x) c = Cd(0.25 * g.small_int(4), 0.125 * g.small_int(4)); f = s.Eval(vec<dbl>(x, 16)); }
	void check(Gen& g, bertini::System const& s) const { PBT_CHECK(s.NumVariables() == nv && s.NumTotalFunctions() == nf && s.IsHomogeneous() == hom && s.IsPatched() == patched, "solving changed the shape of the given system"); Vec<dbl> h = s.Eval(vec<dbl>(x, 16)); for (unsigned i = 0; i < nf; ++i) PBT_CHECK(std::abs(h(i) - f(i)) <= 1e-9 * (1 + std::abs(f(i))), "solving changed the given system: function " << i << " is " << h(i) << ", was " << f(i)); } };
template<class ZD> void tune(Gen& g, ZD& zd, Zd const& z, unsigned p, double& ftol, double& same) {
	using CT = typename ZD::BaseComplexType; auto t = zd.template Get<ba::TolerancesConfig>(); t.newton_before_endgame = std::pow(10., -double(g.range(5, 8))); t.newton_during_endgame = t.newton_before_endgame * (g.chance(50) ? 0.1 : 1); zd.Set(t); auto e = zd.template GetFromEndgame<be::EndgameConfig>(); e.final_tolerance = ftol; zd.SetToEndgame(e); auto pp = zd.template Get<ba::PostProcessingConfig>(); pp.same_point_tolerance = same; zd.Set(pp); auto zc = zd.template Get<ba::ZeroDimConfig<CT>>(); zc.initial_ambient_precision = p; if (g.chance(30)) { zc.endgame_boundary = scal<CT>(Cd(g.chance(50) ? 0.125 : 0.0625, 0), p); g.label("another endgame boundary"); } else zc.endgame_boundary = scal<CT>(Cd(0.1, 0), p); zc.start_time = scal<CT>(Cd(1), p); zc.target_time = scal<CT>(Cd(0), p); zd.Set(zc); auto st = zd.GetTracker().template Get<bt::SteppingConfig>(); st.max_num_steps = 2000; zd.GetTracker().template Set<bt::SteppingConfig>(st); std::ostringstream o; o << "tolerances " << t.newton_before_endgame << " " << t.newton_during_endgame << " final " << ftol << " same point " << same; g.note(o.str()); }
// settings with which some paths fail, before or in the endgame
template<class ZD> void limit(Gen& g, ZD& zd) { std::ostringstream o; auto st = zd.GetTracker().template Get<bt::SteppingConfig>(); switch (g.below(4)) { case 0: st.max_num_steps = g.range(8, 60); o << "at most " << st.max_num_steps << " steps"; break; case 1: st.min_step_size = bertini::mpq_rational(1, 1 << g.range(2, 8)); o << "steps no shorter than " << st.min_step_size; break; case 2: { auto t = zd.template Get<ba::TolerancesConfig>(); zd.GetTracker().SetInfiniteTruncationTolerance(0.5 * g.range(1, 12)); o << "truncation at " << zd.GetTracker().InfiniteTruncationTolerance(); break; } default: { auto e = zd.template GetFromEndgame<be::EndgameConfig>(); e.min_track_time = std::pow(10., -double(g.range(1, 5))); zd.SetToEndgame(e); o << "endgame no nearer than " << e.min_track_time; } } zd.GetTracker().template Set<bt::SteppingConfig>(st); g.note(o.str()); }
template<class Tr, class EG, class St> void plain(Gen& g, ZdCfg cf, unsigned p, bool twice, double ftol, bool need_all) {
	set_prec(p); Zd z = gen_zd(g, cf); Before bf(g, z.b.sys); using ZD = ba::ZeroDim<Tr, EG, bertini::System, St>; ZD zd(z.b.sys); if (g.chance(30)) { zd.DefaultSetup(); g.label("set up again"); } double same = z.singular ? 1e-4 : 1e-7; tune(g, zd, z, p, ftol, same); if (cf.failing) limit(g, zd); double tol = z.singular ? 1e-4 : std::max(ftol * 1e2, 1e-9); bool all = need_all && !cf.failing;
	auto solve = [&](const char* who) { zd.Solve(); std::string w = solved(g, zd, z, tol, all, same, who); if (w.empty()) return; auto zc = zd.template Get<ba::ZeroDimConfig<typename ZD::BaseComplexType>>(), z0 = zc; auto t = zd.template Get<ba::TolerancesConfig>(), t0 = t; for (double b : {1e-2, 1e-4, 1e-6}) { set_prec(p); zc.endgame_boundary = scal<typename ZD::BaseComplexType>(Cd(b), p); zd.Set(zc); t.newton_before_endgame = std::min(t.newton_before_endgame, 1e-8); t.newton_during_endgame = std::min(t.newton_during_endgame, 1e-8); zd.Set(t); std::ostringstream o; o << w << "; endgame from " << b << ", tighter"; g.note(o.str()); zd.Solve(); w = solved(g, zd, z, tol, all, same, who); g.label("endgame nearer the target"); if (w.empty()) { zd.Set(z0); zd.Set(t0); return; } } if (std::is_same<Tr, DT>::value) for (int r = 0; r < 3; ++r) { set_prec(p); zd.DefaultSetup(); zd.Set(zc); zd.Set(t); auto e = zd.template GetFromEndgame<be::EndgameConfig>(); auto st = zd.GetTracker().template Get<bt::SteppingConfig>(); st.max_num_steps = 4000; zd.GetTracker().template Set<bt::SteppingConfig>(st); auto pp = zd.template Get<ba::PostProcessingConfig>(); pp.same_point_tolerance = same; zd.Set(pp); g.note("another homotopy"); zd.Solve(); w = solved(g, zd, z, tol, all, same, who); g.label("another homotopy"); if (w.empty()) { zd.Set(z0); zd.Set(t0); return; } } pbt::fail(w + " (nor do stricter settings help)"); };
	solve(""); bf.check(g, z.b.sys); if (z.paths >= 2) g.nontrivial(); if (z.singular) g.label("singular solutions");
	if (twice) { if (g.chance(50)) { ftol = ftol * 10; tune(g, zd, z, p, ftol, same); tol = std::max(tol, ftol * 1e2); } if (g.chance(50)) { zd.DefaultSetup(); tune(g, zd, z, p, ftol, same); g.label("set up again between"); } solve("solving again: "); bf.check(g, z.b.sys); }
}
// the caller's own start system and homotopy, used by reference
template<class Tr, class EG> void by_reference(Gen& g, ZdCfg cf, unsigned p, double ftol) {
	set_prec(p); Zd z = gen_zd(g, cf); auto target = bertini::Clone(z.b.sys); if (g.chance(60)) { target.Homogenize(); target.AutoPatch(); g.label("homogenized and patched"); } TD start(target); auto t = bertini::node::Variable::Make("t"); bertini::System hom = (1 - t) * target + bertini::node::Rational::Make(bertini::node::Rational::Rand()) * t * start; hom.AddPathVariable(t);
	Before bt(g, target), bs(g, start); using ZD = ba::ZeroDim<Tr, EG, bertini::System, TD, bertini::policy::RefToGiven>; ZD zd(target, start, hom); PBT_CHECK(&zd.TargetSystem() == &target && &zd.StartSystem() == &start && &zd.Homotopy() == &hom, "the given systems are not the ones used"); zd.DefaultSetup(); double same = 1e-7; tune(g, zd, z, p, ftol, same);
	zd.Solve(); std::string w = solved(g, zd, z, std::max(ftol * 1e2, 1e-9), true, same, "by reference: "); bt.check(g, target); bs.check(g, start); if (z.paths >= 2) g.nontrivial(); if (!w.empty()) { auto zc = zd.template Get<ba::ZeroDimConfig<typename ZD::BaseComplexType>>(); set_prec(p); zc.endgame_boundary = scal<typename ZD::BaseComplexType>(Cd(1e-3), p); zd.Set(zc); auto c = zd.template Get<ba::TolerancesConfig>(); c.newton_before_endgame = c.newton_during_endgame = 1e-8; zd.Set(c); zd.Solve(); w = solved(g, zd, z, std::max(ftol * 1e2, 1e-9), true, same, "by reference: "); g.label("endgame nearer the target"); } if (!w.empty()) pbt::fail(w);
}
void run_reference(Gen& g, ZdCfg cf); void run_refused(Gen& g); void run_double(Gen& g, ZdCfg cf, bool twice); void run_multiple(Gen& g, ZdCfg cf, bool twice); void run_adaptive(Gen& g, ZdCfg cf, bool twice);
}
