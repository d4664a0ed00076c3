// Tracking problems with known paths: homotopies of homgen.hpp with start and end times, and how fast and how close to other solutions they run.
#pragma once
#include "homgen.hpp"
#include "bertini2/trackers/tracker.hpp"
namespace b2 {
using pbt::Gen; using bertini::Vec; using bertini::SuccessCode; using bertini::tracking::Predictor; using bertini::tracking::SteppingConfig; using bertini::tracking::NewtonConfig; using bertini::mpq_rational;
struct Meth { Predictor m; const char* name; int order; };
static const Meth meths[] = {{Predictor::RKF45, "RKF45", 4}, {Predictor::Euler, "Euler", 1}, {Predictor::Constant, "Constant", 0}, {Predictor::HeunEuler, "HeunEuler", 2}, {Predictor::RK4, "RK4", 4}, {Predictor::RKCashKarp45, "CashKarp45", 4}, {Predictor::RKDormandPrince56, "DormandPrince56", 5}, {Predictor::RKVerner67, "Verner67", 6}};
inline void precise(Hom& h, unsigned p) { set_prec(p); h.b.sys.precision(p); }
struct Track { Hom h; Cd t0, t1; double safe = 0 /* step length that cannot mix up paths */, maxnorm = 0 /* dehomogenized */, endnorm = 0, minhom = 1, cond = 1; };
inline const char* code(SuccessCode c) { static const char* n[] = {"Success", "HigherPrecisionNecessary", "ReduceStepSize", "GoingToInfinity", "FailedToConverge", "MatrixSolveFailure", "MatrixSolveFailureFirstPartOfPrediction", "MaxNumStepsTaken", "MaxPrecisionReached", "MinStepSizeReached", "Failure", "SingularStartPoint", "ExternallyTerminated", "MinTrackTimeReached", "SecurityMaxNormReached", "CycleNumTooHigh"}; int i = int(c); return i < 0 ? "NeverStarted" : i < 16 ? n[i] : "?"; }
inline Cd toCd(ref::C const& z) { return {z.real().convert_to<double>(), z.imag().convert_to<double>()}; }
// measures a path; false if it comes too close to other solutions to be called benign
inline bool measure(Track& k, double clear = 0.5) {
	double gap = k.h.clearance(k.t1); if (gap < clear) return false; gap = std::min(gap, 4.0);
	const int N = 64; double len = std::abs(k.t1 - k.t0), speed = 0, inner = 1e9, worst = 1; Vec<dbl> last; k.maxnorm = 0;
	for (int i = 0; i <= N; ++i) { Cd t = k.t0 + (k.t1 - k.t0) * (double(i) / N); auto x = k.h.at(ref::toC(t)); double nx = 0; for (auto& z : x) nx += std::norm(toCd(z)); nx = std::sqrt(nx); k.maxnorm = std::max(k.maxnorm, nx); k.endnorm = nx; auto v = k.h.point<dbl>(x, 16); double vn = 0; if (k.h.homd) vn = std::abs(v(0)); k.minhom = k.h.homd ? std::min(k.minhom, vn) : 1; double g = k.h.homd ? gap * vn / (1 + nx + gap) : gap; inner = std::min(inner, g); if (last.size()) speed = std::max(speed, (v - last).norm() / (len / N)); last = v;
		std::vector<ref::C> f; std::vector<std::vector<ref::C>> J; k.h.refeval(x, ref::toC(t), f, J); double I = invnorm(J); worst = std::max(worst, I * fro(J)); }
	k.cond = worst * (1 + k.maxnorm); if (k.h.homd) k.cond *= (1 + k.maxnorm) / std::min(1.0, k.minhom);
	k.safe = inner / (8 * (speed + 1e-3)); return k.cond < 1e6 && std::isfinite(speed); }
inline Track gen_track(Gen& g, HomCfg c, unsigned p, double clear = 0.5) {
	Track k; switch (g.below(5)) { case 0: k.t0 = 1; k.t1 = 0; break; case 1: k.t0 = 1; k.t1 = 0.1; break; case 2: k.t0 = Cd(0.125 * g.range(-8, 8), 0.125 * g.small_int(4)); k.t1 = Cd(0.125 * g.range(-8, 8), 0.125 * g.small_int(4)); break; case 3: k.t0 = 0; k.t1 = 1; break; default: k.t0 = Cd(1, 0.5); k.t1 = Cd(0.0625 * g.range(0, 4), 0); }
	set_prec(p); k.h = gen_hom(g, c, k.t0); std::ostringstream o; o << "from time " << k.t0 << " to " << k.t1; g.note(o.str()); precise(k.h, p); if (!measure(k, clear)) pbt::discard("not a benign path"); return k; }
inline mpq_rational dy(double x) { return mpq_rational(x); }
// random but sensible settings for which a benign path must be followed
struct Conf { const Meth* m; double tol; SteppingConfig st; NewtonConfig nw; double trunc = 1e5; std::string show() const { std::ostringstream o; o << m->name << " tol " << tol << " step " << st.initial_step_size.convert_to<double>() << " max " << st.max_step_size.convert_to<double>() << " Newton " << nw.min_num_newton_iterations << ".." << nw.max_num_newton_iterations << " min steps " << st.min_num_steps; return o.str(); } };
inline Conf gen_conf(Gen& g, Track const& k, double digits) {
	Conf c; c.m = &meths[g.below(8)]; int lo = 4, hi = std::max(5, int(std::min(digits - 2 - std::log10(k.cond), c.m->order == 0 ? 6. : c.m->order == 1 ? 7. : c.m->order == 2 ? 10. : 30.))); c.tol = std::pow(10., -double(g.range(lo, std::max(lo, std::min(hi, 24))))); if (g.chance(20)) c.tol *= 3;
	c.nw.max_num_newton_iterations = g.range(2, 4); c.nw.min_num_newton_iterations = g.range(1, 2); double s = std::min(k.safe, 0.5); static const double fr[] = {1, 0.5, 0.25}; s *= fr[g.below(3)]; if (s < 1. / 600) pbt::discard("path needs too many steps"); s = std::floor(s * 4096) / 4096; c.st.initial_step_size = dy(s); c.st.max_step_size = dy(std::floor(std::min(k.safe, 0.5) * 4096) / 4096); c.st.min_num_steps = g.chance(25) ? g.range(2, 40) : 1; c.st.frequency_of_CN_estimation = g.range(1, 3); return c; }
template<class T> ref::R vdist(Vec<T> const& a, Vec<T> const& b) { ref::R m(0); for (int i = 0; i < a.size(); ++i) { ref::R d = ref::mag(ref::C(up(a(i)) - up(b(i)))); if (!(d <= m)) m = d; } return m; }
template<class T> std::string vshow(Vec<T> const& a) { std::string s; for (int i = 0; i < a.size(); ++i) s += (i ? " " : "") + b2::str(up(a(i))); return "(" + s + ")"; }
} // namespace b2
