// The midpath check against a brute-force model.
#include "pbt.hpp"
#include "ref.hpp"
#include "bertini2/mpfr_complex.hpp"
#include "bertini2/eigen_extensions.hpp"
#include "bertini2/system.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"
#include <set>
using pbt::Gen; using bertini::dbl; using bertini::mpfr_complex; using bertini::SuccessCode;
namespace {
template<class T> struct Meta { bertini::Vec<T> path_point; SuccessCode success_code = SuccessCode::NeverStarted; };
template<class T> struct Starts { std::vector<bertini::Vec<T>> p; template<class U> bertini::Vec<U> StartPoint(unsigned long long i) const { return p.at(i); } };
using Cx = std::complex<double>; using Pt = std::vector<Cx>;
template<class T> T mk(Cx const& z); template<> dbl mk<dbl>(Cx const& z) { return z; } template<> mpfr_complex mk<mpfr_complex>(Cx const& z) { return mpfr_complex(z.real(), z.imag()); }
template<class T> bertini::Vec<T> mkv(Pt const& p) { bertini::Vec<T> v(p.size()); for (size_t i = 0; i < p.size(); ++i) v(i) = mk<T>(p[i]); return v; }
double norm(Pt const& a) { double m = 0; for (auto& z : a) m = std::max(m, std::abs(z)); return m; }
Pt sub(Pt a, Pt const& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
template<class T> void run(Gen& g) {
	using R = typename bertini::NumTraits<T>::Real; using M = bertini::algorithm::MidpathChecker<R, T, Meta<T>>;
	bertini::algorithm::MidPathConfig conf; if (g.chance(60)) conf.same_point_tolerance = std::pow(10., -g.range(1, 9)); double tol = conf.same_point_tolerance;
	bool deflt = g.chance(20); M one; if (!deflt || g.chance(50)) one = M(conf); else { conf = bertini::algorithm::MidPathConfig(); tol = conf.same_point_tolerance; one = M(bertini::algorithm::MidPathConfig()); }
	PBT_CHECK(one.Passed(), "a fresh check has not passed");
	int rounds = g.range(1, 4); bool crossed_any = false;
	for (int r = 0; r < rounds; ++r) {
		if (r && g.chance(25)) { conf.same_point_tolerance = std::pow(10., -g.range(1, 9)); tol = conf.same_point_tolerance; one.Set(conf); }
		unsigned n = g.below(9), d = g.range(1, 4);
		auto perturb = [&](Pt p, bool relative) { double scale = relative ? norm(p) : 1; double f; int k = g.weighted({2, 3, 3}); if (k == 0) return p; f = k == 1 ? tol * std::pow(2., -1. - g.range(0, 20)) : tol * std::pow(2., 1. + g.range(0, 20)); size_t at = g.below(p.size()); if (scale == 0) scale = k == 1 ? 0 : 1; p[at] += std::polar(f * scale, g.below(64) * 0.1); return p; };
		auto randp = [&] { Pt p; double s = g.chance(70) ? 1 : std::pow(10., g.small_int(8)); for (unsigned i = 0; i < d; ++i) p.push_back(g.chance(15) ? Cx(0) : Cx(g.small_int(9) * s, g.chance(50) ? 0 : g.small_int(9) * s)); return p; };
		std::vector<Pt> pts, sts; for (unsigned i = 0; i < n; ++i) { pts.push_back(i && g.chance(55) ? perturb(pts[g.below(i)], true) : randp()); sts.push_back(i && g.chance(40) ? perturb(sts[g.below(i)], false) : randp()); }
		std::vector<SuccessCode> code; for (unsigned i = 0; i < n; ++i) code.push_back(g.chance(85) ? SuccessCode::Success : g.chance(50) ? SuccessCode::MinStepSizeReached : SuccessCode::GoingToInfinity);
		std::set<unsigned> want, rerun;
		for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) {
			double diff = norm(sub(pts[i], pts[j])), ni = norm(pts[i]), sd = norm(sub(sts[i], sts[j]));
			if (code[i] != SuccessCode::Success || code[j] != SuccessCode::Success) continue;
			double rel = ni == 0 ? (diff == 0 ? 0 : 1e300) : diff / ni; if (rel > 0.7 * tol && rel < 1.4 * tol) pbt::discard("borderline distance");
			if (rel > tol) continue; if (sd > 0.7 * tol && sd < 1.4 * tol) pbt::discard("borderline start distance");
			want.insert(i); want.insert(j); if (sd > tol) { rerun.insert(i); rerun.insert(j); }
		}
		bertini::algorithm::SolnCont<Meta<T>> data(n); Starts<T> ss; for (unsigned i = 0; i < n; ++i) { data[i].path_point = mkv<T>(pts[i]); data[i].success_code = code[i]; ss.p.push_back(mkv<T>(sts[i])); }
		bool passed = one.Check(data, ss); std::ostringstream o; o << "round " << r << " n " << n << " tol " << tol << " crossed"; for (auto i : want) o << " " << i << (rerun.count(i) ? "r" : ""); g.note(o.str());
		PBT_CHECK(passed == want.empty() && one.Passed() == passed, "check " << r << " passed=" << passed << " with " << want.size() << " paths crossing");
		std::set<unsigned> got, grr; for (auto& c : one.GetCrossedPaths()) { PBT_CHECK(got.insert(c.index()).second, "path " << c.index() << " listed twice"); if (c.rerun()) grr.insert(c.index()); }
		PBT_CHECK(got == want, "check " << r << ": " << got.size() << " paths named, " << want.size() << " are involved"); PBT_CHECK(grr == rerun, "check " << r << ": " << grr.size() << " paths to run again, should be " << rerun.size());
		if (!want.empty()) crossed_any = true;
	}
	if (crossed_any) g.nontrivial();
}
}
int main(int argc, char** argv) {
	pbt::Suite s; s.property = "P24";
	s.subs = {
		{"double", "1-4 successive checks with one checker of 0-8 paths in 1-4 dimensions; points and start points cluster at distances from 2^-21 to 2^21 times the tolerance, including the origin, failed paths mixed in, tolerance changed between checks; non-trivial = some paths cross.", 20000, 200000, run<dbl>},
		{"multiple", "the same in multiple precision.", 10000, 100000, run<mpfr_complex>},
	};
	s.assumptions = {"closeness is relative to the size of the lower-indexed path's point; distances within 0.7-1.4 of the tolerance are not judged"};
	return pbt::run_main(s, argc, argv);
}
