// Patches: the linear equations they report, rescaling, precision, copies, archives.
#include "sysgen.hpp"
#include "pbt.hpp"
#include <set>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
using namespace b2; using pbt::Gen; using bertini::Patch;
namespace {
template<class T> using VecT = bertini::Vec<T>;
template<class T> using MatT = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
struct PM { // model of a patch: its coefficients to 260 digits, its precision
	std::vector<unsigned> sizes; std::vector<std::vector<ref::C>> c; bool real = false; unsigned prec = 0;
	unsigned n() const { unsigned r = 0; for (auto s : sizes) r += s; return r; }
};
void learn(PM& m, Patch const& p) { // the published coefficients, at a high precision
	Patch q(p); auto old = bertini::DefaultPrecision(); set_prec(260); q.Precision(260);
	VecT<mpfr_complex> x(m.n()); for (unsigned i = 0; i < m.n(); ++i) x(i) = mpfr_complex(0);
	auto J = q.Jacobian(x); m.c.clear(); unsigned at = 0;
	for (size_t k = 0; k < m.sizes.size(); ++k) { m.c.emplace_back(); for (unsigned j = 0; j < m.sizes[k]; ++j) m.c.back().push_back(up(J(k, at++))); }
	set_prec(old);
}
std::vector<std::complex<double>> point(Gen& g, unsigned n) { std::vector<std::complex<double>> p; for (unsigned i = 0; i < n; ++i) p.push_back(g.chance(10) ? std::complex<double>(0) : std::complex<double>(g.small_int(300) / 64., g.chance(30) ? 0 : g.small_int(300) / 64.)); return p; }
template<class T> void check_one(Gen& g, Patch const& p, PM const& m, std::string const& how) {
	unsigned n = m.n(), k = m.sizes.size(); auto pt = point(g, n); auto x = vec<T>(pt, m.prec); ref::R eps = eps_for<T>(m.prec);
	bool mp = !std::is_same<T, dbl>::value;
	auto chk_prec = [&](T const& z, std::string const& w) { if (mp) PBT_CHECK(prec_of(z) == m.prec, how << w << " has precision " << prec_of(z) << " at working precision " << m.prec); };
	std::vector<ref::C> want; std::vector<ref::R> mag; unsigned at = 0;
	for (unsigned i = 0; i < k; ++i) { ref::C w(-1); ref::R mg(1); for (unsigned j = 0; j < m.sizes[i]; ++j, ++at) { auto t = m.c[i][j] * ref::toC(pt[at]); w += t; mg += ref::mag(t); } want.push_back(w); mag.push_back(mg); }
	auto cmp = [&](auto const& f, unsigned off) { for (unsigned i = 0; i < k; ++i) { PBT_CHECK(ref::close(up(f(off + i)), want[i], eps * 20 * (m.sizes[i] + 1) * mag[i]), how << "patch value " << i << " is " << str(up(f(off + i))) << ", expected " << str(want[i])); chk_prec(f(off + i), "patch value"); } };
	auto f = p.Eval(x); PBT_CHECK(f.size() == k, how << f.size() << " values for " << k << " groups"); cmp(f, 0);
	unsigned extra = g.below(4); VecT<T> big(k + extra); for (unsigned i = 0; i < k + extra; ++i) big(i) = scal<T>(7. + i, m.prec);
	p.EvalInPlace(big, x); cmp(big, extra); for (unsigned i = 0; i < extra; ++i) PBT_CHECK(up(big(i)) == ref::C(7 + int(i)), how << "evaluating in place wrote to entry " << i << " of the " << extra << " before the patch");
	auto cmpJ = [&](auto const& J, unsigned off) { unsigned col = 0; for (unsigned i = 0; i < k; ++i) { unsigned lo = col; col += m.sizes[i]; for (unsigned j = 0; j < n; ++j) { auto z = up(J(off + i, j)); if (j < lo || j >= col) PBT_CHECK(z == ref::C(0), how << "patch " << i << " depends on coordinate " << j << " of another group: " << str(z)); else { PBT_CHECK(ref::close(z, m.c[i][j - lo], eps * 4 * ref::mag(m.c[i][j - lo])), how << "Jacobian entry " << i << "," << j << " is " << str(z) << ", coefficient " << str(m.c[i][j - lo])); chk_prec(J(off + i, j), "Jacobian entry"); if (m.real) PBT_CHECK(z.imag() == 0, how << "real patch has a complex coefficient"); } } } };
	MatT<T> J = p.Jacobian(x); PBT_CHECK(J.rows() == k && J.cols() == n, how << "Jacobian " << J.rows() << "x" << J.cols()); cmpJ(J, 0);
	MatT<T> BJ(k + extra, n); for (unsigned i = 0; i < k + extra; ++i) for (unsigned j = 0; j < n; ++j) BJ(i, j) = scal<T>(3. + i, m.prec);
	p.JacobianInPlace(BJ, x); cmpJ(BJ, extra); for (unsigned i = 0; i < extra; ++i) for (unsigned j = 0; j < n; ++j) PBT_CHECK(up(BJ(i, j)) == ref::C(3 + int(i)), how << "Jacobian in place wrote to row " << i << " of the " << extra << " before the patch");
	// rescaling
	std::vector<ref::C> s; std::vector<ref::R> cond; bool ok = true;
	for (unsigned i = 0; i < k; ++i) { s.push_back(want[i] + ref::C(1)); if (ref::mag(s[i]) * 1000000 < mag[i]) ok = false; else cond.push_back(mag[i] / ref::mag(s[i])); }
	if (ok) {
		auto chk = [&](VecT<T> const& y) { unsigned a = 0; for (unsigned i = 0; i < k; ++i) { ref::C v(-1); ref::R mg(1); for (unsigned j = 0; j < m.sizes[i]; ++j, ++a) { auto w = ref::C(ref::toC(pt[a]) / s[i]); PBT_CHECK(ref::close(up(y(a)), w, eps * 60 * (m.sizes[i] + 1) * cond[i] * ref::mag(w)), how << "rescaled coordinate " << a << " is " << str(up(y(a))) << ", expected " << str(w)); chk_prec(y(a), "rescaled coordinate"); auto t = m.c[i][j] * up(y(a)); v += t; mg += ref::mag(t); }
			PBT_CHECK(ref::mag(v) <= eps * 60 * (m.sizes[i] + 1) * cond[i] * mg, how << "rescaled point is off patch " << i << " by " << str(v)); } };
		auto y = p.RescalePoint(x); chk(y); for (unsigned i = 0; i < n; ++i) PBT_CHECK(up(x(i)) == ref::toC(pt[i]), how << "rescaling changed its argument");
		auto z = x; p.RescalePointToFitInPlace(z); chk(z); auto z2 = z; p.RescalePointToFitInPlace(z2); chk(z2); g.nontrivial();
	}
}
void check_both(Gen& g, Patch const& p, PM const& m, std::string const& how) {
	PBT_CHECK(p.NumVariableGroups() == m.sizes.size() && p.NumVariables() == m.n(), how << "sizes"); PBT_CHECK(p.Precision() == m.prec, how << "precision " << p.Precision() << ", expected " << m.prec);
	if (bertini::DefaultPrecision() != m.prec) set_prec(m.prec);
	if (g.chance(70)) check_one<mpfr_complex>(g, p, m, how + " mp: "); if (g.chance(60)) check_one<dbl>(g, p, m, how + " double: ");
}
void patches(Gen& g) {
	unsigned p0 = some_prec(g); set_prec(p0); std::vector<std::pair<Patch, PM>> live; std::string hist;
	auto fresh = [&] { PM m; unsigned k = g.range(1, 4); for (unsigned i = 0; i < k; ++i) m.sizes.push_back(g.range(1, 4)); int how = g.below(3); m.real = how == 2; m.prec = bertini::DefaultPrecision(); std::ostringstream o; o << "new" << how << "("; for (auto s : m.sizes) o << s << " "; o << ")@" << m.prec; hist += o.str() + " "; Patch p = how == 0 ? Patch(m.sizes) : how == 1 ? Patch::Random(m.sizes) : Patch::RandomReal(m.sizes); learn(m, p); live.push_back({p, m}); };
	fresh(); int steps = g.range(1, 8);
	for (int i = 0; i < steps; ++i) {
		size_t w = g.below(live.size());
		switch (g.weighted({6, 4, 2, 2, 2, 1, 2})) {
		case 0: check_both(g, live[w].first, live[w].second, "step: "); break;
		case 1: { unsigned q = some_prec(g); hist += "prec" + std::to_string(w) + "=" + std::to_string(q) + " "; set_prec(q); live[w].first.Precision(q); live[w].second.prec = q; check_both(g, live[w].first, live[w].second, "step: "); break; }
		case 2: hist += "copy" + std::to_string(w) + " "; if (live.size() < 4) { Patch c(live[w].first); auto m = live[w].second; live.push_back({c, m}); auto& l = live.back(); check_both(g, l.first, l.second, "step: "); } break;
		case 3: { size_t v = g.below(live.size()); hist += "assign" + std::to_string(w) + "=" + std::to_string(v) + " "; live[w].first = live[v].first; live[w].second = live[v].second; break; }
		case 4: { hist += "archive" + std::to_string(w) + " "; std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << live[w].first; } Patch q; { boost::archive::text_iarchive ia(ss); ia >> q; } live[w].first = q; PBT_CHECK(q == live[w].first, "copy differs"); break; }
		case 5: if (live.size() < 4) fresh(); break;
		case 6: for (auto& a : live) for (auto& b : live) { bool same = a.second.sizes == b.second.sizes && a.second.c == b.second.c; PBT_CHECK((a.first == b.first) == same && (a.first != b.first) != same, "patch equality says " << (a.first == b.first)); } break;
		}
	}
	for (auto& l : live) check_both(g, l.first, l.second, "final: ");
	g.note(hist);
}
void systems(Gen& g) { // the patch of a system sits on the groups of its ordering
	unsigned p0 = some_prec(g); set_prec(p0); SysCfg c; c.ungrouped = false; c.maxv = 5; c.depth = 2; auto s = gen_spec(g, c); auto hs = homogenize(s); if (!hs.ok) pbt::discard("not homogenizable");
	g.note(s.show()); auto b = build(g, s); b.sys.Homogenize(); if (!b.sys.IsHomogeneous()) pbt::discard("not homogeneous");
	b.sys.AutoPatch(); b.sys.precision(p0); PM m; m.prec = p0; for (size_t i = 0; i < s.groups.size(); ++i) m.sizes.push_back(s.groups[i].v.size() + (hs.homvar[i] >= 0 ? 1 : 0));
	PBT_CHECK(b.sys.IsPatched() && b.sys.NumPatches() == m.sizes.size(), "patch count " << b.sys.NumPatches() << " for " << m.sizes.size() << " groups");
	learn(m, b.sys.GetPatch()); check_both(g, b.sys.GetPatch(), m, "system patch: ");
	bertini::System other = Clone(b.sys); unsigned q = some_prec(g); bool moved = g.chance(50); if (moved) { set_prec(q); b.sys.precision(q); m.prec = q; check_both(g, b.sys.GetPatch(), m, "moved system patch: "); }
	auto chk_sys = [&](auto tag, bertini::System& S, std::string const& how) { using T = decltype(tag); auto pt = point(g, m.n()); auto x = vec<T>(pt, m.prec); ref::R eps = eps_for<T>(m.prec);
		for (size_t i = 0, a = 0; i < m.sizes.size(); ++i) { ref::C d(0); ref::R mg(0); for (unsigned j = 0; j < m.sizes[i]; ++j, ++a) { auto t = m.c[i][j] * ref::toC(pt[a]); d += t; mg += ref::mag(t); } if (ref::mag(d) * 10000 < mg || mg == 0) return; }
		auto y = S.RescalePointToFitPatch(x); auto y2 = x; S.RescalePointToFitPatchInPlace(y2);
		bertini::Vec<T> f; if (s.path) f = S.Eval(y, scal<T>(0.5, m.prec)); else f = S.Eval(y); PBT_CHECK(f.size() == long(s.f.size() + m.sizes.size()), how << "size " << f.size());
		for (size_t i = 0, a = 0; i < m.sizes.size(); ++i) { ref::R mg(1); for (unsigned j = 0; j < m.sizes[i]; ++j, ++a) { mg += ref::mag(m.c[i][j] * up(y(a))); PBT_CHECK(up(y(a)) == up(y2(a)), how << "in place rescaling differs"); } PBT_CHECK(ref::mag(up(f(s.f.size() + i))) <= eps * 2000000 * mg, how << "rescaled point is off patch " << i << ": " << str(up(f(s.f.size() + i)))); }
		g.nontrivial(); };
	chk_sys(dbl(), b.sys, "double: "); if (bertini::DefaultPrecision() != m.prec) set_prec(m.prec); chk_sys(mpfr_complex(), b.sys, "mp: ");
	// handing the patch on
	auto keep = m; auto cp = other.GetPatch(); bertini::System third = Clone(b.sys); third.CopyPatches(b.sys); m.prec = b.sys.precision(); check_both(g, third.GetPatch(), m, "handed on: "); PBT_CHECK(third.GetPatch() == b.sys.GetPatch(), "copied patch differs");
	set_prec(p0); other.precision(p0); other.CopyPatches(b.sys); m = keep; m.prec = p0; check_both(g, other.GetPatch(), m, "handed to a system of another precision: "); chk_sys(mpfr_complex(), other, "handed to a system of another precision: ");
	g.note(s.show());
}
}
int main(int argc, char** argv) {
	pbt::Suite s; s.property = "P10";
	s.subs = {
		{"patches", "1-4 live patches of 1-4 groups of 1-4 coordinates, complex or real; histories of evaluation, precision changes 16-190 digits, copies, assignments, archiving, equality tests; every value, Jacobian, rescaled point compared with the coefficients read at 260 digits; non-trivial = some point was rescaled.", 12000, 120000, patches},
		{"systems", "patches of generated homogenized systems: group layout, evaluation rows, rescaling, precision moves, CopyPatches between systems of different precision; non-trivial = some point was rescaled.", 3000, 30000, systems},
	};
	s.assumptions = {"DefaultPrecision() equals the patch's precision when it is evaluated (library convention)"};
	return pbt::run_main(s, argc, argv);
}
