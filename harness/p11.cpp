// Linear slices are the linear forms they report.
#include "b2ref.hpp"
#include "sysgen.hpp"
#include "pbt.hpp"
#include "bertini2/system/slice.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
using namespace b2; using pbt::Gen; using bertini::LinearSlice;
namespace {
template<class T> using MatT = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
struct SM { unsigned dim = 0, n = 0; bool hom = false, real = false, orth = false; unsigned prec = 0; std::vector<std::vector<ref::C>> a; std::vector<ref::C> c; };
MatT<mpfr_complex> zeros(unsigned n, unsigned prec) { MatT<mpfr_complex> m(n, 1); for (unsigned i = 0; i < n; ++i) m(i, 0) = lift(0, prec); return m; }
void learn(SM& m, LinearSlice const& s) {
	LinearSlice q(s); set_prec(260); q.Precision(260); auto J = q.Jacobian(zeros(m.n, 260)); bertini::Vec<mpfr_complex> x = zeros(m.n, 260).col(0); auto f = q.Eval(x);
	m.a.assign(m.dim, {}); m.c.clear(); for (unsigned i = 0; i < m.dim; ++i) { for (unsigned j = 0; j < m.n; ++j) m.a[i].push_back(up(J(i, j))); m.c.push_back(up(f(i))); }
	set_prec(m.prec);
}
ref::R abs2(ref::C const& z) { return z.real() * z.real() + z.imag() * z.imag(); }
void kind(Gen& g, SM const& m) { // homogeneity, reality, orthogonality, rank
	ref::R tiny = eps_of(240);
	if (m.hom) for (auto& z : m.c) PBT_CHECK(z == ref::C(0), "homogeneous slice has a constant"); else { bool any = false; for (auto& z : m.c) any |= ref::mag(z) > 0; PBT_CHECK(m.dim == 0 || any, "affine slice has no constants"); for (auto& z : m.c) if (m.real) PBT_CHECK(z.imag() == 0, "real slice has a complex constant"); }
	for (auto& r : m.a) for (auto& z : r) if (m.real) PBT_CHECK(z.imag() == 0, "real slice has a complex coefficient"); 
	if (!m.real && m.dim && m.n && !(m.orth && m.dim >= m.n && m.n == 0)) { bool cx = false; for (auto& r : m.a) for (auto& z : r) cx |= z.imag() != 0; PBT_CHECK(cx, "complex slice is real"); }
	bool rows = m.dim <= m.n; unsigned k = rows ? m.dim : m.n, l = rows ? m.n : m.dim; auto at = [&](unsigned i, unsigned j) { return rows ? m.a[i][j] : m.a[j][i]; };
	if (m.orth) for (unsigned i = 0; i < k; ++i) for (unsigned j = 0; j < k; ++j) { ref::C d(0); for (unsigned q = 0; q < l; ++q) d += at(i, q) * ref::C(at(j, q).real(), -at(j, q).imag()); PBT_CHECK(ref::mag(ref::C(d - ref::C(i == j ? 1 : 0))) < tiny, "orthogonal slice has inner product " << str(d) << " between forms " << i << " and " << j); }
	// rank by elimination
	auto M = m.a; unsigned rank = 0; for (unsigned c = 0; c < m.n && rank < m.dim; ++c) { unsigned p = rank; for (unsigned r = rank; r < m.dim; ++r) if (abs2(M[r][c]) > abs2(M[p][c])) p = r; if (ref::mag(M[p][c]) < ref::R(1e-12)) continue; std::swap(M[p], M[rank]); for (unsigned r = rank + 1; r < m.dim; ++r) { ref::C f = M[r][c] / M[rank][c]; for (unsigned q = c; q < m.n; ++q) M[r][q] -= f * M[rank][q]; } ++rank; }
	PBT_CHECK(rank == k, "slice of dimension " << m.dim << " in " << m.n << " variables has rank " << rank);
}
template<class T> void one(Gen& g, LinearSlice const& s, SM const& m) {
	bool mp = !std::is_same<T, dbl>::value; ref::R eps = eps_for<T>(m.prec); std::vector<std::complex<double>> p; for (unsigned i = 0; i < m.n; ++i) p.push_back({g.small_int(300) / 64., g.chance(40) ? 0 : g.small_int(300) / 64.});
	auto x = vec<T>(p, m.prec); auto chkp = [&](T const& z, char const* w) { if (mp) PBT_CHECK(prec_of(z) == m.prec, w << " has precision " << prec_of(z) << " at working precision " << m.prec); };
	auto chk = [&](bertini::Vec<T> const& f, char const* w) { PBT_CHECK(f.size() == m.dim, w << " size " << f.size()); for (unsigned i = 0; i < m.dim; ++i) { ref::C v = m.c[i]; ref::R mg = ref::mag(v); for (unsigned j = 0; j < m.n; ++j) { auto t = m.a[i][j] * ref::toC(p[j]); v += t; mg += ref::mag(t); } PBT_CHECK(ref::close(up(f(i)), v, eps * 20 * (m.n + 1) * mg), w << " value " << i << " is " << str(up(f(i))) << ", expected " << str(v)); chkp(f(i), w); } };
	chk(s.Eval(x), "eval"); bertini::Vec<T> r(g.below(5)); s.Eval(r, x); chk(r, "eval in place");
	MatT<T> xm = x; auto chkJ = [&](MatT<T> const& J, char const* w) { PBT_CHECK(J.rows() == m.dim && J.cols() == m.n, w << " size"); for (unsigned i = 0; i < m.dim; ++i) for (unsigned j = 0; j < m.n; ++j) { PBT_CHECK(ref::close(up(J(i, j)), m.a[i][j], eps * 4 * (ref::mag(m.a[i][j]) + eps)), w << " entry " << i << "," << j << " is " << str(up(J(i, j))) << ", expected " << str(m.a[i][j])); chkp(J(i, j), w); } };
	chkJ(s.Jacobian(xm), "jacobian"); MatT<T> J; s.Jacobian(J, xm); chkJ(J, "jacobian in place"); g.nontrivial();
}
void look(Gen& g, LinearSlice const& s, SM const& m) { PBT_CHECK(s.Dimension() == m.dim && s.NumVariables() == m.n && s.Precision() == m.prec, "dimension " << s.Dimension() << " variables " << s.NumVariables() << " precision " << s.Precision()); set_prec(m.prec); if (g.chance(70)) one<mpfr_complex>(g, s, m); if (g.chance(60)) one<dbl>(g, s, m); }
void slices(Gen& g) {
	std::vector<std::pair<LinearSlice, SM>> live;
	auto fresh = [&] { unsigned p = some_prec(g); set_prec(p); SM m; m.n = g.range(1, 5); m.dim = g.range(1, 4); m.hom = g.chance(40); m.orth = g.chance(50); m.real = g.chance(40); m.prec = p; auto v = make_vars(m.n); bertini::VariableGroup vg(v.begin(), v.end());
		std::ostringstream o; o << "new " << m.dim << "x" << m.n << (m.hom ? " hom" : "") << (m.orth ? " orth" : "") << (m.real ? " real" : "") << " @" << p; g.note(o.str());
		LinearSlice s = m.real ? LinearSlice::RandomReal(vg, m.dim, m.hom, m.orth) : LinearSlice::RandomComplex(vg, m.dim, m.hom, m.orth); PBT_CHECK(bertini::DefaultPrecision() == p, "making a slice changed the default precision"); learn(m, s); kind(g, m); live.push_back({s, m}); look(g, s, m); };
	fresh(); int steps = g.range(1, 7);
	for (int i = 0; i < steps; ++i) { size_t w = g.below(live.size()); auto& L = live[w];
		switch (g.weighted({4, 4, 1, 1, 2, 1})) {
		case 0: look(g, L.first, L.second); break;
		case 1: { unsigned q = some_prec(g); g.note("prec " + std::to_string(w) + " = " + std::to_string(q)); set_prec(q); L.first.Precision(q); L.second.prec = q; look(g, L.first, L.second); break; }
		case 2: if (live.size() < 4) { g.note("copy " + std::to_string(w)); LinearSlice c(L.first); auto m = L.second; live.push_back({c, m}); } break;
		case 3: { size_t v = g.below(live.size()); g.note("assign " + std::to_string(w) + " = " + std::to_string(v)); live[w].first = live[v].first; live[w].second = live[v].second; break; }
		case 4: { g.note("archive " + std::to_string(w)); set_prec(L.second.prec); std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << L.first; } LinearSlice q; { boost::archive::text_iarchive ia(ss); ia >> q; } L.first = q; look(g, L.first, L.second); break; }
		default: if (live.size() < 4) fresh();
		} }
	for (auto& l : live) look(g, l.first, l.second);
}
}
int main(int argc, char** argv) {
	pbt::Suite s; s.property = "P11";
	s.subs = {{"slices", "1-4 live slices of dimension 1-4 over 1-5 variables, homogeneous or not, orthogonal or not, real or complex, made at 16-190 digits; histories of evaluation, precision changes, copies, assignment, archiving; kinds judged on coefficients read at 260 digits; non-trivial = some evaluation was compared.", 20000, 200000, slices}};
	s.assumptions = {"DefaultPrecision() equals the slice's precision when it is evaluated (library convention)"};
	return pbt::run_main(s, argc, argv);
}
