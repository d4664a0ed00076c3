// Multiprecision complex arithmetic and the linear algebra on top of it.
#include "b2ref.hpp"
#include "sysgen.hpp"
#include "pbt.hpp"
#include "bertini2/eigen_extensions.hpp"
#include "bertini2/num_traits.hpp"
using namespace b2; using pbt::Gen; using ref::C; using ref::R;
namespace {
template<class T> using MatT = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
using Cd = std::complex<double>;
Cd val(Gen& g) { switch (g.weighted({5, 2, 1, 1})) { case 0: return {g.small_int(400) / 64., g.small_int(400) / 64.}; case 1: return {g.small_int(50) / 8., 0}; case 2: return {0, g.small_int(50) / 8.}; default: { double s = std::ldexp(1., g.small_int(40)); return {g.small_int(400) * s, g.small_int(400) * s}; } } }
#define NEAR(got, want, tol, what) do { auto pbt_g_ = up(got); C pbt_w_{(want)}; PBT_CHECK(ref::close(pbt_g_, pbt_w_, R(tol)), what << " is " << b2::str(pbt_g_) << ", expected " << b2::str(pbt_w_)); } while (0)
void scalars(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); R eps = eps_of(p); int steps = g.range(1, 6); Cd a0 = val(g); mpfr_complex z = lift(a0, p); C w = ref::toC(a0); R err(0); std::ostringstream hist; hist << a0;
	for (int i = 0; i < steps; ++i) { // a chain of operations with a running error bound
		Cd b0 = val(g); mpfr_complex y = lift(b0, p); C v = ref::toC(b0); int op = g.below(4), kind = g.below(9); hist << " " << "+-*/"[op] << kind << "," << b0; bool right = g.chance(30); 
		int ib = int(b0.real() * 8); if (kind == 1) v = C(ib); if (kind == 2) v = C(R(b0.real())); if (kind == 3) v = C(long(ib)); if (kind == 4) v = C(ib); if (kind == 5) v = w; bool alias = kind == 5; if (alias) right = false; if (kind == 8) v = C(unsigned(std::abs(ib)));
		if (op == 3 && (right ? ref::mag(w) == 0 : ref::mag(v) == 0)) continue; if (alias && (op == 1)) { mpfr_complex t = z; t -= t; PBT_CHECK(t == mpfr_complex(0), "z -= z is not 0"); continue; } if (alias && op == 3) { mpfr_complex t = z; t /= t; NEAR(t, C(1), eps * 10, "z /= z"); continue; }
		if (op == 3 && right && err * 1000 > ref::mag(w)) return; 
		auto f = [&](auto const& q) { mpfr_complex r; if (right) { switch (op) { case 0: r = q + z; break; case 1: r = q - z; break; case 2: r = q * z; break; default: r = q / z; } } else if (g.chance(50)) { r = z; switch (op) { case 0: r += q; break; case 1: r -= q; break; case 2: r *= q; break; default: r /= q; } } else { switch (op) { case 0: r = z + q; break; case 1: r = z - q; break; case 2: r = z * q; break; default: r = z / q; } } z = r; };
		switch (kind) { case 1: f(ib); break; case 2: f(mpfr_float(b0.real())); break; case 3: f(long(ib)); break; case 4: f(mpfr_float(ib)); break; case 5: switch (op) { case 0: z += z; break; default: z *= z; } break; case 8: f(unsigned(std::abs(ib))); break; default: f(y); }
		R mw = ref::mag(w), mv = ref::mag(v), e0 = err; C nw; R ev = alias ? e0 : R(0);
		switch (op) { case 0: nw = w + v; err = e0 + ev + eps * 3 * (mw + mv + e0); break; case 1: nw = right ? C(v - w) : C(w - v); err = e0 + ev + eps * 3 * (mw + mv + e0); break; case 2: nw = w * v; err = e0 * mv + mw * ev + e0 * ev + eps * 8 * (mw + e0) * (mv + ev); break; default: nw = right ? C(v / w) : C(w / v); if (right) err = mv * e0 / (mw * mw) * 2 + eps * 20 * ref::mag(nw); else err = e0 / mv + eps * 20 * (mw + e0) / mv; }
		w = nw; g.note(hist.str()); NEAR(z, w, err, "after " << hist.str() << ": value"); PBT_CHECK(z.precision() == p, "result has precision " << z.precision() << " at " << p); if (ref::mag(w) > R("1e60")) break; g.nontrivial(); }
}
void functions(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); R eps = eps_of(p); Cd a0{g.small_int(300) / 64., g.small_int(300) / 64.}; mpfr_complex z = lift(a0, p); C w = ref::toC(a0); R m = ref::mag(w); if (m == 0) pbt::discard("zero"); int k = g.below(16); std::ostringstream o; o << k << " at " << a0 << " p " << p; g.note(o.str());
	C v; mpfr_complex r; R tol; bool ok = true;
	auto cut = [&](bool c) { if (c) pbt::discard("branch cut"); };
	using namespace boost::multiprecision;
	switch (k) {
	case 0: r = exp(z); v = exp(w); tol = ref::mag(v) * (1 + m); break;
	case 1: cut(a0.imag() == 0 && a0.real() < 0); r = log(z); v = log(w); tol = ref::mag(v) + 1; break;
	case 2: cut(a0.imag() == 0 && a0.real() < 0); r = sqrt(z); v = sqrt(w); tol = ref::mag(v); break;
	case 3: r = sin(z); v = sin(w); tol = (1 + m) * exp(R(boost::multiprecision::abs(R(w.imag())))); break;
	case 4: r = cos(z); v = cos(w); tol = (1 + m) * exp(R(boost::multiprecision::abs(R(w.imag())))); break;
	case 5: r = pow(z, 2); v = w * w; tol = ref::mag(v); break;
	case 6: { int n = g.range(-12, 12); r = pow(z, n); v = C(1); for (int i = 0; i < std::abs(n); ++i) v *= w; if (n < 0) v = C(1) / v; tol = ref::mag(v) * (1 + std::abs(n)); break; }
	case 7: { cut(a0.imag() == 0 && a0.real() < 0); Cd e{g.small_int(200) / 64., g.chance(50) ? 0 : g.small_int(200) / 64.}; r = pow(z, lift(e, p)); v = exp(C(ref::toC(e) * log(w))); tol = ref::mag(v) * (2 + ref::mag(ref::toC(e)) * (1 + ref::mag(C(log(w))))); break; }
	case 8: { mpfr_float q = abs(z); PBT_CHECK(q.precision() == p, "abs has precision " << q.precision()); r = mpfr_complex(q); v = C(sqrt(R(w.real() * w.real() + w.imag() * w.imag()))); tol = ref::mag(v); break; }
	case 9: { r = conj(z); v = C(w.real(), -w.imag()); tol = 0; break; }
	case 10: { mpfr_float q = norm(z); r = mpfr_complex(q); v = C(w.real() * w.real() + w.imag() * w.imag()); tol = ref::mag(v); break; }
	case 11: { cut(a0.imag() == 0); mpfr_float q = arg(z); r = mpfr_complex(q); v = C(atan2(R(w.imag()), R(w.real()))); tol = 1; break; }
	case 12: { r = -z; v = -w; tol = 0; break; }
	case 13: { r = sinh(z); v = sinh(w); tol = (1 + m) * exp(R(boost::multiprecision::abs(R(w.real())))); break; }
	case 14: { r = Eigen::internal::abs2_impl<mpfr_complex>::run(z); v = C(w.real() * w.real() + w.imag() * w.imag()); tol = ref::mag(v); break; }
	default: { PBT_CHECK(!bertini::isnan(z), "isnan of a number"); mpfr_complex q(z); q = mpfr_complex(mpfr_float("nan"), z.imag()); PBT_CHECK(bertini::isnan(q), "isnan misses a real part"); q = mpfr_complex(z.real(), mpfr_float("nan")); PBT_CHECK(bertini::isnan(q), "isnan misses an imaginary part"); Cd d = a0; PBT_CHECK(!bertini::isnan(d), "isnan"); d = Cd(NAN, 0); PBT_CHECK(bertini::isnan(d), "isnan"); d = Cd(0, NAN); PBT_CHECK(bertini::isnan(d), "isnan"); ok = false; } }
	if (ok) { NEAR(r, v, eps * 20 * tol, "function " << k); PBT_CHECK(r.precision() == p, "function " << k << " has precision " << r.precision() << " at " << p); } g.nontrivial();
}
void dblpow(Gen& g) { Cd a = g.chance(20) ? Cd(g.small_int(60) / 8., 0) : Cd(g.small_int(300) / 128., g.small_int(300) / 128.); int n = g.chance(80) ? g.range(-16, 16) : g.range(-60, 60); if (std::abs(a) == 0 && n < 0) pbt::discard("1/0"); std::ostringstream o; o << a << "^" << n; g.note(o.str());
	C w(1), b = ref::toC(a); for (int i = 0; i < std::abs(n); ++i) w *= b; if (n < 0) w = C(1) / w; if (ref::mag(w) > R("1e280") || (ref::mag(w) < R("1e-280") && ref::mag(w) != 0)) pbt::discard("range"); auto z = bertini::pow(a, n); NEAR(z, w, eps_dbl() * 8 * (2 + std::abs(n)) * ref::mag(w), o.str()); unsigned u = g.below(1000); using bertini::operator*; NEAR(u * a, C(int(u)) * b, eps_dbl() * 4 * u * ref::mag(b), "unsigned * complex"); g.nontrivial(); }
template<class T> struct Mx { MatT<T> m; std::vector<std::vector<C>> r; };
template<class T> Mx<T> mat(Gen& g, unsigned r, unsigned c, unsigned p) { Mx<T> x; x.m.resize(r, c); x.r.assign(r, std::vector<C>(c)); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { Cd v = g.chance(15) ? Cd(0) : Cd(g.small_int(200) / 64., g.chance(25) ? 0 : g.small_int(200) / 64.); x.m(i, j) = scal<T>(v, p); x.r[i][j] = ref::toC(v); } return x; }
template<class T> void linear(Gen& g) {
	unsigned p = some_prec(g); set_prec(p); R eps = eps_for<T>(p); unsigned n = g.range(1, 5), m = g.range(1, 5), k = g.range(1, 5); auto A = mat<T>(g, n, m, p), B = mat<T>(g, m, k, p), D = mat<T>(g, n, m, p); auto x = mat<T>(g, m, 1, p), y = mat<T>(g, m, 1, p); std::ostringstream o; o << n << "x" << m << "x" << k << " @" << p; g.note(o.str()); bool mp = !std::is_same<T, dbl>::value;
	auto chk = [&](auto const& M, unsigned rr, unsigned cc, auto want, auto mg, std::string const& w) { PBT_CHECK(M.rows() == rr && M.cols() == cc, w << " size"); for (unsigned i = 0; i < rr; ++i) for (unsigned j = 0; j < cc; ++j) { NEAR(M(i, j), want(i, j), eps * 20 * (1 + mg(i, j)), w << " entry " << i << "," << j); if (mp) PBT_CHECK(prec_of(M(i, j)) == p, w << " precision " << prec_of(M(i, j)) << " at " << p); } };
	auto cj = [](C const& z) { return C(z.real(), -z.imag()); };
	MatT<T> AB = A.m * B.m; chk(AB, n, k, [&](unsigned i, unsigned j) { C s(0); for (unsigned q = 0; q < m; ++q) s += A.r[i][q] * B.r[q][j]; return s; }, [&](unsigned i, unsigned j) { R s(0); for (unsigned q = 0; q < m; ++q) s += ref::mag(A.r[i][q]) * ref::mag(B.r[q][j]); return s; }, "product");
	MatT<T> S = A.m + D.m; chk(S, n, m, [&](unsigned i, unsigned j) { return C(A.r[i][j] + D.r[i][j]); }, [&](unsigned i, unsigned j) { return R(ref::mag(A.r[i][j]) + ref::mag(D.r[i][j])); }, "sum");
	MatT<T> AhD = A.m.adjoint() * D.m; chk(AhD, m, m, [&](unsigned i, unsigned j) { C s(0); for (unsigned q = 0; q < n; ++q) s += cj(A.r[q][i]) * D.r[q][j]; return s; }, [&](unsigned i, unsigned j) { R s(0); for (unsigned q = 0; q < n; ++q) s += ref::mag(A.r[q][i]) * ref::mag(D.r[q][j]); return s; }, "adjoint product");
	MatT<T> ADh = A.m * D.m.adjoint(); chk(ADh, n, n, [&](unsigned i, unsigned j) { C s(0); for (unsigned q = 0; q < m; ++q) s += A.r[i][q] * cj(D.r[j][q]); return s; }, [&](unsigned i, unsigned j) { R s(0); for (unsigned q = 0; q < m; ++q) s += ref::mag(A.r[i][q]) * ref::mag(D.r[j][q]); return s; }, "product with adjoint");
	bertini::Vec<T> xv = x.m.col(0), yv = y.m.col(0), Ax = A.m * xv; chk(Ax, n, 1, [&](unsigned i, unsigned) { C s(0); for (unsigned q = 0; q < m; ++q) s += A.r[i][q] * x.r[q][0]; return s; }, [&](unsigned i, unsigned) { R s(0); for (unsigned q = 0; q < m; ++q) s += ref::mag(A.r[i][q]) * ref::mag(x.r[q][0]); return s; }, "matrix-vector");
	{ C s(0); R mg(0), sq(0); R inf(0); for (unsigned q = 0; q < m; ++q) { s += cj(x.r[q][0]) * y.r[q][0]; mg += ref::mag(x.r[q][0]) * ref::mag(y.r[q][0]); R a2 = x.r[q][0].real() * x.r[q][0].real() + x.r[q][0].imag() * x.r[q][0].imag(); sq += a2; inf = std::max(inf, R(sqrt(a2))); } T d = xv.dot(yv); NEAR(d, s, eps * 20 * (1 + mg), "dot"); T nn(xv.squaredNorm()); NEAR(nn, C(sq), eps * 20 * (1 + sq), "squaredNorm"); T nr(xv.norm()); NEAR(nr, C(sqrt(sq)), eps * 20 * (1 + sq), "norm"); T in(xv.template lpNorm<Eigen::Infinity>()); NEAR(in, C(inf), eps * 20 * (1 + inf), "infinity norm"); }
	// square solve: residual against exact arithmetic, and backward stability
	auto Q = mat<T>(g, m, m, p); auto rhs = mat<T>(g, m, 1, p); auto lu = Q.m.partialPivLu(); auto code = bertini::LUPartialPivotDecompositionSuccessful(lu.matrixLU());
	if (code == bertini::MatrixSuccessCode::Success) { bertini::Vec<T> bv = rhs.m.col(0); bertini::Vec<T> sol = lu.solve(bv); R mx(0), nq(1); for (unsigned i = 0; i < m; ++i) { mx = std::max(mx, ref::mag(up(sol(i)))); for (unsigned j = 0; j < m; ++j) nq = std::max(nq, ref::mag(Q.r[i][j])); } for (unsigned i = 0; i < m; ++i) { C s = C(0) - rhs.r[i][0]; for (unsigned j = 0; j < m; ++j) s += Q.r[i][j] * up(sol(j)); PBT_CHECK(ref::mag(s) <= eps * 2000 * nq * (mx + 1), "residual " << i << " of an LU solve is " << b2::str(s)); if (mp) PBT_CHECK(prec_of(sol(i)) == p, "solution has precision " << prec_of(sol(i))); } g.label("solved"); }
	g.nontrivial();
}
template<class T> void singular(Gen& g) { // rank-deficient matrices are flagged, well conditioned ones are not
	unsigned p = some_prec(g); set_prec(p); unsigned n = g.range(1, 6); std::ostringstream o; o << "n " << n << " @" << p; std::vector<std::vector<long>> a(n, std::vector<long>(n)); 
	if (g.chance(50)) { o << " deficient"; g.note(o.str()); if (g.chance(60) && n > 1) { // a row which is a multiple of another by a power of two: elimination is exact on it
			bool small = n <= 3 && g.chance(50); for (auto& x : a) for (auto& y : x) y = g.small_int(small ? 3 : 40); unsigned i = g.below(n), j = g.below(n - 1); if (j >= i) ++j; long s = g.chance(50) ? 1 : g.chance(50) ? -2 : 4; for (unsigned q = 0; q < n; ++q) a[i][q] = s * a[j][q]; MatT<T> M(n, n); for (unsigned u = 0; u < n; ++u) for (unsigned v = 0; v < n; ++v) M(u, v) = scal<T>(Cd(a[u][v], 0), p); if (small && g.chance(50)) M.transposeInPlace(); auto c = bertini::LUPartialPivotDecompositionSuccessful(M.partialPivLu().matrixLU()); PBT_CHECK(c != bertini::MatrixSuccessCode::Success, "a matrix with dependent rows passed"); g.nontrivial(); return; }
		// a zero row or column, which elimination keeps zero exactly
		for (auto& x : a) for (auto& y : x) y = g.small_int(40); unsigned z = g.below(n); bool row = g.chance(50); for (unsigned q = 0; q < n; ++q) (row ? a[z][q] : a[q][z]) = 0;
		MatT<T> M(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) M(i, j) = scal<T>(Cd(a[i][j], 0), p); auto c = bertini::LUPartialPivotDecompositionSuccessful(M.partialPivLu().matrixLU()); PBT_CHECK(c != bertini::MatrixSuccessCode::Success, "a matrix with a zero row or column passed"); g.nontrivial(); return; }
	o << " unitary-like"; g.note(o.str()); MatT<T> M(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) M(i, j) = scal<T>(Cd(g.small_int(3) / 8., g.small_int(3) / 8.) + Cd(i == j ? 2. * n : 0, 0), p); std::vector<unsigned> perm(n); for (unsigned i = 0; i < n; ++i) perm[i] = i; for (unsigned i = 0; i < n; ++i) M.row(i).swap(M.row(g.below(n)));
	auto c = bertini::LUPartialPivotDecompositionSuccessful(M.partialPivLu().matrixLU()); PBT_CHECK(c == bertini::MatrixSuccessCode::Success, "a well conditioned matrix was called singular"); g.nontrivial();
}
template<class T> void diagonal(Gen& g) { // the test itself, on triangular factors with designed diagonals
	unsigned p = some_prec(g); set_prec(p); bool mp = !std::is_same<T, dbl>::value; unsigned n = g.range(1, 5); int small = mp ? -int(p) + 2 : -14, large = mp ? int(p) - 3 : 12; std::vector<int> e; for (unsigned i = 0; i < n; ++i) e.push_back(g.chance(50) ? 0 : g.chance(50) ? -g.range(0, -small + 6) : g.range(0, 6)); std::ostringstream o; o << "@" << p; MatT<T> M(n, n);
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { if (i == j) { T q = scal<T>(Cd(10, 0), p); T v = scal<T>(Cd(0.6, 0.8), p); for (int k = 0; k < std::abs(e[i]); ++k) if (e[i] > 0) v *= q; else v /= q; M(i, j) = v; o << " 1e" << e[i]; } else M(i, j) = scal<T>(Cd(g.small_int(3), 0), p); } g.note(o.str());
	bool bad = false, edge = false; for (unsigned i = 0; i < n; ++i) { if (e[i] < small) bad = true; if (std::abs(e[i] - small) <= 1) edge = true; if (i) { int q = e[i - 1] - e[i]; if (q > large) bad = true; if (std::abs(q - large) <= 1) edge = true; } }
	bool zero = false; if (g.chance(15)) { M(n - 1 - g.below(n), 0) *= scal<T>(1, p); unsigned k = g.below(n); M(k, k) = scal<T>(0, p); zero = bad = true; } 
	auto c = bertini::LUPartialPivotDecompositionSuccessful(M); if (edge && !zero) pbt::discard("at a threshold"); PBT_CHECK((c != bertini::MatrixSuccessCode::Success) == bad, "diagonal" << o.str() << " judged " << int(c)); if (bad) g.label("bad"); g.nontrivial();
}
void traits(Gen& g) { // helpers: precision of matrices, conversions, maxima
	unsigned p = some_prec(g); set_prec(p); unsigned r = g.range(1, 4), c = g.range(1, 4); MatT<mpfr_complex> M(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) M(i, j) = lift(val(g), p); PBT_CHECK(bertini::Precision(M) == p && bertini::PrecisionRequireUniform(M) == p && !bertini::IsEmpty(M), "precision of a matrix"); unsigned q = some_prec(g); std::vector<C> keep; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) keep.push_back(up(M(i, j))); bertini::Precision(M, q); size_t at = 0; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j, ++at) { PBT_CHECK(bertini::Precision(M(i, j)) == q, "precision of entry " << i << "," << j << " is " << bertini::Precision(M(i, j))); NEAR(M(i, j), keep[at], eps_of(q) * 2 * ref::mag(keep[at]), "changing precision: entry"); }
	PBT_CHECK(bertini::PrecisionRequireUniform(M) == q, "uniform"); if (r * c > 1) { unsigned i = g.below(r), j = g.below(c); M(i, j).precision(q + 7); bool threw = false; try { bertini::PrecisionRequireUniform(M); } catch (std::runtime_error const&) { threw = true; } PBT_CHECK(threw, "mixed precision went unnoticed at " << i << "," << j); }
	MatT<mpfr_complex> e(0, 3); bool threw = false; try { bertini::Precision(e); } catch (std::runtime_error const&) { threw = true; } PBT_CHECK(threw && bertini::IsEmpty(e), "empty matrix");
	int num = g.small_int(5000), den = 1 + g.below(999); bertini::mpq_rational rat(num, den); R want = R(num) / R(den); auto fr = bertini::NumTraits<mpfr_float>::FromRational(rat, q); PBT_CHECK(fr.precision() == q, "rational to real precision " << fr.precision()); NEAR(mpfr_complex(fr), C(want), eps_of(q) * boost::multiprecision::abs(want), "rational to real"); auto fc = bertini::NumTraits<mpfr_complex>::FromRational(rat, q); PBT_CHECK(fc.precision() == q, "rational to complex precision " << fc.precision() << " asked " << q); NEAR(fc, C(want), eps_of(q) * boost::multiprecision::abs(want), "rational to complex"); NEAR(bertini::NumTraits<dbl>::FromRational(rat, 16), C(want), eps_dbl() * boost::multiprecision::abs(want), "rational to double");
	std::vector<double> d; for (int i = 0; i < 5; ++i) d.push_back(g.small_int(50)); PBT_CHECK(bertini::max(d[0], d[1], d[2]) == *std::max_element(d.begin(), d.begin() + 3) && bertini::max(d[0], d[1], d[2], d[3]) == *std::max_element(d.begin(), d.begin() + 4) && bertini::max(d[0], d[1], d[2], d[3], d[4]) == *std::max_element(d.begin(), d.end()), "max of several");
	int k = g.range(1, 14); PBT_CHECK(bertini::NumTraits<double>::TolToDigits(std::pow(10., -k) * 2) == unsigned(k) && bertini::NumTraits<mpfr_float>::TolToDigits(mpfr_float(2) * pow(mpfr_float(10), -k)) == unsigned(k), "digits of tolerance 2e-" << k);
	Cd a(g.small_int(90) / 8. + 20, g.small_int(30)); double tol = std::pow(10., -g.range(1, 10)); double f = g.chance(50) ? 0.4 : 3; Cd b = a * (1 + f * tol); PBT_CHECK(bertini::IsSymmRelDiffSmall(a, b, tol) == (f < 1) && bertini::IsSymmRelDiffSmall(b, a, tol) == (f < 1) && bertini::IsSymmRelDiffSmall(a, a, 0.), "relative closeness at " << f << " of tolerance " << tol);
	PBT_CHECK(bertini::DoublePrecision() == 16 && bertini::Precision(a) == 16 && bertini::Precision(3.) == 16, "precision of doubles"); threw = false; try { bertini::Precision(a, 30); } catch (std::runtime_error const&) { threw = true; } PBT_CHECK(threw, "a double took 30 digits"); bertini::Precision(a, 16); g.note(std::to_string(p) + " " + std::to_string(q)); g.nontrivial();
}
}
int main(int argc, char** argv) {
	pbt::Suite s; s.property = "P25";
	s.subs = {
		{"scalars", "chains of 1-6 operations + - * / between a complex number and complex, real, int, long, unsigned or itself, both operand orders, value and in-place, at 16-190 digits, against 260 digits with a running error bound; non-trivial = at least one comparison.", 12000, 120000, scalars},
		{"functions", "one elementary function, power, modulus, conjugate, ... per case against 260 digits; all non-trivial.", 8000, 80000, functions},
		{"double_powers", "integer powers of double complex numbers, exponents -60..60; all non-trivial.", 6000, 60000, dblpow},
		{"linear_double", "products, adjoint products, norms, LU solves of 1-5 sized matrices in double; all non-trivial.", 4000, 40000, linear<dbl>},
		{"linear_multiple", "the same at 16-190 digits.", 4000, 40000, linear<mpfr_complex>},
		{"singular_double", "matrices with dependent or zero rows or columns are flagged, row-permuted diagonally dominant ones are not; all non-trivial.", 4000, 40000, singular<dbl>},
		{"singular_multiple", "the same at 16-190 digits.", 4000, 40000, singular<mpfr_complex>},
		{"diagonal_double", "the singularity test on triangular factors with designed diagonals around its thresholds (small value 100 eps, ratio 1/dummy precision); cases within a decade of a threshold are discarded.", 4000, 40000, diagonal<dbl>},
		{"diagonal_multiple", "the same at 16-190 digits.", 4000, 40000, diagonal<mpfr_complex>},
		{"traits", "precision queries and changes of matrices, conversions of rationals, maxima, digit counts, closeness; all non-trivial.", 4000, 40000, traits},
	};
	return pbt::run_main(s, argc, argv);
}
