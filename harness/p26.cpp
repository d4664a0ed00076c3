// Random generators keep their advertised kind.
#include "b2ref.hpp"
#include "pbt.hpp"
#include "bertini2/random.hpp"
#include "bertini2/num_traits.hpp"
#include "bertini2/eigen_extensions.hpp"
#include <set>
using namespace b2; using pbt::Gen; namespace mp = bertini::multiprecision;
namespace {
ref::R pw(int e) { return boost::multiprecision::pow(ref::R(10), e); }
bool full(mpfr_float x, unsigned p) { // keeps changing when cut to fewer digits
	if (x == 0) return false; mpfr_float y = x; y.precision(p > 30 ? p - 14 : p - 6); return mpfr_cmp(x.backend().data(), y.backend().data()) != 0;
}
void digits(Gen& g, std::vector<mpfr_float> const& v, unsigned p, char const* w) { for (auto& x : v) PBT_CHECK(x.precision() == p, w << " has precision " << x.precision() << ", asked for " << p); unsigned f = 0; for (auto& x : v) f += full(x, p); PBT_CHECK(v.size() < 3 || f + 1 >= v.size(), w << ": only " << f << " of " << v.size() << " draws use all " << p << " digits"); std::set<std::string> s; for (auto& x : v) s.insert(x.str()); PBT_CHECK(s.size() == v.size(), w << " repeats draws"); }
unsigned some(Gen& g) { switch (g.weighted({4, 4, 2, 1})) { case 0: return g.range(16, 60); case 1: { unsigned e[] = {16, 20, 30, 49, 50, 51, 99, 100, 101, 199, 200, 201}; return e[g.below(12)]; } case 2: return g.range(16, 250); default: return g.range(200, 1000); } }
void reals(Gen& g) {
	unsigned d = some(g), p = g.chance(50) ? d : some(g), n = g.range(3, 12); set_prec(d); std::vector<mpfr_float> v; char const* w = "";
	int k = g.below(6); if (k == 0 || k == 3) p = d; ref::R lo(0), hi(1); mpfr_float a(0), b(1);
	if (k >= 3 && k < 5) { a = mpfr_float(g.small_int(1000)) / 8; b = a + mpfr_float(1 + g.below(1000)) / 8; lo = ref::R(a); hi = ref::R(b); }
	for (unsigned i = 0; i < n; ++i) switch (k) {
	case 0: w = "RandomMp()"; v.push_back(bertini::RandomMp()); break;
	case 1: w = "RandomMp(digits)"; v.push_back(bertini::RandomMp(p)); break;
	case 2: { w = "RandomMpAssign"; mpfr_float x(7); x.precision(some(g)); bertini::RandomMpAssign(x, p); v.push_back(x); break; }
	case 3: w = "RandomMp(a,b)"; v.push_back(bertini::RandomMp(a, b)); break;
	case 4: w = "RandomMp(a,b,digits)"; if (d < p) { a.precision(p); b.precision(p); } v.push_back(bertini::RandomMp(a, b, p)); break;
	default: w = "RandReal"; { double x = bertini::RandReal(); PBT_CHECK(x >= -1 && x <= 1, "RandReal " << x); } break; }
	g.note(std::string(w) + " default " + std::to_string(d) + " asked " + std::to_string(p)); g.label(w);
	PBT_CHECK(bertini::DefaultPrecision() == d, w << " changed the default precision"); if (k == 5) { g.nontrivial(); return; }
	for (auto& x : v) PBT_CHECK(ref::R(x) >= lo - pw(-14) * (hi - lo) * 0 && ref::R(x) <= hi, w << " is out of range: " << x);
	digits(g, v, p, w); g.nontrivial();
}
void complexes(Gen& g) {
	unsigned d = some(g), p = g.chance(50) ? d : some(g), n = g.range(3, 12); set_prec(d); std::vector<mpfr_float> re, im; char const* w = ""; bool unit = false, real = false; ref::R lo(-1);
	int k = g.below(11); if (k == 0 || k == 3 || k == 4 || k == 5 || k == 9 || k == 10) p = d;
	for (unsigned i = 0; i < n; ++i) { mpfr_complex z(3); z.precision(some(g)); switch (k) {
		case 0: w = "rand"; z = mp::rand(); break;
		case 1: w = "rand_assign"; mp::rand_assign(z, p); break;
		case 2: w = "RandomComplex"; z = mp::RandomComplex(p); break;
		case 3: w = "rand_unit"; unit = true; z = mp::rand_unit(); break;
		case 4: w = "RandomUnit()"; unit = true; z = mp::RandomUnit(); break;
		case 5: w = "RandomUnit<mp>"; unit = true; z = bertini::RandomUnit<mpfr_complex>(); break;
		case 6: w = "RandomUnitAssign"; unit = true; mp::RandomUnitAssign(z, p); break;
		case 7: w = "RandomUnit(digits)"; unit = true; z = mp::RandomUnit(p); break;
		case 8: w = "RandomComplexAssign"; mp::RandomComplexAssign(z, p); break;
		case 9: w = "RandomReal()"; real = true; z = mp::RandomReal(); break;
		default: if (g.chance(50)) { w = "RandomReal(digits)"; z = mp::RandomReal(p); } else { w = "RandomRealAssign"; mp::RandomRealAssign(z, p); } real = true; }
		PBT_CHECK(z.precision() == p, w << " has precision " << z.precision() << ", asked for " << p << " at default " << d);
		ref::R a{mpfr_float(z.real())}, b{mpfr_float(z.imag())}; if (unit) PBT_CHECK(boost::multiprecision::abs(ref::R(a * a + b * b - 1)) < 10 * std::max(eps_of(p), pw(-250)), w << " has squared modulus " << b2::str(ref::C(a * a + b * b)));
		PBT_CHECK(a >= -1 && a <= 1 && b >= -1 && b <= 1, w << " is out of the square"); if (real) PBT_CHECK(b == 0, w << " is not real"); else im.push_back(mpfr_float(z.imag())); re.push_back(mpfr_float(z.real())); }
	g.note(std::string(w) + " default " + std::to_string(d) + " asked " + std::to_string(p)); g.label(w);
	PBT_CHECK(bertini::DefaultPrecision() == d, w << " changed the default precision");
	digits(g, re, p, w); if (!real) digits(g, im, p, w); g.nontrivial();
}
void vectors(Gen& g) {
	unsigned d = some(g); if (d > 250) d = 250; set_prec(d); unsigned r = g.range(1, 5), c = g.range(1, 5); g.note(std::to_string(r) + "x" + std::to_string(c) + " @" + std::to_string(d)); 
	auto chk = [&](auto const& M, unsigned rr, unsigned cc, ref::R eps) { PBT_CHECK(M.rows() == rr && M.cols() == cc, "size"); std::set<std::string> seen; for (unsigned i = 0; i < rr; ++i) for (unsigned j = 0; j < cc; ++j) { auto z = up(M(i, j)); PBT_CHECK(boost::multiprecision::abs(ref::R(z.real() * z.real() + z.imag() * z.imag() - 1)) < 20 * eps, "entry " << i << "," << j << " is not a unit: " << b2::str(z)); seen.insert(b2::str(z)); } PBT_CHECK(seen.size() == rr * cc, "repeated entries"); };
	auto m = bertini::RandomOfUnits<mpfr_complex>(r, c); chk(m, r, c, std::max(eps_of(d), pw(-245))); PBT_CHECK(bertini::PrecisionRequireUniform(m) == d, "precision"); chk(bertini::RandomOfUnits<mpfr_complex>(r), r, 1, std::max(eps_of(d), pw(-245)));
	chk(bertini::RandomOfUnits<dbl>(r, c), r, c, eps_dbl()); chk(bertini::RandomOfUnits<dbl>(r), r, 1, eps_dbl()); auto u = bertini::RandomUnit<dbl>(); PBT_CHECK(std::abs(std::abs(u) - 1) < 1e-14, "unit double"); g.nontrivial();
}
template<unsigned long D> void ints(Gen& g) { bertini::mpz_int b = boost::multiprecision::pow(bertini::mpz_int(10), D); std::set<std::string> s; int n = 12; bool neg = false, pos = false, big = false; for (int i = 0; i < n * 3; ++i) { auto z = bertini::RandomInt<D>(); PBT_CHECK(z >= -b && z <= b, "RandomInt<" << D << "> = " << z); neg |= z < 0; pos |= z > 0; big |= abs(z) > b / 100; s.insert(z.str()); } PBT_CHECK(neg && pos && big && (D < 4 || s.size() > 20), "RandomInt<" << D << "> does not spread over its range");
	for (int i = 0; i < n; ++i) { auto q = bertini::RandomRat<D>(); PBT_CHECK(abs(numerator(q)) <= b && abs(denominator(q)) <= b, "RandomRat<" << D << "> = " << q); } }
void integers(Gen& g) { unsigned skip = g.below(30); for (unsigned i = 0; i < skip; ++i) { bertini::RandomInt<50>(); bertini::RandomRat<20>(); bertini::RandomInt<9>(); } switch (g.below(7)) { case 0: ints<5>(g); break; case 1: ints<9>(g); break; case 2: ints<16>(g); break; case 3: ints<20>(g); break; case 4: ints<50>(g); break; case 5: ints<100>(g); break; default: ints<200>(g); } g.note("skip " + std::to_string(skip)); g.nontrivial(); }
void nodes(Gen& g) { // random rational nodes of expression trees
	set_prec(g.range(16, 120)); int n = g.range(2, 8); std::set<std::string> s; bool real = g.chance(50);
	for (int i = 0; i < n; ++i) { auto r = real ? bertini::node::Rational::RandReal() : bertini::node::Rational::Rand(); auto z = up(r.Eval<mpfr_complex>()); if (real) PBT_CHECK(z.imag() == 0, "RandReal is not real"); else PBT_CHECK(z.imag() != 0, "Rand is real"); PBT_CHECK(ref::mag(z) > 0, "random rational is zero"); s.insert(b2::str(z)); auto y = up(r.Eval<dbl>()); PBT_CHECK(ref::close(y, z, eps_dbl() * 4 * ref::mag(z)), "double and multiprecision values differ"); }
	PBT_CHECK(int(s.size()) == n, "repeated draws"); auto v = bertini::node::Variable::Make("v"); v->precision(bertini::DefaultPrecision()); v->SetToRandUnit<mpfr_complex>(); v->SetToRandUnit<dbl>(); v->Reset(); { auto a = up(v->Eval<mpfr_complex>()); PBT_CHECK(boost::multiprecision::abs(ref::R(a.real() * a.real() + a.imag() * a.imag() - 1)) < 20 * eps_of(bertini::DefaultPrecision()), "variable set to a random unit has modulus off one"); a = up(v->Eval<dbl>()); PBT_CHECK(boost::multiprecision::abs(ref::R(a.real() * a.real() + a.imag() * a.imag() - 1)) < 20 * eps_dbl(), "variable set to a random unit double has modulus off one"); } g.note(std::to_string(n)); g.nontrivial();
}
}
int main(int argc, char** argv) {
	pbt::Suite s; s.property = "P26";
	s.subs = {
		{"reals", "3-12 draws of one real generator at a default precision and a requested precision of 16-1000 digits (table edges included): range, precision, all digits used, no repeats, default precision untouched; all non-trivial.", 4000, 40000, reals},
		{"complexes", "the same for every complex generator; unit modulus to working precision, real ones real; all non-trivial.", 6000, 60000, complexes},
		{"vectors", "vectors and matrices of units up to 5x5 in double and multiple precision; all non-trivial.", 3000, 30000, vectors},
		{"integers", "RandomInt and RandomRat at 5-200 digits from different stream positions; all non-trivial.", 1500, 10000, integers},
		{"nodes", "random rational nodes, real and complex; all non-trivial.", 1500, 10000, nodes},
	};
	s.assumptions = {"the library's generators are deterministically seeded; every case starts from their initial state in a process of its own"};
	return pbt::run_main(s, argc, argv);
}
