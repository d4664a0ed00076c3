// Numbers survive text round trips; decimal text is read to the nearest number.
#include "pbt.hpp"
#include "bertini2/io/generators.hpp"
#include "bertini2/io/parsing/number_parsers.hpp"
#include "bertini2/io/file_utilities.hpp"
#include "bertini2/eigen_extensions.hpp"
#include <cmath>
#include <cstring>
#include <unistd.h>
using namespace pbt; using bertini::mpfr_float; using bertini::mpfr_complex; using Cd = std::complex<double>;
static void quiet() { static std::ostringstream* sink = new std::ostringstream; std::cout.rdbuf(sink->rdbuf()); }
static double any_double(Gen& g) { double d;
	switch (g.weighted({2, 3, 3, 2, 4, 2})) {
	case 0: { static const double v[] = {0, 1, -1, 0.5, 0.1, 1e10, 1e-10, 135.477005, 9.9999999999999995e22, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, -0.0, 9007199254740993.0, 0.99999999999999989, 9.9999999999999989, 1e23, 5e-324, 99999.999999999985}; return v[g.below(19)]; }
	case 1: return double(g.small_int(1000)) / double(1 << g.below(20));
	case 2: return g.small_int(1000000) * std::pow(10., g.range(-12, 12));
	case 3: return std::ldexp(double(int64_t(g.bits()) >> 11), -53 + g.range(-60, 60));
	case 4: do { uint64_t b = g.bits(); std::memcpy(&d, &b, 8); } while (!std::isfinite(d)); return d;
	default: { double b = std::pow(10., g.range(-300, 300)); int k = g.range(0, 3); while (k--) b = std::nextafter(b, g.chance(50) ? 1e308 : 0); return b; } } }
static mpfr_float bits_float(Gen& g, unsigned prec, double e2) { mpfr_float r(0); r.precision(prec); mpfr_ptr p = r.backend().data(); mpfr_set_ui(p, 0, MPFR_RNDN); for (long got = 0; got < long(mpfr_get_prec(p)) + 64; got += 32) { mpfr_mul_2ui(p, p, 32, MPFR_RNDZ); mpfr_add_ui(p, p, g.bits() & 0xffffffffu, MPFR_RNDZ); if (mpfr_get_exp(p) > mpfr_get_prec(p) && !mpfr_zero_p(p)) break; } if (!mpfr_zero_p(p)) mpfr_set_exp(p, long(e2)); return r; }
static mpfr_float any_float(Gen& g, unsigned prec) { mpfr_float r(0); r.precision(prec);
	switch (g.weighted({2, 2, 5, 2, 2})) {
	case 0: { static const char* v[] = {"0", "1", "-1", "0.1", "1e100", "1e-100", "3", "1e5", "1e-5", "123456789012345678901234567890"}; mpfr_set_str(r.backend().data(), v[g.below(10)], 10, MPFR_RNDN); break; }
	case 1: mpfr_set_si(r.backend().data(), g.small_int(100000), MPFR_RNDN); mpfr_div_2ui(r.backend().data(), r.backend().data(), g.below(30), MPFR_RNDN); break;
	case 2: r = bits_float(g, prec, g.range(-80, 80)); break;
	case 3: r = bits_float(g, prec, g.range(-20000, 20000)); break;
	default: mpfr_set_d(r.backend().data(), any_double(g), MPFR_RNDN); }
	if (g.chance(40)) mpfr_neg(r.backend().data(), r.backend().data(), MPFR_RNDN); return r; }
static unsigned any_prec(Gen& g) { switch (g.weighted({3, 3, 2})) { case 0: return 16 + g.below(4); case 1: return 16 + g.below(60); default: return 16 + g.below(985); } }
static bool same(double a, double b) { return a == b; }
static std::string show(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; } static std::string show(mpfr_float const& f) { return f.str() + " [" + std::to_string(f.precision()) + "]"; }
template<class T> std::string gen(T const& v) { std::string s; std::back_insert_iterator<std::string> it(s); if (!bertini::generators::Classic::generate(it, v)) fail("generate reports failure"); return s; }
// a number read back at a precision as high as its own is the same number when rounding it to its own precision gives it; at a lower one (short text such as 1e-100 does not tell its precision) it is as near as that precision allows
static bool back(mpfr_float const& orig, mpfr_float const& got) { if (bertini::DefaultPrecision() < orig.precision()) { mpfr_float d(0); d.precision(64); mpfr_sub(d.backend().data(), orig.backend().data(), got.backend().data(), MPFR_RNDN); return mpfr_zero_p(d.backend().data()) || (!mpfr_zero_p(orig.backend().data()) && mpfr_get_exp(d.backend().data()) < mpfr_get_exp(orig.backend().data()) - long(bertini::DefaultPrecision() * 3.3219)); } mpfr_float r(orig); mpfr_set(r.backend().data(), got.backend().data(), MPFR_RNDN); return mpfr_equal_p(r.backend().data(), orig.backend().data()); }
static void doubles(Gen& g) { quiet(); double re = any_double(g), im = g.chance(25) ? 0 : any_double(g); if (re != std::floor(re) || std::fabs(re) > 1e6) g.nontrivial(); g.note("numbers " + show(re) + ", " + show(im));
	{ std::string s = gen(re); g.note("Classic double: " + s); PBT_CHECK(same(std::strtod(s.c_str(), nullptr), re), "the text " << s << " for " << show(re) << " denotes another number"); Cd r(7, 7); PBT_CHECK(bertini::parsing::classic::parse(s.begin(), s.end(), r), "the text " << s << " is not read back"); PBT_CHECK(same(r.real(), re) && r.imag() == 0, s << " is read back as " << show(r.real()) << " " << show(r.imag()) << ", written for " << show(re)); }
	{ std::string s = gen(Cd(re, im)); g.note("Classic complex: " + s); Cd r(7, 7); PBT_CHECK(bertini::parsing::classic::parse(s.begin(), s.end(), r), "the text " << s << " is not read back"); PBT_CHECK(same(r.real(), re) && same(r.imag(), im), s << " is read back as " << show(r.real()) << " " << show(r.imag())); char* e; double a = std::strtod(s.c_str(), &e), b = std::strtod(e, &e); PBT_CHECK(same(a, re) && same(b, im) && !*e, "the text " << s << " denotes another number"); }
	{ std::string s; std::back_insert_iterator<std::string> it(s); PBT_CHECK(bertini::generators::CPlusPlus::generate(it, Cd(re, im)), "generate reports failure"); g.note("C++ complex: " + s); Cd r(7, 7); PBT_CHECK(bertini::parsing::cplusplus::parse(s.begin(), s.end(), r), "the text " << s << " is not read back"); PBT_CHECK(same(r.real(), re) && same(r.imag(), im), s << " is read back as " << show(r.real()) << " " << show(r.imag())); std::istringstream in(s); Cd q; in >> q; PBT_CHECK(bool(in) || std::fabs(re) < 1e-300 || std::fabs(im) < 1e-300, "a standard stream does not read " << s); if (in) PBT_CHECK(q == Cd(re, im), "a standard stream reads " << s << " as another number"); } }
static void multi(Gen& g) { quiet(); unsigned p = any_prec(g), p2 = g.chance(40) ? p : any_prec(g); bertini::DefaultPrecision(p); mpfr_float re = any_float(g, p), im = g.chance(20) ? mpfr_float(0) : any_float(g, g.chance(80) ? p : any_prec(g)); g.nontrivial(); g.note("precision " + std::to_string(p) + " then " + std::to_string(p2) + "\nnumbers " + show(re) + ", " + show(im));
	std::string a = gen(re); mpfr_complex z; z.precision(std::max(re.precision(), im.precision())); z.real(re); z.imag(im); mpfr_float zr = z.real(), zi = z.imag(); PBT_CHECK(zr == re && zi == im, "setting the parts of a complex number changes them"); std::string b = gen(z); bertini::DefaultPrecision(p2);
	{ mpfr_float r; if (g.chance(50)) { r.precision(any_prec(g)); r = 7; } PBT_CHECK(bertini::parsing::classic::parse(a.begin(), a.end(), r), "the text " << a << " is not read back"); PBT_CHECK(back(re, r), a << " is read back as " << show(r)); PBT_CHECK(r.precision() >= p2, "read with " << r.precision() << " digits where " << p2 << " are in force"); }
	{ mpfr_complex r; if (g.chance(50)) { r.precision(any_prec(g)); r = 7; } PBT_CHECK(bertini::parsing::classic::parse(b.begin(), b.end(), r), "the text " << b << " is not read back"); mpfr_float x = r.real(), y = r.imag(); PBT_CHECK(back(zr, x) && back(zi, y), b << " is read back as " << show(x) << ", " << show(y)); PBT_CHECK(r.precision() >= p2, "read with " << r.precision() << " digits where " << p2 << " are in force"); }
	PBT_CHECK(bertini::DefaultPrecision() == p2, "reading numbers changes the default precision"); }
static std::string digits(Gen& g, int n) { std::string s; for (int i = 0; i < n; ++i) s += char('0' + g.below(10)); return s; }
static std::string decimal(Gen& g, bool wide) { std::string s = g.chance(40) ? "-" : "";
	if (g.chance(25)) { double d = std::fabs(any_double(g)); if (d && d < 1e300) { double u = std::nextafter(d, 1e309); mpfr_t m; mpfr_init2(m, 1200); mpfr_set_d(m, d, MPFR_RNDN); mpfr_add_d(m, m, u, MPFR_RNDN); mpfr_div_2ui(m, m, 1, MPFR_RNDN); char* buf; mpfr_asprintf(&buf, "%.*Re", int(g.pick(*new std::vector<int>{16, 17, 18, 25, 40, 800})), m); s += buf; mpfr_free_str(buf); mpfr_clear(m); return s; } }
	int form = g.below(3), n = g.chance(70) ? g.range(1, 8) : g.range(1, 60); if (form == 0) s += digits(g, n); else if (form == 1) s += digits(g, g.range(0, n)) + "." + digits(g, n); else s += digits(g, n) + "."; if (g.chance(50)) { s += g.chance(50) ? "e" : "E"; int k = g.below(4); s += k == 1 ? "+" : k ? "-" : ""; s += std::to_string(wide ? g.below(9000) : g.below(g.chance(80) ? 20 : 290)); } return s; }
static std::string ws(Gen& g) { std::string s; for (int n = g.below(4); n > 0; --n) s += " \t\n"[g.below(3)]; return s; }
static void reading(Gen& g) { quiet(); unsigned p = any_prec(g); bertini::DefaultPrecision(p); std::string a = decimal(g, false), b = decimal(g, false), w = decimal(g, true), v = decimal(g, true), sep = " " + ws(g), l = ws(g), t = ws(g); if (a.size() > 5) g.nontrivial(); g.note("texts: " + a + " | " + b + " | " + w + " | " + v); double da = std::strtod(a.c_str(), nullptr), db = std::strtod(b.c_str(), nullptr); if (!std::isfinite(da) || !std::isfinite(db)) discard("not finite");
	{ double r = 7; std::string s = l + a + t; PBT_CHECK(bertini::parsing::classic::parse(s.begin(), s.end(), r), a << " is not read"); PBT_CHECK(same(r, da), a << " is read as " << show(r) << ", the nearest is " << show(da)); r = 7; PBT_CHECK(bertini::parsing::cplusplus::parse(s.begin(), s.end(), r), a << " is not read"); PBT_CHECK(same(r, da), a << " is read as " << show(r)); }
	{ Cd r(7, 7); std::string s = l + a + sep + b + t; PBT_CHECK(bertini::parsing::classic::parse(s.begin(), s.end(), r), s << " is not read"); PBT_CHECK(same(r.real(), da) && same(r.imag(), db), s << " is read as " << show(r.real()) << ", " << show(r.imag())); s = l + "(" + ws(g) + a + ws(g) + "," + ws(g) + b + ws(g) + ")" + t; r = 7; PBT_CHECK(bertini::parsing::cplusplus::parse(s.begin(), s.end(), r), s << " is not read"); PBT_CHECK(same(r.real(), da) && same(r.imag(), db), s << " is read as " << show(r.real()) << ", " << show(r.imag())); r = Cd(7, 7); s = a; PBT_CHECK(bertini::parsing::classic::parse(s.begin(), s.end(), r) && r == Cd(da, 0), "the lone real number " << s << " is not read as such"); }
	auto near = [&](std::string const& s, mpfr_float const& r) { mpfr_float e(r); mpfr_set_str(e.backend().data(), s.c_str(), 10, MPFR_RNDN); return e == r && r.precision() >= p; };
	auto close = [&](std::string const& s, mpfr_float const& r) { mpfr_t e; mpfr_init2(e, 8000); mpfr_set_str(e, s.c_str(), 10, MPFR_RNDN); bool ok = r.precision() >= p; if (mpfr_zero_p(e)) ok = ok && r == 0; else { unsigned d = p, k = 0; for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '0' && c <= '9' && (k || c > '0')) ++k; } d = std::max(d, k); mpfr_sub(e, e, r.backend().data(), MPFR_RNDN); if (!mpfr_zero_p(e)) ok = ok && mpfr_sgn(r.backend().data()) && mpfr_get_exp(e) < mpfr_get_exp(r.backend().data()) - long(d * 3.3219); } mpfr_clear(e); return ok; };
	{ mpfr_float r; std::string s = l + w + t; PBT_CHECK(bertini::parsing::classic::parse(s.begin(), s.end(), r), w << " is not read"); PBT_CHECK(near(w, r), w << " is read as " << show(r)); mpfr_complex z; s = l + w + sep + v + t; PBT_CHECK(bertini::parsing::classic::parse(s.begin(), s.end(), z), s << " is not read"); mpfr_float x = z.real(), y = z.imag(); unsigned q = z.precision(); PBT_CHECK(x.precision() == q && y.precision() == q && close(w, x) && close(v, y), s << " is read as " << show(x) << ", " << show(y)); }
	// what is not a number is refused and leaves the target alone
	{ std::string bad = a; size_t k = g.below(6); static const char* ins[] = {"x", "..", "e", "--", "(", ","}; bad.insert(g.below(bad.size() + 1), ins[k]); double dr = 7; mpfr_float mr(7); Cd cr(7, 7); char* e; std::string body = bad; bool numeric = false; { const char* c = bad.c_str(); std::strtod(c, &e); while (*e == ' ') ++e; numeric = !*e && bad.find('x') == std::string::npos; } if (!numeric && k != 5) { PBT_CHECK(!bertini::parsing::classic::parse(bad.begin(), bad.end(), dr) && dr == 7, "accepts " << bad << " as a number"); PBT_CHECK(!bertini::parsing::classic::parse(bad.begin(), bad.end(), mr) && mr == 7, "accepts " << bad << " as a number"); } } }
static void vectors(Gen& g) { quiet(); unsigned p = any_prec(g); bertini::DefaultPrecision(p); int n = g.range(0, 6); if (n > 1) g.nontrivial(); bertini::Vec<Cd> d(n); bertini::Vec<mpfr_complex> m(n); for (int i = 0; i < n; ++i) { d(i) = Cd(any_double(g), any_double(g)); m(i).precision(p); m(i).real(any_float(g, p)); m(i).imag(any_float(g, p)); }
	auto lines = [&](std::string const& s) { std::vector<std::string> r; std::istringstream in(s); std::string l; while (std::getline(in, l)) r.push_back(l); return r; }; std::string a = gen(d), b = gen(m); g.note(a); g.note(b); auto la = lines(a), lb = lines(b); PBT_CHECK(la.size() == size_t(n) && lb.size() == size_t(n), "not one line for each coordinate"); char path[] = "/tmp/p17XXXXXX"; bool file = n > 0 && g.chance(30); if (file) { int fd = mkstemp(path); std::string both = b; ssize_t k = write(fd, both.data(), both.size()); (void)k; close(fd); std::string r = bertini::FileToString(path); unlink(path); PBT_CHECK(r == b, "a file is not read back as it is"); bool thrown = false; try { bertini::FileToString(path); } catch (std::runtime_error&) { thrown = true; } PBT_CHECK(thrown, "reading a missing file does not throw"); }
	for (int i = 0; i < n; ++i) { Cd r; PBT_CHECK(bertini::parsing::classic::parse(la[i].begin(), la[i].end(), r) && r == d(i), "coordinate " << i << " is not read back from " << la[i]); mpfr_complex z; PBT_CHECK(bertini::parsing::classic::parse(lb[i].begin(), lb[i].end(), z), "coordinate " << i << " is not read back from " << lb[i]); PBT_CHECK(back(m(i).real(), z.real()) && back(m(i).imag(), z.imag()), "coordinate " << i << " is not read back from " << lb[i]); } }
int main(int argc, char** argv) { Suite s; s.property = "P17";
	s.subs.push_back({"doubles", "doubles of every magnitude, written in the classic and C++ styles, read by the library, by strtod and by streams; non-trivial: not a small integer", 10000, 200000, doubles});
	s.subs.push_back({"multiprecision", "real and complex numbers with 16-1000 digits and any exponent, written, and read at another working precision; non-trivial: all", 8000, 100000, multi});
	s.subs.push_back({"reading", "decimal texts (short, long, half way between doubles) against correctly rounded conversion; damaged texts are refused; non-trivial: more than five characters", 10000, 200000, reading});
	s.subs.push_back({"vectors", "vectors and files; non-trivial: two or more coordinates", 3000, 40000, vectors});
	return run_main(s, argc, argv); }
