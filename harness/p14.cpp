// Function text means what mathematics says, judged by an independent reader of the language.
#include "sysgen.hpp"
#include "classic.hpp"
#include "bertini2/io/parsing/system_parsers.hpp"
using namespace pbt; using namespace b2; using ref::P; using ref::Op; using ref::C; using ref::R; using Cd = std::complex<double>;
using It = std::string::const_iterator;
static void quiet() { static std::ostringstream* sink = new std::ostringstream; std::cout.rdbuf(sink->rdbuf()); }
static bool evaluable(P const& e) { if (e->op == Op::Pow && e->ch[1]->op == Op::Num && (e->ch[1]->re > 60 || e->ch[1]->re < -60)) return false; for (auto& c : e->ch) if (!evaluable(c)) return false; return true; }
struct Scene { std::vector<std::string> names; std::vector<VarP> vars; std::map<std::string, P> sym; boost::spirit::qi::symbols<char, NodeP> lib; };
static Scene scene(Gen& g, int nv) {
	Scene s; std::set<std::string> used; for (int i = 0; i < nv; ++i) s.names.push_back(classic::fresh(g, used)); for (auto& n : s.names) s.vars.push_back(bertini::node::Variable::Make(n));
	P I = ref::num(0, 1), pi = ref::mk(Op::Pi), e = ref::mk(Op::E); s.sym = {{"pi", pi}, {"Pi", pi}, {"e", e}, {"E", e}, {"i", I}, {"I", I}}; for (int i = 0; i < nv; ++i) s.sym[s.names[i]] = ref::var(i);
	for (auto n : {"pi", "Pi"}) s.lib.add(n, bertini::node::Pi()); for (auto n : {"e", "E"}) s.lib.add(n, bertini::node::E()); for (auto n : {"i", "I"}) s.lib.add(n, bertini::node::I()); for (int i = 0; i < nv; ++i) s.lib.add(s.names[i], s.vars[i]); return s; }
// what the library makes of the text: an expression, or nothing
static NodeP lib_read(std::string const& t, boost::spirit::qi::symbols<char, NodeP>& sym) {
	bertini::parsing::classic::FunctionParser<It> F(&sym); NodeP n; It a = t.begin(), z = t.end(); bool ok = boost::spirit::qi::phrase_parse(a, z, F, boost::spirit::ascii::space, n); if (!ok || a != z) return nullptr; return n; }
static int compare(Gen& g, P const& e, NodeP const& n, std::vector<VarP> const& vars, int nv, unsigned prec, std::string const& what) {
	if (!evaluable(e)) { g.label("too large to evaluate"); return 0; } int used = 0;
	for (int k = 0; k < 3; ++k) { auto p = ref::point(g, nv); auto v = ref::eval(e, ref::lift(p)); if (v.bad) { g.label("point rejected"); continue; } bool mp = g.chance(50); set_point(vars, p); set_point(vars, p, prec); n->Reset(); C got = mp ? up(n->Eval<mpfr_complex>()) : up(n->Eval<dbl>()); R eps = mp ? eps_of(prec) : eps_dbl();
		PBT_CHECK(ref::close(got, v.v, eps * R(20000) * (v.e + ref::mag(v.v)) + eps * eps * R(1e12)), what << ": at " << ref::show(p) << (mp ? " (multiprecision)" : " (double)") << " it has value " << str(got) << ", but it reads as " << ref::show(e) << " with value " << str(v.v)); ++used; }
	return used; }
static bertini::System as_system(Scene const& s, std::string const& t) { std::string txt = "variable_group "; for (size_t i = 0; i < s.names.size(); ++i) txt += (i ? "," : "") + s.names[i]; txt += "; function ff_; ff_ = " + t + ";"; return bertini::System(txt); }

static void check(Gen& g, Scene& s, std::string const& t, unsigned prec, bool must) {
	int nv = s.vars.size(); P e; bool ok = true, huge = false; std::string why; try { e = classic::read(t, s.sym, &huge); } catch (classic::Reject& r) { ok = false; why = r.why; }
	if (must && !ok) fail("harness: the reader rejects generated text: " + why);
	NodeP n = lib_read(t, s.lib); PBT_CHECK(bool(n) == ok, "\"" << t << "\" is " << (n ? "accepted" : "rejected") << " although " << (ok ? "it is well formed" : "it is not well formed: " + why)); g.label(ok ? "well formed" : "not well formed"); if (huge) return;
	int used = 0; if (ok) used = compare(g, e, n, s.vars, nv, prec, "the text");
	if (!s.names.empty() && !std::count(s.names.begin(), s.names.end(), "ff_") && t.find(';') == std::string::npos && t.find('=') == std::string::npos) { // the same inside an input section
		bool sys_ok = true; bertini::System S; try { S = as_system(s, t); } catch (std::exception&) { sys_ok = false; } PBT_CHECK(sys_ok == ok, "as a function of an input section \"" << t << "\" is " << (sys_ok ? "accepted" : "rejected"));
		if (ok && evaluable(e)) { for (int k = 0; k < 2; ++k) { auto p = ref::point(g, nv); auto v = ref::eval(e, ref::lift(p)); if (v.bad) continue; auto f = S.Eval(vec<dbl>(p, 16)); PBT_CHECK(f.size() == 1, "number of values"); R eps = eps_dbl(); PBT_CHECK(ref::close(up(f(0)), v.v, eps * R(20000) * (v.e + ref::mag(v.v)) + eps * eps * R(1e12)), "the system's value at " << ref::show(p) << " is " << str(up(f(0))) << ", expected " << str(v.v) << " from " << ref::show(e)); ++used; } } }
	if (!ok || (used && e->size >= 3)) g.nontrivial();
}
static void written(Gen& g) {
	quiet(); unsigned prec = some_prec(g); set_prec(prec); int nv = g.range(1, 4); Scene s = scene(g, nv); ref::GenCfg c; c.nvars = nv; c.depth = 5; c.share = false; c.poly = g.chance(40); if (!c.poly && g.chance(40)) c.transcend = false; ref::ExprGen eg(g, c); P e = eg.gen(g.range(0, c.depth)); if (!classic::representable(e)) { c.transcend = false; ref::ExprGen e2(g, c); e = e2.gen(g.range(1, 4)); }
	classic::Writer w{g, s.names}; { int sp[] = {0, 0, 15, 50}; w.spread = sp[g.below(4)]; } std::string t = w.write(e); g.note("text: " + t + "\nprecision " + std::to_string(prec));
	P back = classic::read(t, s.sym); if (evaluable(back)) { auto p = ref::point(g, nv); auto a = ref::eval(e, ref::lift(p)), b = ref::eval(back, ref::lift(p)); if (!a.bad && !b.bad && !ref::close(a.v, b.v, R("1e-200") * (a.e + b.e + ref::mag(a.v)))) fail("harness: reader and writer disagree on " + t + " from " + ref::show(e) + " read as " + ref::show(back)); }
	check(g, s, t, prec, true); }
static void mutated(Gen& g) {
	quiet(); unsigned prec = some_prec(g); set_prec(prec); int nv = g.range(1, 3); Scene s = scene(g, nv); ref::GenCfg c; c.nvars = nv; c.depth = 3; c.share = false; c.poly = g.chance(60); ref::ExprGen eg(g, c); P e = eg.gen(g.range(0, 3)); if (!classic::representable(e)) e = ref::var(0); classic::Writer w{g, s.names}; w.spread = g.chance(30) ? 20 : 0; std::string t = w.write(e); t = classic::mutate(g, t, s.names); if (t.size() > 400) discard("long"); g.note("text: " + t); check(g, s, t, prec, false); }
static void tokens(Gen& g) { // short texts from the tokens of the language, mostly in a sensible order
	quiet(); unsigned prec = 16; set_prec(prec); int nv = g.range(1, 3); Scene s = scene(g, nv); int k = g.range(1, 14); std::string t; bool operand = true; unsigned wild = g.chance(50) ? 0 : 8;
	static const char* num[] = {"1", "2", "3.5", ".5", "2.", "1e2", "2E-1", "1.5e+1", "0", "007"}; static const char* fun[] = {"sin(", "cos(", "exp(", "sqrt(", "log(", "tan("}; static const char* cst[] = {"Pi", "E", "I", "pi", "e", "i"};
	for (int i = 0; i < k || operand; ++i) { if (i > 40) break; bool want = g.chance(wild) ? !operand : operand; if (want) switch (g.below(i > k ? 3 : 8)) { case 0: case 1: t += s.names[g.below(nv)]; operand = false; break; case 2: t += num[g.below(10)]; operand = false; break; case 3: t += cst[g.below(6)]; operand = false; break; case 4: t += fun[g.below(6)]; operand = true; break; case 5: t += "("; operand = true; break; default: t += g.chance(75) ? "-" : "+"; operand = true; } else { static const char* op[] = {"+", "-", "*", "/", "^", "^", ")"}; int o = g.below(7); t += op[o]; operand = o != 6; } if (g.chance(12)) t += " "; }
	int open = 0; for (char c : t) { open += c == '(' ? 1 : c == ')' ? -1 : 0; if (open < 0) { t = "(" + t; open = 0; } } if (g.chance(95)) for (; open > 0; --open) t += ")"; g.note("text: " + t); check(g, s, t, prec, false); }
static void bytes(Gen& g) { // arbitrary bytes: read or rejected, never crashed on
	quiet(); set_prec(16); Scene s = scene(g, 1); int k = g.range(0, 60); std::string t; static const char ab[] = "x1.e+-*/^() ;=,%\"\\'{}<>|&!~@#$?:\t\n"; for (int i = 0; i < k; ++i) t += g.chance(25) ? char(g.below(256)) : ab[g.below(sizeof ab - 1)]; g.note("text: " + t); bool ascii = true; for (char c : t) if ((unsigned char)c >= 128) ascii = false; if (ascii) check(g, s, t, 16, false); else { NodeP n = lib_read(t, s.lib); PBT_CHECK(!n, "text with bytes outside of ASCII was accepted"); g.nontrivial(); } }
static void deep(Gen& g) { // long chains and deep nesting
	quiet(); unsigned prec = some_prec(g); set_prec(prec); Scene s = scene(g, 2); int kind = g.below(6), n = g.range(10, 200); std::string t, x = s.names[0], y = s.names[1]; switch (kind) { case 0: t = std::string(n, '(') + x + std::string(n, ')'); break; case 1: t = x; for (int i = 0; i < n; ++i) t += (g.chance(50) ? "+" : "-") + (g.chance(50) ? y : std::to_string(g.range(0, 9))); break; case 2: t = x; for (int i = 0; i < n % 40; ++i) t += (g.chance(70) ? "*" : "/") + (g.chance(50) ? y : std::to_string(g.range(1, 9))); break; case 3: t = std::string(n, '-') + x; break; case 4: for (int i = 0; i < n % 60; ++i) t += x + "-("; t += y; t += std::string(n % 60, ')'); break; default: t = x; for (int i = 0; i < n % 30; ++i) t = "(" + t + ")" + (g.chance(50) ? "*" + y : "+" + x); } g.note("text: " + t); check(g, s, t, prec, true); }
int main(int argc, char** argv) {
	Suite s; s.property = "P14"; s.assumptions = {"Repeated ^ is taken from left to right, as the grammar documents; decimals are read to the precision in force while parsing.", "Names of elementary functions are not used as names of variables.", "Texts of up to a few thousand characters; exponents of decimal numbers within 60."};
	s.subs = {
		{"written", "random expressions written with random layout, redundant parentheses, number formats and awkward names; must be accepted and have the value of the expression, directly and inside an input section; non-trivial: at least three nodes and a compared point.", 12000, 120000, written},
		{"mutated", "such texts after 1-3 random edits: accepted if and only if the independent reader accepts, with equal values; non-trivial: rejected, or at least three nodes and a compared point.", 14000, 140000, mutated},
		{"tokens", "random sequences of tokens of the language, half of them with tokens out of place; same rule.", 14000, 140000, tokens},
		{"bytes", "arbitrary bytes; same rule.", 3000, 30000, bytes},
		{"deep", "chains and nesting up to 200; same rule.", 1000, 10000, deep},
	}; return run_main(s, argc, argv);
}
