// An independent reader (recursive descent) and writers for Bertini's classic function and system text.
#pragma once
#include "ref.hpp"
#include <set>
namespace classic {
using ref::Op; using ref::P; using ref::Q; using pbt::Gen;
struct Reject { std::string why; };
inline bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool dg(char c) { return c >= '0' && c <= '9'; }
inline bool nm(char c) { return al(c) || dg(c) || c == '[' || c == ']' || c == '_'; }
inline Q ten(int n) { Q r = 1, t = n < 0 ? Q(1) / 10 : Q(10); for (int i = n < 0 ? -n : n; i > 0; --i) r *= t; return r; }
struct Reader {
	std::string const& s; std::map<std::string, P> const& names; size_t i = 0; int depth = 0; bool huge = false;
	Reader(std::string const& s_, std::map<std::string, P> const& n_) : s(s_), names(n_) {}
	void skip() { while (i < s.size() && sp(s[i])) ++i; }
	char peek() { skip(); return i < s.size() ? s[i] : 0; }
	bool eat(char c) { if (peek() != c) return false; ++i; return true; }
	void need(char c) { if (!eat(c)) throw Reject{std::string("expected ") + c}; }
	P expr() { if (++depth > 3000) throw Reject{"deep"}; std::vector<P> ch{term()}; std::vector<bool> ps{true}; for (;;) { char c = peek(); if (c != '+' && c != '-') break; ++i; ch.push_back(term()); ps.push_back(c == '+'); } --depth; return ch.size() == 1 ? ch[0] : ref::sum(ch, ps); }
	P term() { std::vector<P> ch{factor()}; std::vector<bool> ps{true}; for (;;) { char c = peek(); if (c != '*' && c != '/') break; ++i; ch.push_back(factor()); ps.push_back(c == '*'); } return ch.size() == 1 ? ch[0] : ref::mult(ch, ps); }
	P factor() { if (eat('-')) return ref::mk(Op::Neg, {factor()}); if (eat('+')) return factor(); return power(); }
	P power() { P b = atom(); while (eat('^')) b = ref::mk(Op::Pow, {b, exponent()}); return b; }
	P exponent() { if (eat('-')) { P e = exponent(); if (e->op == Op::Num) return ref::num(-e->re, -e->im); return ref::mk(Op::Neg, {e}); } if (eat('+')) return exponent(); return atom(); }
	P atom() { char c = peek(); if (c == '(') { ++i; P e = expr(); need(')'); return e; } if (dg(c) || c == '.') return number(); if (!al(c)) throw Reject{"no atom"};
		size_t j = i; while (j < s.size() && nm(s[j])) ++j; std::string w = s.substr(i, j - i); auto it = names.find(w); if (it != names.end()) { i = j; return it->second; }
		static const std::map<std::string, Op> fn = {{"sin", Op::Sin}, {"cos", Op::Cos}, {"tan", Op::Tan}, {"exp", Op::Exp}, {"log", Op::Log}, {"sqrt", Op::Sqrt}}; auto f = fn.find(w); if (f == fn.end()) throw Reject{"unknown name " + w}; i = j; need('('); P e = expr(); need(')'); return ref::mk(f->second, {e}); }
	P number() { Q v = 0; int digits = 0, scale = 0; bool point = false; while (i < s.size() && dg(s[i])) { v = v * 10 + (s[i++] - '0'); ++digits; } if (i < s.size() && s[i] == '.') { point = true; ++i; while (i < s.size() && dg(s[i])) { v = v * 10 + (s[i++] - '0'); ++digits; --scale; } } if (!digits) throw Reject{"no digits"};
		if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t j = i + 1; bool neg = false; if (j < s.size() && (s[j] == '-' || s[j] == '+')) neg = s[j++] == '-'; if (j >= s.size() || !dg(s[j])) throw Reject{"exponent"}; int e = 0; while (j < s.size() && dg(s[j])) { if (e < 100000) e = e * 10 + (s[j] - '0'); ++j; } i = j; scale += neg ? -e : e; point = true; }
		if (i < s.size() && nm(s[i])) throw Reject{"number runs into a name"}; if (scale > 60 || scale < -60) huge = true; else v *= ten(scale); return ref::num(v, 0, point ? 1 : 0); }
};
// the whole text as an expression; throws Reject
inline P read(std::string const& t, std::map<std::string, P> const& names, bool* huge = nullptr) { Reader r(t, names); P e = r.expr(); if (r.peek()) throw Reject{"more text"}; if (huge) *huge = r.huge; return e; }

// ---- writing expressions with random layout ----
struct Writer {
	Gen& g; std::vector<std::string> names; // per variable
	std::map<ref::Expr*, std::string> func;  // names of Func nodes
	int spread = 15;
	std::string ws() { std::string r; if (!g.chance(spread)) return r; static const char* w[] = {" ", "  ", "\t", "\n", " \n ", "\r\n"}; return w[g.below(6)]; }
	std::string par(std::string const& x) { return "(" + ws() + x + ws() + ")"; }
	std::string natural(Q const& q) { std::ostringstream o; o << numerator(q); std::string r = o.str(); if (g.chance(6)) r = "0" + r; return r; }
	std::string number(Q q, int& level) { // q >= 0
		auto d = denominator(q); Q c = q; int k = 0; auto dd = d; while (dd % 2 == 0) dd /= 2; while (dd % 5 == 0) dd /= 5; level = 5;
		if (d == 1 && !g.chance(15)) return natural(q);
		if (dd == 1) { while (denominator(c) != 1) { c *= 10; ++k; } std::ostringstream o; o << numerator(c); std::string t = o.str(); int form = g.below(4); int up = 0; if (form == 3) { up = g.range(-6, 6); } int pl = k + up; // digits after the point
			while (pl < 0) { t += "0"; ++pl; } while (int(t.size()) <= pl) t = "0" + t; std::string a = t.substr(0, t.size() - pl), b = t.substr(t.size() - pl); if (form == 1) b += std::string(g.range(0, 3), '0'); if (form == 2 && a == "0" && b.size()) a = ""; std::string r = a; bool pt = b.size() || g.chance(50) || !up; if (pt) r += "." + b; if (r == ".") r = "0."; if (up) { r += (g.chance(50) ? "e" : "E"); r += up < 0 ? "-" : g.chance(50) ? "+" : ""; if (g.chance(20)) r += "0"; r += std::to_string(up < 0 ? -up : up); } return r; }
		level = 2; return natural(Q(numerator(q))) + ws() + "/" + ws() + natural(Q(denominator(q))); }
	std::string at(P const& e, int want) { int l; std::string t = go(e, l); while (l < want || g.chance(8)) { t = par(t); l = 5; } return t; }
	std::string go(P const& e, int& level) {
		switch (e->op) {
			case Op::Num: if (e->im != 0) { level = 1; int l; std::string t; Q r = e->re, m = e->im; if (r < 0) { t = "-"; t += ws(); } t += lev(number(r < 0 ? Q(-r) : r, l), l, 3); t += ws() + (m < 0 ? "-" : "+") + ws() + lev(number(m < 0 ? Q(-m) : m, l), l, 3) + ws() + "*" + ws() + (g.chance(50) ? "I" : "i"); return t; } { int l; if (e->re >= 0) return number(e->re, level); std::string t = "-" + ws() + lev(number(-e->re, l), l, 3); level = 3; return t; }
			case Op::Pi: level = 5; return g.chance(50) ? "Pi" : "pi"; case Op::E: level = 5; return g.chance(50) ? "E" : "e"; case Op::Var: level = 5; return names[e->n];
			case Op::Sum: { level = 1; std::string t; for (size_t k = 0; k < e->ch.size(); ++k) { if (k) t += ws() + (e->pos[k] ? "+" : "-") + ws() + at(e->ch[k], 2); else if (!e->pos[k]) t += "-" + ws() + at(e->ch[k], 3); else { if (g.chance(3)) t += "+"; t += at(e->ch[k], t.size() ? 3 : 1); } } return t; }
			case Op::Mult: { level = 2; std::string t; for (size_t k = 0; k < e->ch.size(); ++k) { if (k == 0 && !e->pos[0]) { t += "1" + ws() + "/" + ws() + at(e->ch[0], 3); continue; } if (k) t += ws() + (e->pos[k] ? "*" : "/") + ws(); t += at(e->ch[k], k ? 3 : 2); } return t; }
			case Op::Neg: level = 3; return "-" + ws() + at(e->ch[0], 3);
			case Op::IntPow: { level = 4; std::string b = at(e->ch[0], 4); int n = e->n; std::string x = std::to_string(n < 0 ? -n : n); if (n < 0) { x = "-" + ws() + x; if (g.chance(50)) x = par(x); } else if (g.chance(10)) x = par(x); else if (g.chance(5)) x = "+" + x; return b + ws() + "^" + ws() + x; }
			case Op::Pow: { level = 4; std::string b = at(e->ch[0], 4); return b + ws() + "^" + ws() + at(e->ch[1], 5); }
			case Op::Func: { auto it = func.find(e.get()); if (it != func.end()) { level = 5; return it->second; } return go(e->ch[0], level); }
			case Op::Sin: return call("sin", e, level); case Op::Cos: return call("cos", e, level); case Op::Tan: return call("tan", e, level); case Op::Exp: return call("exp", e, level); case Op::Log: return call("log", e, level); case Op::Sqrt: return call("sqrt", e, level);
			default: break; }
		pbt::discard("not in the language"); }
	std::string lev(std::string const& t, int have, int want) { return have < want ? par(t) : t; }
	std::string call(char const* f, P const& e, int& level) { level = 5; return std::string(f) + ws() + "(" + ws() + at(e->ch[0], 1) + ws() + ")"; }
	std::string write(P const& e) { return ws() + at(e, 1) + ws(); }
};
inline bool representable(P const& e) { if (e->op == Op::ASin || e->op == Op::ACos || e->op == Op::ATan) return false; for (auto& c : e->ch) if (!representable(c)) return false; return true; }

inline std::set<std::string> const& keywords() { static const std::set<std::string> k = {"variable_group", "hom_variable_group", "variable", "function", "constant", "parameter", "implicit_parameter", "pathvariable", "random", "random_real"}; return k; }
inline std::set<std::string> const& reserved() { static const std::set<std::string> k = {"pi", "Pi", "e", "E", "i", "I"}; return k; }
inline std::set<std::string> const& elementary() { static const std::set<std::string> k = {"sin", "cos", "tan", "exp", "log", "sqrt"}; return k; }
// a name not used yet, with a liking for names which begin with other names, keywords or functions
inline std::string fresh(Gen& g, std::set<std::string>& used) {
	for (int tries = 0;; ++tries) { std::string n; int k = tries > 30 ? 9 : g.below(9);
		static const char* base[] = {"x", "y", "z", "t", "f", "X", "a", "eps", "In", "pie", "sinx", "exponent", "variablex", "functions", "constant1", "logs", "input1", "trend", "config_a", "iota", "E1", "I2", "Pi3", "randomly", "parameters"};
		if (k <= 3) n = base[g.below(25)]; else if (k <= 5 && used.size()) { auto it = used.begin(); std::advance(it, g.below(used.size())); n = *it; static const char* tail[] = {"1", "_", "x", "[1]", "0", "_a", "e2"}; n += tail[g.below(7)]; } else if (k == 6 && used.size()) { auto it = used.begin(); std::advance(it, g.below(used.size())); n = it->substr(0, g.range(1, int(it->size()))); }
		else { n = char('a' + g.below(26)); int m = g.range(tries > 30 ? 3 : 0, 5); static const char ab[] = "abcxyzEIe0123456789_[]"; for (int q = 0; q < m; ++q) n += ab[g.below(sizeof ab - 1)]; }
		std::string lo; for (char q : n) lo += char(std::tolower(q)); if (lo == "config" || lo == "input" || lo == "end") continue; if (used.count(n) || keywords().count(n) || reserved().count(n) || elementary().count(n)) continue; used.insert(n); return n; } }
inline std::string mutate(Gen& g, std::string t, std::vector<std::string> const& names, char const* extra = "") {
	int k = g.range(1, 3); std::string ab = std::string("+-*/^()().0123456789eEIix_ \n[],") + extra; for (int q = 0; q < k; ++q) { size_t at = t.empty() ? 0 : g.below(t.size() + 1); switch (g.below(7)) { case 0: if (t.size()) t.erase(std::min(at, t.size() - 1), 1); break; case 1: t.insert(at, 1, ab[g.below(ab.size())]); break; case 2: if (t.size()) t[std::min(at, t.size() - 1)] = ab[g.below(ab.size())]; break; case 3: if (names.size()) t.insert(at, names[g.below(names.size())]); break; case 4: { static const char* w[] = {"sin", "sqrt(", "--", "^-", "1e3", "2.5E-1", "..", "e+", "Pi", "-+", "^^", "*-", "/-", ")(", "()", "1e"}; t.insert(at, w[g.below(16)]); break; } case 5: if (t.size() > 1) { size_t b = std::min(at, t.size() - 1); t.erase(b, 1 + g.below(std::min<size_t>(6, t.size() - b))); } break; default: if (t.size() > 1) { size_t b = std::min(at, t.size() - 1), n = 1 + g.below(std::min<size_t>(6, t.size() - b)); std::string piece = t.substr(b, n); t.insert(g.below(t.size() + 1), piece); } } } return t; }
}
