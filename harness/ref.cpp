#include "ref.hpp"
namespace ref {
using namespace bmp;

std::string show_q(Q const& q) { std::ostringstream o; o << numerator(q); if (denominator(q) != 1) o << "/" << denominator(q); return o.str(); }

std::string show(P const& e) {
	std::ostringstream o;
	auto fn = [&](const char* n) { o << n << "(" << show(e->ch[0]) << ")"; };
	switch (e->op) {
		case Op::Num: { static const char* k[] = {"", "", "f"}; if (e->im == 0) o << (e->re < 0 || denominator(e->re) != 1 ? "(" : "") << show_q(e->re) << k[e->numkind] << (e->re < 0 || denominator(e->re) != 1 ? ")" : ""); else o << "(" << show_q(e->re) << "+(" << show_q(e->im) << ")*I" << k[e->numkind] << ")"; break; }
		case Op::Pi: o << "Pi"; break; case Op::E: o << "E"; break;
		case Op::Var: o << "x" << e->n; break;
		case Op::Sum: o << "("; for (size_t i = 0; i < e->ch.size(); ++i) { if (!e->pos[i]) o << "-"; else if (i) o << "+"; o << show(e->ch[i]); } o << ")"; break;
		case Op::Mult: o << "("; for (size_t i = 0; i < e->ch.size(); ++i) { if (!e->pos[i]) o << (i ? "/" : "1/"); else if (i) o << "*"; o << show(e->ch[i]); } o << ")"; break;
		case Op::Neg: o << "(-" << show(e->ch[0]) << ")"; break;
		case Op::IntPow: o << show(e->ch[0]) << "^" << (e->n < 0 ? "(" : "") << e->n << (e->n < 0 ? ")" : ""); break;
		case Op::Pow: o << "pow(" << show(e->ch[0]) << "," << show(e->ch[1]) << ")"; break;
		case Op::Sqrt: fn("sqrt"); break; case Op::Exp: fn("exp"); break; case Op::Log: fn("log"); break;
		case Op::Sin: fn("sin"); break; case Op::Cos: fn("cos"); break; case Op::Tan: fn("tan"); break;
		case Op::ASin: fn("asin"); break; case Op::ACos: fn("acos"); break; case Op::ATan: fn("atan"); break;
		case Op::Func: fn("F"); break;
	}
	return o.str();
}

namespace {
Val cst(C v, size_t n) { Val r; r.v = v; r.e = mag(v); r.d.assign(n, C(0)); r.de.assign(n, R(0)); return r; }
void bad(Val& r, const char* w) { r.bad = true; if (r.why.empty()) r.why = w; }
// r = f(a), given f, f', f'' at a.v
Val unary(Val const& a, C f, C f1, C f2) {
	Val r; r.bad = a.bad; r.why = a.why; r.v = f; R m1 = mag(f1), m2 = mag(f2); r.e = m1 * a.e + mag(f) + m2 * a.e * a.e * R(1e-15);
	if (m2 != 0 && a.e * R(1e-15) > R(1e-3) * (R(1) + mag(a.v))) bad(r, "large argument error");
	for (size_t i = 0; i < a.d.size(); ++i) { r.d.push_back(f1 * a.d[i]); R md = mag(a.d[i]); r.de.push_back(m1 * a.de[i] + m2 * md * a.e + m1 * md); }
	return r;
}
Val add(Val const& a, Val const& b, bool plus) {
	Val r; r.bad = a.bad || b.bad; r.why = a.bad ? a.why : b.why; r.v = plus ? C(a.v + b.v) : C(a.v - b.v); r.e = a.e + b.e + mag(r.v);
	for (size_t i = 0; i < a.d.size(); ++i) { r.d.push_back(plus ? C(a.d[i] + b.d[i]) : C(a.d[i] - b.d[i])); r.de.push_back(a.de[i] + b.de[i] + mag(r.d.back())); }
	return r;
}
bool cancelled(Val const& a) { return a.e > R(0) && mag(a.v) < a.e * R(1e-6); } // first-order error analysis is blind here
bool tinypart(C const& c) { R a = abs(R(c.real())), b = abs(R(c.imag())); return (a != 0 && a < R(1e-9)) || (b != 0 && b < R(1e-9)); }
Val mul(Val const& a, Val const& b) {
	if (cancelled(a) && cancelled(b)) { Val r = a; bad(r, "cancellation"); return r; }
	Val r; r.bad = a.bad || b.bad; r.why = a.bad ? a.why : b.why; r.v = a.v * b.v; R ma = mag(a.v), mb = mag(b.v); r.e = ma * b.e + mb * a.e + mag(r.v);
	for (size_t i = 0; i < a.d.size(); ++i) {
		r.d.push_back(a.d[i] * b.v + a.v * b.d[i]); R da = mag(a.d[i]), db = mag(b.d[i]);
		r.de.push_back(a.de[i] * mb + da * b.e + a.e * db + ma * b.de[i] + da * mb + ma * db); }
	return r;
}
Val inv(Val const& a) {
	if (mag(a.v) < R(1e-4)) { Val r = a; bad(r, "division by a small number"); return r; }
	C f = C(1) / a.v; return unary(a, f, -f * f, C(2) * f * f * f);
}
Val ipw(Val const& a, int n) {
	if (n == 0) return cst(C(1), a.d.size());
	if (n < 0) return ipw(inv(a), -n);
	auto p = [&](int k) { C r(1); for (int i = 0; i < k; ++i) r *= a.v; return r; };
	C f = p(n), f1 = C(n) * p(n - 1), f2 = n >= 2 ? C(C(n) * C(n - 1) * p(n - 2)) : C(0);
	Val r = unary(a, f, f1, f2); if (n >= 2 && cancelled(a)) bad(r, "cancellation"); r.e *= R(n); for (auto& x : r.de) x *= R(n); return r;
}
bool near_negative_axis(C const& v) { return mag(v) < R(1e-4) || (v.real() < R(1e-6) && abs(R(v.imag())) < R(1e-3)); }
Val lg(Val const& a) { if (near_negative_axis(a.v)) { Val r = a; bad(r, "branch cut"); return r; } C i = C(1) / a.v; return unary(a, log(a.v), i, -i * i); }
Val ex(Val const& a) { if (abs(R(a.v.real())) > R(20) || abs(R(a.v.imag())) > R(2000)) { Val r = a; bad(r, "exp range"); return r; } C f = exp(a.v); return unary(a, f, f, f); }
}

Val eval_memo(P const& e, std::vector<C> const& x, std::map<Expr*, Val>& memo) {
	auto it = memo.find(e.get()); if (it != memo.end()) return it->second;
	size_t n = x.size(); Val r;
	auto sub = [&](int i) { return eval_memo(e->ch[i], x, memo); };
	auto trigguard = [&](Val const& a) { return abs(R(a.v.imag())) > R(12) || abs(R(a.v.real())) > R(2000); };
	switch (e->op) {
		case Op::Num: r = cst(C(toR(e->re), toR(e->im)), n); break;
		case Op::Pi: r = cst(C(R(4) * atan(R(1))), n); break;
		case Op::E: r = cst(C(exp(R(1))), n); break;
		case Op::Var: r = cst(x[e->n], n); r.d[e->n] = C(1); break;
		case Op::Sum: { r = cst(C(0), n); for (size_t i = 0; i < e->ch.size(); ++i) r = add(r, sub(i), e->pos[i]); break; }
		case Op::Mult: { r = cst(C(1), n); for (size_t i = 0; i < e->ch.size(); ++i) { Val c = sub(i); r = mul(r, e->pos[i] ? c : inv(c)); } break; }
		case Op::Neg: { Val a = sub(0); r = unary(a, -a.v, C(-1), C(0)); break; }
		case Op::IntPow: r = ipw(sub(0), e->n); break;
		case Op::Pow: { Val b = sub(0), p = sub(1);
			bool intexp = e->ch[1]->op == Op::Num && e->ch[1]->im == 0 && denominator(e->ch[1]->re) == 1;
			if (intexp) { if (mag(b.v) < R(1e-4) || abs(toR(e->ch[1]->re)) > R(60)) { r = b; bad(r, "power of a small number or huge power"); } else { r = ipw(b, e->ch[1]->re.convert_to<int>()); R k = R(4) + mag(log(b.v)) * (R(1) + abs(toR(e->ch[1]->re))); r.e *= k; for (auto& q : r.de) q *= k; } }
			else r = ex(mul(p, lg(b)));
			r.bad = r.bad || b.bad || p.bad; break; }
		case Op::Sqrt: { Val a = sub(0); if (near_negative_axis(a.v)) { r = a; bad(r, "branch cut"); break; } C s = sqrt(a.v); C f1 = C(R(0.5)) / s; r = unary(a, s, f1, -f1 / (C(2) * a.v)); break; }
		case Op::Exp: r = ex(sub(0)); break;
		case Op::Log: r = lg(sub(0)); break;
		case Op::Sin: { Val a = sub(0); if (trigguard(a)) { r = a; bad(r, "trig range"); break; } C s = sin(a.v), c = cos(a.v); r = unary(a, s, c, -s); r.e += mag(a.v); break; }
		case Op::Cos: { Val a = sub(0); if (trigguard(a)) { r = a; bad(r, "trig range"); break; } C s = sin(a.v), c = cos(a.v); r = unary(a, c, -s, -c); break; }
		case Op::Tan: { Val a = sub(0); if (trigguard(a)) { r = a; bad(r, "trig range"); break; } C s = sin(a.v), c = cos(a.v); if (mag(c) < R(1e-3)) { r = a; bad(r, "tan pole"); break; } C t = s / c, f1 = C(1) / (c * c); r = unary(a, t, f1, C(2) * t * f1); break; }
		case Op::ASin: case Op::ACos: { Val a = sub(0); C q = C(1) - a.v * a.v; if (tinypart(a.v) || abs(R(q.real())) < R(1e-3) /* MPC runs away there */ || mag(q) < R(1e-2) || mag(a.v) > R(1e3) || (abs(R(a.v.imag())) < R(1e-3) && abs(R(a.v.real())) > R(0.99))) { r = a; bad(r, "branch cut"); break; }
			C s = sqrt(q), f1 = C(1) / s, f2 = a.v / (q * s); if (e->op == Op::ASin) r = unary(a, asin(a.v), f1, f2); else r = unary(a, acos(a.v), -f1, -f2); R k = R(1) + mag(a.v); r.e = r.e * k * k; for (auto& q2 : r.de) q2 *= k * k; break; }
		case Op::ATan: { Val a = sub(0); C q = C(1) + a.v * a.v; if (tinypart(a.v) || abs(R(q.real())) < R(1e-3) /* MPC runs away there */ || mag(q) < R(1e-2) || mag(a.v) > R(1e3) || (abs(R(a.v.real())) < R(1e-3) && abs(R(a.v.imag())) > R(0.99))) { r = a; bad(r, "branch cut"); break; }
			C f1 = C(1) / q; r = unary(a, atan(a.v), f1, C(-2) * a.v * f1 * f1); r.e += R(1); for (auto& q2 : r.de) q2 *= R(4); break; }
		case Op::Func: r = sub(0); break;
	}
	for (auto& c : e->ch) { Val const& cv = memo[c.get()]; if (cv.bad && !r.bad) { r.bad = true; r.why = cv.why; } }
	if (!r.bad) { R m = mag(r.v); if (isnan(m) || m > R(Big) || r.e > R(Big)) bad(r, "large value"); if (m != 0 && m < R(1e-30) && r.e < R(1e-30)) bad(r, "underflow"); for (auto& d : r.d) { R md = mag(d); if (isnan(md) || md > R(Big)) bad(r, "large derivative"); } for (auto& d : r.de) if (d > R(Big)) bad(r, "large derivative error"); }
	if (r.d.size() != n) { r.d.assign(n, C(0)); r.de.assign(n, R(0)); }
	memo[e.get()] = r; return r;
}
Val eval(P const& e, std::vector<C> const& x) { std::map<Expr*, Val> memo; return eval_memo(e, x, memo); }


static P diff_m(P const& e, int v, std::map<Expr*, P>& memo) {
	auto it = memo.find(e.get()); if (it != memo.end()) return it->second;
	auto d = [&](int i) { return diff_m(e->ch[i], v, memo); };
	auto zero = [](P const& p) { return p->op == Op::Num && p->re == 0 && p->im == 0; };
	auto times = [&](P a, P b) { if (zero(a) || zero(b)) return num(0); return mult({a, b}, {true, true}); };
	P r;
	switch (e->op) {
		case Op::Num: case Op::Pi: case Op::E: r = num(0); break;
		case Op::Var: r = num(e->n == v ? 1 : 0); break;
		case Op::Func: r = d(0); break;
		case Op::Neg: { P a = d(0); r = zero(a) ? a : mk(Op::Neg, {a}); break; }
		case Op::Sum: { std::vector<P> c; std::vector<bool> p; for (size_t i = 0; i < e->ch.size(); ++i) { P a = d(i); if (!zero(a)) { c.push_back(a); p.push_back(e->pos[i]); } } r = c.empty() ? num(0) : sum(c, p); break; }
		case Op::Mult: { std::vector<P> c; std::vector<bool> p;
			for (size_t i = 0; i < e->ch.size(); ++i) { P a = d(i); if (zero(a)) continue; std::vector<P> f; std::vector<bool> fp; for (size_t j = 0; j < e->ch.size(); ++j) if (j != i) { f.push_back(e->ch[j]); fp.push_back(e->pos[j]); }
				f.push_back(a); fp.push_back(true); if (!e->pos[i]) { f.push_back(ipow(e->ch[i], 2)); fp.push_back(false); }
				c.push_back(mult(f, fp)); p.push_back(e->pos[i]); }
			r = c.empty() ? num(0) : sum(c, p); break; }
		case Op::IntPow: { P a = d(0); r = (e->n == 0 || zero(a)) ? num(0) : mult({num(e->n), ipow(e->ch[0], e->n - 1), a}, {true, true, true}); break; }
		case Op::Pow: { P db = d(0), dp = d(1); std::vector<P> c;
			if (!zero(db)) { P pm1 = e->ch[1]->op == Op::Num ? num(e->ch[1]->re - 1, e->ch[1]->im) : sum({e->ch[1], num(1)}, {true, false}); c.push_back(mult({e->ch[1], mk(Op::Pow, {e->ch[0], pm1}), db}, {true, true, true})); }
			if (!zero(dp)) c.push_back(mult({e, mk(Op::Log, {e->ch[0]}), dp}, {true, true, true}));
			r = c.empty() ? num(0) : sum(c, std::vector<bool>(c.size(), true)); break; }
		default: { P a = d(0); if (zero(a)) { r = a; break; } P u = e->ch[0]; P f1; P one = num(1);
			switch (e->op) {
				case Op::Sqrt: f1 = mult({num(2), e}, {false, false}); break;
				case Op::Exp: f1 = e; break;
				case Op::Log: f1 = ipow(u, -1); break;
				case Op::Sin: f1 = mk(Op::Cos, {u}); break;
				case Op::Cos: f1 = mk(Op::Neg, {mk(Op::Sin, {u})}); break;
				case Op::Tan: f1 = ipow(mk(Op::Cos, {u}), -2); break;
				case Op::ASin: f1 = ipow(mk(Op::Sqrt, {sum({one, ipow(u, 2)}, {true, false})}), -1); break;
				case Op::ACos: f1 = mk(Op::Neg, {ipow(mk(Op::Sqrt, {sum({one, ipow(u, 2)}, {true, false})}), -1)}); break;
				default: f1 = ipow(sum({one, ipow(u, 2)}, {true, true}), -1); break;
			}
			r = times(f1, a); break; }
	}
	memo[e.get()] = r; return r;
}
P diff(P const& e, int v) { std::map<Expr*, P> memo; return diff_m(e, v, memo); }

// ---------------------------------------------------------------------------------- polynomials
int Poly::degree(std::vector<int> const& vars) const { int d = -1; for (auto& m : t) { int s = 0; for (int v : vars) s += m.first[v]; d = std::max(d, s); } return d; }
bool Poly::homogeneous(std::vector<int> const& vars) const { int d = -1; for (auto& m : t) { int s = 0; for (int v : vars) s += m.first[v]; if (d >= 0 && s != d) return false; d = s; } return true; }
static void padd(Poly& a, std::vector<int> const& m, Q re, Q im) { auto& c = a.t[m]; c.first += re; c.second += im; if (c.first == 0 && c.second == 0) a.t.erase(m); }
static bool pmul(Poly const& a, Poly const& b, Poly& r, size_t cap) {
	Poly o; o.nvars = a.nvars; if (a.t.size() * b.t.size() > cap * 8) return false;
	for (auto& x : a.t) for (auto& y : b.t) { auto m = x.first; for (int i = 0; i < a.nvars; ++i) m[i] += y.first[i];
		padd(o, m, x.second.first * y.second.first - x.second.second * y.second.second, x.second.first * y.second.second + x.second.second * y.second.first); }
	if (o.t.size() > cap) return false; r = o; return true;
}
bool expand(P const& e, int nv, Poly& out, size_t cap) {
	Poly r; r.nvars = nv; std::vector<int> zero(nv, 0);
	switch (e->op) {
		case Op::Num: if (e->re != 0 || e->im != 0) r.t[zero] = {e->re, e->im}; break;
		case Op::Var: { auto m = zero; m[e->n] = 1; r.t[m] = {1, 0}; break; }
		case Op::Func: return expand(e->ch[0], nv, out, cap);
		case Op::Neg: { Poly a; if (!expand(e->ch[0], nv, a, cap)) return false; r = a; for (auto& x : r.t) { x.second.first = -x.second.first; x.second.second = -x.second.second; } break; }
		case Op::Sum: for (size_t i = 0; i < e->ch.size(); ++i) { Poly a; if (!expand(e->ch[i], nv, a, cap)) return false; for (auto& x : a.t) padd(r, x.first, e->pos[i] ? x.second.first : Q(-x.second.first), e->pos[i] ? x.second.second : Q(-x.second.second)); } break;
		case Op::Mult: { r.t[zero] = {1, 0}; for (size_t i = 0; i < e->ch.size(); ++i) { Poly a; if (!expand(e->ch[i], nv, a, cap)) return false;
			if (!e->pos[i]) { if (a.t.size() != 1 || a.degree([&] { std::vector<int> v; for (int k = 0; k < nv; ++k) v.push_back(k); return v; }()) != 0) return false; auto c = a.t.begin()->second; Q n2 = c.first * c.first + c.second * c.second; a.t.begin()->second = {Q(c.first / n2), Q(-c.second / n2)}; }
			if (!pmul(r, a, r, cap)) return false; } break; }
		case Op::IntPow: { if (e->n < 0) return false; Poly a; if (!expand(e->ch[0], nv, a, cap)) return false; r.t[zero] = {1, 0}; for (int i = 0; i < e->n; ++i) if (!pmul(r, a, r, cap)) return false; break; }
		default: return false;
	}
	if (r.t.size() > cap) return false; out = r; return true;
}
C eval(Poly const& p, std::vector<C> const& x) { C s(0); for (auto& m : p.t) { C t(toR(m.second.first), toR(m.second.second)); for (int i = 0; i < p.nvars; ++i) for (int k = 0; k < m.first[i]; ++k) t *= x[i]; s += t; } return s; }

// ----------------------------------------------------------------------------------- generators
P ExprGen::number() {
	int k = g.weighted({5, 3, unsigned(c.floats ? 3 : 0)});
	auto part = [&](int kind) -> Q { if (kind == 0) return Q(g.small_int(9)); if (kind == 1) return Q(g.small_int(12)) / Q(g.range(1, 9)); return Q(g.small_int(40)) / Q(8); };
	Q re = part(k), im = 0;
	if (k != 0 && c.complex_numbers && g.chance(35)) im = part(k);
	if (k == 0 && g.chance(5)) re = re * Q(1000003) + Q(7);
	if (k <= 1 && g.chance(3)) { Q b = 1; int n = g.range(1, 24); for (int i = 0; i < n; ++i) b = b * 10 + g.below(10); re = (k == 1 && g.chance(50)) ? Q(Q(g.small_int(30)) + 1 / b) : Q(g.chance(50) ? b : -b); }
	return num(re, im, k);
}
P ExprGen::leaf() {
	switch (g.weighted({6, 4, unsigned(c.constants ? 1 : 0)})) {
		case 0: if (!c.only.empty()) return var(c.only[g.below(c.only.size())]); if (c.nvars == 0) return number(); return var(g.below(c.nvars));
		case 1: return number();
		default: return mk(g.chance(50) ? Op::E : Op::Pi);
	}
}
P ExprGen::gen(int depth) {
	if (c.share && !pool.empty() && g.chance(15)) return pool[g.below(pool.size())];
	if (depth <= 0) { P l = leaf(); if (l->op == Op::Var && g.chance(20)) return l; return l; }
	unsigned pr = c.poly ? 0 : 1; (void)pr;
	unsigned wt = (!c.poly && c.transcend) ? 2 : 0;
	P e;
	switch (g.weighted({2, 8, 8, 2, 5, wt, 2u * wt, unsigned(c.funcs ? 1 : 0)})) {
		case 0: e = leaf(); break;
		case 1: { int k = g.range(2, c.maxnary); if (g.chance(6)) k = 1; if (g.chance(3)) k = g.range(4, 11); std::vector<P> ch; std::vector<bool> ps; for (int i = 0; i < k; ++i) { ch.push_back(gen(depth - 1)); ps.push_back(!g.chance(35)); } e = sum(ch, ps); break; }
		case 2: { int k = g.range(2, c.maxnary); if (g.chance(6)) k = 1; if (g.chance(3)) k = g.range(4, 11); std::vector<P> ch; std::vector<bool> ps; for (int i = 0; i < k; ++i) { ch.push_back(gen(depth - 1)); ps.push_back(c.poly || !c.rational || k == 1 || !g.chance(20)); } e = mult(ch, ps); break; }
		case 3: e = mk(Op::Neg, {gen(depth - 1)}); break;
		case 4: { P b = gen(depth - 1); int n = (c.poly || !c.rational) ? g.range(0, c.maxpow) : g.small_int(c.maxpow); if (g.chance(3)) n = g.range(5, 40); e = ipow(b, n); break; }
		case 5: { P b = gen(depth - 1); P p = c.var_exponent && g.chance(40) ? gen(depth - 2) : number(); e = mk(Op::Pow, {b, p}); break; }
		case 6: { static const Op f[] = {Op::Sqrt, Op::Exp, Op::Log, Op::Sin, Op::Cos, Op::Tan, Op::ASin, Op::ACos, Op::ATan}; e = mk(f[g.below(9)], {gen(depth - 1)}); break; }
		default: e = mk(Op::Func, {gen(depth - 1)}); break;
	}
	if (e->ch.size()) pool.push_back(e);
	return e;
}
std::complex<double> coord(pbt::Gen& g) {
	switch (g.weighted({4, 2, 6, 2})) {
		case 0: return {double(g.small_int(3)), 0};
		case 1: return {g.small_int(24) / 8.0, 0};
		case 2: return {g.small_int(160) / 64.0, g.small_int(160) / 64.0};
		default: return {g.small_int(1 << 20) / double(1 << 18), g.small_int(1 << 20) / double(1 << 18)};
	}
}
std::vector<std::complex<double>> point(pbt::Gen& g, int n) { std::vector<std::complex<double>> p; for (int i = 0; i < n; ++i) p.push_back(coord(g)); return p; }
std::vector<C> lift(std::vector<std::complex<double>> const& p) { std::vector<C> r; for (auto& z : p) r.push_back(toC(z)); return r; }
std::string show(std::vector<std::complex<double>> const& p) { std::ostringstream o; o.precision(17); o << "("; for (size_t i = 0; i < p.size(); ++i) o << (i ? ", " : "") << p[i].real() << (p[i].imag() != 0 ? "+i*" + [&] { std::ostringstream q; q.precision(17); q << p[i].imag(); return q.str(); }() : ""); o << ")"; return o.str(); }

} // namespace ref

namespace ref {
bool depends(P const& e, std::vector<bool> const& s) { std::map<Expr*, bool> m; std::function<bool(P const&)> f = [&](P const& x) -> bool { auto it = m.find(x.get()); if (it != m.end()) return it->second; bool r = x->op == Op::Var && s[x->n]; for (auto& c : x->ch) r = f(c) || r; return m[x.get()] = r; }; return f(e); }
int sdeg(P const& e, std::vector<bool> const& s) {
	std::map<Expr*, int> memo; std::vector<bool> all(s.size(), true);
	std::function<int(P const&)> f = [&](P const& x) -> int {
		auto it = memo.find(x.get()); if (it != memo.end()) return it->second; int r = 0;
		auto join = [](int a, int b) { return a == -2 || b == -2 ? -2 : -1; };
		switch (x->op) {
			case Op::Num: case Op::Pi: case Op::E: r = 0; break;
			case Op::Var: r = s[x->n] ? 1 : 0; break;
			case Op::Func: case Op::Neg: r = f(x->ch[0]); break;
			case Op::Sum: for (auto& c : x->ch) { int d = f(c); r = (r < 0 || d < 0) ? join(std::min(r, 0), std::min(d, 0)) : std::max(r, d); } break;
			case Op::Mult: for (size_t i = 0; i < x->ch.size(); ++i) { int d = f(x->ch[i]); if (d > 0 && !x->pos[i]) d = -1; r = (r < 0 || d < 0) ? join(std::min(r, 0), std::min(d, 0)) : r + d; } break;
			case Op::IntPow: { int d = f(x->ch[0]); if (d < 0) r = x->n == 0 ? -2 : d; else if (d == 0) r = 0; else r = x->n < 0 ? -1 : x->n * d; break; }
			case Op::Pow: { int b = f(x->ch[0]), p = f(x->ch[1]); if (b == -2 || p == -2) { r = -2; break; } if (p != 0) { r = -1; break; } if (b == 0) { r = 0; break; } if (depends(x->ch[1], all)) { r = -1; break; }
				if (x->ch[1]->op != Op::Num) { r = -2; break; } auto& n = x->ch[1]; if (n->im != 0 || denominator(n->re) != 1 || n->re < 0) r = -1; else if (n->re == 0) r = b < 0 ? -2 : 0; else r = b < 0 ? -1 : n->re.convert_to<int>() * b; break; }
			default: { int d = f(x->ch[0]); r = d == 0 ? 0 : d == -2 ? -2 : -1; break; }
		}
		if (r > 100000) r = -2;
		return memo[x.get()] = r; };
	return f(e);
}
}
namespace ref {
static P subst_m(P const& e, std::map<int, P> const& m, std::map<Expr*, P>& memo) {
	auto it = memo.find(e.get()); if (it != memo.end()) return it->second; P r;
	if (e->op == Op::Var) { auto k = m.find(e->n); r = k == m.end() ? e : k->second; }
	else if (e->ch.empty()) r = e;
	else { std::vector<P> ch; bool same = true; for (auto& c : e->ch) { ch.push_back(subst_m(c, m, memo)); same = same && ch.back() == c; } if (same) r = e; else { r = mk(e->op, ch); r->n = e->n; r->pos = e->pos; r->re = e->re; r->im = e->im; } }
	memo[e.get()] = r; return r;
}
P subst(P const& e, std::map<int, P> const& m) { std::map<Expr*, P> memo; return subst_m(e, m, memo); }
}
