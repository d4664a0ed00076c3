// Independent reference model of expressions: an AST evaluated at 260 digits with derivatives
// (forward mode) and a first-order running error bound, plus exact polynomial semantics.
#pragma once
#include <boost/multiprecision/mpc.hpp>
#include <boost/multiprecision/mpfr.hpp>
#include <boost/multiprecision/gmp.hpp>
#include <complex>
#include <map>
#include <memory>
#include <sstream>
#include "pbt.hpp"

namespace ref {

namespace bmp = boost::multiprecision;
using R = bmp::number<bmp::mpfr_float_backend<260>, bmp::et_off>;
using C = bmp::number<bmp::mpc_complex_backend<260>, bmp::et_off>;
using Q = bmp::number<bmp::gmp_rational, bmp::et_off>;

inline R mag(C const& c) { return R(bmp::sqrt(R(c.real() * c.real() + c.imag() * c.imag()))); }
inline R toR(Q const& q) { return R(bmp::numerator(q)) / R(bmp::denominator(q)); }
inline C toC(std::complex<double> const& d) { return C(R(d.real()), R(d.imag())); }

enum class Op { Num, Pi, E, Var, Sum, Mult, Neg, IntPow, Pow, Sqrt, Exp, Log, Sin, Cos, Tan, ASin, ACos, ATan, Func };

struct Expr;
using P = std::shared_ptr<Expr>;
struct Expr {
	Op op;
	Q re = 0, im = 0;            // Num, exact
	int numkind = 0;             // Num: 0 integer, 1 rational, 2 float
	int n = 0;                   // Var index, IntPow exponent
	std::vector<P> ch;
	std::vector<bool> pos;       // Sum: add / subtract.  Mult: multiply / divide
	int size = 1;
	bool is_var(int i) const { return op == Op::Var && n == i; }
};

inline P mk(Op o, std::vector<P> ch = {}) { auto e = std::make_shared<Expr>(); e->op = o; e->ch = std::move(ch); for (auto& c : e->ch) e->size += c->size; return e; }
inline P num(Q re, Q im = 0, int kind = -1) {
	auto e = mk(Op::Num); e->re = re; e->im = im;
	bool isint = im == 0 && bmp::denominator(re) == 1;
	e->numkind = kind >= 0 ? kind : (isint ? 0 : 1); return e; }
inline P var(int i) { auto e = mk(Op::Var); e->n = i; return e; }
inline P sum(std::vector<P> ch, std::vector<bool> pos) { auto e = mk(Op::Sum, std::move(ch)); e->pos = std::move(pos); return e; }
inline P mult(std::vector<P> ch, std::vector<bool> pos) { auto e = mk(Op::Mult, std::move(ch)); e->pos = std::move(pos); return e; }
inline P ipow(P b, int n) { auto e = mk(Op::IntPow, {b}); e->n = n; return e; }

std::string show(P const& e);          // fully parenthesised mathematical text
std::string show_q(Q const& q);

struct Val { C v; R e; std::vector<C> d; std::vector<R> de; bool bad = false; std::string why; };

// value, error bound (in units of the working epsilon), derivatives wrt every variable and theirs
Val eval(P const& e, std::vector<C> const& x);

// symbolic partial derivative inside the reference model (for higher orders)
P diff(P const& e, int var);

// Largest |value| or |derivative| a usable point may have; beyond it a point is rejected.
constexpr double Big = 1e30;

// ---- polynomials: exact expansion, for expressions that are polynomial -------------------
struct Poly { // monomial exponents -> coefficient (complex rational)
	std::map<std::vector<int>, std::pair<Q, Q>> t;
	int nvars = 0;
	bool zero() const { return t.empty(); }
	int degree(std::vector<int> const& vars) const; // -1 for zero polynomial
	bool homogeneous(std::vector<int> const& vars) const;
};
bool expand(P const& e, int nvars, Poly& out, size_t max_terms = 4000);  // false if not polynomial by structure (or too large)
C eval(Poly const& p, std::vector<C> const& x);

// ---- generators ---------------------------------------------------------------------------
struct GenCfg {
	int nvars = 2;
	int depth = 4;
	bool poly = false;        // sums, products, negation, nonneg integer powers, numbers
	bool rational = true;     // allow division and negative powers (if !poly)
	bool transcend = true;    // allow trig, exp, log, sqrt, general powers
	bool constants = true;    // pi, e
	bool floats = true;       // float-number leaves (dyadic, exact)
	bool complex_numbers = true;
	bool share = true;        // reuse earlier subexpressions (a DAG)
	bool funcs = false;       // wrap subexpressions as named functions
	bool var_exponent = true; // general powers whose exponent depends on variables
	std::vector<int> only;    // if not empty: the variables that may appear
	int maxpow = 4;
	int maxnary = 3;
};
struct ExprGen {
	pbt::Gen& g; GenCfg c; std::vector<P> pool;
	ExprGen(pbt::Gen& g_, GenCfg c_) : g(g_), c(c_) {}
	P leaf();
	P number();
	P gen(int depth);
};
// a point with coordinates exactly representable in double
std::complex<double> coord(pbt::Gen& g);
std::vector<std::complex<double>> point(pbt::Gen& g, int n);
std::vector<C> lift(std::vector<std::complex<double>> const& p);
std::string show(std::vector<std::complex<double>> const& p);

// |a-b| compared in extended precision with tolerance factor*eps*err
inline bool close(C const& a, C const& b, R const& tol) { return !(bmp::isnan(a.real()) || bmp::isnan(a.imag())) && mag(a - b) <= tol; }

} // namespace ref

namespace ref {
// degree by structure in the variables s: >=0 polynomial, -1 not polynomial, -2 degenerate (only soundness can be judged)
int sdeg(P const& e, std::vector<bool> const& s);
bool depends(P const& e, std::vector<bool> const& s);
// replace variables; shared subexpressions stay shared
P subst(P const& e, std::map<int, P> const& m);
}
