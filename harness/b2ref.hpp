// Bridge between the reference model and bertini2 expression trees.
#pragma once
#include "ref.hpp"
#include "bertini2/function_tree.hpp"
#include "bertini2/mpfr_complex.hpp"

namespace b2 {
using bertini::dbl; using bertini::mpfr_complex; using bertini::mpfr_float; using bertini::mpq_rational; using bertini::mpz_int;
using NodeP = std::shared_ptr<bertini::node::Node>;
using VarP = std::shared_ptr<bertini::node::Variable>;
using VarGroup = bertini::VariableGroup;

inline ref::C up(dbl const& z) { return ref::toC(z); }
inline ref::C up(mpfr_complex const& z) { return ref::C(ref::R(mpfr_float(z.real())), ref::R(mpfr_float(z.imag()))); }
mpfr_complex down(ref::C const& z, unsigned prec);
mpfr_complex lift(dbl const& z, unsigned prec);          // exact: prec >= 16
inline ref::R eps_of(unsigned prec) { return ref::R(boost::multiprecision::pow(ref::R(10), 1 - int(prec))); }
inline ref::R eps_dbl() { return ref::R(std::numeric_limits<double>::epsilon()); }
void set_prec(unsigned p);
unsigned some_prec(pbt::Gen& g);                          // 16..190

std::vector<VarP> make_vars(int n, std::string const& stem = "x");

struct Builder {
	pbt::Gen& g; std::vector<VarP> vars; std::map<ref::Expr*, NodeP> memo; bool vary = true; int nfunc = 0;
	std::vector<ref::P> keep;
	Builder(pbt::Gen& g_, std::vector<VarP> v, bool vary_ = true) : g(g_), vars(std::move(v)), vary(vary_) {}
	NodeP number(ref::P const& e);
	NodeP build(ref::P const& e);
};
void set_point(std::vector<VarP> const& v, std::vector<std::complex<double>> const& p);                    // double values
void set_point(std::vector<VarP> const& v, std::vector<std::complex<double>> const& p, unsigned prec);     // multiprecision values
std::string str(ref::C const& c);
} // namespace b2
