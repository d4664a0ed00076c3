// Generated polynomial (and general) systems with variable groups, path variable, subfunctions,
// constants and parameters, their bertini2 counterparts, and the reference values.
#pragma once
#include "b2ref.hpp"
#include "bertini2/system/system.hpp"

namespace b2 {
struct SysSpec {
	enum Kind { Affine, Hom, Ungrouped };
	struct Grp { Kind kind; std::vector<int> v; };
	int nv = 0; bool path = false;
	std::vector<Grp> groups;                 // in the order they are added
	std::vector<ref::P> f;                   // over variables 0..nv-1, and nv = path variable
	std::vector<ref::P> subf, consts, params;// Func nodes appearing in f
	int total() const { return nv + (path ? 1 : 0); }
	std::vector<int> order() const { std::vector<int> r; for (auto& g : groups) for (int v : g.v) r.push_back(v); return r; }
	std::vector<bool> mask(Grp const& g) const { std::vector<bool> s(total()); for (int v : g.v) s[v] = true; return s; }
	std::string show() const;
};
struct SysCfg {
	int minv = 1, maxv = 4, maxf = 3, depth = 3, maxpow = 3;
	bool poly = true;            // polynomial in all variables (not necessarily in time)
	bool hom = true, ungrouped = true, affine = true;
	int path = 2;                // 0 never, 1 always, 2 maybe
	bool square = false;         // one function per variable that a patch does not take care of
	bool time_transcend = true;  // sin(t) etc. may multiply
	bool funcs = true;           // subfunctions, constants, parameters
	int max_groups = 3;
};
SysSpec gen_spec(pbt::Gen& g, SysCfg c);

struct Built { bertini::System sys; std::vector<VarP> vars; VarP t; std::shared_ptr<Builder> b; std::vector<std::shared_ptr<bertini::node::Function>> fn; };
Built build(pbt::Gen& g, SysSpec const& s);
void add_structure(pbt::Gen& g, SysSpec const& s, Built& b);

// reference form after homogenizing: variables are nv natural, [nv = path,] then one homogenizing variable per affine group
struct HomSpec { std::vector<ref::P> f; std::vector<std::vector<int>> deg; /*[function][group]*/ std::vector<int> order; std::vector<int> homvar; /*per group, -1 if none*/ bool ok = true; };
HomSpec homogenize(SysSpec const& s);

template<class T> bertini::Vec<T> vec(std::vector<std::complex<double>> const& p, unsigned prec);
template<> inline bertini::Vec<dbl> vec<dbl>(std::vector<std::complex<double>> const& p, unsigned) { bertini::Vec<dbl> v(p.size()); for (size_t i = 0; i < p.size(); ++i) v(i) = p[i]; return v; }
template<> inline bertini::Vec<mpfr_complex> vec<mpfr_complex>(std::vector<std::complex<double>> const& p, unsigned prec) { bertini::Vec<mpfr_complex> v(p.size()); for (size_t i = 0; i < p.size(); ++i) v(i) = lift(p[i], prec); return v; }
template<class T> T scal(std::complex<double> const& z, unsigned prec);
template<> inline dbl scal<dbl>(std::complex<double> const& z, unsigned) { return z; }
template<> inline mpfr_complex scal<mpfr_complex>(std::complex<double> const& z, unsigned prec) { return lift(z, prec); }
template<class T> ref::R eps_for(unsigned prec);
template<> inline ref::R eps_for<dbl>(unsigned) { return eps_dbl(); }
template<> inline ref::R eps_for<mpfr_complex>(unsigned prec) { return eps_of(prec); }
inline unsigned prec_of(mpfr_complex const& z) { return z.precision(); }
inline unsigned prec_of(dbl const&) { return 16; }
std::complex<double> unitish(pbt::Gen& g); // modulus about 1, exactly representable
} // namespace b2
