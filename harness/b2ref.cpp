#include "b2ref.hpp"
namespace b2 {
using namespace bertini; using namespace bertini::node;
void set_prec(unsigned p) { bertini::DefaultPrecision(p); }
mpfr_complex lift(dbl const& z, unsigned prec) { mpfr_float r(z.real()), i(z.imag()); r.precision(prec); i.precision(prec); r = z.real(); i = z.imag(); mpfr_complex c(r, i); c.precision(prec); return c; }
mpfr_complex down(ref::C const& z, unsigned prec) { mpfr_float r, i; r.precision(prec); i.precision(prec); ref::R a(z.real()), b(z.imag()); r.assign(a); i.assign(b); r.precision(prec); i.precision(prec); mpfr_complex c(r, i); c.precision(prec); return c; }
unsigned some_prec(pbt::Gen& g) { static const unsigned p[] = {16, 17, 20, 30, 31, 40, 50, 60, 77, 100, 128, 150, 190}; return p[g.below(13)]; }
std::vector<VarP> make_vars(int n, std::string const& stem) { std::vector<VarP> v; for (int i = 0; i < n; ++i) v.push_back(Variable::Make(stem + std::to_string(i))); return v; }
void set_point(std::vector<VarP> const& v, std::vector<std::complex<double>> const& p) { for (size_t i = 0; i < v.size(); ++i) v[i]->set_current_value<dbl>(p[i]); }
void set_point(std::vector<VarP> const& v, std::vector<std::complex<double>> const& p, unsigned prec) { for (size_t i = 0; i < v.size(); ++i) v[i]->set_current_value<mpfr_complex>(lift(p[i], prec)); }
std::string str(ref::C const& c) { std::ostringstream o; o.precision(20); o << "(" << c.real().str(20) << "," << c.imag().str(20) << ")"; return o.str(); }

static mpq_rational q(ref::Q const& x) { return mpq_rational(mpz_int(boost::multiprecision::numerator(x).str()), mpz_int(boost::multiprecision::denominator(x).str())); }
static std::string decimal(ref::Q const& x) { // exact decimal text of k/8
	ref::Q t = x * 1000; std::string s = boost::multiprecision::numerator(t).str(); bool neg = s[0] == '-'; if (neg) s = s.substr(1); while (s.size() < 4) s = "0" + s; return (neg ? "-" : "") + s.substr(0, s.size() - 3) + "." + s.substr(s.size() - 3); }

NodeP Builder::number(ref::P const& e) {
	int style = vary ? g.below(3) : 0;
	if (e->numkind == 0) { mpz_int z(boost::multiprecision::numerator(e->re).str()); if (style == 0 && z < 1000000000 && z > -1000000000) return Integer::Make(z.convert_to<int>()); if (style == 1) return Integer::Make(z.str()); return Integer::Make(z); }
	if (e->numkind == 1) { if (style == 1) return Rational::Make(q(e->re).str(), q(e->im).str()); if (style == 2 && e->im == 0) return Rational::Make(q(e->re)); return Rational::Make(q(e->re), q(e->im)); }
	if (style == 1) return e->im == 0 ? Float::Make(decimal(e->re)) : Float::Make(decimal(e->re), decimal(e->im));
	mpfr_float r(e->re.convert_to<double>()), i(e->im.convert_to<double>());
	if (style == 2) return Float::Make(mpfr_complex(r, i));
	return Float::Make(r, i);
}
NodeP Builder::build(ref::P const& e) {
	auto it = memo.find(e.get()); if (it != memo.end()) return it->second;
	keep.push_back(e);
	NodeP r; using ref::Op;
	auto c = [&](int i) { return build(e->ch[i]); };
	auto smallint = [&](ref::P const& x) { return x->op == Op::Num && x->numkind == 0 && x->re < 100000 && x->re > -100000; };
	switch (e->op) {
		case Op::Num: r = number(e); break;
		case Op::Pi: r = Pi(); break; case Op::E: r = E(); break;
		case Op::Var: r = vars.at(e->n); break;
		case Op::Sum: {
			size_t k = e->ch.size(); std::vector<NodeP> n; for (size_t i = 0; i < k; ++i) n.push_back(c(i));
			if (k == 1) { r = SumOperator::Make(n[0], bool(e->pos[0])); break; }
			int style = vary ? g.below(4) : 0;
			if (style == 0) { auto s = SumOperator::Make(n[0], bool(e->pos[0]), n[1], bool(e->pos[1])); for (size_t i = 2; i < k; ++i) { if (e->pos[i]) { if (i % 2) *s += n[i]; else s->AddOperand(n[i]); } else { if (i % 2) *s -= n[i]; else s->AddOperand(n[i], false); } } r = s; break; }
			NodeP a = e->pos[0] ? n[0] : -n[0];
			for (size_t i = 1; i < k; ++i) {
				if (style == 1 && smallint(e->ch[i])) { int v = e->ch[i]->re.convert_to<int>(); a = e->pos[i] ? a + v : a - v; }
				else if (style == 2) { if (e->pos[i]) a += n[i]; else a -= n[i]; }
				else if (style == 3 && e->ch[i]->op == Op::Num && e->ch[i]->numkind == 1 && e->ch[i]->im == 0) { a = e->pos[i] ? a + q(e->ch[i]->re) : a - q(e->ch[i]->re); }
				else a = e->pos[i] ? a + n[i] : a - n[i];
			}
			r = a; break; }
		case Op::Mult: {
			size_t k = e->ch.size(); std::vector<NodeP> n; for (size_t i = 0; i < k; ++i) n.push_back(c(i));
			if (k == 1) { r = MultOperator::Make(n[0]); break; }
			int style = vary ? g.below(4) : 0;
			if (style == 0) { auto s = MultOperator::Make(n[0], bool(e->pos[0]), n[1], bool(e->pos[1])); for (size_t i = 2; i < k; ++i) { if (e->pos[i]) s *= n[i]; else s /= n[i]; } r = s; break; }
			NodeP a = e->pos[0] ? n[0] : 1 / n[0];
			for (size_t i = 1; i < k; ++i) {
				if (style == 1 && smallint(e->ch[i])) { int v = e->ch[i]->re.convert_to<int>(); a = e->pos[i] ? (i % 2 ? a * v : v * a) : a / v; }
				else if (style == 2) { if (e->pos[i]) a *= n[i]; else a /= n[i]; }
				else if (style == 3 && e->ch[i]->op == Op::Num && e->ch[i]->numkind == 2 && e->ch[i]->im == 0) { mpfr_float f(e->ch[i]->re.convert_to<double>()); a = e->pos[i] ? a * f : a / f; }
				else a = e->pos[i] ? a * n[i] : a / n[i];
			}
			r = a; break; }
		case Op::Neg: r = -c(0); break;
		case Op::IntPow: r = pow(c(0), e->n); break;
		case Op::Pow: { NodeP b = c(0), p = c(1); r = pow(b, p); break; }
		case Op::Sqrt: r = sqrt(c(0)); break; case Op::Exp: r = exp(c(0)); break; case Op::Log: r = log(c(0)); break;
		case Op::Sin: r = sin(c(0)); break; case Op::Cos: r = cos(c(0)); break; case Op::Tan: r = tan(c(0)); break;
		case Op::ASin: r = asin(c(0)); break; case Op::ACos: r = acos(c(0)); break; case Op::ATan: r = atan(c(0)); break;
		case Op::Func: r = Function::Make(c(0), "fn" + std::to_string(nfunc++)); break;
	}
	memo[e.get()] = r; return r;
}
} // namespace b2
