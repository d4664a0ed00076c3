// A system together with the model of what it means: calls are compared to the reference.
#pragma once
#include "sysgen.hpp"
#include <set>
namespace b2 {
using pbt::Gen; using ref::Op; using ref::P; using bertini::EvalMethod; using bertini::DerivMethod; using bertini::Vec;
struct World {
	Gen& g; SysSpec s; Built b; std::vector<P> f; std::vector<int> order; std::vector<int> homvar; int nref = 0; unsigned prec = 30;
	bool patched = false, homd = false; std::vector<std::vector<int>> patch_cols; std::vector<std::vector<std::complex<double>>> coef; // learnt from the first double Jacobian
	int impl = -1; std::complex<double> impl_val; VarP implvar;
	struct Held { bool x = false, t = false; std::vector<std::complex<double>> p; } hd, hm;
	int comparisons = 0, configs = 0;
	World(Gen& g_, SysSpec const& s_, Built b_) : g(g_), s(s_), b(std::move(b_)) { f = s.f; order = s.order(); homvar.assign(s.groups.size(), -1); nref = s.total(); }
	void homog() { auto h = homogenize(s); if (!h.ok) return; for (auto& d : h.deg) for (int x : d) if (x > 12) return; b.sys.Homogenize(); f = h.f; order = h.order; homvar = h.homvar; homd = true; for (int v : homvar) nref = std::max(nref, v + 1); g.label("homogenized"); g.note("homogenize"); forget(); }
	void patch() { if (patched) return; bool un = false; for (size_t i = 0; i < s.groups.size(); ++i) { un |= s.groups[i].kind == SysSpec::Ungrouped; if (s.groups[i].kind == SysSpec::Affine && homvar[i] < 0) return; } if (un) return;
		b.sys.AutoPatch(); patched = true; size_t at = 0; for (size_t i = 0; i < s.groups.size(); ++i) { std::vector<int> c; size_t n = s.groups[i].v.size() + (homvar[i] >= 0); for (size_t k = 0; k < n; ++k) c.push_back(at++); patch_cols.push_back(c); } g.label("patched"); g.note("patch"); }
	void forget() { hd.x = hd.t = hm.x = hm.t = false; }
	template<class T> Held& held() { if constexpr (std::is_same<T, dbl>::value) return hd; else return hm; }
	std::vector<std::complex<double>> fresh() { auto p = ref::point(g, nref); for (int v : homvar) if (v >= 0) p[v] = unitish(g); if (impl >= 0) p[impl] = impl_val; return p; }
	template<class T> Vec<T> space(std::vector<std::complex<double>> const& p) { std::vector<std::complex<double>> o; for (int v : order) o.push_back(p[v]); return vec<T>(o, prec); }
	template<class T> T time(std::vector<std::complex<double>> const& p) { return scal<T>(p[s.nv], prec); }

	bool usable(std::vector<std::complex<double>> const& p, std::vector<ref::Val>& out) { auto q = ref::lift(p); for (auto& e : f) { out.push_back(ref::eval(e, q)); if (out.back().bad) { g.label("point rejected"); return false; } } return true; }
	template<class T> ref::R tol(ref::R const& bound, ref::C const& v) { ref::R e = eps_for<T>(prec); return e * ref::R(20000) * (bound + ref::mag(v)) + e * e * ref::R(1e12); }

	template<class T> void check_values(Vec<T> const& r, std::vector<ref::Val> const& v, std::vector<std::complex<double>> const& p, std::string const& how) {
		size_t np = patched ? patch_cols.size() : 0; PBT_CHECK(r.size() == long(f.size() + np), how << "number of values " << r.size());
		for (size_t i = 0; i < f.size(); ++i) { ref::R t = tol<T>(v[i].e, v[i].v); PBT_CHECK(ref::close(up(r(i)), v[i].v, t), how << "function " << i << " has value " << str(up(r(i))) << ", expected " << str(v[i].v) << " tolerance " << t.str(3)); if constexpr (!std::is_same<T, dbl>::value) PBT_CHECK(prec_of(r(i)) == prec, how << "value " << i << " has precision " << prec_of(r(i)) << " in a system of precision " << prec); }
		if (np && !coef.empty()) for (size_t k = 0; k < np; ++k) { ref::C w(-1); ref::R m(1); for (size_t c = 0; c < patch_cols[k].size(); ++c) { auto term = ref::toC(coef[k][c]) * ref::toC(p[order[patch_cols[k][c]]]); w += term; m += ref::mag(term); } PBT_CHECK(ref::close(up(r(f.size() + k)), w, eps_dbl() * 100 * m), how << "patch value " << k << " is " << str(up(r(f.size() + k))) << ", expected " << str(w)); }
		++comparisons; }
	template<class T> void check_jac(Mat<T> const& J, std::vector<ref::Val> const& v, std::string const& how) {
		size_t np = patched ? patch_cols.size() : 0; PBT_CHECK(J.rows() == long(f.size() + np) && J.cols() == long(order.size()), how << "Jacobian is " << J.rows() << "x" << J.cols());
		for (size_t i = 0; i < f.size(); ++i) for (size_t j = 0; j < order.size(); ++j) { auto& d = v[i].d[order[j]]; ref::R t = tol<T>(v[i].de[order[j]], d); PBT_CHECK(ref::close(up(J(i, j)), d, t), how << "d f" << i << " / d x" << order[j] << " (column " << j << ") is " << str(up(J(i, j))) << ", expected " << str(d) << " tolerance " << t.str(3)); if constexpr (!std::is_same<T, dbl>::value) PBT_CHECK(prec_of(J(i, j)) == prec, how << "Jacobian entry (" << i << "," << j << ") has precision " << prec_of(J(i, j)) << " in a system of precision " << prec); }
		for (size_t k = 0; k < np; ++k) { std::set<int> in(patch_cols[k].begin(), patch_cols[k].end()); for (size_t j = 0; j < order.size(); ++j) if (!in.count(j)) PBT_CHECK(ref::mag(up(J(f.size() + k, j))) == 0, how << "patch " << k << " depends on a variable outside of its group (column " << j << ")"); }
		if (np && coef.empty()) { for (size_t k = 0; k < np; ++k) { coef.emplace_back(); for (int c : patch_cols[k]) { auto z = up(J(f.size() + k, c)); coef.back().push_back({z.real().template convert_to<double>(), z.imag().template convert_to<double>()}); } } }
		else for (size_t k = 0; k < np; ++k) for (size_t c = 0; c < patch_cols[k].size(); ++c) PBT_CHECK(ref::close(up(J(f.size() + k, patch_cols[k][c])), ref::toC(coef[k][c]), eps_dbl() * 20 * ref::mag(ref::toC(coef[k][c]))), how << "patch coefficient " << k << "," << c << " changed");
		++comparisons; }
	template<class T> void check_time(Vec<T> const& r, std::vector<ref::Val> const& v, std::string const& how) {
		size_t np = patched ? patch_cols.size() : 0; PBT_CHECK(r.size() == long(f.size() + np), how << "number of time derivatives " << r.size());
		for (size_t i = 0; i < f.size(); ++i) { auto& d = v[i].d[s.nv]; ref::R t = tol<T>(v[i].de[s.nv], d); PBT_CHECK(ref::close(up(r(i)), d, t), how << "d f" << i << "/dt is " << str(up(r(i))) << ", expected " << str(d) << " tolerance " << t.str(3)); if constexpr (!std::is_same<T, dbl>::value) PBT_CHECK(prec_of(r(i)) == prec, how << "time derivative " << i << " has precision " << prec_of(r(i)) << " in a system of precision " << prec); }
		for (size_t k = 0; k < np; ++k) PBT_CHECK(ref::mag(up(r(f.size() + k))) == 0, how << "patch has a time derivative");
		++comparisons; }

	template<class T> void call() {
		auto& sys = b.sys; auto& h = held<T>(); std::string ty = std::is_same<T, dbl>::value ? "double " : "mp ";
		int form = g.below(5); bool inplace = g.chance(50); int what = g.below(s.path ? 3 : 2); size_t rows = f.size() + (patched ? patch_cols.size() : 0);
		auto junkv = [&] { Vec<T> v(rows); for (size_t i = 0; i < rows; ++i) v(i) = scal<T>({7.5, -3}, prec); return v; };
		auto junkm = [&] { Mat<T> m(rows, order.size()); for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < order.size(); ++j) m(i, j) = scal<T>({-4.5, 2}, prec); return m; };
		if (form >= 2) { // stored values
			bool setx = !h.x || g.chance(40), sett = s.path && (!h.t || g.chance(40)); auto p = fresh(); if (h.p.size() != p.size()) { h.p = p; setx = true; sett = s.path; }
			if (setx) for (int v : order) h.p[v] = p[v]; if (sett) h.p[s.nv] = p[s.nv]; if (impl >= 0) h.p[impl] = impl_val;
			std::vector<ref::Val> v; bool ok = usable(h.p, v);
			if (setx || sett) { if (form == 2 && setx && (sett || !s.path)) { if (s.path) sys.SetAndReset(space<T>(h.p), time<T>(h.p)); else sys.SetAndReset(space<T>(h.p)); } else { if (sett && g.chance(50)) { sys.SetPathVariable(time<T>(h.p)); if (setx) sys.SetVariables(space<T>(h.p)); } else { if (setx) sys.SetVariables(space<T>(h.p)); if (sett) sys.SetPathVariable(time<T>(h.p)); } } h.x = true; h.t = s.path; g.note(ty + "set " + ref::show(h.p)); }
			if (!ok) return;
			if (g.chance(15)) sys.Reset();
			std::string how = ty + "from stored values: "; g.note(how + (what == 0 ? "values" : what == 1 ? "Jacobian" : "time derivative"));
			if (what == 0) { Vec<T> r = inplace ? junkv() : Vec<T>(); if (inplace) sys.EvalInPlace(r); else r = sys.template Eval<T>(); check_values<T>(r, v, h.p, how); }
			if (what == 1) { Mat<T> J = inplace ? junkm() : Mat<T>(); if (inplace) sys.JacobianInPlace(J); else J = sys.template Jacobian<T>(); check_jac<T>(J, v, how); }
			if (what == 2) { Vec<T> r = inplace ? junkv() : Vec<T>(); if (inplace) sys.TimeDerivativeInPlace(r); else r = sys.template TimeDerivative<T>(); check_time<T>(r, v, how); }
			return;
		}
		auto p = fresh(); if (h.p.size() == p.size() && g.chance(25)) p = h.p; if (impl >= 0) p[impl] = impl_val; std::vector<ref::Val> v; if (!usable(p, v)) return; auto x = space<T>(p); std::string how = ty + "at point: "; g.note(how + (what == 0 ? "values" : what == 1 ? "Jacobian" : "time derivative") + " at " + ref::show(p)); h.p = p; h.x = true; h.t = s.path;
		if (s.path) { T t = time<T>(p);
			if (what == 0) { Vec<T> r = junkv(); if (inplace) { if (g.chance(30)) sys.EvalInPlace(r, x.head(x.size()), t); else sys.EvalInPlace(r, x, t); } else r = g.chance(30) ? sys.Eval(x.head(x.size()), t) : sys.Eval(x, t); check_values<T>(r, v, p, how); }
			if (what == 1) { Mat<T> J = junkm(); if (inplace) sys.JacobianInPlace(J, x, t); else J = g.chance(30) ? sys.Jacobian(x.head(x.size()), t) : sys.Jacobian(x, t); check_jac<T>(J, v, how); }
			if (what == 2) { Vec<T> r = junkv(); if (inplace) sys.TimeDerivativeInPlace(r, x, t); else r = sys.TimeDerivative(x, t); check_time<T>(r, v, how); }
		} else {
			if (what == 0) { Vec<T> r = junkv(); if (inplace) sys.EvalInPlace(r, x); else r = sys.Eval(x); check_values<T>(r, v, p, how); }
			if (what == 1) { Mat<T> J = junkm(); if (inplace) sys.JacobianInPlace(J, x); else J = sys.Jacobian(x); check_jac<T>(J, v, how); }
		}
	}
	void configure(bool late) {
		auto& sys = b.sys; bool slp = g.chance(50), jn = g.chance(50);
		sys.SetEvalMethod(slp ? EvalMethod::SLP : EvalMethod::FunctionTree); if (late) forget();
		sys.SetDerivMethod(jn ? DerivMethod::JacobianNode : DerivMethod::Derivatives); g.note(std::string("method ") + (slp ? "SLP" : "tree") + (jn ? " Jacobian nodes" : " derivatives")); g.label(slp ? "SLP" : jn ? "tree, Jacobian nodes" : "tree, derivatives"); ++configs; }
};
} // namespace b2
