// Working precision: histories of precision changes, at points using every digit of the working precision.
#include "world.hpp"
#include "polygen.hpp"
#include "bertini2/system/slice.hpp"
#include "bertini2/system/start_systems.hpp"
using namespace b2; using namespace pbt; using ref::C; using ref::R; using Cd = std::complex<double>; using MP = mpfr_complex; using VM = bertini::Vec<MP>;
namespace {
R tail(Gen& g) { R r(0), sc(1); for (int i = 0; i < 25; ++i) { sc /= R(1e9); r += sc * R((unsigned long)g.below(1000000000)); } return r; }
// a number using all digits of precision p
C full(Gen& g, Cd const& base, unsigned p) { if (base == 0.) return C(0); R a = R(base.real()) * (R(1) + tail(g) / 8), b = R(base.imag()) * (R(1) + tail(g) / 8); return up(down(C(a, b), p)); }
std::vector<C> fulls(Gen& g, std::vector<Cd> const& b, unsigned p) { std::vector<C> r; for (auto& z : b) r.push_back(full(g, z, p)); return r; }
VM vecm(std::vector<C> const& c, unsigned p) { VM v(c.size()); for (size_t i = 0; i < c.size(); ++i) v(i) = down(c[i], p); return v; }
bertini::Vec<dbl> vecd(std::vector<Cd> const& c) { return vec<dbl>(c, 16); }
std::string pr(unsigned p) { return " @" + std::to_string(p); }
Gen* cur = nullptr;
void judge(MP const& got, C const& want, R const& tol, unsigned p, std::string const& what) { Gen& g = *cur; PBT_CHECK(prec_of(got) == p, what << " carries precision " << prec_of(got) << " at working precision " << p); PBT_CHECK(ref::close(up(got), want, tol), what << " is " << str(up(got)) << ", expected " << str(want) << ", off by " << ref::mag(C(up(got) - want)).str(3) << ", tolerance " << tol.str(3)); }
void judge_d(dbl const& got, C const& want, R const& tol, std::string const& what) { Gen& g = *cur; PBT_CHECK(ref::close(up(got), want, tol), what << " is " << str(up(got)) << " in double precision, expected " << str(want)); }
R bound(unsigned p, R const& e, C const& v) { R u = eps_of(p); return u * R(20000) * (e + ref::mag(v)) + u * u * R(1e12); }
R bound_d(R const& e, C const& v) { R u = eps_dbl(); return u * R(20000) * (e + ref::mag(v)) + u * u * R(1e12); }
std::vector<std::vector<C>> coefs(bertini::Patch const& q, std::vector<unsigned> const& sizes) { bertini::Patch p(q); auto old = bertini::DefaultPrecision(); set_prec(260); p.Precision(260); unsigned n = 0; for (auto s : sizes) n += s; VM x(n); for (unsigned i = 0; i < n; ++i) x(i) = MP(0); auto J = p.Jacobian(x); std::vector<std::vector<C>> c; unsigned at = 0; for (size_t k = 0; k < sizes.size(); ++k) { c.emplace_back(); for (unsigned j = 0; j < sizes[k]; ++j) c.back().push_back(up(J(k, at++))); } set_prec(old); return c; }
unsigned other(Gen& g, unsigned p) { for (;;) { unsigned q = some_prec(g); if (q != p || g.chance(15)) return q; } }

// a system evaluated at full-length points, against the reference
struct Full { World& w; Gen& g; std::vector<std::vector<C>> pc; int low = 0, seen = 0;
	Full(World& w_) : w(w_), g(w_.g) { if (w.patched) { std::vector<unsigned> sz; for (auto& c : w.patch_cols) sz.push_back(c.size()); pc = coefs(w.b.sys.GetPatch(), sz); } }
	void call(bertini::System const& sys, unsigned p, std::string const& who) {
		auto base = w.fresh(); auto c = fulls(g, base, p); std::vector<ref::Val> v; for (auto& e : w.f) { v.push_back(ref::eval(e, c)); if (v.back().bad) return; }
		std::vector<C> xs; for (int k : w.order) xs.push_back(c[k]); VM x = vecm(xs, p); MP t = down(c.size() > size_t(w.s.nv) ? c[w.s.nv] : C(0), p); bool path = w.s.path; int what = g.below(path ? 3 : 2), form = g.below(4); std::string how = who + (what == 0 ? "values" : what == 1 ? "Jacobian" : "time derivative") + pr(p) + ": "; g.note(how + std::to_string(form)); size_t nf = w.f.size(), np = pc.size();
		if (form >= 2) { if (path) { if (form == 2) sys.SetAndReset(x, t); else { sys.SetPathVariable(t); sys.SetVariables(x); } } else { if (form == 2) sys.SetAndReset(x); else sys.SetVariables(x); } }
		if (what == 0 || what == 2) { VM r; if (what == 0) { if (form == 0) r = path ? sys.Eval(x, t) : sys.Eval(x); else if (form == 1) { r.resize(nf + np); for (size_t i = 0; i < nf + np; ++i) r(i) = lift({7, 1}, p); if (path) sys.EvalInPlace(r, x, t); else sys.EvalInPlace(r, x); } else r = sys.Eval<MP>(); } else { if (form == 0) r = sys.TimeDerivative(x, t); else if (form == 1) { r.resize(nf + np); for (size_t i = 0; i < nf + np; ++i) r(i) = lift({7, 1}, p); sys.TimeDerivativeInPlace(r, x, t); } else r = sys.TimeDerivative<MP>(); }
			PBT_CHECK(r.size() == long(nf + np), how << "size " << r.size()); for (size_t i = 0; i < nf; ++i) { C want = what == 0 ? v[i].v : v[i].d[w.s.nv]; R e = what == 0 ? v[i].e : v[i].de[w.s.nv]; judge(r(i), want, bound(p, e, want), p, how + "entry " + std::to_string(i)); }
			for (size_t k = 0; k < np; ++k) { C s(what == 0 ? -1 : 0); R m(1); if (what == 0) for (size_t j = 0; j < pc[k].size(); ++j) { C q = pc[k][j] * xs[w.patch_cols[k][j]]; s += q; m += ref::mag(q); } judge(r(nf + k), s, eps_of(p) * 50 * m, p, how + "patch " + std::to_string(k)); } }
		else { bertini::Mat<MP> J; if (form == 0) J = path ? sys.Jacobian(x, t) : sys.Jacobian(x); else if (form == 1) { J.resize(nf + np, xs.size()); for (long i = 0; i < J.rows(); ++i) for (long j = 0; j < J.cols(); ++j) J(i, j) = lift({3, 1}, p); if (path) sys.JacobianInPlace(J, x, t); else sys.JacobianInPlace(J, x); } else J = sys.Jacobian<MP>();
			PBT_CHECK(J.rows() == long(nf + np) && J.cols() == long(xs.size()), how << "size"); for (size_t i = 0; i < nf; ++i) for (size_t j = 0; j < xs.size(); ++j) { auto& d = v[i].d[w.order[j]]; judge(J(i, j), d, bound(p, v[i].de[w.order[j]], d), p, how + "entry " + std::to_string(i) + "," + std::to_string(j)); }
			for (size_t k = 0; k < np; ++k) for (size_t j = 0; j < xs.size(); ++j) { C want(0); for (size_t q = 0; q < pc[k].size(); ++q) if (w.patch_cols[k][q] == int(j)) want = pc[k][q]; judge(J(nf + k, j), want, eps_of(p) * 4 * ref::mag(want), p, how + "patch " + std::to_string(k)); } }
		++seen; }
};
void systems(Gen& g) { cur = &g;
	SysCfg c; c.maxv = 4; c.depth = 3; c.poly = g.chance(60); auto s = gen_spec(g, c); unsigned p = some_prec(g); set_prec(p); Built b0 = build(g, s); g.note(s.show() + "\nbuilt" + pr(p)); World w(g, s, std::move(b0)); w.prec = p; auto& sys = w.b.sys;
	bool assume = g.chance(20); if (assume) { sys.PleaseAssumeUniformPrecision(); g.label("assuming uniform precision"); }
	if (g.chance(60)) w.configure(false); if (c.poly && g.chance(50)) { w.homog(); if (g.chance(75)) w.patch(); }
	Full f(w); int n = g.range(2, 6), ups = 0; unsigned lowest = p;
	auto probe = [&] { for (int k = g.range(1, 2); k > 0; --k) { if (g.chance(25)) w.call<dbl>(); f.call(sys, w.prec, ""); } };
	if (g.chance(70)) probe();
	for (int i = 0; i < n; ++i) { unsigned q = other(g, w.prec); if (!g.chance(85)) q = w.prec; lowest = std::min(lowest, q); if (q > lowest) ++ups; w.prec = q; set_prec(q);
		if (!assume && g.chance(15)) { // a system sharing the expressions goes elsewhere and back
			unsigned o = some_prec(g); bertini::System cp(sys); set_prec(o); g.note("copy to " + std::to_string(o)); cp.precision(o); if (g.chance(60)) f.call(cp, o, "copy: "); set_prec(q); g.label("copy moved"); }
		if (g.chance(15)) { bertini::System cl = Clone(sys); g.note("clone moved"); set_prec(q); cl.precision(q); f.call(cl, q, "clone: "); unsigned o = some_prec(g); set_prec(o); cl.precision(o); f.call(cl, o, "clone: "); set_prec(q); g.label("clone"); }
		sys.precision(q); g.note("precision " + std::to_string(q)); w.hm.x = w.hm.t = false; PBT_CHECK(sys.precision() == q, "system reports precision " << sys.precision() << ", set to " << q);
		if (g.chance(15)) w.configure(true); if (g.chance(10)) sys.Differentiate(), w.forget();
		if (g.chance(80)) probe(); }
	f.call(sys, w.prec, "");
	if (f.seen >= 2) g.nontrivial(); if (ups) g.label("down and up"); if (w.patched) g.label("patched");
}
// the parts of a homotopy share variables; each is moved before it is used
void family(Gen& g) { cur = &g;
	SysSpec s; int ng = g.chance(60) ? 1 : 2; std::vector<std::vector<int>> t; bool hom = g.chance(70); for (int k = 0; k < ng; ++k) { std::vector<int> v; int sz = g.range(1, ng == 1 ? 3 : 2); for (int i = 0; i < sz; ++i) v.push_back(s.nv++); s.groups.push_back({SysSpec::Affine, v}); }
	for (int i = 0; i < s.nv; ++i) { std::vector<int> d; for (int k = 0; k < ng; ++k) d.push_back(g.range(1, ng == 1 ? 4 : 2)); t.push_back(d); } fill_functions(g, s, t);
	unsigned p = some_prec(g); set_prec(p); Built b0 = build(g, s); World w(g, s, std::move(b0)); w.prec = p; if (hom) { w.homog(); w.patch(); if (!w.patched) discard("degree"); } g.note(s.show() + "\nbuilt" + pr(p)); auto& target = w.b.sys; Full f(w);
	bool td = ng == 1 && g.chance(60); bertini::System* start; std::unique_ptr<bertini::start_system::TotalDegree> T; std::unique_ptr<bertini::start_system::MHomogeneous> M;
	if (td) { T = std::make_unique<bertini::start_system::TotalDegree>(target); start = T.get(); } else { M = std::make_unique<bertini::start_system::MHomogeneous>(target); start = M.get(); } g.label(td ? "total degree" : "multihomogeneous");
	auto tv = bertini::node::Variable::Make("tt"); ref::Q gr(g.range(1, 9), 7), gi(g.range(-9, 9), 11); auto gam = bertini::node::Rational::Make(mpq_rational(mpz_int(boost::multiprecision::numerator(gr).str()), mpz_int(boost::multiprecision::denominator(gr).str())), mpq_rational(mpz_int(boost::multiprecision::numerator(gi).str()), mpz_int(boost::multiprecision::denominator(gi).str()))); C gamma(ref::toR(gr), ref::toR(gi));
	bertini::System H = (1 - tv) * target + gam * tv * *start; H.AddPathVariable(tv); for (auto q : {&target, start, &H}) { if (g.chance(30)) q->SetEvalMethod(EvalMethod::FunctionTree); if (g.chance(20)) q->SetDerivMethod(DerivMethod::JacobianNode); }
	int nn = w.order.size(), nf = s.f.size(), np = f.pc.size(), off = hom ? 1 : 0; std::vector<C> rv; if (td) { set_prec(260); target.precision(260); start->precision(260); for (int i = 0; i < nf; ++i) rv.push_back(up(T->RandomValue<MP>(i))); g.note("random values read @260"); g.label("learnt"); set_prec(p); start->precision(p); target.precision(p); H.precision(p); }
	auto fresh = [&](unsigned q) { return fulls(g, w.fresh(), q); };
	// value of the start system: closed form for total degree ones, otherwise its own value at 260 digits
	struct SV { std::vector<C> v; std::vector<R> e; std::vector<std::vector<C>> d; std::vector<std::vector<R>> de; bool ok = true; };
	auto startval = [&](std::vector<C> const& x) { SV r; if (td) { for (int i = 0; i < nf; ++i) { auto dg = t[i][0]; C a(1), h(1), a1(1); for (int k = 0; k < dg; ++k) { a1 = a; a *= x[i + off]; } C h1(0); if (hom) { h1 = C(1); for (int k = 0; k < dg; ++k) { if (k + 1 == dg) h1 = h; h *= x[0]; } } r.v.push_back(a - rv[i] * h); r.e.push_back(ref::mag(a) * dg + ref::mag(rv[i] * h) * (dg + 1)); std::vector<C> dd(nn, C(0)); std::vector<R> ee(nn, R(0)); dd[i + off] = a1 * C(dg); ee[i + off] = ref::mag(dd[i + off]) * dg; if (hom) { dd[0] = -rv[i] * h1 * C(dg); ee[0] = ref::mag(dd[0]) * dg; } r.d.push_back(dd); r.de.push_back(ee); } }
		else { auto old = bertini::DefaultPrecision(); set_prec(260); start->precision(260); auto X = vecm(x, 260); auto F = start->Eval(X); auto J = start->Jacobian(X); for (int i = 0; i < nf; ++i) { r.v.push_back(up(F(i))); R e = ref::mag(r.v[i]); std::vector<C> dd; std::vector<R> ee; R dm(0); for (int j = 0; j < nn; ++j) { C z = up(J(i, j)); dd.push_back(z); e += ref::mag(z) * ref::mag(x[j]); dm = std::max(dm, ref::mag(z)); } r.e.push_back(e * 1000); R xm(1); for (auto& z : x) xm = std::max(xm, ref::mag(z)); for (int j = 0; j < nn; ++j) { ee.push_back((dm + e) * xm * 1000); } r.d.push_back(dd); r.de.push_back(ee); } set_prec(old); start->precision(old); }
		return r; };
	int n = g.range(2, 6), seen = 0, ups = 0; unsigned last = p, lowest = p; std::map<int, unsigned> at;
	for (int i = 0; i < n; ++i) { unsigned q = other(g, last); lowest = std::min(lowest, q); if (q > lowest) ++ups; last = q; set_prec(q); for (int k = g.range(1, 3); k > 0; --k) {
			int who = g.below(4); std::string nm = who == 0 ? "target" : who == 1 ? "start" : who == 2 ? "homotopy" : "start point"; g.note(nm + " to " + std::to_string(q)); 
			if (who == 0) { target.precision(q); f.call(target, q, "target: "); ++seen; continue; }
			auto c = fresh(q); std::vector<C> x; for (int v : w.order) x.push_back(c[v]);
			if (who == 3) { if (td) { start->precision(q); auto cnt = T->NumStartPoints(); auto idx = g.below(cnt); auto z = T->StartPoint<MP>(idx); auto zd = T->StartPoint<dbl>(idx); std::vector<C> a; for (long j = 0; j < z.size(); ++j) { PBT_CHECK(prec_of(z(j)) == q, "start point carries precision " << prec_of(z(j)) << " at working precision " << q); a.push_back(up(z(j))); PBT_CHECK(ref::close(up(zd(j)), a[j], R(1e-9) * (1 + ref::mag(a[j]))), "double start point differs"); }
					for (int j = 0; j < nf; ++j) { C v = hom ? C(a[j + 1] / a[0]) : a[j], pw(1); for (int e = 0; e < t[j][0]; ++e) pw *= v; PBT_CHECK(ref::close(pw, rv[j], eps_of(q) * 400 * t[j][0] * (1 + ref::mag(rv[j]))), "coordinate " << j << " of start point " << idx << " is off by " << ref::mag(C(pw - rv[j])).str(3) << " at precision " << q); }
					if (np) { C sum(-1); R m(1); for (int j = 0; j < nn; ++j) { sum += f.pc[0][j] * a[j]; m += ref::mag(C(f.pc[0][j] * a[j])); } PBT_CHECK(ref::mag(sum) <= eps_of(q) * 200 * m, "start point misses the patch by " << ref::mag(sum).str(3) << " at precision " << q); } ++seen; }
				else { start->precision(q); auto cnt = M->NumStartPoints(); if (!cnt) continue; auto idx = g.below(cnt); auto z = M->StartPoint<MP>(idx); std::vector<C> a; R xm(1); for (long j = 0; j < z.size(); ++j) { PBT_CHECK(prec_of(z(j)) == q, "start point carries precision " << prec_of(z(j)) << " at working precision " << q); a.push_back(up(z(j))); xm = std::max(xm, ref::mag(a[j])); }
					// a Newton step at 260 digits measures the distance to the root
					set_prec(260); start->precision(260); auto X = vecm(a, 260); auto F = start->Eval(X); auto J = start->Jacobian(X); std::vector<std::vector<C>> A; std::vector<C> rhs, dx(nn); for (int r = 0; r < nn; ++r) { A.emplace_back(); for (int cc = 0; cc < nn; ++cc) A[r].push_back(up(J(r, cc))); rhs.push_back(up(F(r))); }
					R ja(0); for (auto& r : A) for (auto& e : r) ja = std::max(ja, ref::mag(e)); bool sing = false; std::vector<std::vector<C>> I(nn, std::vector<C>(nn, C(0))); for (int r = 0; r < nn; ++r) I[r][r] = C(1); for (int cc = 0; cc < nn && !sing; ++cc) { int pv = cc; for (int r = cc; r < nn; ++r) if (ref::mag(A[r][cc]) > ref::mag(A[pv][cc])) pv = r; if (ref::mag(A[pv][cc]) < R(1e-8)) { sing = true; break; } std::swap(A[pv], A[cc]); std::swap(I[pv], I[cc]); std::swap(rhs[pv], rhs[cc]); for (int r = 0; r < nn; ++r) if (r != cc) { C m = A[r][cc] / A[cc][cc]; for (int k2 = 0; k2 < nn; ++k2) { A[r][k2] -= m * A[cc][k2]; I[r][k2] -= m * I[cc][k2]; } rhs[r] -= m * rhs[cc]; } }
					if (!sing) { R inv(0), st(0); for (int r = 0; r < nn; ++r) { R sm(0); for (int k2 = 0; k2 < nn; ++k2) sm += ref::mag(C(I[r][k2] / A[r][r])); inv = std::max(inv, sm); st = std::max(st, ref::mag(C(rhs[r] / A[r][r]))); } R cond = inv * ja * nn; if (cond < R(1e6)) { g.label("multihomogeneous start point"); PBT_CHECK(st <= eps_of(q) * 10000 * cond * cond * xm, "start point " << idx << " is off by " << st.str(3) << " at precision " << q << ", condition " << cond.str(3)); ++seen; } } set_prec(q); start->precision(q); }
				continue; }
			SV sv = startval(x); auto X = vecm(x, q);
			if (who == 1) { start->precision(q); bool jac = g.chance(50); g.note(jac ? "Jacobian" : "values"); if (!jac) { VM r = start->Eval(X); PBT_CHECK(r.size() == nf + np, "size"); for (int j = 0; j < nf; ++j) judge(r(j), sv.v[j], bound(q, sv.e[j], sv.v[j]), q, "start function " + std::to_string(j)); } else { auto J = start->Jacobian(X); for (int j = 0; j < nf; ++j) for (int k2 = 0; k2 < nn; ++k2) judge(J(j, k2), sv.d[j][k2], bound(q, sv.de[j][k2], sv.d[j][k2]), q, "start derivative " + std::to_string(j) + "," + std::to_string(k2)); } ++seen; continue; }
			std::vector<ref::Val> v; bool bad = false; for (auto& e : w.f) { v.push_back(ref::eval(e, c)); bad |= v.back().bad; } if (bad) continue; C tm = full(g, Cd(g.range(1, 15) / 16., g.small_int(3) / 8.), q); MP tt = down(tm, q); C om = C(1) - tm; R mt = ref::mag(tm), mo = R(1) + mt; R gm = ref::mag(gamma); H.precision(q); int what = g.below(3); g.note(what == 0 ? "values" : what == 1 ? "Jacobian" : "time derivative");
			if (what == 0) { VM r = H.Eval(X, tt); for (int j = 0; j < nf; ++j) { C want = om * v[j].v + gamma * tm * sv.v[j]; judge(r(j), want, bound(q, mo * (v[j].e + ref::mag(v[j].v)) + gm * mt * (sv.e[j] + ref::mag(sv.v[j])), want), q, "homotopy function " + std::to_string(j)); } for (int k2 = 0; k2 < np; ++k2) { C sum(-1); R m(1); for (size_t j = 0; j < f.pc[k2].size(); ++j) { C z = f.pc[k2][j] * x[w.patch_cols[k2][j]]; sum += z; m += ref::mag(z); } judge(r(nf + k2), sum, eps_of(q) * 50 * m, q, "homotopy patch"); } }
			if (what == 1) { auto J = H.Jacobian(X, tt); for (int j = 0; j < nf; ++j) for (int k2 = 0; k2 < nn; ++k2) { C a = v[j].d[w.order[k2]], want = om * a + gamma * tm * sv.d[j][k2]; judge(J(j, k2), want, bound(q, mo * (v[j].de[w.order[k2]] + ref::mag(a)) + gm * mt * (sv.de[j][k2] + ref::mag(sv.d[j][k2])), want), q, "homotopy derivative " + std::to_string(j) + "," + std::to_string(k2)); } }
			if (what == 2) { VM r = H.TimeDerivative(X, tt); for (int j = 0; j < nf; ++j) { C want = gamma * sv.v[j] - v[j].v; judge(r(j), want, bound(q, (v[j].e + ref::mag(v[j].v)) * mo + gm * (1 + mt) * (sv.e[j] + ref::mag(sv.v[j])), want), q, "homotopy time derivative " + std::to_string(j)); } }
			++seen; } }
	if (seen >= 2) g.nontrivial(); if (ups) g.label("down and up");
}
void patches(Gen& g) { cur = &g;
	unsigned p = some_prec(g); set_prec(p); std::vector<unsigned> sz; int ng = g.range(1, 3); unsigned n = 0; for (int i = 0; i < ng; ++i) { sz.push_back(g.range(1, 4)); n += sz.back(); } bool real = g.chance(30); bertini::Patch a = real ? bertini::Patch::RandomReal(sz) : g.chance(50) ? bertini::Patch::Random(sz) : bertini::Patch(sz); auto c = coefs(a, sz); std::ostringstream o; for (auto s : sz) o << s << " "; g.note("patch of " + o.str() + pr(p)); int steps = g.range(2, 6), ups = 0; unsigned low = p, q = p;
	for (int i = 0; i <= steps; ++i) { if (i) { q = other(g, q); set_prec(q); a.Precision(q); g.note("precision " + std::to_string(q)); PBT_CHECK(a.Precision() == q, "reports precision " << a.Precision()); if (q > low) ++ups; low = std::min(low, q); if (g.chance(20)) { bertini::Patch b(a); a = b; g.note("copied"); } }
		std::vector<C> x; for (unsigned k = 0; k < n; ++k) x.push_back(full(g, unitish(g), q)); auto X = vecm(x, q); auto f = a.Eval(X); auto J = a.Jacobian(X); unsigned at = 0; std::vector<C> dot; std::vector<R> mg; for (int k = 0; k < ng; ++k) { C s(-1); R m(1); for (unsigned j = 0; j < sz[k]; ++j) { C z = c[k][j] * x[at + j]; s += z; m += ref::mag(z); judge(J(k, at + j), c[k][j], eps_of(q) * 4 * ref::mag(c[k][j]), q, "coefficient"); } judge(f(k), s, eps_of(q) * 50 * m, q, "patch value"); dot.push_back(s + C(1)); mg.push_back(m); at += sz[k]; }
		auto Y = a.RescalePoint(X); at = 0; for (int k = 0; k < ng; ++k) { for (unsigned j = 0; j < sz[k]; ++j, ++at) { if (ref::mag(dot[k]) < R(1e-6) * mg[k]) continue; C want = x[at] / dot[k]; judge(Y(at), want, eps_of(q) * 200 * ref::mag(want) * (mg[k] / ref::mag(dot[k])), q, "rescaled coordinate " + std::to_string(at)); } } g.nontrivial(); }
	if (ups) g.label("down and up");
}
void slices(Gen& g) { cur = &g;
	using bertini::LinearSlice; unsigned p = some_prec(g); set_prec(p); unsigned n = g.range(1, 5), d = g.range(1, 4); bool hom = g.chance(40), orth = g.chance(50), real = g.chance(40); auto v = make_vars(n); bertini::VariableGroup vg(v.begin(), v.end()); LinearSlice s = real ? LinearSlice::RandomReal(vg, d, hom, orth) : LinearSlice::RandomComplex(vg, d, hom, orth); std::ostringstream o; o << d << " of " << n << (hom ? " hom" : "") << (orth ? " orth" : "") << (real ? " real" : "") << pr(p); g.note(o.str());
	std::vector<std::vector<C>> A(d, std::vector<C>(n)); std::vector<C> k(d, C(0)); { LinearSlice h(s); set_prec(260); h.Precision(260); VM z(n); for (unsigned i = 0; i < n; ++i) z(i) = MP(0); bertini::Mat<MP> Z = z; auto J = h.Jacobian(Z); auto F = h.Eval(z); for (unsigned i = 0; i < d; ++i) { k[i] = up(F(i)); for (unsigned j = 0; j < n; ++j) A[i][j] = up(J(i, j)); } set_prec(p); }
	int steps = g.range(2, 6), ups = 0; unsigned low = p, q = p; for (int i = 0; i <= steps; ++i) { if (i) { q = other(g, q); set_prec(q); s.Precision(q); g.note("precision " + std::to_string(q)); PBT_CHECK(s.Precision() == q, "reports precision " << s.Precision()); if (q > low) ++ups; low = std::min(low, q); if (g.chance(20)) { LinearSlice b(s); s = b; g.note("copied"); } }
		std::vector<C> x; for (unsigned j = 0; j < n; ++j) x.push_back(full(g, unitish(g), q)); auto X = vecm(x, q); bertini::Mat<MP> XM = X; VM f = s.Eval(X); bertini::Mat<MP> J = s.Jacobian(XM); for (unsigned r = 0; r < d; ++r) { C sum = k[r]; R m = ref::mag(sum) + 1; for (unsigned j = 0; j < n; ++j) { C z = A[r][j] * x[j]; sum += z; m += ref::mag(z); judge(J(r, j), A[r][j], eps_of(q) * 4 * (ref::mag(A[r][j]) + eps_of(q)), q, "coefficient"); } judge(f(r), sum, eps_of(q) * 50 * m, q, "slice value"); } g.nontrivial(); }
	if (ups) g.label("down and up");
}
void exprs(Gen& g) { cur = &g; // expressions, their derivatives, and linear products
	int nv = g.range(1, 4); ref::GenCfg c; c.nvars = nv; c.depth = 4; c.poly = g.chance(30); c.funcs = true; ref::ExprGen eg(g, c); auto e = eg.gen(4); unsigned p = some_prec(g); set_prec(p); auto vars = make_vars(nv); Builder B(g, vars); auto top = B.build(e); g.note(ref::show(e) + pr(p)); std::vector<NodeP> D; bool late = g.chance(50); int dv = g.below(nv);
	NodeP dn = nullptr; if (!late) dn = top->Differentiate(vars[dv]);
	int steps = g.range(2, 6), ups = 0, seen = 0; unsigned low = p, q = p; for (int i = 0; i <= steps; ++i) { if (i) { q = other(g, q); set_prec(q); top->precision(q); for (auto& v : vars) v->precision(q); if (dn) dn->precision(q); g.note("precision " + std::to_string(q)); if (q > low) ++ups; low = std::min(low, q); }
		if (late && i == 1) dn = top->Differentiate(vars[dv]); std::vector<Cd> b = ref::point(g, nv); auto x = fulls(g, b, q); auto v = ref::eval(e, x); for (int j = 0; j < nv; ++j) vars[j]->set_current_value<MP>(down(x[j], q)); top->Reset(); if (v.bad) continue; 
		MP z; if (g.chance(50)) z = top->Eval<MP>(); else top->EvalInPlace<MP>(z); judge(z, v.v, bound(q, v.e, v.v), q, "value"); if (dn) { dn->Reset(); auto y = dn->Eval<MP>(); judge(y, v.d[dv], bound(q, v.de[dv], v.d[dv]), q, "derivative by x" + std::to_string(dv)); } ++seen; 
		if (g.chance(30)) { for (int j = 0; j < nv; ++j) vars[j]->set_current_value<dbl>(b[j]); top->Reset(); auto w = ref::eval(e, ref::lift(b)); if (!w.bad) judge_d(top->Eval<dbl>(), w.v, bound_d(w.e, w.v), "value"); } }
	if (seen >= 2 && e->size >= 3) g.nontrivial(); if (ups) g.label("down and up");
}
void user(Gen& g) { cur = &g; // start systems made of supplied points
	SysSpec s; int n = g.range(1, 3); s.nv = n; std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); s.groups.push_back({SysSpec::Affine, v}); std::vector<std::vector<int>> t(n, {2}); fill_functions(g, s, t); unsigned p = some_prec(g); set_prec(p); Built b = build(g, s); int m = g.range(1, 4); std::vector<std::vector<C>> pts; bertini::SampCont<MP> z; for (int i = 0; i < m; ++i) { auto x = fulls(g, ref::point(g, n), p); pts.push_back(x); z.push_back(vecm(x, p)); } bertini::start_system::User U(b.sys, z); g.note(s.show() + pr(p));
	unsigned q = p; for (int i = g.range(1, 5); i >= 0; --i) { int k = g.below(m); auto x = U.StartPoint<MP>(k); auto d = U.StartPoint<dbl>(k); for (int j = 0; j < n; ++j) { PBT_CHECK(prec_of(x(j)) == q, "supplied point carries precision " << prec_of(x(j)) << " at working precision " << q); PBT_CHECK(ref::close(up(x(j)), pts[k][j], eps_of(std::min(p, q)) * 2 * ref::mag(pts[k][j])), "coordinate " << j << " of supplied point is " << str(up(x(j))) << ", was " << str(pts[k][j]) << " to " << std::min(p, q) << " digits"); PBT_CHECK(ref::close(up(d(j)), pts[k][j], eps_dbl() * 2 * ref::mag(pts[k][j])), "double coordinate"); } q = other(g, q); set_prec(q); U.precision(q); g.note("precision " + std::to_string(q)); } g.nontrivial();
}
}
int main(int argc, char** argv) {
	Suite s; s.property = "P09"; s.assumptions = {"The default precision is set first, then the object's (the library's convention); objects sharing variables are moved before they are used.", "Floating-point literals keep the digits they were built with; those generated are exact in double precision."};
	s.subs = {
		{"systems", "generated systems (all group kinds, path variable, homogenized, patched, all methods) through 2-6 precision changes between 16 and 190 digits, with copies and clones moved in between; values, Jacobians, time derivatives at points using every digit; non-trivial: at least two comparisons.", 5000, 60000, systems},
		{"family", "targets, their total degree or multihomogeneous start systems and the homotopy joining them, moved one at a time; values, derivatives and start points; non-trivial: at least two comparisons.", 2500, 30000, family},
		{"patches", "patches through 2-6 changes: coefficients, values, rescaled points; all non-trivial.", 3000, 30000, patches},
		{"slices", "linear slices of all kinds through 2-6 changes; all non-trivial.", 1500, 15000, slices},
		{"expressions", "expression DAGs and their derivatives through 2-6 changes; non-trivial: two usable points and size at least 3.", 5000, 60000, exprs},
		{"user", "start systems made of supplied points.", 800, 8000, user},
	}; return run_main(s, argc, argv);
}
