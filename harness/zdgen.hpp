// Square polynomial systems whose solutions are all known: products of linear factors, one factor of each function vanishing at every solution.
#pragma once
#include "eggen.hpp"
#include "bertini2/system/start_systems.hpp"
namespace b2 {
struct Zd {
	struct Fac { int grp = 0; std::vector<Cd> a; Cd c; int m = 1; };  // (a.x_grp + c)^m
	SysSpec s; Built b; std::vector<std::vector<Fac>> fac; std::vector<std::vector<int>> deg; std::vector<int> dim; std::vector<std::vector<ref::C>> root; std::vector<int> mult; int paths = 0; bool singular = false; double cond = 1, big = 1, sep = 1e9;
};
inline bool lin_solve(std::vector<std::vector<ref::C>> A, std::vector<ref::C> b, std::vector<ref::C>& x, double& inv) {
	int n = A.size(); std::vector<std::vector<ref::C>> I(n, std::vector<ref::C>(n, ref::C(0))); for (int i = 0; i < n; ++i) I[i][i] = ref::C(1);
	for (int c = 0; c < n; ++c) { int p = c; for (int r = c; r < n; ++r) if (ref::mag(A[r][c]) > ref::mag(A[p][c])) p = r; if (ref::mag(A[p][c]) < ref::R(1e-6)) return false; std::swap(A[p], A[c]); std::swap(I[p], I[c]); std::swap(b[p], b[c]); for (int r = 0; r < n; ++r) if (r != c) { ref::C q = A[r][c] / A[c][c]; for (int k = 0; k < n; ++k) { A[r][k] -= q * A[c][k]; I[r][k] -= q * I[c][k]; } b[r] -= q * b[c]; } }
	x.assign(n, ref::C(0)); ref::R m(0); for (int i = 0; i < n; ++i) { x[i] = b[i] / A[i][i]; ref::R s(0); for (int k = 0; k < n; ++k) s += ref::mag(ref::C(I[i][k] / A[i][i])); m = std::max(m, s); } inv = m.convert_to<double>(); return true; }
struct ZdCfg { int maxgroups = 1; int maxpaths = 8; bool singular = false; int maxmult = 2; bool failing = false; };
inline Zd gen_zd(Gen& g, ZdCfg cf) {
	Zd z; auto& s = z.s; int ng = g.range(1, cf.maxgroups); if (cf.maxgroups > 1 && g.chance(70)) ng = cf.maxgroups; int n = 0; for (int k = 0; k < ng; ++k) { int sz = ng == 1 ? g.range(1, 3) : g.range(1, 2); std::vector<int> v; for (int i = 0; i < sz; ++i) v.push_back(s.nv++); s.groups.push_back({SysSpec::Affine, v}); z.dim.push_back(sz); n += sz; }
	auto coef = [&](int mag, int den) { return Cd(double(g.small_int(mag)) / den, g.chance(40) ? double(g.small_int(mag)) / den : 0.); }; bool common = ng == 1 && g.chance(50); bool any = false; long total = 1;
	for (int i = 0; i < n; ++i) { std::vector<Zd::Fac> fs; std::vector<int> d(ng, 0); std::vector<Cd> a0; int nf = g.range(1, n == 1 ? 5 : 3); if (i < ng && ng > 1) nf = std::max(nf, 1);
		for (int j = 0; j < nf; ++j) { Zd::Fac f; f.grp = j == 0 && i < ng ? i % ng : int(g.below(ng)); int sz = z.dim[f.grp]; f.a.assign(sz, Cd(0)); if (common && j) f.a = a0; else { for (auto& c : f.a) c = coef(4, 4); int lead = i % sz; f.a[lead] += 1. + 0.25 * g.below(4); } if (!j) a0 = f.a; f.c = coef(12, 4); if (cf.singular && g.chance(40) && !(any && cf.maxmult < 3)) { f.m = g.range(2, cf.maxmult); any = true; } d[f.grp] += f.m; fs.push_back(f); }
		int td = 0; for (int x : d) td += x; total *= td; if (total > cf.maxpaths * (ng == 1 ? 1 : 6)) pbt::discard("too many paths"); z.fac.push_back(fs); z.deg.push_back(d); }
	if (cf.singular && !any) { z.fac[0][0].m = 2; z.deg[0][z.fac[0][0].grp]++; } 
	// every choice of one factor per function
	std::vector<int> pick(n, 0); bool more = true; while (more) { std::vector<std::vector<int>> by(ng); for (int i = 0; i < n; ++i) by[z.fac[i][pick[i]].grp].push_back(i); bool fits = true; for (int k = 0; k < ng; ++k) fits &= int(by[k].size()) == z.dim[k];
		// more factors of one group than its dimension must have no common zero
		if (!fits) for (int k = 0; k < ng; ++k) if (int(by[k].size()) > z.dim[k]) { int d = z.dim[k] + 1; std::vector<int> sel(by[k].size(), 0); std::fill(sel.begin(), sel.begin() + d, 1); do { std::vector<std::vector<Cd>> A; for (size_t q = 0; q < by[k].size(); ++q) if (sel[q]) { auto& f = z.fac[by[k][q]][pick[by[k][q]]]; auto r = f.a; r.push_back(f.c); A.push_back(r); } Cd det = d == 2 ? A[0][0] * A[1][1] - A[0][1] * A[1][0] : A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); if (std::abs(det) < 0.3) pbt::discard("solutions not isolated"); } while (std::prev_permutation(sel.begin(), sel.end())); }
		if (fits) { std::vector<ref::C> x(s.nv, ref::C(0)); int m = 1; for (int k = 0; k < ng; ++k) { std::vector<std::vector<ref::C>> A; std::vector<ref::C> b; for (int i : by[k]) { auto& f = z.fac[i][pick[i]]; std::vector<ref::C> r; for (auto& c : f.a) r.push_back(ref::toC(c)); A.push_back(r); b.push_back(-ref::toC(f.c)); } std::vector<ref::C> y; double inv; if (!lin_solve(A, b, y, inv) || inv > 6) pbt::discard("ill-conditioned"); z.cond = std::max(z.cond, inv); for (size_t q = 0; q < y.size(); ++q) x[s.groups[k].v[q]] = y[q]; } for (int i = 0; i < n; ++i) m *= z.fac[i][pick[i]].m; if (m > 1) z.singular = true;
			for (auto& c : x) { double a = ref::mag(c).convert_to<double>(); if (a > 8) pbt::discard("large solutions"); z.big = std::max(z.big, a); } for (auto& o : z.root) { double d = 0; for (size_t i = 0; i < x.size(); ++i) d = std::max(d, ref::mag(ref::C(o[i] - x[i])).convert_to<double>()); z.sep = std::min(z.sep, d); } z.root.push_back(x); z.mult.push_back(m); z.paths += m; }
		more = false; for (int i = 0; i < n; ++i) { if (++pick[i] < int(z.fac[i].size())) { more = true; break; } pick[i] = 0; } }
	std::function<long(std::vector<int>, int)> bez = [&](std::vector<int> left, int i) -> long { if (i == n) return 1; long r = 0; for (int k = 0; k < ng; ++k) if (left[k] && z.deg[i][k]) { --left[k]; r += z.deg[i][k] * bez(left, i + 1); ++left[k]; } return r; }; if (z.sep < 0.3 || z.root.empty() || bez(z.dim, 0) != z.paths) pbt::discard("solutions too close"); if (z.paths > cf.maxpaths) pbt::discard("too many paths");
	for (int k = 0; k < ng; ++k) { int t = 0; for (auto& d : z.deg) t += d[k]; if (!t) pbt::discard("unused group"); }
	std::vector<ref::P> F; std::vector<int> td; for (int i = 0; i < n; ++i) { std::vector<ref::P> ch; int d = 0; for (auto& f : z.fac[i]) { std::vector<ref::P> t; std::vector<bool> ps; for (size_t q = 0; q < f.a.size(); ++q) { if (f.a[q] == 0.) continue; auto v = ref::var(s.groups[f.grp].v[q]); t.push_back(f.a[q] == 1. ? v : ref::mult({cnum(f.a[q]), v}, {true, true})); ps.push_back(true); } if (f.c != 0.) { t.push_back(cnum(f.c)); ps.push_back(true); } auto e = t.size() == 1 ? t[0] : ref::sum(t, ps); ch.push_back(f.m > 1 ? ref::ipow(e, f.m) : e); d += f.m; } F.push_back(ch.size() == 1 ? ch[0] : ref::mult(ch, std::vector<bool>(ch.size(), true))); td.push_back(d); }
	// functions may be mixed with ones of no higher degree without changing solutions here or at infinity
	for (int i = 0; i < n; ++i) { ref::P e = F[i]; if (ng == 1) for (int k = 0; k < i; ++k) if (td[k] <= td[i] && g.chance(40)) { Cd c = Cd(0.25 * g.range(1, 4), g.chance(30) ? 0.5 : 0); e = ref::sum({e, ref::mult({cnum(c), F[k]}, {true, true})}, {true, true}); } s.f.push_back(e); }
	z.b = build(g, s); std::ostringstream o; o << s.show() << "\n  " << z.paths << " paths, " << z.root.size() << " solutions"; g.note(o.str()); g.label(std::to_string(n) + " variables"); g.label(std::to_string(z.paths) + " paths"); return z;
}
} // namespace b2
