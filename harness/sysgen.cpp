#include "sysgen.hpp"
namespace b2 {
using namespace pbt; using ref::Op; using ref::P;
std::string SysSpec::show() const {
	std::string r; static const char* k[] = {"affine", "homogeneous", "ungrouped"};
	for (auto& g : groups) { r += std::string(k[g.kind]) + " {"; for (int v : g.v) r += " x" + std::to_string(v); r += " }; "; }
	if (path) r += "path variable x" + std::to_string(nv) + "; ";
	for (size_t i = 0; i < f.size(); ++i) r += "\n  f" + std::to_string(i) + " = " + ref::show(f[i]);
	return r;
}
std::complex<double> unitish(Gen& g) { static const double m[] = {1, 0.75, 1.25, 0.5, 1.5}; double a = m[g.below(5)], b = g.small_int(8) / 8.0; if (g.chance(30)) a = -a; return g.chance(50) ? std::complex<double>(a, b) : std::complex<double>(b, a); }

namespace {
struct Multi {
	Gen& g; SysSpec const& s; ref::ExprGen& eg; std::vector<std::vector<int>> hv; std::vector<int> others; std::map<std::vector<int>, std::vector<P>> pool;
	P free(int depth) { if (others.empty()) return eg.number(); return eg.gen(depth); }
	P gen(std::vector<int> d, int depth) {
		int tot = 0; for (int x : d) tot += x;
		if (tot == 0) return free(depth);
		auto& pl = pool[d]; if (!pl.empty() && g.chance(15)) return pl[g.below(pl.size())];
		P r;
		int c = depth <= 0 ? 1 : int(g.weighted({4, 4, 1, 1, 1}));
		if (c == 2) { bool sq = true; for (int x : d) if (x % 2) sq = false; if (!sq) c = 1; else { auto h = d; for (int& x : h) x /= 2; P b = gen(h, depth - 1); r = g.chance(70) ? ref::ipow(b, 2) : ref::mk(Op::Pow, {b, ref::num(2)}); } }
		if (c == 0) { int k = g.range(2, 3); std::vector<P> ch; std::vector<bool> ps; for (int i = 0; i < k; ++i) { ch.push_back(gen(d, depth - 1)); ps.push_back(!g.chance(35)); } r = ref::sum(ch, ps); }
		if (c == 1) { // split
			std::vector<P> ch; std::vector<bool> ps; 
			if (depth <= 0 || tot == 1 || g.chance(30)) { for (size_t j = 0; j < d.size(); ++j) { int left = d[j]; while (left > 0) { int e = g.range(1, left); P v = ref::var(hv[j][g.below(hv[j].size())]); ch.push_back(e > 1 ? ref::ipow(v, e) : v); ps.push_back(true); left -= e; } } if (g.chance(60)) { ch.push_back(depth > 0 ? free(depth - 1) : eg.number()); ps.push_back(true); } }
			else { auto a = d, b = d; for (size_t j = 0; j < d.size(); ++j) { a[j] = g.range(0, d[j]); b[j] = d[j] - a[j]; } ch = {gen(a, depth - 1), gen(b, depth - 1)}; ps = {true, true}; }
			if (g.chance(10)) { ch.push_back(ref::num(g.range(2, 5))); ps.push_back(false); }
			r = ch.size() == 1 ? ch[0] : ref::mult(ch, ps); }
		if (c == 3) r = ref::mk(Op::Neg, {gen(d, depth - 1)});
		if (c == 4) r = ref::mk(Op::Func, {gen(d, depth - 1)});
		if (r->ch.size()) pl.push_back(r);
		return r;
	}
};
}

SysSpec gen_spec(Gen& g, SysCfg c) {
	SysSpec s; s.nv = g.range(c.minv, c.maxv);
	// partition
	int ng = g.range(1, std::min(s.nv, c.max_groups)); std::vector<std::vector<int>> part(ng); for (int i = 0; i < s.nv; ++i) part[i < ng ? i : g.below(ng)].push_back(i);
	for (auto& p : part) {
		auto k = SysSpec::Kind(g.weighted({unsigned(c.affine ? 6 : 0), unsigned(c.hom ? 3 : 0), unsigned(c.ungrouped ? 2 : 0)}));
		if (k == SysSpec::Ungrouped) for (int v : p) s.groups.push_back({k, {v}}); else s.groups.push_back({k, p}); }
	s.path = c.path == 1 || (c.path == 2 && g.chance(40));
	ref::GenCfg e; e.nvars = s.total(); e.depth = c.depth; e.poly = c.poly; e.maxpow = c.maxpow; e.share = true; e.funcs = c.funcs;
	struct { std::vector<std::vector<int>> hv; std::vector<int> others; } m;
	std::vector<bool> ish(s.total());
	for (auto& q : s.groups) if (q.kind == SysSpec::Hom) { m.hv.push_back(q.v); for (int v : q.v) ish[v] = true; }
	for (int i = 0; i < s.total(); ++i) if (!ish[i]) m.others.push_back(i);
	e.only = m.others; ref::ExprGen eg(g, e);
	if (c.funcs && g.chance(60)) { // named pieces
		ref::GenCfg k = e; k.only.clear(); k.nvars = 0; k.share = false; k.depth = 2; k.poly = !g.chance(40); ref::ExprGen ke(g, k); k.funcs = false;
		if (g.chance(50)) { s.consts.push_back(ref::mk(Op::Func, {ke.gen(2)})); eg.pool.push_back(s.consts.back()); }
		if (s.path && g.chance(60)) { ref::GenCfg t = e; t.only = {s.nv}; t.share = false; t.funcs = false; t.poly = !(c.time_transcend && g.chance(50)); t.rational = false; t.depth = 2; ref::ExprGen te(g, t); s.params.push_back(ref::mk(Op::Func, {te.gen(2)})); for (int i = 0; i < 2; ++i) eg.pool.push_back(s.params.back()); }
		if (!m.others.empty() && g.chance(50)) { s.subf.push_back(ref::mk(Op::Func, {eg.gen(2)})); for (int i = 0; i < 3; ++i) eg.pool.push_back(s.subf.back()); }
	}
	if (c.poly && c.time_transcend && s.path && g.chance(30)) { static const Op fn[] = {Op::Sin, Op::Exp, Op::Cos}; eg.pool.push_back(ref::mk(fn[g.below(3)], {ref::var(s.nv)})); }
	int nf = c.square ? int(m.others.size()) : g.range(1, c.maxf);
	Multi mm{g, s, eg, m.hv, m.others, {}};
	for (int i = 0; i < nf; ++i) { std::vector<int> d(m.hv.size()); for (auto& x : d) x = g.range(0, 2); s.f.push_back(mm.gen(d, g.range(1, c.depth))); }
	return s;
}
void add_structure(Gen& g, SysSpec const& s, Built& b) {
	VarGroup un;
	auto flush = [&] { if (un.empty()) return; if (un.size() == 1 && g.chance(50)) b.sys.AddUngroupedVariable(un[0]); else b.sys.AddUngroupedVariables(un); un.clear(); };
	for (auto& q : s.groups) { VarGroup vg; for (int v : q.v) vg.push_back(b.vars[v]);
		if (q.kind == SysSpec::Ungrouped) { un.push_back(vg[0]); if (g.chance(50)) flush(); continue; }
		flush(); if (q.kind == SysSpec::Affine) b.sys.AddVariableGroup(vg); else b.sys.AddHomVariableGroup(vg); }
	flush();
	if (s.path) b.sys.AddPathVariable(b.t);
}
Built build(Gen& g, SysSpec const& s) {
	Built b; b.vars = make_vars(s.nv); if (s.path) b.t = bertini::node::Variable::Make("t");
	auto all = b.vars; if (s.path) all.push_back(b.t); b.b = std::make_shared<Builder>(g, all);
	bool first = g.chance(70); if (first) add_structure(g, s, b);
	auto fn = [&](P const& p) { return std::dynamic_pointer_cast<bertini::node::Function>(b.b->build(p)); };
	bool decl = g.chance(80);
	if (decl) { for (auto& p : s.consts) b.sys.AddConstant(fn(p)); for (auto& p : s.params) b.sys.AddParameter(fn(p)); for (auto& p : s.subf) b.sys.AddSubfunction(fn(p)); }
	for (size_t i = 0; i < s.f.size(); ++i) { NodeP n = b.b->build(s.f[i]); auto asf = std::dynamic_pointer_cast<bertini::node::Function>(n);
		if (asf && g.chance(50)) { b.sys.AddFunction(asf); }
		else if (g.chance(50)) b.sys.AddFunction(n, "f" + std::to_string(i)); else b.sys.AddFunction(bertini::node::Function::Make(n, "f" + std::to_string(i))); }
	if (!first) add_structure(g, s, b);
	return b;
}
HomSpec homogenize(SysSpec const& s) {
	HomSpec h; int next = s.total(); h.deg.resize(s.f.size()); std::map<int, P> m; std::vector<P> hv;
	for (auto& q : s.groups) { if (q.kind == SysSpec::Affine) { h.homvar.push_back(next); P v = ref::var(next++); hv.push_back(v); h.order.push_back(v->n); for (int x : q.v) m[x] = ref::mult({ref::var(x), v}, {true, false}); } else { h.homvar.push_back(-1); hv.push_back(nullptr); } for (int x : q.v) h.order.push_back(x); }
	for (size_t i = 0; i < s.f.size(); ++i) { std::vector<P> ch; std::vector<bool> ps; 
		for (size_t k = 0; k < s.groups.size(); ++k) { int d = ref::sdeg(s.f[i], s.mask(s.groups[k])); h.deg[i].push_back(d); if (d < 0) h.ok = s.groups[k].kind == SysSpec::Ungrouped ? h.ok : false; if (hv[k] && d > 0) { ch.push_back(ref::ipow(hv[k], d)); ps.push_back(true); } }
		P body = ref::subst(s.f[i], m); ch.push_back(body); ps.push_back(true); h.f.push_back(ch.size() == 1 ? body : ref::mult(ch, ps)); }
	return h;
}
} // namespace b2
