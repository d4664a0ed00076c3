// Square polynomial systems with a prescribed table of degrees per variable group.
#pragma once
#include "sysgen.hpp"
namespace b2 {
// groups of s filled in already; table[i][k] = degree of function i in group k (homogeneous of that degree for homogeneous groups)
inline void fill_functions(pbt::Gen& g, SysSpec& s, std::vector<std::vector<int>> const& table) {
	auto mono = [&](std::vector<int> const& vars, int d) { std::vector<ref::P> ch; while (d > 0) { int e = g.range(1, d); ref::P v = ref::var(vars[g.below(vars.size())]); ch.push_back(e > 1 ? ref::ipow(v, e) : v); d -= e; } return ch; };
	auto num = [&] { int a = g.small_int(6); if (a >= 0) ++a; if (g.chance(25)) return ref::num(ref::Q(a), ref::Q(g.small_int(4)), 1); if (g.chance(30)) return ref::num(ref::Q(a, g.range(2, 7))); return ref::num(a); };
	for (size_t i = 0; i < table.size(); ++i) {
		std::vector<ref::P> terms; std::vector<bool> ps; int m = g.range(1, 4);
		for (int k = 0; k < m; ++k) { std::vector<ref::P> ch; for (size_t q = 0; q < s.groups.size(); ++q) { int d = table[i][q]; if (k && s.groups[q].kind == SysSpec::Affine) d = g.range(0, d);
				if (d >= 2 && d % 2 == 0 && g.chance(15)) { std::vector<ref::P> in; std::vector<bool> ip; for (int v : s.groups[q].v) { in.push_back(ref::var(v)); ip.push_back(!g.chance(30)); } if (s.groups[q].kind == SysSpec::Affine && g.chance(60)) { in.push_back(num()); ip.push_back(true); } ref::P b = in.size() == 1 ? in[0] : ref::sum(in, ip); ch.push_back(ref::ipow(b, d)); }
				else { auto c = mono(s.groups[q].v, d); ch.insert(ch.end(), c.begin(), c.end()); } }
			if (ch.empty() || g.chance(60)) ch.insert(ch.begin(), num());
			terms.push_back(ch.size() == 1 ? ch[0] : ref::mult(ch, std::vector<bool>(ch.size(), true))); ps.push_back(k == 0 || !g.chance(40)); }
		s.f.push_back(terms.size() == 1 ? terms[0] : ref::sum(terms, ps)); }
}
} // namespace b2
