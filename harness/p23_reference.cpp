#include "p23.hpp"
namespace b2 { void run_reference(Gen& g, ZdCfg cf) { double ft = std::pow(10., -double(g.range(7, 10))); if (g.chance(60)) by_reference<DT, PS<DT>>(g, cf, 16, ft); else by_reference<AT, CA<AT>>(g, cf, 16, ft); }
// systems that cannot be solved are refused
static void expect_throw(Gen& g, bertini::System const& s, const char* why) { bool threw = false; std::string m; try { ba::ZeroDim<DT, PS<DT>, bertini::System, TD> zd(s); } catch (std::exception const& e) { threw = true; m = e.what(); } PBT_CHECK(threw, "a system that " << why << " is accepted"); PBT_CHECK(!m.empty(), "no message"); }
void run_refused(Gen& g) { set_prec(16); ZdCfg cf; Zd z = gen_zd(g, cf); auto s = bertini::Clone(z.b.sys); auto v = s.Variables()[g.below(s.NumVariables())]; int kind = g.below(4); static const char* n[] = {"has a path variable", "has more variables than functions", "is not polynomial", "is not polynomial, being a quotient"}; g.label(n[kind]); g.note(n[kind]);
	{ ba::ZeroDim<DT, PS<DT>, bertini::System, TD> ok(s); } // the same system without the obstacle is fine
	switch (kind) { case 0: s.AddPathVariable(bertini::node::Variable::Make("t")); break; case 1: { auto w = bertini::node::Variable::Make("w"); if (g.chance(50)) s.AddVariableGroup({w}); else s.AddVariableGroup({w, bertini::node::Variable::Make("u")}); break; } case 2: { std::shared_ptr<bertini::node::Node> e = v; int w = g.below(4); e = w == 0 ? std::shared_ptr<bertini::node::Node>(sin(e)) : w == 1 ? std::shared_ptr<bertini::node::Node>(exp(e * 2)) : w == 2 ? std::shared_ptr<bertini::node::Node>(sqrt(e + 1)) : std::shared_ptr<bertini::node::Node>(pow(e, e)); s.AddFunction(e + v); break; } default: { std::shared_ptr<bertini::node::Node> e = v; s.AddFunction(1 / (e * e + 1) + e); } }
	if (kind > 1 && g.chance(50)) s.AddFunction(v + 1); expect_throw(g, s, n[kind]); g.nontrivial(); }
}
