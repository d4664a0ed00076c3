#include "p29.hpp"
namespace b2 { void run_td(Gen& g) { auto rt = gen_rt(g); rt.start = bb::type::Start::TotalDegree; unsigned p = gen_p(g, rt); set_prec(p); ZdCfg c; c.maxpaths = 4; Zd z = gen_zd(g, c); Before bf(g, z.b.sys); auto zd = bb::MakeZeroDim(rt, z.b.sys); PBT_CHECK(bool(zd), "nothing was built"); the<TD, bertini::policy::CloneGiven>(g, rt, zd.get(), [&](auto& Z) { PBT_CHECK(&Z.TargetSystem() != &z.b.sys, "the given system is not cloned"); solve_all(g, Z, z, p, true, ""); }); bf.check(g, z.b.sys); if (z.paths >= 2) g.nontrivial(); } }
