#include "p23.hpp"
namespace b2 { void run_double(Gen& g, ZdCfg cf, bool twice) { bool mh = cf.maxgroups > 1; double ft = std::pow(10., -double(g.range(7, 10))); bool ps = g.chance(50); g.label(ps ? "power series" : "Cauchy"); if (mh) { if (ps) plain<DT, PS<DT>, MH>(g, cf, 16, twice, ft, !cf.singular); else plain<DT, CA<DT>, MH>(g, cf, 16, twice, ft, !cf.singular); } else { if (ps) plain<DT, PS<DT>, TD>(g, cf, 16, twice, ft, !cf.singular); else plain<DT, CA<DT>, TD>(g, cf, 16, twice, ft, !cf.singular); } } }
