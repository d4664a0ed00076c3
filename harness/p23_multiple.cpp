#include "p23.hpp"
namespace b2 { void run_multiple(Gen& g, ZdCfg cf, bool twice) { static const unsigned ps[] = {30, 20, 40, 50}; unsigned p = ps[g.below(4)]; bool mh = cf.maxgroups > 1; double ft = std::pow(10., -double(g.range(8, 12))); bool pse = g.chance(50); g.label(pse ? "power series" : "Cauchy"); if (mh) plain<MT, CA<MT>, MH>(g, cf, p, twice, ft, true); else { if (pse) plain<MT, PS<MT>, TD>(g, cf, p, twice, ft, true); else plain<MT, CA<MT>, TD>(g, cf, p, twice, ft, true); } } }
