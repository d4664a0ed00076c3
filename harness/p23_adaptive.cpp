#include "p23.hpp"
namespace b2 { void run_adaptive(Gen& g, ZdCfg cf, bool twice) { static const unsigned ps[] = {16, 30, 20}; unsigned p = ps[g.below(3)]; bool mh = cf.maxgroups > 1; double ft = std::pow(10., -double(g.range(8, 13))); bool pse = g.chance(50); g.label(pse ? "power series" : "Cauchy"); if (mh) { if (pse) plain<AT, PS<AT>, MH>(g, cf, p, twice, ft, true); else plain<AT, CA<AT>, MH>(g, cf, p, twice, ft, true); } else { if (pse) plain<AT, PS<AT>, TD>(g, cf, p, twice, ft, true); else plain<AT, CA<AT>, TD>(g, cf, p, twice, ft, true); } } }
