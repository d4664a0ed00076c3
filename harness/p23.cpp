// P23: zero-dimensional solving of systems all of whose solutions are known.
#include "p23.hpp"
using namespace b2; using namespace pbt;
int main(int argc, char** argv) {
	Suite s; s.property = "P23"; ZdCfg a, sg, mh; a.maxpaths = 9; sg.singular = true; sg.maxpaths = 6; mh.maxgroups = 2; mh.maxpaths = 6;
	s.subs = {{"double", "1-3 variables, products of linear factors mixed, total degree start, double precision, both endgames; non-trivial: at least 2 paths", 200, 4000, [=](Gen& g) { run_double(g, a, false); }, 60},
		{"multiple", "the same in multiple precision", 24, 800, [=](Gen& g) { ZdCfg c = a; c.maxpaths = 6; run_multiple(g, c, false); }, 60},
		{"adaptive", "the same in adaptive precision", 40, 1500, [=](Gen& g) { ZdCfg c = a; c.maxpaths = 6; run_adaptive(g, c, false); }, 60},
		{"groups", "two variable groups, multihomogeneous start", 40, 1500, [=](Gen& g) { switch (g.below(3)) { case 0: run_double(g, mh, false); break; case 1: run_adaptive(g, mh, false); break; default: run_multiple(g, mh, false); } }, 60},
		{"singular", "solutions of multiplicity 2, adaptive precision (all must be found) or double (those reported must be right)", 30, 1000, [=](Gen& g) { if (g.chance(35)) run_double(g, sg, false); else run_adaptive(g, sg, false); }, 60},
		{"reference", "the caller's own target, start system and homotopy, by reference", 24, 800, [=](Gen& g) { ZdCfg c = a; c.maxpaths = 6; run_reference(g, c); }, 60},
		{"refused", "systems with a path variable, too few functions or non-polynomial functions", 60, 2000, run_refused, 60},
		{"failing", "limits on the number and length of steps, on size and on the endgame's time: some paths fail, the others must be right and codes consistent", 60, 2000, [=](Gen& g) { ZdCfg c = g.chance(25) ? mh : g.chance(30) ? sg : a; c.failing = true; switch (g.below(3)) { case 0: run_double(g, c, g.chance(20)); break; case 1: run_adaptive(g, c, g.chance(20)); break; default: run_multiple(g, c, false); } }, 60},
		{"again", "solving twice, with settings changed or set up again between", 30, 1000, [=](Gen& g) { ZdCfg c = g.chance(25) ? mh : g.chance(50) ? sg : a; c.maxpaths = 6; switch (g.below(3)) { case 0: run_double(g, c, true); break; case 1: run_adaptive(g, c, true); break; default: run_multiple(g, c, true); } }, 120}};
	return run_main(s, argc, argv);
}
