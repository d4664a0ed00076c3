// P29: the blackbox builds exactly the algorithm asked for, and it solves.
#include "p29.hpp"
using namespace b2; using namespace pbt;
int main(int argc, char** argv) {
	Suite s; s.property = "P29";
	s.subs = {{"shape", "any start system, tracker and endgame: the algorithm built must be exactly that one, on the systems given or derived; non-trivial: all", 500, 8000, run_shape, 60}, {"refused", "systems without isolated solutions or not polynomial; non-trivial: all", 200, 3000, run_nonsense, 60}, {"ready-made", "the ready-made systems against their definitions, any precision", 200, 4000, run_precon, 60},
		{"total degree", "built by the blackbox and solved; all solutions are known; non-trivial: at least 2 paths", 150, 2500, run_td, 120}, {"multihomogeneous", "the same with one or two groups", 100, 2000, run_mh, 120}, {"user", "the user's own target, homotopy, and start points (any subset in any order, in either number type); all solutions are known", 150, 2500, run_user, 120}};
	return run_main(s, argc, argv);
}
