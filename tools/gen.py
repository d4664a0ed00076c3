#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in step with suites.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from suites import SUITES
I = "core/include/bertini2/"; S = "core/src/"
PROPS = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or []))

prop("P01", "Expressions evaluate to their mathematical value",
 "Any expression built from numbers, constants, variables, named functions, sums, products, quotients, powers and elementary functions evaluates to its mathematical value at the variables' current values, in double and in multiple precision alike, whichever overload built it and whether the result is returned or written in place. After variables change and the expression is reset, the next evaluation reflects the new values, also for subexpressions shared by several expressions. A multiprecision result carries the working precision and is accurate to it.",
 ["inputs", "histories"], "all expression DAGs, all points off branch cuts and poles, all interleavings of re-pointing, precision changes and evaluations",
 "The stable tests never evaluate expression trees directly; they reach a few parsed functions at fixed points.",
 [I + "function_tree", S + "function_tree"],
 [("cached evaluation with fresh-evaluation per node type", I + "function_tree/node.hpp"), ("arithmetic, power, exp/log, trig operators", I + "function_tree/operators"), ("numbers, special numbers, variables", S + "function_tree/symbols")],
 "stateful property-based testing against an independent 260-digit reference evaluator with running error bounds", "Generated DAGs and histories; points near branch cuts and poles are not compared.")

prop("P02", "Symbolic derivatives equal the mathematical derivative",
 "Differentiating an expression with respect to any variable yields an expression whose value at every point where both are defined is the partial derivative of the original there; iterating gives higher derivatives. The all-variables derivative form gives the same partials when asked per variable. Differentiation never alters the value of the original expression.",
 ["inputs", "histories"], "all expressions, all variables, all points off branch cuts and poles, orders of differentiation and interleavings of which variable is asked for",
 "No stable test differentiates an expression tree.",
 [I + "function_tree", S + "function_tree"],
 [("per-operator differentiation rules", S + "function_tree/operators"), ("Jacobian entry node re-evaluated per variable", S + "function_tree/roots/jacobian.cpp"), ("linear products and their differentials", I + "function_tree/symbols/linear_product.hpp")],
 "property-based testing against forward-mode differentiation of an independent reference model", "Generated expressions; second derivatives by nested reference differentiation.")

prop("P03", "Degree, polynomiality and homogeneity reports are truthful",
 "For an expression that is a polynomial by its structure, the reported degree in a variable and in a group of variables is the largest such degree over its terms, and a multidegree lists the per-variable degrees; an expression reported polynomial in some variables is polynomial in them. An expression reported homogeneous in a group of variables scales by the power of its degree when that group is scaled, and a sum of homogeneous terms of unequal degree is not reported homogeneous. The same holds for the degrees and the homogeneity and polynomiality reports of systems.",
 ["inputs"], "all expressions and all choices of variables and groups",
 "No stable test asks for degrees or homogeneity of expression trees or systems.",
 [I + "function_tree", S + "function_tree", S + "system/system.cpp"],
 [("degree, multidegree, homogeneity per operator", S + "function_tree/operators"), ("system degrees and homogeneity", S + "system/system.cpp")],
 "property-based testing against exact polynomial expansion and scaling relations", "Structural degree is compared with exact expansion on cancellation-free polynomials and bounds it otherwise.")

prop("P04", "Homogenization preserves solutions and makes systems homogeneous",
 "Homogenizing a polynomial expression or system makes every function homogeneous of unchanged degree in each variable group, and setting the homogenizing variables to one gives back the original values. The system's variable ordering lists each homogenized group's new coordinate first, and dehomogenizing a point divides each group's coordinates by that coordinate and keeps everything else in order, so the original functions at the dehomogenized point vanish exactly where the homogenized ones do.",
 ["inputs"], "all polynomial systems and all partitions of their variables into groups of every type, and all points",
 "No stable test homogenizes a system or dehomogenizes points of several groups.",
 [S + "system/system.cpp", S + "function_tree/operators", I + "system/system.hpp"],
 [("term-wise degree-deficit multiplication", S + "function_tree/operators/arithmetic.cpp"), ("system homogenization and orderings", S + "system/system.cpp")],
 "property-based testing against exact polynomial algebra", "Generated polynomial systems with affine, homogeneous and ungrouped variables.")

prop("P05", "Simplification never changes what an expression computes",
 "Simplifying an expression, including eliminating zeros and ones and flattening nested sums and products, leaves its value and its derivatives the same at every point, provided it runs while the variables hold generic values - ones at which no subexpression that is not identically zero or one evaluates to zero or one in double precision, the documented test for elimination. Simplifying a system leaves its values and derivatives the same whatever values its variables hold.",
 ["inputs", "histories"], "all expressions, all variable values current at simplification time, all later points",
 "No stable test simplifies an expression.",
 [S + "function_tree/simplify.cpp", S + "function_tree/operators/arithmetic.cpp", S + "system/system.cpp"],
 [("EliminateZeros / EliminateOnes / ReduceDepth", S + "function_tree/operators/arithmetic.cpp"), ("Simplify driver", S + "function_tree/simplify.cpp")],
 "metamorphic property-based testing (before/after values against the reference model)", "Generated expressions rich in zeros, ones and nested sums/products.")

prop("P06", "Saved objects reload to behave identically",
 "Expressions, systems with their variable structure, patches, start systems and multiprecision numbers and matrices written to a text archive and read back evaluate to the same values and derivatives, have the same names, degrees, ordering and settings, keep shared parts shared, and lose no digits. Saving never disturbs the object saved.",
 ["inputs", "histories"], "all archivable objects in every reachable state (before or after differentiation, homogenization, patching, precision changes)",
 "Stable tests archive a few numbers and matrices only.",
 [I + "function_tree", I + "system", I + "eigen_serialization_addon.hpp", I + "mpfr_extensions.hpp"],
 [("boost serialization members of every class", I + "system/system.hpp"), ("registered node types", S + "function_tree/node.cpp")],
 "round-trip property-based testing through boost text archives", "Round-trips compared to the reference model, not only to the original.")

prop("P07", "All evaluation methods give the system's true values and derivatives",
 "A system's function values, Jacobian and time derivative equal the mathematical values at the given point and time for every combination of evaluation method (expression tree or compiled straight-line program) and derivative method, in double and multiple precision, with or without patch, subfunctions, constants, parameters and path variable, and whichever calling form is used. Successive evaluations at different points, times and number types never leak values into one another.",
 ["inputs", "configurations", "histories"], "all systems, all method combinations, all call sequences",
 "Stable tests evaluate a handful of fixed systems with default settings and never compare methods.",
 [S + "system/system.cpp", I + "system/system.hpp", S + "system/straight_line_program.cpp", I + "system/straight_line_program.hpp"],
 [("evaluation dispatch", I + "system/system.hpp"), ("SLP compiler visitor and interpreter", S + "system/straight_line_program.cpp")],
 "differential and reference-model property-based testing over configurations and call histories", "Reference model supplies values and derivatives; tolerance from running error bounds.")

prop("P08", "A system always means what its construction history says",
 "After any sequence of building, copying, moving, assigning, adding systems, multiplying by an expression, concatenating, reordering functions, homogenizing, patching and changing precision or methods, each system holds exactly the functions, variables, groups and path variable that sequence implies, and evaluates accordingly. Copies share their expression nodes, so only operations rewriting expressions (homogenizing, simplifying, node precision) reach a copy; anything else done to one system never changes another that was its source or operand, and a clone shares nothing.",
 ["histories"], "all finite sequences of system operations over several live systems",
 "Stable tests build systems once and evaluate; histories and aliasing are untested.",
 [S + "system/system.cpp", I + "system/system.hpp"],
 [("copy/swap, arithmetic and concatenation operators", S + "system/system.cpp"), ("differentiation and ordering caches", I + "system/system.hpp")],
 "model-based stateful property-based testing over several live systems", "The model is a list of reference expressions per live system.")

prop("P09", "Working precision is honoured everywhere",
 "After the default precision and then the precision of a system, patch, slice or start system are set to some number of digits, every value it returns carries that precision and is accurate to it, including after going down and back up; exact data (integers, rationals, constants) regain their full digits. Changing precision never changes the mathematical function represented.",
 ["inputs", "histories"], "all objects and all sequences of precision changes",
 "Stable tests change precision in a few fixed steps.",
 [S + "system", I + "system/patch.hpp", I + "system/slice.hpp", I + "mpfr_complex.hpp"],
 [("precision propagation", S + "system/system.cpp"), ("highest-precision master copies", I + "system/patch.hpp")],
 "stateful property-based testing against high-precision reference values", "Sequences of 2-6 precision changes between 16 and 190 digits.")

prop("P10", "Patches cut each group once and rescaling lands on them",
 "A patch has one equation per variable group, linear in that group's coordinates only, equal to the dot product with that group's coefficients minus one; its Jacobian is exactly those coefficients in the right columns. Rescaling any point with non-vanishing patch values scales each group by its own factor so that all patch equations vanish, in double and multiple precision, and a real or unit patch obeys its stated kind.",
 ["inputs", "histories"], "all group-size lists, points, precisions, copies",
 "Stable tests use a few fixed patches.",
 [I + "system/patch.hpp"], [("evaluation, Jacobian, rescaling", I + "system/patch.hpp")],
 "property-based testing against a direct re-computation from the published coefficients", "Coefficients are read through the public interface.")

prop("P11", "Slices are the linear forms they report",
 "A linear slice of given dimension over given variables evaluates to its reported coefficients times the point plus its reported constants, has those coefficients as its Jacobian, is homogeneous exactly when built so, and its random constructions have full rank and the requested reality and orthogonality.",
 ["inputs", "histories"], "all sizes, kinds, precisions, points", "Stable tests do not touch slices.",
 [I + "system/slice.hpp", S + "system/slice.cpp"], [("construction and evaluation", I + "system/slice.hpp")],
 "property-based testing against direct linear algebra", "")

prop("P12", "Total-degree start systems have exactly their Bezout start points",
 "For any square polynomial system in one affine variable group with functions of positive degree the total-degree start system has as many start points as the product of the degrees; each start point satisfies the start system to working precision in double and multiple precision, homogenized and patched or not, and the points are pairwise distinct. Each start function has the degree of the corresponding target function and depends on one variable, and its coefficients regain full precision when precision rises.",
 ["inputs"], "all square polynomial systems, all start point indices, all precisions",
 "Stable tests only run the solver on one or two systems.",
 [S + "system/start/total_degree.cpp", I + "system/start/total_degree.hpp", S + "system/start_base.cpp"],
 [("start point enumeration", S + "system/start/total_degree.cpp")],
 "property-based testing: count, residual, distinctness", "")

prop("P13", "Multihomogeneous start systems have exactly their multi-Bezout start points",
 "For any square polynomial system with affine variable groups, or with affine and projective groups once homogenized and patched, and no ungrouped variables, the multihomogeneous start system has as many start points as the multihomogeneous Bezout number of its degree table, each start point satisfies the start system to working precision, and the points are pairwise distinct. A user-supplied start system returns the supplied points.",
 ["inputs"], "all such square systems, all indices, all precisions",
 "No stable test covers these start systems.",
 [S + "system/start/mhom.cpp", I + "system/start/mhom.hpp", S + "system/start/user.cpp"],
 [("partition enumeration and linear solves", S + "system/start/mhom.cpp")],
 "property-based testing: permanent-like count oracle, residual, distinctness", "")

prop("P14", "Classic function text means its mathematical reading",
 "Any function text in the classic input language - names, numbers, constants, parentheses, unary signs, + - * / ^ and elementary functions with the usual precedence, all binary operators (^ included) read from left to right, arbitrary blanks - parses to an expression with the value that reading prescribes, decimal numbers to the precision in force. Text outside the language is rejected with an error, never misread, crashed on or left hanging.",
 ["inputs", "programs"], "all well-formed expressions and all byte strings near them",
 "Stable tests parse a few dozen fixed strings.",
 [I + "io/parsing/function_rules.hpp", I + "io/parsing/number_rules.hpp", I + "io/parsing/qi_files.hpp", I + "io/parsing/system_rules.hpp"],
 [("spirit grammar for functions", I + "io/parsing/function_rules.hpp")],
 "grammar-based generation with an independent evaluator; mutation fuzzing of text", "")

prop("P15", "Classic input files produce the system they describe",
 "An input file's declarations - variable groups of each kind, ungrouped variables, path variable, parameters, constants, subfunctions, functions, in any order in which names are declared before they are used, with comments and any layout - produce a system with exactly those variables, groups in order and functions, with the values their definitions prescribe. Configuration and input parts are split correctly with or without markers (CONFIG, INPUT, END as whole words), and malformed files are rejected without crashing.",
 ["inputs", "programs"], "all input files", "Stable tests parse a few fixed files.",
 [I + "io/parsing/system_rules.hpp", I + "io/parsing/classic_utilities.hpp", I + "io/parsing/system_parsers.hpp"],
 [("system grammar", I + "io/parsing/system_rules.hpp"), ("input file splitting and comment stripping", I + "io/parsing/classic_utilities.hpp")],
 "grammar-based generation against the reference model; mutation fuzzing", "")

prop("P16", "Settings text yields exactly the settings written",
 "A classic configuration section, with each setting given at most once, in any order, letter case and spacing, with comments and unrelated settings mixed in, yields each configuration structure with the values written and the documented defaults for everything not mentioned; a setting with an unreadable value is refused.",
 ["inputs"], "all subsets, orders, cases and values of settings", "Stable tests use a few fixed sections.",
 [I + "io/parsing/settings_parsers", I + "io/parsing/settings_rules.hpp", I + "trackers/config.hpp", I + "endgames/config.hpp"],
 [("per-structure setting grammars", I + "io/parsing/settings_parsers")],
 "generation of settings sections against a table-driven model", "")

prop("P17", "Numbers survive text round trips without losing digits",
 "Any finite real or complex number, of any magnitude and precision, written by the library's generators is read back by its parsers, at a working precision no lower than its own, as the same number, and decimal text is read to the nearest number at the working precision. Vectors are written one coordinate to a line, in order, and files are read as they are.",
 ["inputs"], "all finite numbers, precisions, vectors", "Stable tests round-trip a few fixed numbers.",
 [I + "io/generators.hpp", I + "io/parsing/number_rules.hpp", I + "io/parsing/number_parsers.hpp"],
 [("karma generators and qi parsers", I + "io/generators.hpp")],
 "round-trip property-based testing", "")

prop("P18", "Predictors and the corrector have their stated accuracy",
 "A prediction step of every predictor method the library offers (those it has a Butcher table for; others are refused with an exception) has local error of the order of its method, its reported error and size estimates bound what they estimate to their stated order, and it fails cleanly on singular Jacobians. A corrector that reports success returns a point whose last correction was within the tolerance, close to the true root at that time, within the allowed iterations.",
 ["inputs", "configurations"], "all predictors, homotopies with known paths, step sizes, precisions", "No stable test covers trackers.",
 [I + "trackers/explicit_predictors.hpp", S + "tracking/explicit_predictors.cpp", I + "trackers/newton_corrector.hpp"],
 [("Butcher tables", S + "tracking/explicit_predictors.cpp"), ("Newton loop", I + "trackers/newton_corrector.hpp")],
 "property-based testing on homotopies with closed-form paths: convergence-order measurement", "")

prop("P19", "Fixed-precision tracking follows the path or says it failed",
 "Tracking a nonsingular path with a double or fixed multiprecision tracker either reports success and ends, at the end time, within tolerance on the solution that continues the start point (for paths well separated from others, with steps short against the separation, this is demanded), or reports why it failed; the answer does not depend on earlier use of the tracker. It honours limits on the number and length of steps and on size; steps grow and shrink as the settings say; and it never changes the caller's start data or the tracked system's meaning.",
 ["inputs", "configurations", "histories"], "all homotopies with known paths, all predictors and settings, reuse histories", "No stable test covers trackers.",
 [I + "trackers/base_tracker.hpp", I + "trackers/fixed_precision_tracker.hpp"], [("step loop", I + "trackers/base_tracker.hpp")],
 "property-based testing on homotopies with closed-form paths", "")

prop("P20", "Adaptive-precision tracking follows the path or says it failed",
 "Tracking a path with the adaptive-precision tracker from any starting precision either reports success and ends, at the end time, within tolerance on the solution that continues the start point (demanded for well separated paths with short steps), or reports why it failed; precision is raised when the path needs it, stays within the configured maximum, and system, tracker and result agree on it. Results do not depend on earlier use of the tracker.",
 ["inputs", "configurations", "histories"], "all homotopies with known paths, precisions, settings, reuse histories", "No stable test covers trackers.",
 [I + "trackers/amp_tracker.hpp", I + "trackers/amp_criteria.hpp"], [("precision and step-size adaptation", I + "trackers/amp_tracker.hpp")],
 "property-based testing on homotopies with closed-form paths", "")

prop("P21", "The power-series endgame finds the end of every kind of path",
 "On a path with a known fractional power series at any target time, singular or not, the power-series endgame in every precision model either reports success with the true endpoint to its final tolerance (in fixed precision: to what the precision allows at a singular end), or reports failure; for leading exponent 1/c the cycle number is a multiple of c. Its samples lie on the path and approach the target time by the sample factor; it honours the minimal time and, by security level, the norm limit; it stays right when reused. Its interpolation reproduces polynomials of degree up to 2 exactly from values and derivatives, is linear in the data and covariant in time.",
 ["inputs", "configurations"], "all Puiseux expansions, target times, sample factors, settings", "Stable tests use a few fixed homotopies with target 0.",
 [I + "endgames/powerseries.hpp", I + "endgames/base_endgame.hpp", I + "endgames/interpolation.hpp"],
 [("Hermite interpolation in fractional powers", I + "endgames/interpolation.hpp"), ("sampling and convergence test", I + "endgames/powerseries.hpp")],
 "property-based testing on constructed Puiseux paths; exact interpolation oracle", "")

prop("P22", "The Cauchy endgame finds the end of every kind of path",
 "On a path with a known fractional power series at the target time, singular or not, the Cauchy endgame in every precision model either reports success with the true endpoint to its final tolerance (in fixed precision: to what the precision allows at a singular end), or reports failure; for leading exponent 1/c with branches further apart than the tracking tolerance the cycle number is a multiple of c. Its circles visit equally spaced times around the target along the continued path, loops close exactly after the cycle number of turns, it honours the minimal time and never reports the norm limit without cause; it stays right when reused.",
 ["inputs", "configurations"], "all Puiseux expansions, target times, sample counts, settings", "No stable test covers the Cauchy endgame.",
 [I + "endgames/cauchy.hpp", I + "endgames/base_endgame.hpp"], [("loop closing and Cauchy integral", I + "endgames/cauchy.hpp")],
 "property-based testing on constructed Puiseux paths", "")

prop("P23", "Zero-dimensional solving finds every isolated solution",
 "For a square polynomial system with finitely many known nonsingular solutions and none at infinity, the solver reports every solution exactly once, in user coordinates, with its residual; singular solutions appear with their multiplicity; metadata, extracted solutions and written output agree with the points, whether or not some paths fail; solving again, with other settings or a new set-up, gives the same solutions; the given system is left alone; unsuitable systems are refused.",
 ["inputs", "configurations", "histories"], "all square systems with known solution sets, tracker and endgame choices", "Stable tests solve one or two fixed systems.",
 [I + "nag_algorithms/zero_dim_solve.hpp", I + "nag_algorithms/common"], [("homotopy formation, tracking, post-processing", I + "nag_algorithms/zero_dim_solve.hpp")],
 "property-based testing on systems constructed from known roots", "Systems of products of linear factors with up to 9 paths, solutions at least 0.3 apart and no larger than 8; outcomes that depend on the endgame starting close enough to the target are judged again from nearer ones.")

prop("P24", "The midpath check flags exactly the crossed paths",
 "Given any set of boundary points, the midpath check passes if and only if no two distinct paths sit within the tolerance of each other (relative to the point's size), names exactly the paths involved, and marks for re-running exactly those whose start points differ; its verdict does not depend on earlier checks with the same object.",
 ["inputs", "histories"], "all finite point sets", "No stable test covers it.",
 [I + "nag_algorithms/midpath_check.hpp"], [("pairwise comparison", I + "nag_algorithms/midpath_check.hpp")],
 "property-based testing against a brute-force model", "")

prop("P25", "Multiprecision complex arithmetic and linear algebra are accurate",
 "Multiprecision complex arithmetic, powers and elementary functions, in value and in-place forms and mixed with integers, rationals and reals, are accurate to the working precision and consistent across aliasing and operand precision; matrix and vector operations, LU solution and the singularity test built on them agree with exact arithmetic.",
 ["inputs", "configurations"], "all operands, precisions, aliasing patterns, matrix sizes", "Stable tests sample fixed operands.",
 [I + "mpfr_complex.hpp", I + "eigen_extensions.hpp", I + "num_traits.hpp", I + "double_extensions.hpp"], [("number types and Eigen traits", I + "eigen_extensions.hpp")],
 "differential property-based testing against 260-digit arithmetic", "")

prop("P26", "Random generators keep their advertised kind",
 "Every random number, vector and matrix generator returns what its name says for any size and precision: integers within the digit bound, real or complex, of unit modulus when promised, at the requested precision with full-length digits.",
 ["inputs", "configurations"], "all sizes, precisions, generator kinds", "Stable tests check a few draws.",
 [I + "random.hpp", S + "basics/random.cpp", I + "num_traits.hpp", I + "eigen_extensions.hpp"], [("generators", S + "basics/random.cpp")],
 "property-based testing of kind invariants", "")

prop("P27", "Observers see exactly the events of what they watch",
 "An observer attached to a tracker, endgame or other observable is notified of every event while attached, exactly once, in order, and never after it is removed, even when observers attach and detach one another (or themselves) while being notified; attaching twice does not duplicate. The events of a tracked path tell its story: the start with its data first, each step begun and then accepted or failed, every change of precision, the end last; counts, times, points and precisions agree with the tracker's own and with the result. Path and precision recorders record exactly that. An endgame announces convergence exactly when it succeeds, with its final approximation and error. Observation never changes results.",
 ["histories", "configurations"], "all attach/detach histories and tracked paths", "No stable test covers observers.",
 [I + "detail/observable.hpp", I + "trackers/observers.hpp", I + "trackers/base_tracker.hpp"], [("observer list and notification", I + "detail/observable.hpp")],
 "stateful property-based testing against a model event log", "")

prop("P28", "Witness sets and object pools hold exactly what they are given",
 "A witness set reports exactly the points, slice and system it was given, in order, whatever the history of adding and replacing them, copying it, and changing the originals: held by copy it keeps what was given, held by reference or shared pointer it follows the originals and hands out those very objects. Its degree is the number of points, its dimension that of the slice, and it calls itself consistent exactly when variables minus functions (patches included) equals that dimension. The checked accessor refuses every index outside the range. An object pool keeps everything added to it or made by it alive and unchanged until purged; purging gives up exactly the objects nobody else holds; making an object makes one.",
 ["histories", "inputs"], "all histories of operations on witness sets and pools, for every way of holding objects and both number types", "No stable test covers witness sets or pools.",
 [I + "nag_datatypes/witness_set.hpp", I + "nag_datatypes/common/policies.hpp", I + "pool/pool.hpp"], [("range check and consistency", I + "nag_datatypes/witness_set.hpp"), ("pool and purge", I + "pool/pool.hpp")],
 "stateful property-based testing against a model", "")

prop("P29", "The blackbox builds the algorithm asked for, and it solves",
 "Asked at run time for any combination of start system, tracker and endgame, the blackbox builds exactly that zero-dimensional algorithm: on its own clone of the system given, or, for a user homotopy, on the very target, start system and homotopy given. The algorithm has the right start system, number of paths and homotopy, and solving with it finds the solutions, from all or any subset of the user's start points in either number type and any order. A user start system that was not given is refused, and so are systems with a path variable, with fewer functions than variables, or that are not polynomial. The ready-made systems are the ones documented.",
 ["inputs", "configurations"], "all combinations of options and all generated systems with known solutions", "Tests build two combinations and never look at what was built or solve with it.",
 [I + "blackbox/switches_zerodim.hpp", I + "blackbox/user_homotopy.hpp", I + "system/start/user.hpp", "core/src/system/precon.cpp"], [("switches from run-time options to types", I + "blackbox/switches_zerodim.hpp")],
 "property-based testing over options and systems with known solutions", "")

def main():
    import re
    ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
    checks = []; na = []
    for p in PROPS:
        if p["id"] in SUITES:
            checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough", technique=p["technique"], level="exploration",
                level_note="Generated-input search, no absence proof. " + p["note"]))
        else:
            na.append(dict(property=p["id"], reason="no check built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="NONE", enable="no hooks are used; checks build /repo's sources unmodified", source_commits=[]), checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
