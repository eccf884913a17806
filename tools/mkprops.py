#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

ALG = ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp"]
SG = ["src/subgradient/Subgradient.hpp", "src/subgradient/Pricer.hpp", "src/subgradient/utils.hpp"]
GR = ["src/greedy/Greedy.hpp", "src/greedy/redundancy.hpp", "src/greedy/scores.hpp"]
FX = ["src/fixing/ColFixing.hpp", "src/fixing/FixingData.hpp", "src/fixing/fix_columns.hpp"]

prop("C01", "Every solve ends and returns a valid cover",
  "For every feasible instance with non-negative costs, every parameter setting in its documented range, every seed, every time limit (zero included) and every optional feasible warm start, a full solve terminates and returns a list of existing, pairwise distinct columns that together cover every row.",
  ["inputs", "configurations"],
  "all feasible instances (any shape: empty, duplicate, dominated, singleton or full columns; zero, tied, fractional or widely spread costs), all parameter settings with alpha > 1 and min_fixing > 0, all seeds, time limits and feasible warm starts",
  "The suite solves about 20 instances of one generator with one parameter set; it never uses zero time limits, more than ten redundant columns at once, tiny or degenerate shapes, or other exit tolerances, and index mapping errors only show for particular fixing/pricing histories.",
  ALG + SG + GR + FX,
  [("greedy runs until no row is left uncovered", "src/greedy/Greedy.hpp"),
   ("solution translated back through core, fixing and refinement maps", "src/algorithms/ThreePhase.hpp, src/algorithms/Refinement.hpp")],
  observe=["cft::run result"])
prop("C02", "The reported cost is the cost of the returned columns",
  "Whatever the instance, parameters, seed and warm start, the cost reported with a solution equals the sum of the instance's costs over exactly the returned columns (exactly when sums are representable, otherwise up to floating-point rounding).",
  ["inputs", "configurations"],
  "all feasible instances, parameters, seeds, time limits and warm starts with a correct stated cost",
  "Tests check the cost only inside debug builds on a few instances without redundancy; the cost is accumulated through fixing, core and enumeration bookkeeping, whose paths depend on how many redundant columns each greedy pass produces.",
  ALG + GR + FX,
  [("partial/best cost bookkeeping of redundancy removal", "src/greedy/redundancy.hpp"),
   ("fixed cost accounting", "src/fixing/FixingData.hpp")],
  observe=["cft::run result", "ThreePhase result"])
prop("C03", "The reported lower bound never exceeds the optimum",
  "The lower bound returned by a solve is never greater than the cost of any cover of the instance (up to floating-point rounding), hence never greater than the optimum or than the returned solution's cost, and it comes with exactly one finite non-negative multiplier per row of the original instance.",
  ["inputs", "configurations"],
  "all feasible instances with non-negative costs, parameters and seeds",
  "No test compares the bound with an exact optimum; a bound taken from the reduced (core) instance or from stale reduced costs is plausible-looking and only exceeds the optimum on instances whose good columns are priced out.",
  SG + ALG,
  [("bound recomputed over all columns when pricing", "src/subgradient/Pricer.hpp"),
   ("dual state saved before the first column fixing", "src/algorithms/ThreePhase.hpp")],
  observe=["cft::run result .dual"])
prop("C04", "A warm start is never made worse",
  "When a solve is given a feasible initial solution, the returned solution costs no more than it, and if it costs the same as the initial one or the solve finds nothing better the result is still a valid cover with that cost; the warm start's column order or content is never corrupted.",
  ["inputs", "histories"],
  "all feasible instances, feasible warm starts (optimal, good, redundant, full), parameters; chains of solves each seeded with the previous result",
  "Tests use one trivial warm start that every run improves, so the branch in which the warm start survives (and refinement is driven by it) is never taken.",
  ALG,
  [("best solution initialised from the warm start", "src/algorithms/Refinement.hpp")],
  observe=["cft::run result"])
prop("C05", "Same instance, parameters and seed give the same result",
  "Without a binding time limit, repeating a solve (or a three-phase call) with the same instance, parameters, seed and warm start returns the identical solution, bound and multipliers, whatever was solved before with the same objects or in the same process and whatever the verbosity level.",
  ["histories", "configurations", "inputs"],
  "all histories of earlier solves on reused solver objects, all verbosity levels, all seeds and instances",
  "Tests run each object once; stale caches only show when an object is reused after a different (larger, smaller) instance.",
  ALG + SG + GR + ["src/fixing/ColFixing.hpp", "src/utils/random.hpp"],
  [("caches reset at the start of each call", "src/algorithms/ThreePhase.hpp, src/greedy/Greedy.hpp, src/greedy/redundancy.hpp"),
   ("only random source is the environment's generator", "src/core/cft.hpp")],
  observe=["cft::run result", "ThreePhase/Greedy/Subgradient/Pricer results on reused objects"])
prop("C06", "The time limit is honoured",
  "Once the time limit has elapsed, a solve returns after at most a small bounded amount of further work (a fraction of one three-phase pass, not another phase or refinement round), still with a valid cover, and it never gives up before its limit: a solve that returns earlier returns exactly what it would have returned without a limit.",
  ["inputs", "configurations", "schedules"],
  "all instances and time limits from zero to beyond the natural end of the solve, the limit expiring inside any phase",
  "Tests only set generous limits on instances that end by themselves, so no test notices when a phase stops looking at the clock.",
  ALG + SG + ["src/utils/Chrono.hpp"],
  [("elapsed time compared with the limit in every phase", "src/subgradient/Subgradient.hpp, src/algorithms/ThreePhase.hpp, src/algorithms/Refinement.hpp")],
  observe=["work performed after the deadline, on a virtual clock driven by arithmetic operations"])
prop("C07", "Internal checks stay silent and do not change results",
  "On every valid instance and parameter setting, a build with internal checks and memory/undefined-behaviour sanitizers enabled runs a solve without any check firing, and returns the same solution, cost, bound and multipliers as the release build.",
  ["inputs", "configurations"],
  "all valid instances, parameters, seeds and warm starts, over both build modes",
  "Debug tests cover a handful of instances with integer-like costs; out-of-range reads that stay inside allocated memory, or checks that only hold for small costs, need other inputs.",
  ALG + SG + GR + FX + ["src/core/utils.hpp", "src/utils/assert.hpp"],
  [("assertions on coverage, cost, maps, redundancy data and casts", "src/core/utils.hpp, src/fixing/fix_columns.hpp, src/greedy/redundancy.hpp, src/utils/utility.hpp")],
  observe=["abort/exception of the checked build", "result of both builds"])
prop("C08", "Results do not depend on the configured index types",
  "For any instance whose sizes fit them, choosing other integer types for row and column indexes yields the identical solution, cost, bound and multipliers, and with any supported real type a solve still returns a valid, correctly priced cover and a valid bound.",
  ["configurations", "inputs"],
  "all supported column/row index types (8 to 64 bit, signed or unsigned, wrapped types) and real types, over all instances that fit them, including sizes near a type's limit",
  "Each configuration is tested on one small generator and never against another configuration, so silent wrap-around or a mixed-type comparison that keeps the result feasible passes.",
  ["src/core/cft.hpp", "src/utils/custom_types.hpp", "src/core/Instance.hpp", "src/utils/utility.hpp"] + ALG,
  [("checked casts between size and index types", "src/utils/utility.hpp"), ("type macros", "src/core/cft.hpp")],
  observe=["cft::run result of differently configured builds"])
prop("C09", "Unhurried solves are near-optimal",
  "Run to natural completion with default-like parameters, the solver finds an optimal cover on almost all small instances, its average gap to the optimum is tiny, its lower bound closes most of the gap, and over a population of instances it is never worse than its own single greedy pass and better whenever greedy leaves substantial room.",
  ["inputs", "configurations"],
  "the population of small random, structured and planted-optimum instances whose optimum can be computed exactly",
  "Tests accept any solution cheaper than a trivial one, so a change that disables pricing updates, multiplier updates, fixing or refinement leaves every test green.",
  ALG + SG + GR + FX,
  [("subgradient, heuristic, fixing and refinement improving on greedy", "src/algorithms/ThreePhase.hpp, src/algorithms/Refinement.hpp, src/subgradient/Subgradient.hpp")],
  observe=["cost against exact optimum (dynamic programming or planted dual certificate)"])
prop("C10", "A direct three-phase call solves the instance it was given",
  "Calling the three-phase procedure directly on any feasible instance returns a valid cover expressed in that instance's original column numbering, with its true cost, together with one multiplier per original row and a bound not above the optimum, however much of the working copy it fixes along the way.",
  ["inputs", "configurations"],
  "all feasible instances (in particular those whose working copy is fixed in several rounds), parameters and seeds, fresh and reused objects",
  "The suite calls the procedure once, on a three-column example that never reaches a second iteration.",
  ["src/algorithms/ThreePhase.hpp"] + FX + SG,
  [("composition of core map, fixing map and fixed columns", "src/algorithms/ThreePhase.hpp")],
  observe=["ThreePhase result"])
prop("C11", "Greedy returns a complete, irredundant, correctly priced cover",
  "Run without limits from any column subset that is not yet a cover and with any multipliers, the greedy step extends it to a cover with no repeated columns, from which no column of positive cost can be dropped, and returns exactly that cover's cost; with a cutoff it returns a cost below the cutoff only together with such a cover, and does so whenever the cover it finds without a cutoff costs less.",
  ["inputs", "configurations"],
  "all feasible instances, starting subsets, multiplier vectors, cutoffs",
  "Tests run greedy on one tiny instance; redundancy paths (none, few, more than ten redundant columns; emptied early; cut off by cost) are separate branches.",
  GR + ["src/utils/CoverCounters.hpp"],
  [("cover completion loop", "src/greedy/Greedy.hpp"), ("redundant columns removed by heuristic then enumeration", "src/greedy/redundancy.hpp")],
  observe=["Greedy call result"])
prop("C12", "Greedy always takes a best-scored column",
  "Each column the greedy step adds has the minimum score among the remaining useful columns, the score being the residual reduced cost (reduced cost plus the multipliers of rows already covered) divided by the number of newly covered rows when positive and multiplied by it otherwise; the given starting columns are kept first, and when a size limit is given no more columns than that are selected.",
  ["inputs", "histories"],
  "all instances, multipliers, partial solutions and size limits; every step of every selection sequence",
  "No test inspects the order of selection; incremental score maintenance and the partially sorted candidate set can go stale only after particular sequences of coverage updates.",
  ["src/greedy/Greedy.hpp", "src/greedy/scores.hpp"],
  [("incremental score update and candidate subset", "src/greedy/scores.hpp")],
  observe=["selection sequence"])
prop("C13", "Redundant columns are removed at minimum cost",
  "When a cover contains at most ten columns that could individually be dropped, the removal step keeps a cheapest subset of them that still covers every row; with more, it first drops the most expensive removable ones one at a time until that point; coverage is never lost and the resulting cost is exact.",
  ["inputs"],
  "all covers with any number of redundant columns, any costs and cutoffs",
  "One test removes redundancy from one hand-made solution; branch-and-bound pruning errors need particular cost orders and overlaps.",
  ["src/greedy/redundancy.hpp"],
  [("bounded enumeration over keep/drop decisions", "src/greedy/redundancy.hpp"), ("heuristic removal above the enumeration limit", "src/greedy/redundancy.hpp")],
  observe=["redundancy functions", "Greedy call result"])
prop("C14", "Fixing columns yields exactly the residual problem",
  "After any sequence of column-fixing steps, the reduced instance consists of exactly the uncovered rows and the unfixed columns that still cover one of them, in original order with original costs and consistent row and column views, while the accumulated maps, fixed columns and fixed cost translate it exactly back to the original instance and row multipliers stay with their rows.",
  ["histories", "inputs"],
  "all instances and all sequences of column sets to fix (overlapping, redundant, emptying columns, covering everything)",
  "Tests exercise at most one fixing step indirectly; composing maps over several steps, columns that become empty and the all-covered shortcut are separate cases.",
  FX, [("in-place compaction with old-to-new maps", "src/fixing/fix_columns.hpp"), ("maps composed onto the original indexes", "src/fixing/FixingData.hpp"), ("multipliers compacted with the row map", "src/fixing/ColFixing.hpp")],
  state=[("current-to-original maps", "original index of each surviving row/column", "src/fixing/FixingData.hpp")],
  observe=["instance, maps, fixed cost after each step"])
prop("C15", "Pricing keeps the right columns and a true bound",
  "For any instance and non-negative multipliers, pricing returns the Lagrangian bound of the full instance and a core instance whose columns are distinct copies of original columns, mapped back correctly, containing for each row the five columns of smallest reduced cost (all if fewer) and every column of clearly small reduced cost up to a quota of five per row chosen by smallest reduced cost, with coherent row lists.",
  ["inputs", "histories"],
  "all instances and multiplier vectors, with ties, more low-cost columns than the quota, rows with fewer than five columns; reused objects",
  "Pricing has no test of its own and solutions stay feasible and priced when it drops or duplicates columns.",
  ["src/subgradient/Pricer.hpp", "src/utils/SortedArray.hpp", "src/core/utils.hpp"],
  [("two selection rules over reduced costs", "src/subgradient/Pricer.hpp")], observe=["Pricer call result"])
prop("C16", "The subgradient phase keeps bounds, multipliers and core sound",
  "From any starting multipliers, step size and cutoff, the subgradient phase returns a bound not above the optimum (up to rounding), finite non-negative multipliers, one per row, and a core that is still a consistent sub-instance covering every row; its heuristic phase replaces the incumbent only by a valid cover of the core that is strictly cheaper and correctly priced.",
  ["inputs", "configurations", "histories"],
  "all instances, starting multipliers, cutoffs, exit tolerances, heuristic iteration counts; reused objects",
  "The phase has no test of its own; its effects are visible only through bounds and core content that tests never inspect.",
  SG, [("periodic pricing on the full instance", "src/subgradient/Subgradient.hpp"), ("multipliers clamped", "src/subgradient/Subgradient.hpp")],
  observe=["Subgradient call results"])
prop("C17", "Instance files in every format are read back exactly",
  "Writing any instance in the RAIL, SCP, CVRP or MPS layout, with any legal spacing and line breaking, and reading it yields the same rows, columns in the same order with the same entries, the same costs and (where the format has one) the same initial solution.",
  ["inputs"],
  "all instances and all layouts each format allows",
  "Tests read a few well-known files with one layout each, and one format is not read at all; columns entirely absent, costs split over many lines, trailing spaces or several entries per line are not sampled.",
  ["src/core/parsing.hpp", "src/utils/parse_utils.hpp", "src/utils/StringView.hpp"],
  [("per-format readers", "src/core/parsing.hpp"), ("number and token scanners", "src/utils/parse_utils.hpp")], observe=["parsed instance"])
prop("C18", "Malformed or truncated input is rejected, never misread",
  "Whatever bytes an instance or initial-solution file contains, reading it either throws an ordinary exception or produces an instance whose indexes are all in range and whose row and column views agree; it never crashes, hangs, touches memory out of bounds or lets a file with missing trailing tokens or lines pass as a complete, different instance.",
  ["inputs"],
  "all byte strings, in particular single-token corruptions and truncations of valid files, for each format and for solution files",
  "Tests feed a few hand-written malformed files per format.",
  ["src/core/parsing.hpp", "src/utils/parse_utils.hpp", "src/core/Instance.hpp"],
  [("index and count validation while reading", "src/core/parsing.hpp")], observe=["exception or parsed instance; sanitizers"])
prop("C19", "Solution files round-trip exactly and are written completely",
  "Writing any solution and reading it back yields the same columns in the same order and the same cost bit for bit, overwriting whatever the file held before, and a failure to open or completely write the file is reported instead of ignored.",
  ["inputs", "fault_sequences"],
  "all solutions (any cost value, length, index), all previous file contents, write failures",
  "Tests round-trip a few small values to a healthy disk.",
  ["src/core/parsing.hpp", "src/utils/parse_utils.hpp"],
  [("shortest round-trip cost formatting", "src/core/parsing.hpp")], observe=["file content", "exception"])
prop("C20", "Unit-cost mode and initial solutions load consistently",
  "Loading with unit costs gives every column cost one and prices any initial solution by its number of columns, changing nothing else; without it costs are kept; an initial-solution file replaces the one in the instance file, and an initial solution that does not belong to the instance is rejected.",
  ["inputs", "configurations"],
  "all instances, formats, initial solutions (valid, out of range, not covering), with and without unit costs",
  "Tests load files without initial solutions or with the unit-cost switch separately.",
  ["src/core/parsing.hpp"], [("instance and initial solution loading", "src/core/parsing.hpp")], observe=["loaded data", "exception"])
prop("C21", "Command-line options are interpreted exactly as documented",
  "For any sequence of options in short or long form, in any order and with repetitions, the resulting settings equal those of applying the options left to right over the defaults; unknown options are skipped, a numeric value that is not a number or out of range is an error, a missing instance path is an error, the default output name is the instance file's base name without extension plus \".sol\", and the help text names every option and its default value.",
  ["inputs", "configurations"],
  "all argument vectors",
  "Tests use one long and one short full argument list in one order.",
  ["src/core/CliArgs.hpp", "src/utils/parse_utils.hpp"], [("flag table", "src/core/CliArgs.hpp")], observe=["parsed settings", "exception"])
prop("C22", "The command-line tool does what it reports",
  "Run on any valid instance file, the tool exits with success and leaves a solution file whose columns cover the instance and whose first number is their total cost, honouring seed, initial solution, unit costs and verbosity (silent at level zero); on unreadable, malformed or infeasible input or an unwritable output it exits with failure and an error message and creates no misleading solution.",
  ["inputs", "configurations", "fault_sequences"],
  "all instances in all formats, option combinations, and faults in input and output files",
  "No test runs the executable.",
  ["src/main.cpp", "src/core/CliArgs.hpp", "src/core/parsing.hpp", "src/algorithms/Refinement.hpp"],
  [("main program flow and exit status", "src/main.cpp")], observe=["exit code, output file, stdout"])
prop("C23", "The Python solver matches its contract over any call history",
  "For any history of adding sets, solving with any parameters and querying, each solve returns distinct added sets covering every element from zero to the largest added, with their true cost and a bound not above it; solving again without new elements never gets worse; getters reflect the last valid solve and report nothing before it or after new elements appear.",
  ["histories", "inputs"],
  "all sequences of add, solve and query operations",
  "Tests run four fixed scripts.",
  ["src/pycft/set_cover_solver.py", "src/pycft/_bindings.cpp"],
  [("result invalidated on new elements, reused as warm start otherwise", "src/pycft/set_cover_solver.py")], observe=["Python API"])
prop("C24", "Invalid Python input is refused without side effects",
  "Adding a set with a negative cost or element, solving with an element in no set, or other invalid input raises an exception and leaves the solver exactly as usable as before: later valid calls give valid results over the sets accepted so far, and repeated elements within a set count once.",
  ["histories", "inputs", "fault_sequences"],
  "all histories mixing valid and invalid calls",
  "Tests check only that some invalid calls raise.",
  ["src/pycft/set_cover_solver.py", "src/pycft/_bindings.cpp"],
  [("validation before insertion", "src/pycft/set_cover_solver.py, src/pycft/_bindings.cpp")], observe=["Python API"])
prop("C25", "Python solves honour their parameters and equal native ones",
  "A Python solve with given parameters and seed returns the same solution, cost, bound and multipliers as a native solve of the same instance with the same parameters and seed, and loading an instance from a file gives the same result as adding its sets.",
  ["inputs", "configurations"],
  "all instances, parameter settings and seeds",
  "Tests never compare the two interfaces nor vary parameters.",
  ["src/pycft/set_cover_solver.py", "src/pycft/_bindings.cpp"], [("parameters copied field by field into the native settings", "src/pycft/set_cover_solver.py")],
  observe=["Python API against native solve"])
prop("C26", "Text scanning matches a reference for every string",
  "Trimming, splitting, sub-views, searching and comparison of text views agree with a plain string reference on every byte string, and number conversion accepts exactly what the platform's conversion accepts within the target type's range, consuming exactly that text and rejecting everything else.",
  ["inputs"],
  "all strings (empty, all blanks, embedded separators, extreme and malformed numbers) and target types",
  "Tests list some strings each.",
  ["src/utils/StringView.hpp", "src/utils/parse_utils.hpp"], [("view arithmetic", "src/utils/StringView.hpp"), ("range-checked conversion", "src/utils/parse_utils.hpp")], observe=["utility calls"])
prop("C27", "Containers behave like their simple models over any history",
  "Over any sequence of operations the coverage counters report exactly how many elements become newly covered or uncovered and which subsets are redundant, the bounded sorted array keeps exactly the smallest keys in order, the sparse matrix returns every stored column unchanged, and row lists derived from columns contain each column exactly once per entry in increasing order.",
  ["histories", "inputs"],
  "all operation sequences and element types",
  "Tests apply short fixed sequences.",
  ["src/utils/CoverCounters.hpp", "src/utils/SortedArray.hpp", "src/utils/SparseBinMat.hpp", "src/utils/Span.hpp", "src/core/Instance.hpp"],
  [("container invariants", "src/utils/CoverCounters.hpp, src/utils/SortedArray.hpp, src/utils/SparseBinMat.hpp")], observe=["container calls"])
prop("C28", "Sorting, selection and small helpers satisfy their definitions",
  "Sorting yields an ordered permutation, partial selection leaves the n-th key in place with no larger key before and no smaller after, minimum search, filtering, any/all, clamp, min/max, absolute value and checked conversion return what their definitions say, for every sequence, key and type.",
  ["inputs"],
  "all sequences (empty, single, tied, already sorted, adversarial patterns), keys and value types",
  "Tests sort a few random vectors.",
  ["src/utils/sort.hpp", "src/utils/utility.hpp"], [("key-based comparison adapters", "src/utils/sort.hpp")], observe=["utility calls"])
prop("C29", "Random streams equal the published generators for every seed",
  "Each generator reproduces, from the first draw on, the stream of the published xoshiro algorithm it is named after, seeded by splitmix64 from the given seed; copies continue identically and independently, and the generator used by the solver for a real type is the one matching that type's width.",
  ["inputs", "histories"],
  "all seeds, all positions in the stream, all generator variants",
  "Tests check basic statistics of a few seeds.",
  ["src/utils/xoshiro_prng.hpp", "src/utils/random.hpp"], [("state transition and seeding", "src/utils/xoshiro_prng.hpp")], observe=["generated values"])
prop("C30", "Random draws stay in range and are uniform",
  "Unit-interval draws lie in [0,1), real draws lie between their bounds, integer draws lie within the inclusive bounds and reach every value, and their frequencies are those of the uniform distribution, for every generator, value type and range (of representable width, and no wider than one word of the generator for integers); a coin flip succeeds with exactly its probability, never with zero and always with one.",
  ["inputs", "configurations"],
  "all generator and value type combinations, ranges and seeds",
  "Tests average a few seeds over one range.",
  ["src/utils/random.hpp"], [("bit-to-real scaling", "src/utils/random.hpp")], observe=["drawn values"])
prop("C31", "Stopping parameters only cut the same solve short",
  "Without a time limit, a full solve goes on past its first three-phase call exactly when the best cover so far costs more than beta times that call's bound plus epsilon, and then stops as soon as a cover meets this target or nothing is left free: so a solve whose first cover (or warm start) meets the target returns it unchanged, solves that differ only in beta agree unless the larger beta's target was met and never end cheaper with the larger beta, min_fixing = 1 returns the better of first phase and warm start, the bound and multipliers are those of the first call on the whole instance whatever the later parameters, the seed or the heuristic's length, wider exit thresholds or a larger epsilon never give a better bound, and a subgradient phase ends early exactly when, at a check made every 300 iterations, the core bound's absolute and relative improvement since the check before are both below their thresholds.",
  ["inputs", "configurations"],
  "all feasible instances with a computed non-negative bound, pairs of parameter settings that differ in stopping parameters, with and without warm start; costs within rounding of the target may go either way",
  "Tests never compare two solves with different stopping parameters: a target that is ignored or wrongly computed still returns valid covers.",
  ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/subgradient/utils.hpp"],
  [("target cost and refinement stop", "src/algorithms/Refinement.hpp"), ("fraction of rows fixed", "src/algorithms/Refinement.hpp"),
   ("exit condition of the subgradient phase", "src/subgradient/utils.hpp, src/subgradient/Subgradient.hpp")], observe=["cft::run and ThreePhase results"])
prop("C32", "Column fixing takes the columns its rule names",
  "Each column-fixing step of the three-phase algorithm fixes every column whose reduced cost is below -0.001 and that shares no row with another such column, plus the columns the greedy step then adds to them, one for every 200 rows of the original instance and at least one, never more.",
  ["inputs", "histories"],
  "all instances, multipliers and original row counts, fresh and reused objects; reduced costs within rounding of the threshold may go either way",
  "Column fixing has no test of its own; fixing too many, too few or overlapping columns still gives valid covers.",
  FX[:1] + ["src/greedy/Greedy.hpp"], [("selection of non-overlapping columns", "src/fixing/ColFixing.hpp"), ("number of columns left to the greedy step", "src/fixing/ColFixing.hpp")],
  observe=["fixed columns after a ColFixing call"])
prop("C33", "Progress output tells what the solve does",
  "Nothing is printed at verbosity 0, what a level prints is contained, in the same order, in what every higher level prints, and the level never changes the result. The numbers are those of the run: refinement rounds count up and report the best cover's cost so far, the result's bound and the gap between them; phase iterations count up with the remaining rows and columns shrinking, the fixed cost growing and the best cost following the reported improvements, and go on exactly while rows are left and the bound is below the best cost less epsilon; the last costs reported agree with the result. The executable reports the instance's size, its final cost and, from level 3, every setting in force with its value.",
  ["inputs", "configurations", "histories"],
  "all instances, parameters without time limit, warm starts and verbosity levels; numbers up to their printed precision, times excluded",
  "Tests discard the output or only run silently.",
  ["src/utils/print.hpp", "src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/fixing/ColFixing.hpp", "src/core/CliArgs.hpp", "src/main.cpp"],
  [("level filter", "src/utils/print.hpp"), ("round and iteration reports", "src/algorithms/Refinement.hpp, src/algorithms/ThreePhase.hpp"), ("settings list", "src/core/CliArgs.hpp")],
  observe=["standard output of cft::run and of the executable"])
prop("C34", "Refinement rounds fix the best cover's least harmful columns",
  "After each three-phase call that leaves the target unmet, a full solve fixes columns of the best cover so far in increasing order of their contribution to the gap (the positive part of the column's reduced cost plus, for each of its rows, the multiplier times the share of the row's cover that is surplus, all taken from the first call's multipliers on the whole instance), stopping before the column that would bring the rows covered above the allowed number. That number is min_fixing times the rows after a round that improved the best cover and alpha times the fraction before otherwise, at most all. The next three-phase call solves exactly what these columns leave open, and the cover returned is the best seen over warm start, first call and rounds, the earliest of equally cheap ones.",
  ["inputs", "configurations", "histories"],
  "all feasible instances with costs whose sums are exact, parameters without time limit, with and without warm start; ties between contributions may be broken in any order",
  "Tests run whole solves on a few files and look at the cost only; fixing other columns, or too many, still returns valid covers.",
  ["src/algorithms/Refinement.hpp", "src/fixing/fix_columns.hpp", "src/fixing/FixingData.hpp", "src/algorithms/ThreePhase.hpp"],
  [("choice of the columns to fix", "src/algorithms/Refinement.hpp"), ("fraction of rows", "src/algorithms/Refinement.hpp"), ("rounds on residual instances", "src/algorithms/Refinement.hpp")],
  observe=["standard output and result of cft::run", "results of ThreePhase on the residual instances"])
prop("C35", "A three-phase call is the composition of its parts",
  "A call of the three-phase procedure, fresh or on a reused object, starts from the core of the first five columns of every row, multipliers equal to the least cost per row among the core's columns and the greedy cover they give, and then repeats: subgradient phase with the best cover's remaining cost as cutoff, heuristic phase on the core, column fixing, pricing, and a perturbation of each multiplier by a factor drawn uniformly from 0.9 to 1.1, until no row is left or the bound plus the fixed cost reaches the best cover's cost less epsilon. It returns the best cover over the starting one and all heuristic phases (the earliest of equally cheap ones), and the multipliers and bound of the first subgradient phase; it leaves the instance as the fixings left it and the random stream where these draws left it.",
  ["inputs", "configurations", "histories"],
  "all feasible instances with costs whose sums are exact, parameters without time limit, fresh and reused objects",
  "Tests only check that whole solves return covers; a phase that is skipped, fed stale data or combined wrongly still returns one.",
  ["src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/subgradient/Pricer.hpp", "src/fixing/ColFixing.hpp", "src/greedy/Greedy.hpp"],
  [("setup of the call", "src/algorithms/ThreePhase.hpp"), ("loop over the phases", "src/algorithms/ThreePhase.hpp"), ("perturbation of the multipliers", "src/algorithms/ThreePhase.hpp")],
  observe=["result of ThreePhase, the instance and the random stream it leaves"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
