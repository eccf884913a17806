"""What each check runs: property -> parts (harness, build, generator function, case counts)."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=6000",
        "UBSAN_OPTIONS": "print_stacktrace=1"}


class Unit:
    def __init__(self, target, prop, quick, thorough, share=1.0, cpu=30, env=None):
        self.target, self.prop, self.quick, self.thorough = target, prop, quick, thorough
        self.share, self.cpu = share, cpu
        self.name = "%s@%s" % (prop, target)
        self.env = dict(ASAN)
        self.env.update(env or {})

    def command(self, exe, a):
        return [exe, "--run", self.prop, "--cases", str(a["cases"]), "--seed", str(a["seed"]), "--jobs", "8", "--out", a["out"],
                "--replay-dir", a["replay_dir"], "--tag", a["tag"], "--wall", "%.0f" % a["wall"], "--cpu", str(self.cpu),
                "--shrink", "25" if a["tier"] == "quick" else "60"]

    def replay_command(self, exe, path):
        return [exe, "--replay", path, "--cpu", str(self.cpu)]


class PyUnit(Unit):
    """Histories on the Python package, driven by pycheck/hist.py."""

    def _env(self, exe):
        return ["env", "PYTHONPATH=%s.pkg" % exe, "VF_NATIVE=%s.native.so" % exe, "PYTHONDONTWRITEBYTECODE=1", "python3-vt",
                os.path.join(VERIF, "pycheck", "hist.py")]

    def command(self, exe, a):
        return self._env(exe) + Unit.command(self, exe, a)[1:]

    def replay_command(self, exe, path):
        return self._env(exe) + Unit.replay_command(self, exe, path)[1:]


INST = ("instances drawn from twelve shape families (uniform, dense, cyclic windows, three-columns-per-row, planted dual "
        "optimum, rail-like, redundancy-rich, degenerate, wide, tall, near-partition, hard with free columns) times twelve cost "
        "regimes, up to 90 rows x 300 columns; parameters from defaults to extreme values")
BIG = ("; and large instances of six families (uniform, rail-like, one row shared by every column, chains of gadgets with redundant "
       "columns, planted optimum, row blocks) with 20 to 1200 rows and up to 4800 columns, half of the solves stopped at the first look at "
       "the clock (non-trivial there: 100 rows and ten columns in the cover)")

CHECKS = {
    "C01": dict(
        units=[Unit("solver.rel", "cover", 60000, 3000000), Unit("solver.rel", "degenerate", 20000, 1000000, 0.3), Unit("solver.rel", "big_cover", 1200, 40000, 0.5, cpu=150)],
        rule=INST + BIG + "; a quarter with a warm start; instances without rows, with empty columns, without a cover. Non-trivial: at least 3 rows and a solution of at least 2 columns; distinct by "
             "the sequence of generator choices.",
        technique="property-based testing: generated instances, parameters and warm starts against a direct cover test, CPU limit per case",
        level_note="Held on every generated solve. A solve that uses more than 30 CPU seconds on these small instances counts as not ending."),
    "C02": dict(
        units=[Unit("solver.rel", "cost", 60000, 3000000), Unit("solver.rel", "big_cost", 1200, 40000, 0.5, cpu=150)],
        rule=INST + BIG + ". The reported cost is compared with an independent sum, exactly when all partial sums are exact in single "
             "precision, else within 4e-5 relative. Non-trivial: a solution of at least 2 columns; distinct by generator choices.",
        technique="property-based testing: reported cost against independent recomputation",
        level_note="Exact comparison on representable costs; relative tolerance otherwise."),
    "C03": dict(
        units=[Unit("solver.rel", "bound", 120000, 5000000), Unit("solver.rel", "big_bound", 1200, 40000, 0.5, cpu=150)],
        rule="instances with a computable optimum: at most 14 rows (dynamic programming over row sets) or planted dual optimum of "
             "any size" + BIG + ". Non-trivial: the bound exceeds half of the optimum; distinct by generator choices.",
        technique="property-based testing: lower bound against exact optimum (dynamic programming or planted certificate)",
        level_note="Bound may exceed the optimum only by rounding: 1e-3*(1+opt)."),
    "C04": dict(
        units=[Unit("solver.rel", "warm", 40000, 1500000), Unit("solver.rel", "big_warm", 1000, 40000, 0.5, cpu=150)],
        rule=INST + BIG + "; warm starts: greedy, padded, all columns, planted optimum; chains of up to three solves. Non-trivial: at "
             "least 3 rows and a warm start of at least 2 columns.",
        technique="property-based testing: chained warm-started solves against the starting cost",
        level_note="Held on every generated chain."),
    "C06": dict(
        units=[Unit("timelimit.rel", "limits", 20000, 600000, cpu=60)],
        rule=INST + "; one to four limits per instance between zero and ten times the length of the unlimited solve, clock scales from a "
             "nanosecond to a millisecond per operation, time used up before the solve. Non-trivial: a limit cut the solve and the "
             "unlimited solve is more than three times longer than the work allowed after a limit; distinct by generator choices.",
        technique="property-based testing: solves on a virtual clock driven by counted arithmetic, against the unlimited solve and a bound on the work after the limit",
        level_note="The bound on the work after the limit is a calibrated multiple of one pricing interval and one greedy pass.",
        assumptions=["the library reads the time through std::chrono"]),
    "C07": dict(
        units=[Unit("variants.checked", "checked", 9000, 120000, cpu=90), Unit("variants.chktypes", "checked_types", 1500, 20000, 0.4, cpu=90),
               Unit("variants.checked", "big_checked", 120, 4000, 0.4, cpu=150)],
        rule=INST + BIG + "; costs scaled up to 1e18 and down to 1e-6, warm starts, verbosity levels. Each instance is solved by the release "
             "build and by a build with assertions and address and undefined-behaviour sanitizers. Non-trivial: three rows and a solution of "
             "two columns or more; distinct by generator choices.",
        technique="property-based testing: differential between release and checked, sanitized builds",
        level_note="Bitwise comparison; a sanitizer report or assertion is a violation."),
    "C08": dict(
        units=[Unit("variants.types", "indexes", 12000, 300000), Unit("variants.types", "reals", 30000, 1000000, 0.5),
               Unit("variants.types", "large", 60, 1500, 0.5), Unit("variants.types", "big_types", 400, 12000, 0.4, cpu=150)],
        rule=INST + BIG + "; ten index type configurations (8 to 64 bits, signed, unsigned, wrapped) against int32/int16, sizes padded to "
             "the types' limits, three other real types. Non-trivial: three rows and a solution of two columns or more; distinct by choices.",
        technique="property-based testing: differential between builds with different index and real types",
        level_note="Bitwise comparison across index types; validity, price and bound for other real types."),
    "C10": dict(
        units=[Unit("solver.rel", "threephase", 200000, 8000000), Unit("solver.rel", "big_threephase", 1200, 40000, 0.5, cpu=150)],
        rule=INST + BIG + "; fresh and reused objects. Non-trivial: at least one column was fixed and the solution has two columns or more.",
        technique="property-based testing: three-phase result against cover test, cost recomputation and exact optimum",
        level_note="Held on every generated call."),
    "C05": dict(
        units=[Unit("repeat.rel", "solves", 20000, 800000), Unit("repeat.rel", "env_copies", 10000, 300000, 0.5),
               Unit("repeat.rel", "threephase", 30000, 1200000), Unit("repeat.rel", "parts", 60000, 2500000)],
        rule=INST + "; histories of 2 to 6 calls on reused objects (solver, three-phase, greedy, pricer, subgradient, column fixing), "
             "other instances and verbosity levels in between, heap contents scribbled. Non-trivial: the compared result has two "
             "columns or more and the history reuses an object after another instance; distinct by generator choices.",
        technique="property-based testing: stateful call histories, repeated result compared bit for bit with a fresh object's",
        level_note="Bitwise comparison on every generated history."),
    "C09": dict(
        units=[Unit("quality.rel", p, 8, n, cpu=120) for p, n in (("cycle", 80), ("hitting", 80), ("hard", 80), ("rail", 80),
                                                                   ("planted", 80), ("plantedbig", 80))] +
              [Unit("paired.rel", p, 1, 12, cpu=500) for p in ("p_hitting", "p_hard", "p_uniform", "p_medium")],
        rule="one case is a population of 400 to 3000 instances of one family with computable optimum (dynamic programming up to "
             "14 rows, planted dual optimum above). Non-trivial: plain greedy is not optimal on the population. Limits calibrated "
             "on more than a thousand populations of the unchanged code. Populations of 800 to 4000 larger instances are also solved by a "
             "frozen copy of the library (/verif/reference) and costs and bounds compared by a sign test and a mean test.",
        technique="property-based testing: population statistics against exact optima and a reference greedy, paired tests against a frozen copy",
        level_note="Detects degradations larger than the calibrated margin (about the spread of the population means), or covers "
                   "costlier (six standard deviations, 0.6 % of the instances) or bounds lower (0.2 % on average) than the frozen copy's."),
    "C11": dict(
        units=[Unit("greedy.rel", "complete", 400000, 20000000), Unit("greedy.dbg", "complete", 100000, 4000000, 0.5)],
        rule=INST + "; random starting subsets, multiplier vectors and cutoffs, reused greedy objects. Non-trivial: the greedy step "
             "had to add a column; distinct by generator choices.",
        technique="property-based testing: greedy result against cover, irredundancy and cost definitions",
        level_note="Held on every generated call."),
    "C12": dict(
        units=[Unit("greedy.rel", "selection", 400000, 20000000)],
        rule=INST + "; dyadic multipliers so that scores are exact. Every step of the selection sequence is compared with the "
             "minimum score over all columns (any minimiser accepted). Non-trivial: at least two selections; distinct by choices.",
        technique="property-based testing: model-based comparison of every greedy selection step",
        level_note="Exact comparison on dyadic data."),
    "C13": dict(
        units=[Unit("greedy.rel", "redundancy", 400000, 20000000), Unit("greedy.rel", "greedy_removal", 300000, 10000000),
               Unit("greedy.rel", "redundancy_rounding", 300000, 10000000)],
        rule="covers with none to dozens of redundant columns, tied and spread costs, cutoffs; exhaustive reference over at most ten "
             "redundant columns. Non-trivial: at least two redundant columns; distinct by generator choices.",
        technique="property-based testing: removal step against exhaustive enumeration",
        level_note="Exact optimum of the removal by brute force; costs that do not sum exactly are held to the rounding of one summation."),
    "C14": dict(
        units=[Unit("fixing.rel", "history", 200000, 10000000), Unit("fixing.rel", "colfixing", 150000, 6000000),
               Unit("fixing.san", "history", 20000, 600000, 0.5)],
        rule=INST + "; histories of up to several fixing steps with arbitrary column sets. Non-trivial: two steps or more of which one "
             "removes rows and columns; distinct by generator choices.",
        technique="property-based testing: model-based histories against a residual instance built from scratch",
        level_note="Full comparison of instance, maps, fixed cost and multipliers after every step."),
    "C15": dict(
        units=[Unit("subgrad.rel", "pricing", 200000, 10000000), Unit("subgrad.san", "pricing", 15000, 500000, 0.4)],
        rule=INST + "; multiplier vectors around the costs, ties, reused objects. Non-trivial: at least one column is left out of "
             "the core; distinct by generator choices.",
        technique="property-based testing: pricing result against a direct re-implementation of the two selection rules",
        level_note="Columns whose reduced cost is within rounding of a threshold may go either way."),
    "C16": dict(
        units=[Unit("subgrad.rel", "phase", 60000, 3000000)],
        rule=INST + "; starting multipliers, cutoffs, step sizes, heuristic iteration counts, reused objects. Non-trivial: the phase "
             "makes several iterations; distinct by generator choices.",
        technique="property-based testing: subgradient and heuristic phase results against exact optimum and core coherence",
        level_note="Held on every generated call."),
    "C17": dict(
        units=[Unit("io.rel", "formats", 200000, 10000000)],
        rule="instances written by an independent writer in RAIL, SCP, CVRP and MPS with drawn spacing, line breaks, trailing blanks, "
             "number spelling and line ends. Non-trivial: two rows and two columns or more; distinct by generator choices.",
        technique="property-based testing: write/read round-trip with an independent writer over drawn layouts",
        level_note="Exact comparison of rows, columns, costs and initial solution."),
    "C18": dict(
        units=[Unit("io.rel", "corrupt", 100000, 5000000), Unit("io.rel", "truncated", 100000, 5000000),
               Unit("io.san", "bytes", 60000, 2500000), Unit("io.san", "corrupt", 15000, 500000, 0.5),
               Unit("io.san", "truncated", 15000, 500000, 0.5)],
        rule="valid files of every format with one token corrupted (must be rejected), trailing tokens or lines removed (rejected or "
             "the same instance), bytes mutated (exception or coherent instance), under address and undefined-behaviour "
             "sanitizers. Non-trivial: the file differs from the valid one inside its data; distinct by generator choices.",
        technique="structured fuzzing: grammar-based mutation of instance files with coherence oracle and sanitizers",
        level_note="Corruptions are limited to those which no reading of the format makes valid."),
    "C19": dict(
        units=[Unit("io.rel", "solution", 100000, 5000000), Unit("io.rel", "write_fault", 60000, 2000000)],
        rule="solutions with any finite cost and up to thousands of columns over existing file contents; writes stopped at any byte, "
             "full device, unopenable paths. Non-trivial: two columns or more, or an injected fault; distinct by choices.",
        technique="property-based testing: round-trip and write-fault injection at every byte offset",
        level_note="Bitwise cost comparison."),
    "C20": dict(
        units=[Unit("io.rel", "loading", 200000, 10000000), Unit("io.rel", "unknown_parser", 5000, 50000, 0.2)],
        rule="files of every format with and without unit costs and with valid, out-of-range, repeated, non-covering or mispriced "
             "initial solutions. Non-trivial: two rows and columns or more; distinct by generator choices.",
        technique="property-based testing: loaded data against a reference computed from the generated instance",
        level_note="Held on every generated file."),
    "C26": dict(
        units=[Unit("util.rel", "views", 600000, 30000000), Unit("util.rel", "numbers", 600000, 30000000),
               Unit("util.san", "views", 100000, 4000000, 0.4), Unit("util.san", "numbers", 100000, 4000000, 0.4)],
        rule="byte strings of five kinds (blanks, letters, any bytes, digits and signs) between guard bytes; lines of one to four "
             "number tokens around the limits of eleven target types, malformed numbers, hexadecimal, infinities. Non-trivial: "
             "at least one token and three bytes (views), a non-empty line (numbers); distinct by generator choices.",
        technique="property-based testing: text views against std::string, conversions against an arbitrary-precision reference and "
                  "the C library, with sanitizers",
        level_note="Number text ends where the view ends (as in every caller); reals may be rounded either directly or through long double."),
    "C27": dict(
        units=[Unit("util.rel", p, 300000, 12000000) for p in ("counters", "sorted_array", "matrix", "rows")] +
              [Unit("util.san", p, 20000, 800000, 0.3) for p in ("counters", "sorted_array", "matrix", "rows")],
        rule="histories of up to 40 operations on counters, bounded sorted arrays of capacity 1 to 17 with several keys, sparse "
             "matrices of four index types, and row lists filled repeatedly. Non-trivial: an operation had a partial effect, an "
             "element was dropped, two columns are non-empty or three entries exist; distinct by generator choices.",
        technique="property-based testing: stateful histories against simple models, with sanitizers",
        level_note="Elements of equal key may be kept or dropped at capacity."),
    "C28": dict(
        units=[Unit("util.rel", p, 400000, 15000000) for p in ("ordering", "helpers", "durations")] +
              [Unit("util.san", p, 40000, 1500000, 0.3) for p in ("ordering", "helpers")],
        rule="sequences of up to 300 values of seven types in random, sorted, reversed, rotated and near-sorted order with several "
             "keys; helper arguments including type limits. Non-trivial: three elements or more, or a predicate that splits the "
             "sequence; distinct by generator choices.",
        technique="property-based testing: results against their definitions and the standard library, with sanitizers",
        level_note="Checked conversions that must fail are tried in the checked build only."),
    "C29": dict(
        units=[Unit("util.rel", "streams", 60000, 2000000)],
        rule="seeds small, large, single-bit, producing zero seed words and uniform; up to 20000 draws; copies at any position. "
             "Non-trivial: at least 20 draws; distinct by generator choices.",
        technique="property-based testing: differential against independent implementations of the published generators",
        level_note="Bitwise comparison."),
    "C30": dict(
        units=[Unit("util.rel", "extremes", 400000, 15000000), Unit("util.rel", "uniform", 8000, 300000, cpu=60),
               Unit("util.rel", "uniform_dice_wide", 4000, 200000, cpu=60)],
        rule="words chosen at the extremes fed through every draw function and type; 20000 to 65536 draws per case from every "
             "generator, tested by bins, pairs of draws and binary digits. Non-trivial: a range of more than one value; distinct by choices.",
        technique="property-based testing: range invariants on chosen generator words and chi-square tests on generated seeds",
        level_note="Statistical limits at seven standard deviations."),
    "C31": dict(
        units=[Unit("solver.rel", "stop_target", 40000, 1500000), Unit("solver.rel", "stop_allfixed", 30000, 1000000, 0.5),
               Unit("solver.rel", "stop_bound", 8000, 300000, 0.7),
               Unit("progress.rel", "exit_checks", 10000, 300000, 0.4, cpu=60)],
        rule=INST + "; pairs of solves that differ in one stopping parameter (beta, min_fixing = 1, exit thresholds, epsilon), with and "
             "without warm start, against the three-phase call on the whole instance. Non-trivial: refinement improves the first phase's "
             "cover, or the phase left a gap, or the wider thresholds stopped it earlier; distinct by generator choices.",
        technique="property-based testing: metamorphic relations between solves with different stopping parameters",
        level_note="Bitwise comparison; costs within rounding of a target may go either way."),
    "C32": dict(
        units=[Unit("fixing.rel", "rule", 600000, 20000000), Unit("fixing.san", "rule", 20000, 600000, 0.4),
               Unit("progress.rel", "fix_count", 600, 30000, cpu=60)],
        rule=INST + "; costs and multipliers on a grid, some columns pulled to reduced costs around the threshold, original row counts "
             "around multiples of 200, reused objects; whole three-phase calls on large instances. Non-trivial: two attractive columns and "
             "more than five columns, or three fixing steps on fewer rows than the original; distinct by choices.",
        technique="property-based testing: fixed columns against a direct statement of the rule",
        level_note="Exact reduced costs; the greedy part is the public greedy step, which C12 judges."),
    "C33": dict(
        units=[Unit("progress.rel", "progress", 12000, 400000, cpu=60), Unit("tool.rel", "toollog", 8000, 300000, 0.4, cpu=60)],
        rule=INST + "; each instance solved at three verbosity levels with standard output captured and walked line by line; runs of the "
             "executable with drawn options. Non-trivial: a refinement round is reported, or a solution of two columns or more; "
             "distinct by generator choices.",
        technique="property-based testing: captured output against a model of the run it describes and nesting of the verbosity levels",
        level_note="Numbers compared to their printed precision; times are masked."),
    "C34": dict(
        units=[Unit("progress.rel", "refinement", 40000, 1500000, cpu=20)],
        rule=INST + "; costs rounded so that sums are exact and mostly made different, weak heuristic phases, fractions and growth factors, "
             "warm starts. Non-trivial: at least one round that fixes a column; distinct by generator choices.",
        technique="property-based testing: full solve against a replay from fresh three-phase calls and a statement of the fixing rule",
        level_note="Where contributions tie within rounding the printed numbers decide which of the allowed sets was fixed; if they cannot, the case ends there."),
    "C35": dict(
        units=[Unit("progress.rel", "phases", 40000, 1500000, cpu=20)],
        rule=INST + "; costs rounded so that sums are exact and mostly made different; one shared object and fresh ones. "
             "Non-trivial: at least two iterations; distinct by generator choices.",
        technique="property-based testing: three-phase call against a reference composed of the public phases",
        level_note="The phases themselves are judged by C11 to C16 and C32."),
    "C21": dict(
        units=[Unit("cli.rel", "options", 600000, 30000000), Unit("cli.dbg", "options", 100000, 3000000, 0.3)],
        rule="argument vectors of up to 20 options in short or long form with repetitions, values that look like options, numbers "
             "at type limits, malformed or out-of-range numbers, unknown options, a missing last value; standard output captured. "
             "Non-trivial: at least four arguments after the program name, or an expected error; distinct by generator choices.",
        technique="property-based testing: resulting settings and messages against a left-to-right model",
        level_note="Numbers with trailing garbage and negative unsigned numbers are outside the claim."),
    "C22": dict(
        units=[Unit("tool.rel", "tool", 20000, 1000000, cpu=60), Unit("tool.san", "tool", 1500, 60000, 0.4, cpu=60)],
        rule="instances of up to 30 rows x 90 columns in every format, option combinations, and faults: infeasible, malformed, empty, "
             "truncated or missing instance, bad initial solution, missing directory, full device, write stopped after 0 or 1 "
             "bytes, bad options. Each case runs the real executable in a scratch directory. Non-trivial: a fault, or a "
             "solution of two columns or more; distinct by generator choices.",
        technique="property-based testing: executable's exit status, output files and messages against cover, cost and library results",
        level_note="Held on every generated run.",
        assumptions=["/dev/full exists"]),
    "C23": dict(
        units=[PyUnit("pysolver", "history", 40000, 2000000)],
        rule="histories of up to twelve batches of added sets (five shape families, seven cost regimes, growing element ranges), "
             "loaded files and solves with drawn parameters, getters queried after every step. Non-trivial: a solve of at least three "
             "elements returns two sets or more; distinct by the JSON history.",
        technique="property-based testing: stateful histories on the Python class against a model of the added sets and exact optima",
        level_note="Optimum by dynamic programming up to ten elements."),
    "C24": dict(
        units=[PyUnit("pysolver", "invalid", 40000, 2000000)],
        rule="as C23 with invalid calls in between: bad costs, elements and parameters, missing, malformed, infeasible or wrongly typed "
             "files, elements in no set. A twin solver receives the valid calls only. Non-trivial: as C23, with at least one invalid call.",
        technique="property-based testing: stateful histories with invalid calls against a twin that never saw them",
        level_note="After every refused call the getters and all later results are those of the twin.",
        assumptions=["element 32767, the largest row index, is outside the claim"]),
    "C25": dict(
        units=[PyUnit("pysolver", "native", 40000, 2000000), PyUnit("pysolver", "files", 20000, 1000000)],
        rule="sets added or loaded from files of the four formats, then up to three solves with every parameter drawn, compared with "
             "native solves of the same data. Non-trivial: a solve of at least three elements returns two sets or more.",
        technique="property-based testing: differential between the Python class and a native build",
        level_note="Bitwise comparison of solution, cost, bound and multipliers; printed lines compared by their beginnings."),
}

NOT_APPLICABLE = {}
