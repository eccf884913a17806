#!/usr/bin/env python3
"""Property-based testing of the Python interface (C23, C24, C25).

A case is a JSON history of operations on SetCoverSolver, a deterministic function of (seed, index).
Cases run in worker processes; a failing, crashing or hanging one is confirmed in a fresh process,
shrunk by deleting and simplifying parts of the history, and written as JSON (the replay file).

  hist.py --run PROP --cases N --seed S --jobs J --out F --replay-dir D --tag T --wall W --cpu C --shrink T
  hist.py --replay FILE
PYTHONPATH holds the package built from /repo, VF_NATIVE the native solver.
"""
import argparse, ctypes, hashlib, json, os, random, shutil, signal, sys, tempfile, time

INF = float("inf")
DEFAULTS = dict(seed=0, time_limit=INF, verbose=2, epsilon=0.999, heur_iters=250, alpha=1.1, beta=1.0, abs_subgrad_exit=1.0,
                rel_subgrad_exit=0.001, min_fixing=0.3)


class Violation(Exception):
    pass


class Stats:
    def __init__(self):
        self.classes, self.nontrivial = set(), False

    def cls(self, l):
        self.classes.add(l)


def require(b, msg):
    if not b:
        raise Violation(msg)


# ---- generation -----------------------------------------------------------------------------

def gen_costs(r, sets, fam):
    mode = r.choice(["unit", "small", "quarter", "mixed", "big", "zeros", "bysize"])
    out = []
    for s in sets:
        out.append({"unit": 1, "small": r.randint(1, 9), "quarter": r.randint(1, 200) * 0.25, "big": r.randint(1, 40) * 1000.0,
                    "mixed": r.choice([r.randint(1, 20), r.randint(1, 80) * 0.25]), "zeros": r.choice([0, 0.0, 1, 2]),
                    "bysize": len(set(s)) * 2 + r.randint(0, 3)}[mode])
    return out


def gen_sets(r, n, m):
    """m sets over elements 0..n-1, not always covering everything."""
    fam = r.choice(["uniform", "cycle", "short", "hitting", "dense"])
    sets = []
    if fam == "cycle":
        w = r.randint(1, max(1, min(4, n)))
        for i in range(m):
            sets.append([(i + k) % n for k in range(w)])
    elif fam == "hitting":
        sets = [[] for _ in range(m)]
        for e in range(n):
            for j in r.sample(range(m), min(m, 3)):
                sets[j].append(e)
        sets = [s or [r.randrange(n)] for s in sets]
    else:
        mx = {"uniform": max(1, n // 2), "short": min(3, n), "dense": n}[fam]
        for _ in range(m):
            sets.append(r.sample(range(n), r.randint(1, mx)))
    if r.random() < 0.3:
        for s in sets:
            r.shuffle(s)
    return sets, fam


def gen_params(r, rich):
    p = {}
    if r.random() < 0.9:
        p["verbose"] = r.choice([0, 0, 1, 2, 3, 5]) if rich else 0
    p["heur_iters"] = r.choice([0, 1, 3, 10, 30, 60])
    if r.random() < (0.8 if rich else 0.4):
        for k, vs in (("seed", [0, 1, 7, 12345, 2 ** 40 + 3, 2 ** 64 - 1, r.randrange(1000), r.randrange(1000)]),
                      ("epsilon", [0.999, 0.01, 0.001, 0.5, 0.1, 0]), ("alpha", [1.1, 1.5, 3.0, 2, 1.05]), ("beta", [1.0, 0.0, 0.5, 1.1, 2]),
                      ("abs_subgrad_exit", [1.0, 0.0, 10.0, 0.01, 5]), ("rel_subgrad_exit", [0.001, 0.0, 0.1, 0.5]),
                      ("min_fixing", [0.3, 0.1, 0.7, 1.0]), ("time_limit", [INF, 1e6, 3600, -1.0, -1])):
            if r.random() < (0.6 if rich else 0.25):
                p[k] = r.choice(vs)
    if r.random() < 0.12:
        p["use_unit_costs"] = r.choice([True, True, False])
    if "heur_iters" in p and r.random() < 0.05:
        del p["heur_iters"]
    return p


def gen_large(r):
    """An instance large enough for every stopping parameter to matter, and such parameters."""
    n, m = r.choice([40, 60, 90]), r.choice([80, 150, 250])
    k, top = r.choice([2, 3, 5]), r.choice([3, 9, 40])
    sets = [sorted(r.sample(range(n), r.randint(1, k))) for _ in range(m)]
    left = set(range(n)) - {e for s in sets for e in s}
    sets += [[e] for e in sorted(left)]
    unit = r.choice([1, 0.25, 1.5])
    adds = [[s, r.randint(1, top) * unit] for s in sets]
    p = {"verbose": 0, "heur_iters": r.choice([0, 1, 3, 10])}
    for k, vs in (("epsilon", [0.999, 0.01, 0.25]), ("alpha", [1.1, 1.5, 3.0]), ("beta", [1.0, 1.02, 1.1, 0.5]),
                  ("abs_subgrad_exit", [0.01, 0.05, 0.2, 0.5, 2, 1e30]), ("rel_subgrad_exit", [0.0002, 0.005, 0.02, 0.3, 10.0]),
                  ("min_fixing", [0.1, 0.5, 0.8]), ("seed", [1, 77, 2 ** 33])):
        if r.random() < 0.8:
            p[k] = r.choice(vs)
    return adds, p


BAD_COSTS = [-1, -0.001, -1e-30, float("nan"), INF, -INF, 1e39, 3.5e38, "x", None, [1], {}]
BAD_ELEMS = [[], [-1], [0, -5], [3, 0, -1], [40000], [32768], [2 ** 31], [2 ** 70], [0, 70000, 1], [1.5], ["a"], None, [[0]], [None], [0, "1"], 5]
BAD_SOLVE = [{"foo": 1}, {"alpha": "x"}, {"seed": -1}, {"seed": 2 ** 64}, {"seed": 1.5}, {"heur_iters": -3}, {"time_limit": None}, {"verbose": "a"},
             {"verbose": -1}, {"epsilon": None}, {"beta": []}, {"min_fixing": "0.3"}, {"rel_subgrad_exit": None}, {"abs_subgrad_exit": {}},
             {"heur_iters": 2 ** 64}]
BAD_FILES = ["missing", "directory", "empty", "truncated", "uncovered", "wrong_parser", "unknown_parser", "negative", "text"]


def gen_adds(r, model_n, st):
    grow = r.random()
    if model_n == 0 or grow < 0.35:
        n = model_n + r.choice([1, 1, 2, 3, 5, 8, 12, 20] if model_n else [1, 2, 4, 8, 10, 10, 20, 40])
    else:
        n = model_n
    m = r.choice([1, 1, 2, 4, 8, 15, 30] if model_n else [1, 3, 8, 15, 30, 60])
    sets, fam = gen_sets(r, n, m)
    costs = gen_costs(r, sets, fam)
    adds = [[s, c] for s, c in zip(sets, costs)]
    if r.random() < 0.8:  # complete it
        left = set(range(n)) - {e for s in sets for e in s} - (st or set())
        for e in sorted(left):
            if r.random() < 0.5 and adds:
                adds[r.randrange(len(adds))][0].append(e)
            else:
                adds.append([[e], r.choice([1, 3, 7.5])])
    return adds


def gen_file_case(r):
    n = r.choice([1, 3, 6, 10, 12, 25])
    m = r.choice([1, 3, 8, 20, 40])
    sets, fam = gen_sets(r, n, m)
    sets = [sorted(set(s)) for s in sets]
    for e in range(n):
        if not any(e in s for s in sets):
            sets[r.randrange(m)] = sorted(set(sets[r.randrange(m)]) | {e})
    left = set(range(n)) - {e for s in sets for e in s}
    if left:
        sets.append(sorted(left))
    costs = [int(c) if float(c).is_integer() else c for c in gen_costs(r, sets, fam)]
    parser = r.choice(["RAIL", "SCP", "CVRP", "MPS"])
    init = None
    if parser == "CVRP":
        todo, init = set(range(n)), []
        order = list(range(len(sets)))
        r.shuffle(order)
        for j in order:
            if todo & set(sets[j]):
                init.append(j)
                todo -= set(sets[j])
    return dict(parser=parser, n=n, sets=sets, costs=costs, init=init)


def gen_case(prop, seed, index):
    r = random.Random("%s/%d/%d" % (prop, seed, index))
    ops = []
    if prop in ("history", "invalid"):
        n, seen = 0, set()
        for _ in range(r.choice([2, 3, 5, 8, 12])):
            x = r.random()
            if n == 0 and x < 0.6 or x < 0.35:
                adds = gen_adds(r, n, seen)
                if prop == "invalid" and r.random() < 0.3:  # repeated elements within a set
                    for a in adds:
                        if r.random() < 0.5:
                            a[0] += [r.choice(a[0]) for _ in range(r.randint(1, 3))]
                ops.append(["add", adds])
                for s, _ in adds:
                    seen |= set(s)
                n = max(seen) + 1
            elif x < 0.45 and r.random() < 0.5:
                f = gen_file_case(r)
                ops.append(["file", f])
                n, seen = f["n"], set(range(f["n"]))
            elif prop == "invalid" and x < 0.8:
                k = r.choice(["cost", "cost", "elems", "elems", "solve", "file", "gap"])
                if k == "cost":
                    ops.append(["bad_cost", [r.choice([[0], [r.randrange(n + 3)], list(range(n + 1))]), r.randrange(len(BAD_COSTS))]])
                elif k == "elems":
                    ops.append(["bad_elems", [r.randrange(len(BAD_ELEMS)), r.choice([1, 2.5, 0])]])
                elif k == "solve":
                    ops.append(["bad_solve", [gen_params(r, False), r.randrange(len(BAD_SOLVE))]])
                elif k == "gap":
                    ops.append(["gap", [r.randint(1, 3), gen_params(r, False)]])
                    n += ops[-1][1][0] + 1
                    seen.add(n - 1)
                    seen |= set(range(n))
                else:
                    ops.append(["bad_file", [gen_file_case(r), r.choice(BAD_FILES)]])
            else:
                ops.append(["solve", gen_params(r, False)])
        ops.append(["solve", gen_params(r, False)])
    else:
        if prop == "files":
            ops.append(["file", gen_file_case(r)])
        else:
            if prop == "native" and r.random() < 0.3:
                adds, p = gen_large(r)
                return dict(prop=prop, ops=[["add", adds], ["solve", p]])
            ops.append(["add", gen_adds(r, 0, None)])
        for _ in range(r.choice([1, 1, 2, 3])):
            if ops[-1][0] == "solve" and r.random() < 0.25:
                ops.append(["add", gen_adds(r, 3, None)[:3]])
            ops.append(["solve", gen_params(r, True)])
    return dict(prop=prop, ops=ops)


# ---- oracles --------------------------------------------------------------------------------

def f32(x):
    return ctypes.c_float(x).value


def optimum(sets, costs, n):
    masks = [sum(1 << e for e in set(s)) for s in sets]
    by = [[j for j, m in enumerate(masks) if m >> e & 1] for e in range(n)]
    best = {0: 0.0}
    full = (1 << n) - 1
    arr = [INF] * (full + 1)
    arr[0] = 0.0
    for st in range(full):
        c = arr[st]
        if c == INF:
            continue
        e = ((~st) & (st + 1)).bit_length() - 1
        for j in by[e]:
            t = st | masks[j]
            if c + costs[j] < arr[t]:
                arr[t] = c + costs[j]
    return arr[full]


class VIn(ctypes.Structure):
    _fields_ = [("nrows", ctypes.c_int), ("ncols", ctypes.c_int), ("begs", ctypes.POINTER(ctypes.c_int)), ("idxs", ctypes.POINTER(ctypes.c_int)),
                ("costs", ctypes.POINTER(ctypes.c_double)), ("seed", ctypes.c_uint64), ("heur_iters", ctypes.c_uint64)] + \
               [(k, ctypes.c_double) for k in ("epsilon", "alpha", "beta", "abs_exit", "rel_exit", "min_fixing", "time_limit")] + \
               [("warm", ctypes.POINTER(ctypes.c_int)), ("nwarm", ctypes.c_int), ("warm_cost", ctypes.c_double), ("verbose", ctypes.c_uint64)]


class VOut(ctypes.Structure):
    _fields_ = [("status", ctypes.c_int), ("msg", ctypes.c_char * 600), ("nsol", ctypes.c_int), ("cap_sol", ctypes.c_int),
                ("sol", ctypes.POINTER(ctypes.c_int)), ("nmults", ctypes.c_int), ("cap_mults", ctypes.c_int),
                ("mults", ctypes.POINTER(ctypes.c_double)), ("cost", ctypes.c_double), ("lb", ctypes.c_double)]


_native = None


def native_solve(n, sets, costs, params, warm, warm_cost):
    global _native
    if _native is None:
        _native = ctypes.CDLL(os.environ["VF_NATIVE"])
        _native.vf_solve.restype = None
    p = dict(DEFAULTS)
    p.update(params)
    begs, idxs = [0], []
    for s in sets:
        idxs += s
        begs.append(len(idxs))
    arr = lambda t, v: (t * max(1, len(v)))(*v)
    a_begs, a_idxs, a_costs = arr(ctypes.c_int, begs), arr(ctypes.c_int, idxs), arr(ctypes.c_double, [f32(c) for c in costs])
    a_warm = arr(ctypes.c_int, warm)
    i = VIn(n, len(sets), a_begs, a_idxs, a_costs, p["seed"], p["heur_iters"], p["epsilon"], p["alpha"], p["beta"], p["abs_subgrad_exit"],
            p["rel_subgrad_exit"], p["min_fixing"], p["time_limit"], a_warm, len(warm), warm_cost, p["verbose"])
    sol, mults = (ctypes.c_int * (2 * len(sets) + 8))(), (ctypes.c_double * (2 * n + 8))()
    o = VOut(0, b"", 0, len(sol), sol, 0, len(mults), mults, 0.0, 0.0)
    _native.vf_solve(ctypes.byref(i), ctypes.byref(o))
    require(o.status == 0, "the native solve ended by exception: %s" % o.msg)
    return list(sol[:o.nsol]), o.cost, o.lb, list(mults[:o.nmults])


class Capture:
    """Captures what is printed on the C standard output."""

    def __enter__(self):
        self.f = tempfile.TemporaryFile()
        _libc.fflush(None)
        self.save = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        return self

    def __exit__(self, *a):
        _libc.fflush(None)
        os.dup2(self.save, 1)
        os.close(self.save)
        self.f.seek(0)
        self.text = self.f.read().decode("utf8", "replace")
        self.f.close()

    def shape(self):
        return [l[:5] for l in self.text.split("\n")]


_libc = ctypes.CDLL(None)


def num(c):
    return "%d" % c if float(c).is_integer() else repr(float(c))


def write_file(path, f, how=None):
    n, sets, costs = f["n"], f["sets"], f["costs"]
    if how == "negative":
        sets = [[e - 5 for e in s] for s in sets]
    if how == "uncovered":
        n += 2
    L = []
    if f["parser"] == "RAIL":
        L = ["%d %d" % (n, len(sets))] + ["%s %d %s" % (num(c), len(s), " ".join(str(e + 1) for e in s)) for s, c in zip(sets, costs)]
    elif f["parser"] == "SCP":
        L = ["%d %d" % (n, len(sets)), " ".join(num(c) for c in costs)]
        for e in range(n):
            js = [j + 1 for j, s in enumerate(sets) if e in s]
            if how == "negative":
                js = [-3] * max(1, len(js))
            L += [str(len(js))] + ([" ".join(map(str, js))] if js else [])
    elif f["parser"] == "CVRP":
        L = ["%d %d" % (n, len(sets))] + ["%s %s %s" % (num(c), num(c), " ".join(map(str, s))) for s, c in zip(sets, costs)]
        L.append(" ".join(map(str, f["init"])))
    else:
        L = ["NAME x", "ROWS", " N OBJ"] + [" G R%d" % e for e in range(n)] + ["COLUMNS"]
        for j, (s, c) in enumerate(zip(sets, costs)):
            ent = [("OBJ", num(c))] + [("R%d" % e if e >= 0 else "Q", "1") for e in s]
            L += ["    x%d %s %s" % (j, a, b) for a, b in ent]
        L += ["RHS"] + ["    RHS R%d 1" % e for e in range(n)] + ["ENDATA"]
    text = "\n".join(L) + "\n"
    if how == "empty":
        text = ""
    if how == "text":
        text = "this is not an instance\n"
    if how == "truncated":
        k = text.rstrip().rfind("\n", 0, max(2, len(text) // 2))
        text = text[:max(k, 1)] + "\n"
    with open(path, "w") as h:
        h.write(text)


# ---- execution ------------------------------------------------------------------------------

class Model:
    def __init__(self):
        self.sets, self.costs, self.n, self.res, self.unit = [], [], 0, None, False

    def add(self, s, c):
        self.sets.append(list(dict.fromkeys(s)))
        self.costs.append(c)
        if max(s) + 1 > self.n:
            self.n = max(s) + 1
            self.res = None

    def feasible(self):
        return {e for s in self.sets for e in s} == set(range(self.n))


def getters(s):
    return (s.get_solution(), s.get_cost(), s.get_lower_bound(), s.get_dual_multipliers())


def same(a, b):
    return repr(a) == repr(b)


def check_getters(s, m, what):
    g = getters(s)
    if m.res is None:
        require(g[0] is None and g[1] is None and g[3] is None and g[2] == 0, "%s: getters report %r without a valid solve" % (what, g))
    else:
        require(same(g, m.res), "%s: getters report %r instead of the last valid result %r" % (what, g, m.res))
        if g[0]:
            g[0].append(-7)  # the caller's list is its own
            require(same(getters(s), m.res), "%s: changing the returned list changes the solver" % what)


def check_solved(s, m, params, what, stats):
    """Validity of the result of a solve; updates the model."""
    g = getters(s)
    sol, cost, lb, mults = g
    unit = bool(params.get("use_unit_costs", False))
    costs = [1.0] * len(m.costs) if unit else [f32(c) for c in m.costs]
    require(isinstance(sol, list) and cost is not None and mults is not None, "%s: getters report %r after a solve" % (what, g))
    require(len(set(sol)) == len(sol) and all(0 <= j < len(m.sets) for j in sol), "%s: solution %r of %d sets" % (what, sol, len(m.sets)))
    cov = {e for j in sol for e in m.sets[j]}
    require(cov == set(range(m.n)), "%s: solution %r leaves elements %r" % (what, sol, sorted(set(range(m.n)) - cov)))
    true = sum(costs[j] for j in sol)
    require(abs(cost - true) <= 1e-5 * abs(true), "%s: cost %r, the sets cost %r" % (what, cost, true))
    require(len(mults) == m.n and all(u >= 0 for u in mults), "%s: multipliers %r" % (what, mults))
    require(lb <= cost * (1 + 1e-3) + 1e-3, "%s: bound %r above the cost %r" % (what, lb, cost))
    if m.n <= 10:
        opt = optimum(m.sets, costs, m.n)
        require(lb <= opt + 1e-3 * (1 + opt), "%s: bound %r above the optimum %r" % (what, lb, opt))
        require(cost >= opt * (1 - 1e-5), "%s: cost below the optimum" % what)
    if m.res is not None and m.res[0] is not None:
        prev = sum(costs[j] for j in m.res[0])
        require(cost <= prev * (1 + 1e-5), "%s: cost %r, the previous solution costs %r" % (what, cost, prev))
        stats.cls("solved again")
    if len(sol) >= 2 and m.n >= 3:
        stats.nontrivial = True
    m.res = g
    m.unit = unit


def load(s, m, f, tmp):
    path = os.path.join(tmp, "inst")
    write_file(path, f)
    s.from_file(path, f["parser"])
    m.sets = [list(x) for x in f["sets"]]
    m.costs = list(f["costs"])
    m.n, m.res, m.unit = f["n"], None, False
    g = getters(s)
    if f["init"] is not None and g[0] is not None:
        require(g[0] == f["init"], "from_file: solution %r, the file gives %r" % (g[0], f["init"]))
        true = sum(f32(m.costs[j]) for j in g[0])
        require(abs(g[1] - true) <= 1e-5 * abs(true), "from_file: cost %r of the initial solution, the sets cost %r" % (g[1], true))
        require(g[2] <= true, "from_file: bound %r" % (g[2],))
        m.res = g
    else:
        check_getters(s, m, "from_file")


def expect_raise(f, what):
    try:
        f()
    except (MemoryError, SystemError):
        raise
    except Exception:
        return
    raise Violation("%s was accepted" % what)


def run_case(case, stats, tmp):
    from pycft import SetCoverSolver
    prop = case["prop"]
    s, m = SetCoverSolver(), Model()
    twin = SetCoverSolver() if prop == "invalid" else None
    check_getters(s, m, "new solver")
    dups = False
    for k, (op, a) in enumerate(case["ops"]):
        what = "step %d (%s)" % (k, op)
        if op == "add":
            for e, c in a:
                idx = s.add_set(list(e), c)
                require(idx == len(m.sets), "%s: index %r returned for set %d" % (what, idx, len(m.sets)))
                m.add(e, c)
                if len(set(e)) != len(e):
                    dups = True
                    stats.cls("repeated elements")
                if twin:
                    twin.add_set(list(dict.fromkeys(e)), c)
            check_getters(s, m, what)
            stats.cls("add after solve" if m.res else "add")
        elif op == "file":
            load(s, m, a, tmp)
            if twin:
                twin.from_file(os.path.join(tmp, "inst"), a["parser"])
            stats.cls("file " + a["parser"])
        elif op == "solve":
            if not m.feasible():
                expect_raise(lambda: s.solve(**a), what + ": solving with elements in no set")
                check_getters(s, m, what)
                stats.cls("infeasible solve")
                continue
            if m.n == 0:
                continue
            before, before_unit = m.res, m.unit
            with Capture() as cap:
                s.solve(**a)
            check_solved(s, m, a, what, stats)
            check_getters(s, m, what)
            stats.cls("solve")
            if twin and not dups:
                with Capture():
                    twin.solve(**a)
                g = getters(twin)
                require(same(g, m.res), "%s: result %r differs from %r of a solver without the invalid calls" % (what, m.res, g))
            if prop in ("native", "files"):
                unit = bool(a.get("use_unit_costs", False))
                costs = [1.0] * len(m.costs) if unit else m.costs
                warm = before[0] if before is not None and before[0] else []
                wc = 0.0
                for j in warm:
                    wc = f32(wc + f32(costs[j]))
                if warm and unit == before_unit:
                    wc = before[1]
                p = {q: v for q, v in a.items() if q != "use_unit_costs"}
                with Capture() as ncap:
                    nat = native_solve(m.n, m.sets, costs, p, warm, wc)
                require(same(nat, m.res), "%s: Python returns %r, the native solver %r" % (what, m.res, nat))
                require(cap.shape() == ncap.shape(), "%s: %d lines printed from Python, %d natively (verbose=%r)" %
                        (what, len(cap.shape()), len(ncap.shape()), a.get("verbose")))
                if len(cap.shape()) > 3:
                    stats.cls("printed lines compared")
                if prop == "files":  # the same sets added one by one
                    t = SetCoverSolver()
                    for e, c in zip(m.sets, m.costs):
                        t.add_set(e, c)
                    if not warm:
                        with Capture():
                            t.solve(**a)
                        require(same(getters(t), m.res), "%s: %r from the file, %r from the same sets added" % (what, m.res, getters(t)))
                        stats.cls("file against added sets")
                for q in p:
                    stats.cls("parameter " + q)
        elif op == "bad_cost":
            e, c = a[0], BAD_COSTS[a[1]]
            expect_raise(lambda: s.add_set(list(e), c), "%s: cost %r" % (what, c))
            check_getters(s, m, what)
            stats.cls("bad cost")
        elif op == "bad_elems":
            e = BAD_ELEMS[a[0]]
            expect_raise(lambda: s.add_set(list(e) if isinstance(e, list) else e, a[1]), "%s: elements %r" % (what, e))
            check_getters(s, m, what)
            stats.cls("bad elements")
        elif op == "bad_solve":
            p = dict(a[0])
            p.update(BAD_SOLVE[a[1]])
            with Capture():
                expect_raise(lambda: s.solve(**p), "%s: parameters %r" % (what, BAD_SOLVE[a[1]]))
            check_getters(s, m, what)
            stats.cls("bad parameters")
        elif op == "gap":
            # a set that skips elements: solving must fail until they are added
            gap, p = a
            new = m.n + gap
            s.add_set([new], 2)
            m.add([new], 2)
            if twin:
                twin.add_set([new], 2)
            with Capture():
                expect_raise(lambda: s.solve(**p), what + ": solving with elements in no set")
            check_getters(s, m, what)
            fill = list(range(new - gap, new)) if gap else []
            for e in fill:
                s.add_set([e], 1.5)
                m.add([e], 1.5)
                if twin:
                    twin.add_set([e], 1.5)
            check_getters(s, m, what)
            stats.cls("infeasible solve, then repaired")
        elif op == "bad_file":
            f, how = a
            path = os.path.join(tmp, "bad")
            if how == "missing":
                path = os.path.join(tmp, "no", "such")
            elif how == "directory":
                path = tmp
            else:
                write_file(path, f, how)
            parser = f["parser"]
            if how == "truncated" and parser == "MPS":
                continue  # some cuts leave a valid file
            if how == "negative" and parser == "MPS":
                continue
            if how == "uncovered":  # refused, or loaded but never solved
                try:
                    with Capture():
                        s.from_file(path, parser)
                except (MemoryError, SystemError):
                    raise
                except Exception:
                    check_getters(s, m, what)
                    stats.cls("uncovered file refused")
                    continue
                if twin:
                    with Capture():
                        twin.from_file(path, parser)
                m.sets, m.costs = [list(x) for x in f["sets"]], list(f["costs"])
                m.n, m.res = f["n"] + 2, None
                check_getters(s, m, what)
                expect_raise(lambda: s.solve(verbose=0), what + ": solving with elements in no set")
                check_getters(s, m, what)
                for e in (f["n"] + 1, f["n"]):
                    s.add_set([e], 2.5)
                    m.add([e], 2.5)
                    if twin:
                        twin.add_set([e], 2.5)
                check_getters(s, m, what)
                stats.cls("uncovered file loaded")
                continue
            if how == "wrong_parser":
                parser = {"RAIL": "MPS", "SCP": "MPS", "CVRP": "MPS", "MPS": "RAIL"}[parser]
            if how == "unknown_parser":
                parser = "XYZ"
            with Capture():
                expect_raise(lambda: s.from_file(path, parser), "%s: %s file read as %s" % (what, how, parser))
            check_getters(s, m, what)
            stats.cls("bad file")
        else:
            raise ValueError(op)
    if twin:
        stats.nontrivial = stats.nontrivial and any(o[0].startswith("bad") or o[0] == "gap" for o in case["ops"])


# ---- running --------------------------------------------------------------------------------

def guarded(case, cpu):
    """Runs one case in this process: (ok, message, stats)."""
    st = Stats()
    tmp = tempfile.mkdtemp(prefix="vfpy")
    case = json.loads(json.dumps(case))
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        run_case(case, st, tmp)
        return True, "", st
    except Violation as e:
        return False, str(e), st
    except Exception as e:
        return False, "unexpected %s: %s" % (type(e).__name__, e), st
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        shutil.rmtree(tmp, ignore_errors=True)


def run_forked(case, cpu):
    """Runs one case in a fresh process: None when it passes, else the message."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        quiet()
        ok, msg, _ = guarded(case, cpu)
        os.write(wr, json.dumps([ok, msg[:4000]]).encode())
        os._exit(0)
    os.close(wr)
    data = b""
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        data += b
    os.close(rd)
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt):
        sig = os.WTERMSIG(stt)
        return "does not end within %g CPU seconds" % cpu if sig == signal.SIGPROF else "ended by signal %d" % sig
    if not data:
        return "ended with status %d" % os.WEXITSTATUS(stt)
    ok, msg = json.loads(data)
    return None if ok else msg


def quiet():
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)
    os.close(n)


def shrink(case, cpu, budget):
    best, msg = case, run_forked(case, cpu)
    if msg is None:
        return None, None
    end = time.time() + budget

    def attempt(c):
        nonlocal best, msg
        if time.time() > end:
            return False
        try:
            r = run_forked(c, cpu)
        except Exception:
            return False
        if r is None or r.startswith("unexpected") != msg.startswith("unexpected"):
            return False
        best, msg = c, r
        return True

    progress = True
    while progress and time.time() < end:
        progress = False
        for k in range(len(best["ops"]) - 1, -1, -1):  # drop operations
            if k < len(best["ops"]):
                c = json.loads(json.dumps(best))
                del c["ops"][k]
                progress |= attempt(c)
        for k in range(len(best["ops"])):
            op, a = best["ops"][k]
            if op == "add":
                size = max(1, len(a) // 2)
                while size >= 1:  # drop blocks of sets
                    j = 0
                    while j < len(best["ops"][k][1]):
                        c = json.loads(json.dumps(best))
                        del c["ops"][k][1][j:j + size]
                        if not (c["ops"][k][1] and attempt(c)):
                            j += size
                        else:
                            progress = True
                    size //= 2
                for j in range(len(best["ops"][k][1])):
                    c = json.loads(json.dumps(best))
                    if c["ops"][k][1][j][1] != 1:
                        c["ops"][k][1][j][1] = 1
                        progress |= attempt(c)
                    e = best["ops"][k][1][j][0]
                    for q in range(len(e) - 1, -1, -1):
                        c = json.loads(json.dumps(best))
                        if len(c["ops"][k][1][j][0]) > 1 and q < len(c["ops"][k][1][j][0]):
                            del c["ops"][k][1][j][0][q]
                            progress |= attempt(c)
            elif op == "solve":
                for q in list(a):
                    c = json.loads(json.dumps(best))
                    c["ops"][k][1].pop(q, None)
                    if c["ops"][k][1] != best["ops"][k][1]:
                        progress |= attempt(c)
    return best, msg


def worker(o, w, deadline, res):
    quiet()
    cls, samples, keys = {}, [], set()
    n = nt = skipped = 0
    idx = w
    with open(res + ".cur", "w") as cur:
        while idx < o.cases:
            if time.time() > deadline:
                skipped = len(range(idx, o.cases, o.jobs))
                break
            cur.seek(0)
            cur.write("%d\n" % idx)
            cur.flush()
            case = gen_case(o.run, o.seed, idx)
            ok, msg, st = guarded(case, o.cpu)
            n += 1
            if not ok:
                with open(res, "w") as f:
                    json.dump(dict(fail=idx, msg=msg), f)
                os._exit(1)
            for l in st.classes:
                cls[l] = cls.get(l, 0) + 1
            if st.nontrivial:
                nt += 1
                keys.add(hashlib.md5(json.dumps(case).encode()).hexdigest()[:12])
                if len(samples) < 2:
                    samples.append(json.dumps(case)[:1500])
            idx += o.jobs
    with open(res, "w") as f:
        json.dump(dict(evaluations=n, skipped=skipped, classes=cls, keys=sorted(keys), samples=samples), f)
    os._exit(0)


def write_replay(o, case):
    name = "%s-%s-%s.replay" % (o.tag, case["prop"], hashlib.md5(json.dumps(case).encode()).hexdigest()[:8])
    path = os.path.join(o.replay_dir, name)
    with open(path, "w") as f:
        json.dump(case, f)
    return path


def run(o):
    t0 = time.time()
    deadline = t0 + o.wall
    base = tempfile.mkdtemp(prefix="vfpyrun")
    pids = {}
    for w in range(o.jobs):
        pid = os.fork()
        if pid == 0:
            worker(o, w, deadline, os.path.join(base, str(w)))
        pids[pid] = w
    bad = []
    while pids:
        pid, stt = os.wait()
        if pid not in pids:
            continue
        w = pids.pop(pid)
        if stt != 0:
            res = os.path.join(base, str(w))
            idx = json.load(open(res))["fail"] if os.path.exists(res) else int(open(res + ".cur").read())
            bad.append((w, idx))
            for p in pids:
                os.kill(p, signal.SIGKILL)
            for p in list(pids):
                os.waitpid(p, 0)
            pids = {}
    viol, unrep = [], 0
    for w, idx in bad:
        case = gen_case(o.run, o.seed, idx)
        msg = run_forked(case, o.cpu)
        if msg is None:  # may depend on the cases before it in the same process
            first = max(w, idx - 64 * o.jobs)
            seqs = [gen_case(o.run, o.seed, i) for i in range(first, idx + 1, o.jobs)]
            whole = dict(prop=o.run, sequence=seqs)
            m2 = run_sequence(whole, o.cpu)
            if m2 is not None:
                viol.append(dict(prop=o.run, replay=write_replay(o, whole), msg=m2 + " [after earlier cases in the same process]",
                                 case=json.dumps(case)[:4000], index=idx))
            else:
                unrep += 1
            continue
        best, m = shrink(case, o.cpu, o.shrink)
        if best is None:
            best, m = case, msg
        viol.append(dict(prop=o.run, replay=write_replay(o, best), msg=m, case=json.dumps(best)[:4000], index=idx))
    tot, cls, keys, samples, skipped = 0, {}, set(), [], 0
    for w in range(o.jobs):
        p = os.path.join(base, str(w))
        if os.path.exists(p):
            d = json.load(open(p))
            if "fail" in d:
                continue
            tot += d["evaluations"]
            skipped += d["skipped"]
            keys |= set(d["keys"])
            samples += d["samples"]
            for k, v in d["classes"].items():
                cls[k] = cls.get(k, 0) + v
    shutil.rmtree(base, ignore_errors=True)
    samples.sort(key=len)
    out = dict(prop=o.run, evaluations=tot, distinct_nontrivial=len(keys), discarded=0, not_run_wall_budget=skipped, unreproduced=unrep,
               wall_s=round(time.time() - t0, 2), classes=cls, nums={}, samples=samples[:2] + samples[-1:], violations=viol)
    if o.out:
        json.dump(out, open(o.out, "w"))
    else:
        print(json.dumps(out, indent=1))
    return 1 if viol else 0


def run_sequence(whole, cpu):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        quiet()
        msg = None
        for c in whole["sequence"]:
            ok, m, _ = guarded(c, cpu)
            if not ok:
                msg = m
                break
        os.write(wr, json.dumps(msg).encode())
        os._exit(0)
    os.close(wr)
    data = os.read(rd, 65536)
    os.close(rd)
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt):
        return "ended by signal %d" % os.WTERMSIG(stt)
    return json.loads(data) if data else "ended early"


def main():
    ap = argparse.ArgumentParser()
    for a, t, d in (("run", str, ""), ("cases", int, 100), ("seed", int, 1), ("jobs", int, 8), ("out", str, ""), ("replay-dir", str, "."),
                    ("tag", str, "py"), ("wall", float, 60), ("cpu", float, 30), ("shrink", float, 25), ("replay", str, "")):
        ap.add_argument("--" + a, type=t, default=d)
    o = ap.parse_args()
    import pycft  # fails here, loudly, when the package does not import
    if o.replay:
        case = json.load(open(o.replay))
        msg = run_sequence(case, o.cpu) if "sequence" in case else run_forked(case, o.cpu)
        print("%s %s\n%s\n%s" % (case["prop"], "FAILS" if msg else "passes", msg or "", json.dumps(case)[:3000]))
        return 1 if msg else 0
    return run(o)


if __name__ == "__main__":
    sys.exit(main())
