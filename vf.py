#!/usr/bin/env python3
"""Driver of the checks.

  vf.py check ID [--tier quick|thorough] [--seed N]   build from /repo, run, write evidence/ID.json
  vf.py replay FILE                                   re-run one minimal reproduction
  vf.py list                                          the checks and their parts
  vf.py setup                                         check that the tools the checks need exist

Exit status of `check`: 0 held on everything explored, 1 violation (with a VIOLATION line),
2 the check itself could not run.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build", "run%d" % os.getpid())
REPLAYS = os.path.join(VERIF, "replays")
FINDINGS = os.path.join(VERIF, "findings", "known_findings.txt")

import builds
from checks import CHECKS


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def known_findings(pid):
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_unit(u, tier, seed, pid, wall):
    """Runs one part of a check; returns its statistics."""
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(BUILD, "out.%s.json" % re.sub(r"\W", "_", u.name))
    cases = u.quick if tier == "quick" else u.thorough
    t0 = time.time()
    tag = "%s.%s" % (pid, u.target)
    cmd = u.command(builds.path(BUILD, u.target), dict(
        prop=u.prop, cases=cases, seed=seed, out=out, replay_dir=REPLAYS, tag=tag, wall=wall, tier=tier,
        build=BUILD))
    env = dict(os.environ)
    env.update(u.env)
    env.update({"VERIF_BUILD": BUILD, "VERIF_REPO": REPO, "VERIF_DIR": VERIF})
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=wall + 300)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise RuntimeError("part %s of %s did not run (status %d)\n%s" % (u.name, pid, p.returncode, p.stdout[-4000:]))
    st = json.load(open(out))
    st["unit"] = u.name
    st["wall_s"] = round(time.time() - t0, 2)
    return st


def check(pid, tier, seed):
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    stats, errors = [], []
    units = [u for u in spec["units"] if (u.quick if tier == "quick" else u.thorough)]
    budget = 150 if tier == "quick" else 640   # seconds left to the search itself
    try:
        builds.build(BUILD, REPO, VERIF, sorted({u.target for u in units}))
        tb = time.time() - t0
        for u in units:
            left = budget - (time.time() - t0 - tb)
            wall = max(8, left * u.share / sum(v.share for v in units[units.index(u):]))
            st = run_unit(u, tier, seed, pid, wall)
            stats.append(st)
            log("  %-28s %8d cases %8d non-trivial %6.1fs%s" % (u.name, st["evaluations"], st["distinct_nontrivial"], st["wall_s"],
                "  VIOLATION" if st["violations"] else ""))
            if st["violations"]:
                break
            if st.get("not_run_wall_budget"):
                log("    (%d cases not run: time budget)" % st["not_run_wall_budget"])
            if st.get("unreproduced"):
                log("    (%d worker ends not reproduced: %s)" % (st["unreproduced"], st.get("unreproduced_msg", "")))
    except Exception as e:
        errors.append(str(e))
    finally:
        shutil.rmtree(BUILD, ignore_errors=True)
    known = known_findings(pid)
    viol, seen_known = [], {}
    for st in stats:
        for v in st["violations"]:
            k = v.get("key")
            if k and k in known:
                seen_known[k] = known[k]
            else:
                viol.append((st, v))
        for k in st.get("known", []):
            if k in known:
                seen_known[k] = known[k]
    samples = []
    for st in stats:
        samples += [{"part": st["unit"], "case": s} for s in st.get("samples", [])[:3]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
            "rule": spec["rule"],
            "samples": samples[:12],
            "parts": [{k: s[k] for k in ("unit", "evaluations", "distinct_nontrivial", "discarded", "not_run_wall_budget",
                                          "unreproduced", "classes", "nums", "wall_s") if k in s} for s in stats],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if errors:
        ev["coverage"]["errors"] = errors
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, w in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for st, v in viol:
        print("%s: %s" % (v.get("prop", st["unit"]), v["msg"]))
        print("  case: %s" % v.get("case", "")[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if viol:
        return 1
    if errors:
        for e in errors:
            print("ERROR: the check could not run: " + e)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def replay(path):
    m = re.match(r"(C\d+)\.([^-]+)-", os.path.basename(path))
    if not m:
        sys.exit("the name of a replay file starts with <check>.<build target>-")
    pid, target = m.group(1), m.group(2)
    u = [u for u in CHECKS[pid]["units"] if u.target == target][0]
    os.makedirs(BUILD, exist_ok=True)
    try:
        builds.build(BUILD, REPO, VERIF, [target])
        env = dict(os.environ)
        env.update(u.env)
        env.update({"VERIF_BUILD": BUILD, "VERIF_REPO": REPO, "VERIF_DIR": VERIF})
        return subprocess.run(u.replay_command(builds.path(BUILD, target), path), env=env).returncode
    finally:
        shutil.rmtree(BUILD, ignore_errors=True)


def setup():
    for t in ("g++", "clang++", "python3-vt"):
        if not shutil.which(t):
            print("missing tool: " + t)
            return 1
    for d in ("evidence", "replays", "build"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    print("setup: tools present")
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("list")
    sub.add_parser("setup")
    a = ap.parse_args()
    if a.cmd == "check":
        sys.exit(check(a.id, "thorough" if a.tier == "thorough" else "quick", a.seed))
    if a.cmd == "replay":
        sys.exit(replay(a.file))
    if a.cmd == "setup":
        sys.exit(setup())
    for k, v in CHECKS.items():
        print(k, ", ".join("%s[%s]" % (u.name, u.target) for u in v["units"]))


if __name__ == "__main__":
    main()
