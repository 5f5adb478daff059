"""Self-tests of the machinery: repeatability of runs, and the simulated pools against CPython's own.

check.py selftest            everything
check.py selftest digests PID N    (internal) digests of N runs as JSON
"""
import json
import os
import subprocess
import sys

from dst.seams import REAL

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Conform:
    """Plays the pool programs inside one simulated run."""

    def run(self, plan, sim):
        from dst import conform

        out = {}
        for k, f in conform.programs().items():
            sim.begin_op()
            out[k] = conform.outcome(f)
            sim.end_op()
        alive = [p for p in sim.pools if not p.dead and not p.deaf]
        sim.known.append([out, len(alive)])


def digests(pid, n):
    from dst import main, runner

    props = main.boot()
    prop = props.PROPS[pid]
    seeds = [runner.derive("selftest", pid, i) for i in range(n)]
    res = runner.search(prop, seeds, "quick", 600)
    res.sort(key=lambda r: r["i"])
    print(json.dumps([[r["i"], r.get("digest"), r.get("counts"), r.get("violation"), r.get("harness"), round(r.get("sim_time", 0), 9)] for r in res]), file=REAL.stdout)
    return 0


def repeatable(n):
    """The same seeds in two processes with different string hashing: identical event logs, outcomes and clocks."""
    from dst import props  # noqa

    bad = 0
    for pid in sorted(props.PROPS):
        outs = []
        for hs in ("0", "4242"):
            env = {k: v for k, v in os.environ.items() if k != "DST_REEXEC"}
            env["DST_HASHSEED"] = hs
            p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), "selftest", "digests", pid, str(n)], env=env, capture_output=True, text=True)
            outs.append(json.loads(p.stdout.splitlines()[-1]) if p.stdout else p.stderr)
        same = outs[0] == outs[1] and len(outs[0]) == n
        bad += not same
        where = "" if same else next(((a, b) for a, b in zip(*outs) if a != b), outs)
        print(f"repeatable {pid}: {'ok' if same else 'DIFFERS'} ({n} seeds, two hash seeds) {where}", file=REAL.stdout, flush=True)
    return bad


def conformance(n):
    from dst import main, runner

    env = {k: v for k, v in os.environ.items()}
    env["PYTHONPATH"] = VERIF
    p = subprocess.run([sys.executable, "-B", "-m", "dst.conform"], env=env, capture_output=True, text=True, cwd=VERIF)
    real = json.loads(p.stdout.splitlines()[-1])
    main.boot()
    bad = 0
    for s in range(n):
        for start in ("fork", "spawn"):
            r = runner.isolated(Conform(), {"env": {"start": start}}, s)
            if "harness" in r or r["violation"]:
                print("conformance:", r, file=REAL.stdout)
                bad += 1
                continue
            (got, alive), = r["known"]
            diff = {k: (real[k], got[k]) for k in real if real[k] != got[k]}
            if diff or alive:
                bad += 1
                print(f"conformance seed {s} {start}: {diff} open pools {alive}", file=REAL.stdout, flush=True)
    print(f"conformance: {len(real)} programs, {2 * n} simulated runs against CPython's pools: {'ok' if not bad else 'DIFFERS'}", file=REAL.stdout)
    return bad


def main(argv):
    if argv and argv[0] == "digests":
        return digests(argv[1], int(argv[2]))
    n = int(argv[0]) if argv else 60
    bad = conformance(max(4, n // 5))
    from dst import main as m

    m.boot()
    bad += repeatable(n)
    return 1 if bad else 0
