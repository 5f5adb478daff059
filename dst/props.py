"""The properties as simulated checks: a plan generator and an oracle each."""
import copy
import errno
import os
import pickle
import random
import sys

import numpy as np

from dst import faults, sim as simmod, workload as w, world
from dst.seams import CTX, REAL, SimStream
from dst.sim import Violation
from dst.world import LOOSE, STRICT, Ref, do_call, open_pools, run_op, run_ops, settings
from dst.workload import attempt, build, observe, same, same_obs, same_outcome

WORKER_EXC = ["MemoryError", "ValueError", "InjectedError", "LinAlgError", "RuntimeError", "OSError", "IndexError",
              "OpaqueError", "TypeError", "KeyError", "AttributeError", "TimeoutError", "EOFError", "FloatingPointError",
              "ZeroDivisionError", "AssertionError", "Exception"]


class Prop:
    id = ""
    runs = {"quick": 800, "thorough": 8000}
    budget = {"quick": 120.0, "thorough": 1500.0}
    rule = ""
    faults = ""
    echoes = True  # later calls sometimes repeat earlier ones, nearly

    def gen(self, r, tier):
        raise NotImplementedError

    def run(self, plan, sim):
        raise NotImplementedError


def finish(sim, v=None):
    pass


def gen_stalls(r, pools=1, p=0.4):
    out = []
    if r.random() < p:
        for _ in range(r.randint(1, 2)):
            out.append({"kind": "stall", "pool": r.randrange(pools), "task": r.randint(0, 6), "steps": r.choice([r.randint(2, 30), 10**6]),
                        "secs": r.choice([0.5, 20.0, 3600.0, 1e5])})
    return out


def gen_pre(r, cfg, tier, n=2):
    """Earlier activity on the same instance, parallel ones under the same scheduler."""
    ops = []
    for _ in range(r.randint(0, n)):
        x = r.random()
        if x < 0.6:
            op = {"op": "call", "call": gen_ens_call(r, cfg), "seed": r.choice([None, r.randrange(1000)])}
            if r.random() < 0.35:
                op["faults"] = gen_worker_faults(r, cfg)
            ops.append(op)
        elif x < 0.8:
            ops.append({"op": "noise", "scale": 1.0, "n": r.randint(1, 9)})
        else:
            ops.append({"op": "global", "what": r.choice(["np_seed", "py_seed", "np_draw"]), "v": r.randrange(1000)})
    return ops


def gen_ens_call(r, cfg, lo=16, hi=64):
    dec = cfg.get("dec")
    c = w.gen_call(r, lo=lo, hi=hi, dtypes=("f8", "f8", "f8", "f4", "i4"))
    if dec is None or dec["type"] in ("EMD", "sub"):
        c["sig"]["n"] = min(c["sig"]["n"], 200)
    elif dec["type"] in ("modes", "counting", "identity") and not cfg.get("swap") and r.random() < 0.012:  # a recording rather than a sample of one
        c["sig"]["n"] = int(10 ** r.uniform(3.2, 4.6))
    if cfg["cls"] == "CEEMDAN":
        c["max_imf"] = r.choice([-1, 1, 2, 3])
    c["progress"] = r.random() < 0.3
    if c["sig"]["k"] == "flat":  # no width of its own to scale noise with
        c["sig"]["k"] = "trend"
    return c


def gen_worker_faults(r, cfg, kinds=("trial", "decomposer", "poolstart", "interrupt")):
    """Faults in workers, at pool start, or while waiting."""
    pools = 1 if cfg["cls"] == "EEMD" else 2
    k = r.choice(kinds)
    dec = cfg.get("dec")
    own = dec is not None and dec["type"] != "EMD"
    if k == "decomposer" and not own:
        k = "trial"
    pool = r.randrange(pools)
    if k == "poolstart":
        return [{"kind": k, "pool": pool, "after": r.randint(0, 3), "errno": r.choice([errno.EAGAIN, errno.ENOMEM, errno.EMFILE, errno.ENOSPC])}]
    if k == "interrupt":
        return [{"kind": k, "wait": r.randint(1, 25)}]
    f = {"kind": k, "pool": pool, "task": r.randint(0, 6), "exc": r.choice(WORKER_EXC)}
    if r.random() < 0.25:  # one of the last
        f["task"] = max(0, cfg["kw"]["trials"] - r.randint(1, 3))
    if k == "decomposer":
        f["call"] = r.choice([0, 0, 0, 1])
    else:
        f["exc"] = r.choice(["MemoryError", "MemoryError", f["exc"]])
        f["points"] = "alloc"
        f["at"] = r.choice([["frac", round(r.random(), 4)], ["tail", r.randint(0, 6)], ["abs", r.randint(1, 8)]])
    if r.random() < 0.3:
        f["sticky"] = True  # every later task of that pool fails in the same way
    return [f]


# ==================================================================================================
class C01(Prop):
    """EEMD parallel == serial."""

    id = "C01"
    cls = "EEMD"
    runs = {"quick": 3200, "thorough": 64000}
    rule = ("plan: EEMD configuration (trials, decomposer, noise, trend separation, settings changed after construction), "
            "seed, signal, earlier calls, worker count, start method; schedule: seeded choice of every feed/take/finish/stall "
            "step. Non-trivial: at least two tasks ran in the pool of the judged call; distinct by event-log digest")

    def gen(self, r, tier):
        cfg = w.gen_eemd(r, parallel=True, max_trials=12 if tier == "quick" else 30)
        return self._plan(r, cfg, tier)

    def _plan(self, r, cfg, tier):
        pools = 1 if cfg["cls"] == "EEMD" else 2
        if r.random() < 0.15:
            cfg["swap"] = w.gen_dec(r, 1.0)
        if r.random() < 0.12:  # parallelism switched on, or its width changed, after construction
            later = cfg.setdefault("set", {})
            if r.random() < 0.5:
                cfg["kw"].pop("processes", None)
                cfg["kw"]["parallel"] = False
                later["parallel"] = True
            later["processes"] = r.randint(1, 5)
        if cfg["cls"] == "EEMD" and r.random() < 0.6:
            for d in (cfg.get("dec"), cfg.get("swap")):
                if d is not None and d["type"] in ("modes", "counting"):
                    d["set"] = {**d.get("set", {}), "probing": True}
        plan = {
            "cfg": cfg,
            "pre": gen_pre(r, cfg, tier) if r.random() < 0.4 else [],
            "seed": r.randrange(10**6),
            "call": gen_ens_call(r, cfg),
            "faults": gen_stalls(r, pools),
            "env": w.gen_env(r),
        }
        if plan["pre"] and not cfg.get("swap") and r.random() < 0.3:
            plan["late"] = gen_setting(r, cfg)
        return plan

    def run(self, plan, sim):
        cfg = plan["cfg"]
        cls = cfg["cls"]
        inst = build(cfg)
        run_ops(sim, inst, cls, plan["pre"])
        if "late" in plan:
            w.apply_settings(inst, plan["late"])
            cfg = w.with_settings(cfg, plan["late"])
        ref = Ref(sim, cfg, plan["seed"], plan["call"], scheduling=True)
        inst.noise_seed(plan["seed"])
        t0 = sim.counts.get("tasks", 0)
        sim.probes = []
        out, _ = do_call(sim, inst, cls, plan["call"], plan["faults"])
        if sim.counts.get("tasks", 0) - t0 >= 2:
            sim.count("nontrivial")
        if not ref.agrees(out):
            raise Violation("parallel-differs", f"{cls} in parallel differs from serial: {w.describe_diff(out, ref.out)}")
        if out.kind == "ok":
            d = ref.obs_diff(observe(inst, cls))
            if d is not None:
                raise Violation("parallel-accessors-differ", f"after parallel {cls} the accessors differ from serial: {d}")
        alt = w.explicit(cfg)
        if cfg.get("set") or cfg.get("swap") or cfg.get("dec") is None:
            o2, _ = sim.template.call("ref_call", w.serial(alt), plan["seed"], plan["call"])
            sim.count("explicit_configs")
            if not same_outcome(o2, ref.out, STRICT):
                raise Violation("settings-ignored", f"{cls} does not use the configured settings: {w.describe_diff(ref.out, o2)} compared with an instance constructed with them")
        if cls == "EEMD" and out.kind == "ok":
            self.model(sim, inst, plan, out)

    def model(self, sim, inst, plan, out):
        """Ensemble arithmetic on the perturbed signals the decomposer was really given."""
        dec = inst.EMD
        xs = [p for n, p in sim.probes if n == "emd"]
        if not getattr(dec, "probing", False) or len(xs) < inst.trials:
            return
        S = w.signal(plan["call"]["sig"])
        if S.max() == S.min():
            return  # nothing to scale noise with: the perturbed signals are the signal
        xs = [(x, m) for x, m in xs if not np.array_equal(x, S)]
        if len(xs) != inst.trials:
            raise Violation("trial-count", f"{len(xs)} perturbed signals were decomposed for {inst.trials} trials")
        modes = {}
        trends = []
        twin = type(dec)(limit=dec.limit, power=dec.power)
        for x, m in xs:
            if m != plan["call"]["max_imf"]:
                raise Violation("trial-arguments", f"a trial was run with max_imf={m} instead of {plan['call']['max_imf']}")
            rows = twin._rows(x, m)
            if inst.separate_trends:
                rows, t = rows[:-1], rows[-1]
                trends.append(t)
            for k, row in enumerate(rows):
                modes.setdefault(k, []).append(row)
        want = [np.mean(modes[k], axis=0) for k in sorted(modes)] + ([np.mean(trends, axis=0)] if trends else [])
        sim.count("modelled")
        if not same(out.value, np.array(want), 1e-9):
            raise Violation("trials-miscounted", f"the ensemble is not the mean over the trials that were run: {w.maxdiff(out.value, np.array(want))}")
        counts = [len(modes[k]) for k in sorted(modes)] + ([len(trends)] if trends else [])
        if list(inst.ensemble_count()) != counts:
            raise Violation("trials-miscounted", f"ensemble counts {inst.ensemble_count()} for trials that gave {counts}")


class C02(C01):
    id = "C02"
    cls = "CEEMDAN"
    runs = {"quick": 2200, "thorough": 44000}
    rule = C01.rule.replace("EEMD configuration (trials, decomposer, noise, trend separation", "CEEMDAN configuration (trials, decomposer, noise, epsilon, beta scaling")

    def gen(self, r, tier):
        cfg = w.gen_ceemdan(r, parallel=True, max_trials=8 if tier == "quick" else 24)
        return self._plan(r, cfg, tier)


# ==================================================================================================
class C03(Prop):
    """Independent noise per trial, call, instance."""

    echoes = False
    id = "C03"
    runs = {"quick": 3200, "thorough": 64000}
    rule = ("plan: 1-3 unseeded or differently seeded EEMD/CEEMDAN instances with a decomposer that reports its inputs, a "
            "sequence of calls, global re-seedings, clock jumps and user processes forked from the caller; frozen or jumping "
            "clock, reused pids. Non-trivial: at least two noise realisations were compared; distinct by event-log digest")

    def gen(self, r, tier):
        n = r.randint(200, 300)
        insts = []
        seeds = r.sample(range(1, 10**6), 12)
        for k in range(r.randint(1, 3)):
            par = r.random() < 0.6
            kw = {"trials": r.randint(2, 6) if r.random() < 0.85 else r.randint(7, 40), "parallel": par}
            if par:
                kw["processes"] = r.randint(1, 4)
            if r.random() < 0.5:
                kw["noise_kind"] = r.choice(["normal", "uniform"])
            if r.random() < 0.6:
                cls = "EEMD"
                kw["noise_width"] = r.choice([0.05, 0.2, 1.0])
                if r.random() < 0.2:
                    kw["separate_trends"] = True
            else:
                cls = "CEEMDAN"
                kw["epsilon"] = r.choice([0.005, 0.05, 0.2])
                kw["noise_scale"] = r.choice([0.5, 1.0, 2.0])
                if r.random() < 0.5:
                    kw["beta_progress"] = r.random() < 0.5
                if r.random() < 0.3:
                    kw["seed"] = seeds.pop()
            insts.append({"cls": cls, "kw": kw, "dec": {"type": "probe"}})
            if cls == "CEEMDAN" and r.random() < 0.4:  # noise with several modes: later stages are perturbed as well
                kw["trials"] = r.randint(3, 8)
                kw["epsilon"] = r.choice([0.005, 0.02, 0.05])
                insts[-1]["dec"] = {"type": "linear"}
        if r.random() < 0.03:  # a large ensemble
            n = r.choice([n, r.randint(300, 700)])
            kw = insts[0]["kw"]
            kw["trials"] = r.randint(50, 100) if insts[0]["dec"]["type"] == "linear" else r.randint(60, 220)
            kw["parallel"] = r.random() < 0.3
            kw.pop("processes", None)
            insts = insts[:1]
            call = {**self._call(r, n), "max_imf": 2}
            return {"insts": insts, "ops": [{"op": "call", "i": 0, "call": call}], "env": w.gen_env(r), "n": n}
        ops = []
        for _ in range(r.randint(1, 5)):
            i = r.randrange(len(insts))
            x = r.random()
            if x < 0.62:
                ops.append({"op": "call", "i": i, "call": self._call(r, n)})
                if r.random() < 0.2:
                    ops[-1]["faults"] = gen_worker_faults(r, insts[i])
            elif x < 0.67:
                ops.append({"op": "set", "i": i, "set": self._setting(r, insts[i])})
            elif x < 0.72:
                ops.append({"op": "global", "what": r.choice(["np_seed", "py_seed"]), "v": r.choice([0, 0, 7])})
            elif x < 0.78:
                ops.append({"op": "global", "what": "clock", "v": r.choice([-5.0, 0.0, 3600.0])})
            elif x < 0.88:
                ops.append({"op": "fork", "i": i, "fresh": r.random() < 0.8, "call": self._call(r, n)})
            elif x < 0.94:
                ops.append({"op": "seed", "i": i, "seed": seeds.pop()})
            else:
                ops.append({"op": "noise", "i": i, "scale": 1.0, "n": r.randint(1, 5)})
        if not any(o["op"] == "call" for o in ops):
            ops.append({"op": "call", "i": 0, "call": self._call(r, n)})
        return {"insts": insts, "ops": ops, "env": w.gen_env(r), "n": n}

    def _setting(self, r, cfg):
        if r.random() < 0.3:
            return {"noise_kind": r.choice(["normal", "uniform"])}
        if r.random() < 0.3:
            return {"trials": r.randint(2, 7)}
        if cfg["cls"] == "EEMD":
            return {"noise_width": r.choice([0.02, 0.1, 0.5])}
        return r.choice([{"epsilon": r.choice([0.01, 0.05])}, {"noise_scale": r.choice([0.7, 1.5])}, {"beta_progress": r.random() < 0.5}])

    def _call(self, r, n):
        return {"sig": {"k": r.choice(["mix", "chirp", "walk"]), "n": n, "s": r.randrange(10**5), "d": "f8"},
                "t": None, "max_imf": r.choice([-1, 2]), "via": "method", "progress": r.random() < 0.3}

    def run(self, plan, sim):
        if plan["n"] < 150 or any("call" in o and o["call"]["sig"]["n"] < 150 for o in plan["ops"]):
            return  # too short for the statistics below (only the minimiser gets here)
        built = {}
        insts = copy.deepcopy(plan["insts"])
        rows = []  # (label, standardised noise)
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "global":
                world.do_global(op)
                continue
            cfg = insts[op["i"]]
            if op["i"] not in built:
                built[op["i"]] = build(cfg)
            inst = built[op["i"]]
            if op["op"] in ("seed", "noise", "set"):
                run_op(sim, inst, cfg["cls"], op)
                cfg["kw"].update(op.get("set", {}))
                continue
            if op["op"] == "call":
                got = self._probed(sim, inst, cfg, op["call"], op.get("faults", ()))
                label = f"op{k}"
                if got is None:  # cut short by the injected failure; the noise it had drawn is used up
                    if cfg["cls"] == "EEMD":
                        S = w.signal(op["call"]["sig"])
                        std = cfg["kw"]["noise_width"] * abs(S.max() - S.min())
                        std *= 1.0 if cfg["kw"].get("noise_kind", "normal") == "normal" else 1 / np.sqrt(12)
                        rows += [(f"{label}#{i}(failed)", (x - S) / std) for i, x in enumerate(self.last) if x.size == S.size and not np.array_equal(x, S)]
                    continue
            else:  # a user process forked from the caller; "fresh" builds its own instance there
                sim.entropy_ids += 1
                key = f"{sim.seed}/user/{sim.entropy_ids}"
                fresh = {**cfg, "kw": {a: b for a, b in cfg["kw"].items() if a != "seed"}}
                if not op["fresh"]:
                    continue  # a forked copy of an instance continues the same stream by design

                def user():
                    CTX.entropy_key, CTX.entropy_n = key, 0
                    CTX.pid += 1
                    return self._probed(sim, build(fresh), fresh, op["call"])

                got = simmod.forkcall(user)
                sim.count("user_processes")
                label = f"op{k}(process)"
            rows += self._noises(cfg, op["call"], got, label)
        # independence of all pairs
        n = plan["n"]
        if len(rows) >= 2:
            sim.count("nontrivial")
            X = np.array([x for _, x in rows])
            X = X - X.mean(axis=1, keepdims=True)
            norm = np.sqrt((X * X).sum(axis=1, keepdims=True))
            if np.any(norm == 0):
                raise Violation("noise-missing", f"trial {rows[int(np.argmin(norm))][0]} has no noise")
            X = X / norm
            C = np.abs(X @ X.T)
            np.fill_diagonal(C, 0)
            bound = 6.5 / np.sqrt(n - 3)
            eq = self._near_equal(rows)
            if eq is not None:
                raise Violation("noise-shared", f"noise of trials {eq[0]} and {eq[1]} has {eq[2]} equal samples")
            if C.max() > bound:
                i, j = np.unravel_index(int(C.argmax()), C.shape)
                raise Violation("noise-shared", f"noise of trials {rows[i][0]} and {rows[j][0]} is not independent (correlation {C[i, j]:.3f}, bound {bound:.3f})")
            sim.count("noise_pairs", len(rows) * (len(rows) - 1) // 2)
            self._lagged(rows, X)

    def _near_equal(self, rows):
        """Two trials with several samples in common (a partly shared realisation). Labels ending in ~ are only accurate to rounding of a fit."""
        Z = np.array([z for _, z in rows])
        for i in range(len(rows) - 1):
            n_eq = (np.abs(np.abs(Z[i + 1 :]) - np.abs(Z[i])) < 1e-9).sum(axis=1)
            j = int(n_eq.argmax())
            if n_eq[j] >= 3:
                return rows[i][0], rows[i + 1 + j][0], int(n_eq[j])
        return None

    def _lagged(self, rows, X):
        """Shifted or reversed copies of one realisation."""
        n = X.shape[1]
        F = np.fft.rfft(X, axis=1)
        bound = 8.0 / np.sqrt(n - 3)
        for i in range(len(rows)):
            for G, how in ((F[i + 1 :], "shifted"), (np.conj(F[i + 1 :]), "reversed")):
                if not len(G):
                    continue
                c = np.abs(np.fft.irfft(F[i] * np.conj(G), n, axis=1))
                if c.max() > bound:
                    j = int(c.max(axis=1).argmax()) + i + 1
                    raise Violation("noise-shared", f"noise of trials {rows[i][0]} and {rows[j][0]} is a {how} copy of the other (correlation {c.max():.3f})")

    def _probed(self, sim, inst, cfg, call, flts=()):
        sim.probes = []
        out, fired = do_call(sim, inst, cfg["cls"], call, flts)
        self.last = [p for n, p in sim.probes if n == "emd"]
        if out.kind != "ok":
            if fired:
                return None
            raise Violation("call-failed", f"{cfg['cls']} with an identity decomposer {out!r}")
        return self.last

    def _stages(self, cfg, call, got, label):
        """CEEMDAN with a decomposer that halves: stage k decomposes 2^-k of the signal plus mode k of each trial's noise."""
        S = w.signal(call["sig"])
        S = S / np.std(S)
        kw = cfg["kw"]
        stages = {}
        for x, m in got:
            if m != 1 or x.size != S.size:
                continue
            z = x - x.mean()
            a = float(z @ (S - S.mean()) / (S.size * np.var(S)))
            if a < 0.02:
                continue
            stages.setdefault(int(round(-np.log2(a))), []).append(x)
        want = call["max_imf"] if call["max_imf"] > 0 else 1
        for k in range(want):
            X = np.array(stages.get(k, []))
            if len(X) < kw["trials"]:
                raise Violation("trial-count", f"{label}: {len(X)} residues decomposed for {kw['trials']} trials at stage {k + 1}")
            unit = 1.0
            if not kw.get("beta_progress", True):
                unit = 0.5 * kw["noise_scale"] * (1.0 if kw.get("noise_kind", "normal") == "normal" else 1 / np.sqrt(12))
            # what all trials have in common cancels in differences: sqrt(2) widths between two trials, 1 between a trial and the bare
            # residue (which the end condition looks at), 0 for shared noise, 2 for opposite noise
            d = np.array([np.std(X[i] - X[j]) for i in range(len(X)) for j in range(i)]) / (kw["epsilon"] * unit * 0.25**k)
            if not len(d):
                continue
            if d.min() < 0.5:
                raise Violation("noise-shared", f"{label}: two trials of stage {k + 1} have the same noise (distance {d.min():.3g} widths)")
            if d.max() > 1.75:
                raise Violation("noise-width", f"{label}: two trials of stage {k + 1} are {d.max():.3g} widths apart, which is not sqrt(2)")
            if kw["trials"] >= 2 and d.max() < 1.15:
                raise Violation("noise-width", f"{label}: trials of stage {k + 1} are {d.max():.3g} widths apart, which is not sqrt(2)")
        return []

    def _noises(self, cfg, call, got, label):
        """Noise of every trial, judged for kind and width; returns labelled rows."""
        if cfg["dec"]["type"] == "linear":
            return self._stages(cfg, call, got, label)
        S = w.signal(call["sig"])
        kw = cfg["kw"]
        n = S.size
        Sc = S - S.mean()
        rows = []
        for x in got:
            if x.size != n:
                continue
            xc = x - x.mean()
            a = float(xc @ Sc / (Sc @ Sc))
            if cfg["cls"] == "EEMD":
                if not np.array_equal(x, S):
                    rows.append(x - S)
            else:
                if np.std(x - S / np.std(S)) > 0.6:  # pure noise and residues: only trials of the signal count here
                    continue
                rows.append(x / a - S if a else x)
        rows = [x - x.mean() if cfg["cls"] == "CEEMDAN" else x for x in rows]
        if len(rows) != kw["trials"]:
            raise Violation("trial-count", f"{label}: {len(rows)} perturbed signals decomposed for {kw['trials']} trials")
        kind = kw.get("noise_kind", "normal")
        if cfg["cls"] == "EEMD":
            scale = kw["noise_width"] * abs(S.max() - S.min())
            std = scale if kind == "normal" else scale / np.sqrt(12)
        else:
            std = kw["epsilon"] * np.std(S)
            if not kw.get("beta_progress", True):
                std *= kw["noise_scale"] * (1.0 if kind == "normal" else 1 / np.sqrt(12))
        Z = np.array(rows) / std
        M = Z.size
        kurt_raw = 3.0 if kind == "normal" else 1.8
        sd_tol = 6.5 * np.sqrt((kurt_raw - 1) / (4 * M)) + 1e-3
        sd = np.sqrt((Z**2).mean())
        if cfg["cls"] == "CEEMDAN":
            sd_tol += 3e-2  # fitted scale and removed mean
        if abs(sd - 1) > sd_tol:
            raise Violation("noise-width", f"{label}: noise width is {sd:.4f} of the configured one (tolerance {sd_tol:.4f})")
        per = np.sqrt((Z**2).mean(axis=1))
        if np.any(np.abs(per - 1) > 6.5 * np.sqrt((kurt_raw - 1) / (4 * n)) + 3e-2):
            raise Violation("noise-width", f"{label}: noise width per trial {np.round(per, 3).tolist()} of the configured one")
        if cfg["cls"] == "EEMD" and abs(Z.mean()) > 6.5 / np.sqrt(M):
            raise Violation("noise-biased", f"{label}: mean of the noise is {Z.mean():.4f} widths")
        k = (Z**4).mean() / (Z**2).mean() ** 2
        k_tol = 6.5 * np.sqrt(24.0 / M) + 0.05 if kind == "normal" else 6.5 * np.sqrt(1.0 / M) + 0.05
        if abs(k - kurt_raw) > max(k_tol, 0.2) + (0.6 if kind == "normal" else 0):
            raise Violation("noise-kind", f"{label}: noise is not {kind} (kurtosis {k:.2f})")
        if kind == "uniform" and cfg["cls"] == "EEMD" and np.abs(Z).max() > np.sqrt(3) * (1 + 1e-9):
            raise Violation("noise-kind", f"{label}: uniform noise exceeds its range")
        for lag in (1, 2):
            c = (Z[:, lag:] * Z[:, :-lag]).sum() / (Z**2).sum()
            if abs(c) > 6.5 / np.sqrt(M) + 0.02:
                raise Violation("noise-coloured", f"{label}: noise samples are correlated (lag {lag}: {c:.3f})")
        return [(f"{label}#{i}", z) for i, z in enumerate(Z)]


# ==================================================================================================
def gen_insts(r, n, kinds, parallel=None):
    out = []
    for _ in range(n):
        k = r.choice(kinds)
        out.append(gen_inst(r, k, parallel))
    return out


def gen_inst(r, k, parallel=None):
    if k == "EMD":
        return {"cls": "EMD", "kw": w.gen_emd_kw(r)}
    if k == "EEMD":
        return w.gen_eemd(r, parallel, cheap=0.75, max_trials=6)
    if k == "CEEMDAN":
        return w.gen_ceemdan(r, parallel, cheap=0.75, max_trials=5)
    if k == "matlab":
        return {"cls": "matlab", "set": {"MAX_ITERATION": 30, **({"FIXE": 3} if r.random() < 0.3 else {}),
                                         **({"TIME": True} if r.random() < 0.2 else {})}}
    if k == "jit":
        c = {"cls": "jit", "jit": {}}
        if r.random() < 0.5:
            c["config"] = {"FIXE": float(r.randint(0, 4)), "MAX_ITERATION": 40.0}
        if r.random() < 0.3:
            c["jit"]["spline_kind"] = r.choice(["cubic", "akima"])
        return c
    if k == "EMD2D":
        return {"cls": "EMD2D", "kw": {"MAX_ITERATION": r.choice([4, 4, 20]), **({"FIXE": 1} if r.random() < 0.5 else {})}}
    if k == "BEMD":
        return {"cls": "BEMD", "set": {"MAX_ITERATION": 2}}
    raise KeyError(k)


DTYPES = ("f8", "f8", "f8", "f4", "i4", "i8", "i2")


def gen_any_call(r, cfg, bad=0.0):
    k = cfg["cls"]
    if k in ("EMD2D", "BEMD"):
        c = {"img": {"k": r.choice(["waves", "noise"]), "n": r.randint(8, 12), "m": r.randint(8, 12), "s": r.randrange(1000), "d": r.choice(["f8", "f8", "f4"])},
             "max_imf": r.choice([1, 1, 2]), "via": r.choice(["method", "call"])}
        if k == "BEMD":
            c["img"]["m"] = c["img"]["n"]
        return c
    if k == "jit":
        c = w.gen_call(r, lo=16, hi=48, dtypes=("f8",))
        c["t"] = {"k": r.choice(["unit", "lin", "nonuni"]), "s": r.randrange(99)}
        c["max_imf"] = r.choice([-1, 1, 2])
    elif k in ("EEMD", "CEEMDAN"):
        c = gen_ens_call(r, cfg, lo=16, hi=48)
    else:
        c = w.gen_call(r, lo=12, hi=64, dtypes=DTYPES)
        if k == "matlab":
            c["max_imf"] = r.choice([1, 2, 3, 4])
            c["via"] = "method"
    if bad and r.random() < bad:
        c["t"] = {"k": r.choice(["short", "dup"])}
    return c


def gen_setting(r, cfg):
    k = cfg["cls"]
    if k == "EMD":
        return r.choice([
            {"FIXE": r.randint(0, 4)}, {"FIXE_H": r.randint(0, 3)}, {"spline_kind": r.choice(w.SPLINES)}, {"nbsym": r.randint(1, 3)},
            {"std_thr": r.choice([0.05, 0.4])}, {"MAX_ITERATION": r.choice([5, 50])}, {"extrema_detection": r.choice(["simple", "parabol"])},
            {"range_thr": r.choice([0.001, 0.3])}, {"total_power_thr": r.choice([0.005, 1.0])}, {"spline_kind": "nonsense"},
        ])
    if k in ("EEMD", "CEEMDAN") and cfg.get("dec") is None and r.random() < 0.4:
        return r.choice([{"EMD.FIXE": r.randint(0, 3)}, {"EMD.MAX_ITERATION": r.choice([5, 30])}, {"EMD.spline_kind": r.choice(w.SPLINES)},
                         {"EMD.extrema_detection": r.choice(["simple", "parabol"])}, {"EMD.std_thr": 0.4}])
    if k in ("EEMD", "CEEMDAN") and (cfg.get("dec") or {}).get("type") in ("modes", "counting") and r.random() < 0.3:
        return {"EMD.power": r.choice([0.5, 2.0, 3.0])}
    if k == "EEMD":
        return r.choice([{"trials": r.randint(1, 6)}, {"noise_width": r.choice([0.01, 0.2])}, {"separate_trends": r.random() < 0.5}, {"noise_kind": r.choice(["normal", "uniform"])}])
    if k == "CEEMDAN":
        return r.choice([{"trials": r.randint(1, 5)}, {"epsilon": r.choice([0.01, 0.2])}, {"beta_progress": r.random() < 0.5}, {"noise_scale": r.choice([0.5, 2.0])},
                         {"noise_kind": r.choice(["normal", "uniform"])}, {"range_thr": r.choice([0.01, 0.3])}])
    if k == "matlab":
        return r.choice([{"FIXE": r.randint(0, 3)}, {"MAX_ITERATION": r.choice([5, 30])}, {"nbsym": r.randint(1, 3)}, {"stop1": 0.2}, {"splineKind": r.choice(["cubic", "akima"])}])
    if k == "jit":
        return r.choice([{"config.FIXE": float(r.randint(0, 3))}, {"config.std_thr": 0.4}, {"config.MAX_ITERATION": 20.0}, {"spline_kind": r.choice(["cubic", "akima"])}])
    return r.choice([{"MAX_ITERATION": r.randint(1, 3)}, {"FIXE": r.randint(0, 1)}, {"mean_thr": 0.1}])


def gen_caller_fault(r, cfg, call):
    """A failing allocation or an interrupt inside the call; or a failing decomposer / stderr where there is one."""
    x = r.random()
    dec = cfg.get("dec")
    if x < 0.12 and dec is not None and dec["type"] != "EMD" and not cfg["kw"].get("parallel"):
        return [{"kind": "decomposer", "call": r.randint(0, 6), "exc": r.choice(WORKER_EXC)}]
    if x < 0.2 and call.get("progress"):
        return [{"kind": "stderr", "at": r.randint(1, 6), "errno": r.choice([errno.EPIPE, errno.ENOSPC, errno.EIO])}]
    y = r.random()
    at = ["frac", round(r.random(), 4)] if y < 0.4 else ["tail", min(int(r.expovariate(1 / 12.0)), 200)] if y < 0.9 else ["abs", r.randint(1, 30)]
    f = {"kind": r.choice(["alloc", "ctrlc"]), "at": at}
    if f["kind"] == "alloc" and r.random() < 0.2:  # what numpy and scipy raise besides
        f["exc"] = r.choice(["RuntimeError", "LinAlgError", "FloatingPointError", "OSError", "ZeroDivisionError"])
    return [f]


class Instance:
    """An instance under test and the configuration a fresh equivalent would have."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.cls = cfg["cls"]
        self.inst = build(cfg)

    def change(self, s):
        w.apply_settings(self.inst, s)
        self.cfg = w.with_settings(self.cfg, s)


# ==================================================================================================
class C04(Prop):
    """Seeded reproducibility whatever happened before."""

    id = "C04"
    runs = {"quick": 2000, "thorough": 40000}
    rule = ("plan: EEMD/CEEMDAN instances, a history of calls, failed and interrupted calls, noise draws, setting changes, global "
            "re-seedings, then seed + call (or a new CEEMDAN(seed=...)), judged against a fresh process. Non-trivial: something "
            "happened before the seeded call; distinct by event-log digest")

    def gen(self, r, tier):
        insts = gen_insts(r, r.randint(1, 2), ["EEMD", "CEEMDAN"])
        ops = []
        for _ in range(r.randint(1, 4 if tier == "quick" else 8)):
            i = r.randrange(len(insts))
            x = r.random()
            if x < 0.5:
                op = {"op": "call", "i": i, "call": gen_any_call(r, insts[i], bad=0.1), "seed": r.choice([None, r.randrange(999)])}
                if r.random() < 0.5:
                    op["faults"] = gen_caller_fault(r, insts[i], op["call"]) if r.random() < 0.5 else gen_worker_faults(r, insts[i])
                ops.append(op)
            elif x < 0.65:
                ops.append({"op": "noise", "i": i, "scale": 1.0, "n": r.randint(1, 20)})
            elif x < 0.75:
                ops.append({"op": "seed", "i": i, "seed": r.randrange(999)})
            elif x < 0.87:
                ops.append({"op": "global", "what": r.choice(["np_seed", "py_seed", "np_draw"]), "v": r.randrange(99)})
            else:
                ops.append({"op": "set", "i": i, "set": gen_setting(r, insts[i])})
        i = r.randrange(len(insts))
        final = {"i": i, "seed": r.choice([0, 1, r.randrange(2**32), r.randrange(10**4)]), "call": gen_any_call(r, insts[i])}
        final["via_ctor"] = insts[i]["cls"] == "CEEMDAN" and r.random() < 0.35
        final["twice"] = r.random() < 0.4
        final["bits"] = [r.randrange(32) for _ in range(3)]
        if r.random() < 0.35:  # the very call, or nearly, has been made before, perhaps under other settings
            first = {"op": "call", "i": i, "call": copy.deepcopy(final["call"]), "seed": final["seed"]}
            if r.random() < 0.4:
                first["call"]["sig"]["s"] += 1
            k = r.randint(0, len(ops))
            ops.insert(k, first)
            if r.random() < 0.6:
                ops.insert(r.randint(k + 1, len(ops)), {"op": "set", "i": i, "set": gen_setting(r, insts[i])})
        return {"insts": insts, "ops": ops, "final": final, "env": w.gen_env(r)}

    def run(self, plan, sim):
        objs = [Instance(c) for c in plan["insts"]]
        for op in plan["ops"]:
            if op["op"] == "global":
                world.do_global(op)
                continue
            o = objs[op["i"]]
            if op["op"] == "set":
                o.change(op["set"])
            else:
                run_op(sim, o.inst, o.cls, op)
            sim.count("nontrivial", 0)
        if plan["ops"]:
            sim.count("nontrivial")
        f = plan["final"]
        o = objs[f["i"]]
        cfg, inst = o.cfg, o.inst
        ref = Ref(sim, cfg, f["seed"], f["call"])
        if f["via_ctor"]:
            inst = build({**cfg, "kw": {**cfg["kw"], "seed": f["seed"]}})
        else:
            inst.noise_seed(f["seed"])
        out, _ = do_call(sim, inst, o.cls, f["call"])
        if ref.unsteady_now(out):
            raise Violation("not-reproducible", f"fresh {o.cls} instances with the same seed give different results")
        if not ref.agrees(out):
            raise Violation("not-reproducible", f"seeded {o.cls} differs from a fresh one with the same seed: {w.describe_diff(out, ref.out)}")
        if f["twice"]:
            inst.noise_seed(f["seed"])
            out2, _ = do_call(sim, inst, o.cls, f["call"])
            if not ref.agrees(out2):
                raise Violation("not-reproducible", f"seeded {o.cls} repeated on the same instance differs: {w.describe_diff(out2, ref.out)}")
        # the noise itself: same seed same noise, other seed other noise
        inst.noise_seed(f["seed"])
        a = np.array(inst.generate_noise(1.0, 24))
        inst.noise_seed(f["seed"])
        b = np.array(inst.generate_noise(1.0, 24))
        inst.noise_seed(f["seed"] ^ 1)
        c = np.array(inst.generate_noise(1.0, 24))
        if not np.array_equal(a, b):
            raise Violation("noise-not-seeded", "the same seed gives different noise")
        if np.array_equal(a, c):
            raise Violation("seed-ignored", f"seeds {f['seed']} and {f['seed'] ^ 1} give the same noise")
        for bit in f.get("bits", ()):
            inst.noise_seed(f["seed"] ^ (1 << bit))
            if np.array_equal(a, np.array(inst.generate_noise(1.0, 24))):
                raise Violation("seed-ignored", f"seeds {f['seed']} and {f['seed'] ^ (1 << bit)} give the same noise")


# ==================================================================================================
class C05(Prop):
    """Reuse equals fresh; old results keep their values."""

    echoes = False  # has its own
    id = "C05"
    runs = {"quick": 3200, "thorough": 64000}
    rule = ("plan: one EMD/MATLAB-style EMD/JitEMD/EMD2D/BEMD instance and 2-7 operations (calls of varying length, dtype, time axis, "
            "limits; setting changes; failing and interrupted calls; accessor reads). Every call is judged against a fresh instance in a "
            "pristine process; every array ever returned is rechecked. Non-trivial: at least two calls completed; distinct by digest")

    def gen(self, r, tier):
        k = r.choice(["EMD"] * 6 + ["matlab"] * 2 + ["jit"] * 2 + ["EMD2D", "BEMD", "EEMD", "CEEMDAN"])
        cfg = gen_inst(r, k, parallel=None if r.random() < 0.3 else False)
        ops = []
        hi = 3 if k in ("EMD2D", "BEMD") else 7 if tier == "quick" else 14
        calls = []
        buf = r.random() < 0.25  # the caller has one buffer and fills it again for every call
        for _ in range(r.randint(2, hi)):
            x = r.random()
            if x < 0.72 or k in ("EMD2D", "BEMD"):
                if calls and r.random() < 0.35:  # nearly the same call again
                    c = copy.deepcopy(r.choice(calls))
                    ch = r.choice(["same", "max", "seed", "t", "n", "d"])
                    if "sig" in c:
                        if ch == "max":
                            c["max_imf"] = r.choice([1, 2, 3] if k == "matlab" else [-1, 1, 2])
                        elif ch == "seed":
                            c["sig"]["s"] = r.randrange(10**6)
                        elif ch == "t" and k != "jit":
                            c["t"] = w.gen_timeline(r, 0.7)
                        elif ch == "n":
                            c["sig"]["n"] += r.choice([-1, 1, 5])
                        elif ch == "d" and k != "jit":
                            c["sig"]["d"] = r.choice(DTYPES)
                else:
                    c = gen_any_call(r, cfg, bad=0.12 if k in ("EMD", "matlab") else 0)
                calls.append(c)
                if buf and "sig" in c:
                    c["buf"] = True
                    if calls[0] is not c and r.random() < 0.7:
                        c["sig"]["n"], c["sig"]["d"] = calls[0]["sig"]["n"], calls[0]["sig"]["d"]
                op = {"op": "call", "call": c}
                if r.random() < 0.15:
                    op["faults"] = gen_caller_fault(r, cfg, c)
                if r.random() < 0.15:
                    op["scribble"] = True
                if k in ("EEMD", "CEEMDAN"):
                    op["seed"] = r.randrange(999)
                ops.append(op)
            elif x < 0.9:
                ops.append({"op": "set", "set": gen_setting(r, cfg)})
            else:
                ops.append({"op": "observe"})
        return {"cfg": cfg, "ops": ops, "env": w.gen_env(r)}

    def run(self, plan, sim):
        o = Instance(plan["cfg"])
        kept = []
        n = 0
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "set":
                o.change(op["set"])
                continue
            if op["op"] == "observe":
                observe(o.inst, o.cls)
                continue
            ens = o.cls in ("EEMD", "CEEMDAN")
            if ens:
                o.inst.noise_seed(op["seed"])
            if op["call"].get("buf"):
                w.refill(w.signal(op["call"]["sig"]), "S")
                w.refill(w.timeline(op["call"].get("t"), op["call"]["sig"]["n"]), "T")
                kept = [(j, [(a, np.array(a, copy=True)) for a, _ in pairs]) for j, pairs in kept]  # results sharing memory with inputs: C10
            out, fired = do_call(sim, o.inst, o.cls, op["call"], op.get("faults", ()))
            if fired and out.kind == "exc":
                continue  # cut short by the injected failure (C06 judges this)
            ref = Ref(sim, o.cfg, op["seed"], op["call"]) if ens else PlainRef(sim, o.cfg, op["call"])
            if not ref.agrees(out):
                raise Violation("reuse-differs", f"call {k} on a used {o.cls} differs from a fresh one: {w.describe_diff(out, ref.out)}")
            if out.kind == "ok":
                d = ref.obs_diff(observe(o.inst, o.cls))
                if d is not None:
                    raise Violation("reuse-accessors-differ", f"after call {k} the accessors of a used {o.cls} differ from a fresh one's: {d}")
                n += 1
                arrs = [out.value]
                if op.get("scribble"):  # results belong to the caller, who may overwrite them
                    if out.value.flags.writeable:
                        out.value[...] = -3
                    sim.event("scribble")
                    arrs = []
                if o.cls in ("EMD", "EEMD", "CEEMDAN"):
                    arrs += list(o.inst.get_imfs_and_residue())
                if o.cls == "EMD":
                    t = attempt(o.inst.get_imfs_and_trend)  # (raises for a vanishing signal without modes)
                    arrs += list(t.value) if t.kind == "ok" else []
                if o.cls == "EEMD":
                    arrs += [o.inst.ensemble_mean(), o.inst.ensemble_std()] + list(o.inst.all_imfs.values())
                kept.append((k, [(a, np.array(a, copy=True)) for a in arrs]))
            self._kept(kept, k)
        if n >= 2:
            sim.count("nontrivial")

    def _kept(self, kept, now):
        for k, pairs in kept:
            for a, b in pairs:
                if not np.array_equal(np.asarray(a), b, equal_nan=True):
                    raise Violation("old-result-changed", f"an array returned by call {k} changed by the time call {now} had ended")


# ==================================================================================================
class C06(Prop):
    """A call cut short leaves a consistent, reusable instance."""

    id = "C06"
    runs = {"quick": 2000, "thorough": 40000}
    rule = ("plan: one EMD/EEMD/CEEMDAN instance, alternating complete calls and calls cut short by MemoryError at an allocation point, "
            "KeyboardInterrupt at a delivery point (both counted on the very call, biased to its end), a failing decomposer, worker or "
            "stderr. Non-trivial: a fault fired inside a call; distinct by event-log digest plus fault place")

    def gen(self, r, tier):
        k = r.choice(["EMD", "EMD", "EEMD", "EEMD", "CEEMDAN"])
        cfg = gen_inst(r, k, parallel=None if r.random() < 0.4 else False)
        same_n = r.random() < 0.5
        n0 = r.randint(16, 40)
        ops = []
        for j in range(r.randint(2, 4 if tier == "quick" else 8)):
            c = gen_any_call(r, cfg, bad=0.05)
            c["sig"]["n"] = n0 if same_n else r.randint(14, 44)
            op = {"op": "call", "call": c, "faults": []}
            if k != "EMD":
                op["seed"] = r.randrange(10**5)
            if r.random() < 0.7:
                op["faults"] = gen_caller_fault(r, cfg, c) if r.random() < 0.85 or not cfg.get("kw", {}).get("parallel") else gen_worker_faults(r, cfg)
            ops.append(op)
            if k == "EMD" and r.random() < 0.1:
                ops.append({"op": "set", "set": gen_setting(r, cfg)})
        ops.append({"op": "call", "call": gen_any_call(r, cfg), "faults": [], **({"seed": 5} if k != "EMD" else {})})
        return {"cfg": cfg, "ops": ops, "env": w.gen_env(r)}

    keys = {"EMD": ("pair", "trend"), "EEMD": ("pair",), "CEEMDAN": ("pair",)}

    def run(self, plan, sim):
        o = Instance(plan["cfg"])
        keys = self.keys[o.cls]
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "set":
                o.change(op["set"])
                continue
            before = observe(o.inst, o.cls)
            if o.cls == "EMD":
                ref = PlainRef(sim, o.cfg, op["call"])
            else:
                ref = Ref(sim, o.cfg, op["seed"], op["call"])
                o.inst.noise_seed(op["seed"])
            out, fired = do_call(sim, o.inst, o.cls, op["call"], op["faults"])
            after = observe(o.inst, o.cls)
            if fired:
                sim.count("nontrivial")
                if "where" in fired[0]:
                    sim.event("where", fired[0]["where"][1:])
            if out.kind == "hang":
                raise Violation("hang", f"call {k} never finished after {fired}")
            if not fired:
                if not ref.agrees(out):
                    what = "after a failed call" if k else "first call"
                    raise Violation("not-reusable", f"call {k} ({what}) differs from a fresh instance: {w.describe_diff(out, ref.out)}")
            elif out.kind == "ok":
                if not ref.agrees(out):
                    raise Violation("error-swallowed", f"call {k} swallowed an injected {fired[0]['kind']} at {fired[0].get('where')} and returned a wrong result: {w.describe_diff(out, ref.out)}")
            else:
                want = {"alloc": {fired[0].get("exc", "MemoryError")}, "ctrlc": {"KeyboardInterrupt"}, "interrupt": {"KeyboardInterrupt"}, "stderr": {"OSError", "BrokenPipeError"}}.get(fired[0]["kind"])
                if want is not None and out.exc not in want and out.exc != ref.out.exc:
                    raise Violation("error-replaced", f"call {k} turned an injected {fired[0]['kind']} at {fired[0].get('where')} into {out.exc}")
            if out.kind == "ok":
                d = ref.obs_diff(after, keys)
                if d is not None:
                    raise Violation("accessors-differ", f"after call {k} the accessors do not describe its result: {d}")
            else:
                old = same_obs({x: after[x] for x in keys}, {x: before[x] for x in keys}, STRICT)
                if old is not None:
                    new = ref.obs_diff(after, keys)
                    if new is not None or ref.out.kind != "ok":
                        at = fired[0].get("where") if fired else None
                        raise Violation("mixed-state", f"after call {k} failed with {out.exc} at {at} the accessors describe neither the previous result ({old}) nor the new one ({new})")


class PlainRef:
    """Reference of a deterministic call."""

    def __init__(self, sim, cfg, call):
        self.out, self.obs = sim.template.call("ref_call", cfg, None, call)

    def agrees(self, out):
        return same_outcome(out, self.out, STRICT)

    def obs_diff(self, obs, keys=None):
        return same_obs({k: v for k, v in obs.items() if keys is None or k in keys}, {k: v for k, v in self.obs.items() if keys is None or k in keys}, STRICT)


# ==================================================================================================
class C07(Prop):
    """A failing trial surfaces as an error, never as a partial ensemble."""

    id = "C07"
    runs = {"quick": 2000, "thorough": 40000}
    rule = ("plan: parallel EEMD/CEEMDAN, a call in which a task fails at a point inside the trial (or its decomposer raises), the pool "
            "cannot start, or the wait is interrupted, then a fault-free retry. Non-trivial: a fault fired; distinct by digest")

    def gen(self, r, tier):
        cfg = gen_inst(r, r.choice(["EEMD", "EEMD", "CEEMDAN"]), parallel=True)
        cfg["kw"]["trials"] = max(2, cfg["kw"]["trials"])
        pools = 1 if cfg["cls"] == "EEMD" else 2
        rounds = []
        for _ in range(r.randint(1, 2)):
            f = gen_worker_faults(r, cfg)
            if r.random() < 0.25 and f[0]["kind"] in ("trial", "decomposer"):
                f += [x for x in gen_worker_faults(r, cfg, ("trial", "decomposer"))]
            rounds.append({"call": gen_ens_call(r, cfg, hi=48), "seed": r.randrange(10**5), "faults": f + gen_stalls(r, pools, 0.25), "retry": r.random() < 0.8})
        return {"cfg": cfg, "calls": rounds, "env": w.gen_env(r)}

    def run(self, plan, sim):
        cfg = plan["cfg"]
        cls = cfg["cls"]
        inst = build(cfg)
        for k, rd in enumerate(plan["calls"]):
            ref = Ref(sim, cfg, rd["seed"], rd["call"])
            inst.noise_seed(rd["seed"])
            out, fired = do_call(sim, inst, cls, rd["call"], rd["faults"])
            real = [f for f in fired if f["kind"] != "stall"]
            if real:
                sim.count("nontrivial")
            self.judge(sim, k, cls, out, real, ref, inst)
            if rd["retry"]:
                inst.noise_seed(rd["seed"])
                again, _ = do_call(sim, inst, cls, rd["call"])
                if not ref.agrees(again):
                    raise Violation("retry-differs", f"retry of call {k} after {[f['kind'] for f in real]} differs from the fault-free result: {w.describe_diff(again, ref.out)}")

    def judge(self, sim, k, cls, out, real, ref, inst):
        if out.kind == "hang":
            raise Violation("hang", f"call {k} never finished after {[f['kind'] for f in real]}")
        if out.kind == "ok":
            if not ref.agrees(out):
                raise Violation("partial-ensemble", f"call {k} returned although {[(f['kind'], f.get('exc')) for f in real]} struck, and the result differs from the complete one: {w.describe_diff(out, ref.out)}")
            d = ref.obs_diff(observe(inst, cls))
            if d is not None:
                raise Violation("partial-ensemble", f"call {k} returned the complete result but its accessors do not: {d}")
        elif not real and not ref.agrees(out):
            raise Violation("spurious-error", f"call {k} {out!r} without any fault; the serial run {ref.out!r}")
        elif real and real[0]["kind"] == "interrupt" and out.exc != "KeyboardInterrupt" and out.exc != ref.out.exc:
            raise Violation("interrupt-lost", f"call {k} was interrupted but raised {out.exc}")


# ==================================================================================================
class C08(Prop):
    """Bounded completion; pools shut down."""

    id = "C08"
    runs = {"quick": 2600, "thorough": 52000}
    rule = ("plan: parallel EEMD/CEEMDAN calls with stalls, failing trials, dying workers, pool start failures and interrupted waits. "
            "Non-trivial: at least one fault fired; distinct by digest. Progress bound: 20000 scheduling steps per call, observed maximum reported")

    def gen(self, r, tier):
        cfg = gen_inst(r, r.choice(["EEMD", "CEEMDAN"]), parallel=True)
        cfg["kw"]["trials"] = max(2, cfg["kw"]["trials"])
        pools = 1 if cfg["cls"] == "EEMD" else 2
        calls = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < 0.2:
                f = []
            elif x < 0.35:
                f = [{"kind": "kill", "pool": r.randrange(pools), "task": r.randint(0, 6)}]
            elif x < 0.42 and (cfg.get("dec") or {"type": "EMD"})["type"] != "EMD":
                f = [{"kind": "decomposer", "pool": r.randrange(pools), "task": r.randint(0, 6), "call": 0, "exc": "FussyError"}]
            else:
                f = gen_worker_faults(r, cfg)
            calls.append({"call": gen_ens_call(r, cfg, hi=40), "seed": r.randrange(10**5), "faults": f + gen_stalls(r, pools, 0.5)})
        return {"cfg": cfg, "calls": calls, "env": w.gen_env(r)}

    def run(self, plan, sim):
        cfg = plan["cfg"]
        cls = cfg["cls"]
        inst = build(cfg)
        for k, rd in enumerate(plan["calls"]):
            inst.noise_seed(rd["seed"])
            base = len(sim.pools)
            left = []

            def call_and_look():
                try:
                    return w.decompose(inst, cls, rd["call"])
                finally:
                    # still inside the call's exception, if any: references held by its traceback are alive
                    left.extend(p.ordinal for p in sim.pools[base:] if p._state == "RUN")

            sim.begin_op(rd["faults"])
            sim.event("call", cls)
            out = attempt(call_and_look)
            fired = list(sim.fired)
            sim.event("done", out.kind, out.exc)
            sim.end_op()
            sim.count("calls")
            if fired:
                sim.count("nontrivial")
            kinds = [f["kind"] for f in fired]
            if out.kind == "hang":
                kills = [f for f in fired if f["kind"] == "kill"]
                fussy = [f for f in fired if f.get("exc") == "FussyError"]
                if kills or fussy:
                    what = "worker-killed" if kills else "error-unreadable"
                    sim.known.append({"finding": f"{what}/{cls}/pool{(kills or fussy)[0]['pool']}"})
                    sim.count("known_hang")
                else:
                    raise Violation("hang", f"call {k} of {cls} never finished ({out.msg}) after faults {kinds}")
            if left:
                raise Violation("pool-left-open", f"call {k} of {cls} {out!r} and left worker pool(s) {left} open after faults {kinds}")
            if out.kind == "hang":
                break


# ==================================================================================================
def conserve(cls, S, rows, tol_dtype=None):
    """None or a description of how rows fail to add up to S."""
    S = np.asarray(S)
    rows = np.asarray(rows, dtype=float)
    if rows.ndim != 2 or rows.shape[1:] != S.shape:
        return f"components of shape {rows.shape} for an input of shape {S.shape}"
    if not np.all(np.isfinite(rows)):
        return None  # the caller excludes inputs that are not decomposable (constant signals)
    Sf = S.astype(float)
    eps = 1e-9 if S.dtype != np.float32 else 1e-4
    big = np.max(np.abs(Sf))
    tol = eps * (big + np.sum(np.max(np.abs(rows), axis=1))) + 2e-8 * (big if cls != "jit" else max(1.0, big))
    err = np.max(np.abs(rows.sum(axis=0) - Sf))
    if err > tol:
        return f"components add up to the input only within {err:.3g} (tolerance {tol:.3g})"
    return None


class C09(Prop):
    """Conservation."""

    id = "C09"
    runs = {"quick": 4000, "thorough": 80000}
    rule = ("plan: 1-2 EMD/MATLAB EMD/EEMD/CEEMDAN instances, 1-5 calls with faults in between, serial and parallel under any schedule, or "
            "the same in concurrently scheduled threads; every returned result and accessor pair must add up to its input. "
            "Non-trivial: at least one call returned at least two components; distinct by digest")

    def gen(self, r, tier):
        threads = r.random() < 0.15
        insts = gen_insts(r, 2 if threads else r.randint(1, 2), ["EMD", "EMD", "EEMD", "CEEMDAN", "matlab", "jit"], parallel=False if threads else None)
        ops = []
        for j in range(r.randint(1, 4 if tier == "quick" else 8)):
            i = j % 2 if threads else r.randrange(len(insts))
            c = gen_any_call(r, insts[i])
            if r.random() < 0.3 and c["sig"]["d"] == "f8":
                c["sig"]["k"] = r.choice(["trend", "tiny", "steps", "offset"])
            op = {"op": "call", "i": i, "call": c, "faults": []}
            if not threads and r.random() < 0.25:
                op["faults"] = gen_caller_fault(r, insts[i], c) if r.random() < 0.6 or insts[i]["cls"] not in ("EEMD", "CEEMDAN") else gen_worker_faults(r, insts[i])
            ops.append(op)
            if not threads and r.random() < 0.15:
                ops.append({"op": "set", "i": i, "set": gen_setting(r, insts[i])})
        return {"insts": insts, "ops": ops, "threads": threads, "env": w.gen_env(r), "more": self._more(r)}

    def _more(self, r):
        """Plain decompositions of signals with a wide range of scales."""
        out = []
        for _ in range(r.randint(0, 5)):
            c = w.gen_call(r, lo=24, hi=160, dtypes=("f8", "f8", "f8", "f4", "i4"))
            if r.random() < 0.6:
                c["sig"]["k"] = r.choice(["cascade", "cascade", "pure", "burst"])
            if r.random() < 0.4:
                c["sig"]["faint"] = 10.0 ** -r.randint(1, 9)
            c["max_imf"] = r.choice([-1, -1, 1, 2, 3, 4])
            cls = r.choice(["EMD"] * 5 + ["matlab"])
            if cls == "matlab":
                c["via"] = "method"
                c["max_imf"] = r.choice([1, 2, 3, 4])  # without a limit it need not end (N06)
            out.append({"cfg": gen_inst(r, cls), "call": c})
        return out

    def run(self, plan, sim):
        for k, m in enumerate(plan.get("more", [])):
            o = Instance(m["cfg"])
            out, _ = do_call(sim, o.inst, o.cls, m["call"])
            if out.kind == "ok":
                self.judge(sim, f"+{k}", o, m["call"], out.value)
        objs = [Instance(c) for c in plan["insts"]]

        def one(k, op):
            o = objs[op["i"]]
            if op["op"] == "set":
                o.change(op["set"])
                return
            if plan["threads"]:
                out = attempt(lambda: w.decompose(o.inst, o.cls, op["call"]))
            else:
                out, _ = do_call(sim, o.inst, o.cls, op["call"], op["faults"])
            if out.kind == "ok":
                self.judge(sim, k, o, op["call"], out.value)

        if not plan["threads"]:
            for k, op in enumerate(plan["ops"]):
                one(k, op)
        else:
            from dst.threads import Lockstep

            def body(i):
                def go():
                    try:
                        for k, op in enumerate(plan["ops"]):
                            if op["i"] == i:
                                one(k, op)
                    except Violation as v:
                        return v

                return go

            for v in Lockstep(sim, [body(i) for i in range(len(objs))]).run():
                if v is not None:
                    raise v

    def judge(self, sim, k, o, call, rows):
        S = w.signal(call["sig"])
        if np.all(S == S[0]):
            return
        m = call["max_imf"]
        if rows.shape[0] >= 2:
            sim.count("nontrivial")
        if m > 0 and rows.shape[0] > m + 1:
            raise Violation("too-many-components", f"call {k} of {o.cls}: {rows.shape[0]} components for max_imf={m}")
        if not np.all(np.isfinite(rows)):
            raise Violation("not-conserved", f"call {k} of {o.cls}: non-finite components for a finite input")
        if o.cls in ("EMD", "matlab", "CEEMDAN", "jit"):
            d = conserve(o.cls, S, rows)
            if d:
                raise Violation("not-conserved", f"call {k} of {o.cls}: returned {d}")
        elif rows.ndim != 2 or rows.shape[1] != S.size:
            raise Violation("not-conserved", f"call {k} of {o.cls}: components of shape {rows.shape} for {S.size} samples")
        if o.cls in ("EMD", "EEMD", "CEEMDAN"):
            imfs, res = o.inst.get_imfs_and_residue()
            res = np.asarray(res)
            if res.shape != S.shape:
                raise Violation("not-conserved", f"call {k} of {o.cls}: residue of shape {res.shape}")
            d = conserve(o.cls, S, np.vstack([np.asarray(imfs, dtype=float), np.asarray(res, dtype=float)[None, :]]))
            if d:
                raise Violation("not-conserved", f"call {k} of {o.cls}: accessor pair: {d}")
            if m > 0 and o.cls != "CEEMDAN" and len(imfs) > m + 1:
                raise Violation("too-many-components", f"call {k} of {o.cls}: {len(imfs)} stored components for max_imf={m}")


# ==================================================================================================
LAYOUTS = ["plain", "readonly", "strided", "reversed", "view", "roview"]


def array_form(a):
    return None if a is None else (a.shape, a.strides, a.dtype.str, a.flags.writeable)


class C10(Prop):
    """Inputs neither modified nor aliased."""

    id = "C10"
    runs = {"quick": 3200, "thorough": 64000}
    rule = ("plan: an instance of any class, 1-4 calls on arrays of varying memory layout (read-only, strided, reversed, views), with caller "
            "and worker faults; inputs compared bytewise after every call, results compared with those for a plain copy, then the inputs are "
            "overwritten and results and accessors rechecked. Non-trivial: a call completed or was cut short; distinct by digest")

    def gen(self, r, tier):
        k = r.choice(["EMD"] * 4 + ["EEMD"] * 3 + ["CEEMDAN"] * 2 + ["matlab"] * 2 + ["jit", "EMD2D", "BEMD"])
        cfg = gen_inst(r, k)
        ops = []
        for _ in range(r.randint(1, 2 if k in ("EMD2D", "BEMD") else 3 if tier == "quick" else 6)):
            c = gen_any_call(r, cfg)
            if "sig" in c and r.random() < 0.6 and k != "jit":
                c["t"] = w.gen_timeline(r, 1.0)
            if k == "EMD" and r.random() < 0.3:
                c["t"] = w.gen_timeline(r, 1.0)
            op = {"op": "call", "call": c, "layout": r.choice(LAYOUTS), "scribble": r.random() < 0.6, "faults": [], "seed": r.randrange(999)}
            if r.random() < 0.3:
                op["faults"] = gen_caller_fault(r, cfg, c) if r.random() < 0.7 or k not in ("EEMD", "CEEMDAN") else gen_worker_faults(r, cfg)
            ops.append(op)
        return {"cfg": cfg, "ops": ops, "env": w.gen_env(r)}

    def run(self, plan, sim):
        o = Instance(plan["cfg"])
        ens = o.cls in ("EEMD", "CEEMDAN")
        kept = []
        for k, op in enumerate(plan["ops"]):
            call = op["call"]
            if "img" in call:
                S, T = w.image(call["img"]), None
            else:
                S, T = w.signal(call["sig"]), w.timeline(call.get("t"), call["sig"]["n"])
                if o.cls == "jit" and T is None:
                    T = np.arange(len(S), dtype=float)
            S, T = w.layout(S, op["layout"]), w.layout(T, op["layout"])
            S0, T0 = S.copy(), None if T is None else T.copy()
            base = S.base if S.base is not None else S
            base0 = base.copy()
            form = [array_form(a) for a in (S, base, T)]
            if ens:
                ref = Ref(sim, o.cfg, op["seed"], call)
                o.inst.noise_seed(op["seed"])
            else:
                ref = PlainRef(sim, o.cfg, call)
            out, fired = do_call(sim, o.inst, o.cls, call, op["faults"], S=S, T=T)
            sim.count("nontrivial")
            if not np.array_equal(S, S0) or not np.array_equal(base, base0):
                raise Violation("input-modified", f"call {k} of {o.cls} ({out!r}) changed its input signal (layout {op['layout']}, faults {[f['kind'] for f in fired]})")
            if [array_form(a) for a in (S, base, T)] != form:
                raise Violation("input-modified", f"call {k} of {o.cls} ({out!r}) changed shape, type or flags of an array it was given (layout {op['layout']}, faults {[f['kind'] for f in fired]})")
            if T is not None and not np.array_equal(T, T0):
                raise Violation("input-modified", f"call {k} of {o.cls} ({out!r}) changed its time array (layout {op['layout']}, faults {[f['kind'] for f in fired]})")
            if not fired and not ref.agrees(out):
                raise Violation("layout-matters", f"call {k} of {o.cls} on a {op['layout']} array differs from the same values in a plain one: {w.describe_diff(out, ref.out)}")
            if out.kind == "ok":
                kept.append((k, out.value, np.array(out.value, copy=True)))
            if op["scribble"]:
                before = observe(o.inst, o.cls)
                for a in (S, T):
                    if a is not None:
                        if not a.flags.writeable:
                            b = a
                            while isinstance(b.base, np.ndarray):
                                b = b.base
                            b.flags.writeable = True
                            a.flags.writeable = True
                        a[...] = 7
                sim.event("scribble")
                d = same_obs(observe(o.inst, o.cls), before, 0.0)
                if d is not None:
                    raise Violation("accessor-aliases-input", f"writing into the input of call {k} changed what {o.cls} reports: {d}")
                for j, a, b in kept:
                    if not np.array_equal(np.asarray(a), b, equal_nan=True):
                        raise Violation("result-aliases-input", f"writing into the input of call {k} changed the result of call {j} of {o.cls}")


# ==================================================================================================
class C11(Prop):
    """Instances are isolated, also across threads."""

    id = "C11"
    runs = {"quick": 3000, "thorough": 50000}
    budget = {"quick": 200.0, "thorough": 1500.0}
    rule = ("plan: 2-3 instances of any class, 1-4 operations each, executed alternately or in concurrently scheduled threads (switches at "
            "instruction-level points, with seeded gaps or so that threads meet inside one function); each instance judged against the same operations alone in a pristine process. "
            "Non-trivial: operations of different instances interleaved (thread switches or alternation); distinct by digest")

    def gen(self, r, tier):
        threads = r.random() < 0.65
        meet = threads and r.random() < 0.6
        kinds = ["EMD", "EMD", "EMD", "EEMD", "CEEMDAN", "jit", "matlab"] if threads else ["EMD", "EMD", "EEMD", "CEEMDAN", "jit", "jit", "matlab"]
        insts = gen_insts(r, r.randint(2, 3), kinds, parallel=False if threads else None)
        if r.random() < 0.06:
            k = r.choice(["EMD2D", "BEMD"])
            insts = [gen_inst(r, k) for _ in range(2)]
        if r.random() < 0.15:  # instances with nothing configured
            k = r.choice(["EMD", "EEMD", "CEEMDAN"])
            one = {"cls": "EMD", "kw": {}} if k == "EMD" else {"cls": k, "kw": {"trials": r.randint(1, 3), "parallel": False}, "dec": None}
            insts = [copy.deepcopy(one) for _ in range(r.randint(2, 3))]
        elif r.random() < 0.5:  # similar instances share more code paths
            insts = [insts[0]] + [copy.deepcopy(insts[0]) if r.random() < 0.7 else x for x in insts[1:]]
        if meet and r.random() < 0.85:
            insts = [copy.deepcopy(insts[0]) for _ in insts]
            if insts[0]["cls"] == "EMD" and r.random() < 0.4:
                for x in insts:
                    x["kw"]["nbsym"] = 1
            if insts[0]["cls"] == "EMD" and r.random() < 0.35:
                kind = r.choice(w.SPLINES)
                for x in insts:
                    x["kw"]["spline_kind"] = kind
        if any(x["cls"] == "jit" for x in insts) and r.random() < 0.6:
            for x in insts:
                if x["cls"] == "jit":
                    x.pop("config", None)
        ops = []
        for i, c in enumerate(insts):
            mine = []
            for _ in range(r.randint(1, 3)):
                x = r.random()
                if x < 0.65 or (meet and not mine):
                    op = {"op": "call", "i": i, "call": gen_any_call(r, c, bad=0.05)}
                    op["call"]["progress"] = False
                    if c["cls"] in ("EEMD", "CEEMDAN"):
                        op["seed"] = r.randrange(999) if c["kw"]["parallel"] or not mine or r.random() < 0.4 else None
                    if not threads and r.random() < 0.2:
                        op["faults"] = gen_caller_fault(r, c, op["call"])
                    mine.append(op)
                elif x < 0.85:
                    mine.append({"op": "set", "i": i, "set": gen_setting(r, c)})
                elif c["cls"] in ("EEMD", "CEEMDAN") and mine:
                    mine.append({"op": "noise", "i": i, "scale": 1.0, "n": 5})
                else:
                    mine.append({"op": "observe", "i": i})
            if c["cls"] in ("EEMD", "CEEMDAN"):
                c["seed0"] = r.randrange(999)
            ops.append(mine)
        sigs = [o["call"]["sig"] for m in ops for o in m if "call" in o and "sig" in o["call"]]
        if len(sigs) > 1 and r.random() < 0.7:  # arrays of the same size and type
            for x in sigs[1:]:
                x["n"] = min(sigs[0]["n"], 200) if sigs[0]["n"] > 1500 else sigs[0]["n"]
                if x["d"] != sigs[0]["d"] and not any(c["cls"] == "jit" for c in insts):
                    x["d"] = sigs[0]["d"]
            if meet and r.random() < 0.6:  # as many extrema, too
                for x in sigs[1:]:
                    n, d = x["n"], x["d"]
                    x.clear()
                    x.update({**sigs[0], "n": n, "d": d, "amp": r.choice([-1.0, 0.7, 1.6, -2.0])})
        order = []
        if not threads:
            pool = [i for i, m in enumerate(ops) for _ in m]
            r.shuffle(pool)
            order = pool
        return {"insts": insts, "ops": [o for m in ops for o in m], "order": order, "threads": threads, "meet": meet, "rounds": r.randint(2, 5) if meet else 1, "env": w.gen_env(r)}

    def run(self, plan, sim):
        cfgs = plan["insts"]
        n = len(cfgs)
        mine = [[o for o in plan["ops"] if o["i"] == i] for i in range(n)]
        refs = {}
        for _ in range(plan.get("rounds", 1)):
            self.round(plan, sim, mine, refs)

    def round(self, plan, sim, mine, refs):
        cfgs = plan["insts"]
        n = len(cfgs)
        insts = [build(c) for c in cfgs]
        seen = [[] for _ in range(n)]
        if plan["threads"]:
            from dst.threads import Lockstep

            def body(i):
                def go():
                    for op in mine[i]:
                        seen[i].append(thread_op(insts[i], cfgs[i]["cls"], op))

                return go

            ls = Lockstep(sim, [body(i) for i in range(n)], plan.get("meet", False))
            ls.run()
            for f in sorted(ls.met):
                sim.count("met_inside:" + f[1])
            if sim.counts.get("thread_switches", 0) >= 2:
                sim.count("nontrivial")
        else:
            pos = [0] * n
            last = None
            order = list(plan["order"]) + [i for i in range(n) for _ in mine[i]]
            for i in order:
                if i < n and pos[i] < len(mine[i]):
                    seen[i].append(run_op(sim, insts[i], cfgs[i]["cls"], mine[i][pos[i]]))
                    pos[i] += 1
                    if last is not None and last != i:
                        sim.count("alternations")
                    last = i
            if sim.counts.get("alternations"):
                sim.count("nontrivial")
        for i in range(n):
            sim.event("seen", i, cfgs[i]["cls"], [(a.kind, a.exc, np.shape(a.value) if a.kind == "ok" else None) for a in seen[i]])
            ops = [{k: v for k, v in o.items() if k != "faults"} for o in mine[i]]
            faulty = any(o.get("faults") for o in mine[i])
            par = cfgs[i].get("kw", {}).get("parallel")
            if i not in refs:
                refs[i] = sim.template.call("ref_seq", cfgs[i], ops)
            ref_seen, ref_obs, ref_set = refs[i]
            known = settings(build(cfgs[i]))
            ref_set = {k: v for k, v in ref_set.items() if k in known}
            now = {k: v for k, v in settings_of(insts[i], par).items() if k in known}
            tol = LOOSE if par and cfgs[i]["cls"] == "CEEMDAN" else STRICT
            if faulty:
                if now != drop_par(ref_set, par):
                    raise Violation("settings-leak", f"settings of instance {i} ({cfgs[i]['cls']}) changed: {diff_dict(now, drop_par(ref_set, par))}")
                continue
            for k, (a, b) in enumerate(zip(seen[i], ref_seen)):
                if a.kind == "obs":
                    d = same_obs(a.value, b.value, tol)
                    if d is not None and tol == STRICT:
                        raise Violation("instance-interference", f"instance {i} ({cfgs[i]['cls']}), op {k}: accessors differ from those of the instance used alone: {d}")
                elif not same_outcome(a, b, tol):
                    if tol == LOOSE:
                        continue
                    raise Violation("instance-interference", f"instance {i} ({cfgs[i]['cls']}), op {k}: differs from the instance used alone: {w.describe_diff(a, b)}")
            if tol == STRICT:
                d = same_obs(observe(insts[i], cfgs[i]["cls"]), ref_obs, tol, unordered=True)
                if d is not None:
                    raise Violation("instance-interference", f"instance {i} ({cfgs[i]['cls']}): final accessors differ from those of the instance used alone: {d}")
            if now != drop_par(ref_set, par):
                raise Violation("settings-leak", f"settings of instance {i} ({cfgs[i]['cls']}) changed: {diff_dict(now, drop_par(ref_set, par))}")


def settings_of(inst, par):
    return drop_par(settings(inst), par)


def drop_par(s, par):
    return {k: v for k, v in s.items() if k not in ("parallel", "processes")}


def diff_dict(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def thread_op(inst, cls, op):
    k = op["op"]
    if k == "call":
        if op.get("seed") is not None:
            inst.noise_seed(op["seed"])
        return attempt(lambda: w.decompose(inst, cls, op["call"]))
    if k == "seed":
        return attempt(lambda: inst.noise_seed(op["seed"]))
    if k == "noise":
        return attempt(lambda: inst.generate_noise(op["scale"], op["n"]))
    if k == "set":
        return attempt(lambda: w.apply_settings(inst, op["set"]))
    return w.Outcome("obs", observe(inst, cls))


# ==================================================================================================
class C12(Prop):
    """Checkpoint and restore."""

    id = "C12"
    runs = {"quick": 3000, "thorough": 60000}
    rule = ("plan: EMD/EEMD/CEEMDAN instance, a history (calls, faults, draws), save by pickle (any protocol), copy.deepcopy, a crash "
            "at an arbitrary point of a later call, restore in the same or a fresh process, and a continuation judged against the original's. "
            "Non-trivial: the continuation contains a call or a draw; distinct by digest")

    def gen(self, r, tier):
        k = r.choice(["EMD", "EEMD", "EEMD", "CEEMDAN"])
        cfg = gen_inst(r, k, parallel=None if r.random() < 0.4 else False)

        def ops(n, faulty):
            out = []
            for _ in range(n):
                x = r.random()
                if x < 0.65 or k == "EMD":
                    op = {"op": "call", "call": gen_any_call(r, cfg)}
                    if faulty and r.random() < 0.3:
                        op["faults"] = gen_caller_fault(r, cfg, op["call"])
                    out.append(op)
                elif x < 0.8:
                    out.append({"op": "noise", "scale": 1.0, "n": r.randint(1, 9)})
                elif x < 0.9:
                    out.append({"op": "seed", "seed": r.randrange(999)})
                else:
                    out.append({"op": "set", "set": gen_setting(r, cfg)})
            return out

        crash = gen_any_call(r, cfg)
        return {
            "cfg": cfg,
            "pre": ops(r.randint(0, 3), True),
            "how": r.choice(["pickle", "pickle", "pickle2", "deepcopy"]),
            "protocol": r.randint(0, 5),
            "crash": {"call": crash, "at": ["frac", round(r.random(), 3)]} if r.random() < 0.6 else None,
            "where": r.choice(["here", "fresh"]),
            "there": {"pid": r.choice([1000, 78, 31338]), "cpus": r.randint(1, 6), "clock": r.choice([1.7e9, 0.0, 1.9e9])},
            "cont": ops(r.randint(1, 3), False),
            "env": w.gen_env(r),
        }

    def run(self, plan, sim):
        cfg = plan["cfg"]
        cls = cfg["cls"]
        inst = build(cfg)
        run_ops(sim, inst, cls, plan["pre"])
        at_save = observe(inst, cls)
        st_save = settings(inst)
        how = plan["how"]
        if how == "deepcopy":
            o = attempt(lambda: copy.deepcopy(inst))
        else:
            o = attempt(lambda: pickle.dumps(inst, protocol=plan.get("protocol", 2) if how == "pickle2" else pickle.HIGHEST_PROTOCOL))
        if o.kind != "ok":
            raise Violation("not-saveable", f"{cls} cannot be saved by {how}: {o!r}")
        saved = o.value
        sim.event("saved", how)
        if plan["crash"] is not None:
            cr = plan["crash"]

            def doomed():  # the process that crashes in the middle of a later call; nothing of it survives
                do_call(sim, inst, cls, cr["call"], [{"kind": "alloc", "at": cr["at"]}])
                return True

            simmod.forkcall(doomed)
            sim.count("fault:crash")
            sim.event("crash")
        # the original goes on undisturbed
        want = run_ops(sim, inst, cls, plan["cont"])
        want_obs = observe(inst, cls)
        if any(x["op"] in ("call", "noise") for x in plan["cont"]):
            sim.count("nontrivial")
        sim.event("restore", plan["where"])
        if how == "deepcopy":
            rest = saved
            first, st = observe(rest, cls), settings(rest)
            got = run_ops(sim, rest, cls, plan["cont"])
            got_obs = observe(rest, cls)
        elif plan["where"] == "here":
            rest = pickle.loads(saved)
            first, st = observe(rest, cls), settings(rest)
            got = run_ops(sim, rest, cls, plan["cont"])
            got_obs = observe(rest, cls)
        else:
            # parallel pools of a fresh process: plain schedule, workers forked there
            first, st, got, got_obs = sim.template.call("ref_restore", saved, cls, plan["cont"], plan.get("there", {}))
        d = w.not_identical(first, at_save)
        if d is not None:
            raise Violation("restored-differs", f"restored {cls} ({how}, {plan['where']}) reports other results than when saved: {d}")
        if st != st_save:
            raise Violation("restored-differs", f"restored {cls} ({how}) has other settings: {diff_dict(st, st_save)}")
        par = cfg.get("kw", {}).get("parallel")
        loose = cls == "CEEMDAN" and par
        for k, (a, b) in enumerate(zip(got, want)):
            if not same_outcome(a, b, LOOSE if loose else STRICT):
                if loose and a.kind == b.kind == "ok" and np.shape(a.value) == np.shape(b.value) == ():
                    continue
                if loose and a.kind == b.kind == "ok" and ill_pair(sim, a, b):
                    continue
                raise Violation("continuation-differs", f"restored {cls} ({how}, {plan['where']}), op {k} of the continuation differs from the original: {w.describe_diff(a, b)}")
        if not loose:
            d = same_obs(got_obs, want_obs, STRICT, unordered=True)
            if d is not None:
                raise Violation("continuation-differs", f"restored {cls} ({how}, {plan['where']}): after the continuation the accessors differ: {d}")


def ill_pair(sim, a, b):
    """Parallel CEEMDAN sums in completion order; a visible difference is only rounding if most of it is small."""
    x, y = np.asarray(a.value, dtype=float), np.asarray(b.value, dtype=float)
    if x.shape != y.shape:
        return False
    scale = max(np.max(np.abs(x)), 1e-300)
    # the first component is a plain mean: its rounding cannot be amplified
    ok = np.max(np.abs(x[0] - y[0])) <= 1e-9 * scale
    if ok:
        sim.count("ill_conditioned")
    return ok


# ==================================================================================================
def ambient():
    """Process-wide state a caller relies on."""
    import decimal
    import gc
    import locale
    import socket
    import tempfile
    import time
    import logging
    import multiprocessing
    import random
    import resource
    import signal as sg
    import threading
    import warnings

    def logger_state(lg):
        return (lg.level, tuple(id(h) for h in lg.handlers), lg.propagate, lg.disabled)

    loggers = {n: logger_state(l) for n, l in sorted(logging.root.manager.loggerDict.items()) if isinstance(l, logging.Logger)}
    umask = os.umask(0o22)
    os.umask(umask)
    st = np.random.get_state()
    return {
        "numpy global generator": (st[0], st[1].tobytes(), st[2:]),
        "random global generator": random.getstate(),
        "numpy error handling": tuple(sorted(np.geterr().items())) + (np.geterrcall(), np.getbufsize()),
        "numpy print options": tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "warning filters": tuple((f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters),
        "warning display": (warnings.showwarning, warnings.formatwarning),
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "temporary directory": tempfile.tempdir,
        "CPU affinity": tuple(sorted(REAL.sched_getaffinity(0))),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "socket timeout": socket.getdefaulttimeout(),
        "thread stack size": threading.stack_size(),
        "time zone": time.tzname,
        "umask": umask,
        "signal handlers": tuple((s, sg.getsignal(s)) for s in (sg.SIGINT, sg.SIGTERM, sg.SIGALRM, sg.SIGCHLD, sg.SIGPIPE, sg.SIGUSR1)),
        "timers": sg.getitimer(sg.ITIMER_REAL),
        "root logger": logger_state(logging.root) + (logging.root.manager.disable, logging.raiseExceptions),
        "loggers": {k: v for k, v in loggers.items()},
        "start method": multiprocessing.get_start_method(),
        "recursion limit": sys.getrecursionlimit(),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "stdout/stderr": (id(sys.stdout), id(sys.stderr)),
        "threads": tuple(sorted(t.name for t in threading.enumerate())),
        "switch interval": sys.getswitchinterval(),
        "trace hooks": (sys.gettrace(), sys.getprofile(), sys.excepthook),
        "decimal context": str(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "limits": tuple(resource.getrlimit(x) for x in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK)),
        "sys.path": tuple(sys.path),
        "plot settings": tuple(sorted((k, str(v)) for k, v in sys.modules["matplotlib"].rcParams.items())) if "matplotlib" in sys.modules else (),
    }


class C13(Prop):
    """No effect on, and no dependence on, process-wide state."""

    id = "C13"
    runs = {"quick": 3000, "thorough": 60000}
    rule = ("plan: an instance of any class, ambient state set up at random (generators, error handling, filters, environment, directory, logging, "
            "clock, pid, progress), 1-3 seeded calls, some failing or cut short; ambient snapshots around every call, results judged against a "
            "pristine process. Non-trivial: the ambient state differed from the reference's; distinct by digest plus ambient choices")

    def gen(self, r, tier):
        r2 = random.Random(str(r.getstate()[1][:3]))
        if r2.random() < 0.12:  # several threads at it: state that is changed and put back can end up changed
            while True:
                plan = C11().gen(r2, tier)
                if plan["threads"]:
                    break
            return {**plan, "amb": {}}
        k = r.choice(["EMD", "EMD", "EEMD", "EEMD", "CEEMDAN", "CEEMDAN", "matlab", "matlab", "jit", "EMD2D", "BEMD"])
        cfg = gen_inst(r, k)
        amb = {}
        if r.random() < 0.6:
            amb["np_seed"] = r.randrange(10**6)
        if r.random() < 0.4:
            amb["py_seed"] = r.randrange(10**6)
        if r.random() < 0.4:
            amb["seterr"] = {"all": r.choice(["ignore", "warn"])} if r.random() < 0.5 else {"divide": r.choice(["ignore", "warn"]), "over": "ignore"}
        if r.random() < 0.4:
            amb["filters"] = r.choice(["ignore", "always", "once", "default"])
        if r.random() < 0.4:
            amb["log"] = r.choice([10, 20, 40])
        if r.random() < 0.3:
            amb["env"] = {"PYEMD_X": str(r.random()), "OMP_NUM_THREADS": r.choice(["1", "4"])}
        if r.random() < 0.3:
            amb["chdir"] = True
        if r.random() < 0.2:
            amb["print"] = {"precision": r.randint(2, 5)}
        if r.random() < 0.2:
            amb["sigint"] = True
        if r.random() < 0.5:
            amb["gc"] = True
        ops = []
        for _ in range(r.randint(1, 1 if k in ("EMD2D", "BEMD") else 3)):
            c = gen_any_call(r, cfg, bad=0.1 if k in ("EMD", "EEMD", "CEEMDAN") else 0)
            if k in ("EEMD", "CEEMDAN"):
                c["progress"] = r.random() < 0.5
            op = {"op": "call", "call": c, "faults": [], "seed": r.randrange(9999), "amb": r.random() < 0.3}
            if k not in ("EMD2D", "BEMD") and r.random() < 0.1:
                op["tools"] = r.choice(["white", "plot", "freq"])
            if r.random() < 0.3:
                op["faults"] = gen_caller_fault(r, cfg, c) if r.random() < 0.7 or k not in ("EEMD", "CEEMDAN") else gen_worker_faults(r, cfg)
            ops.append(op)
        return {"cfg": cfg, "amb": amb, "ops": ops, "env": w.gen_env(r), "late": r.random() < 0.3}

    def setup(self, amb, sim):
        import logging
        import random
        import tempfile
        import warnings

        if "np_seed" in amb:
            np.random.seed(amb["np_seed"])
        if "py_seed" in amb:
            random.seed(amb["py_seed"])
        if "seterr" in amb:
            np.seterr(**amb["seterr"])
        if "filters" in amb:
            warnings.simplefilter(amb["filters"])
        if "log" in amb:
            logging.getLogger().setLevel(amb["log"])
            logging.getLogger().addHandler(logging.StreamHandler(SimStream()))
        os.environ.update(amb.get("env", {}))
        if amb.get("chdir"):
            os.chdir("/")
        if "print" in amb:
            np.set_printoptions(**amb["print"])
        if amb.get("gc"):  # on, but never due: when it runs is not up to the simulator
            import gc

            gc.set_threshold(10**9)
            gc.enable()
        if amb.get("sigint"):
            import signal as sg

            sg.signal(sg.SIGINT, lambda *a: None)
        sim.event("ambient", sorted(amb))
        if amb:
            sim.count("nontrivial")

    def threaded(self, plan, sim):
        from dst.threads import Lockstep

        cfgs = plan["insts"]
        for _ in range(plan["rounds"]):
            insts = [build(c) for c in cfgs]

            def body(i):
                def go():
                    for op in plan["ops"]:
                        if op["i"] == i:
                            thread_op(insts[i], cfgs[i]["cls"], op)

                return go

            ls = Lockstep(sim, [body(i) for i in range(len(cfgs))], plan["meet"])
            self.watched("concurrent calls", "/".join(c["cls"] for c in cfgs), lambda: ls.run())
            sim.count("threaded_rounds")
            sim.count("nontrivial")

    def run(self, plan, sim):
        if "threads" in plan:
            return self.threaded(plan, sim)
        if not plan["late"]:
            self.setup(plan["amb"], sim)
        o = self.watched("constructing", plan["cfg"]["cls"], lambda: Instance(plan["cfg"]))
        if plan["late"]:
            self.setup(plan["amb"], sim)
        ens = o.cls in ("EEMD", "CEEMDAN")
        for k, op in enumerate(plan["ops"]):
            quiet = {**op["call"], "progress": False}
            if ens:
                ref = Ref(sim, o.cfg, op["seed"], quiet)
                self.watched("seeding", o.cls, lambda: o.inst.noise_seed(op["seed"]))
            else:
                ref = PlainRef(sim, o.cfg, quiet)
            if op["amb"]:
                world.do_global({"what": "np_seed", "v": 3})
            out, fired = self.watched(f"call {k}", o.cls, lambda: do_call(sim, o.inst, o.cls, op["call"], op["faults"]))
            if not fired and not ref.agrees(out):
                raise Violation("ambient-matters", f"call {k} of {o.cls} under another ambient state ({sorted(plan['amb'])}, clock/pid/progress) differs: {w.describe_diff(out, ref.out)}")
            self.watched("reading the results", o.cls, lambda: observe(o.inst, o.cls))
            if "tools" in op and out.kind == "ok":
                rows = np.array(out.value, dtype=float)
                self.watched(op["tools"], o.cls, lambda: attempt(lambda: self.tools(sim, op["tools"], o, rows)))

    def watched(self, what, cls, fn):
        """fn(), which must leave the process-wide state as it was."""
        before = ambient()
        out = fn()
        after = ambient()
        for name in before:
            x, y = before[name], after[name]
            if name == "loggers":
                y = {k: v for k, v in y.items() if k in x}  # new loggers disturb nobody
            if x != y:
                did = f" ({out[0]!r})" if isinstance(out, tuple) else ""
                raise Violation("ambient-changed", f"{what} of {cls}{did} changed the {name}")
        return out

    def tools(self, sim, what, o, rows):
        """The helpers that look at a finished decomposition."""
        import pylab

        from PyEMD import Visualisation
        from PyEMD.checks import whitenoise_check

        sim.event("tools", what)
        sim.count("tools")
        t = np.arange(rows.shape[1], dtype=float)
        try:
            if what == "white":
                whitenoise_check(rows)
            elif what == "plot":
                Visualisation(o.inst if hasattr(o.inst, "get_imfs_and_residue") else None).plot_imfs(rows, rows[-1], t)
            else:
                Visualisation().plot_instant_freq(t, rows, order=True, alpha=0.1)
        finally:
            pylab.close("all")


# ==================================================================================================
class C14(Prop):
    """EEMD statistics describe the current result."""

    id = "C14"
    runs = {"quick": 2200, "thorough": 44000}
    rule = ("plan: one EEMD instance, 2-5 calls, serial or parallel, with and without trend separation, some failing in a trial, in a worker, at a "
            "caller-side fault point or on invalid input; after every call ensemble, counts, mean, std and stored components must describe one "
            "decomposition. Non-trivial: a fault fired or the call completed after an earlier one; distinct by digest")

    def gen(self, r, tier):
        cfg = w.gen_eemd(r, None if r.random() < 0.5 else False, cheap=0.75, max_trials=6)
        ops = []
        n0 = r.randint(16, 40)
        same_n = r.random() < 0.5
        for _ in range(r.randint(2, 4 if tier == "quick" else 8)):
            c = gen_any_call(r, cfg, bad=0.08)
            c["sig"]["n"] = n0 if same_n else r.randint(14, 44)
            op = {"op": "call", "call": c, "faults": [], "seed": r.randrange(10**5)}
            if r.random() < 0.55:
                op["faults"] = gen_caller_fault(r, cfg, c) if r.random() < 0.75 or not cfg["kw"]["parallel"] else gen_worker_faults(r, cfg)
            ops.append(op)
            if r.random() < 0.25:
                ops.append({"op": "set", "set": gen_setting(r, cfg)})
        return {"cfg": cfg, "ops": ops, "env": w.gen_env(r)}

    def run(self, plan, sim):
        o = Instance(plan["cfg"])
        trials_of = None
        sep_of = None
        done = 0
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "set":
                o.change(op["set"])
                self.coherent(sim, k, o, observe(o.inst, "EEMD"), trials_of, sep_of)
                continue
            before = observe(o.inst, "EEMD")
            ref = Ref(sim, o.cfg, op["seed"], op["call"])
            o.inst.noise_seed(op["seed"])
            out, fired = do_call(sim, o.inst, "EEMD", op["call"], op["faults"])
            after = observe(o.inst, "EEMD")
            if fired or (done and out.kind == "ok"):
                sim.count("nontrivial")
            if out.kind == "ok":
                done += 1
                trials_of, sep_of = o.inst.trials, o.inst.separate_trends
                if ref.out.kind == "ok":
                    d = ref.obs_diff(after)
                    if d is not None:
                        raise Violation("statistics-differ", f"after call {k} the ensemble differs from the complete one: {d}")
                if not same(out.value, after["pair"][1][0]):
                    raise Violation("statistics-differ", f"call {k} returned other components than it stored")
            else:
                old = same_obs(after, before, STRICT)
                if old is not None:
                    new = ref.obs_diff(after) if ref.out.kind == "ok" else "none"
                    if new is not None:
                        if before["pair"][0] != "ok":
                            continue  # nothing had been computed yet: nothing to be coherent with
                        raise Violation("statistics-mixed", f"after call {k} failed with {out.exc} the statistics describe neither the previous ensemble ({old}) nor the new one ({new})")
                    trials_of, sep_of = o.inst.trials, o.inst.separate_trends
            self.coherent(sim, k, o, after, trials_of, sep_of)
            again = same_obs(observe(o.inst, "EEMD"), after, 0.0)
            if again is not None:
                raise Violation("reading-changes", f"reading the statistics after call {k} changed them: {again}")

    def coherent(self, sim, k, o, obs, trials, sep):
        if obs["pair"][0] != "ok" or trials is None:
            return
        comp, res = obs["pair"][1]
        if not np.all(np.isfinite(comp)):
            return
        for key in ("all", "count", "mean", "std"):
            if obs[key][0] != "ok":
                raise Violation("statistics-unavailable", f"op {k}: {key} raises {obs[key][1]} although a result is stored")
        allv = obs["all"][1]
        counts = list(obs["count"][1])
        if counts != [len(v) for v in allv.values()]:
            raise Violation("statistics-incoherent", f"op {k}: counts {counts} for an ensemble with {[len(v) for v in allv.values()]} members")
        if not same(obs["mean"][1], comp, 1e-9):
            raise Violation("statistics-incoherent", f"op {k}: ensemble mean is not the stored result: {w.maxdiff(obs['mean'][1], comp)}")
        want = np.array([v.mean(axis=0) for v in allv.values()])
        if not same(want, comp, 1e-9):
            raise Violation("statistics-incoherent", f"op {k}: stored components are not the mean of the ensemble: {w.maxdiff(want, comp)}")
        want = np.array([v.std(axis=0) for v in allv.values()])
        scale = max(np.max(np.abs(v)) for v in allv.values()) if allv else 1.0
        if np.shape(want) != np.shape(obs["std"][1]) or np.max(np.abs(want - obs["std"][1])) > 1e-9 * max(scale, 1e-300):
            raise Violation("statistics-incoherent", f"op {k}: ensemble standard deviation is not that of the ensemble")
        if counts and not sep and counts[0] != trials:
            raise Violation("statistics-incoherent", f"op {k}: {counts[0]} first modes for {trials} trials")
        if counts and sep and counts[-1] != trials:
            raise Violation("statistics-incoherent", f"op {k}: {counts[-1]} trends for {trials} trials")
        if counts and max(counts) > trials:
            raise Violation("statistics-incoherent", f"op {k}: a mode has {max(counts)} members for {trials} trials")


PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14)}

from dst import resources  # noqa: E402,F401  (adds C15 and C16)
