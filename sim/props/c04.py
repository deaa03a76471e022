"""C04: metrics are evaluated exactly on their schedule."""
import numpy as np

from .. import rig as R
from ..core import close

ID = "C04"
BUDGET = {"quick": (6000, 240), "thorough": (120000, 1500)}
RULE = ("a run counts if every call of the user's metric functions was compared with the schedule and "
        "the iterates of that iteration; plans with distinct (solver, period, calls, failures) counted once")
STATE_MEASURE = "solver x period x (requested, performed, failing role) per call"
REAL = "all solvers, Observable, MetricObserver"
STUB = "operator answers, metric functions, scripted cost tests; tensorflow/torch/cupy absent"
ASSUME = ["metrics registered after a failing one may or may not be evaluated in that notification"]
KEEP = ("shape",)


def gen(rng, tier, i):
    cfg = R.gen_solver(rng, real=0.2)
    s = cfg["solver"]
    roles = R.roles_of(s, cfg["params"])
    n = rng.choice([1, 2, 3, 3, 5])
    if rng.random() < 0.95:
        cfg["metrics"] = R.gen_metrics(rng, s, rng.choice([1, 1, 2, 3, 4]))
        if rng.random() < 0.3:
            m = rng.choice(cfg["metrics"])
            m["early"] = True
            m["values"] = [1.0] * rng.randint(6, 20) + [rng.random() for _ in range(rng.randint(0, 8))]
        for m in cfg["metrics"]:
            if rng.random() < 0.5:
                m["mapping"] = {k: "a_" + k for k in R.keys_of(s)}
        roles = roles + ["metric:" + m["name"] for m in cfg["metrics"]] * 2
    cfg["period"] = rng.choice([1, 2, 3, 4, 5, 7, 10, 100, None])
    if rng.random() < 0.15:
        del cfg["period"]      # documented default
    if "ADMM" not in s and rng.random() < 0.6:
        p = rng.choice([0.0, 0.05, 0.2])
        cfg["cost"] = {"kind": "stub", "values": [rng.random() < p for _ in range(rng.randint(1, 30))]}
        roles.append("cost")
    if "ADMM" in s:
        roles = [r for r in roles if r not in ("Aop", "Bop")]
    if s in ("FB", "GenFB", "POGM") and cfg.get("metrics"):
        roles.append("madj")
    faults = R.gen_faults(rng, roles, rng.choice([3, 6, 12, 25]))
    if s == "POGM":
        faults = [f for f in faults if not (f["role"] == "grad" and f["n"] == 0)]
    if rng.random() < 0.2:
        cfg["progress"] = True
    segs = [rng.choice([1, 1, 2, 3, 5, 6, 11, 16, 20]) for _ in range(rng.randint(1, 5))]
    return {"cfg": cfg, "faults": faults, "segs": R.gen_long(rng, segs)}


def run(plan, ctx):
    R.silence()
    cfg = plan["cfg"]
    metrics = cfg.get("metrics") or []
    period = cfg.get("period", 5)
    early = any(m["early"] for m in metrics)
    with np.errstate(all="ignore"):
        rig = R.Rig(cfg, ctx, plan["faults"], model="ADMM" not in cfg["solver"], soft=True,
                    on_metric=check_arguments)
        sig = [cfg["solver"], period, len(metrics)]
        for n in plan["segs"]:
            n0 = len(rig.metric_log)
            e = rig.iterate(n)
            its = rig.iterations_in_call()
            done = len(its)
            seen = {}
            for rec in rig.metric_log[n0:]:
                key = (rec["name"], rec["it"] and rec["it"][1])
                seen[key] = seen.get(key, 0) + 1
            said = {it[1] for it, v in rig.cost_log if v and it and it[0] == rig.call_no}
            for i in range(done):
                due = period is not None and (
                    i % period == 0 or i == n - 1 or (e is None and i == done - 1)
                    or i in said)
                last = i == done - 1
                cut = False   # a failure ended the notification
                if e is not None and last:
                    if rig.raised_role == "madj":
                        cut = True
                    elif not rig.raised_role.startswith("metric"):
                        due = False
                for m in metrics:
                    c = seen.pop((m["name"], i), 0)
                    if cut and c <= 1 and due:
                        continue
                    if e is not None and last and c <= 1 and early:
                        continue   # this iteration may have been the converging one
                    if c != (1 if due else 0):
                        ctx.violate("schedule",
                                    f"metric {m['name']} evaluated {c} times at iteration {i} of iterate({n}) "
                                    f"({done} performed, period {period}, "
                                    f"{'failed in ' + rig.raised_role if e is not None else 'completed'})")
                    if e is not None and last and rig.raised_role == "metric:" + m["name"]:
                        cut = True
            if seen:
                ctx.violate("schedule", f"metrics evaluated outside the iterations: {sorted(seen, key=str)}")
            sig.append((n, done, rig.raised_role))
            ctx.probe("evaluations", len(rig.metric_log) - n0)
            if e is None and done < n:
                ctx.probe("converged-calls")
        ctx.state(sig)
        ctx.probe("solver:" + cfg["solver"])


def check_arguments(rig, m, rec, kwargs):
    ctx = rig.ctx
    want = {v for v in m["mapping"].values() if v is not None} | set(m.get("cst", {}))
    if set(kwargs) != want:
        ctx.violate("arguments", f"metric {m['name']} called with {sorted(kwargs)}, expected {sorted(want)}")
    for k, v in m.get("cst", {}).items():
        if not close(kwargs[k], np.full(2, float(v)), 0.0):
            ctx.violate("arguments", f"constant {k} of metric {m['name']} is {kwargs[k]}")
    it = rec["it"]
    if it is None:
        ctx.violate("schedule", f"metric {m['name']} evaluated before any iteration")
    vis = rig.cur.get("visible")
    for key, name in m["mapping"].items():
        if name is None:
            continue
        got = kwargs[name]
        if key == "idx":
            if int(got) != it[1]:
                ctx.violate("stale-index", f"metric {m['name']} got index {got} at iteration {it[1]}")
            continue
        if vis is None:
            if rig.model is not None and not rig.cur["failed"]:
                ctx.violate("schedule", f"metric {m['name']} evaluated before iteration {it[1]} was complete")
            continue
        exp = vis.get(key)
        if exp is None:
            continue
        if key == "x_new" and rig.cfg["solver"] in ("FB", "GenFB", "POGM"):
            exp = rig.lin(rig.L.T, exp)
        if not close(np.asarray(got), np.broadcast_to(np.asarray(exp), np.shape(got)), 1e-8):
            ctx.violate("stale-iterate",
                        f"metric {m['name']} at iteration {it[1]}: {key} = {np.ravel(got)[:4]}, "
                        f"this iteration has {np.ravel(exp)[:4]}")
        ctx.probe("values-compared")
