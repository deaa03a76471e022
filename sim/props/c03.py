"""C03: solvers stop exactly when they are told to, and always stop."""
import numpy as np

from .. import models
from .. import rig as R
from ..core import StepLimit

ID = "C03"
BUDGET = {"quick": (6000, 240), "thorough": (120000, 1500)}
RULE = ("a run counts if the stopping iteration of at least one iterate call was compared with the "
        "model of cost windows and early-stopping flags, and its plan is distinct")
STATE_MEASURE = "solver x cost kind x (requested, performed, reason) per call"
REAL = "all solvers, costObj, ADMM cost, MetricObserver"
STUB = "operator answers, scripted cost and metric values; tensorflow/torch/cupy absent"
ASSUME = ["runs in which a window change is within 1e-9 of the tolerance are discarded"]
KEEP = ("shape",)


def gen_values(rng, n=None):
    """A history with plateaus, drifts, jumps and undefined values."""
    out = []
    v = rng.choice([1.0, 10.0, 1e6, 1e-3, -5.0, 1.0, 10.0, 1e-9, 3e-12])
    for _ in range(rng.randint(1, 6)):
        k = rng.random()
        m = rng.randint(1, 9)
        if k < 0.4:
            out += [v] * m
        elif k < 0.55:
            for _ in range(m):
                v = v * rng.choice([0.5, 0.9, 1.1])
                out.append(v)
        elif k < 0.65:
            out += [v * (1 + 1e-6 * j) for j in range(m)]
        elif k < 0.74:
            s = rng.choice([1e-3, 1e-3, 1e-4, 1e-6, 1e-8]) * rng.choice([0.3, 0.7, 1.7])
            if rng.random() < 0.3:
                # a step that is within the tolerance of one side of it only
                t = rng.choice([1e-2, 1e-3, 1e-4])
                b = v * (1 + rng.choice([t * (1 + t / 2), -t * (1 - t / 2)]))
                out += [v] * rng.choice([1, 2, 3, 3]) + [b] * rng.choice([1, 2, 3, 3])
                v = b
                continue
            out += [v * (1 + s * (j if rng.random() < 0.8 else -j)) for j in range(m)]
        elif k < 0.8:
            out += [float("nan")] * rng.randint(1, 3)
        elif k < 0.87:
            out += [rng.choice([float("inf"), -float("inf")])] * rng.randint(1, 3)
        elif k < 0.93:
            out += [0.0] * m
        else:
            v = -v * rng.choice([1.0, 0.1])
            out.append(v)
    return out


def gen_metric_values(rng):
    if rng.random() < 0.8:
        return gen_values(rng)
    # steps just inside and just outside the early-stopping threshold
    v = rng.choice([1.0, 250.0, -3.0, 1e-6])
    out = [v * j for j in range(2, 2 + rng.randint(0, 4))] + [v] * rng.choice([3, 3, 4])
    for _ in range(rng.randint(1, 3)):
        v = v * (1 + rng.choice([1e-3 * (1 + 5e-4), -1e-3 * (1 - 5e-4), 1.2e-3, 0.8e-3, -1.2e-3]))
        out += [v] * 3
    return out + [v * 2, v * 4]


def gen(rng, tier, i):
    cfg = R.gen_solver(rng, styles=False, real=0.0, dtypes=R.ALL_DTYPES)
    s = cfg["solver"]
    roles = R.roles_of(s, cfg["params"])
    k = rng.random()
    if "ADMM" in s:
        if k < 0.7:
            cfg["cost"] = {"kind": "admm", "values": gen_values(rng), "range": 4, "tol": 1e-4}
            roles = ["optH", "optG", "cost"]
    elif k < 0.35:
        p = rng.choice([0.02, 0.1, 0.3])
        cfg["cost"] = {"kind": "stub", "values": [rng.random() < p for _ in range(rng.randint(1, 40))]}
        roles.append("cost")
    elif k < 0.65:
        cfg["cost"] = {"kind": "real", "values": gen_values(rng), "tol": rng.choice([1e-4, 1e-4, 1e-6, 1e-2, 0.0, -1.0, 0.2]),
                       "interval": rng.choice([1, 1, 1, 2, 3, None]), "range": rng.choice([2, 3, 4, 4, 5, 6])}
        roles.append("cost")
    elif k < 0.75:
        cfg["cost"] = {"kind": "auto", "values": gen_values(rng), "range": 4, "tol": 1e-4}
        roles.append("cost")
    if rng.random() < 0.65:
        cfg["metrics"] = R.gen_metrics(rng, s, rng.choice([1, 1, 2, 3]), early=0.8, values=gen_metric_values)
        cfg["period"] = rng.choice([1, 1, 1, 2, 3, 5, None])
        roles += ["metric:" + m["name"] for m in cfg["metrics"]]
    n = rng.choice([1, 2, 5, 12, 25, 40])
    faults = R.gen_faults(rng, roles, n + 2)
    if s == "POGM":
        faults = [f for f in faults if not (f["role"] == "grad" and f["n"] == 0)]
    if rng.random() < 0.3:
        cfg["progress"] = True
    if rng.random() < 0.2:
        cfg["verbose"] = True
    segs = [rng.choice([1, 1, 2, 3, 7, 15, 30, n]) for _ in range(rng.randint(1, 6))]
    return {"cfg": cfg, "faults": faults, "segs": R.gen_long(rng, segs)}


def run(plan, ctx):
    R.silence()
    cfg = plan["cfg"]
    with np.errstate(all="ignore"):
        rig = R.Rig(cfg, ctx, plan["faults"], limit=40000)
        cost = cfg.get("cost")
        win = models.CostWindow(cost["range"], cost["tol"]) if cost and "range" in cost else None
        hist = {m["name"]: [] for m in cfg.get("metrics") or () if m["early"]}
        flags = {k: False for k in hist}
        each = bool(cost) and cost.get("interval", 1) == 1
        sig = [cfg["solver"], cost and cost["kind"]]
        for n in plan["segs"]:
            n_cost, n_met, n_stub = len(rig.cost_at), len(rig.metric_log), len(rig.cost_log)
            try:
                e = rig.iterate(n)
            except StepLimit:
                ctx.violate("does-not-stop", f"iterate({n}) exceeded {rig.limit} operator calls")
            its = rig.iterations_in_call()
            done = len(its)
            # replay the call on the model, iteration by iteration
            costs = {}
            if cost and cost["kind"] == "stub":
                for it, v in rig.cost_log[n_stub:]:
                    costs.setdefault(it[1], []).append(v)
            else:
                for it, v, args in rig.cost_at[n_cost:]:
                    if "ADMM" in cfg["solver"]:
                        vis = its[it[1]]["visible"]
                        u, w = vis["x_new"], vis["v_new"]
                        r = 0.7 * rig.lin(rig.HtH, u) + 0.7 * rig.lin(rig.L, w) - rig.init["b"]
                        v = v + cfg["params"]["tau"] * np.linalg.norm(r)
                    costs.setdefault(it[1], []).append(v)
            mets = {}
            for rec in rig.metric_log[n_met:]:
                if rec["value"] is not None:
                    mets.setdefault(rec["it"][1], []).append(rec)
            stop = None
            reason = None
            for i in range(done):
                before = any(flags.values())
                conv = False
                if each and not before and not its[i]["failed"] and len(costs.get(i, ())) != 1 and not (
                        i == done - 1 and rig.raised_role == "cost"):
                    ctx.violate("cost-not-tested",
                                f"the cost was tested {len(costs.get(i, ()))} times at iteration {i}")
                for v in costs.get(i, ()):
                    if win is None:
                        conv = conv or bool(v)
                    else:
                        conv = win.add(v) or conv
                for rec in mets.get(i, ()):
                    if rec["name"] in hist:
                        h = hist[rec["name"]]
                        h.append(rec["value"])
                        f = models.metric_flag(h)
                        if f is not None:
                            flags[rec["name"]] = f
                if before or conv:
                    stop, reason = i, "flag" if before else "cost"
                    break
            may_stop_now = any(flags.values())
            ctx.probe(f"stop-{reason}")
            if e is None:
                if done == 0:
                    ctx.violate("no-iteration", f"iterate({n}) performed no iteration")
                if done > n:
                    ctx.violate("too-many", f"iterate({n}) performed {done} iterations")
                if stop is not None and stop < done - 1:
                    ctx.violate("did-not-stop",
                                f"{reason} said stop at iteration {stop}, but {done} iterations of {n} were performed")
                if stop is None and done < n and not may_stop_now:
                    ctx.violate("stopped-early",
                                f"{done} of {n} iterations performed although nothing had converged")
                if n > 1 and done < n:
                    ctx.probe("stopped-before-limit")
            elif stop is not None and stop < done - 1:
                ctx.violate("did-not-stop",
                            f"{reason} said stop at iteration {stop}, but iteration {done - 1} was begun")
            sig.append((n, done, reason, rig.raised_role))
        ctx.state(sig)
        ctx.probe("solver:" + cfg["solver"])
