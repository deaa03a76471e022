"""C09: independent solvers running concurrently do not influence each other."""
import numpy as np

from .. import rig as R
from ..core import Ctx, close, in_fork
from ..sched import Sched, gen_sched
from .c03 import gen_values

ID = "C09"
BUDGET = {"quick": (1600, 240), "thorough": (40000, 1500)}
RULE = ("a run counts if two or more solvers ran in different threads with at least one switch between "
        "them and were compared with each solver run alone; distinct plans counted once")
STATE_MEASURE = "solvers x per-solver (iterations, failing role) x number of switches (bucketed)"
REAL = "all solvers, costObj, metrics, gradient and proximity classes, in real threads"
STUB = "thread scheduling (baton passed at traced lines or bytecodes of the package), operator functions; tensorflow/torch/cupy absent"
ASSUME = ["switches happen at source lines or bytecodes of the package and at operator calls, not inside numpy"]
KEEP = ("shape",)
# the stateful solvers more often
POOL = R.SOLVERS + ("FB", "FB", "FB", "POGM", "POGM", "Condat", "Condat", "GenFB", "ADMM")


def gen(rng, tier, i):
    tasks = []
    same = rng.random() < 0.5
    twin = rng.random() < 0.6       # like solvers on like data: the most likely to share something
    first = like = None
    for _ in range(rng.choice([2, 2, 2, 3])):
        if same and first is not None:
            cfg = R.gen_solver(rng, [first], real=0.6, shapes=[like["shape"]] if twin else None,
                               dtypes=[like["dtype"]] if twin else None)
        else:
            cfg = like = R.gen_solver(rng, POOL, real=0.6, dtypes=R.ALL_DTYPES)
        s = first = cfg["solver"]
        roles = [r for r in R.roles_of(s, cfg["params"]) if r not in ("Aop", "Bop")]
        if rng.random() < 0.7:
            cfg["metrics"] = R.gen_metrics(rng, s, rng.choice([1, 2]), early=0.5, values=gen_values)
            cfg["period"] = rng.choice([1, 1, 2, 3])
            roles += ["metric:" + m["name"] for m in cfg["metrics"]]
        if "ADMM" in s:
            if rng.random() < 0.5:
                cfg["cost"] = {"kind": "admm", "values": gen_values(rng)}
        elif rng.random() < 0.7:
            cfg["cost"] = {"kind": rng.choice(["real", "real", "auto"]), "values": gen_values(rng),
                           "tol": rng.choice([1e-4, 1e-2]), "interval": rng.choice([1, 2]),
                           "range": rng.choice([2, 4]), "verbose": rng.random() < 0.2}
        if rng.random() < 0.3:
            cfg["progress"] = True
        if rng.random() < 0.3:
            cfg["verbose"] = True
        faults = R.gen_faults(rng, roles, 10, count=rng.choice([0, 0, 1, 2]))
        if s == "POGM":
            faults = [f for f in faults if not (f["role"] == "grad" and f["n"] == 0)]
        tasks.append({"cfg": cfg, "faults": faults,
                      "segs": [rng.choice([1, 2, 3, 5, 8]) for _ in range(rng.randint(1, 3))]})
    return {"tasks": tasks, "sched": gen_sched(rng, [0.02, 0.1, 0.3, 0.6], 0.25)}


def sequential(plan):
    return dict(plan, sched={"explicit": []})


def drive(t, ctx, name):
    out = []
    with np.errstate(all="ignore"):
        rig = R.Rig(t["cfg"], ctx, t["faults"], name=name)
        for n in t["segs"]:
            e = rig.iterate(n)
            rec = {"iterations": len(rig.iterations_in_call()), "error": type(e).__name__,
                   "role": rig.raised_role}
            if e is None:
                rec["results"] = {k: np.array(v) for k, v in rig.results().items()}
                rec["metrics"] = {k: (list(v["index"]), list(v["values"]))
                                  for k, v in rig.solver.metrics.items()} if t["cfg"].get("metrics") else {}
            out.append(rec)
        calls = [[(c[0], c[1], c[2]) for c in it["calls"]] for it in rig.iters]
        mets = [(r["name"], r["it"], sorted(r["kwargs"]), r["value"]) for r in rig.metric_log]
        costs = [(a, v) for a, v, _ in rig.cost_at]
    return {"calls": calls, "segs": out, "metrics": mets, "costs": costs}


def run(plan, ctx):
    R.silence()
    alone = [in_fork(lambda t=t: drive(t, Ctx(), "t")) for t in plan["tasks"]]
    s = Sched(ctx, plan["sched"], max_steps=2000000)
    tasks = s.run([lambda t=t, k=k: drive(t, ctx, f"t{k}") for k, t in enumerate(plan["tasks"])])
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    for k, (a, t) in enumerate(zip(alone, tasks)):
        b = t.result
        who = f"solver {k} ({plan['tasks'][k]['cfg']['solver']})"
        for j, (x, y) in enumerate(zip(a["segs"], b["segs"])):
            for key in ("iterations", "error", "role"):
                if x[key] != y[key]:
                    ctx.violate("differs-" + key, f"{who}, call {j}: {key} {y[key]} among others, {x[key]} alone")
        for j, (x, y) in enumerate(zip(a["calls"], b["calls"])):
            if not close(x, y, 1e-12):
                ctx.violate("differs-trajectory", f"{who}: iteration {j} differs from the run alone")
        for key in ("calls", "metrics", "costs", "segs"):
            if not close(a[key], b[key], 1e-12):
                ctx.violate("differs-" + key, f"{who}: {key} differ from the run alone")
    ctx.state([t["cfg"]["solver"] for t in plan["tasks"]],
              [[(x["iterations"], x["role"]) for x in a["segs"]] for a in alone], min(ctx.n_switch, 40) // 4)
    ctx.probe("switched-runs", bool(ctx.n_switch))
    ctx.probe("foreign-lock", s.foreign)
