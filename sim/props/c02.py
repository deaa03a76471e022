"""C02: solver iterates follow the documented recursion over any history."""
import numpy as np

from .. import rig as R
from ..core import close

ID = "C02"
BUDGET = {"quick": (6000, 240), "thorough": (120000, 1500)}
RULE = ("a run counts if at least one iteration was checked against the reference recursion and "
        "its plan (solver, parameters, operator answers, failures, call split) is distinct")
STATE_MEASURE = "solver x branch signature (restart/safeguard/shrink taken, failure positions, call split)"
REAL = "all solvers, FISTA, gradient, proximity and cost classes of the package"
STUB = "operator answers (scripted), metric functions; tensorflow/torch/cupy absent"
ASSUME = ["runs in which an inner product deciding a restart is within 1e-9 of zero are discarded",
          "arguments are compared with a relative tolerance of 1e-8"]
KEEP = ("shape",)
SOLV = [s for s in R.SOLVERS if "ADMM" not in s] + ["FB", "FB", "GenFB", "POGM", "Condat"]


def gen(rng, tier, i):
    cfg = R.gen_solver(rng, SOLV)
    s = cfg["solver"]
    k = rng.random()
    if k < 0.08:
        R.gen_defaults(rng, cfg)
    elif k < 0.16 and s in R.STEP:
        cfg["params"]["step_size"] = R.rfloat(rng, 0.2, 1.2)
    if rng.random() < 0.6:
        cfg["metrics"] = R.gen_metrics(rng, s, 1)
        cfg["metrics"][0]["mapping"] = {k: "a_" + k for k in R.keys_of(s)}
        cfg["period"] = rng.choice([1, 1, 2, 3])
    k = rng.random()
    if k < 0.4:
        cfg["cost"] = {"kind": "stub", "values": []}
    roles = R.roles_of(s, cfg["params"])
    if cfg.get("ops") == "real":
        roles = roles + ["gop", "gtrans"]
    if cfg.get("cost"):
        roles = roles + ["cost"]
    n = rng.choice([3, 6, 12, 20] if tier == "quick" else [5, 12, 25, 60])
    faults = R.gen_faults(rng, roles, n)
    if s == "POGM":
        faults = [f for f in faults if not (f["role"] in ("grad", "gop", "gtrans") and f["n"] == 0)]
    segs = []
    left = n
    while left > 0:
        k = rng.randint(1, left)
        segs.append(k)
        left -= k
    segs = R.gen_long(rng, segs)
    if max(segs) > 60 and rng.random() < 0.5:
        # a long way in one direction: the accelerations are never restarted
        cfg.pop("ops", None)
        cfg.pop("prox_kind", None)
        cfg["styles"] = {r: ["const" if r == "grad" else "echo"] for r in roles if r == "grad" or r.startswith("prox")}
    if rng.random() < 0.01:
        segs[rng.randrange(len(segs))] = None       # as many as by default
    if rng.random() < 0.02 and s in R.STEP:
        cfg["auto"] = True
        faults = []
    return {"cfg": cfg, "faults": faults, "segs": segs}


def run(plan, ctx):
    R.silence()
    cfg = plan["cfg"]
    with np.errstate(all="ignore"):
        rig = R.Rig(cfg, ctx, plan["faults"], model=True, on_metric=check_visible)
        sig = [cfg["solver"], cfg["params"].get("fista", {}) and cfg["params"]["fista"].get("restart_strategy")]
        for n in ["auto"] * bool(cfg.get("auto")) + plan["segs"]:
            e = rig.iterate(n) if n != "auto" else None
            if n in ("auto", None):
                n = 150
            done = rig.iterations_in_call()
            if e is None:
                if len(done) != n:
                    ctx.violate("iteration-count", f"asked for {n} iterations, {len(done)} were done")
                last = done[-1]
                for k, v in last["final"].items():
                    got = getattr(rig.solver, k)
                    if not close(got, v, 1e-8):
                        ctx.violate("wrong-result", f"{k} = {np.ravel(got)[:4]}, recursion says {np.ravel(v)[:4]}")
            ctx.probe("iterations", len(done))
            sig.append((len(done), rig.raised_role))
        ctx.state(sig)
        ctx.probe("solver:" + cfg["solver"], 1)


def check_visible(rig, m, rec, kwargs):
    vis = rig.cur.get("visible") if rig.cur else None
    if vis is None:
        rig.ctx.violate("metric-too-early", f"metric evaluated before iteration {rec['it']} was complete")
    for key, name in m["mapping"].items():
        if name is None or key == "idx":
            continue
        got = kwargs[name]
        exp = vis[key]
        if key == "x_new" and rig.cfg["solver"] in ("FB", "GenFB", "POGM"):
            exp = rig.lin(rig.L.T, exp)
        if not close(np.asarray(got), np.broadcast_to(np.asarray(exp), np.shape(got)), 1e-8):
            rig.ctx.violate("wrong-iterate",
                            f"iteration {rec['it']}: {key} = {np.ravel(got)[:4]}, recursion says {np.ravel(exp)[:4]}")
