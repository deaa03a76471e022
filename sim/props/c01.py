"""C01: an interrupted or split optimisation resumes on the same trajectory."""
import json

import numpy as np

from .. import rig as R
from ..core import Ctx, close

ID = "C01"
BUDGET = {"quick": (5000, 240), "thorough": (100000, 1500)}
RULE = ("a run counts if it was split or interrupted at least once and then compared, operator call by "
        "operator call, with the uninterrupted run of the same configuration")
STATE_MEASURE = "solver x positions (call, iteration, role) of failures and stops"
REAL = "all solvers, gradient, proximity, linear and cost classes of the package"
STUB = "operator functions (deterministic functions of their argument), metric functions; tensorflow/torch/cupy absent"
ASSUME = ["operators are deterministic functions of their argument",
          "settings that count iterations of a call (epoch size, index-dependent step updates) are not split"]
KEEP = ("shape",)


def gen(rng, tier, i):
    cfg = R.gen_solver(rng, idx_free=True, styles=False, real=0.3)
    s = cfg["solver"]
    cfg["buffers"] = rng.choice(["fresh", "fresh", "reuse"])
    roles = R.roles_of(s, cfg["params"])
    cost = rng.random() < 0.7
    if "ADMM" in s and cost:
        roles = ["optH", "optG"]   # the cost evaluates A and B as well
    if cfg.get("ops") == "real":
        roles = roles + ["gop", "gtrans"]
    if rng.random() < 0.5:
        cfg["metrics"] = R.gen_metrics(rng, s)
        cfg["period"] = rng.choice([1, 2, 3, 5])
        roles = roles + ["metric:" + m["name"] for m in cfg["metrics"]]
        if s in ("FB", "GenFB", "POGM"):
            roles = roles + ["madj"]
    if not cost:
        pass
    elif rng.random() < 0.5 and "ADMM" not in s:
        cfg["cost"] = {"kind": "stub", "values": [rng.random() < 0.15 for _ in range(rng.randint(1, 8))]}
        roles = roles + ["cost"]
    else:
        cfg["cost"] = {"kind": "real", "tol": -1.0, "interval": rng.choice([1, 1, 2]),
                       "range": rng.choice([2, 4])}
        roles = roles + ["cost"]
    if rng.random() < 0.3:
        cfg["progress"] = True
    n = rng.choice([3, 6, 12] if tier == "quick" else [4, 10, 25])
    faults = R.gen_faults(rng, roles, n + 2)
    if s == "POGM":
        faults = [f for f in faults if not (f["role"] in ("grad", "gop", "gtrans") and f["n"] == 0)]
    segs = []
    left = n
    while left > 0:
        k = rng.randint(1, left)
        segs.append(k)
        left -= k
    return {"cfg": cfg, "faults": faults, "segs": R.gen_long(rng, segs, 0.01)}


def run(plan, ctx):
    R.silence()
    cfg = plan["cfg"]
    with np.errstate(all="ignore"):
        rig = R.Rig(cfg, ctx, plan["faults"], name="split")
        if "ADMM" in cfg["solver"]:
            probe = R.Rig(cfg, ctx, (), name="probe")
            probe.iterate(1)
            names = [c[0] for c in probe.iters[0]["calls"]]
            rig.post_limit = names[names.index("optG-obs"):].count("Bop")
        sig = [cfg["solver"]]
        segs = list(plan["segs"]) or [1]
        tries = 0
        while segs:
            n = segs[0]
            e = rig.iterate(n)
            sig.append((len(rig.iterations_in_call()), rig.raised_role))
            if e is None:
                segs.pop(0)
            else:
                tries += 1
                if tries > 60:
                    ctx.violate("no-progress", "the run does not finish although the failures stopped")
        done = rig.committed()
        twin_cfg = json.loads(json.dumps(cfg))
        if twin_cfg.get("cost", {}).get("kind") == "stub":
            twin_cfg["cost"]["values"] = []
        if "ADMM" in cfg["solver"]:
            twin_cfg.pop("cost", None)   # its tolerance cannot be set: the whole run must not stop
        twin = R.Rig(twin_cfg, ctx, (), name="whole")
        twin.iterate(len(done))
        ref = twin.committed()
        if len(ref) != len(done):
            ctx.violate("iteration-count",
                        f"uninterrupted run of {len(done)} iterations performed {len(ref)}")
        for k, (a, b) in enumerate(zip(done, ref)):
            compare(ctx, k, a, b, full=True)
        # a failed attempt asks for the same values as the iteration it retries
        pos = 0
        for it in rig.iters:
            if it["failed"]:
                if pos < len(ref):
                    compare(ctx, pos, it, ref[pos], full=False)
            else:
                pos += 1
        ra, rb = rig.results(), twin.results()
        if ra.keys() != rb.keys():
            ctx.violate("results-differ", f"{sorted(ra)} against {sorted(rb)}")
        for k in ra:
            if not close(np.asarray(ra[k]), np.asarray(rb[k]), 1e-9):
                ctx.violate("result-differs",
                            f"{cfg['solver']}: {k} = {np.ravel(ra[k])[:4]} after interruptions, {np.ravel(rb[k])[:4]} without")
        ctx.state(sig)
        ctx.probe("solver:" + cfg["solver"])
        ctx.probe("iterations", len(done))
        ctx.probe("retried", sum(i["failed"] for i in rig.iters))


def compare(ctx, k, a, b, full):
    ca, cb = a["calls"], b["calls"]
    if any(c[0] == "optH" for c in cb):
        ca, cb = ([c for c in x if c[0].startswith("opt")] for x in (ca, cb))
    if full and len(ca) != len(cb):
        ctx.violate("trajectory-differs",
                    f"iteration {k}: {[c[0] for c in ca]} evaluated, uninterrupted run evaluates {[c[0] for c in cb]}")
    for x, y in zip(ca, cb):
        if x[0] != y[0]:
            ctx.violate("trajectory-differs",
                        f"iteration {k}: {x[0]} evaluated, uninterrupted run evaluates {y[0]}")
        if not close(x[1], y[1], 1e-9) or not close(x[2], y[2], 1e-9):
            ctx.violate("trajectory-differs",
                        f"iteration {k} ({'complete' if full else 'failed attempt'}): {x[0]} at "
                        f"{np.ravel(x[1])[:4]} factor {x[2]}, uninterrupted run at {np.ravel(y[1])[:4]} factor {y[2]}")
