"""C08: solvers never share mutable memory with their caller."""
import json

import numpy as np

from .. import rig as R
from ..core import close, nprng
from .c01 import compare

ID = "C08"
BUDGET = {"quick": (5000, 240), "thorough": (100000, 1500)}
RULE = ("a run counts if it was compared, operator call by operator call, with the run of the same "
        "configuration whose operators return fresh arrays and whose caller leaves its arrays alone")
STATE_MEASURE = "solver x buffer behaviour x call split x moments at which the caller overwrote its arrays"
REAL = "all solvers, gradient, proximity and linear classes of the package"
STUB = "operator functions, metric functions; tensorflow/torch/cupy absent"
ASSUME = ["operators that reuse a buffer may change earlier answers, so results are only required to stay "
          "as they were when the operators return fresh arrays"]
KEEP = ("shape",)
INITS = {"FB": ["x"], "GenFB": ["x"], "POGM": ["u", "x", "y", "z"], "Condat": ["x", "y"],
         "ADMM": ["u", "v", "mu"], "FastADMM": ["u", "v", "mu"]}


def gen(rng, tier, i):
    cfg = R.gen_solver(rng, real=0.35, shapes=R.BIG_SHAPES if rng.random() < 0.05 else None)
    s = cfg["solver"]
    cfg["buffers"] = rng.choice(["fresh", "reuse", "reuse", "alias", "cached", "cached", "readonly"])
    if cfg["buffers"] in ("alias", "cached") and not cfg.get("ops") and "ADMM" not in s:
        cfg["styles"] = {r: [rng.choice(["echo", "const", "echo", "func", "prev", "zero"])
                             for _ in range(rng.randint(1, 4))] for r in R.roles_of(s, cfg["params"])}
    if rng.random() < 0.6:
        cfg["metrics"] = R.gen_metrics(rng, s)
        for m in cfg["metrics"]:
            m["cst"] = {"ref": 1, "mask": 2}
        cfg["period"] = rng.choice([1, 2, 5])
    if "ADMM" not in s and rng.random() < 0.4:
        cfg["cost"] = {"kind": rng.choice(["stub", "real"]), "values": [], "tol": -1.0}
    cfg["obs_writeable"] = rng.random() < 0.5
    keys = INITS.get(s, ["x"])
    scr = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 4)):
            scr.append([rng.choice([0, 0, 1, 2, 5, 9, 14]), rng.choice(keys), rng.choice(["noise", "nan", "zero"])])
    return {"cfg": cfg, "segs": R.gen_long(rng, [rng.choice([1, 1, 2, 3, 5, 8]) for _ in range(rng.randint(1, 4))], 0.005),
            "scribble": scr, "layout": rng.choice(R.LAYOUTS), "readonly_inputs": not scr and rng.random() < 0.3}


def run(plan, ctx):
    R.silence()
    cfg = plan["cfg"]
    with np.errstate(all="ignore"):
        probe = R.Rig(dict(cfg, buffers="fresh"), ctx, name="p")
        caller = {k: R.layout(plan.get("layout", "C"), v) for k, v in probe.init.items()}
        before = {k: v.copy() for k, v in caller.items()}
        if plan["readonly_inputs"]:
            for v in caller.values():
                v.flags.writeable = False
        rig = R.Rig(cfg, ctx, name="shared", caller=caller)
        obs0 = rig.obs.copy()
        set0 = {k: v.copy() for k, v in rig.settings.items()}
        w0 = None if getattr(rig, "weights_in", None) is None else np.array(rig.weights_in)
        cst0 = json.dumps([[k, v["cst_kwargs"]] for k, v in (getattr(rig, "metric_dict", None) or {}).items()],
                          default=lambda a: a.tolist())
        touched = set()
        pend = sorted(plan["scribble"])
        count = [0]

        def scribble(r, role):
            while pend and pend[0][0] <= count[0]:
                _, key, how = pend.pop(0)
                a = caller[key]
                if how == "nan":
                    a[...] = np.nan
                elif how == "zero":
                    a[...] = 0
                else:
                    a[...] = nprng("scribble", count[0]).normal(size=a.shape) * 10
                touched.add(key)
                ctx.fault("caller-overwrites-" + how)
            count[0] += 1

        if pend and pend[0][0] == 0:
            scribble(rig, None)
        rig.hook = scribble
        handed = []
        for n in plan["segs"]:
            rig.iterate(n)
            for k, v in before.items():
                if k not in touched and not close(caller[k], v, 0.0):
                    ctx.violate("input-modified", f"{cfg['solver']}: the caller's {k} was modified")
            if not close(rig.obs, obs0, 0.0):
                ctx.violate("input-modified", f"{cfg['solver']}: the observed data were modified")
            for k, v in rig.settings.items():
                if not close(v, set0[k], 0.0):
                    ctx.violate("input-modified", f"the {k[1]} of {k[0]} were modified")
            if w0 is not None and not close(np.array(rig.weights_in), w0, 0.0):
                ctx.violate("input-modified", "the weights were modified")
            if cst0 != json.dumps([[k, v["cst_kwargs"]] for k, v in (getattr(rig, "metric_dict", None) or {}).items()],
                                  default=lambda a: a.tolist()):
                ctx.violate("input-modified", "metric constants were modified")
            if cfg["buffers"] in ("fresh", "readonly"):
                for k, a, c in handed:
                    if not close(a, c, 0.0):
                        ctx.violate("result-changed", f"{cfg['solver']}: {k} returned by an earlier call was changed")
                for k, a in rig.results().items():
                    handed.append((k, a, np.array(a)))
        twin = R.Rig(dict(cfg, buffers="fresh"), ctx, name="separate")
        for n in plan["segs"]:
            twin.iterate(n)
        a, b = rig.committed(), twin.committed()
        if len(a) != len(b):
            ctx.violate("iteration-count", f"{len(a)} iterations, with separate memory {len(b)}")
        for k, (x, y) in enumerate(zip(a, b)):
            compare(ctx, k, x, y, full=True)
        ra, rb = rig.results(), twin.results()
        for k in rb:
            if k not in ra or not close(np.asarray(ra[k]), np.asarray(rb[k]), 1e-9):
                ctx.violate("result-differs", f"{cfg['solver']}: {k} = {np.ravel(ra.get(k))[:4]}, with separate memory {np.ravel(rb[k])[:4]}")
        ma, mb = ([(r["name"], r["it"], r["value"]) for r in x.metric_log] for x in (rig, twin))
        if not close([v for *_, v in ma], [v for *_, v in mb], 1e-9):
            ctx.violate("metrics-differ", "metric values differ from the run with separate memory")
        ctx.state(cfg["solver"], cfg["buffers"], plan["segs"], plan["scribble"], cfg.get("styles"))
        ctx.probe("solver:" + cfg["solver"])
        ctx.probe("buffers:" + cfg["buffers"])
