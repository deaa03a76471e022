"""C07: cost history and convergence test follow the documented window rule."""
import numpy as np

from .. import models
from .. import rig as R
from ..core import EXC, EXC_NAMES, close
from .c03 import gen_values

ID = "C07"
BUDGET = {"quick": (8000, 240), "thorough": (160000, 1500)}
RULE = ("a run counts if at least one call of the cost object was compared with the window model; distinct "
        "plans (settings, values, failures, plots) counted once")
STATE_MEASURE = "settings x positions of evaluations, failures and convergence"
REAL = "CostParent, costObj, ADMMcostObj, plotCost"
STUB = "operator costs (scripted values), Figure.savefig (records the plotted lines)"
ASSUME = ["runs in which a window change is within 1e-9 of the tolerance are discarded"]


def gen(rng, tier, i):
    kind = rng.choice(["obj", "obj", "obj", "sub", "admm"])
    parts = rng.randint(1, 4) if kind == "obj" else (2 if kind == "admm" else 1)
    vals = gen_values(rng)
    ops = []
    plots = 1 if rng.random() < 0.12 else -1    # plots are slow
    long = rng.random() < 0.02
    if long:
        plots = 1
    for _ in range(rng.choice([300, 700, 1300]) if long else rng.randint(4, 50)):
        k = rng.random()
        if k < (0.96 if long else 0.78):
            ops.append(["call"])
        elif k < 0.92:
            ops.append(["fail", rng.randrange(parts + (2 if kind == "admm" else 0)), rng.choice(EXC_NAMES)])
        elif plots > 0 and k > 0.97:
            plots -= 1
            ops.append(["plot"])
    if plots >= 0:
        ops.append(["plot"])
    return {"kind": kind, "parts": parts, "values": vals, "ops": ops,
            "interval": 1 if long else rng.choice([1, 1, 1, 2, 3, 5, None]), "range": rng.choice([2, 3, 4, 4, 5, 6, 8]),
            "tol": rng.choice([1e-4, 1e-4, 1e-2, 0.2, 0.0, -1.0, 1e-7]),
            "initial": rng.choice([1e6, 0.0, 5.0]), "verbose": rng.random() < 0.5,
            "split": [rng.random() for _ in range(parts)], "defaults": rng.random() < 0.15}


def simpler(plan):
    for k, v in (("interval", 1), ("verbose", False), ("kind", "obj"), ("initial", 1e6)):
        if plan[k] != v and not (k == "kind"):
            yield dict(plan, **{k: v})


def run(plan, ctx):
    from matplotlib.figure import Figure

    from modopt.opt.algorithms.admm import ADMMcostObj
    from modopt.opt.cost import CostParent, costObj
    from modopt.opt.linear import LinearParent

    R.silence()
    plotted = []

    def savefig(fig, *a, **k):
        plotted.append([np.array(ln.get_ydata(), dtype=float) for ax in fig.axes for ln in ax.lines])

    Figure.savefig = savefig
    P = plan["parts"]
    state = {"k": 0, "fail": None, "raised": None, "calls": [], "args": None}
    w = np.array(plan["split"]) + 0.1
    w = w / w.sum()

    def value(part):
        v = plan["values"][state["k"] % len(plan["values"])] if plan["values"] else 1.0
        if not np.isfinite(v) or P == 1:
            return v if part == 0 else 0.0
        return v * w[part]

    def part(j, args):
        state["calls"].append(j)
        if state["fail"] is not None and state["fail"][0] == j:
            state["raised"] = EXC[state["fail"][1]](f"injected in cost {j}")
            ctx.fault("cost-raises-" + state["fail"][1])
            raise state["raised"]
        if state["args"] is not None and (len(args) != len(state["args"]) or any(
                a is not b for a, b in zip(args, state["args"]))):
            ctx.violate("cost-arguments", f"cost part {j} was not given the arguments of the call")
        return value(j)

    class Op:
        def __init__(self, j):
            self.j = j

        def cost(self, *args, **kwargs):
            return part(self.j, args)

    kw = {"initial_cost": plan["initial"], "tolerance": plan["tol"], "cost_interval": plan["interval"],
          "test_range": plan["range"], "verbose": plan["verbose"]}
    interval, size, tol, initial = plan["interval"], plan["range"], plan["tol"], plan["initial"]
    if plan["defaults"]:
        kw = {}
        interval, size, tol, initial = 1, 4, 1e-4, 1e6
    n_args = 1
    if plan["kind"] == "obj":
        obj = costObj([Op(j) for j in range(P)], **kw)
    elif plan["kind"] == "sub":
        class Sub(CostParent):
            def _calc_cost(self, *args, **kwargs):
                return part(0, args)
        obj = Sub(**kw)
    else:
        n_args = 2

        def lin(j):
            def f(x):
                if state["fail"] is not None and state["fail"][0] == j:
                    part(j, ())
                return x * 0.0
            return LinearParent(f, f)

        obj = ADMMcostObj((lambda u: part(0, state["args"]), lambda v: part(1, state["args"])),
                          lin(2), lin(3), np.zeros(3), 1.0, **kw)
    win = models.CostWindow(size, tol)
    history = []
    done = 0
    sig = [plan["kind"], interval, size]
    with np.errstate(all="ignore"):
        for op in plan["ops"]:
            if op[0] == "plot":
                n0 = len(plotted)
                obj.plot_cost()
                if len(plotted) != n0 + 1 or len(plotted[-1]) != 1:
                    ctx.violate("plot", "the cost plot does not hold one line")
                exp = np.log10(np.array(history, dtype=float))
                if not close(plotted[-1][0], exp, 1e-9):
                    ctx.violate("history", f"recorded costs (log10) {plotted[-1][0]}, evaluated {exp}")
                continue
            due = interval is not None and (done + 1) % interval == 0
            state["fail"] = (op[1], op[2]) if op[0] == "fail" else None
            state["raised"] = None
            state["calls"] = []
            state["args"] = tuple(np.full(3, float(done)) for _ in range(n_args))
            try:
                r = obj.get_cost(*state["args"])
            except BaseException as e:  # noqa: BLE001
                if e is not state["raised"]:
                    raise
                if not due:
                    ctx.violate("schedule", f"cost evaluated at call {done + 1} with interval {interval}")
                sig.append("x")
                if not close(obj.cost, history[-1] if history else initial, 1e-12):
                    ctx.violate("failed-evaluation", f"cost is {obj.cost} after a failed evaluation")
                continue
            if state["raised"] is not None:
                ctx.violate("error-swallowed", f"{state['raised']!r} did not reach the caller")
            if sorted(state["calls"]) != (list(range(P)) if due else []):
                ctx.violate("schedule", f"cost parts {state['calls']} evaluated at call {done + 1} with interval {interval}")
            exp = False
            if due:
                v = float(np.sum([value(j) for j in range(P)]))
                history.append(v)
                state["k"] += 1
                exp = win.add(v)
                if not close(obj.cost, v, 1e-12):
                    ctx.violate("wrong-cost", f"cost is {obj.cost}, the parts sum to {v}")
            done += 1
            if bool(r) != exp:
                ctx.violate("verdict", f"call {done}: convergence {bool(r)}, window rule says {exp} (history {history[-10:]})")
            ctx.log("call", done, bool(r), history[-1:] if due else None)
            sig.append("c" if exp else ("." if due else "-"))
            if exp:
                ctx.probe("converged")
    ctx.state(sig)
    ctx.probe("evaluations", len(history))
    ctx.probe("windows", len(history) // size)
