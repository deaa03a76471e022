"""C05: metric histories stay aligned and their timings never run backwards."""
import copy

import numpy as np

from .. import rig as R
from ..boot import CLOCK
from ..core import EXC, close

ID = "C05"
BUDGET = {"quick": (6000, 240), "thorough": (120000, 1500)}
RULE = ("a run counts if at least one history was compared with the record of successful evaluations; "
        "distinct plans (metrics, failures, clock events, retrievals) counted once")
STATE_MEASURE = "lengths of the histories at each retrieval x failing roles x kinds of clock events"
REAL = "Observable, MetricObserver, all solvers"
STUB = "clock (wall and monotonic, simulated), metric functions, operator answers; tensorflow/torch/cupy absent"
ASSUME = ["elapsed times are compared with simulated durations only in runs without wall-clock steps"]
KEEP = ("shape",)


def gen_clock(rng, n, jumps):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            out.append(["advance", rng.choice([0.0, 1e-3, 0.5, 3.0, 60.0, 3600.0])])
        elif jumps and k < 0.8:
            out.append(["jump", rng.choice([-3600.0, -1.0, -0.01, 5.0, 3600.0, -1e6, 86400.0])])
        else:
            out.append(["none", 0])
    return out


def gen(rng, tier, i):
    jumps = rng.random() < 0.6
    if rng.random() < 0.4:
        ops = []
        for _ in range(rng.randint(3, 40)):
            k = rng.random()
            w = rng.randrange(3)
            if k < 0.5:
                ops.append(["eval", w, rng.choice([1.0, 2.0, 0.5, float("nan"), float("inf"), 0.0, rng.random()])])
            elif k < 0.65:
                ops.append(["fail", w, rng.choice(sorted(EXC))])
            elif k < 0.8:
                ops.append(["retrieve", w])
            else:
                ops.append(["clock"] + gen_clock(rng, 1, jumps)[0])
        if rng.random() < 0.03:
            w, at = rng.randrange(3), rng.randrange(len(ops))
            ops[at:at] = [["eval", w, round(rng.random(), 3)] for _ in range(rng.choice(R.LONG))] + [["retrieve", w]]
        return {"mode": "observer", "ops": ops, "tick": rng.choice([0.0, 1e-4, 0.1]),
                "early": [rng.random() < 0.5 for _ in range(3)], "jumps": jumps}
    cfg = R.gen_solver(rng, styles=False, real=0.0, dtypes=R.ALL_DTYPES)
    s = cfg["solver"]
    cfg["metrics"] = R.gen_metrics(rng, s, rng.choice([1, 2, 3]), early=0.3)
    cfg["period"] = rng.choice([1, 1, 2, 3, 5])
    roles = ["metric:" + m["name"] for m in cfg["metrics"]] * 2 + [r for r in R.roles_of(s, cfg["params"])
                                                                    if r not in ("Aop", "Bop")]
    if "ADMM" not in s and rng.random() < 0.4:
        cfg["cost"] = {"kind": "stub", "values": [rng.random() < 0.1 for _ in range(20)]}
        roles.append("cost")
    faults = R.gen_faults(rng, roles, rng.choice([3, 8, 15]), count=rng.choice([0, 1, 2, 3, 4]))
    if s == "POGM":
        faults = [f for f in faults if not (f["role"] == "grad" and f["n"] == 0)]
    return {"mode": "solver", "cfg": cfg, "faults": faults,
            "segs": R.gen_long(rng, [rng.choice([1, 2, 3, 6, 12]) for _ in range(rng.randint(1, 5))]),
            "clock": gen_clock(rng, 60, jumps), "tick": rng.choice([0.0, 1e-4, 0.1]), "jumps": jumps}


def clock_event(ctx, ev):
    kind, dt = ev
    if kind == "advance":
        CLOCK.advance(dt)
        if dt >= 60:
            ctx.fault("clock-stall")
    elif kind == "jump":
        CLOCK.jump(dt)
        ctx.fault("clock-step-back" if dt < 0 else "clock-step-forward")


class Book:
    """What one metric should have on record."""

    def __init__(self):
        self.index, self.values, self.starts, self.ends = [], [], [], []
        self.returned = []

    def check(self, ctx, name, got, jumps):
        for k in ("index", "values", "time"):
            if k not in got:
                ctx.violate("history-incomplete", f"history of {name} has no {k}")
        n = len(self.index)
        lens = {k: len(got[k]) for k in ("index", "values", "time")}
        if any(v != n for v in lens.values()):
            ctx.violate("history-misaligned", f"{name}: {n} successful evaluations, history has {lens}")
        if [int(x) for x in got["index"]] != self.index:
            ctx.violate("history-index", f"{name}: indices {list(got['index'])}, evaluations were at {self.index}")
        for a, b in zip(got["values"], self.values):
            if not close(a, b, 0.0):
                ctx.violate("history-values", f"{name}: values {list(got['values'])}, evaluated {self.values}")
        t = np.asarray(got["time"], dtype=float)
        if n:
            if t[0] != 0:
                ctx.violate("history-time", f"{name}: elapsed times start at {t[0]}")
            if np.any(np.diff(t) < 0) or not np.all(np.isfinite(t)):
                ctx.violate("history-time", f"{name}: elapsed times run backwards: {t}")
            if not jumps:
                for k in range(1, n):
                    lo = self.starts[k] - self.ends[0] - 1e-6
                    hi = self.ends[k] - self.starts[0] + 1e-6
                    if not lo <= t[k] <= hi:
                        ctx.violate("history-time",
                                    f"{name}: elapsed time {t[k]} of evaluation {k} is not within [{lo}, {hi}]")
        self.returned.append((got, copy.deepcopy(got)))

    def check_snapshots(self, ctx, name):
        for got, was in self.returned:
            if not (list(map(int, got["index"])) == list(map(int, was["index"]))
                    and close(list(got["values"]), list(was["values"]), 0.0)
                    and close(np.asarray(got["time"]), np.asarray(was["time"]), 0.0)):
                ctx.violate("snapshot-changed", f"{name}: a history returned earlier was altered")


def run(plan, ctx):
    R.silence()
    CLOCK.reset(tick=plan["tick"])
    CLOCK.active = True
    m0 = CLOCK.mono
    try:
        with np.errstate(all="ignore"):
            (run_observer if plan["mode"] == "observer" else run_solver)(plan, ctx)
    finally:
        CLOCK.active = False
        ctx.sim_time += CLOCK.mono - m0


def run_observer(plan, ctx):
    from modopt.base.observable import MetricObserver, Observable

    books = [Book() for _ in range(3)]
    todo = {}

    def mk(w):
        def metric(x, ref):
            books[w].start = CLOCK.mono
            k, v = todo["op"]
            if k == "fail":
                todo["exc"] = EXC[v]("injected in metric")
                ctx.fault("metric-raises-" + v)
                raise todo["exc"]
            return v
        return metric

    obs = [MetricObserver(f"m{w}", mk(w), {"x": "x"}, {"ref": 1}, plan["early"][w]) for w in range(3)]
    subj = [Observable(["s"]) for _ in range(3)]
    for o, s in zip(obs, subj):
        s.add_observer("s", o)
    sig = []
    n = 0
    for op in plan["ops"]:
        if op[0] == "clock":
            clock_event(ctx, op[1:])
            continue
        b, o = books[op[1]], obs[op[1]]
        if op[0] == "retrieve":
            got = o.retrieve_metrics()
            b.check(ctx, o.name, got, plan["jumps"])
            sig.append((op[1], len(b.index)))
            ctx.log("retrieve", op[1], got["index"], got["values"], got["time"])
        else:
            todo.clear()
            todo["op"] = (op[0], op[2])
            n += 1
            try:
                subj[op[1]].notify_observers("s", x=1.0, idx=n)
            except BaseException as e:  # noqa: BLE001
                if e is not todo.get("exc"):
                    raise
            else:
                if op[0] == "fail":
                    ctx.violate("error-swallowed", "a failing metric was not reported to the caller")
                if not hasattr(b, "start"):
                    ctx.violate("not-evaluated", "the metric was not evaluated")
                b.index.append(n)
                b.values.append(op[2])
                b.starts.append(b.start)
                b.ends.append(CLOCK.mono)
        for w in range(3):
            books[w].check_snapshots(ctx, f"m{w}")
    for w in range(3):
        books[w].check(ctx, f"m{w}", obs[w].retrieve_metrics(), plan["jumps"])
        books[w].check_snapshots(ctx, f"m{w}")
    ctx.state("observer", sig)


def run_solver(plan, ctx):
    cfg = plan["cfg"]
    books = {m["name"]: Book() for m in cfg["metrics"]}
    events = list(plan["clock"])
    open_rec = []

    def on_metric(rig, m, rec, kwargs):
        close_open()
        rec["start"] = CLOCK.mono
        open_rec.append((m["name"], rec))
        if events:
            clock_event(ctx, events.pop(0))

    def close_open():
        while open_rec:
            name, rec = open_rec.pop()
            if rec["value"] is not None:
                b = books[name]
                b.index.append(rec["it"][1])
                b.values.append(rec["value"])
                b.starts.append(rec["start"])
                b.ends.append(CLOCK.mono)

    rig = R.Rig(cfg, ctx, plan["faults"], on_metric=on_metric)
    sig = [cfg["solver"]]
    for n in plan["segs"]:
        if events:
            clock_event(ctx, events.pop(0))
        e = rig.iterate(n)
        close_open()
        if e is None:
            got = rig.solver.metrics
            for name, b in books.items():
                if name not in got:
                    ctx.violate("history-missing", f"no history for metric {name}")
                b.check(ctx, name, got[name], plan["jumps"])
                ctx.log("history", name, got[name]["index"], got[name]["values"], got[name]["time"])
        for name, b in books.items():
            b.check_snapshots(ctx, name)
        sig.append((rig.raised_role, [len(b.index) for b in books.values()]))
    ctx.state(sig)
    ctx.probe("solver:" + cfg["solver"])
