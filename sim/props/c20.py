"""C20: observing a run does not change it."""
import errno
import gc
import json
import sys

import numpy as np

from .. import rig as R
from ..boot import CLOCK
from ..core import EXC, close
from .c05 import clock_event, gen_clock

ID = "C20"
BUDGET = {"quick": (4000, 240), "thorough": (90000, 1500)}
RULE = ("a run counts if an observed run was compared, operator call by operator call, with the unobserved run "
        "of the same configuration; distinct plans counted once")
STATE_MEASURE = "solver x observation options x positions of output failures and stops"
REAL = "all solvers, operators and cost classes of the package, Observable and MetricObserver, tqdm"
STUB = "operator functions, standard output and error (scripted failures), progress bars of the user, clock"
ASSUME = ["operators are deterministic functions of their argument; metric functions do not modify theirs",
          "after an output failure the iteration under way may be repeated or complete",
          "runs with output failures do not stop early (a cost that could not be printed may be missing from the test window)"]
KEEP = ("shape",)
ERRORS = ["EPIPE", "ENOSPC", "EIO", "EBADF", "closed", "unicode", "interrupt"]


def gen(rng, tier, i):
    faulty = rng.random() < 0.5
    cfg = R.gen_solver(rng, idx_free=faulty, styles=not faulty, real=0.35, dtypes=R.ALL_DTYPES)
    s = cfg["solver"]
    cfg["buffers"] = rng.choice(["fresh", "fresh", "reuse"])
    if rng.random() < 0.7:
        if faulty or "ADMM" in s:
            cfg["cost"] = {"kind": "real", "tol": -1.0, "interval": rng.choice([1, 1, 2]), "range": rng.choice([2, 4])}
        else:
            from .c03 import gen_values
            cfg["cost"] = {"kind": "real", "tol": rng.choice([1e-4, 1e-4, 1e-6, 1e-2, 0.2]), "interval": rng.choice([1, 1, 2]),
                           "range": rng.choice([2, 4]), "values": None if cfg.get("ops") == "real" else gen_values(rng)}
        if "ADMM" in s and faulty:
            cfg.pop("cost")      # its tolerance cannot be set
    obs = {"verbose": rng.random() < 0.5, "progress": rng.random() < 0.5, "cost_verbose": rng.random() < 0.6}
    if rng.random() < 0.6:
        obs["metrics"] = R.gen_metrics(rng, s)
        obs["period"] = rng.choice([1, 2, 3, 5, 100, None])
    if s not in R.GRADS and "ADMM" not in s and rng.random() < 0.4:
        obs["bar"] = rng.choice(["tqdm", "plain", "empty", "noreset" if s != "Condat" else "plain"])
    n = rng.choice([3, 6, 12] if tier == "quick" else [4, 10, 25])
    segs = []
    left = n
    while left > 0:
        k = rng.randint(1, left)
        segs.append(k)
        left -= k
    R.gen_long(rng, segs, 0.01)
    faults = []
    if faulty:
        for _ in range(rng.randint(1, 3)):
            faults.append([rng.choice(["out", "err", "any"]), rng.randrange(rng.choice([3, 12, 60])), rng.choice([1, 1, 2, 8]),
                           rng.choice(ERRORS)])
        if rng.random() < 0.2:
            faults.append(["bar", rng.randrange(8), 1, rng.choice(["EPIPE", "interrupt"])])
    return {"cfg": cfg, "obs": obs, "segs": segs, "faults": faults,
            "clock": gen_clock(rng, 20, True) if rng.random() < 0.5 else [], "tick": rng.choice([0.0, 1e-4, 1.0]),
            "extra": [rng.randrange(6) for _ in range(rng.choice([0, 0, 1, 2]))]}


def simpler(plan):
    o = plan["obs"]
    for k in ("verbose", "progress", "cost_verbose"):
        if o[k]:
            yield dict(plan, obs=dict(o, **{k: False}))
    for k in ("metrics", "bar"):
        if o.get(k):
            yield dict(plan, obs={a: b for a, b in o.items() if a != k})


class Channels:
    """Standard output and error of the observed run."""

    def __init__(self, ctx, faults):
        self.ctx = ctx
        self.n = {"out": 0, "err": 0, "any": 0, "bar": 0}
        self.bad = {}
        for ch, at, many, kind in faults:
            for j in range(many):
                self.bad[ch, at + j] = kind
        self.fired = []

    def tick(self, ch):
        hit = None
        for c in ([ch] if ch == "bar" else [ch, "any"]):
            n = self.n[c]
            self.n[c] = n + 1
            hit = hit or self.bad.get((c, n))
        if hit:
            self.ctx.fault(f"{ch}-{hit}")
            if hit == "interrupt":
                e = EXC["interrupt"]("injected")
            elif hit == "closed":
                e = ValueError("I/O operation on closed file")
            elif hit == "unicode":
                e = UnicodeEncodeError("ascii", "\u2588", 0, 1, "simulated")
            else:
                e = OSError(getattr(errno, hit), "simulated")
            self.fired.append(e)
            raise e


class Stream:
    encoding = "utf-8"

    def __init__(self, ch, name):
        self.ch, self.name = ch, name
        self.text = 0

    def write(self, s):
        self.ch.tick(self.name)
        self.text += len(s)
        return len(s)

    def flush(self):
        self.ch.tick(self.name)

    def isatty(self):
        return False


class Bar:
    """Progress bar of the user."""

    def __init__(self, ch, empty=False, reset=True):
        self.ch, self.empty = ch, empty
        self.count = 0
        if reset:
            self.reset = lambda total=None: setattr(self, "count", 0)

    def update(self, n=1):
        self.ch.tick("bar")
        self.count += n

    def __len__(self):
        return 0 if self.empty else 1

    @property
    def n(self):
        return self.count

    @property
    def total(self):
        return 0 if self.empty else None


def run(plan, ctx):
    from modopt.base.observable import MetricObserver

    R.silence()
    cfg, obs = plan["cfg"], plan["obs"]
    with np.errstate(all="ignore"):
        # ------------------------------------------------ the unobserved run
        quiet = json.loads(json.dumps(cfg))
        quiet["progress"] = quiet["verbose"] = False
        ref = R.Rig(quiet, ctx, (), name="quiet")
        if not plan["faults"]:
            for n in plan["segs"]:
                ref.iterate(n)
        # ------------------------------------------------ the observed run
        ocfg = json.loads(json.dumps(cfg))
        ocfg.update(progress=obs["progress"], verbose=obs["verbose"])
        if ocfg.get("cost"):
            ocfg["cost"]["verbose"] = obs["cost_verbose"]
        if obs.get("metrics"):
            ocfg["metrics"] = obs["metrics"]
            ocfg["period"] = obs["period"]
        CLOCK.reset(tick=plan["tick"])
        CLOCK.active = True
        ch = Channels(ctx, plan["faults"])
        out, err = Stream(ch, "out"), Stream(ch, "err")
        hold, ch.bad = ch.bad, {}
        sys.stdout, sys.stderr = out, err
        rig = R.Rig(ocfg, ctx, (), name="observed")
        clock = list(plan["clock"])

        def hook(r, role):
            if clock:
                clock_event(ctx, clock.pop(0))

        rig.hook = hook
        bar = None
        kw = {}
        if obs.get("bar") == "tqdm":
            from tqdm import tqdm
            bar = tqdm()
        elif obs.get("bar"):
            bar = Bar(ch, obs["bar"] == "empty", obs["bar"] != "noreset")
        if bar is not None:
            kw["progbar"] = bar
        segs = list(plan["segs"]) or [1]
        sig = [cfg["solver"], sorted((k, bool(v)) for k, v in obs.items())]
        ambiguous = []      # index of the last iteration of each call an output failure ended
        tries = 0
        extra = sorted(plan["extra"])
        step = 0
        ch.n = dict.fromkeys(ch.n, 0)
        ch.bad = hold
        while segs:
            if extra and extra[0] <= step:
                extra.pop(0)
                key = "x_new"
                rig.solver.add_observer("cv_metrics", MetricObserver(
                    f"extra{step}-{len(extra)}", lambda a: float(np.sum(np.abs(a))), {key: "a"}, {}, False))
                ctx.probe("observer-added")
            step += 1
            n0 = len(ch.fired)
            collect = False
            try:
                rig.iterate(segs[0], **kw)
                segs.pop(0)
                sig.append(len(rig.iterations_in_call()))
                # an output failure the bar swallowed does not matter
            except (Exception, KeyboardInterrupt) as e:
                direct = any(R._chained(e, f) for f in ch.fired[n0:])
                # a bar whose construction failed may trip tqdm itself later on
                if not direct and not (ch.fired and in_tqdm(e)):
                    raise
                e = None
                collect = not direct
                rig.phase = "idle"
                ambiguous.append(len(rig.iters))
                sig.append(("output", len(rig.iterations_in_call())))
                tries += 1
                if tries > 100:
                    ctx.violate("no-progress", "the run does not finish although the output failures stopped")
            for f in ch.fired[n0:]:     # do not keep half-built bars alive
                f.__traceback__ = f.__context__ = None
            if collect:
                gc.collect()
        CLOCK.active = False
        R.silence()
        # ------------------------------------------------ compare
        what = f"{cfg['solver']} observed with {describe(obs)}"
        its = rig.iters
        if not plan["faults"]:
            if len(its) != len(ref.iters):
                ctx.violate("stopping", f"{what}: {len(its)} iterations, {len(ref.iters)} without observation")
            for k, (a, b) in enumerate(zip(its, ref.iters)):
                if a["call"] != b["call"]:
                    ctx.violate("stopping", f"{what}: iteration {k} belongs to call {a['call']}, to {b['call']} without observation")
                d = differs(a, b)
                if d:
                    ctx.violate("trajectory-differs", f"{what}: iteration {k}: {d}")
            final(ctx, what, rig, ref)
            if cfg.get("cost") and not close(rig.cost_vals, ref.cost_vals, 1e-9):
                ctx.violate("cost-differs", f"{what}: costs {rig.cost_vals[:6]}, without observation {ref.cost_vals[:6]}")
        else:
            twin = R.Rig(quiet, ctx, (), name="whole")
            twin.iterate(len(its) + 1)
            pos = {0}
            for k, it in enumerate(its):
                if k in ambiguous:
                    pos |= {p - 1 for p in pos if p > 0}
                nxt = {p + 1 for p in pos if p < len(twin.iters) and not differs(it, twin.iters[p])}
                if not nxt:
                    p = max(pos)
                    ctx.violate("trajectory-differs", f"{what}, after an output failure: iteration {k}: {differs(it, twin.iters[min(p, len(twin.iters) - 1)])}")
                pos = nxt
            if len(its) in ambiguous:
                pos |= {p - 1 for p in pos if p > 0}
            bad = None
            for p in sorted(pos, reverse=True):
                t = R.Rig(quiet, ctx, (), name="results")
                if p:
                    t.iterate(p)
                bad = result_differs(rig, t)
                if bad is None:
                    break
            if bad:
                ctx.violate("result-differs", f"{what}, after {len(ch.fired)} output failures: {bad}")
            ctx.probe("output-failures", len(ch.fired))
            ctx.probe("resumed", tries)
        if obs.get("metrics") and obs["period"] == 1 and not plan["faults"] and its:
            ctx.probe("metric-values", len(rig.metric_log))
        ctx.probe("written", out.text + err.text)
        ctx.probe("solver:" + cfg["solver"])
        ctx.state(sig)


def in_tqdm(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "/tqdm/" in tb.tb_frame.f_code.co_filename


def describe(obs):
    return {k: (len(v) if k == "metrics" else v) for k, v in obs.items() if v}


def differs(a, b):
    ca, cb = a["calls"], b["calls"]
    if any(c[0] == "optH" for c in cb):
        ca, cb = ([c for c in x if c[0].startswith("opt")] for x in (ca, cb))
    if [c[0] for c in ca] != [c[0] for c in cb]:
        return f"{[c[0] for c in ca]} evaluated, unobserved run evaluates {[c[0] for c in cb]}"
    for x, y in zip(ca, cb):
        if not close(x[1], y[1], 1e-9) or not close(x[2], y[2], 1e-9):
            return f"{x[0]} at {np.ravel(x[1])[:4]} factor {x[2]}, unobserved run at {np.ravel(y[1])[:4]} factor {y[2]}"
    return None


def result_differs(a, b):
    ra, rb = a.results(), b.results()
    if ra.keys() != rb.keys():
        return f"{sorted(ra)} against {sorted(rb)}"
    for k in rb:
        if not close(np.asarray(ra[k]), np.asarray(rb[k]), 1e-9):
            return f"{k} = {np.ravel(ra[k])[:4]}, unobserved run {np.ravel(rb[k])[:4]}"
    return None


def final(ctx, what, a, b):
    d = result_differs(a, b)
    if d:
        ctx.violate("result-differs", f"{what}: {d}")
