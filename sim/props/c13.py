"""C13: power method is bounded, resumable and consistent under operator failures."""
import numpy as np

from .. import rig as R
from ..core import EXC, EXC_NAMES, close, nprng

ID = "C13"
BUDGET = {"quick": (9000, 240), "thorough": (300000, 1500)}
RULE = ("a run counts if at least one call of the power method was followed application by application; "
        "distinct plans counted once")
STATE_MEASURE = "sequence of calls: (applications made, how it ended, pair present before)"
REAL = "PowerMethod"
STUB = "the operator (scripted: norms, matrices, buffers, failures)"
ASSUME = ["the stopping test of the first application compares with the norm of the start vector",
          "a change within 1e-9 (relative) of the tolerance may be judged either way"]
KEEP = ("shape",)


def gen_norms(rng):
    k = rng.random()
    if k < 0.3:
        v = rng.choice([0.5, 1.0, 3.0])
        return [v + rng.choice([0, 0, 1e-3, -1e-3, 1e-7]) for _ in range(rng.randint(2, 8))]
    if k < 0.5:
        a, b = rng.choice([(1.0, 3.0), (2.0, 2.01), (1.0, 1.0)])
        return [a, b] * 4
    if k < 0.7:
        return [3.0 + 2.0 * rng.choice([0.5, 0.9, -0.5]) ** j for j in range(12)]
    if k < 0.85:
        return [rng.choice([1e-8, 1.0, 1e8, 2.0]) for _ in range(6)]
    return [rng.choice([1.0, 2.0, 0.0, float("inf"), float("nan")]) for _ in range(6)]


def gen_call(rng, nops):
    c = {"max_iter": rng.choice([1, 1, 2, 3, 5, 20, 20, 50]), "tol": rng.choice([1e-6, 1e-6, 1e-3, 1e-2, 0.5, 0.0, 10.0]),
         "factor": rng.choice([1.0, 1.0, 1.1, 2, 0.5]), "fail": None}
    if rng.random() < 0.3:
        c["fail"] = [rng.choice([0, 0, 1, 2, 4, 9, 19]), rng.choice(EXC_NAMES)]
    c["style"] = rng.choice(["kw", "kw", "default", "pos"])
    return c


def gen(rng, tier, i):
    objs = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["norms", "norms", "diag", "sym", "identity", "zero", "psd"])
        objs.append({"shape": list(rng.choice([(3,), (2, 2), (4, 1), (2, 3, 2), (1,)])),
                     "dtype": rng.choice(["float", "float", "float", "float32", "complex"]),
                     "kind": kind, "norms": gen_norms(rng) if kind == "norms" else [], "mseed": rng.randrange(50),
                     "buffer": rng.choice(["fresh", "fresh", "reuse", "alias"]),
                     "auto": rng.random() < 0.5, "autofail": [rng.randrange(3), rng.choice(EXC_NAMES)] if rng.random() < 0.2 else None,
                     "seed": rng.choice([None, 0, 1, 2, "gen"]), "verbose": rng.random() < 0.2})
    return {"objs": objs, "calls": [[rng.randrange(len(objs)), gen_call(rng, 0)] for _ in range(rng.randint(1, 6))]}


class Op:
    """Operator of one power method object; records every application."""

    def __init__(self, o, ctx):
        self.o, self.ctx = o, ctx
        self.shape = tuple(o["shape"])
        self.dt = np.dtype(o["dtype"])
        n = int(np.prod(self.shape))
        g = nprng("c13", o["mseed"])
        m = g.normal(size=(n, n))
        if o["dtype"] == "complex":
            m = m + 1j * g.normal(size=(n, n))
        self.m = (m + m.conj().T) if o["kind"] == "sym" else m @ m.conj().T
        self.d = 1 + np.abs(g.normal(size=self.shape)) * 3
        self.buf = np.zeros(self.shape, self.dt)
        self.args, self.norms, self.outs = [], [], []
        self.total = 0
        self.fail = None
        self.watch = None

    def start(self, fail):
        self.args, self.norms, self.outs = [], [], []
        self.fail = fail

    def __call__(self, x):
        k = len(self.args)
        self.args.append(np.array(x))
        if self.watch:
            self.watch()
        if self.fail and self.fail[0] == k:
            e = EXC[self.fail[1]]("injected")
            self.ctx.fault("operator-" + self.fail[1])
            raise e
        o = self.o
        with np.errstate(all="ignore"):
            if o["kind"] == "norms":
                s = o["norms"][self.total % len(o["norms"])]
                y = np.roll(x, 1, axis=0)
                y = y * (s / max(np.linalg.norm(y), 1e-300))
            elif o["kind"] == "diag":
                y = self.d * x
            elif o["kind"] in ("sym", "psd"):
                y = (self.m @ np.ravel(x)).reshape(self.shape)
            elif o["kind"] == "zero":
                y = 0 * x
            else:
                y = x
            self.total += 1
            if o["kind"] == "identity" and o["buffer"] == "alias":
                y = x
            elif o["buffer"] == "reuse":
                self.buf[...] = y
                y = self.buf
            else:
                y = np.array(y, dtype=self.dt)
            self.outs.append(np.array(y))
            self.norms.append(float(np.linalg.norm(y)))
        return y


def pair(pm):
    return (getattr(pm, "spec_rad", None), getattr(pm, "inv_spec_rad", None))


def same(a, b):
    return (a is None) == (b is None) and (a is None or close(a, b, 0.0))


def run(plan, ctx):
    from modopt.math.matrix import PowerMethod

    R.silence()
    np.seterr(all="ignore")
    ops, pms = [], []
    marks = []

    def follow(op, o, call, err, before, pm, start_norm):
        """Compare the applications made with the documented iteration."""
        eps = 1e-5 if o["dtype"] == "float32" else 1e-9
        n = len(op.args)
        if n > call["max_iter"]:
            ctx.violate("unbounded", f"{n} applications, {call['max_iter']} allowed")
        if n == 0:
            ctx.violate("no-application", "the operator was never applied")
        if op.args[0].shape != op.shape:
            ctx.violate("start-vector", f"start vector has shape {op.args[0].shape}")
        if abs(np.linalg.norm(op.args[0]) - 1) > 1e-5:
            ctx.violate("not-normalised", f"start vector has norm {np.linalg.norm(op.args[0])}")
        for j in range(1, n):
            with np.errstate(all="ignore"):
                want = op.outs[j - 1] / op.norms[j - 1]
            if not close(op.args[j], want, eps * 10):
                ctx.violate("iteration-differs", f"application {j} at {np.ravel(op.args[j])[:4]}, normalised previous answer is {np.ravel(want)[:4]}")
        failed = err is not None
        stop = None
        old = start_norm
        for j, nn in enumerate(op.norms):
            d = abs(nn - old)
            tie = old is not None and abs(d - call["tol"]) <= eps * max(abs(nn), abs(old), call["tol"])
            hit = d < call["tol"]
            last = j == len(op.norms) - 1
            if hit and not tie and not last:
                ctx.violate("too-late", f"change {d} within tolerance {call['tol']} at application {j + 1}, continued")
            if hit and not tie and last and failed:
                ctx.violate("too-late", f"change {d} within tolerance {call['tol']} at application {j + 1}, continued")
            if last and not failed:
                if not hit and not tie and j + 1 < call["max_iter"]:
                    ctx.violate("too-early", f"stopped after {j + 1} of {call['max_iter']} applications, change {d}, tolerance {call['tol']}")
                stop = "converged" if hit else "limit"
            old = nn
        now = pair(pm)
        if failed:
            if not (same(now[0], before[0]) and same(now[1], before[1])):
                ctx.violate("pair-lost", f"after a failing application the pair is {now}, it was {before}")
            stop = "failed"
        else:
            want = op.norms[-1] * call["factor"]
            inv = np.float64(1.0) / np.float64(want)
            if now[0] is None or not close(now[0], want, eps) or not close(now[1], inv, eps):
                ctx.violate("wrong-estimate", f"pair {now}, the last norm times {call['factor']} is {want}")
        marks.append((n, stop, before[0] is not None))
        ctx.log(n, stop, float(now[0]) if now[0] is not None else None)
        ctx.probe(stop)

    def start_norm(o):
        """Norm of the start vector before normalisation, when it is known."""
        if not isinstance(o["seed"], int):
            return None
        x = np.random.default_rng(o["seed"]).random(tuple(o["shape"])).astype(o["dtype"])
        return x

    def known_norm(o, op, g0):
        x = start_norm(o) if g0 is None else g0
        if x is None:
            return None
        nrm = np.linalg.norm(x)
        return float(nrm) if op.args and close(op.args[0], x / nrm, 1e-4) else None

    for o in plan["objs"]:
        op = Op(o, ctx)
        # without a known start norm the first test cannot be predicted: use
        # a seeded generator whose next draw is known
        rng = np.random.default_rng(o["mseed"]) if o["seed"] == "gen" else o["seed"]
        call = {"max_iter": 20, "tol": 1e-6, "factor": 1.0}
        op.start(o["autofail"] if o["auto"] else None)
        err = None
        pm = None
        try:
            pm = PowerMethod(op, op.shape, data_type=o["dtype"], auto_run=o["auto"], rng=rng, verbose=o["verbose"])
        except (Exception, KeyboardInterrupt) as e:
            if not getattr(e, "injected", False):
                raise
            err = e
        if o["auto"] and err is None:
            g0 = np.random.default_rng(o["mseed"]).random(op.shape).astype(o["dtype"]) if o["seed"] == "gen" else None
            n0 = known_norm(o, op, g0)
            follow_first(op, o, call, None, (None, None), pm, n0, follow)
        if err is not None:
            pm = PowerMethod(op, op.shape, data_type=o["dtype"], auto_run=False, rng=rng, verbose=o["verbose"])
        if not o["auto"] and op.args:
            ctx.violate("ran-uninvited", "auto_run=False applied the operator")
        ops.append(op)
        pms.append((pm, rng))
    for b, c in plan["calls"]:
        o, op, (pm, rng) = plan["objs"][b], ops[b], pms[b]
        before = pair(pm)
        others = [pair(p) for p, _ in pms]
        op.start(c["fail"])
        call = dict(c)
        if c["style"] == "default":
            call.update(max_iter=20, tol=1e-6, factor=1.0)
        g0 = None
        if o["seed"] == "gen":
            import copy
            g0 = copy.deepcopy(rng).random(op.shape).astype(o["dtype"])

        def watch():
            now = pair(pm)
            if not (same(now[0], before[0]) and same(now[1], before[1])):
                ctx.violate("pair-early", f"during a call the published pair is {now}, before it was {before}")

        op.watch = watch
        err = None
        try:
            if c["style"] == "default":
                r = pm.get_spec_rad()
            elif c["style"] == "pos":
                r = pm.get_spec_rad(c["tol"], c["max_iter"], c["factor"])
            else:
                r = pm.get_spec_rad(tolerance=c["tol"], max_iter=c["max_iter"], extra_factor=c["factor"])
            del r
        except (Exception, KeyboardInterrupt) as e:
            if not getattr(e, "injected", False):
                raise
            err = e
        if err is not None and type(err) is not EXC[c["fail"][1]]:
            ctx.violate("error-changed", f"the operator raised {c['fail'][1]}, the caller got {err!r}")
        if err is None and c["fail"] and len(op.args) > c["fail"][0]:
            ctx.violate("error-swallowed", "the operator raised, the caller got no error")
        follow_first(op, o, call, err, before, pm, known_norm(o, op, g0), follow)
        for j, (p, _) in enumerate(pms):
            if j != b and not (same(pair(p)[0], others[j][0]) and same(pair(p)[1], others[j][1])):
                ctx.violate("other-changed", "the pair of another power method object changed")
    ctx.state(marks)


def follow_first(op, o, call, err, before, pm, n0, follow):
    if n0 is None:
        # start norm unknown: whatever the first test decided is accepted
        stopped = err is None and len(op.args) == 1 and call["max_iter"] > 1
        n0 = (op.norms[0] if op.norms and stopped and call["tol"] > 0 else float("inf")) if op.norms else float("inf")
    follow(op, o, call, err, before, pm, n0)
