"""Solver rig: builds a real solver around instrumented, fault-injecting operators."""
import sys

import numpy as np

from . import boot, models, sched
from .core import EXC, StepLimit, Violation, close, nprng

GRADS = ("Generic", "Vanilla", "Ada", "RMSprop", "Momentum", "ADAM", "SAGA")
SOLVERS = ("FB", "GenFB", "POGM", "Condat", "ADMM", "FastADMM") + GRADS
START = {"ADMM": "optH", "FastADMM": "optH"}
UPDATE_ROLES = {"grad", "gop", "gtrans", "prox", "prox_dual", "lop", "ladj", "optH",
                "optG", "Aop", "Bop"} | {f"prox{i}" for i in range(6)}


def dt(name):
    return {"f8": np.float64, "c16": np.complex128, "f4": np.float32}[name]


ALL_DTYPES = ["f8", "f8", "f8", "f8", "f8", "f8", "c16", "c16", "f4"]
LAYOUTS = ["C", "C", "C", "F", "strided", "reversed", "window"]


def layout(kind, v):
    """A copy of v laid out in memory as a caller may have it."""
    if kind == "F" or not v.ndim:
        return np.array(v, order="F")
    if kind == "strided":
        out = np.zeros((2 * v.shape[0],) + v.shape[1:], v.dtype)[::2]
    elif kind == "reversed":
        out = np.zeros(v.shape, v.dtype)[::-1]
    elif kind == "window":
        out = np.zeros(tuple(s + 2 for s in v.shape), v.dtype)[(slice(1, -1),) * v.ndim]
    else:
        return v.copy()
    out[...] = v
    return out


class Rig:
    """One solver under simulation."""

    def __init__(self, cfg, ctx, faults=(), model=False, name="s", limit=40000,
                 on_metric=None, keep_args=True, caller=None, soft=False):
        self.cfg = cfg
        self.ctx = ctx
        self.lenient = soft        # the model only predicts, it does not judge
        self.name = name
        self.calls = {}
        self.ok_calls = {}
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f["role"], {})[f["n"]] = f["exc"]
        self.raised = None
        self.raised_role = None
        self.events = []          # (phase, role, x, factor)
        self.iters = []           # per started iteration
        self.cur = None
        self.phase = "init"
        self.call_no = -1
        self.limit = limit
        self.n_calls = 0
        self.keep_args = keep_args
        self.on_metric = on_metric
        self.metric_log = []      # (name, call_no, it, kwargs, value or None)
        self.cost_log = []        # (call_no, it, result or None)
        self.buffers = {}
        self.rng = nprng("rig", cfg["seed"])
        self.model = None
        self.gen = None
        self.pending = None
        self.it_in_call = 0
        self.post_limit = None
        self.hook = None
        self.settings = {}        # the caller's weight arrays
        self.cost_at = []         # ((call, it), scripted value, arguments)
        self.build_problem()
        if model:
            self.build_model()
        self.build(caller)
        self.phase = "idle"

    # ------------------------------------------------------------ operators
    def arr(self, shape, scale=1.0):
        a = self.rng.normal(size=shape) * scale
        if self.cfg["dtype"] == "c16":
            a = a + 1j * self.rng.normal(size=shape) * scale
        return a.astype(dt(self.cfg["dtype"]))

    def build_problem(self):
        c = self.cfg
        shape = tuple(c["shape"])
        n = int(np.prod(shape))
        self.shape = shape
        q = self.rng.normal(size=(n, n)) / np.sqrt(n)
        self.H = q
        self.HtH = q.T @ q / (1.0 + np.linalg.norm(q, 2) ** 2)
        self.center = self.arr(shape)
        self.obs = self.arr(shape)
        self.thr = abs(self.rng.normal()) * 0.2 + 0.05
        self.init = {k: self.arr(shape) for k in ("x", "y", "u", "z", "v", "mu", "b")}
        if c.get("zero_init"):
            for k in self.init:
                self.init[k] = np.zeros_like(self.init[k])
        self.L = self.rng.normal(size=(n, n)) / np.sqrt(n)
        self.styles = c.get("styles", {})

    def lin(self, m, x):
        return (m @ x.ravel()).reshape(x.shape)

    def soft(self, x, t):
        a = np.abs(x)
        with np.errstate(all="ignore"):
            s = np.where(a > t, 1 - t / np.where(a == 0, 1, a), 0)
        return x * s

    def respond(self, role, x, factor):
        """Answer of an operator as a deterministic function of its role,
        argument, and (scripted styles) how many answers it has given."""
        k = self.ok_calls.get(role, 0)
        style = self.styles.get(role, "func")
        if isinstance(style, list):
            style = style[k % len(style)] if style else "func"
        base = role.rstrip("0123456789")
        if style == "func":
            if base == "grad":
                # (the sine of a large complex number overflows)
                sin = np.sin(x) if x.dtype.kind != "c" else np.sin(x.real) + 1j * np.sin(x.imag)
                r = self.lin(self.HtH, x - self.center) + 0.1 * sin
            elif base in ("prox", "prox_dual"):
                t = self.thr * (0.5 + (hash_i(role) % 5) / 4.0)
                f = 1.0 if factor is None else factor
                r = self.soft(x, np.minimum(t * np.abs(f), 1e3))
                if role.endswith("1"):
                    r = np.clip(x.real, -2, 2) + (0 if x.dtype.kind != "c" else 1j * x.imag)
            elif base == "lop":
                r = self.lin(self.L, x)
            elif base == "ladj":
                r = self.lin(self.L.T, x)
            elif base in ("Aop", "Bop"):
                r = self.lin(self.HtH if base == "Aop" else self.L, x) * 0.7
            else:
                r = x * 0.5
        elif style == "noise":
            g = nprng("resp", self.cfg["seed"], role, k)
            r = g.normal(size=x.shape)
            if x.dtype.kind == "c":
                r = r + 1j * g.normal(size=x.shape)
        elif style == "mix":
            g = nprng("resp", self.cfg["seed"], role, k)
            r = 0.6 * x + 0.4 * g.normal(size=x.shape)
        elif style == "zero":
            r = np.zeros_like(x)
        elif style == "const":
            r = nprng("const", self.cfg["seed"], role).normal(size=x.shape)
        elif style == "flip":
            r = nprng("const", self.cfg["seed"], role).normal(size=x.shape) * (-1) ** k
        elif style == "echo":
            r = x.copy()
        elif style == "neg":
            r = -1.3 * x
        elif style == "shrink":
            r = 0.3 * x
        elif style == "prev":
            r = self.buffers.get(("prev", role))
            r = np.zeros_like(x) if r is None else r.copy()
        elif style == "grow":
            r = 1.7 * x + 0.1
        else:
            raise KeyError(style)
        r = np.asarray(r).astype(np.result_type(x.dtype, np.float32 if x.dtype == np.float32 else np.float64), copy=False)
        if x.dtype == np.float32:
            r = r.astype(np.float32)
        self.buffers[("prev", role)] = np.array(r)
        return r

    def out(self, role, r, x):
        """Hand out the answer according to the operator's buffer behaviour."""
        mode = self.cfg.get("buffers", "fresh")
        if mode == "reuse":
            b = self.buffers.get(role)
            if b is None or b.shape != r.shape or b.dtype != r.dtype:
                b = self.buffers[role] = np.array(r)
            else:
                np.copyto(b, r)
            return b
        if mode == "alias" and r.dtype == np.asarray(x).dtype and np.array_equal(r, x):
            return x
        if mode == "cached":
            last = self.buffers.get(("last", role))
            if last is not None and self.buffers.get(("lastval", role)) == r.tobytes():
                return last
            self.buffers[("lastval", role)] = r.tobytes()
            b = self.buffers[("last", role)] = np.array(r)
            return b
        if mode == "readonly":
            r = np.array(r)
            r.flags.writeable = False
            return r
        return np.array(r)

    def maybe_fault(self, role):
        n = self.calls.get(role, 0)
        self.calls[role] = n + 1
        self.n_calls += 1
        if self.n_calls > self.limit:
            raise StepLimit(f"more than {self.limit} operator calls")
        exc = self.faults.get(role, {}).get(n)
        if exc is not None:
            e = EXC[exc](f"injected in {role} call {n}")
            self.raised, self.raised_role = e, role
            self.ctx.fault(f"{role.rstrip('0123456789')}-raises-{exc}")
            raise e

    def enter(self, role, x, factor):
        """A call of an update operator arrives."""
        sched.point(role)
        if self.phase == "init" and self.cfg.get("auto") and (
                getattr(self, "_init_seen", False) and self.pending is None
                if hasattr(self.model, "init_requests") else True):
            self.phase = "run"       # the constructor began to iterate
            self.call_no = 0
        if self.hook is not None and self.phase != "init":
            self.hook(self, role)
        if self.phase != "init" and self.begins(role):
            self.begin_iteration()
        rec = (role, np.array(x) if self.keep_args else None,
               np.array(factor) if factor is not None else None)
        if self.phase == "init":
            self.events.append(rec)
        elif self.cur is not None:
            self.cur["calls"].append(rec)
        else:
            self.events.append(rec)
        self.ctx.log(self.name, role, rec[1], rec[2])
        if self.model is not None:
            try:
                self.check_model(role, rec[1], rec[2])
            except Violation:
                if not self.lenient:
                    raise
                self.drop_model()
        try:
            self.maybe_fault(role)
        except BaseException:
            self.fail_update(role)
            raise

    def drop_model(self):
        self.model = self.gen = self.pending = None
        if self.cur is not None:
            self.cur.pop("visible", None)
        self.ctx.probe("model-dropped")

    def begins(self, role):
        """Is this call the first of an iteration?"""
        if self.cfg["solver"] == "Condat":   # these two do not depend on each other
            return role in ("grad", "ladj") and (self.cur is None or self.cur["failed"]
                                                 or role in [c[0] for c in self.cur["calls"]])
        return role == START.get(self.cfg["solver"], "grad")

    def begin_iteration(self):
        if self.lenient and self.gen is not None:
            self.drop_model()
        if self.cur is not None and not self.cur["failed"] and self.model is not None \
                and self.gen is not None:
            self.ctx.violate("iteration-incomplete",
                             f"{self.name}: new iteration began before {self.missing()} was evaluated")
        self.cur = {"call": self.call_no, "it": self.it_in_call, "calls": [], "failed": False}
        self.iters.append(self.cur)
        self.it_in_call += 1
        if self.model is not None:
            self.gen = self.model.iteration(self.cur["it"])
            self.pending = next(self.gen)

    def fail_update(self, role=None):
        if self.cur is not None and self.post_limit is not None and role == "Bop":
            # ADMM evaluates B for the next iteration before anything else of it
            names = [c[0] for c in self.cur["calls"]]
            if "optG-obs" in names:
                after = names[names.index("optG-obs"):].count("Bop") - 1
                if after >= self.post_limit:
                    return
        if self.cur is not None:
            self.cur["failed"] = True
        self.gen = None
        self.pending = None

    def leave(self, role, r):
        self.ok_calls[role] = self.ok_calls.get(role, 0) + 1
        if self.model is not None and self.pending is not None:
            for q in self.pending:
                if q.role == role and q.answered == "asked":
                    q.resp = np.array(r)
                    q.answered = True
                    break
            if all(q.answered is True for q in self.pending):
                resp = [q.resp for q in self.pending]
                if self.phase == "init":
                    self.model.init_done(resp)
                    self.pending = None
                    return
                try:
                    self.pending = self.gen.send(resp)
                except StopIteration:
                    self.gen = None
                    self.pending = None
                    self.cur["visible"] = self.model.visible
                    self.cur["final"] = self.model.final
                    self.cur["cost_args"] = self.model.cost_args

    # ------------------------------------------------------------ model check
    def missing(self):
        return [q.role for q in (self.pending or []) if q.answered is not True]

    def check_model(self, role, x, factor):
        if self.phase == "init" and self.pending is None and hasattr(self.model, "init_requests") \
                and not getattr(self, "_init_seen", False):
            self._init_seen = True
            self.pending = self.model.init_requests()
        if self.pending is None:
            if role == "lop" and self.cfg["solver"] == "Condat":
                return  # reweighting
            self.ctx.violate("unexpected-evaluation",
                             f"{self.name}: {role} evaluated outside an iteration")
        for q in self.pending:
            if q.role == role and not q.answered:
                if not close(q.x, x, 1e-8):
                    self.ctx.violate(
                        f"wrong-point-{role.rstrip('0123456789')}",
                        f"{self.name}: iteration {self.cur and (self.cur['call'], self.cur['it'])}: "
                        f"{role} evaluated at {x.ravel()[:4]}, recursion says {np.asarray(q.x).ravel()[:4]}")
                qf = 1.0 if q.factor is None else q.factor
                f = 1.0 if factor is None else factor
                if role.startswith("prox") and not close(
                        np.broadcast_to(np.asarray(qf), np.broadcast(qf, f).shape),
                        np.broadcast_to(np.asarray(f), np.broadcast(qf, f).shape), 1e-8):
                    self.ctx.violate(
                        f"wrong-factor-{role.rstrip('0123456789')}",
                        f"{self.name}: iteration {self.cur and (self.cur['call'], self.cur['it'])}: "
                        f"{role} got factor {np.ravel(f)[:4]}, recursion says {np.ravel(qf)[:4]}")
                q.answered = "asked"
                return
        self.ctx.violate("unexpected-evaluation",
                         f"{self.name}: {role} evaluated, recursion expects {self.missing()}")

    def build_model(self):
        c = self.cfg
        i = self.init
        s = c["solver"]
        if s == "FB":
            self.model = models.FB(c, i["x"])
        elif s == "GenFB":
            self.model = models.GenFB(c, i["x"])
        elif s == "POGM":
            self.model = models.POGM(c, i["u"], i["x"], i["y"], i["z"])
        elif s == "Condat":
            self.model = models.Condat(c, i["x"], i["y"])
        elif s in GRADS:
            self.model = models.Grad(c, i["x"])

    # ------------------------------------------------------------ builders
    def call(self, role, x, factor=None):
        self.enter(role, x, factor)
        r = self.respond(role, np.asarray(x), factor)
        out = self.out(role, r, x)
        self.leave(role, out)
        return out

    def make_grad(self):
        from modopt.opt.gradient import GradBasic, GradParent

        rig = self
        if self.cfg.get("ops") == "real":
            ident = self.cfg.get("gop") == "ident"

            def gop(x):
                sched.point("gop")
                rig.maybe_fault("gop")
                return rig.out("gop", np.asarray(x) if ident else rig.lin(rig.H, x), x)

            def gtrans(x):
                sched.point("gtrans")
                rig.maybe_fault("gtrans")
                return rig.out("gtrans", np.asarray(x) if ident else rig.lin(rig.H.T, x) * 0.2, x)

            g = GradBasic(self.obs, gop, gtrans, verbose=False,
                          input_data_writeable=bool(self.cfg.get("obs_writeable")))
            inner = g.get_grad

            def get_grad(x):
                rig.enter("grad", x, None)
                try:
                    inner(x)
                except BaseException:
                    rig.fail_update()
                    raise
                rig.leave("grad", g.grad)

            g.get_grad = get_grad
            inner_cost = g.cost

            def cost(*a, **k):
                rig.cost_fault()
                return inner_cost(*a, **k)

            g.cost = cost
        else:
            def get_grad(x):
                g.grad = rig.call("grad", x)

            g = GradParent(self.obs, lambda x: x, lambda x: x, get_grad=get_grad,
                           cost=lambda *a, **k: rig.cost_value(a), verbose=False,
                           input_data_writeable=bool(self.cfg.get("obs_writeable")))
        return g

    def make_prox(self, role, extra=True):
        from modopt.opt import proximity
        from modopt.opt.linear import Identity

        rig = self
        kind = self.cfg.get("prox_kind", {}).get(role)
        real = None
        if self.cfg.get("ops") == "real" and kind:
            def weights(name, shape=None, top=0.6):
                # the caller's arrays: checked by C08
                g = nprng("w", self.cfg["seed"], role, name)
                a = self.settings[role, name] = g.uniform(0.02, top, size=self.shape if shape is None else shape)
                return a

            if kind == "sparse":
                real = proximity.SparseThreshold(Identity(), weights("weights"))
            elif kind == "positive":
                real = proximity.Positivity()
            elif kind == "identity":
                real = proximity.IdentityProx()
            elif kind == "ridge":
                real = proximity.Ridge(Identity(), weights("weights"))
            elif kind == "elastic":
                real = proximity.ElasticNet(Identity(), weights("alpha"), weights("beta"))
            elif kind == "group":
                real = proximity.GroupLASSO(weights("weights", self.shape[1:]))
            elif kind == "owl":
                w = weights("weights")
                w[::-1].sort()
                real = proximity.OrderedWeightedL1Norm(w)
            elif kind == "lowrank":
                real = proximity.LowRankMatrix(self.thr * 4, thresh_type="soft")
            elif kind == "compos":
                from modopt.opt.linear import WaveletTransform
                real = proximity.LinearCompositionProx(
                    WaveletTransform("haar", self.shape, level=1),
                    proximity.SparseThreshold(Identity(), weights("weights", (int(np.prod(self.shape)),))))
        if real is not None:
            def op(x, extra_factor=None):
                rig.enter(role, x, extra_factor)
                r = real.op(x) if extra_factor is None else real.op(x, extra_factor=extra_factor)
                rig.leave(role, r)
                return r

            def cost(*a, **k):
                rig.cost_fault()
                return real.cost(*a, **k)

            return proximity.ProximityParent(op, cost)
        return proximity.ProximityParent(
            lambda x, extra_factor=None: rig.call(role, x, extra_factor),
            lambda *a, **k: rig.cost_part(role, a))

    def make_linear(self):
        from modopt.opt.linear import LinearParent
        rig = self
        return LinearParent(lambda x: rig.call("lop", x), lambda x: rig.call("ladj", x))

    def metric_linear(self):
        from modopt.opt.linear import LinearParent
        rig = self

        def adj(x):
            sched.point("madj")
            rig.ctx.log(rig.name, "madj", x)
            rig.madj_args.append(np.array(x))
            rig.maybe_fault("madj")
            return rig.lin(rig.L.T, np.asarray(x))

        self.madj_args = []
        return LinearParent(lambda x: rig.lin(rig.L, x), adj)

    # costs ---------------------------------------------------------------
    def cost_fault(self):
        sched.point("cost")
        self.maybe_fault("cost")

    def cost_value(self, args):
        """First summand of the cost; the scripted value carries the history."""
        self.cost_fault()
        sc = self.cfg["cost"].get("values") if self.cfg.get("cost") else None
        k = self.ok_calls.get("cost", 0)
        self.ok_calls["cost"] = k + 1
        v = sc[k % len(sc)] if sc else float(np.linalg.norm(args[0]) ** 2)
        self.cost_vals.append(v)
        self.cost_at.append((self.cur and (self.cur["call"], self.cur["it"]), v,
                             [np.array(a) for a in args]))
        self.ctx.log(self.name, "cost", v)
        return v

    def cost_part(self, role, args):
        self.maybe_fault("costp")
        return 0.0

    def make_cost(self, ops):
        from modopt.opt.cost import costObj

        self.cost_vals = []
        c = self.cfg.get("cost")
        if not c:
            return None
        if c["kind"] == "auto":
            return "auto"
        if c["kind"] == "stub":
            rig = self

            class StubCost:
                def get_cost(self, *args, **kwargs):
                    sched.point("cost")
                    it = rig.cur and (rig.cur["call"], rig.cur["it"])
                    rig.ctx.log(rig.name, "get_cost", *args)
                    if rig.model is not None and not rig.lenient and rig.cur and "cost_args" in rig.cur:
                        exp = rig.cur["cost_args"]
                        if len(exp) != len(args) or not all(close(e, a, 1e-8) for e, a in zip(exp, args)):
                            rig.ctx.violate("cost-arguments", f"{rig.name}: cost tested on {args}, not on {exp}")
                    rig.maybe_fault("cost")
                    k = rig.ok_calls.get("cost", 0)
                    rig.ok_calls["cost"] = k + 1
                    vals = c["values"]
                    v = vals[k % len(vals)] if vals else False
                    rig.cost_log.append((it, bool(v)))
                    return v

            class costObjStub(StubCost):
                pass
            return costObjStub()
        kw = {"verbose": bool(c.get("verbose")), "tolerance": c.get("tol", 1e-4),
              "cost_interval": c.get("interval", 1), "test_range": c.get("range", 4)}
        obj = costObj(ops, **kw)
        inner = obj.get_cost
        rig = self

        def get_cost(*a, **k):
            it = rig.cur and (rig.cur["call"], rig.cur["it"])
            n0 = len(rig.cost_vals)
            r = inner(*a, **k)
            rig.cost_log.append((it, bool(r), rig.cost_vals[n0:]))
            return r

        obj.get_cost = get_cost
        return obj

    # metrics -------------------------------------------------------------
    def make_metrics(self):
        ms = self.cfg.get("metrics")
        if not ms:
            return None
        out = {}
        for m in ms:
            out[m["name"]] = {
                "metric": self.metric_fn(m),
                "mapping": dict(m["mapping"]),
                "cst_kwargs": {k: np.full(2, float(v)) for k, v in m.get("cst", {}).items()},
                "early_stopping": bool(m.get("early")),
            }
        self.metric_dict = out
        return out

    def metric_fn(self, m):
        rig = self
        role = "metric:" + m["name"]

        def metric(**kwargs):
            sched.point("metric")
            it = rig.cur and (rig.cur["call"], rig.cur["it"])
            snap = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in kwargs.items()}
            rec = {"name": m["name"], "it": it, "kwargs": snap, "value": None}
            rig.metric_log.append(rec)
            rig.ctx.log(rig.name, role, it, snap)
            if rig.on_metric:
                rig.on_metric(rig, m, rec, kwargs)
            rig.maybe_fault(role)
            k = rig.ok_calls.get(role, 0)
            rig.ok_calls[role] = k + 1
            vals = m.get("values")
            if vals:
                v = vals[k % len(vals)]
            else:
                v = float(sum(np.sum(np.abs(a)) for a in snap.values() if isinstance(a, np.ndarray)))
            rec["value"] = v
            return v

        return metric

    # solver --------------------------------------------------------------
    def build(self, caller=None):
        from modopt.opt import algorithms as alg

        c = self.cfg
        p = c["params"]
        s = c["solver"]
        init = caller if caller is not None else self.init
        self.caller = init
        kw = {"verbose": bool(c.get("verbose")), "progress": bool(c.get("progress")),
              "metrics": self.make_metrics()}
        if "period" in c:
            kw["metric_call_period"] = c["period"]
        if c.get("backend"):
            kw["compute_backend"] = c["backend"]
        if p.get("step_size") is not None:
            # overrides the solver's own step parameter, which is then a decoy
            kw["step_size"] = p[STEP[s]]
            p = dict(p, **{STEP[s]: p["step_size"]})

        def args(**a):
            """Without the parameters left to their documented defaults."""
            if c.get("auto"):
                a.pop("auto_iterate", None)
            return {k: v for k, v in a.items() if k not in c.get("omit", ())}
        if s in ("ADMM", "FastADMM"):
            from modopt.opt.linear import LinearParent
            rig = self
            A = LinearParent(lambda x: rig.call("Aop", x), lambda x: x)
            B = LinearParent(lambda x: rig.call("Bop", x), lambda x: x)

            def opt(role):
                def f(init, obs):
                    rig.enter(role, init, None)
                    rig.ctx.log(rig.name, role + "-obs", obs)
                    if rig.cur is not None:
                        rig.cur["calls"].append((role + "-obs", np.array(obs), None))
                    rr = rig.soft(0.5 * np.asarray(init) + 0.4 * np.asarray(obs), rig.thr)
                    if role == "optG":
                        rr = rr * 0.8
                    out = rig.out(role, rr, init)
                    rig.leave(role, out)
                    if rig.cur is not None:
                        rig.cur.setdefault("visible", {})["x_new" if role == "optH" else "v_new"] = np.array(rr)
                    return out
                return f

            cost = c.get("cost")
            cf = None
            self.cost_vals = []
            if cost:
                cf = (lambda u: self.cost_value((u,)), lambda v: self.cost_part("v", (v,)))
            cls = alg.ADMM if s == "ADMM" else alg.FastADMM
            if s == "FastADMM":
                kw["eta"] = p.get("eta", 0.999)
                kw["alpha"] = p.get("alpha", 1)
            self.solver = cls(init["u"], init["v"], init["mu"], A, B, init["b"],
                              (opt("optH"), opt("optG")), tau=p.get("tau", 1),
                              cost_funcs=cf, **kw)
            return
        g = self.make_grad()
        self.grad = g
        if s == "GenFB":
            proxs = [self.make_prox(f"prox{i}") for i in range(p["n_prox"])]
            w = p.get("weights")
            if w is not None and c.get("weights_array", True):
                w = np.array(w)
            self.weights_in = w
            self.solver = alg.GenForwardBackward(
                init["x"], g, proxs, cost=self.make_cost([g, *proxs]),
                weights=w, linear=self.metric_linear(), **args(
                    gamma_param=p["gamma"], lambda_param=p["lambda"],
                    gamma_update=models.upd(p.get("gamma_update")),
                    lambda_update=models.upd(p.get("lambda_update")), auto_iterate=False), **kw)
            return
        prox = self.make_prox("prox")
        if s == "FB":
            f = p.get("fista")
            fk = {}
            if f is not None:
                fk = {k: v for k, v in f.items() if v is not None}
                lu = "fista"
            else:
                lu = models.upd(p.get("lambda_update"))
            self.solver = alg.ForwardBackward(
                init["x"], g, prox, cost=self.make_cost([g, prox]), linear=self.metric_linear(), **args(
                    beta_param=p["beta"], lambda_param=p["lambda"],
                    beta_update=models.upd(p.get("beta_update")),
                    lambda_update=lu, auto_iterate=False), **fk, **kw)
        elif s == "POGM":
            self.solver = alg.POGM(
                init["u"], init["x"], init["y"], init["z"], g, prox,
                cost=self.make_cost([g, prox]), linear=self.metric_linear(), **args(
                    beta_param=p["beta"], sigma_bar=p["sigma_bar"], auto_iterate=False), **kw)
        elif s == "Condat":
            pd = self.make_prox("prox_dual")
            self.linear = self.make_linear()
            self.solver = alg.Condat(
                init["x"], init["y"], g, prox, pd, linear=self.linear,
                cost=self.make_cost([g, prox, pd]), reweight=c.get("_reweight"), **args(
                    rho=p["rho"], sigma=p["sigma"], tau=p["tau"],
                    rho_update=models.upd(p.get("rho_update")),
                    sigma_update=models.upd(p.get("sigma_update")),
                    tau_update=models.upd(p.get("tau_update")), auto_iterate=False), **kw)
        else:
            cls = {"Generic": alg.GenericGradOpt, "Vanilla": alg.VanillaGenericGradOpt,
                   "Ada": alg.AdaGenericGradOpt, "RMSprop": alg.RMSpropGradOpt,
                   "Momentum": alg.MomentumGradOpt, "ADAM": alg.ADAMGradOpt,
                   "SAGA": alg.SAGAOptGradOpt}[s]
            a = {"eta": p["eta"], "eta_update": models.eta_upd(p.get("eta_update")),
                 "epsilon": p["epsilon"], "epoch_size": p.get("epoch_size", 1)}
            if s in ("RMSprop", "ADAM"):
                a["gamma"] = p["gamma"]
            if s in ("Momentum", "ADAM"):
                a["beta"] = p["mbeta"]
            self.solver = cls(init["x"], g, prox, self.make_cost([g, prox]), **args(**a), **kw)

    # ------------------------------------------------------------ driving
    def iterate(self, n, **kw):
        """One iterate call; returns None or the injected error it ended with."""
        self.call_no += 1
        self.it_in_call = 0
        self.cur = None
        self.phase = "run"
        self.raised = None
        self.raised_role = None
        try:
            if n is None:
                self.solver.iterate(**kw)
            else:
                self.solver.iterate(max_iter=n, **kw)
        except BaseException as e:  # noqa: BLE001
            if self.raised is not None and e is self.raised:
                self.ctx.log(self.name, "iterate-raised", type(e).__name__)
                self.phase = "idle"
                return e
            if self.raised is not None and _chained(e, self.raised):
                self.ctx.violate("error-changed",
                                 f"{self.name}: operator raised {self.raised!r}, caller got {e!r}")
            raise
        self.phase = "idle"
        if self.raised is not None:
            self.ctx.violate("error-swallowed",
                             f"{self.name}: {self.raised!r} raised in {self.raised_role} did not reach the caller")
        if self.model is not None and self.gen is not None and not self.lenient:
            self.ctx.violate("iteration-incomplete",
                             f"{self.name}: call returned before {self.missing()} was evaluated")
        self.ctx.log(self.name, "iterate-done", self.it_in_call)
        return None

    def results(self):
        out = {}
        for k in ("x_final", "y_final", "u_final", "v_final"):
            if hasattr(self.solver, k):
                out[k] = getattr(self.solver, k)
        return out

    def committed(self):
        return [i for i in self.iters if not i["failed"]]

    def iterations_in_call(self, call=None):
        call = self.call_no if call is None else call
        return [i for i in self.iters if i["call"] == call]


def hash_i(s):
    v = 0
    for ch in s:
        v = (v * 31 + ord(ch)) & 0xFFFF
    return v


def _chained(e, inner):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is inner:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


# -------------------------------------------------------------- generation
def rfloat(rng, lo, hi):
    return round(rng.uniform(lo, hi), 4)


def gen_update(rng, p=0.5, lo=0.8, hi=1.05):
    if rng.random() > p:
        return None
    return rng.choice([["decay", rfloat(rng, lo, hi)], ["same", 0], ["toward", rfloat(rng, 0.3, 1.0)]])


RESTARTS = ["adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy"]


def gen_fista(rng):
    k = rng.random()
    f = {}
    if k < 0.2:
        f["a_cd"] = rng.choice([2.5, 3, 4, 20])
        return f
    if k < 0.5:
        if rng.random() < 0.5:
            f.update(p_lazy=rfloat(rng, 0.05, 1.0), q_lazy=rfloat(rng, 0.1, 1.0), r_lazy=rfloat(rng, 0.5, 4))
        return f
    st = rng.choice(RESTARTS)
    f.update(restart_strategy=st, xi_restart=rfloat(rng, 0.5, 0.98))
    if st == "greedy" or rng.random() < 0.2:
        f.update(min_beta=rfloat(rng, 0.05, 0.9), s_greedy=rfloat(rng, 1.01, 2.0))
    if rng.random() < 0.4:
        f.update(p_lazy=rfloat(rng, 0.05, 1.0), q_lazy=rfloat(rng, 0.1, 1.0), r_lazy=rfloat(rng, 0.5, 4))
    return f


def gen_params(rng, s, idx_free=False):
    if s == "FB":
        p = {"beta": rfloat(rng, 0.2, 1.3), "lambda": rfloat(rng, 0.3, 1.5)}
        if rng.random() < 0.65:
            p["fista"] = gen_fista(rng)
        else:
            p["lambda_update"] = gen_update(rng)
            p["beta_update"] = gen_update(rng)
        return p
    if s == "GenFB":
        n = rng.choice([1, 2, 2, 3, 4])
        w = None
        if rng.random() < 0.7:
            w = {1: [[1.0]], 2: [[0.25, 0.75], [0.5, 0.5], [0.125, 0.875]],
                 3: [[0.25, 0.25, 0.5], [0.5, 0.125, 0.375]],
                 4: [[0.25, 0.25, 0.25, 0.25], [0.5, 0.25, 0.125, 0.125]]}[n]
            w = rng.choice(w)
        elif n == 3:
            w = [0.25, 0.25, 0.5]
        return {"n_prox": n, "weights": w, "gamma": rfloat(rng, 0.2, 1.2),
                "lambda": rfloat(rng, 0.3, 1.4), "gamma_update": gen_update(rng, 0.4),
                "lambda_update": gen_update(rng, 0.4)}
    if s == "POGM":
        return {"beta": rfloat(rng, 0.2, 1.2), "sigma_bar": rng.choice([0.0, 0.5, 0.9, 0.96, 1.0])}
    if s == "Condat":
        return {"rho": rfloat(rng, 0.3, 1.2), "sigma": rfloat(rng, 0.2, 1.2),
                "tau": rfloat(rng, 0.2, 1.0), "rho_update": gen_update(rng, 0.3),
                "sigma_update": gen_update(rng, 0.3), "tau_update": gen_update(rng, 0.3)}
    if s in ("ADMM", "FastADMM"):
        return {"tau": rng.choice([1, 0.5, 2.0]), "eta": rng.choice([0.999, 0.5, 2.0]),
                "alpha": rng.choice([1, 2])}
    p = {"eta": rfloat(rng, 0.05, 0.8), "epsilon": rng.choice([1e-6, 1e-3, 0.1, 1.0]),
         "epoch_size": 1 if idx_free else rng.choice([1, 1, 2, 3, 4, 7])}
    if s == "Generic":
        p["epsilon"] = rng.choice([1.0, 2.0])
    if s in ("RMSprop", "ADAM"):
        p["gamma"] = rng.choice([0.5, 0.9, 0.1, 0.99] if s == "ADAM" else [0.5, 0.9, 0.0, 1.0, 0.3])
    if s in ("Momentum", "ADAM"):
        p["mbeta"] = rng.choice([0.9, 0.5, 0.1, 0.0])
    if rng.random() < 0.4:
        p["eta_update"] = rng.choice([["decay", 0.9], ["same", 0]] if idx_free
                                     else [["decay", 0.9], ["inv", 0.3], ["inv", 0.05]])
    return p


STEP = {"FB": "beta", "GenFB": "gamma", "POGM": "beta", "Condat": "tau"}
# documented defaults: our name, keyword of the constructor, value
DEFAULTS = {
    "FB": [("beta", "beta_param", 1.0), ("lambda", "lambda_param", 1.0), ("beta_update", "beta_update", None)],
    "GenFB": [("gamma", "gamma_param", 1.0), ("lambda", "lambda_param", 1.0),
              ("gamma_update", "gamma_update", None), ("lambda_update", "lambda_update", None)],
    "POGM": [("beta", "beta_param", 1.0), ("sigma_bar", "sigma_bar", 1.0)],
    "Condat": [("rho", "rho", 0.5), ("sigma", "sigma", 1.0), ("tau", "tau", 1.0),
               ("rho_update", "rho_update", None), ("sigma_update", "sigma_update", None),
               ("tau_update", "tau_update", None)],
}
GRAD_DEFAULTS = [("eta", "eta", 1.0), ("eta_update", "eta_update", None), ("epsilon", "epsilon", 1e-6),
                 ("epoch_size", "epoch_size", 1)]


def gen_defaults(rng, cfg):
    """Leave some parameters of the solver to their documented defaults."""
    s = cfg["solver"]
    if s in ("ADMM", "FastADMM"):
        return
    todo = list(DEFAULTS.get(s, GRAD_DEFAULTS))
    if s == "RMSprop":
        todo.append(("gamma", "gamma", 0.5))
    if s == "Momentum":
        todo.append(("mbeta", "beta", 0.9))
    if s == "FB" and cfg["params"].get("fista") is not None:
        todo.append(("fista", "lambda_update", cfg["params"]["fista"]))
    cfg["omit"] = []
    for ours, kw, v in todo:
        if rng.random() < 0.6:
            cfg["omit"].append(kw)
            cfg["params"][ours] = v


STYLES = ["func", "func", "func", "noise", "mix", "zero", "const", "flip", "echo", "neg",
          "shrink", "prev"]


def roles_of(s, params=None):
    if s == "GenFB":
        return ["grad"] + [f"prox{i}" for i in range((params or {}).get("n_prox", 2))]
    if s == "Condat":
        return ["grad", "prox", "prox_dual", "lop", "ladj"]
    if s in ("ADMM", "FastADMM"):
        return ["optH", "optG", "Aop", "Bop"]
    return ["grad", "prox"]


def gen_styles(rng, roles):
    if rng.random() < 0.35:
        return {}
    out = {}
    for r in roles:
        if rng.random() < 0.6:
            out[r] = [rng.choice(STYLES) for _ in range(rng.randint(1, 6))]
    return out


# now and then a large array or a long call: what only happens beyond some size or count
BIG_SHAPES = [[70], [130], [9, 9], [12, 11], [300], [33, 33], [5, 6, 7]]
LONG = [70, 150, 300, 520, 1050]


def gen_long(rng, segs, p=0.02):
    if rng.random() < p:
        segs[rng.randrange(len(segs))] = rng.choice(LONG)
    return segs


def gen_solver(rng, solvers=SOLVERS, idx_free=False, styles=True, real=0.25, dtypes=None, shapes=None):
    s = rng.choice(solvers)
    shape = rng.choice(shapes or [[3], [5], [1], [2, 3], [4, 4], [2, 2, 2]])
    if shapes is None and rng.random() < 0.02:
        shape = rng.choice(BIG_SHAPES)
    dtype = rng.choice(dtypes or ["f8", "f8", "f8", "c16"])
    if s == "POGM":
        dtype = "f8"
    params = gen_params(rng, s, idx_free)
    if dtype == "c16" and params.get("fista", None) and params["fista"].get("restart_strategy"):
        dtype = "f8"
    cfg = {"solver": s, "seed": rng.randrange(1 << 30), "shape": shape, "dtype": dtype,
           "params": params, "zero_init": rng.random() < 0.15,
           "buffers": rng.choice(["fresh", "fresh", "reuse", "readonly"])}
    if rng.random() < real and s not in ("ADMM", "FastADMM") and dtype == "f8":
        cfg["ops"] = "real"
        kinds = ["sparse", "positive", "identity", "ridge", "elastic", None]
        if shape == [2, 3]:
            kinds += ["group"]
        elif shape == [4, 4]:
            kinds += ["compos", "compos", "group"]
        elif shape == [2, 2, 2]:
            kinds += ["lowrank", "lowrank"]
        elif shape in ([3], [5]):
            kinds += ["owl"]
        cfg["prox_kind"] = {r: rng.choice(kinds) for r in roles_of(s, params) if r.startswith("prox")}
        cfg["gop"] = rng.choice(["mat", "ident"])
        if s in GRADS:
            # array-valued step factors: operators that accept them
            cfg["prox_kind"] = {"prox": rng.choice(["sparse", "positive", "identity", None])}
    elif styles:
        cfg["styles"] = gen_styles(rng, roles_of(s, params))
    return cfg


MAPPINGS = {
    "FB": ["x_new", "z_new", "idx"], "GenFB": ["x_new", "z_new", "idx"],
    "POGM": ["u_new", "x_new", "y_new", "z_new", "xi", "sigma", "t", "idx"],
    "Condat": ["x_new", "y_new", "idx"], "ADMM": ["x_new", "v_new", "idx"],
    "FastADMM": ["x_new", "v_new", "idx"],
    "Grad": ["x_new", "dir_grad", "speed_grad", "idx"],
}


def keys_of(s):
    return MAPPINGS.get(s, MAPPINGS["Grad"])


def gen_metrics(rng, s, n=None, early=0.0, values=None):
    n = rng.choice([1, 1, 2, 3]) if n is None else n
    out = []
    for k in range(n):
        ks = [x for x in keys_of(s) if rng.random() < 0.5]
        if not ks:
            ks = ["x_new"]
        mapping = {key: f"arg{j}" for j, key in enumerate(ks)}
        if rng.random() < 0.3:
            extra = rng.choice(keys_of(s))
            mapping.setdefault(extra, None)
        m = {"name": f"m{k}", "mapping": mapping, "early": rng.random() < early}
        if rng.random() < 0.4:
            m["cst"] = {"ref": rng.randint(0, 3)}
        if values:
            m["values"] = values(rng)
        out.append(m)
    return out


def gen_faults(rng, roles, n_max, count=None, p=1.0):
    out = []
    seen = set()
    from .core import EXC_NAMES
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if count is None else count):
        f = {"role": rng.choice(roles), "n": rng.randrange(n_max), "exc": rng.choice(EXC_NAMES)}
        if (f["role"], f["n"]) not in seen:
            seen.add((f["role"], f["n"]))
            out.append(f)
    return out


def silence():
    """Console output of the run goes nowhere."""
    dn = boot.SEAMS["real_open"]("/dev/null", "w")
    sys.stdout = dn
    sys.stderr = dn
