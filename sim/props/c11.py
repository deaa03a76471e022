"""C11: operators answer from their arguments and settings alone."""
import json

import numpy as np

from .. import rig as R
from ..core import EXC, EXC_NAMES, close, in_fork, nprng
from ..sched import Sched
from .c10 import Out, arrays_in, build, grow, meta, snapshot

ID = "C11"
BUDGET = {"quick": (2200, 240), "thorough": (60000, 1500)}
RULE = ("a run counts if at least one answer of an operator with a history was compared with the answer of a "
        "freshly built operator in a pristine process; distinct plans counted once")
STATE_MEASURE = "operator kinds x sequence of (method, outcome, settings change)"
REAL = "all proximity, linear and gradient operator classes and the signal/math functions behind them"
STUB = "user functions inside operators (scripted: they raise at seeded calls), asynchronous interrupts at traced lines; tensorflow/torch/cupy absent"
ASSUME = ["the partial singular value decomposition has a random start: answers are compared to 1e-6",
          "the k of the k-support norm never exceeds the input size (a documented clamp changes the setting)",
          "the observed data of gradient operators are made read-only on purpose"]
KEEP = ("shape",)
SEP = {"order": "C", "special": None, "readonly": False}


def arr(seed, shape, dtype="float", **kw):
    return build({"seed": seed, "shape": list(shape), "dtype": dtype, **SEP, **kw})


class Lin:
    """User linear operator: elementwise factor (None: the argument itself), may raise."""

    def __init__(self, factor, fail):
        self.factor = factor
        self._f = fail

    def op(self, x):
        self._f("lin.op")
        return x if self.factor is None else self.factor * x

    def adj_op(self, x):
        self._f("lin.adj")
        return x if self.factor is None else self.factor * x

    def cost(self, *a, **k):
        return 0


# every kind: shapes of inputs, settable constructor parameters, constructor
def k_identity(p, A, F):
    from modopt.opt.proximity import IdentityProx
    return IdentityProx()


def k_positivity(p, A, F):
    from modopt.opt.proximity import Positivity
    return Positivity()


def k_sparse(p, A, F):
    from modopt.opt.proximity import SparseThreshold
    return SparseThreshold(Lin(p["factor"], F), A(p["weights"]), thresh_type=p["tt"])


def k_lowrank(p, A, F):
    from modopt.opt.proximity import LowRankMatrix

    def oper(x):
        F("lowr.op")
        return 0.5 * x

    return LowRankMatrix(A(p["thresh"]), thresh_type=p["tt"], lowr_type=p["lowr_type"],
                         initial_rank=p["rank"], operator=oper)


def k_owl(p, A, F):
    from modopt.opt.proximity import OrderedWeightedL1Norm
    return OrderedWeightedL1Norm(A(p["weights"]))


def k_ridge(p, A, F):
    from modopt.opt.proximity import Ridge
    return Ridge(Lin(p["factor"], F), A(p["weights"]))


def k_elastic(p, A, F):
    from modopt.opt.proximity import ElasticNet
    return ElasticNet(Lin(p["factor"], F), A(p["alpha"]), A(p["beta"]))


def k_ksup(p, A, F):
    from modopt.opt.proximity import KSupportNorm
    return KSupportNorm(p["beta"], p["k_value"])


def k_group(p, A, F):
    from modopt.opt.proximity import GroupLASSO
    return GroupLASSO(A(p["weights"]))


def k_compos(p, A, F):
    from modopt.opt.linear import MatrixOperator
    from modopt.opt.proximity import LinearCompositionProx, SparseThreshold
    lin = MatrixOperator(A(p["mat"])) if p["matrix"] else Lin(p["factor"], F)
    return LinearCompositionProx(lin, SparseThreshold(Lin(1.0, F), A(p["weights"]), thresh_type=p["tt"]))


def k_combo(p, A, F):
    from modopt.opt.proximity import GroupLASSO, Positivity, ProximityCombo, ProximityParent, SparseThreshold

    def user(x, extra_factor=1.0):
        F("combo.op")
        return x * 0.5 * extra_factor

    return ProximityCombo([SparseThreshold(Lin(p["factor"], F), A(p["weights"]), thresh_type=p["tt"]),
                           ProximityParent(user, lambda x: float(np.sum(x)))] + ([GroupLASSO(0.5)] if p["three"] else []))


def k_lident(p, A, F):
    from modopt.opt.linear import Identity
    return Identity()


def k_matrix(p, A, F):
    from modopt.opt.linear import MatrixOperator
    return MatrixOperator(A(p["mat"]))


def k_wconv(p, A, F):
    from modopt.opt.linear import WaveletConvolve
    return WaveletConvolve(A(p["filters"]), method=p["method"])


def k_wtrans(p, A, F):
    from modopt.opt.linear import WaveletTransform
    return WaveletTransform(p["name"], tuple(p["shape"]), level=p["level"], n_batch=p["batch"])


def k_lcombo(p, A, F):
    from modopt.opt.linear import LinearCombo, MatrixOperator
    return LinearCombo([Lin(p["factor"], F), MatrixOperator(A(p["mat"])), Lin(-1.5, F)],
                       weights=None if p["weights"] is None else A(p["weights"]))


def k_grad(p, A, F):
    from modopt.opt.gradient import GradBasic
    m = A(p["mat"])

    mode = p["user"]
    own = {}

    def op(x):
        F("grad.op")
        if mode == "ident":
            return x
        r = m @ x
        if mode == "buffer":
            # the user's operator answers in an array of its own
            b = own.get((r.shape, r.dtype))
            if b is None:
                b = own[r.shape, r.dtype] = np.empty_like(r)
            b[...] = r
            return b
        return r

    def adj(x):
        F("grad.adj")
        return 2.0 * x if mode == "ident" else m.T @ x

    return GradBasic(A(p["obs_data"]), op, adj, input_data_writeable=p["rw"], data_type=float if p["typed"] else None,
                     verbose=False)


CTOR = {n[2:]: f for n, f in list(globals().items()) if n.startswith("k_")}
SVD_SH = [(4, 3, 3), (5, 3, 3), (6, 4, 4), (7, 3, 3)]


def gen_op(rng, pool):
    kind = rng.choice(sorted(CTOR) + ["lowrank", "lowrank", "lowrank", "sparse", "grad", "ksup"])
    A = lambda shape, **kw: pool(shape, **kw)  # noqa: E731
    p = {"factor": rng.choice([1.0, 2.0, -0.5])}
    if kind in ("sparse", "ridge", "elastic", "compos", "combo") and rng.random() < 0.3:
        p["factor"] = None
    sh = (4, 3)
    if kind == "sparse":
        p.update(weights=rng.choice([["v", 0.7], A((4, 3), pos=True)]), tt=rng.choice(["soft", "hard"]))
    elif kind == "lowrank":
        lt = rng.choice(["standard"] * 3 + ["ngole"])
        p.update(thresh=["v", rng.choice([0.5, 3.07, 6.1, 20.3])], tt=rng.choice(["soft", "hard"]), lowr_type=lt,
                 rank=rng.choice([None, 1, 2, 3, 5]) if lt == "standard" else None)
        sh = rng.choice(SVD_SH)
    elif kind == "owl":
        p.update(weights=A((6,), sort=True))
        sh = (6,)
    elif kind == "ridge":
        p.update(weights=rng.choice([["v", 0.7], A((4, 3), pos=True)]))
    elif kind == "elastic":
        p.update(alpha=rng.choice([["v", 0.7], A((4, 3), pos=True)]), beta=rng.choice([["v", 0.3], A((4, 3), pos=True)]))
    elif kind == "ksup":
        p.update(beta=rng.choice([0.5, 1.5]), k_value=rng.randint(1, 5))
        sh = rng.choice([(6,), (8,), (4, 3)])
    elif kind == "group":
        p.update(weights=rng.choice([["v", 0.7], A((3,), pos=True)]))
    elif kind == "compos":
        m = rng.random() < 0.5
        p.update(matrix=m, mat=A((5, 4)), weights=rng.choice([["v", 0.7], A((5, 3) if m else (4, 3), pos=True)]),
                 tt=rng.choice(["soft", "hard"]))
    elif kind == "combo":
        p.update(weights=rng.choice([["v", 0.7], A((4, 3), pos=True)]), tt="soft", three=rng.random() < 0.3)
        sh = "combo3" if p["three"] else "combo"
    elif kind == "matrix":
        p.update(mat=A((5, 4), dtype=rng.choice(["float", "complex", "int"])))
    elif kind == "wconv":
        p.update(filters=A((3, 3, 3), dtype=rng.choice(["float", "int"])), method=rng.choice(["scipy", "scipy", "astropy"]))
        sh = (2, 5, 5)
    elif kind == "wtrans":
        s = rng.choice([(8, 8), (16,), (7, 9), (4, 4, 4)])
        b = rng.choice([1, 1, 3])
        p.update(name=rng.choice(["haar", "db2", "sym4"]), shape=list(s), level=rng.choice([1, 2]), batch=b)
        sh = ((b,) if b > 1 else ()) + s
    elif kind == "lcombo":
        p.update(mat=A((4, 4)), weights=rng.choice([None, A((3,), fixed=True)]))
    elif kind == "grad":
        u = rng.choice(["fresh", "ident", "ident", "buffer"])
        p.update(mat=A((5, 4)), obs_data=A((4, 3) if u == "ident" else (5, 3)), rw=rng.random() < 0.5,
                 typed=rng.random() < 0.5, user=u)
    return {"kind": kind, "p": p, "shape": sh}


SETTABLE = {"sparse": ["weights"], "lowrank": ["thresh"], "ridge": ["weights"], "elastic": ["alpha", "beta"],
            "ksup": ["k_value", "beta"], "group": ["weights"], "grad": ["obs_data"]}
PROX = {"identity", "positivity", "sparse", "lowrank", "owl", "ridge", "elastic", "ksup", "group", "compos", "combo"}


def gen(rng, tier, i):
    tables = []

    scale = 1

    def pool(shape, dtype="float", pos=False, sort=False, fixed=False):
        sh = list(shape) if fixed else grow(shape, scale)
        old = [k for k, t in enumerate(tables) if t["shape"] == sh and t["dtype"] == dtype and t["pos"] == pos and t["sort"] == sort]
        if old and rng.random() < 0.6:
            return ["t", rng.choice(old)]
        tables.append({"shape": sh, "dtype": dtype, "pos": pos, "sort": sort, "seed": rng.randrange(1 << 30),
                       "order": rng.choice(["C", "C", "F", "strided"]), "special": None, "readonly": rng.random() < 0.2})
        return ["t", len(tables) - 1]

    if rng.random() < 0.04:
        scale = rng.choice([4, 6])      # now and then large arrays
    objs = [gen_op(rng, pool)]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        if rng.random() < 0.5:
            o = json.loads(json.dumps(rng.choice(objs)))
            if o["kind"] == "lowrank" and rng.random() < 0.7:
                o["shape"] = rng.choice(SVD_SH)
            objs.append(o)
        else:
            objs.append(gen_op(rng, pool))
    hist = []
    for _ in range(rng.randint(3, 9)):
        b = rng.randrange(len(objs))
        kind = objs[b]["kind"]
        k = rng.random()
        if k < 0.13 and kind in SETTABLE:
            attr = rng.choice(SETTABLE[kind])
            old = objs[b]["p"][attr]
            if attr == "k_value":
                v = rng.randint(1, 5)
            elif attr == "beta" and kind == "ksup":
                v = rng.choice([0.25, 1.0])
            elif old[0] == "v":
                v = ["v", rng.choice([0.2, 1.3, 4.0, 10.0])]
            else:
                t = tables[old[1]]
                v = pool(t["shape"], t["dtype"], t["pos"], t["sort"], fixed=True)
            hist.append(["set", b, attr, v])
            continue
        if k < 0.19 and hist:
            hist.append(["scribble", rng.randrange(8)])
            continue
        m = rng.choice(["op", "op", "op", "cost"]) if kind in PROX else \
            rng.choice(["grad", "grad", "cost", "trans_op_op", "stored"]) if kind == "grad" else rng.choice(["op", "adj_op"])
        x = {"seed": rng.randrange(6) if rng.random() < 0.7 else rng.randrange(1 << 20),
             "dtype": rng.choice(["float"] * 5 + ["float32", "int"]),
             "order": rng.choice(["C", "C", "F", "strided"]), "special": rng.choice([None] * 8 + ["zeros", "ones", "sparse"]),
             "rank": rng.choice([None, None, 1, 2]), "readonly": rng.random() < 0.2}
        if kind in ("ksup", "owl"):
            x["dtype"], x["special"] = "float", None
        elif kind != "lowrank" and rng.random() < 0.1:
            # a solver that diverged for a while
            x["special"] = rng.choice(["nan", "inf", "huge"])
        kw = {}
        if m == "op" and kind in PROX and rng.random() < 0.6:
            kw["extra_factor"] = rng.choice([0.5, 2.0, 1])
        if m == "op" and kind == "lowrank" and objs[b]["p"]["lowr_type"] == "standard" and rng.random() < 0.25:
            kw["rank"] = rng.choice([1, 2, 4])
        if m == "cost" and rng.random() < 0.4:
            kw["verbose"] = True
        f = None
        r = rng.random()
        if r < 0.18:
            f = ["line", rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 25, 50]), rng.choice(["interrupt", "memory"])]
        elif r < 0.33:
            f = ["user", rng.choice([0, 0, 1, 2]), rng.choice(EXC_NAMES)]
        hist.append(["call", b, m, x, kw, f, rng.random() < 0.3])
    plan = {"tables": tables, "objs": objs, "hist": hist}
    if scale > 1:
        plan["scale"] = scale
    return plan


def table(t):
    x = build(t)
    if t["pos"]:
        ro, x = x.flags.writeable, np.abs(x) * 0.5 + 0.1
        x.flags.writeable = ro
    if t["sort"]:
        ro, x = x.flags.writeable, np.sort(np.abs(x))[::-1].copy()
        x.flags.writeable = ro
    return x


def make_input(o, x, m, p, scale=1):
    def one(shape, salt=0):
        if o["kind"] != "wtrans":
            shape = grow(shape, scale)
        a = build({"seed": x["seed"] * 7 + salt, "shape": list(shape), "dtype": x["dtype"], "order": x["order"],
                   "special": x["special"], "readonly": False})
        if x["rank"] and o["kind"] == "lowrank":
            g = nprng("lr", x["seed"])
            n, q = shape[0], int(np.prod(shape[1:]))
            a = ((g.normal(size=(n, x["rank"])) @ g.normal(size=(x["rank"], q))) * 3).reshape(shape)
        a.flags.writeable = not x["readonly"]
        return a

    sh = o["shape"]
    if sh in ("combo", "combo3"):
        n = 3 if sh == "combo3" else 2
        r = np.empty(n, dtype=object)
        for k in range(n):
            r[k] = one((4, 3), k)
        return r
    if m == "adj_op":
        k = o["kind"]
        if k == "matrix":
            return one((5, 3))
        if k == "wconv":
            return one((2, 3, 5, 5))
        if k == "wtrans":
            import pywt
            s, lev = tuple(p["shape"]), p["level"]
            n = pywt.ravel_coeffs((pywt.wavedecn if len(s) > 1 else pywt.wavedec)(np.zeros(s), p["name"], mode="symmetric", level=lev))[0].size
            return one(((p["batch"],) if p["batch"] > 1 else ()) + (n,))
        if k == "lcombo":
            r = np.empty(3, dtype=object)
            for j in range(3):
                r[j] = one((4, 3), j)
            return r
    return one(sh)


def invoke(obj, m, x, kw):
    if m == "grad":
        obj.get_grad(x)
        return obj.grad
    if m == "trans_op_op":
        return obj.trans_op_op(x)
    return getattr(obj, m)(x, **kw)


def run(plan, ctx):
    import sys

    R.silence()
    out = sys.stdout = Out()
    tabs = [table(t) for t in plan["tables"]]
    tab0 = [t.copy() for t in tabs]
    state = {"left": None, "exc": None}

    def fail(role):
        if state["left"] is not None:
            state["left"] -= 1
            if state["left"] < 0:
                state["left"] = None
                raise state["exc"]

    def value(v, src):
        if isinstance(v, list) and v[0] == "t":
            return src[v[1]]
        return v[1] if isinstance(v, list) and v[0] == "v" else v

    def make(o, params, src):
        return CTOR[o["kind"]](params, lambda v: value(v, src), fail)

    params = [json.loads(json.dumps(o["p"])) for o in plan["objs"]]
    marks = []

    def fresh(o, p, m, xs, kw):
        def f():
            state["left"] = None
            obj = make(o, p, [table(t) for t in plan["tables"]])
            try:
                r = invoke(obj, m, make_input(o, xs, m, p, plan.get("scale", 1)), kw)
                return ("ok", r, out.take(), meta(r))
            except Exception as e:  # noqa: BLE001
                return ("exc", type(e).__name__)
        with np.errstate(all="ignore"):
            return in_fork(f)

    # expected answers first (settings are known from the plan alone)
    expected = []
    cur = json.loads(json.dumps(params))
    for h in plan["hist"]:
        if h[0] == "set":
            cur[h[1]][h[2]] = h[3]
            expected.append(None)
        elif h[0] == "call" and h[2] != "stored":
            expected.append(fresh(plan["objs"][h[1]], cur[h[1]], h[2], h[3], h[4]))
        else:
            expected.append(None)
    s = Sched(ctx, {"explicit": []}, max_steps=2000000)

    def body():
        objs = [make(o, p, tabs) for o, p in zip(plan["objs"], params)]
        results = []
        last_grad = {}
        passed = []
        with np.errstate(all="ignore"):
            for n, h in enumerate(plan["hist"]):
                if h[0] == "set":
                    setattr(objs[h[1]], h[2], value(h[3], tabs))
                    marks.append(h)
                    continue
                if h[0] == "scribble":
                    if results:
                        r = results.pop(h[1] % len(results))
                        mem = [a for a in arrays_in(r[0]) if a.flags.writeable and a.dtype.kind in "fciu"]
                        if not any(np.shares_memory(a, b) for a in mem for b in tabs + [v for q in results for v in arrays_in(q[3])]):
                            # answers handed out earlier that are views of this one go with it
                            results = [q for q in results if not any(np.shares_memory(a, b) for a in mem for b in arrays_in(q[0]))
                                       or q[4] == "fresh"]
                            for a in mem:
                                a[...] = 77
                            last_grad = {}
                            ctx.fault("caller-overwrites-answer")
                    continue
                _, b, m, xs, kw, flt, again = h
                o, obj = plan["objs"][b], objs[b]
                if m == "stored":
                    if b in last_grad and not close(obj.grad, last_grad[b], 1e-12):
                        ctx.violate("stored-gradient", "the stored gradient is not the one last computed")
                    continue
                x = make_input(o, xs, m, params[b], plan.get("scale", 1))
                if again and isinstance(x, np.ndarray) and x.dtype != object:
                    # the caller fills an array it passed before with new data
                    for a in reversed(passed):
                        if (a.shape, a.dtype, a.strides, a.flags.writeable) == (x.shape, x.dtype, x.strides, True):
                            results = [q for q in results if q[3] is not a
                                       and not any(np.shares_memory(a, v) for v in arrays_in(q[0]))]
                            last_grad = {k: v for k, v in last_grad.items()
                                         if not np.shares_memory(a, objs[k].grad)}
                            a[...] = x
                            x = a
                            ctx.fault("caller-refills-argument")
                            break
                if isinstance(x, np.ndarray):
                    passed.append(x)
                x0 = snapshot(x)
                out.take()
                exc = EXC[flt[2]]("injected") if flt else None
                if flt and flt[0] == "user":
                    state.update(left=flt[1], exc=exc)
                try:
                    r = s.call(lambda: invoke(obj, m, x, kw), flt[1] if flt and flt[0] == "line" else None, exc)
                    o_ = ("ok", r, out.take())
                except (Exception, KeyboardInterrupt) as e:
                    o_ = ("exc", e)
                    out.take()
                state["left"] = None
                hit = o_[0] == "exc" and o_[1] is exc
                if hit:
                    ctx.fault(("line-" if flt[0] == "line" else "user-") + flt[2])
                if m == "grad":
                    last_grad.pop(b, None)
                what = f"{o['kind']}.{m}" + (" (failed)" if hit else "")
                if not close(snapshot(x), x0, 0.0):
                    ctx.violate("argument-modified", f"{what} changed its argument")
                for t, t0 in zip(tabs, tab0):
                    if not close(t, t0, 0.0):
                        ctx.violate("settings-modified", f"{what} changed a weight, filter, matrix or data array")
                for q in results:
                    if not close(snapshot(q[0]), q[1], 0.0):
                        ctx.violate("answer-changed", f"an earlier answer of {q[2]} changed when {what} ran")
                    if not close(snapshot(q[3]), q[5], 0.0):
                        ctx.violate("argument-modified", f"an argument of an earlier call changed when {what} ran")
                marks.append((o["kind"], m, "cut" if hit else o_[0]))
                if hit:
                    continue
                exp = expected[n]
                if o_[0] == "exc":
                    if exp[0] != "exc" or type(o_[1]).__name__ != exp[1]:
                        ctx.violate("outcome-differs", f"{what}: {o_[1]!r}, freshly built: {exp[:2]}")
                    continue
                if exp[0] != "ok":
                    ctx.violate("outcome-differs", f"{what} answered, freshly built: {exp}")
                loose = o["kind"] == "lowrank"
                # a truncated decomposition in single precision is good to a few digits
                tol = 2e-3 if loose and np.asarray(x).dtype in (np.float32, np.complex64) else 1e-6
                if meta(r) != exp[3] or not close(r, exp[1], tol if loose else 1e-10, tol if loose else 1e-13):
                    ctx.violate("answer-differs", f"{what} = {str(r)[:400]}, freshly built: {str(exp[1])[:400]}; history {marks}")
                if o_[2] != exp[2]:
                    ctx.violate("answer-differs", f"{what} printed {o_[2]!r}, freshly built {exp[2]!r}")
                if m == "grad":
                    last_grad[b] = snapshot(r)
                ctx.log(o["kind"], m, np.round(r, 5) if isinstance(r, float) else 0)
                ctx.probe(f"{o['kind']}.{m}")
                tag = "view" if any(np.shares_memory(a, c) for a in arrays_in(r) for c in arrays_in(x)) else "fresh"
                results.append((r, snapshot(r), what, x, tag, x0))

    t, = s.run([body])
    if t.exc is not None:
        raise t.exc
    ctx.state(marks)
