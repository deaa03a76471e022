"""C14: reweighting happens exactly as often as asked and is all-or-nothing."""
import numpy as np

from .. import rig as R
from ..core import EXC, EXC_NAMES, close, nprng
from ..sched import Sched

ID = "C14"
BUDGET = {"quick": (6000, 240), "thorough": (150000, 1500)}
RULE = ("a run counts if at least one reweighting was due and the weights seen by the thresholding were "
        "compared with the model at every call; distinct plans counted once")
STATE_MEASURE = "sequence of calls: (reweightings done, role that failed, iterations per round)"
REAL = "Condat, cwbReweight, SparseThreshold, GradBasic, LinearCompositionProx, Identity, MatrixOperator"
STUB = "user functions inside the operators (they raise at seeded calls), asynchronous errors at traced lines of the reweighting"
ASSUME = ["after an asynchronous error inside the reweighting itself the weights are either all old or all new"]
KEEP = ("shape",)
ROLES = ["op", "adj", "prox", "lin", "linadj", "prox_dual", "reweight"]


def gen(rng, tier, i):
    if rng.random() < 0.3:
        objs = [{"how": rng.choice(["array", "array", "list", "int", "fortran", "zeros"]), "seed": rng.randrange(9),
                 "factor": rng.choice([1.0, 1, 0.5, 3.0, "array"]), "verbose": rng.random() < 0.2,
                 "share": rng.random() < 0.5}
                for _ in range(rng.choice([1, 2, 3]))]
        hist = []
        for _ in range(rng.randint(2, 9)):
            hist.append([rng.randrange(len(objs)), rng.choice(["ok"] * 6 + ["shape", "transposed", "type", "nan", "int", "list"]),
                         rng.randrange(6),
                         [rng.randrange(8), rng.choice(["memory", "interrupt"])] if rng.random() < 0.25 else None])
        return {"mode": "direct", "objs": objs, "hist": hist}
    calls = []
    for _ in range(rng.randint(1, 4)):
        flt = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            flt.append([rng.choice(ROLES), rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), rng.choice(EXC_NAMES)])
        calls.append({"max_iter": rng.choice([1, 1, 2, 3, 5]), "n": rng.choice([0, 1, 1, 2, 3, 5, None]), "faults": flt})
    return {"mode": "run", "calls": calls, "seed": rng.randrange(1000), "factor": rng.choice([1.0, 1, 0.5, 3.0]),
            "linear": rng.choice(["none", "user", "matrix"]), "tt": rng.choice(["soft", "soft", "hard"]),
            "share": rng.choice(["array", "rw"]), "compose": rng.random() < 0.25,
            "reweight": rng.random() < 0.9, "cost": rng.choice([None, None, "auto"]),
            "rho": rng.choice([0.5, 1.0]), "auto": rng.random() < 0.25, "rw_verbose": rng.random() < 0.2,
            "scribble": rng.random() < 0.3}


def formula(w, w0, factor, x):
    with np.errstate(all="ignore"):
        return w * (1.0 / (1.0 + np.abs(x) / (factor * w0)))


def run_direct(plan, ctx):
    from modopt.opt.linear import Identity
    from modopt.opt.proximity import SparseThreshold
    from modopt.opt.reweight import cwbReweight

    s = Sched(ctx, {"explicit": []}, max_steps=10**6)
    marks = []

    def body():
        rows = []
        for o in plan["objs"]:
            g = nprng("w", o["seed"])
            w = np.abs(g.normal(size=(3, 2))) + 0.2
            if o["how"] == "int":
                w = np.round(w * 5) + 1
            if o["how"] == "zeros":
                w[0, 0] = 0.0
            arg = {"list": w.tolist(), "int": w.astype(int), "fortran": np.asfortranarray(w)}.get(o["how"], w.copy())
            f = 0.5 + np.abs(g.normal(size=(3, 2))) if o["factor"] == "array" else o["factor"]
            rw = cwbReweight(arg, thresh_factor=f if not isinstance(f, np.ndarray) else f.copy(), verbose=o["verbose"])
            st = SparseThreshold(Identity(), rw.weights)
            rows.append({"rw": rw, "st": st, "w": w.astype(float), "w0": w.astype(float), "f": f, "arg": arg, "o": o})
        for b, kind, seed, cut in plan["hist"]:
            r = rows[b]
            g = nprng("x", seed)
            x = g.normal(size=(3, 2)) * 2
            if kind == "shape":
                x = g.normal(size=(4, 2))
            elif kind == "transposed":
                x = g.normal(size=(2, 3))
            elif kind == "type":
                x = "wrong"
            elif kind == "nan":
                x[1, 1] = np.nan
            elif kind == "int":
                x = np.round(x * 3).astype(int)
            elif kind == "list":
                x = x.tolist()
            x0 = np.array(x).copy() if kind != "type" else None
            exc = EXC[cut[1]]("injected") if cut else None
            new = None if kind in ("shape", "transposed", "type") else formula(r["w"], r["w0"], r["f"], np.asarray(x, float))
            try:
                s.call(lambda: r["rw"].reweight(x), cut[0] if cut else None, exc)
                out = "ok"
            except (Exception, KeyboardInterrupt) as e:
                out = "cut" if e is exc else "exc"
                err = e
            if x0 is not None and not close(np.asarray(x, x0.dtype), x0, 0.0):
                ctx.violate("input-modified", "reweighting changed its input")
            if out == "cut":
                ctx.fault("line-" + cut[1])
                if close(r["rw"].weights, r["w"], 1e-13):
                    pass
                elif new is not None and close(r["rw"].weights, new, 1e-12):
                    r["w"] = new
                else:
                    ctx.violate("half-done", f"interrupted reweighting left {r['rw'].weights} from {r['w']}")
            elif out == "exc":
                if new is not None:
                    raise err
            else:
                if new is None:
                    ctx.violate("accepted", f"reweighting accepted data of {kind} kind")
                r["w"] = new
            marks.append((kind, out))
            for k, q in enumerate(rows):
                if not close(q["rw"].weights, q["w"], 1e-12):
                    ctx.violate("wrong-weights", f"weights of object {k} are {np.ravel(q['rw'].weights)}, expected {np.ravel(q['w'])} after {marks}")
                if isinstance(q["arg"], np.ndarray) and q["o"]["how"] in ("array", "fortran", "zeros") and not close(q["arg"], q["w"], 1e-12):
                    ctx.violate("not-shared", f"the weights array passed in does not show the update after {marks}")
                y = nprng("y", k).normal(size=(3, 2)) * 3
                a = q["st"].op(y, extra_factor=0.5)
                c = SparseThreshold(Identity(), q["w"].copy()).op(y, extra_factor=0.5)
                if not close(a, c, 1e-10, 1e-12):
                    ctx.violate("not-seen", f"thresholding with the shared weights does not see the update after {marks}")
            ctx.log(b, kind, out, r["w"])
            ctx.probe("direct-" + out)

    t, = s.run([body])
    if t.exc is not None:
        raise t.exc
    ctx.state(marks)


def run(plan, ctx):
    R.silence()
    np.seterr(all="ignore")
    if plan["mode"] == "direct":
        return run_direct(plan, ctx)
    from modopt.opt.algorithms import Condat
    from modopt.opt.gradient import GradBasic
    from modopt.opt.linear import Identity, LinearParent, MatrixOperator
    from modopt.opt.proximity import LinearCompositionProx, ProximityParent, SparseThreshold
    from modopt.opt.reweight import cwbReweight

    g = nprng("c14", plan["seed"])
    shape = (3, 2)
    mat = g.normal(size=(3, 3)) * 0.6
    lin_m = np.eye(3) if plan["linear"] == "none" else g.normal(size=(3, 3)) * 0.7
    obs = g.normal(size=shape) * 3
    w0 = np.abs(g.normal(size=shape)) + 0.2
    M = {"w": w0.copy(), "done": 0, "x": None, "expect": None}
    counts, pend = {}, []
    rounds = []          # arguments of get_grad since the last reweighting
    state = {"call": None}

    def fail(role):
        n = counts[role] = counts.get(role, -1) + 1
        for f in pend:
            if f[0] == role and f[1] == n:
                pend.remove(f)
                ctx.fault(f"{role}-{f[2]}")
                state["raised"] = (role, EXC[f[2]])
                raise EXC[f[2]]("injected")

    def op(x):
        rounds.append(np.array(x))
        if M["expect"] is not None:
            # first gradient of the round after a reweighting: at the result
            # the reweighting should have used
            want = lin_m @ x
            if not close(M["expect"], want, 1e-9, 1e-12):
                ctx.violate("wrong-data", f"reweighted from {np.ravel(M['expect'])}, the round's result gives {np.ravel(want)}")
            M["expect"] = None
        fail("op")
        return mat @ x

    def adj(x):
        fail("adj")
        return mat.T @ x

    def lop(x):
        fail("lin")
        return lin_m @ x

    def ladj(x):
        fail("linadj")
        return lin_m.T @ x

    def prox(x, extra_factor=1.0):
        fail("prox")
        return np.maximum(x, 0)

    w = w0.copy()
    rw = cwbReweight(w, thresh_factor=plan["factor"], verbose=plan["rw_verbose"])
    lin = {"none": lambda: Identity(), "user": lambda: LinearParent(lop, ladj),
           "matrix": lambda: MatrixOperator(lin_m.copy())}[plan["linear"]]()
    st = SparseThreshold(Identity(), w if plan["share"] == "array" else rw.weights, thresh_type=plan["tt"])
    inner = LinearCompositionProx(Identity(), st) if plan["compose"] else st
    rlog = []

    class Dual(ProximityParent):
        def __init__(self):
            self.op = self.run
            self.cost = inner.cost

        def run(self, y, extra_factor=1.0):
            fail("prox_dual")
            r = inner.op(y, extra_factor=extra_factor)
            want = SparseThreshold(Identity(), M["w"].copy(), thresh_type=plan["tt"]).op(y, extra_factor=extra_factor)
            if not close(r, want, 1e-10, 1e-12):
                ctx.violate("wrong-weights", f"thresholding after {M['done']} reweightings used other weights than the {M['done']}-fold update")
            return r

    class Rw:
        def reweight(self, data):
            if state["call"] is None:
                ctx.violate("unexpected", "reweighting outside a call")
            if not rounds:
                ctx.violate("no-round", "reweighting before any iteration of its round")
            rlog.append(len(rounds))
            del rounds[:]
            fail("reweight")
            x = np.array(data)
            rw.reweight(data)
            M["expect"] = x
            M["w"] = formula(M["w"], w0, plan["factor"], x)
            M["done"] += 1

    grad = GradBasic(obs, op, adj, verbose=False)
    kw = dict(rho=plan["rho"], sigma=0.6, tau=0.4, linear=None if plan["linear"] == "none" else lin,
              cost=plan["cost"], reweight=Rw() if plan["reweight"] else None)
    marks = []
    solver = None
    x_init, y_init = g.normal(size=shape), g.normal(size=shape)
    for k, c in enumerate(plan["calls"]):
        counts.clear()
        pend[:] = [list(f) for f in c["faults"]]
        rlog.clear()
        del rounds[:]
        before = M["done"]
        w_before = M["w"].copy()
        state.update(call=c, raised=None)
        n = 1 if c["n"] is None else c["n"]
        err = None
        try:
            if solver is None:
                auto = plan["auto"] and k == 0
                if auto:
                    extra = {} if c["n"] is None else {"n_rewightings": c["n"]}
                    solver = Condat(x_init, y_init, grad, ProximityParent(prox, lambda *a, **k: 0), Dual(),
                                    auto_iterate=True, max_iter=c["max_iter"], **extra, **kw)
                else:
                    solver = Condat(x_init, y_init, grad, ProximityParent(prox, lambda *a, **k: 0), Dual(),
                                    auto_iterate=False, **kw)
            if not (plan["auto"] and k == 0):
                if c["n"] is None:
                    solver.iterate(max_iter=c["max_iter"])
                else:
                    solver.iterate(max_iter=c["max_iter"], n_rewightings=c["n"])
        except (Exception, KeyboardInterrupt) as e:
            if not getattr(e, "injected", False):
                raise
            err = e
        state["call"] = None
        M["expect"] = None
        made = M["done"] - before
        role = state["raised"][0] if state["raised"] else None
        if state["raised"] and (err is None or type(err) is not state["raised"][1]):
            ctx.violate("error-lost", f"{role} raised {state['raised'][1].__name__}, the caller got {err!r}")
        if err is None and plan["reweight"] and made != n:
            ctx.violate("count", f"{made} reweightings in a call asking for {n}")
        if made > n or (not plan["reweight"] and made):
            ctx.violate("count", f"{made} reweightings in a call asking for {n}")
        if plan["cost"] is None:
            want = c["max_iter"]
            for q in rlog:
                if q != want:
                    ctx.violate("round-length", f"reweighting after {q} iterations instead of {want}")
            if err is None and len(rounds) != want:
                ctx.violate("round-length", f"last round has {len(rounds)} iterations instead of {want}")
        elif err is None and not rounds:
            ctx.violate("round-length", "no round after the last reweighting")
        for arr, who in ((w, "the caller's weights"), (rw.weights, "the weights"), (st.weights, "the operator's weights")):
            if not close(arr, M["w"], 1e-11):
                ctx.violate("wrong-weights", f"{who} after call {k} ({made} reweightings, failed: {role}) are "
                            f"{np.ravel(arr)}, expected {np.ravel(M['w'])} (before the call {np.ravel(w_before)})")
        if not close(rw.original_weights, w0, 0.0):
            ctx.violate("original-changed", "the original weights changed")
        if err is None and plan["scribble"]:
            # the caller uses what it was given; must not reach the weights
            solver.x_final = None
        marks.append((made, role, list(rlog), len(rounds)))
        ctx.log(k, made, role, M["w"])
        ctx.probe("failed-" + role if role else "completed")
        if solver is None:
            # construction failed with auto_iterate: build it without
            plan = dict(plan, auto=False)
    ctx.state(marks)
