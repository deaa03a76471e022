"""C30: solvers reach the minimiser whatever happened on the way."""
import os

import numpy as np

from .. import boot
from .. import rig as R
from ..core import EXC, EXC_NAMES, nprng

ID = "C30"
BUDGET = {"quick": (4000, 240), "thorough": (60000, 1500)}
RULE = ("a run counts if the solver was disturbed or split at least once and then followed to the end of its "
        "undisturbed iterations; distinct plans counted once")
STATE_MEASURE = "solver, operators, options, sequence of (call length, iterations performed, how it ended)"
REAL = "all proximal and gradient solvers with the package's own gradient, proximity, linear and cost operators"
STUB = "the user's matrices (well conditioned), their failures and transient errors, the clock"
ASSUME = ["problems are strongly convex with condition number at most 3 and the step sizes within their documented bounds",
          "transient errors are finite"]
KEEP = ("kinds", "shape", "opt", "segs")
TOL = 1e-3
# iterations that usually suffice, and how many times as many are allowed
NEED = {"FB": 100, "FISTA": 120, "GenFB": 200, "POGM": 120, "Condat": 600, "Vanilla": 100, "Momentum": 200, "ADMM": 200, "FastADMM": 200}
ROUNDS = 60


# ---------------------------------------------------------------- regularisers
def soft(x, t):
    a = np.abs(x)
    return np.where(a > t, x * (1 - t / np.where(a > 0, a, 1.0)), 0.0 * x)


def pava_desc(v):
    """Closest non-increasing sequence."""
    blocks = []
    for a in v:
        blocks.append([a, 1])
        while len(blocks) > 1 and blocks[-2][0] / blocks[-2][1] < blocks[-1][0] / blocks[-1][1]:
            s, n = blocks.pop()
            blocks[-1][0] += s
            blocks[-1][1] += n
    return np.concatenate([np.full(n, s / n) for s, n in blocks])


def owl_prox(x, w):
    a = np.abs(x).ravel()
    o = np.argsort(-a, kind="stable")
    r = np.empty_like(a)
    r[o] = np.maximum(pava_desc(a[o] - w), 0)
    return np.sign(x) * r.reshape(x.shape)


def ksup_prox(x, lam, k):
    """Prox of lam/2 times the squared k-support norm (real or complex)."""
    a = np.abs(x).ravel()
    lo, hi = 0.0, (lam + 1) / max(np.min(a[a > 0], initial=np.inf), 1e-300) if (a > 0).any() else 1.0
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if np.clip(m * a - lam, 0, 1).sum() < k:
            lo = m
        else:
            hi = m
    th = np.clip(hi * a - lam, 0, 1).reshape(x.shape)
    return x * th / (th + lam)


def haar(x):
    p, q, r, s = x[::2, ::2], x[::2, 1::2], x[1::2, ::2], x[1::2, 1::2]
    return np.array([p + q + r + s, p + q - r - s, p - q + r - s, p - q - r + s]) / 2


def ihaar(c):
    a, b, d, e = c
    x = np.empty((2 * a.shape[0], 2 * a.shape[1]), dtype=c.dtype)
    x[::2, ::2], x[::2, 1::2] = (a + b + d + e) / 2, (a + b - d - e) / 2
    x[1::2, ::2], x[1::2, 1::2] = (a - b + d - e) / 2, (a - b - d + e) / 2
    return x


def regulariser(kind, g, shape, size, quad):
    """(operator of the package, reference prox, reference value)."""
    from modopt.opt import proximity as P
    from modopt.opt.linear import Identity, WaveletTransform
    w = g.uniform(0.02, 0.5, size=shape) * size
    u = g.uniform(0.02, 0.5, size=shape) * quad
    if kind == "identity":
        return P.IdentityProx(), lambda x, t: x, lambda x: 0.0
    if kind == "positive":
        return P.Positivity(), lambda x, t: np.maximum(x.real, 0), lambda x: 0.0
    if kind == "l1":
        return (P.SparseThreshold(Identity(), w), lambda x, t: soft(x, t * w), lambda x: np.sum(w * np.abs(x)))
    if kind == "ridge":
        return (P.Ridge(Identity(), u), lambda x, t: x / (1 + 2 * t * u), lambda x: np.sum(u * np.abs(x) ** 2))
    if kind == "elastic":
        return (P.ElasticNet(Identity(), u, w), lambda x, t: soft(x, t * w) / (1 + 2 * t * u),
                lambda x: np.sum(u * np.abs(x) ** 2 + w * np.abs(x)))
    if kind == "group":
        v = w[0]

        def gp(x, t):
            n = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
            return x * np.where(n > t * v, 1 - t * v / np.where(n > 0, n, 1), 0)
        return P.GroupLASSO(v), gp, lambda x: np.sum(v * np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
    if kind == "owl":
        o = np.sort(w.ravel())[::-1]
        return (P.OrderedWeightedL1Norm(o), lambda x, t: owl_prox(x, t * o),
                lambda x: np.sum(o * np.sort(np.abs(x).ravel())[::-1]))
    if kind == "lowrank":
        s = 0.6 * size

        def lp(x, t):
            a, b, c = np.linalg.svd(x.reshape(x.shape[0], -1), full_matrices=False)
            return ((a * np.maximum(b - t * s, 0)) @ c).reshape(x.shape)
        return (P.LowRankMatrix(s, thresh_type="soft"), lp,
                lambda x: s * np.sum(np.linalg.svd(x.reshape(x.shape[0], -1), compute_uv=False)))
    if kind == "ksupport":
        k, b = int(g.integers(1, int(np.prod(shape)) + 1)), float(g.uniform(0.1, 1.0)) * quad
        return P.KSupportNorm(b, k), lambda x, t: ksup_prox(x, t * b, k), None
    if kind == "compos":
        c = 0.2 * size
        return (P.LinearCompositionProx(WaveletTransform("haar", shape, level=1), P.SparseThreshold(Identity(), c)),
                lambda x, t: ihaar(soft(haar(x), t * c)), lambda x: c * np.sum(np.abs(haar(x))))
    raise ValueError(kind)


# ---------------------------------------------------------------- plans
def gen(rng, tier, i):
    s = rng.choice(["FB", "FISTA", "FISTA", "FISTA", "GenFB", "GenFB", "POGM", "Condat", "Condat", "Vanilla", "Momentum"])
    shape = rng.choice([[3], [4], [6], [2, 3], [3, 2], [4, 4], [2, 2, 2]] * 8 + [[40], [70], [9, 8], [3, 5, 5]])
    cplx = rng.random() < 0.25 and s != "Condat"
    kinds = ["identity", "l1", "ridge", "elastic"] + ([] if cplx else ["positive"])
    if len(shape) > 1:
        kinds += ["group"]
    if s in ("FB", "FISTA", "POGM", "Vanilla"):
        kinds += ["ksupport"] + ([] if cplx or len(shape) > 1 else ["owl", "owl"])
        if shape == [4, 4]:
            kinds += ["compos", "compos"]
        if len(shape) == 3:
            kinds += ["lowrank", "lowrank"]
    opt = {}
    if s == "Momentum":
        kinds = ["identity"]
        opt = {"eta": rng.uniform(0.3, 1.0), "beta": rng.choice([0.0, 0.3, 0.6]), "epoch": rng.choice([1, 2, 50])}
    elif s == "Vanilla":
        opt = {"eta": rng.uniform(0.5, 1.6), "epoch": 1}
    elif s == "FB":
        opt = {"beta": rng.uniform(0.4, 1.3), "lambda": rng.uniform(0.5, 1.1)}
        if rng.random() < 0.4:
            opt["update"] = [rng.uniform(0.4, 1.2), rng.uniform(0.5, 1.1)]
    elif s == "FISTA":
        opt = {"beta": rng.uniform(0.5, 1.0)}
        st = rng.choice([None, None, "adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy"])
        if st:
            opt["restart"] = {"restart_strategy": st, "xi_restart": rng.uniform(0.3, 0.96)}
            if st == "greedy":
                opt["beta"] = rng.uniform(1.0, 1.25)
                opt["restart"].update(min_beta=1.0, s_greedy=rng.uniform(1.1, 3.0))
        if st is None and rng.random() < 0.4:
            opt["lazy"] = rng.choice([{"a_cd": rng.choice([3, 5, 20])}, {"p_lazy": 1 / 30, "q_lazy": 1 / 10, "r_lazy": 4},
                                      {"p_lazy": 0.5, "q_lazy": 1.0, "r_lazy": 3.9}])
    elif s == "GenFB":
        k = rng.randint(1, 3)
        w = rng.choice({1: [[1.0]], 2: [[0.25, 0.75], [0.625, 0.375]], 3: [[0.25, 0.25, 0.5], [0.5, 0.375, 0.125]]}[k])
        if k > 1:   # the sum with a group norm may converge sublinearly
            kinds = [q for q in kinds if q != "group"]
        opt = {"gamma": rng.uniform(0.5, 1.3), "lambda": rng.uniform(0.6, 1.0), "k": k,
               "weights": None if rng.random() < 0.5 else w}
    elif s == "POGM":
        opt = {"beta": rng.uniform(0.6, 1.0), "sigma_bar": rng.choice([0.0, 0.5, 0.96, 1.0])}
    elif s == "Condat":
        kinds = ["identity", "positive"]   # documented: its primal operator gets no step size
        opt = {"rho": rng.uniform(0.5, 1.1), "sigma": rng.uniform(0.2, 1.0), "m": rng.randint(1, min(6, int(np.prod(shape)))), "share": rng.uniform(0.5, 0.95),
               "reweight": rng.random() < 0.25}
    plan = {"solver": s, "shape": shape, "complex": cplx, "seed": rng.randrange(1 << 30), "opt": opt,
            "kinds": [rng.choice(kinds) for _ in range(opt.get("k", 1))],
            "size": rng.choice([1.0, 1.0, 1e-3, 1e3, 30.0]), "gain": rng.choice([1.0, 1.0, 0.1, 7.0]),
            "cost": rng.choice(["auto", "own", "own", None]), "metric": rng.random() < 0.3,
            "verbose": rng.random() < 0.1}
    plan["early"] = plan["metric"] and rng.random() < 0.5
    if s == "Condat" and opt["m"] > 1 and not opt["reweight"] and rng.random() < 0.4:
        # several linear operators side by side; their combined cost is not defined on the primal variable
        cuts = sorted(rng.sample(range(1, opt["m"]), min(rng.randint(1, 2), opt["m"] - 1)))
        opt["combo"], plan["cost"] = cuts, None
    roles = ["op", "trans", "prox"] + (["lop", "ladj", "dual"] if s == "Condat" else [])
    ev = []
    for _ in range(rng.randint(1, 5)):
        e = {"n": rng.choice([1, 2, 3, 7, 15])}
        k = rng.random()
        if k < 0.4:
            e["fault"] = [rng.choice(roles + ["cost"]), rng.choice([0, 0, 1, 2, 5]), rng.choice(EXC_NAMES)]
        elif k < 0.7:
            e["noise"] = [rng.choice(roles), rng.randint(0, 3), rng.choice([0.1, 1.0, 10.0])]
        if rng.random() < 0.2:
            e["clock"] = rng.choice([-3600.0, 0.5, 86400.0])
        ev.append(e)
    plan["events"] = ev
    plan["segs"] = rng.choice([[1000], [1000], [50, 100], [7], [1, 1000], [20, 1, 3, 100]])
    return plan


# ---------------------------------------------------------------- runs
class World:
    """The user's operators, their failures and transient errors."""

    def __init__(self, plan, ctx):
        self.ctx = ctx
        g = self.g = nprng("c30", plan["seed"])
        n = self.n = int(np.prod(plan["shape"]))

        def ortho(k):
            a = g.normal(size=(k, k)) + (1j * g.normal(size=(k, k)) if plan["complex"] else 0)
            return np.linalg.qr(a)[0]

        self.H = plan["gain"] * (ortho(n) * g.uniform(0.6, 1.0, size=n)) @ ortho(n)
        self.L = float(np.linalg.norm(self.H, 2) ** 2)
        size = plan["size"] / plan["gain"]
        x0 = g.normal(size=n) + (1j * g.normal(size=n) if plan["complex"] else 0)
        self.truth = x0 * (g.random(n) < 0.7) * size
        self.b = self.H @ self.truth + 0.1 * plan["size"] * g.normal(size=n)
        self.scale = size
        self.fault = self.noise = None
        self.raised = None
        self.applied = 0

    def wrap(self, role, f):
        def call(*a, **k):
            if role == "op":
                self.applied += 1
            if self.fault and self.fault[0] == role:
                if self.fault[1] == 0:
                    self.raised = EXC[self.fault[2]](f"injected in {role}")
                    self.ctx.fault(f"{role}-raises-{self.fault[2]}")
                    self.fault = None
                    raise self.raised
                self.fault[1] -= 1
            r = f(*a, **k)
            if self.noise and self.noise[0] == role and role != "cost":
                if self.noise[1] == 0:
                    m = self.noise[2]
                    self.noise = None
                    self.ctx.fault(f"{role}-transient-error")
                    return r + m * np.linalg.norm(r) * self.g.normal(size=np.shape(r)) / np.sqrt(np.size(r))
                self.noise[1] -= 1
            return r
        return call


def build(plan, world):
    from modopt.opt import algorithms as alg
    from modopt.opt.cost import costObj
    from modopt.opt.gradient import GradBasic
    from modopt.opt.linear import Identity, LinearParent
    s, opt, sh = plan["solver"], plan["opt"], tuple(plan["shape"])
    H, L = world.H, world.L
    g = nprng("c30p", plan["seed"])
    dt = complex if plan["complex"] else float
    op = world.wrap("op", lambda x: (H @ np.asarray(x).ravel()).reshape(sh))
    tr = world.wrap("trans", lambda y: (H.conj().T @ np.asarray(y).ravel()).reshape(sh))
    grad = GradBasic(world.b.reshape(sh).astype(dt), op, tr, input_data_writeable=bool(plan["seed"] % 2), verbose=plan["verbose"])
    gain2 = plan["gain"] ** 2
    regs = [regulariser(k, g, sh, world.scale * gain2, gain2) for k in plan["kinds"]]
    for p, _, _ in regs:
        p.op = world.wrap("prox", p.op)
    kw = {"auto_iterate": False, "verbose": plan["verbose"]}
    parts = [grad] + [r[0] for r in regs]
    if plan["metric"]:
        kw["metrics"] = {"m": {"metric": lambda x: float(np.linalg.norm(x)), "mapping": {"x_new": "x"}, "cst_kwargs": {},
                               "early_stopping": plan["early"]}}
        kw["metric_call_period"] = 2
        if s in ("FB", "FISTA", "GenFB", "POGM"):
            kw["linear"] = Identity()
    start = (g.normal(size=sh) * world.scale * 3).astype(dt)
    world.start = np.array(start)
    own = None
    if s == "Condat":
        m = opt["m"]
        r = min(m, world.n)
        A = np.linalg.qr(g.normal(size=(m, r)))[0] * g.uniform(0.5, 1.0, size=r) @ np.linalg.qr(g.normal(size=(world.n, r)))[0].T
        w = g.uniform(0.02, 0.4, size=m) * world.scale * gain2
        world.A, world.w = A, w
        from modopt.opt.proximity import SparseThreshold
        lin = LinearParent(world.wrap("lop", lambda x: A @ np.asarray(x).ravel()),
                           world.wrap("ladj", lambda y: (A.T @ np.asarray(y)).reshape(sh)))
        plain = LinearParent(lambda x: A @ np.asarray(x).ravel(), lambda y: (A.T @ np.asarray(y)).reshape(sh))
        dual = SparseThreshold(plain, np.array(w))
        dual.op = world.wrap("dual", dual.op)
        world.dual = dual
        world.y0 = np.zeros(m)
        if "combo" in opt:
            from modopt.opt.linear import LinearCombo
            from modopt.opt.proximity import ProximityCombo
            rows = np.split(np.arange(m), opt["combo"])
            lin = LinearCombo([LinearParent(world.wrap("lop", lambda x, q=q: A[q] @ np.asarray(x).ravel()),
                                            world.wrap("ladj", lambda y, q=q: (A[q].T @ np.asarray(y)).reshape(sh))) for q in rows],
                              weights=[1.0] * len(rows))
            duals = [SparseThreshold(Identity(), np.array(w[q])) for q in rows]
            for d in duals:
                d.op = world.wrap("dual", d.op)
            dual = ProximityCombo(duals)
            world.y0 = np.empty(len(rows), dtype=object)
            for j, q in enumerate(rows):
                world.y0[j] = np.zeros(len(q))
        parts.append(dual)
        world.prox_dual = dual
    if plan["cost"] == "own":
        own = costObj(parts, tolerance=1e-6, verbose=False)
        own.get_cost = world.wrap("cost", own.get_cost)
        kw["cost"] = own
    elif plan["cost"] is None:
        kw["cost"] = None
    world.cost = own
    world.regs = regs
    if s in ("FB", "FISTA"):
        kw["beta_param"] = opt["beta"] / L
        if s == "FB":
            kw.update(lambda_param=opt["lambda"], lambda_update=None)
            if "update" in opt:
                b, lm = opt["update"]
                kw.update(beta_update=lambda v: v + 0.3 * (b / L - v), lambda_update=lambda v: v + 0.3 * (lm - v))
        else:
            r = dict(opt.get("restart", {}))
            if "min_beta" in r:
                r["min_beta"] = r["min_beta"] / L
            kw.update(r, **opt.get("lazy", {}))
        return alg.ForwardBackward(start, grad, regs[0][0], **kw)
    if s == "GenFB":
        return alg.GenForwardBackward(start, grad, [r[0] for r in regs], gamma_param=opt["gamma"] / L, lambda_param=opt["lambda"],
                                      weights=opt["weights"], **kw)
    if s == "POGM":
        return alg.POGM(u=start, x=start, y=start, z=start, grad=grad, prox=regs[0][0], beta_param=opt["beta"] / L,
                        sigma_bar=opt["sigma_bar"], **kw)
    if s == "Condat":
        na = float(np.linalg.norm(world.A, 2) ** 2)
        sigma = opt["sigma"] * L / na
        tau = opt["share"] / (L / 2 + sigma * na)
        if opt["reweight"]:
            from modopt.opt.reweight import cwbReweight
            kw["reweight"] = cwbReweight(world.dual.weights)
            world.dual.weights = kw["reweight"].weights
        return alg.Condat(start, world.y0, grad, regs[0][0], world.prox_dual, lin, rho=opt["rho"], sigma=sigma, tau=tau, **kw)
    kw.pop("cost", None)
    if "ADMM" in s:
        # min 1/2 |Hu - b|^2 + g(v) subject to u = v, with the documented sub-problems; generated by no plan
        # (known finding), kept to show what fails
        t = opt["tau"] * L
        inv = np.linalg.inv(H.conj().T @ H + t * np.eye(world.n))
        cls = alg.ADMM if s == "ADMM" else alg.FastADMM
        return cls(start, start, np.zeros(sh), Identity(), LinearParent(lambda x: -x, lambda x: -x), np.zeros(sh),
                   (world.wrap("op", lambda init, obs: (inv @ (H.conj().T @ world.b + t * np.ravel(obs))).reshape(sh)),
                    lambda init, obs: regs[0][0].op(-obs, extra_factor=1 / t)), tau=t)
    cls = alg.VanillaGenericGradOpt if s == "Vanilla" else alg.MomentumGradOpt
    c = own if plan["cost"] == "own" else None
    if s == "Momentum":
        kw["beta"] = opt["beta"]
        eta = opt["eta"] * (1 - opt["beta"])
    else:
        eta = opt["eta"]
    return cls(start, grad, regs[0][0], c, eta=eta / L, epoch_size=opt["epoch"], **kw)


def minimiser(plan, world):
    H, b, L, sh = world.H, world.b, world.L, tuple(plan["shape"])
    if plan["solver"] == "Condat":
        from scipy.optimize import lsq_linear
        w = np.asarray(world.final_weights)
        cols, lo, hi = [world.A.T], [-w], [w]
        k = plan["kinds"][0]
        if k == "positive":
            cols.append(np.eye(world.n))
            lo.append(np.full(world.n, -np.inf))
            hi.append(np.zeros(world.n))
        C = np.hstack(cols)
        nb = np.linalg.norm(b)
        u = nb * np.sqrt(L)
        lo, hi = np.concatenate(lo) / u, np.concatenate(hi) / u
        r = lsq_linear(np.linalg.solve(H.T, C) * np.sqrt(L), b / nb, (lo, hi), method="bvls", tol=1e-15, max_iter=2000)
        return np.linalg.solve(H.T @ H, H.T @ b - C @ (r.x * u)).reshape(sh)
    proxes = [r[1] for r in world.regs]
    x = np.array(world.start)
    if len(proxes) == 1:
        t = 1 / L
        for _ in range(400):
            g = (H.conj().T @ (H @ x.ravel() - b)).reshape(sh)
            x = proxes[0](x - t * g, t)
        return x
    # consensus form of the problem: Douglas-Rachford on the product space
    n = len(proxes)
    t = 1 / L
    M = np.linalg.inv(np.eye(world.n) + t * H.conj().T @ H)
    hb = t * H.conj().T @ b
    fs = [lambda v, t: (M @ (v.ravel() + hb)).reshape(sh)] + proxes
    z = [np.array(x) for _ in range(n + 1)]
    for _ in range(1500):
        x = sum(z) / (n + 1)
        z = [zi + f(2 * x - zi, t) - x for zi, f in zip(z, fs)]
    return sum(z) / (n + 1)


def run(plan, ctx):
    R.silence()
    world = World(plan, ctx)
    s = plan["solver"]
    with np.errstate(all="ignore"):
        solver = build(plan, world)
        sig = [s, plan["kinds"], plan["cost"], sorted(plan["opt"])]

        def call(n, faults=True):
            n0 = world.applied
            world.raised = None
            kw = {}
            if s == "Condat":
                kw["n_rewightings"] = 1 if plan["opt"]["reweight"] and faults else 0
            try:
                solver.iterate(max_iter=n, **kw)
            except BaseException as e:  # noqa: BLE001
                if world.raised is None or not (e is world.raised or R._chained(e, world.raised)):
                    raise
                return "raised", world.applied - n0
            if world.raised is not None:
                ctx.violate("error-swallowed", f"{world.raised!r} did not reach the caller of iterate")
            return "returned", world.applied - n0

        for e in plan["events"]:
            world.fault = list(e["fault"]) if "fault" in e else None
            world.noise = list(e["noise"]) if "noise" in e else None
            if "clock" in e:
                boot.CLOCK.jump(e["clock"])
                ctx.fault("clock-jump")
            how, k = call(e["n"])
            sig.append((e["n"], how, k))
            ctx.log("disturbed", e["n"], how, k)
        world.fault = world.noise = None
        if s == "Condat":
            world.final_weights = np.array(world.dual.weights)
        best = minimiser(plan, world)
        ref = max(np.linalg.norm(best), np.linalg.norm(world.b) / np.sqrt(world.L))
        done, calls, err = 0, 0, np.inf
        for _ in range(ROUNDS):
            until = done + NEED[s]
            while done < until:
                n = min(plan["segs"][calls % len(plan["segs"])], until - done)
                how, k = call(n, faults=False)
                calls += 1
                done += min(n, k)
                if k == 0:
                    ctx.violate("no-progress", f"{s}: iterate({n}) performed no iteration")
            x = np.asarray(solver.x_final)
            err = np.linalg.norm(x - best) / ref
            if err <= TOL:
                break
            ctx.probe("extra-rounds")
        sig.append(calls)
        if not err <= TOL:
            ctx.violate("not-the-minimiser",
                        f"{s} with {plan['kinds']}: {done} undisturbed iterations end at {np.ravel(x)[:4]}, "
                        f"relative distance {err:.2g} from the minimiser {np.ravel(best)[:4]}")
        if world.cost is not None and not plan["early"] and all(r[2] for r in world.regs) \
                and ("owl" not in plan["kinds"] or plan.get("owl_cost")):   # known finding
            f = 0.5 * np.linalg.norm(world.H @ best.ravel() - world.b) ** 2 + sum(r[2](best) for r in world.regs)
            if s == "Condat":
                f += np.sum(world.final_weights * np.abs(world.A @ best.ravel()))
            got = float(world.cost.cost)
            top = 0.5 * np.linalg.norm(world.b) ** 2
            if not abs(got - f) <= 1e-3 * top:
                ctx.violate("cost-at-minimiser", f"{s} with {plan['kinds']}: the cost at the minimiser is {got:.8g}, the problem has {f:.8g}")
            ctx.probe("costs-compared")
        ctx.state(sig)
        ctx.probe("solver:" + s)
        for k in plan["kinds"]:
            ctx.probe("with:" + k)
        ctx.probe("iterations", done)
        if os.environ.get("C30DBG"):
            with boot.SEAMS["real_open"]("/tmp/c30dbg", "a") as fh:
                fh.write(f"{done/NEED[s]} {err:.3e} {s} {plan['kinds']} {plan['opt']} {plan['size']} {plan['gain']}\n")


