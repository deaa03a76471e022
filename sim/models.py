"""Reference models of the solvers: the documented recursions, written plainly.

Each model yields, phase by phase, the operator evaluations one iteration needs
(requests within a phase are independent of each other and may come in any
order), receives the answers, and finally commits its state.  An iteration
whose generator is dropped half-way leaves the state untouched.
"""
import numpy as np

from .core import Discard

TIE = 1e-9


class Req:
    __slots__ = ("role", "x", "factor", "resp", "answered")

    def __init__(self, role, x, factor=None):
        self.role = role
        self.x = x
        self.factor = factor
        self.resp = None
        self.answered = False


def _nrm(*vs):
    return float(sum(np.linalg.norm(np.ravel(v)) for v in vs))


def _sign_test(a, b, strict_negative, sa, sb):
    """Re<a, b> >= 0 (or < 0); near ties cannot be decided from outside.

    sa and sb are the sizes of the terms a and b were computed from: a
    difference is only known up to rounding of its terms.
    """
    v = np.real(np.vdot(a, b))
    na, nb = _nrm(a), _nrm(b)
    if not (np.isfinite(na) and np.isfinite(nb) and np.isfinite(sa) and np.isfinite(sb)):
        raise Discard("non-finite inner product")
    ea, eb = 1e-12 * sa, 1e-12 * sb
    tol = TIE * na * nb + ea * nb + eb * na + ea * eb
    if tol > 0 and abs(v) <= tol:
        raise Discard("inner product near zero")
    return (v < 0) if strict_negative else (v >= 0)


def _geq(a, b):
    if abs(a - b) <= TIE * max(abs(a), abs(b)) and not (a == 0 and b == 0):
        raise Discard("comparison near tie")
    return a >= b


def upd(name):
    """Parameter update rules offered to the solvers (plan name -> callable)."""
    if name is None:
        return None
    kind, arg = name
    return {
        "decay": lambda v: v * arg,
        "toward": lambda v: v + 0.5 * (arg - v),
        "const": lambda v: arg,
        "same": lambda v: v,
    }[kind]


class FB:
    def __init__(self, c, x0):
        p = c["params"]
        self.x = x0.copy()
        self.z = x0.copy()
        self.beta = p["beta"]
        self.lam = p["lambda"]
        self.fista = p.get("fista")
        self.beta_update = upd(p.get("beta_update"))
        self.lambda_update = upd(p.get("lambda_update"))
        if self.fista is not None:
            f = self.fista
            self.t = 1.0
            self.r = f.get("r_lazy", 4)
            self.p = f.get("p_lazy", 1)
            self.q = f.get("q_lazy", 1)
            self.n = 0
            self.delta0 = None
            self.safe = False

    def iteration(self, idx):
        x_old, z_old = self.x, self.z
        (g,) = yield [Req("grad", z_old)]
        y = z_old - self.beta * g
        (x,) = yield [Req("prox", y, self.beta)]
        z = x_old + self.lam * (x - x_old)
        if self.fista is not None:
            f = self.fista
            strat = f.get("restart_strategy")
            if strat is not None:
                crit = _sign_test(z_old - x, x - x_old, False, _nrm(z_old, x), 0.0)
                if crit:
                    if strat.startswith("adaptive"):
                        self.r *= f["xi_restart"]
                    if strat in ("adaptive-ii", "adaptive-2"):
                        self.t = 1.0
                    z = x.copy()
                if strat == "greedy":
                    d = np.linalg.norm(x - x_old)
                    if self.delta0 is None:
                        self.delta0 = f["s_greedy"] * d
                    else:
                        self.safe = _geq(d, self.delta0)
            if self.safe:
                self.beta = max(self.beta * f["xi_restart"], f["min_beta"])
            if strat == "greedy":
                self.lam = 2
            else:
                t_prev = self.t
                if f.get("a_cd") is not None:
                    self.t = (self.n + f["a_cd"] - 1) / f["a_cd"]
                    self.n += 1
                else:
                    self.t = (self.p + np.sqrt(self.r * t_prev**2 + self.q)) / 2
                self.lam = 1 + (t_prev - 1) / self.t
        else:
            if self.beta_update:
                self.beta = self.beta_update(self.beta)
            if self.lambda_update:
                self.lam = self.lambda_update(self.lam)
        self.x, self.z = x, z
        self.visible = {"x_new": x, "z_new": z}
        self.final = {"x_final": z}
        self.cost_args = (x,)


class GenFB:
    def __init__(self, c, x0):
        p = c["params"]
        self.x = x0.copy()
        n = p["n_prox"]
        self.w = p.get("weights") or [1.0 / n] * n
        self.z = [x0.copy() for _ in range(n)]
        self.gamma = p["gamma"]
        self.lam = p["lambda"]
        self.gamma_update = upd(p.get("gamma_update"))
        self.lambda_update = upd(p.get("lambda_update"))

    def iteration(self, idx):
        x_old = self.x
        (g,) = yield [Req("grad", x_old)]
        reqs = [
            Req(f"prox{i}", 2 * x_old - z - self.gamma * g, self.gamma / w)
            for i, (z, w) in enumerate(zip(self.z, self.w))
        ]
        px = yield reqs
        self.z = [z + self.lam * (p - x_old) for z, p in zip(self.z, px)]
        self.x = sum(w * z for w, z in zip(self.w, self.z))
        if self.gamma_update:
            self.gamma = self.gamma_update(self.gamma)
        if self.lambda_update:
            self.lam = self.lambda_update(self.lam)
        self.visible = {"x_new": self.x, "z_new": np.array(self.z)}
        self.final = {"x_final": self.x}
        self.cost_args = (self.x,)


class POGM:
    def __init__(self, c, u, x, y, z):
        p = c["params"]
        self.u, self.x, self.y, self.z = u.copy(), x.copy(), y.copy(), z.copy()
        self.beta = p["beta"]
        self.sbar = p["sigma_bar"]
        self.xi = 1.0
        self.sigma = 1.0
        self.t = 1.0
        self.g = None
        self.sg = self.sy = 0.0

    def init_requests(self):
        return [Req("grad", self.x)]

    def init_done(self, resp):
        self.g = resp[0]

    def iteration(self, idx):
        x_old = self.x
        (df,) = yield [Req("grad", x_old)]
        u = x_old - self.beta * df
        t = (1 + np.sqrt(1 + 4 * self.t**2)) / 2
        a = (self.t - 1) / t
        s = self.sigma * self.t / t
        z = (u + a * (u - self.u) + s * (u - x_old)
             + self.beta * a / self.xi * (self.z - x_old))
        xi = self.beta * (1 + a + s)
        (x,) = yield [Req("prox", z, xi)]
        g = df - (x - z) / xi
        y = x_old - self.beta * g
        sigma = self.sigma
        sg = _nrm(df) + _nrm(x, z) / abs(xi)
        sy = _nrm(x_old) + self.beta * sg
        if _sign_test(-g, y - self.y, True, sg, sy + self.sy):
            t = 1
            sigma = 1
        elif _sign_test(g, self.g, True, sg, self.sg):
            sigma = sigma * self.sbar
        self.u, self.x, self.y, self.z = u, x, y, z
        self.g, self.t, self.sigma, self.xi = g, t, sigma, xi
        self.sg, self.sy = sg, sy
        self.visible = {"u_new": u, "x_new": x, "y_new": y, "z_new": z, "xi": xi,
                        "sigma": sigma, "t": t}
        self.final = {"x_final": x}
        self.cost_args = (x,)


class Condat:
    def __init__(self, c, x, y):
        p = c["params"]
        self.x, self.y = x.copy(), y.copy()
        self.rho, self.sigma, self.tau = p["rho"], p["sigma"], p["tau"]
        self.ru, self.su, self.tu = (upd(p.get(k)) for k in
                                     ("rho_update", "sigma_update", "tau_update"))

    def iteration(self, idx):
        g, aty = yield [Req("grad", self.x), Req("ladj", self.y)]
        (xp,) = yield [Req("prox", self.x - self.tau * g - self.tau * aty, None)]
        (lx,) = yield [Req("lop", 2 * xp - self.x)]
        yt = self.y + self.sigma * lx
        (pd,) = yield [Req("prox_dual", yt / self.sigma, 1.0 / self.sigma)]
        yp = yt - self.sigma * pd
        self.x = self.rho * xp + (1 - self.rho) * self.x
        self.y = self.rho * yp + (1 - self.rho) * self.y
        if self.ru:
            self.rho = self.ru(self.rho)
        if self.su:
            self.sigma = self.su(self.sigma)
        if self.tu:
            self.tau = self.tu(self.tau)
        self.visible = {"x_new": self.x, "y_new": self.y}
        self.final = {"x_final": self.x, "y_final": self.y}
        self.cost_args = (self.x, self.y)


class Grad:
    def __init__(self, c, x0):
        p = c["params"]
        self.kind = c["solver"]
        self.x = x0.copy()
        self.eta = p["eta"]
        self.eps = p["epsilon"]
        self.epoch = p.get("epoch_size", 1)
        self.eta_update = eta_upd(p.get("eta_update"))
        self.m = np.zeros_like(x0)
        self.s = np.zeros(x0.shape)
        self.gamma = p.get("gamma")
        self.beta = p.get("mbeta")
        self.bp = self.gp = 1.0
        if self.kind in ("Vanilla", "Momentum"):
            self.s = 1.0
            self.eps = 0
        if self.kind == "SAGA":
            self.mem = [np.zeros_like(x0) for _ in range(self.epoch)]

    def iteration(self, idx):
        (g,) = yield [Req("grad", self.x)]
        m, s, bp, gp, mem = self.m, self.s, self.bp, self.gp, None
        k = self.kind
        if k == "Momentum":
            m = self.beta * m + g
        elif k == "ADAM":
            bp = bp * self.beta
            m = (self.beta * m + (1 - self.beta) * g) / (1 - bp)
        elif k == "SAGA":
            cyc = idx % self.epoch
            m = m - self.mem[cyc] + g
            mem = list(self.mem)
            mem[cyc] = g
        else:
            m = g
        if k == "Ada":
            s = s + np.abs(g) ** 2
        elif k == "RMSprop":
            s = self.gamma * s + (1 - self.gamma) * np.abs(g) ** 2
        elif k == "ADAM":
            gp = gp * self.gamma
            s = (self.gamma * s + (1 - self.gamma) * np.abs(g) ** 2) / (1 - gp)
        step = self.eta / (np.sqrt(s) + self.eps)
        x = self.x - step * m
        if idx % self.epoch == 0:
            if k == "Momentum":
                m = np.zeros_like(x)
            (x,) = yield [Req("prox", x, step)]
        self.x, self.m, self.s, self.bp, self.gp = x, m, s, bp, gp
        if mem is not None:
            self.mem = mem
        if self.eta_update:
            self.eta = self.eta_update(self.eta, idx)
        self.visible = {"x_new": x, "dir_grad": m, "speed_grad": s}
        self.final = {"x_final": x}
        self.cost_args = (x,)


def eta_upd(name):
    if name is None:
        return None
    kind, arg = name
    return {
        "decay": lambda v, idx: v * arg,
        "inv": lambda v, idx: v / (1.0 + arg * idx),
        "same": lambda v, idx: v,
    }[kind]


class CostWindow:
    """Convergence test of a cost object on non-overlapping windows."""

    def __init__(self, size, tol, tie=1e-9):
        self.size = size
        self.tol = tol
        self.tie = tie
        self.vals = []

    def add(self, v):
        self.vals.append(v)
        if len(self.vals) < self.size:
            return False
        w, self.vals = self.vals, []
        return window_converged(w, self.tol, self.tie)


def window_converged(w, tol, tie=1e-9):
    with np.errstate(all="ignore"):
        h = len(w) // 2
        early, late = np.mean(np.array(w[:h])), np.mean(np.array(w[h:]))
        if np.isfinite(late):
            if late != 0 and abs(late) < 1e-14:
                raise Discard("mean near the rounding limit")
            if late == 0 and any(v != 0 for v in w[h:]):
                raise Discard("mean cancels")
        d = np.float64(0.0) if late == 0 else abs(late - early) / abs(late)
        if np.isfinite(d) and abs(d - tol) <= tie * max(abs(d), abs(tol)) and d != tol:
            raise Discard("change near the tolerance")
        if d == tol and d != 0:
            raise Discard("change equals the tolerance")
        return bool(d <= tol)


def metric_flag(vals, size=6, eps=1e-3):
    """Early-stopping test of a metric history; None while the window is short."""
    if len(vals) < size:
        return None
    with np.errstate(all="ignore"):
        w = vals[-size:]
        h = size // 2
        old, cur = np.mean(np.array(w[:h])), np.mean(np.array(w[h:]))
        if np.isfinite(old) and old == 0 and any(v != 0 for v in w[:h]):
            raise Discard("mean cancels")
        d = np.abs(old - cur) / np.abs(old)
        if np.isfinite(d) and abs(d - eps) <= 1e-9 * eps:
            raise Discard("change near the tolerance")
        return bool(d < eps)
