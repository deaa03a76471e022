"""C19: a missing or failing compute backend degrades safely."""
import io
import json
import sys
import warnings

import numpy as np

from .. import boot, device
from .. import rig as R
from ..core import close, nprng

ID = "C19"
BUDGET = {"quick": (2000, 240), "thorough": (50000, 1500)}
RULE = ("a run counts if the package was imported against the simulated libraries and at least one selection, "
        "conversion or solver was compared with the default backend; distinct plans counted once")
STATE_MEASURE = "installed libraries x sequence of (operation, backend, fault, outcome)"
REAL = "the whole package, imported anew for each set of installed libraries"
STUB = "cupy and tensorflow (array type of their own on NumPy, implicit conversion refused, transfers that fail), operators"
ASSUME = ["the simulated libraries follow CuPy's documented rules: no implicit conversion, no mixing with NumPy arrays",
          "solvers other than forward-backward are given device arrays; gradient descent and generalised "
          "forward-backward solvers are only run on the default backend (the package documents partial support)",
          "allocations fail during transfers and in operators, not in the solver's own arithmetic"]
KEEP = ("shape", "libs")
NAMES = ["cupy", "cupy", "cupy", "tensorflow", "numpy", "jax", "CUPY", ""]
DEVS = ["FB", "FB", "FB", "POGM", "Condat", "ADMM", "FastADMM"]


def gen(rng, tier, i):
    libs = {"cupy": rng.choice(["ok", "ok", "absent", "broken"]), "tensorflow": rng.choice(["ok", "absent", "absent", "broken"])}
    ops = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["select", "convert", "convert", "convert", "solve", "power", "device", "device", "device", "thresh"])
        o = {"op": k, "name": rng.choice(NAMES)}
        if k in ("convert", "thresh"):
            o.update(src=rng.choice(["numpy", "cupy", "tensorflow"]), seed=rng.randrange(99), shape=rng.choice([[3], [2, 3], [0], [1], []] * 3 + [[12, 11], [1100]]),
                     dtype=rng.choice(["f8", "f4", "c16", "i8", "b"]), default=rng.random() < 0.2,
                     fail=rng.choice([None, None, 0, 1, 2]), back=rng.random() < 0.6)
        elif k == "solve":
            cfg = R.gen_solver(rng, styles=False, real=0.3)
            cfg["buffers"] = "fresh"
            roles = R.roles_of(cfg["solver"], cfg["params"])
            if rng.random() < 0.3 and "ADMM" not in cfg["solver"]:
                cfg["cost"] = {"kind": "real", "tol": rng.choice([1e-2, -1.0])}
            o.update(cfg=cfg, n=rng.randint(1, 8), name=rng.choice(["cupy", "tensorflow", "jax", "CUPY", "Numpy"]), roles=len(roles))
        elif k == "power":
            o.update(seed=rng.randrange(99), n=rng.randint(2, 5), fail=rng.choice([None, None, 0, 3]), iters=rng.choice([1, 5, 20]))
        elif k == "device":
            s = rng.choice(DEVS)
            p = R.gen_params(rng, s)
            o.update(solver=s, params=p, seed=rng.randrange(99), host=s == "FB" and rng.random() < 0.6, n=rng.randint(1, 8), name="cupy",
                     fail=rng.choice([None, None, 0, 1]), faults=R.gen_faults(rng, R.roles_of(s, p), 8, count=rng.choice([0, 0, 1, 2])),
                     cost=s not in ("ADMM", "FastADMM") and rng.random() < 0.5, tol=rng.choice([-1.0, 0.3]), shape=rng.choice([[4], [2, 3]] * 6 + [[12, 11]]))
        ops.append(o)
    return {"libs": libs, "ops": ops}


def simpler(plan):
    for j, o in enumerate(plan["ops"]):
        for k in ("fail",):
            if o.get(k) is not None:
                yield dict(plan, ops=[dict(q, **{k: None}) if n == j else q for n, q in enumerate(plan["ops"])])


class DeviceRun:
    """One solver whose operators compute on whatever library their argument is from."""

    def __init__(self, o, ctx, arr, faults=()):
        self.o, self.ctx, self.arr = o, ctx, arr
        self.faults = {(f["role"], f["n"]) for f in faults}
        self.calls = {}
        self.raised = None
        g = nprng("c19", o["seed"])
        n = int(np.prod(o["shape"]))
        q = g.normal(size=(n, n)) / np.sqrt(n)
        self.host = {"H": q.T @ q / (1 + np.linalg.norm(q, 2) ** 2), "L": g.normal(size=(n, n)) / np.sqrt(n),
                     "c": g.normal(size=n), "w": np.abs(g.normal(size=tuple(o["shape"]))) * 0.2}
        self.init = [g.normal(size=tuple(o["shape"])) for _ in range(4)]
        self.m = {k: arr(v.copy()) if arr else v for k, v in self.host.items()}

    def op(self, role, fn):
        def f(x, *a, **k):
            if self.arr is not None and not isinstance(x, self.arr):
                self.ctx.violate("not-on-device", f"{self.o['solver']}: {role} was given {type(x).__name__}, not an array of the backend")
            n = self.calls.get(role, 0)
            self.calls[role] = n + 1
            if (role, n) in self.faults:
                self.raised = device.OutOfMemory(f"injected in {role}")
                self.ctx.fault("operator-out-of-memory")
                raise self.raised
            r = fn(x, *a, **k)
            self.ctx.log(role, r._h if isinstance(r, device.Dev) else r)
            return r
        return f

    def build(self, backend):
        from modopt.opt import algorithms as alg
        from modopt.opt.cost import costObj
        from modopt.opt.gradient import GradParent
        from modopt.opt.linear import Identity, LinearParent
        from modopt.opt.proximity import ProximityParent, SparseThreshold

        o, m, p = self.o, self.m, self.o["params"]
        shape = tuple(o["shape"])
        lin = lambda M: (lambda x: (M @ x.ravel()).reshape(shape))  # noqa: E731
        kw = {"progress": False, "compute_backend": backend}
        s = o["solver"]
        init = self.init if (self.arr is None or o["host"]) else [self.arr(v.copy()) for v in self.init]
        if s in ("ADMM", "FastADMM"):
            A, B = (LinearParent(self.op(r, lin(m[k])), lambda x: x) for r, k in (("Aop", "H"), ("Bop", "L")))
            opt = tuple((lambda init, obs, f=self.op(r, lambda i, b, c=c: 0.5 * i + c * b): f(init, obs))
                        for r, c in (("optH", 0.3), ("optG", 0.2)))
            if s == "FastADMM":
                kw.update(eta=p["eta"], alpha=p["alpha"])
            self.solver = getattr(alg, s)(init[0], init[1], init[2], A, B, init[3], opt, tau=p["tau"], **kw)
            return self

        def get_grad(x):
            g.grad = self.op("grad", lambda x: lin(m["H"])(x - m["c"].reshape(shape)))(x)

        g = GradParent(np.zeros(shape), lambda x: x, lambda x: x, get_grad=get_grad, verbose=False,
                       cost=lambda x, *a, **k: float(((x - m["c"].reshape(shape)) ** 2).sum()))
        real = SparseThreshold(Identity(), m["w"])
        prox = ProximityParent(self.op("prox", real.op), real.cost)
        cost = costObj([g, prox], tolerance=o["tol"], verbose=False) if o["cost"] else None
        if s == "FB":
            f = p.get("fista")
            fk = {k: v for k, v in f.items() if v is not None} if f is not None else {}
            self.solver = alg.ForwardBackward(
                init[0], g, prox, cost=cost, beta_param=p["beta"], lambda_param=p["lambda"],
                lambda_update="fista" if f is not None else None, auto_iterate=False, **fk, **kw)
        elif s == "POGM":
            self.solver = alg.POGM(*init, g, prox, cost=cost, beta_param=p["beta"], sigma_bar=p["sigma_bar"], auto_iterate=False, **kw)
        else:
            pd = ProximityParent(self.op("prox_dual", lambda x, extra_factor=1.0: x * (1 / (1 + extra_factor))), lambda *a, **k: 0.0)
            L = LinearParent(self.op("lop", lin(m["L"])), self.op("ladj", lin(m["L"].T)))
            self.solver = alg.Condat(init[0], init[1], g, prox, pd, linear=L, cost=cost, rho=p["rho"], sigma=p["sigma"], tau=p["tau"],
                                     auto_iterate=False, **kw)
        return self

    def results(self):
        return {k: getattr(self.solver, k) for k in ("x_final", "y_final", "u_final", "v_final") if hasattr(self.solver, k)}


def run(plan, ctx):
    R.silence()
    np.seterr(all="ignore")
    for b in ("cupy", "tensorflow"):
        boot.SEAMS["blocker"].blocked.add(b)
    types_ = device.install(plan["libs"])
    import modopt.base.backend as B
    from modopt.math.matrix import PowerMethod
    from modopt.signal.noise import thresh

    device.STATE["on_fault"] = ctx.fault
    libs = {"numpy": np}
    for n, k in plan["libs"].items():
        ctx.fault("backend-" + k)
        if k == "ok":
            libs[n] = __import__("cupy") if n == "cupy" else __import__("tensorflow.experimental.numpy", fromlist=["x"])
    typ = {"numpy": np.ndarray, **{n: types_[n] for n in types_}}
    err = sys.stderr = io.StringIO()
    warned = []
    warnings.simplefilter("always")
    warnings.showwarning = lambda *a, **k: warned.append(a)

    def heard():
        t = err.getvalue() + "".join(str(w[0]) for w in warned)
        err.seek(0)
        err.truncate()
        warned.clear()
        return t

    def host(v):
        return v._h if isinstance(v, device.Dev) else v

    sig = [sorted(plan["libs"].items())]
    for o in plan["ops"]:
        k, name = o["op"], o["name"]
        have = name if name in libs else "numpy"
        fallback = name not in libs
        heard()
        device.STATE.update(transfers=0, fail=None, raised=None)
        what = f"{k} with backend {name!r}, installed {plan['libs']}"
        res = "ok"
        if k == "select":
            mod, nm = B.get_backend(name)
            if mod is not libs[have] or nm != have:
                ctx.violate("selection", f"{what}: got {mod} as {nm!r}")
            if bool(heard()) != fallback:
                ctx.violate("warning", f"{what}: {'no' if fallback else 'an unfounded'} warning")
        elif k in ("convert", "thresh"):
            src = o["src"] if o["src"] in libs else "numpy"
            v = nprng("c19v", o["seed"]).normal(size=tuple(o["shape"])) * 5
            v = v > 0 if o["dtype"] == "b" else (v + 1j if o["dtype"] == "c16" else v).astype(o["dtype"])
            v = np.array(v)
            x = v.copy() if src == "numpy" else typ[src](v.copy())
            what += f" from {src} {o['dtype']}{o['shape']}"
            if B.get_array_module(x) is not libs[src]:
                ctx.violate("array-module", f"{what}: array of {src} taken for {B.get_array_module(x)}")
            if k == "thresh":
                if src == "tensorflow" or o["dtype"] == "b":
                    continue
                for kind in ("soft", "hard"):
                    y = thresh(x, 1.5, kind)
                    if (src != "numpy" and not isinstance(y, typ[src])) or not close(host(y), thresh(v.copy(), 1.5, kind), 1e-12):
                        ctx.violate("values", f"{what}: {kind} thresholding gives {y!r} for {v!r}")
                sig.append((k, src))
                continue
            if o["default"]:
                name = "cupy"
                have, fallback = (name if name in libs else "numpy"), name not in libs
            attempts = 0
            device.STATE["fail"] = o["fail"]
            while True:
                attempts += 1
                try:
                    y = B.change_backend(x) if o["default"] else B.change_backend(x, name)
                    break
                except MemoryError as e:
                    res = "oom"
                    if e is not device.STATE["raised"] or attempts > 3:
                        raise
            device.STATE["fail"] = None
            if fallback != bool(heard()):
                ctx.violate("warning", f"{what}: {'no' if fallback else 'an unfounded'} warning")
            if not isinstance(y, typ[have]):
                ctx.violate("not-on-device", f"{what}: converting to {name!r} gave {type(y).__name__}")
            if have == src and y is not x:
                ctx.violate("copied", f"{what}: an array already there was copied")
            if host(y).dtype != v.dtype or not close(host(y), v, 0) or not close(host(x), v, 0):
                ctx.violate("values", f"{what}: {v!r} became {y!r}")
            if o["back"]:
                device.STATE.update(transfers=0, fail=0 if o["fail"] is not None else None)
                try:
                    z = B.move_to_cpu(y)
                except MemoryError as e:
                    if e is not device.STATE["raised"]:
                        raise
                    z = B.move_to_cpu(y)
                if type(z) is not np.ndarray or z.dtype != v.dtype or not close(z, v, 0):
                    ctx.violate("values", f"{what}: back on the CPU {v!r} is {z!r}")
                if have == "numpy" and z is not y:
                    ctx.violate("copied", f"{what}: move_to_cpu copied an array on the CPU")
        elif k == "solve":
            if not fallback:
                continue
            runs = []
            for backend in (name, None):
                cfg = json.loads(json.dumps(o["cfg"]))
                if backend is not None:
                    cfg["backend"] = backend
                r = R.Rig(cfg, ctx, (), name=f"backend-{backend}")
                if backend is not None and not heard():
                    ctx.violate("warning", f"{what}: no warning from {cfg['solver']}")
                r.iterate(o["n"])
                runs.append(r)
            a, b = runs
            if len(a.iters) != len(b.iters):
                ctx.violate("fallback", f"{what}: {cfg['solver']} stops after {len(a.iters)} iterations, default backend after {len(b.iters)}")
            for i, (p, q) in enumerate(zip(a.iters, b.iters)):
                for c, d in zip(p["calls"], q["calls"]):
                    if c[0] != d[0] or not close(c[1], d[1], 1e-12):
                        ctx.violate("fallback", f"{what}: {cfg['solver']} iteration {i}: {c[0]} at {np.ravel(c[1])[:4]}, default backend {d[0]} at {np.ravel(d[1])[:4]}")
            for key in b.results():
                if not close(a.results().get(key), b.results()[key], 1e-12):
                    ctx.violate("fallback", f"{what}: {cfg['solver']} {key} differs from the default backend")
            ctx.probe("fallback:" + cfg["solver"])
        elif k == "power":
            if have == "tensorflow":
                continue
            M = nprng("c19p", o["seed"]).normal(size=(o["n"], o["n"]))
            M = M @ M.T
            D = M if have == "numpy" else typ[have](M.copy())
            seen = []

            def opr(x, D=D):
                if not isinstance(x, typ[have]):
                    ctx.violate("not-on-device", f"{what}: the operator was given {type(x).__name__}")
                seen.append(1)
                if o["fail"] == len(seen) - 1 and have != "numpy":
                    ctx.fault("operator-out-of-memory")
                    device.STATE["raised"] = device.OutOfMemory("injected")
                    raise device.STATE["raised"]
                return D @ x

            ref = PowerMethod(lambda x: M @ x, (o["n"],), auto_run=False, rng=o["seed"])
            ref.get_spec_rad(max_iter=o["iters"])
            heard()
            pm = PowerMethod(opr, (o["n"],), auto_run=False, rng=o["seed"], compute_backend=name)
            if fallback != bool(heard()):
                ctx.violate("warning", f"{what}: {'no' if fallback else 'an unfounded'} warning from PowerMethod")
            try:
                pm.get_spec_rad(max_iter=o["iters"])
            except MemoryError as e:
                if e is not device.STATE["raised"]:
                    raise
                res = "oom"
                pm.get_spec_rad(max_iter=o["iters"])
            if have != "numpy" and not isinstance(pm.spec_rad, typ[have]):
                ctx.violate("not-on-device", f"{what}: spectral radius computed as {type(pm.spec_rad).__name__}")
            for key in ("spec_rad", "inv_spec_rad"):
                if not close(float(getattr(pm, key)), float(getattr(ref, key)), 1e-9):
                    ctx.violate("values", f"{what}: {key} = {getattr(pm, key)}, default backend {getattr(ref, key)}")
        else:
            if fallback:
                continue
            s = o["solver"]
            ref = DeviceRun(dict(o, host=True), ctx, None).build("numpy")
            ref.solver.iterate(max_iter=o["n"])
            dev = DeviceRun(o, ctx, typ["cupy"], o["faults"])
            device.STATE.update(transfers=0, fail=o["fail"] if o["host"] else None, raised=None)
            heard()
            tries = 0
            while True:
                tries += 1
                try:
                    dev.build("cupy")
                    break
                except MemoryError as e:
                    if e is not device.STATE["raised"] and e is not dev.raised or tries > 5:
                        raise
                    res = "oom-setup"
            device.STATE["fail"] = None
            if "Reverting" in heard():
                ctx.violate("warning", f"{what}: an unfounded warning")
            # a failed call does part of its iterations: go on one at a time
            # (settings that count the iterations of a call are not split)
            done = 0
            single = bool(o["faults"]) and not o["cost"]
            fails = 0
            while done < o["n"]:
                n = 1 if single else o["n"]
                try:
                    dev.solver.iterate(max_iter=n)
                    done += n
                except MemoryError as e:
                    if e is not dev.raised:
                        raise
                    res = "oom-operator"
                    fails += 1
                    if not single:
                        break
            if single or not fails:
                if fails:
                    pass
                a, b = dev.results(), ref.results()
                for key in b:
                    if not isinstance(a[key], typ["cupy"]):
                        ctx.violate("not-on-device", f"{what}: {s} returns {key} as {type(a[key]).__name__}")
                    if not close(host(a[key]), b[key], 1e-8):
                        ctx.violate("values", f"{what}: {s} {key} is {np.ravel(host(a[key]))[:4]} on the device, {np.ravel(b[key])[:4]} on the default backend"
                                    + (f", after {fails} device allocation failures" if fails else ""))
                if not o["faults"] and dev.calls != ref.calls:
                    ctx.violate("values", f"{what}: {s} evaluates {dev.calls} on the device, {ref.calls} on the default backend")
                ctx.probe("device:" + s)
        ctx.log(k, name, res)
        sig.append((k, name, res, o.get("solver") or (o.get("cfg") or {}).get("solver")))
    ctx.state(sig)
    ctx.probe("operations", len(plan["ops"]))
