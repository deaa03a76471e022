"""C31: missing optional packages only disable what needs them."""
import io
import json
import os
import re
import sys
import warnings

import numpy as np

from .. import boot
from .. import rig as R
from ..core import EXC, Violation, close, in_fork, nprng

ID = "C31"
BUDGET = {"quick": (1200, 240), "thorough": (40000, 1500)}
RULE = ("a run counts if the package was imported in its seeded deployment and at least one operation was "
        "compared with the full installation; distinct plans counted once")
STATE_MEASURE = "missing and broken packages x sequence of (operation, outcome)"
REAL = "the whole package, imported anew for each set of installed packages; the packages that are present"
STUB = "the import of the missing packages (not found, or failing half way), failing calls into the present ones; tensorflow/torch/cupy absent"
ASSUME = ["a package is present or missing as a whole, and stays so during the run",
          "scikit-learn is missing whenever joblib, which it needs, is"]
KEEP = ("shape", "missing")
PACKAGES = ["astropy", "matplotlib", "skimage", "sklearn", "pywt", "joblib", "termcolor", "pyfftw"]
# library calls that may fail in the middle of an operation
FLAKY = {"ssim": ("skimage.metrics", "structural_similarity"), "owl": ("sklearn.isotonic", "isotonic_regression"),
         "conv": ("astropy.convolution", "convolve_fft"), "kernel": ("astropy.convolution", "Gaussian2DKernel"),
         "wavelet": ("pywt", "wavedecn"), "plot": ("matplotlib.pyplot", "savefig")}
ERR = ("ImportError", "ModuleNotFoundError")


class Broken:
    """Finder of packages that are installed but fail while they are imported."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            import importlib.util
            return importlib.util.spec_from_loader(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.loaded = False
        raise ImportError(f"simulated: {module.__name__} cannot be loaded: undefined symbol")


def gen(rng, tier, i):
    missing = {}
    for p in PACKAGES:
        if rng.random() < rng.choice([0.15, 0.5]):
            missing[p] = rng.choice(["absent", "absent", "broken"])
    if "joblib" in missing:
        missing["sklearn"] = missing["joblib"]
    ops = []
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(["conv", "conv", "fconv", "kernel", "ssim", "quality", "owl", "prox", "wavelet", "wavelet", "wconv",
                        "plot", "plot", "cost", "message", "log", "mr", "signal", "svd", "power", "solve"])
        o = {"op": k, "seed": rng.randrange(50), "v": rng.randrange(6)}
        if k in ("conv", "fconv", "wconv", "quality", "ssim", "prox", "signal", "svd"):
            o.update(dt=rng.choice(["float"] * 4 + ["float32", "int", "complex"] + ["float32"] * (k == "conv")), sh=rng.choice([*range(7)] * 4 + [7]))
        if k == "solve":
            cfg = R.gen_solver(rng, styles=False, real=0.7)
            cfg["buffers"] = "fresh"
            if "ADMM" not in cfg["solver"] and rng.random() < 0.5:
                cfg["cost"] = {"kind": "real", "tol": rng.choice([1e-2, -1.0])}
            if rng.random() < 0.4:
                cfg["metrics"] = R.gen_metrics(rng, cfg["solver"], early=0.3)
                cfg["period"] = rng.choice([1, 2])
            o.update(cfg=cfg, n=rng.randint(1, 6))
        if k in FLAKY and rng.random() < 0.25:
            o["fail"] = [rng.choice([0, 0, 1]), rng.choice(["runtime", "memory", "interrupt", "linalg"])]
        ops.append(o)
    plan = {"missing": missing, "ops": ops}
    if "astropy" not in missing and rng.random() < 0.3:
        plan["astropy"] = rng.choice(["4.3.1", "5.1", "5.1.1", "3.2.3"])
    return plan


def simpler(plan):
    for k in plan["missing"]:
        m = {a: b for a, b in plan["missing"].items() if a != k}
        if not ("joblib" in m and "sklearn" not in m):
            yield dict(plan, missing=m)


def needs(o):
    """Packages without which the operation has to be refused."""
    k = o["op"]
    if k == "solve":
        kinds = (o["cfg"].get("prox_kind") or {}).values() if o["cfg"].get("ops") == "real" else ()
        return ({"sklearn"} if "owl" in kinds else set()) | ({"pywt"} if "compos" in kinds else set())
    return {"kernel": {"astropy"}, "ssim": {"skimage"}, "owl": {"sklearn"}, "wavelet": {"pywt"},
            "plot": {"matplotlib"}, "mr": {"astropy"}}.get(k, set())


def may_need(o):
    """Packages without which the operation may be refused."""
    kinds = (o["cfg"].get("prox_kind") or {}).values() if o["op"] == "solve" and o["cfg"].get("ops") == "real" else ()
    return {"joblib"} if o["op"] == "wavelet" or "compos" in kinds else set()


def arr(o, shape, salt=0, pos=False):
    a = nprng("c31", o["seed"], salt).normal(size=shape) * 3
    a = np.abs(a) + 0.1 if pos else a
    dt = o.get("dt", "float")
    if dt == "complex" and o["op"] in ("conv", "fconv") and not pos:
        return a + 1j * a[::-1]
    if dt == "int" and not pos:
        return np.round(2 * a).astype(int)
    return a.astype("float32") if dt == "float32" else a


# data and kernel of a convolution
SHAPES = [((5, 5), (3, 3)), ((6, 4), (3, 5)), ((4, 4), (5, 5)), ((7,), (3,)), ((4, 5, 3), (3, 3, 3)), ((5, 5), (2, 4)),
          ((1, 6), (1, 3)), ((40, 33), (5, 7))]


def perform(o, ctx, missing):
    """Run one operation on the imported package; the value it gives."""
    k, v = o["op"], o["v"]
    if k == "conv":
        from modopt.math.convolve import convolve, convolve_stack
        m = "astropy" if v % 2 else "scipy"
        a, b = SHAPES[o.get("sh", 0)]
        if v < 4:
            return convolve(arr(o, a), arr(o, b, 1), method=m)
        return convolve_stack(arr(o, (2, *a)), arr(o, (2, *b), 1), rot_kernel=len(a) == 2 and bool(o["seed"] % 2), method=m)
    if k == "fconv":
        from modopt.signal.wavelet import filter_convolve, filter_convolve_stack
        a, b = SHAPES[o.get("sh", 0)]
        rot = len(a) == 2 and bool(o["seed"] % 2)
        f = [filter_convolve, filter_convolve_stack][v >= 4]
        lead = ((2,) if f is filter_convolve_stack else ()) + ((2,) if rot else ())
        return f(arr(o, (*lead, *a)), arr(o, (2, *b), 1), filter_rot=rot, method="astropy" if v % 2 else "scipy")
    if k == "kernel":
        from modopt.math.stats import gaussian_kernel
        return gaussian_kernel((7, 5), 0.5 + v, norm="max" if v % 2 else "sum")
    if k in ("ssim", "quality"):
        from modopt.math import metrics, stats
        a, b = arr(o, (9, 8)), arr(o, (9, 8), 1)
        mask = (arr(o, (9, 8), 2) > 0).astype(int) if v % 2 else None
        if k == "ssim":
            return metrics.ssim(a, b, mask)
        return [metrics.snr(a, b, mask), metrics.psnr(a, b, mask), metrics.mse(a, b, mask), metrics.nrmse(a, b, mask),
                stats.mad(a), stats.mse(a, b), stats.psnr(a, b), stats.sigma_mad(a)]
    if k == "owl":
        from modopt.opt.proximity import OrderedWeightedL1Norm
        p = OrderedWeightedL1Norm(np.sort(arr(o, (6,), pos=True))[::-1])
        return [p.op(arr(o, (6,), 1), extra_factor=1 + v), p.cost(arr(o, (6,), 1))]
    if k == "prox":
        from modopt.opt import proximity as P
        from modopt.opt.linear import Identity
        x = arr(o, (4, 3))
        w = arr(o, (4, 3), 1, True)
        p = [lambda: P.SparseThreshold(Identity(), w), lambda: P.Ridge(Identity(), w), lambda: P.ElasticNet(Identity(), w, w),
             lambda: P.KSupportNorm(0.5, 3), lambda: P.GroupLASSO(0.7), lambda: P.Positivity()][v]()
        return [p.op(x), p.cost(x)] if v != 3 else p.op(x)
    if k == "wavelet":
        from modopt.opt.linear import WaveletTransform
        b = 3 if v % 2 else 1
        w = WaveletTransform("db2" if v < 3 else "haar", (8, 8), level=2, n_batch=b, n_jobs=1)
        c = w.op(arr(o, ((b,) if b > 1 else ()) + (8, 8)))
        return [c, w.adj_op(c)]
    if k == "wconv":
        from modopt.opt.linear import WaveletConvolve
        w = WaveletConvolve(arr(o, (2, 3, 3)), method="astropy" if v % 2 else "scipy")
        return [w.op(arr(o, (2, 5, 5), 1)), w.adj_op(arr(o, (2, 2, 5, 5), 2))]
    if k == "plot":
        from modopt.plot.cost_plot import plotCost
        plotCost([10.0, 3.0, 1.0, 0.5], output=f"p{v}")
        with boot.SEAMS["real_open"](f"p{v}_cost_function.png", "rb") as f:
            return f.read()[:8].hex()
    if k == "cost":
        from modopt.opt.cost import costObj

        class Op:
            n = 0

            def cost(self, *a, **kw):
                self.n += 1
                return 10.0 / min(self.n, 3 + v)

        c = costObj([Op()], test_range=2, verbose=False)
        out = []
        for j in range(8):
            out.append(bool(c.get_cost(1)))
            if j == v:
                had = os.listdir(".")
                try:
                    c.plot_cost()
                    refused = False
                except ImportError:
                    refused = True
                if refused != ("matplotlib" in missing):
                    ctx.violate("plot", f"plotting the cost was {'refused' if refused else 'not refused'} with {missing} missing")
                if refused and sorted(os.listdir(".")) != sorted(had):
                    ctx.violate("trace", "a refused plot left a file")
        return out
    if k == "message":
        from modopt.interface.errors import catch_error, warn
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            warn("careful")
            catch_error(ValueError("bad"))
            return re.sub(r"\x1b\[[0-9;]*m", "", sys.stderr.getvalue())
        finally:
            sys.stderr = err
    if k == "log":
        from modopt.interface.errors import catch_error
        from modopt.interface.log import close_log, set_up_log
        name = f"log{v}"
        log = set_up_log(name, verbose=False)
        log.info("one")
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            try:
                raise ValueError("bad")
            except ValueError as e:
                catch_error(e, log)
        finally:
            sys.stderr = err
        close_log(log, verbose=False)
        with boot.SEAMS["real_open"](name + ".log") as f:
            t = f.read()
        os.remove(name + ".log")
        return ["one" in t, "ERROR: bad" in t, "INFO" in t]
    if k == "mr":
        from modopt.signal import wavelet as W
        if v % 2:
            return W.call_mr_transform(arr(o, (8, 8)), opt="-n2", path="./")
        return W.get_mr_filters((8, 8), opt="-n2", coarse=bool(v))
    if k == "signal":
        from modopt.signal.filter import gaussian_filter, mex_hat
        from modopt.signal.noise import add_noise, thresh
        from modopt.signal.positivity import positive
        x = arr(o, (4, 4))
        return [thresh(x, 1.0, "soft"), thresh(x, 1.0, "hard"), positive(x), add_noise(x, 1.0, rng=v), gaussian_filter(x, 1.0 + v),
                mex_hat(x, 1.0 + v)]
    if k == "svd":
        from modopt.math.matrix import gram_schmidt, nuclear_norm
        from modopt.signal.svd import svd_thresh, svd_thresh_coef
        x = arr(o, (9, 5))
        return [svd_thresh(x, 2.0), svd_thresh_coef(x, lambda c: c, 0.3), nuclear_norm(x), gram_schmidt(x)]
    if k == "power":
        from modopt.math.matrix import PowerMethod
        m = arr(o, (4, 4))
        pm = PowerMethod(lambda x: m @ m.T @ x, (4,), rng=v)
        return [pm.spec_rad, pm.inv_spec_rad]
    r = R.Rig(json.loads(json.dumps(o["cfg"])), ctx, (), name="rig")
    r.iterate(o["n"])
    return [[[c[0] for c in it["calls"]] for it in r.iters], [c[1] for it in r.iters for c in it["calls"]],
            {q: np.array(a) for q, a in r.results().items()}]


def outcome(o, ctx, missing):
    try:
        with np.errstate(all="ignore"):
            return ("ok", perform(o, ctx, missing))
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
        return ("exc", type(e).__name__, str(e)[:200], e)


def kinds(r):
    if isinstance(r, (list, tuple)):
        return [kinds(x) for x in r]
    return str(r.dtype) if isinstance(r, (np.ndarray, np.generic)) else type(r).__name__


def remove(missing):
    """Take the optional packages, and the package imported with them, away."""
    for n in [m for m in sys.modules if m.split(".")[0] in ("modopt", *missing)]:
        del sys.modules[n]
    boot.SEAMS["blocker"].blocked |= {n for n, k in missing.items() if k == "absent"}
    sys.meta_path.insert(0, Broken({n for n, k in missing.items() if k == "broken"}))


def deploy():
    """Import every module of the package."""
    import importlib
    import pkgutil
    sys.pycache_prefix = os.path.join("/nonexistent", "sim-pyc")
    try:
        import modopt
        for m in pkgutil.walk_packages(modopt.__path__, "modopt."):
            importlib.import_module(m.name)
    finally:
        sys.pycache_prefix = None


def older_astropy(version):
    """Before 5.2 the kernels of astropy came as they were, not normalised."""
    import astropy
    import astropy.convolution as ac
    real = ac.Gaussian2DKernel
    ac.Gaussian2DKernel = lambda *a, **k: 1.7 * np.array(real(*a, **k))
    astropy.__version__ = version


def wrap_flaky(state, ctx):
    """Calls into the packages that are present may fail."""
    import importlib
    for op, (mod, fn) in FLAKY.items():
        try:
            m = importlib.import_module(mod)
        except ImportError:
            continue
        real = getattr(m, fn)

        def call(*a, real=real, op=op, **k):
            if state["left"] is not None and state["op"] == op:
                state["left"] -= 1
                if state["left"] < 0:
                    state["left"] = None
                    state["raised"] = EXC[state["exc"]](f"injected in {op}")
                    ctx.fault("library-raises-" + state["exc"])
                    raise state["raised"]
            return real(*a, **k)

        setattr(m, fn, call)


def run(plan, ctx):
    R.silence()
    missing = plan["missing"]
    for n in PACKAGES:
        if n not in missing:
            ctx.probe("with:" + n)
    for n, k in missing.items():
        ctx.fault(f"{n}-{k}")
    os.makedirs("full", exist_ok=True)
    os.makedirs("part", exist_ok=True)

    def reference():
        os.chdir("full")
        out = []
        for o in plan["ops"]:
            alt = dict(o)
            if "astropy" in missing and o["op"] in ("conv", "fconv", "wconv"):
                alt["v"] = o["v"] - o["v"] % 2        # documented: falls back to SciPy
            r = outcome(alt, ctx, ())
            out.append(r[:3])
        return out

    full = in_fork(reference)
    os.chdir("part")
    warned = []
    warnings.simplefilter("always")
    warnings.showwarning = lambda *a, **k: warned.append(a)
    err = sys.stderr = io.StringIO()
    state = {"left": None, "op": None, "exc": None, "raised": None}
    remove(missing)
    wrap_flaky(state, ctx)
    if plan.get("astropy"):
        older_astropy(plan["astropy"])
        ctx.fault("astropy-older")
    try:
        deploy()
    except ImportError as e:
        ctx.violate("import", f"the package cannot be imported without {sorted(missing.items())}: {e!r}")
    sig = [sorted(missing.items())]
    fell_back = False
    for j, o in enumerate(plan["ops"]):
        k = o["op"]
        gone = sorted(needs(o) & set(missing))
        what = f"{k} without {sorted(missing)}"
        before = sorted(os.listdir("."))
        retried = False
        while True:
            state.update(left=None, op=k, raised=None)
            if o.get("fail") and not retried:
                state.update(left=o["fail"][0], exc=o["fail"][1])
            r = outcome(o, ctx, missing)
            if state["raised"] is None:
                break
            if r[0] != "exc" or (r[3] is not state["raised"] and not R._chained(r[3], state["raised"])):
                ctx.violate("error-swallowed", f"{what}: {state['raised']!r} from the library did not reach the caller: {r[:3]}")
            retried = True
            before = sorted(os.listdir("."))
        state["left"] = None
        if not gone and r[0] == "exc" and full[j][0] == "ok":
            gone = sorted(may_need(o) & set(missing))
        if gone:
            if r[0] != "exc":
                ctx.violate("not-refused", f"{what} gave {str(r[1])[:200]}")
            allowed = ERR + (("ValueError",) if k in ("wavelet", "solve") else ())
            if r[1] not in allowed:
                ctx.violate("wrong-error", f"{what}: {r[1]}: {r[2]}, not an import error")
            if sorted(os.listdir(".")) != before:
                ctx.violate("trace", f"{what} was refused but left {sorted(set(os.listdir('.')) - set(before))}")
        else:
            e = full[j]
            if r[0] == "exc" and e[0] == "ok":
                ctx.violate("refused", f"{what}: {r[1]}: {r[2]}")
            if r[0] != e[0] or (r[0] == "exc" and r[1] != e[1]):
                ctx.violate("outcome-differs", f"{what}: {str(r[:3])[:300]}, in the full installation {str(e)[:300]}")
            tol = 1e-4 if o.get("dt") == "float32" else 1e-8
            if r[0] == "ok" and (not close(r[1], e[1], tol, tol * 1e-4) or kinds(r[1]) != kinds(e[1])):
                ctx.violate("result-differs", f"{what}: {str(r[1])[:300]}, in the full installation {str(e[1])[:300]}")
        fell_back |= "astropy" in missing and k in ("conv", "fconv", "wconv") and o["v"] % 2 == 1
        marks = (k, r[0], bool(gone), retried)
        sig.append(marks)
        ctx.log(*marks)
        ctx.probe(f"{k}-{'refused' if gone else 'same'}")
    if fell_back and "astropy" not in err.getvalue().lower() and not warned:
        ctx.violate("silent-fallback", "convolution falls back to SciPy without a warning")
    ctx.state(sig)
