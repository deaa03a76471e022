"""C10: library functions are re-entrant, history-free and do not modify inputs."""
import numpy as np

from .. import rig as R
from .. import sched as S
from ..core import EXC, close, in_fork, nprng
from ..sched import Sched, gen_sched

ID = "C10"
BUDGET = {"quick": (2400, 240), "thorough": (80000, 1500)}
RULE = ("a run counts if at least two calls completed and were compared with the same calls in a pristine "
        "process; distinct plans counted once")
STATE_MEASURE = "functions called x order x outcome (returned, raised, interrupted) x switches (bucketed)"
REAL = "public functions of modopt.signal, modopt.math and modopt.base, in real threads"
STUB = "thread scheduling (baton), user callables passed as arguments, standard output; tensorflow/torch/cupy absent"
ASSUME = ["interrupts and switches happen at source lines of the package, not inside numpy or scipy",
          "check_npndarray, whose purpose is to set the flags of its argument, is excluded",
          "functions documented to return views (transposes, reshapes) may share memory with their input"]
KEEP = ("shape",)


# ------------------------------------------------------------- argument generation
def grow(shape, k):
    """The like of that shape, larger in its last two axes."""
    if k == 1:
        return list(shape)
    return [*shape[:-2], *(s * k for s in shape[-2:])]


class Pool:
    def __init__(self, rng, threads):
        self.rng, self.threads, self.arrays = rng, threads, []
        self.scale = 1 if rng.random() < 0.95 else rng.choice([4, 6, 8])    # now and then large arrays

    def need(self, thread, shape, dtypes=("float", "float", "float32", "int"), special=True):
        """Reference to an array of that shape usable in that thread."""
        rng = self.rng
        shape = grow(shape, self.scale)
        old = [k for k, a in enumerate(self.arrays)
               if a["shape"] == shape and a["owner"] in (None, thread) and a["dtype"] in dtypes
               and (special or a["special"] is None)]
        if old and rng.random() < 0.55:
            return ["a", rng.choice(old)]
        self.arrays.append({
            "shape": shape, "dtype": rng.choice(dtypes), "seed": rng.randrange(1 << 30),
            "order": rng.choice(["C", "C", "F", "strided", "reversed"]),
            "special": rng.choice([None] * 10 + ["zeros", "ones", "sparse", "nan", "inf", "huge"]) if special else None,
            "owner": None if rng.random() < 0.35 else thread,
            "readonly": rng.random() < 0.15})
        return ["a", len(self.arrays) - 1]


def build(spec, version=0):
    g = nprng("c10", spec["seed"], version)
    shape = tuple(spec["shape"])
    x = g.normal(size=shape) * 3
    if spec["special"] == "zeros":
        x = x * 0
    elif spec["special"] == "ones":
        x = x * 0 + 1
    elif spec["special"] == "sparse":
        x = x * (g.random(shape) < 0.4)
        if x.size:
            x.flat[0], x.flat[-1] = 1.5, -2.5
    elif spec["special"] in ("nan", "inf") and x.size and spec["dtype"] != "int":
        x.flat[g.integers(x.size)] = float(spec["special"])
    elif spec["special"] == "huge" and spec["dtype"] != "int":
        x = x * (1e30 if spec["dtype"] in ("float32", "complex64") else 1e200)
    if spec["dtype"] == "int":
        x = np.round(x * 4)
    elif spec["dtype"] == "complex":
        x = x + 1j * g.normal(size=shape)
    x = x.astype(spec["dtype"])
    o = spec["order"]
    if o == "F":
        x = np.asfortranarray(x)
    elif o == "strided" and x.ndim:
        y = np.zeros((2 * shape[0],) + shape[1:], x.dtype)
        y[::2] = x
        x = y[::2]
    elif o == "reversed" and x.ndim:
        x = np.array(x[::-1])[::-1]
    x.flags.writeable = not spec["readonly"]
    return x


def double(x, *a):
    return 2 * np.asarray(x)


def halve(x, *a):
    return 0.5 * np.asarray(x)


CALLABLES = {"double": double, "halve": halve, "mean": np.mean, "median": np.median, "max": np.max}
F2 = [(4, 4), (5, 5), (3, 6), (6, 3), (1, 4)]
SQ = [(3, 3), (4, 4), (5, 5), (7, 7)]
CUBES = [(2, 3, 3), (4, 3, 3), (3, 4, 4), (6, 2, 2)]
ALLT = ("float", "float", "float32", "int", "complex")


def _2d(rng):
    return rng.choice(F2)


def _g_any(kw=None, shapes=F2, dt=ALLT, special=True):
    def g(rng, need):
        return [need(rng.choice(shapes), dt, special)], dict(kw(rng)) if kw else {}
    return g


def _scalar_or_array(rng, need):
    k = rng.random()
    if k < 0.3:
        return ["v", rng.choice([0, 1, 2, -3])]
    if k < 0.5:
        return ["v", rng.choice([0.5, 1.5, -2.25])]
    if k < 0.65:
        return ["list", need((5,), ("int", "float"))[1]]
    return need(rng.choice([(5,), (3, 6)]), ("int", "float", "float32"))


def _g_filter(n):
    def g(rng, need):
        args = [_scalar_or_array(rng, need)]
        if n == 3:
            args.append(args[0] if rng.random() < 0.5 else ["v", rng.choice([0.5, 1.0])])
        sig = ["v", rng.choice([0.5, 1, 1.5, 3.0])]
        return args + [sig], ({"norm": rng.random() < 0.6} if n == 1 else {})
    return g


def _g_metric(rng, need):
    sh = rng.choice([(8, 8), (9, 7)])
    kw = {}
    if rng.random() < 0.5:
        kw["mask"] = need(sh, ("int", "float"), False)
    dt = ("float", "float", "complex", "float32")
    return [need(sh, dt, False), need(sh, dt, False)], kw


def _g_conv(rng, need):
    sh = rng.choice(SQ + [(3, 6)])
    a = need(sh, ("float", "float", "float32", "int"))
    k = need(rng.choice([sh, (3, 3)]), ("float", "float", "int"))
    return [a, k], {"method": rng.choice(["scipy", "scipy", "astropy"])}


def _g_conv_stack(rng, need):
    sh = rng.choice(CUBES)
    return [need(sh, ("float", "int")), need(sh, ("float", "float32"))], {
        "rot_kernel": rng.random() < 0.5, "method": rng.choice(["scipy", "scipy", "astropy"])}


def _g_fconv(rng, need):
    sh = rng.choice(SQ)
    n = rng.choice([2, 3])
    f = need((n, *rng.choice([sh, (3, 3)])), ("float",))
    rot = rng.random() < 0.5
    return [need((n, *sh) if rot else sh, ("float", "int")), f], {
        "filter_rot": rot, "method": rng.choice(["scipy", "scipy", "astropy"])}


def _g_fconv_stack(rng, need):
    sh = rng.choice(SQ[:2])
    n, m = 2, rng.choice([1, 2, 3])
    f = need((n, 3, 3), ("float",))
    rot = rng.random() < 0.5
    return [need((m, n, *sh) if rot else (m, *sh), ("float", "int")), f], {"filter_rot": rot}


def _g_thresh(rng, need):
    sh = rng.choice([(5,), (4, 4), (3, 6)])
    t = ["v", rng.choice([0.5, 1, 3.0])] if rng.random() < 0.6 else need(sh, ("float", "int"))
    return [need(sh, ALLT) if rng.random() < 0.85 else ["list", need(sh, ("float",))[1]], t], {
        "threshold_type": rng.choice(["hard", "soft", "soft", "wrong"] if rng.random() < 0.1 else ["hard", "soft"])}


def _g_noise(rng, need):
    sh = rng.choice([(4, 4), (5,), (3, 6)])
    t = rng.choice(["gauss", "gauss", "poisson"])
    sig = ["v", rng.choice([1.0, 0.5, 2])]
    if rng.random() < 0.4:
        sig = need((sh[0],), ("float",)) if rng.random() < 0.5 else ["v", [0.5 + j for j in range(sh[0])]]
    return [need(sh, ("float", "int")), sig], {"noise_type": t, "rng": rng.randrange(5)}


def _g_positive(rng, need):
    k = rng.random()
    if k < 0.15:
        return [["v", rng.choice([-2, 3, -1.5, 2.5])]], {}
    if k < 0.35:
        return [["ragged", need((4,), ("float",))[1], need((3, 6), ("float",))[1]]], {"ragged": True}
    if k < 0.5:
        return [["list", need((3, 6), ("float", "int"))[1]]], {}
    return [need(rng.choice([(5,), (3, 6), (4, 4)]), ("float", "int", "float32"))], {}


def _g_posrec(rng, need):
    if rng.random() < 0.5:
        return [["ragged", need((4,), ("float",))[1], need((3, 6), ("float",))[1]]], {}
    return [need(rng.choice([(5,), (3, 6)]), ("float", "int"))], {}


SVD_SHAPES = [(9, 4), (16, 5), (9, 9), (4, 6)]


def _g_svdthresh(rng, need):
    kw = {"thresh_type": rng.choice(["hard", "soft"])}
    k = rng.random()
    if k < 0.4:
        kw["threshold"] = rng.choice([0.5, 2.0, 5.0])
    elif k < 0.7:
        kw["n_pc"] = rng.choice([1, 2, 3, "all"])
    return [need(rng.choice(SVD_SHAPES), ("float", "float", "int"), False)], kw


def _g_svdfast(rng, need):
    kw = {"thresh_type": rng.choice(["hard", "soft"]), "n_vals": rng.choice([-1, 1, 2, 3, None]),
          "extra_vals": rng.choice([1, 5])}
    return [need(rng.choice([(9, 7), (16, 6), (6, 9)]), ("float",), False), ["v", rng.choice([0.5, 3.0, 6.0])]], kw


def _g_svdcoef(rng, need):
    sh = rng.choice([(9, 4), (16, 5), (9, 9)])
    t = ["v", rng.choice([0.3, 1.0])]
    if rng.random() < 0.5:
        t = need((min(sh), sh[1]), ("float",))
    return [need(sh, ("float",), False), ["fn", rng.choice(["double", "halve"])], t], {
        "thresh_type": rng.choice(["hard", "soft"])}


def _g_gs(rng, need):
    return [need(rng.choice([(3, 6), (4, 4), (3, 3)]), ("float", "int", "float32"), False)], {
        "return_opt": rng.choice(["orthonormal", "orthogonal", "both"])}


def _g_project(rng, need):
    return [need((5,), ("float", "int"), False), need((5,), ("float", "int"))], {}


def _g_cube2map(rng, need):
    sh, lay = rng.choice([((4, 3, 3), (2, 2)), ((6, 2, 2), (3, 2)), ((6, 2, 2), (2, 3)), ((4, 3, 3), (4, 1)),
                          ((4, 3, 3), (3, 1))])
    return [need(sh, ALLT), ["v", list(lay)] if rng.random() < 0.7 else ["ints", list(lay)]], {}


def _g_map2cube(rng, need):
    sh, lay = rng.choice([((6, 6), (2, 2)), ((6, 6), (3, 2)), ((6, 4), (3, 2)), ((6, 4), (2, 2))])
    return [need(sh, ALLT), ["v", list(lay)] if rng.random() < 0.7 else ["ints", list(lay)]], {}


def _g_map2matrix(rng, need):
    sh, lay = rng.choice([((6, 6), (2, 2)), ((6, 6), (3, 3)), ((6, 4), (3, 2)), ((4, 6), (2, 3))])
    return [need(sh, ("float", "int")), ["v", list(lay)] if rng.random() < 0.6 else ["ints", list(lay)]], {}


def _g_matrix2map(rng, need):
    sh, ms = rng.choice([((4, 4), (4, 4)), ((9, 4), (6, 6)), ((4, 6), (4, 6)), ((4, 6), (6, 4))])
    return [need(sh, ("float", "int")), ["v", list(ms)] if rng.random() < 0.6 else ["ints", list(ms)]], {}


def _g_matrix2cube(rng, need):
    sh, ms = rng.choice([((4, 4), (2, 2)), ((9, 4), (3, 3)), ((6, 3), (2, 3)), ((6, 3), (3, 2))])
    return [need(sh, ALLT), ["v", list(ms)] if rng.random() < 0.6 else ["ints", list(ms)]], {}


def _g_pad(rng, need):
    p = rng.choice([["v", 1], ["v", [1, 2]], ["tuple", [2, 1]], ["ints", [1]], ["ints", [2, 1]], ["v", "bad"]])
    return [need(_2d(rng), ("float", "int")), p], {}


def _g_kernel(rng, need):
    return [["tuple", list(rng.choice([(5, 5), (7, 5), (9, 9)] * 5 + [(33, 35)]))], ["v", rng.choice([0.5, 1, 2.0])]], {
        "norm": rng.choice(["max", "sum"])}


def _g_pair2(rng, need):
    sh = rng.choice([(4, 4), (3, 6)])
    return [need(sh, ("float", "int"), False), need(sh, ("float",), False)], {}


def _g_psnr(rng, need):
    return _g_pair2(rng, need)[0], {"method": rng.choice(["starck", "wiki"]), "max_pix": rng.choice([255, 1])}


def _g_psnr_stack(rng, need):
    sh = rng.choice(CUBES)
    return [need(sh, ("float",), False), need(sh, ("float",), False)], {
        "metric": ["fn", rng.choice(["mean", "median", "max"])], "method": rng.choice(["starck", "wiki"])}


def _g_transpose(rng, need):
    return [["fn", "double"], ["fn", rng.choice(["double", "halve"])], ["tuple", list(rng.choice([(3, 3), (4, 2)]))]], {
        "rng": rng.randrange(4)}


FUNCS = {
    "base.np_adjust.rotate": _g_any(), "base.np_adjust.rotate_stack": _g_any(shapes=CUBES),
    "base.np_adjust.pad2d": _g_pad, "base.np_adjust.ftr": _g_any(shapes=CUBES + F2),
    "base.np_adjust.ftl": _g_any(shapes=CUBES),
    "base.np_adjust.fancy_transpose": _g_any(lambda r: {"roll": r.choice([1, -1, 2, 0])}, CUBES),
    "base.transform.cube2map": _g_cube2map, "base.transform.map2cube": _g_map2cube,
    "base.transform.map2matrix": _g_map2matrix, "base.transform.matrix2map": _g_matrix2map,
    "base.transform.cube2matrix": _g_any(shapes=CUBES), "base.transform.matrix2cube": _g_matrix2cube,
    "base.types.check_float": lambda r, n: ([_scalar_or_array(r, n)], {}),
    "base.types.check_int": lambda r, n: ([_scalar_or_array(r, n)], {}),
    "signal.filter.gaussian_filter": _g_filter(1), "signal.filter.mex_hat": _g_filter(2),
    "signal.filter.mex_hat_dir": _g_filter(3),
    "signal.noise.thresh": _g_thresh, "signal.noise.add_noise": _g_noise,
    "signal.positivity.positive": _g_positive,
    "signal.svd.find_n_pc": _g_any(lambda r: {"factor": r.choice([0.1, 0.5])}, [(9, 4), (16, 5), (4, 6)], ("float",), False),
    "signal.svd.calculate_svd": _g_any(shapes=SVD_SHAPES, dt=("float", "float", "float32", "int", "complex"),
                                     special=False),  # LAPACK may not return on non-finite data
    "signal.svd.svd_thresh": _g_svdthresh, "signal.svd.svd_thresh_coef_fast": _g_svdfast,
    "signal.svd.svd_thresh_coef": _g_svdcoef,
    "signal.wavelet.trim_filter": lambda r, n: ([n(_2d(r), ("float",), False)], {}),
    "signal.wavelet.filter_convolve": _g_fconv, "signal.wavelet.filter_convolve_stack": _g_fconv_stack,
    "signal.validation.transpose_test": _g_transpose,
    "math.convolve.convolve": _g_conv, "math.convolve.convolve_stack": _g_conv_stack,
    "math.matrix.gram_schmidt": _g_gs,
    "math.matrix.nuclear_norm": _g_any(dt=("float", "int", "complex"), special=False),
    "math.matrix.project": _g_project,
    "math.matrix.rot_matrix": lambda r, n: ([["v", r.choice([0.0, 0.5, 1.5707963267948966, -1.0])]], {}),
    "math.matrix.rotate": lambda r, n: ([n(r.choice(SQ), ALLT), ["v", r.choice([0.0, 1.5707963267948966, 0.5, 3.14159, 0.5, 0.503, 0.4975])]], {}),
    "math.metrics.ssim": _g_metric, "math.metrics.snr": _g_metric, "math.metrics.psnr": _g_metric,
    "math.metrics.mse": _g_metric, "math.metrics.nrmse": _g_metric,
    "math.metrics.min_max_normalize": lambda r, n: ([n((8, 8), ("float", "int", "float32"), False)], {}),
    "math.stats.gaussian_kernel": _g_kernel, "math.stats.mad": _g_any(dt=("float", "int", "float32")),
    "math.stats.mse": _g_pair2, "math.stats.psnr": _g_psnr, "math.stats.psnr_stack": _g_psnr_stack,
    "math.stats.sigma_mad": _g_any(dt=("float", "int")),
}
NAMES = sorted(FUNCS)
LOOSE = {"signal.svd.svd_thresh_coef_fast": 1e-6}


def gen(rng, tier, i):
    threads = rng.choice([1, 1, 2, 2, 3])
    pool = Pool(rng, threads)
    focus = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 5]))
    tasks = []
    for t in range(threads):
        ops = []
        for _ in range(rng.randint(3, 8) if threads == 1 else rng.randint(2, 5)):
            k = rng.random()
            mine = [a for a, s in enumerate(pool.arrays) if s["owner"] == t and not s["readonly"]]
            if k < 0.12 and mine:
                ops.append(["mutate", rng.choice(mine), rng.randrange(1, 5)])
            elif k < 0.22 and ops:
                ops.append(["scribble", rng.randrange(8)])
            elif k < 0.3 and any(o[0] == "call" for o in ops):
                # the very same call again
                prev = rng.choice([o for o in ops if o[0] == "call"])
                args = prev[2]
                if rng.random() < 0.4:
                    # or nearly: a cache must not take it for the same
                    args = [["v", a[1] + rng.choice([1e-3, 1e-3, 1e-6])]
                            if a[0] == "v" and isinstance(a[1], float) else a for a in args]
                ops.append(["call", prev[1], args, prev[3], None])
            elif t and rng.random() < 0.4 and any(o[0] == "call" for o in tasks[-1]):
                # the like of another thread's call, on data of one's own
                prev = rng.choice([o for o in tasks[-1] if o[0] == "call"])
                args = []
                for a in prev[2]:
                    if a[0] in ("a", "list") and rng.random() < 0.8:
                        pool.arrays.append(dict(pool.arrays[a[1]], seed=rng.randrange(1 << 30), owner=t))
                        a = [a[0], len(pool.arrays) - 1]
                    elif a[0] in ("a", "list", "ragged"):
                        for k in a[1:]:
                            if pool.arrays[k]["owner"] not in (None, t):
                                pool.arrays.append(dict(pool.arrays[k], owner=t))
                                a = [a[0], *[len(pool.arrays) - 1 if q == k else q for q in a[1:]]]
                    args.append(a)
                kw = {k: v for k, v in prev[3].items() if not (isinstance(v, list) and v[0] == "a")}
                ops.append(["call", prev[1], args, kw, None])
            else:
                name = rng.choice(focus)
                args, kw = FUNCS[name](rng, lambda sh, dt=ALLT, special=True: pool.need(t, sh, dt, special))
                cut = [rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40]), rng.choice(["interrupt", "memory", "runtime"])] \
                    if rng.random() < 0.22 else None
                ops.append(["call", name, args, kw, cut])
        tasks.append(ops)
    # the interpreter does not survive exceptions at every bytecode
    sched = gen_sched(rng, [0.05, 0.2, 0.5], 0.0 if any(o[0] == "call" and o[4] for ops in tasks for o in ops) else 0.3)
    if threads > 1 and rng.random() < 0.3:
        sched.update(p=0.02, hot=[0, 1 << 30, rng.choice(focus).rsplit(".", 1)[1]])
    return {"arrays": pool.arrays, "tasks": tasks, "sched": sched}


def sequential(plan):
    return dict(plan, sched={"explicit": []})


# ------------------------------------------------------------- execution
def resolve(a, get):
    if not isinstance(a, list):
        return a
    k, *v = a
    if k == "a":
        return get(v[0])
    if k == "v":
        return list(v[0]) if isinstance(v[0], list) else v[0]
    if k == "tuple":
        return tuple(v[0])
    if k == "ints":
        return np.array(v[0])
    if k == "list":
        return get(v[0]).tolist()
    if k == "ragged":
        o = np.empty(2, dtype=object)
        o[0], o[1] = np.array(get(v[0])), np.array(get(v[1]))
        return o
    if k == "fn":
        return CALLABLES[v[0]]
    raise KeyError(k)


def function(name):
    import importlib
    mod, fn = name.rsplit(".", 1)
    return getattr(importlib.import_module("modopt." + mod), fn)


class Out:
    """Standard output that keeps the text of each thread apart."""

    def __init__(self):
        self.text = {}

    def write(self, s):
        me = S.ACTIVE.me() if S.ACTIVE else None
        k = me.id if me else -1
        self.text[k] = self.text.get(k, "") + s
        return len(s)

    def flush(self):
        pass

    def take(self):
        me = S.ACTIVE.me() if S.ACTIVE else None
        return self.text.pop(me.id if me else -1, "")


def snapshot(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return [snapshot(e) for e in v.ravel()]
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [snapshot(e) for e in v]
    return v


def arrays_in(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for e in v.ravel():
                yield from arrays_in(e)
        else:
            yield v
    elif isinstance(v, (list, tuple)):
        for e in v:
            yield from arrays_in(e)


def meta(v):
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, [meta(e) for e in v.ravel()] if v.dtype == object else 0)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [meta(e) for e in v])
    return type(v).__name__


def outcome(name, args, kw, out, do=lambda f: f()):
    fn = function(name)
    out.take()
    try:
        r = do(lambda: fn(*args, **kw))
        return ("ok", r, out.take())
    except BaseException as e:  # noqa: BLE001
        if not isinstance(e, (Exception, KeyboardInterrupt)):
            raise
        out.take()
        return ("exc", e)


def baseline(plan, call, versions, out):
    def f():
        get = lambda k: build(plan["arrays"][k], versions.get(k, 0))  # noqa: E731
        args = [resolve(a, get) for a in call[2]]
        kw = {k: resolve(a, get) for k, a in call[3].items()}
        o = outcome(call[1], args, kw, out)
        if o[0] == "ok":
            return ("ok", o[1], o[2], meta(o[1]))
        return ("exc", type(o[1]).__name__)
    return in_fork(f)


def run(plan, ctx):
    import sys

    R.silence()
    out = sys.stdout = Out()
    with np.errstate(all="ignore"):
        expected = []
        for ops in plan["tasks"]:
            versions, exp = {}, []
            for op in ops:
                if op[0] == "mutate":
                    versions[op[1]] = op[2]
                exp.append(baseline(plan, op, dict(versions), out) if op[0] == "call" else None)
            expected.append(exp)
    shared = {k: build(a) for k, a in enumerate(plan["arrays"])}
    s = Sched(ctx, plan["sched"], max_steps=2000000)
    marks = []

    def check_args(k, versions, name, why):
        for j, a in enumerate(plan["arrays"]):
            if a["owner"] in (None, k):
                want = build(a, versions.get(j, 0))
                if not close(shared[j], want, 0.0) or shared[j].flags.writeable == a["readonly"]:
                    ctx.violate("argument-modified", f"after {name} {why}: array {j} {a} is changed: "
                                f"{np.ravel(shared[j])[:6]} instead of {np.ravel(want)[:6]}")

    def body(k):
        versions = {}
        results = []
        with np.errstate(all="ignore"):
            for n, op in enumerate(plan["tasks"][k]):
                if op[0] == "mutate":
                    j, versions[op[1]] = op[1], op[2]
                    shared[j][...] = build(plan["arrays"][j], op[2])
                    # views handed out earlier change with the caller's array
                    results = [r for r in results if not any(np.shares_memory(a, shared[j]) for a in arrays_in(r[0]))]
                    continue
                if op[0] == "scribble":
                    if results:
                        r = results.pop(op[1] % len(results))
                        for a in arrays_in(r[0]):
                            if a.flags.writeable and not any(np.shares_memory(a, b) for b in shared.values()) \
                                    and a.dtype.kind in "fciu":
                                a[...] = 77
                        results = [q for q in results if not any(
                            np.shares_memory(a, b) for a in arrays_in(q[0]) for b in arrays_in(r[0]))
                            or q[3] == r[3]]
                        ctx.fault("caller-overwrites-result")
                    continue
                _, name, aspec, kspec, cut = op
                get = shared.__getitem__
                args = [resolve(a, get) for a in aspec]
                kw = {q: resolve(a, get) for q, a in kspec.items()}
                before = snapshot([args, list(kw.values())])
                exc = EXC[cut[1]]("injected") if cut else None
                o = outcome(name, args, kw, out, lambda f: s.call(f, cut[0] if cut else None, exc))
                hit = o[0] == "exc" and o[1] is exc
                if hit:
                    ctx.fault(f"{cut[1]}-at-line")
                why = "was interrupted" if hit else "returned"
                if not close(snapshot([args, list(kw.values())]), before, 0.0):
                    ctx.violate("argument-modified", f"{name} changed its arguments ({why})")
                check_args(k, versions, name, why)
                for q in results:
                    if not close(snapshot(q[0]), q[1], 0.0):
                        ctx.violate("result-changed", f"the result of an earlier {q[2]} changed when {name} {why}")
                exp = expected[k][n]
                marks.append((k, name, "cut" if hit else o[0]))
                if hit:
                    continue
                if o[0] != exp[0]:
                    ctx.violate("outcome-differs", f"{name}{aspec}{kspec}: {o[0]} "
                                f"{type(o[1]).__name__ if o[0] == 'exc' else ''}; in a fresh process: {exp[:2]}")
                if o[0] == "exc":
                    if type(o[1]).__name__ != exp[1]:
                        ctx.violate("outcome-differs", f"{name}: {o[1]!r}, in a fresh process {exp[1]}")
                    continue
                rtol = LOOSE.get(name, 1e-10)
                if meta(o[1]) != exp[3] or not close(o[1], exp[1], rtol, 1e-13 if rtol < 1e-9 else 1e-9):
                    ctx.violate("result-differs", f"{name}{aspec}{kspec} = {str(o[1])[:300]}, in a fresh process {str(exp[1])[:300]}")
                if o[2] != exp[2]:
                    ctx.violate("result-differs", f"{name} printed {o[2]!r}, in a fresh process {exp[2]!r}")
                ctx.log(k, name, np.round(np.asarray(o[1], float), 6) if isinstance(o[1], (float, np.floating)) else name)
                results.append((o[1], snapshot(o[1]), name, n))
                ctx.probe(name)
        for q in results:
            if not close(snapshot(q[0]), q[1], 0.0):
                ctx.violate("result-changed", f"the result of {q[2]} changed later")

    tasks = s.run([lambda k=k: body(k) for k in range(len(plan["tasks"]))])
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    ctx.state(marks, min(ctx.n_switch, 40) // 4)
