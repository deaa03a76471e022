"""C18: saving a cost plot writes the requested file and releases everything."""
import errno
import os
import resource
import signal
import sys

import numpy as np

from .. import boot
from .. import rig as R
from ..core import EXC, close, in_fork

ID = "C18"
BUDGET = {"quick": (900, 240), "thorough": (22000, 1500)}
RULE = ("a run counts if at least one plot was attempted and the files, figures and descriptors were compared "
        "before and after; distinct plans counted once")
STATE_MEASURE = "sequence of (operation, data kind, fault, outcome)"
REAL = "plotCost, CostParent.plot_cost, costObj, matplotlib with the Agg canvas, real files in a scratch directory"
STUB = "the disk below the file (failing open, full disk), failing drawing, standard output"
ASSUME = ["errors arrive where the plot is drawn, opened, written or announced, not between two source lines",
          "after a plot that raised, its own file may be missing or incomplete",
          "the picture is compared with the one the same call makes in a fresh process"]
KEEP = ("data",)
NAMES = [None, None, "run", "run", "x.y", "with blank", "sub/run", "gone/run", "", "run_cost_function.png", "caf\u00e9", "sub/../run2", 3]
FAULTS = [None] * 13 + ["open-EIO", "open-ENOSPC", "open-EACCES", "open-interrupt", "full-0", "full-100", "full-4000",
                       "draw-memory", "draw-interrupt", "draw-late", "stdout", "stdout-interrupt", "dir"]


def _warm():
    """Fill matplotlib's font cache once, before the runs are forked."""
    import io

    import matplotlib.pyplot as plt
    f = plt.figure()
    plt.plot([1, 2])
    plt.title("Cost")
    plt.ylabel(r"$\log_{10}$ Cost")
    f.savefig(io.BytesIO())
    plt.close(f)


_warm()


def gen_data(rng):
    k = rng.choice(["dec", "dec", "dec", "one", "empty", "zero", "neg", "nan", "inf", "huge", "tuple", "array", "int", "f32",
                    "str", "none", "ragged", "const", "long"])
    n = rng.randint(2, 12)
    v = [round(100 * 0.5 ** j * (1 + rng.random()), 6) for j in range(n)]
    return {"kind": k, "values": v}


def make(d):
    k, v = d["kind"], list(d["values"])
    if k == "one":
        return v[:1]
    if k == "empty":
        return []
    if k == "zero":
        return v + [0.0]
    if k == "neg":
        return v + [-3.0] + v
    if k == "nan":
        return v + [float("nan")] + v
    if k == "inf":
        return v + [float("inf")] + v
    if k == "huge":
        return [x * 1e290 for x in v] + [1e-300]
    if k == "tuple":
        return tuple(v)
    if k == "array":
        return np.array(v)
    if k == "int":
        return [int(x) + 1 for x in v]
    if k == "f32":
        return np.array(v, dtype=np.float32)
    if k == "str":
        return [str(x) for x in v]
    if k == "none":
        return v + [None]
    if k == "ragged":
        return [v, v[:1]]
    if k == "const":
        return [7.0] * len(v)
    if k == "long":
        return v * (40 if len(v) % 2 else 300)
    return v


def gen(rng, tier, i):
    ops = []
    pool = [gen_data(rng) for _ in range(2)]
    names = [rng.choice(NAMES) for _ in range(2)]
    plots = 0
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        if k < 0.5 and plots < 4:
            plots += 1
            ops.append({"op": "plot", "data": rng.choice(pool), "name": rng.choice(names), "fault": rng.choice(FAULTS)})
        elif k < 0.62 and plots < 4:
            plots += 1
            ops.append({"op": "objplot", "obj": rng.randrange(2), "name": None, "fault": rng.choice(FAULTS)})
        elif k < 0.72:
            ops.append({"op": "cost", "obj": rng.randrange(2), "x": round(rng.uniform(1, 50), 4),
                        "n": rng.choice([1, 1, 1, 2, 30, 1100])})
        elif k < 0.86:
            ops.append({"op": "figure", "num": rng.choice([None, 1, 2, 7, "cost", "Cost Function"]), "x": round(rng.random(), 4)})
        elif k < 0.92:
            ops.append({"op": "select", "k": rng.randrange(3)})
        elif k < 0.96:
            ops.append({"op": "close", "k": rng.randrange(3)})
        else:
            ops.append({"op": "interactive", "on": rng.random() < 0.5})
    if not plots:
        ops.append({"op": "plot", "data": rng.choice(pool), "name": None, "fault": rng.choice(FAULTS)})
    return {"ops": ops, "objnames": [rng.choice([None, "o", "sub/o"]), "p"], "interval": rng.choice([1, 1, 2])}


def simpler(plan):
    for j, o in enumerate(plan["ops"]):
        if o.get("fault"):
            yield dict(plan, ops=[dict(q, fault=None) if n == j else q for n, q in enumerate(plan["ops"])])


def listing():
    out = {}
    for d, dirs, files in os.walk("."):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            with boot.SEAMS["real_open"](p, "rb") as fh:
                out[os.path.normpath(p)] = fh.read()
    return out


def descriptors():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((f, os.readlink("/proc/self/fd/" + f)))
        except OSError:
            pass
    # fonts stay open in matplotlib's own cache
    return sorted(x for x in out if "/fd" not in x[1] and "/fonts/" not in x[1])


def picture(path):
    from PIL import Image
    with boot.SEAMS["real_open"](path, "rb") as f:
        im = Image.open(f)
        im.verify()
    with boot.SEAMS["real_open"](path, "rb") as f:
        im = Image.open(f)
        im.load()
        return im.format, np.array(im.convert("RGBA"))


class Stream:
    def __init__(self, ctx):
        self.ctx, self.fail, self.fired = ctx, None, False

    def write(self, s):
        if self.fail:
            self.ctx.fault("stdout-" + self.fail)
            self.fired = True
            raise (EXC["interrupt"]("injected") if self.fail == "interrupt" else OSError(errno.EPIPE, "simulated"))
        return len(s)

    def flush(self):
        pass


def run(plan, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    from modopt.opt.cost import costObj
    from modopt.plot.cost_plot import plotCost

    R.silence()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    out = sys.stdout = Stream(ctx)
    os.makedirs("sub")
    np.seterr(all="ignore")
    real_draw, real_print = FigureCanvasAgg.draw, FigureCanvasAgg.print_figure
    st = {"draw": None, "fired": False, "saved": None}

    def draw(self, *a, **k):
        if st["draw"] in ("memory", "interrupt"):
            ctx.fault("draw-" + st["draw"])
            st["fired"] = True
            raise EXC[st["draw"]]("injected")
        r = real_draw(self, *a, **k)
        if st["draw"] == "late":
            ctx.fault("draw-late")
            st["fired"] = True
            raise EXC["memory"]("injected")
        return r

    def print_figure(self, *a, **k):
        st["saved"] = [np.array(ln.get_ydata(orig=True), dtype=float) for ax in self.figure.axes for ln in ax.lines]
        return real_print(self, *a, **k)

    FigureCanvasAgg.draw, FigureCanvasAgg.print_figure = draw, print_figure

    class Op:
        def cost(self, x, **kw):
            return float(x)

    objs = [costObj([Op()], verbose=False, plot_output=n, cost_interval=plan["interval"], tolerance=-1.0) for n in plan["objnames"]]
    calls = [0, 0]
    hist = [[], []]
    user = []      # (figure, lines)
    sig = []
    refs = {}

    def reference(data, tag):
        if tag not in refs:
            def fresh():
                # a directory of its own, no figures: what a fresh process would draw
                plt.close("all")
                os.makedirs("fresh")
                os.chdir("fresh")
                plt.ioff()
                plotCost(data)
                return picture("cost_function.png")[1]
            os.makedirs("ref")
            here = os.getcwd()
            os.chdir("ref")
            try:
                refs[tag] = in_fork(fresh)
            finally:
                os.chdir(here)
                import shutil
                shutil.rmtree("ref")
        return refs[tag]

    def figstate():
        live = [(f.number, [(a.get_title(), a.get_xlabel(), a.get_ylabel(), [tuple(ln.get_ydata()) for ln in a.lines],
                             len(a.texts), len(a.patches)) for a in f.axes], f._suptitle is None, tuple(f.get_size_inches()))
                for f, _ in user]
        return live

    for op in plan["ops"]:
        o = op["op"]
        if o == "cost":
            j = op["obj"]
            for q in range(op.get("n", 1)):
                objs[j].get_cost(op["x"] + q)
                calls[j] += 1
                if calls[j] % plan["interval"] == 0:
                    hist[j].append(op["x"] + q)
            continue
        if o == "interactive":
            plt.interactive(op["on"])
            continue
        if o == "figure":
            f = plt.figure(op["num"])
            plt.plot([op["x"], 1 - op["x"], op["x"]])
            plt.title("mine")
            if not any(f is u for u, _ in user):
                user.append((f, op["x"]))
            continue
        if o == "select":
            if user:
                plt.figure(user[op["k"] % len(user)][0].number)
            continue
        if o == "close":
            if user:
                f, _ = user.pop(op["k"] % len(user))
                plt.close(f)
            continue
        # ------------------------------------------------ a plot
        if o == "plot":
            data = make(op["data"])
            name, tag = op["name"], repr(op["data"])
            shown = list(data) if not isinstance(data, np.ndarray) else data.copy()
        else:
            j = op["obj"]
            data = list(hist[j])
            name, tag = plan["objnames"][j], repr(("obj", j, len(data)))
            shown = data
        target = os.path.normpath("cost_function.png" if name is None else f"{name}_cost_function.png")
        try:
            exp = np.array(np.log10(np.array(data) if not isinstance(data, np.ndarray) else data), dtype=float)
            valid = exp.ndim == 1
        except (TypeError, ValueError):
            exp, valid = None, False
        if isinstance(name, str) and name.startswith("gone/"):
            valid = False
        flt = op["fault"]
        before, fds, nums, figs = listing(), descriptors(), plt.get_fignums(), figstate()
        cur = plt.gcf().number if nums else None
        rc, inter = dict(matplotlib.rcParams), plt.isinteractive()
        st.update(draw=None, fired=False, saved=None)
        out.fail, out.fired = None, False
        ref = reference(data, tag) if valid else None
        opened = [False]

        def hook(real, file, mode="r", *args, **kwargs):
            if isinstance(file, (str, os.PathLike)) and str(file).endswith(".png") and "w" in mode:
                opened[0] = True
                st["fired"] = True
                ctx.fault(flt)
                if flt == "open-interrupt":
                    raise EXC["interrupt"]("injected")
                raise OSError(getattr(errno, flt[5:]), "simulated", str(file))
            return real(file, mode, *args, **kwargs)

        made_dir = False
        if flt and flt.startswith("open-"):
            boot.SEAMS["open_hook"] = hook
        elif flt and flt.startswith("full-"):
            resource.setrlimit(resource.RLIMIT_FSIZE, (int(flt[5:]), resource.RLIM_INFINITY))
            ctx.fault("disk-full")
            st["fired"] = True
        elif flt and flt.startswith("draw-"):
            st["draw"] = flt[5:]
        elif flt and flt.startswith("stdout"):
            out.fail = "interrupt" if flt.endswith("interrupt") else "error"
        elif flt == "dir" and not os.path.exists(target) and os.path.isdir(os.path.dirname(target) or "."):
            os.makedirs(target)
            made_dir = True
            ctx.fault("target-is-directory")
            st["fired"] = True
        err = None
        try:
            if o == "plot":
                if op["name"] is None:
                    plotCost(data)
                else:
                    plotCost(data, name)
            else:
                objs[j].plot_cost()
        except (Exception, KeyboardInterrupt) as e:
            err = e
        finally:
            boot.SEAMS["open_hook"] = None
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            st["draw"], out.fail = None, None
            if made_dir:
                os.rmdir(target)
        fired = st["fired"] or out.fired
        what = f"{o} to {target!r} ({op['data']['kind'] if o == 'plot' else 'history'}, fault {flt})"
        ctx.log("plot", target, flt, type(err).__name__, valid)
        sig.append((o, op["data"]["kind"] if o == "plot" else "obj", flt, type(err).__name__ if err else "ok"))
        # ------------------------------------------------ figures
        after = plt.get_fignums()
        if after != nums:
            ctx.violate("figures", f"{what}, {'raised' if err else 'returned'}: open figures {nums} became {after}")
        if nums and plt.gcf().number != cur:
            ctx.violate("current-figure", f"{what}: the user's current figure {cur} became {plt.gcf().number}")
        if figstate() != figs:
            ctx.violate("user-figure", f"{what}: a figure of the user was changed")
        if dict(matplotlib.rcParams) != rc or plt.isinteractive() != inter:
            ctx.violate("settings", f"{what}: the plot settings of the process were changed")
        # ------------------------------------------------ descriptors and files
        leak = [x for x in descriptors() if x not in fds]
        if leak:
            ctx.violate("descriptor", f"{what}, {'raised' if err else 'returned'}: {leak} left open")
        now = listing()
        extra = sorted(k for k in set(now) | set(before) if k != target and now.get(k) != before.get(k))
        if extra:
            ctx.violate("other-files", f"{what}: other files were created, changed or removed: {extra}")
        if o == "plot" and not (close(np.array(data), np.array(shown)) if op["data"]["kind"] not in ("str", "none", "ragged")
                                else repr(data) == repr(shown)):
            ctx.violate("input-changed", f"{what}: the cost list given was changed")
        # ------------------------------------------------ outcome
        if err is None:
            if target not in now:
                ctx.violate("no-file", f"{what} returned but there is no file")
            try:
                fmt, pix = picture(target)
            except Exception as e:  # noqa: BLE001
                ctx.violate("incomplete", f"{what} returned but the file is not a complete image: {e!r}")
            if fmt != "PNG":
                ctx.violate("incomplete", f"{what}: the file holds {fmt}, not PNG")
            if valid:
                if st["saved"] is not None and not any(s.shape == exp.shape and close(s, exp, 1e-6) for s in st["saved"]):
                    ctx.violate("data", f"{what}: the saved figure does not show log10 of the costs {exp}, but {st['saved']}")
                if pix.shape != ref.shape or not np.array_equal(pix, ref):
                    ctx.violate("picture", f"{what}: the picture differs from the one a fresh process makes of the same costs")
            ctx.probe("complete")
        else:
            if valid and not fired:
                if getattr(err, "injected", False):
                    raise err
                ctx.violate("unexpected-failure", f"{what} raised {err!r} although nothing failed")
            if out.fired and not st["fired"] and valid and target in now:
                # only the announcement failed: what is there must be complete
                try:
                    picture(target)
                except Exception as e:  # noqa: BLE001
                    ctx.violate("incomplete", f"{what}: the announcement failed and the file is incomplete: {e!r}")
            ctx.probe("raised")
        ctx.probe("plots")
    ctx.state(sig)
