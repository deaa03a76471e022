"""C17: external wavelet transform is all-or-nothing and leaves no files behind."""
import errno
import io
import os
import random
import resource
import signal

import numpy as np

from .. import boot
from .. import rig as R
from ..core import EXC, close, in_fork, nprng
from ..sched import Sched, point

ID = "C17"
BUDGET = {"quick": (2400, 240), "thorough": (60000, 1500)}
RULE = ("a run counts if at least one call reached the simulated program or was refused, and the directory "
        "was compared before and after; distinct plans counted once")
STATE_MEASURE = "sequence of (function, program behaviour, disk fault, outcome) x switches (bucketed)"
REAL = "call_mr_transform, get_mr_filters, execute, is_executable, astropy FITS files in a scratch directory"
STUB = "the external program (simulated process), failing open, file size limit as full disk, clock, random names, thread scheduling"
ASSUME = ["interrupts arrive while the call waits for the program or opens a file, not between two source lines",
          "a crashed program may leave any prefix of a correct output file; it does not write a complete wrong file",
          "a program that is still running after an interrupt does not write afterwards",
          "when asked to keep the files, a failed call may keep or remove them"]
KEEP = ("shape",)
BEHAVE = ["good"] * 8 + ["error", "error_after", "nothing", "truncated", "truncated", "missing", "crash", "interrupt",
                         "interrupt_after", "garbage", "noisy", "error_partial"]
WORDS = ["bad option -z", "Error: cannot transform", "Sorry, no memory"]


def report(c):
    """The error report of the program, in the middle of its other output."""
    w, k = WORDS[c["word"]], c.get("around", 0)
    pre = "Number of scales = 4\n" * (k if k > 3 else k & 1)
    post = "Type of transform = 2\n" * (k if k > 3 else k >> 1)
    return f"{pre}{w}\n{post}".encode()


def gen(rng, tier, i):
    threads = rng.choice([1, 1, 1, 2, 2, 3])
    tasks = []
    for t in range(threads):
        ops = []
        for _ in range(rng.randint(1, 4) if threads == 1 else rng.randint(1, 3)):
            c = {"fn": rng.choice(["call"] * 4 + ["filters", "execute"]), "behave": rng.choice(BEHAVE), "frac": rng.random(),
                 "shape": list(rng.choice([(4, 4), (5, 3), (8, 8), (20, 30), (1, 1)])), "seed": rng.randrange(50),
                 "dtype": rng.choice(["float64", "float64", "float32", "int64", "int16", "uint8"]),
                 "opt": rng.choice(["", "-t 2", "-t 2 -n 3", ["-t", "2"], ["-n", "4", "-L"], []]),
                 "path": rng.choice([None, "d1/", "d1/", "d2/", "with blank/", "gone/"]), "keep": rng.random() < 0.2,
                 "coarse": rng.random() < 0.5, "trim": rng.random() < 0.3, "out": rng.choice(["f4", "f8"]),
                 "scales": rng.choice([2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 12, 20, 40]), "word": rng.randrange(3), "around": rng.choice([0, 0, 1, 2, 3, 300]),
                 "fault": None, "reseed": rng.choice([None, None, None, 5, 6]), "stall": rng.choice([0, 0, 1, 100000])}
            if c["path"] == "gone/" and rng.random() < 0.7:
                c["path"] = "d1/"
            if threads == 1 and rng.random() < 0.3:
                c["fault"] = rng.choice([["full", rng.choice([0, 100, 2000, 2880, 4000, 6000])],
                                         ["open", rng.randrange(6), rng.choice(["EIO", "ENOSPC", "EMFILE", "EACCES"])],
                                         ["openint", rng.randrange(6), "interrupt"],
                                         ["nopath"]])
            if threads == 1 and rng.random() < 0.2:
                c["collide"] = rng.choice([["fits"], ["mr"], ["fits", "mr"]])
            ops.append(c)
        tasks.append(ops)
    return {"tasks": tasks, "kept": [rng.choice(["d1", "d2", "."]) for _ in range(rng.randint(0, 3))],
            "seed": rng.randrange(1 << 20),
            "sched": {"seed": rng.randrange(1 << 30), "p": rng.choice([0.1, 0.4, 0.7])}}


def sequential(plan):
    return dict(plan, sched={"explicit": []})


def coefficients(data, opts, scales):
    """What the simulated program computes: depends on every input and option."""
    h = sum((k + 1) * sum(map(ord, str(o))) for k, o in enumerate(opts)) % 17
    d = np.asarray(data, dtype=float)
    return np.array([np.roll(d, j, axis=0) * (j + 1) + 3 * h + j for j in range(scales)])


class Prog:
    """One simulated process."""

    def __init__(self, sim, args, kw):
        self.sim, self.kw, self.pid = sim, kw, 4242
        self.args = args
        self.returncode = None
        self.c = sim.current()
        argv = args.split() if isinstance(args, str) else [str(a) for a in args]
        self.argv = argv
        self.c_log = {"argv": argv, "ran": False}
        sim.started(self.c, self.c_log)
        if self.c["behave"] == "missing":
            sim.ctx.fault("program-missing")
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        self.text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
        self.stdout = self.stderr = None
        self._out = None

    def _run(self):
        if self._out is None:
            point("program")
            self._out = self.sim.program(self.c, self.argv, self.c_log)
            self.returncode = self._out[2]
            point("program-end")

    def _conv(self, b):
        return b.decode(self.kw.get("encoding") or "utf-8", self.kw.get("errors") or "strict") if self.text else b

    def communicate(self, input=None, timeout=None):
        self._run()
        out, err, _ = self._out
        so, se = self.kw.get("stdout"), self.kw.get("stderr")
        if se == -2:
            out, err = out + err, b""
        return (self._conv(out) if so == -1 else None, self._conv(err) if se == -1 else None)

    def wait(self, timeout=None):
        self._run()
        return self.returncode

    def poll(self):
        self._run()
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def __getattr__(self, name):
        if name in ("stdout", "stderr"):
            self._run()
            return io.BytesIO(self._out[0 if name == "stdout" else 1])
        raise AttributeError(name)


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.s = None
        self.cur = {}
        self.logs = {}
        self.expected = {}

    def me(self):
        t = self.s.me() if self.s else None
        return t.id if t else -1

    def current(self):
        return self.cur[self.me()]

    def started(self, c, log):
        self.logs.setdefault(self.me(), []).append(log)

    def program(self, c, argv, log):
        """Runs in the caller's thread, as the separate process would."""
        from astropy.io import fits
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        hook = boot.SEAMS["open_hook"]
        boot.SEAMS["open_hook"] = None
        # the program has its own limits, not those set for this process
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, lim[1]))
        try:
            log["ran"] = True
            b = c["behave"]
            if c["stall"]:
                boot.CLOCK.advance(c["stall"])
            if c["fn"] == "execute":
                return (f"out of {' '.join(argv)}".encode(), b"warning: none", 0)
            if b == "interrupt":
                self.ctx.fault("program-interrupt")
                log["interrupted"] = True
                raise EXC["interrupt"]("injected")
            if b == "error":
                self.ctx.fault("program-error")
                return (report(c), b"", 255)
            if b == "nothing":
                self.ctx.fault("program-nothing")
                return (b"", b"", 0)
            if len(argv) < 3 or not os.path.exists(argv[-2]) or not argv[-2].endswith(".fits"):
                return (b"Error: wrong number of parameters\n", b"", 255)
            src, dst, opts = argv[-2], argv[-1], argv[1:-2]
            if os.path.exists(dst):
                self.ctx.violate("would-overwrite", f"the program is told to write over the existing {dst}")
            try:
                data = fits.getdata(src)
            except Exception as e:  # noqa: BLE001
                log["bad_input"] = repr(e)
                return (b"Error: cannot read input\n", b"", 255)
            log["data"] = np.array(data)
            log["opts"] = opts
            coef = coefficients(data, opts, c["scales"]).astype(">" + c["out"])
            log["coef"] = coef
            tmp = dst + ".tmpout"
            fits.writeto(tmp, coef)
            with boot.SEAMS["real_open"](tmp, "rb") as f:
                blob = f.read()
            os.unlink(tmp)
            full = len(blob)
            need = 2880 * (full // 2880 - -(-coef.nbytes // 2880)) + coef.nbytes
            if b in ("truncated", "crash", "error_partial"):
                # cut before the last data byte: the coefficients are incomplete
                blob = blob[: int(need * c["frac"])]
                self.ctx.fault("program-" + b)
            with boot.SEAMS["real_open"](dst, "wb") as f:
                f.write(blob)
            if b == "interrupt_after":
                self.ctx.fault("program-interrupt-late")
                log["interrupted"] = True
                raise EXC["interrupt"]("injected")
            if b == "crash":
                return (b"", b"Segmentation fault\n", -signal.SIGSEGV)
            if b in ("error_after", "error_partial"):
                self.ctx.fault("program-error-late")
                return (b"transform done\n" + report(c), b"", 1)
            if b == "garbage":
                self.ctx.fault("program-garbage")
                return (b"\xff\xfe\x80 done", b"", 0)
            if b == "noisy":
                return (b"Input image = x\nNumber of scales = 4\n" * 50, b"some warning\n", 0)
            return (b"", b"", 0)
        finally:
            boot.SEAMS["open_hook"] = hook
            resource.setrlimit(resource.RLIMIT_FSIZE, lim)


def listing():
    out = {}
    for d, dirs, files in os.walk("."):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            with boot.SEAMS["real_open"](p, "rb") as fh:
                out[os.path.normpath(p)] = fh.read()
    return out


def run(plan, ctx):
    from modopt.signal import wavelet as W

    R.silence()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    for d in ("bin", "d1", "d2", "with blank"):
        os.makedirs(d)
    with open("bin/mr_transform", "w") as f:
        f.write("#!/bin/false\n")
    with open("bin/prog", "w") as f:
        f.write("#!/bin/false\n")
    for n in ("mr_transform", "prog"):
        os.chmod("bin/" + n, 0o755)
    os.environ["PATH"] = os.path.abspath("bin") + ":" + "/usr/bin"
    for k, d in enumerate(plan["kept"]):
        for e in ("fits", "mr"):
            with open(f"{d}/mr_temp_2023.01.01_00.00.0{k}123.{e}", "wb") as f:
                f.write(b"user data %d" % k)
    boot.CLOCK.reset()
    boot.CLOCK.active = True
    random.seed(plan["seed"])
    sim = Sim(plan, ctx)
    boot.SEAMS["popen_hook"] = lambda *a, **k: Prog(sim, a[0] if a else k.pop("args"), k)
    s = sim.s = Sched(ctx, plan["sched"], max_steps=10**6)
    many = len(plan["tasks"]) > 1
    marks = []
    kept_files = {}
    start = {}

    def inp(c):
        x = nprng("c17", c["seed"]).normal(size=tuple(c["shape"])) * 10
        return (np.abs(x) if c["dtype"][0] == "u" else x).astype(c["dtype"])

    def call(c, x):
        if c["fn"] == "filters":
            return W.get_mr_filters(tuple(c["shape"]), opt=c["opt"], coarse=c["coarse"], trim=False)
        if c["fn"] == "execute":
            return W.execute("prog -a b  " + str(c["seed"]))
        kw = {"remove_files": not c["keep"]}
        if c["path"] is not None:
            kw["path"] = c["path"]
        if c["opt"] != "":
            kw["opt"] = list(c["opt"]) if isinstance(c["opt"], list) else c["opt"]
        return W.call_mr_transform(x, **kw)

    def one(k, n, c):
        me = sim.me()
        sim.cur[me] = c
        sim.logs[me] = []
        x = inp(c)
        x0 = x.copy()
        nopens = [0]
        fired = [None]
        flt = c["fault"]
        if c["reseed"] is not None:
            random.seed(c["reseed"])
        before = None if many else listing()
        if c.get("collide") and c["fn"] == "call" and os.path.isdir(c["path"] or "."):
            # learn the names the call would use, then put the user's files there
            st, clk = random.getstate(), dict(boot.CLOCK.__dict__)

            def dry():
                os.makedirs("dry", exist_ok=True)
                kw = {"path": c["path"]} if c["path"] else {}
                sim.cur[me] = dict(c, behave="good", stall=0)
                try:
                    W.call_mr_transform(x, **kw)
                except Exception:  # noqa: BLE001
                    pass
                log = sim.logs[me]
                return " ".join(log[-1]["argv"][-2:]) if log and " " not in (c["path"] or "") else ""

            names = in_fork(dry).split(" ")
            random.setstate(st)
            boot.CLOCK.__dict__.update(clk)
            for q, e in zip(names, ("fits", "mr")):
                if q and e in c["collide"]:
                    with boot.SEAMS["real_open"](q, "wb") as f:
                        if e == "mr":
                            from astropy.io import fits
                            fits.writeto(f, np.full((2, 3, 3), 42.0))
                        else:
                            f.write(b"precious")
                    ctx.fault("name-collision-" + e)
            before = listing()

        def hook(real, file, mode="r", *args, **kwargs):
            if isinstance(file, (str, os.PathLike)) and "mr_temp" in str(file) and flt and flt[0] in ("open", "openint"):
                j = nopens[0]
                nopens[0] += 1
                if j == flt[1]:
                    fired[0] = True
                    if flt[0] == "openint":
                        ctx.fault("open-interrupt")
                        raise EXC["interrupt"]("injected")
                    ctx.fault("open-" + flt[2])
                    raise OSError(getattr(errno, flt[2]), "simulated", str(file))
            return real(file, mode, *args, **kwargs)

        path0 = os.environ["PATH"]
        if flt and flt[0] == "full":
            resource.setrlimit(resource.RLIMIT_FSIZE, (flt[1], resource.RLIM_INFINITY))
            ctx.fault("disk-full")
        elif flt and flt[0] == "nopath":
            os.environ["PATH"] = "/usr/bin:/nonexistent"
            ctx.fault("executable-missing")
        elif flt:
            boot.SEAMS["open_hook"] = hook
        err = res = None
        try:
            res = call(c, x)
        except (Exception, KeyboardInterrupt) as e:
            err = e
        finally:
            boot.SEAMS["open_hook"] = None
            os.environ["PATH"] = path0
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        logs = sim.logs[me]
        what = f"{c['fn']} with program behaviour '{c['behave']}', fault {flt}, {c['shape']} {c['dtype']}"
        if not close(x, x0, 0.0):
            ctx.violate("input-modified", f"{what} changed its input")
        if c["fn"] == "execute":
            if c["behave"] == "missing":
                if err is None:
                    ctx.violate("failure-hidden", "execute of a missing program returned")
            elif err is not None:
                raise err
            elif tuple(res) != (f"out of prog -a b {c['seed']}", "warning: none"):
                ctx.violate("wrong-output", f"execute returned {res}")
            marks.append(("execute", c["behave"]))
            ctx.probe("execute")
            return
        good = c["behave"] in ("good", "noisy")
        healthy = good and not flt and not c.get("collide")
        if c["path"] in ("with blank/", "gone/") and c["fn"] == "call":
            healthy = False
        if many and (c["reseed"] is not None or any(q["reseed"] is not None for ops in plan["tasks"] for q in ops)):
            healthy = healthy and not isinstance(err, FileExistsError)
        if c["keep"] or c.get("collide") or any(q["keep"] for ops in plan["tasks"] for q in ops):
            # kept files of an earlier call may collide with the name of this one
            healthy = healthy and not isinstance(err, FileExistsError)
        if err is None:
            if len(logs) != 1 or "coef" not in logs[0]:
                ctx.violate("made-up", f"{what}: returned data although the program never produced any")
            lg = logs[0]
            want_in = x
            if c["fn"] == "filters":
                sh = tuple(v + v % 2 - 1 for v in c["shape"])
                want_in = np.zeros(sh)
                want_in[tuple(v // 2 for v in sh)] = 1
            if not close(lg["data"], want_in, 0.0):
                ctx.violate("wrong-input", f"{what}: the program was given other data than the caller's")
            opts = c["opt"].split() if isinstance(c["opt"], str) else list(c["opt"])
            if lg["opts"] != opts:
                ctx.violate("wrong-options", f"{what}: the program was given options {lg['opts']} instead of {opts}")
            if not good and c["behave"] != "garbage":
                ctx.violate("failure-hidden", f"{what}: returned {np.shape(res)}")
            want = lg["coef"].astype(want_in.dtype)
            if c["fn"] == "filters" and not c["coarse"]:
                want = want[:-1]
            if np.shape(res) != want.shape or not close(np.asarray(res), want, 0.0):
                ctx.violate("wrong-result", f"{what}: returned {str(res)[:200]}, the program wrote {str(want)[:200]}")
            if c["fn"] == "call" and np.asarray(res).dtype != want.dtype:
                ctx.violate("wrong-result", f"{what}: returned type {np.asarray(res).dtype}")
        elif healthy:
            if isinstance(err, Exception) and not getattr(err, "injected", False):
                ctx.violate("spurious-failure", f"{what}: healthy call failed: {err!r}")
            raise err
        if logs and logs[0].get("interrupted") and not getattr(err, "injected", False):
            ctx.violate("interrupt-hidden", f"{what}: interrupt while waiting, caller got {err!r}")
        mine = {os.path.normpath(" ".join(a["argv"][-2:]).split(" ")[z]) for a in logs for z in (0, 1)} if logs else set()
        if err is None and c["keep"] and c["fn"] == "call":
            kept_files.update({p: True for p in mine})
        if not many:
            now = listing()
            for p, v in before.items():
                if p not in now:
                    ctx.violate("file-removed", f"{what}: {p} was there before and is gone")
                if now[p] != v:
                    ctx.violate("file-changed", f"{what}: {p} was there before and is changed")
            new = sorted(set(now) - set(before))
            if c["keep"] and c["fn"] == "call":
                if err is None:
                    missing = [p for p in mine if p not in now]
                    if missing:
                        ctx.violate("not-kept", f"{what}: asked to keep the files, {missing} are gone")
                    if any(p not in mine for p in new):
                        ctx.violate("files-left", f"{what}: left {new}")
                elif any("mr_temp" not in p for p in new):
                    ctx.violate("files-left", f"{what}: left {new}")
            elif new:
                ctx.violate("files-left", f"{what} ({'returned' if err is None else type(err).__name__}): left {new}")
        marks.append((c["fn"], c["behave"], flt and flt[0], type(err).__name__))
        ctx.log(k, n, c["fn"], c["behave"], type(err).__name__)
        ctx.probe(("ok-" if err is None else "raised-") + c["behave"])

    def body(k):
        with np.errstate(all="ignore"):
            for n, c in enumerate(plan["tasks"][k]):
                one(k, n, c)
                point("between")

    start = listing()
    try:
        tasks = s.run([lambda k=k: body(k) for k in range(len(plan["tasks"]))])
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        end = listing()
    finally:
        boot.SEAMS["popen_hook"] = None
        boot.CLOCK.active = False
    for p, v in start.items():
        if end.get(p) != v:
            ctx.violate("file-changed", f"{p} was there before and is changed or gone")
    if many and not any(c["keep"] for ops in plan["tasks"] for c in ops):
        new = sorted(set(end) - set(start))
        if new:
            ctx.violate("files-left", f"after concurrent calls: {new}")
    ctx.sim_time += boot.CLOCK.mono - 1000.0
    ctx.state(marks, min(ctx.n_switch, 30) // 5)
