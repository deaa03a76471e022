"""C16: log files are complete, ordered, separate and released."""
import errno
import io
import logging
import os
import resource
import signal

from .. import boot
from .. import rig as R
from ..core import close  # noqa: F401
from ..sched import Sched, point

ID = "C16"
BUDGET = {"quick": (4000, 240), "thorough": (100000, 1500)}
RULE = ("a run counts if at least one log was set up and its file read back after every call; distinct "
        "plans counted once")
STATE_MEASURE = "sequence of (call, outcome, disk state)"
REAL = "set_up_log, close_log, catch_error, the logging package, real files in a scratch directory"
STUB = "the disk below the file (short writes, write errors, full disk, failing open), clock, thread scheduling"
ASSUME = ["a message logged while the disk refuses writes may be missing or arrive when the disk recovers",
          "two logs do not write to one file, and no log is named '<other>.log.<rest>' (recorded as a known finding)",
          "what another process reads from the file after the call is what survives a crash of the process"]
NAMES = ["a", "b", "run.1", "run.1.b", "sub/c", "log", "sub/a"]
LEVELS = ["debug", "info", "warning", "error", "critical"]
TEXTS = ["plain", "args", "unicode", "newline", "percent", "long", "empty"]


def gen(rng, tier, i):
    threads = rng.choice([1, 1, 1, 2])
    tasks = []
    for t in range(threads):
        names = NAMES if threads == 1 else NAMES[t::2]
        names = rng.sample(names, min(len(names), rng.choice([1, 2, 2, 3])))
        ops = [["setup", rng.choice(names), rng.random() < 0.3]]
        for _ in range(rng.randint(4, 18)):
            k = rng.random()
            n = rng.choice(names)
            if k < 0.16:
                ops.append(["setup", n, rng.random() < 0.3])
            elif k < 0.5:
                ops.append(["log", n, rng.choice(LEVELS), rng.choice(TEXTS)])
            elif k < 0.65:
                ops.append(["error", n, rng.choice(["in", "out", "in"])])
            elif k < 0.8:
                ops.append(["close", n, rng.random() < 0.3])
            elif k < 0.84:
                ops.append(["extra", n])
            elif k < 0.9 and threads == 1:
                ops.append(["disk", rng.choice(["full", "eio", "short", "ok", "ok", "torn"])])
            elif k < 0.94:
                ops.append(["openfail", rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"])])
            elif k < 0.97:
                ops.append(["clock", rng.choice([-3600, 3600, 1, -86400 * 400])])
            else:
                ops.append(["error", None, "in"])
        if rng.random() < 0.02:
            # a log of many records
            ops += [["log", names[0], rng.choice(LEVELS), rng.choice(["plain", "unicode", "args"])] for _ in range(rng.choice([70, 150]))]
        if rng.random() < 0.7:
            ops.append(["disk", "ok"])
            ops += [["setup", n, False] for n in names] + [["log", n, "info", "plain"] for n in names] + [["close", n, False] for n in names]
        tasks.append(ops)
    return {"tasks": tasks, "sched": {"seed": rng.randrange(1 << 30), "p": rng.choice([0.1, 0.4])}}


class Disk:
    state = "ok"


class Raw(io.RawIOBase):
    """File on the simulated disk."""

    def __init__(self, f, ctx):
        self.f, self.ctx = f, ctx
        self.name = f.name

    def fileno(self):
        return self.f.fileno()

    def writable(self):
        return True

    def seekable(self):
        return self.f.seekable()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def write(self, b):
        if Disk.state == "eio":
            self.ctx.fault("write-EIO")
            raise OSError(errno.EIO, "simulated")
        if Disk.state == "torn":
            self.ctx.fault("write-torn")
            Disk.state = "eio"
            return self.f.write(bytes(b)[:max(1, len(b) // 2)])
        if Disk.state == "short" and len(b) > 3:
            self.ctx.fault("write-short")
            return self.f.write(bytes(b)[:3])
        return self.f.write(b)

    def close(self):
        if not self.closed:
            self.f.close()
            super().close()


def text(kind, tok):
    if kind == "args":
        return ("value %s of %d", (tok, 7))
    if kind == "unicode":
        return (f"{tok} \u00e9\u03c3\u221e", ())
    if kind == "newline":
        return (f"{tok}\nsecond line\n", ())
    if kind == "percent":
        return (f"{tok} 100%", ())
    if kind == "long":
        return (f"{tok} " + "x" * 20000, ())
    if kind == "empty":
        return (tok, ())
    return (f"message {tok} here", ())


def run(plan, ctx):
    from modopt.interface.errors import catch_error
    from modopt.interface.log import close_log, set_up_log

    R.silence()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    boot.CLOCK.reset()
    boot.CLOCK.active = True
    os.makedirs("sub", exist_ok=True)
    real_open = boot.SEAMS["real_open"]
    pending_open = {}
    s = Sched(ctx, plan["sched"], max_steps=10**6)

    def hook(real, file, mode="r", *args, **kwargs):
        if not (isinstance(file, (str, os.PathLike)) and str(file).endswith(".log")) or "r" in mode and "+" not in mode:
            return real(file, mode, *args, **kwargs)
        me = s.me()
        e = pending_open.pop(me.id if me else 0, None)
        if e:
            ctx.fault("open-" + e)
            raise OSError(getattr(errno, e), "simulated", file)
        if "b" in mode:
            return real(file, mode, *args, **kwargs)
        names = ("buffering", "encoding", "errors", "newline")
        kw = dict(zip(names, args))
        kw.update(kwargs)
        raw = Raw(real(file, mode.replace("t", "") + "b", buffering=0), ctx)
        return io.TextIOWrapper(io.BufferedWriter(raw), encoding=kw.get("encoding") or "utf-8",
                                errors=kw.get("errors"), newline=kw.get("newline"),
                                line_buffering=kw.get("buffering") == 1)

    boot.SEAMS["open_hook"] = hook
    logs, model, extra = {}, {}, {}
    ntok = [0]
    every = {}
    marks = []

    def token(name):
        ntok[0] += 1
        t = f"tok{ntok[0]:05d}z"
        every[t] = name
        return t

    def read(name):
        try:
            with real_open(name + ".log", "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def fds():
        out = []
        for d in os.listdir("/proc/self/fd"):
            try:
                p = os.readlink("/proc/self/fd/" + d)
            except OSError:
                continue
            if p.endswith(".log") or p.endswith(".log (deleted)"):
                out.append(os.path.relpath(p.replace(" (deleted)", "")))
        return sorted(out)

    def bad():
        return Disk.state in ("full", "eio", "torn")

    def verify(op):
        for name, m in model.items():
            data = read(name)
            if data is None:
                if m["content"] is not None:
                    ctx.violate("file-lost", f"{name}.log disappeared after {op}")
                continue
            if m["content"] is not None and not data.startswith(m["content"]):
                ctx.violate("rewritten", f"{name}.log lost or changed earlier content after {op}")
            m["content"] = data
            if m["tokens"] is None:
                continue
            pos = -1
            for t, sure, full in m["tokens"]:
                c = data.count(t.encode())
                if c > 1:
                    ctx.violate("duplicated", f"message {t} is {c} times in {name}.log after {op}")
                if c == 0:
                    if sure:
                        ctx.violate("lost", f"message {t} is not in {name}.log after {op}; file: {data[-300:]!r}")
                    continue
                if sure and full.encode() not in data:
                    ctx.violate("incomplete", f"message {t} is not complete in {name}.log after {op}")
                p = data.index(t.encode())
                if p < pos:
                    ctx.violate("out-of-order", f"message {t} is before an earlier one in {name}.log")
                pos = p
            mine = {t for t, *_ in m["tokens"]}
            for t, owner in every.items():
                if t not in mine and t.encode() in data:
                    ctx.violate("leaked", f"message {t} of log {owner} is in {name}.log after {op}")
        want = sorted(n + ".log" for n, m in model.items() if m["open"])
        have = fds()
        maybe = {n + ".log" for n, m in model.items() if m.get("unsure")}
        if [f for f in have if f not in maybe] != [f for f in want if f not in maybe]:
            ctx.violate("descriptors", f"open log files {have}, expected {want} after {op}")

    def do(op, me):
        kind, *a = op
        if kind == "disk":
            Disk.state = a[0]
            used = max([os.path.getsize(n + ".log") for n in NAMES if os.path.exists(n + ".log")] or [0])
            resource.setrlimit(resource.RLIMIT_FSIZE, ((used + 10 if a[0] == "full" else resource.RLIM_INFINITY), resource.RLIM_INFINITY))
            ctx.fault("disk-" + a[0])
            return "set"
        if kind == "openfail":
            pending_open[me] = a[0]
            return "set"
        if kind == "clock":
            boot.CLOCK.jump(a[0])
            ctx.fault("clock-jump")
            return "set"
        name = a[0]
        m = model.get(name) if name else None
        sure = not bad()
        if kind == "setup":
            old = m and m["open"]
            if m is None:
                m = model[name] = {"open": False, "tokens": None, "content": read(name), "unsure": False}
            dirty = bad() or m.get("dirty")
            m.update(content=None, tokens=None)
            nopen = sum(v for k, v in ctx.faults.items() if k.startswith("open-"))
            try:
                log = set_up_log(name, verbose=a[1])
            except OSError:
                if sure and not dirty and nopen == sum(v for k, v in ctx.faults.items() if k.startswith("open-")):
                    raise
                # refused: nothing may stay attached
                left = logging.getLogger(name + ".log").handlers
                if left:
                    ctx.violate("leftover", f"failed set-up of {name} leaves outputs attached: {left}")
                m.update(open=False, unsure=False, tokens=None, dirty=False, content=None)
                logs.pop(name, None)
                return "failed"
            logs[name] = log
            m.update(open=True, tokens=[], content=None, unsure=False, dirty=not sure)
            data = read(name)
            if data is None:
                ctx.violate("no-file", f"set-up of {name} created no {name}.log")
            if sure and not data.strip():
                ctx.violate("lost", f"no opening record in {name}.log")
            if sure and data.count(b"\n") != 1:
                ctx.violate("leftover", f"fresh {name}.log holds {data[:300]!r}")
            extra[name] = None
            return "again" if old else "ok"
        if kind == "error" and name is None:
            try:
                raise KeyError("nolog")
            except KeyError as e:
                catch_error(str(e))
            return "nolog"
        if m is None or name not in logs:
            return "skip"
        log = logs[name]
        if kind == "extra":
            if m["open"] and not extra.get(name):
                st = io.StringIO()
                h = logging.StreamHandler(st)
                log.addHandler(h)
                extra[name] = st
            return "ok"
        if kind in ("log", "error"):
            tok = token(name)
            before = extra[name].getvalue() if extra.get(name) else None
            full = tok
            if kind == "log":
                msg, args = text(a[2], tok)
                full = msg % args if args else msg
                getattr(log, a[1])(msg, *args)
            elif a[1] == "in":
                try:
                    raise ValueError("inner failure")
                except ValueError:
                    catch_error(tok, log)
            else:
                catch_error(tok, log)
            if m["open"]:
                m["tokens"].append((tok, sure, full))
                m["dirty"] = m.get("dirty") or not sure
                if before is not None and tok not in extra[name].getvalue():
                    ctx.violate("extra-output", f"message {tok} did not reach the handler added to log {name}")
            elif extra.get(name) and tok in extra[name].getvalue():
                ctx.violate("still-attached", f"a handler added to log {name} still gets messages after closing")
            return "open" if m["open"] else "closed"
        if kind == "close":
            was = m["open"]
            before = read(name)
            try:
                close_log(log, verbose=a[1])
                res = "ok"
            except OSError:
                if sure and not m.get("dirty"):
                    raise
                res = "failed"
            if log.handlers:
                ctx.violate("still-attached", f"closing {name} ({res}) leaves outputs attached: {log.handlers}")
            m["open"] = False
            after = read(name)
            if was and sure and not m.get("dirty"):
                new = after[len(before):]
                if not after.startswith(before) or new.count(b"\n") != 1 or len(new.strip()) < 10:
                    ctx.violate("completion", f"closing {name} added {new!r} instead of one completion record")
            if not was and after != before:
                ctx.violate("completion", f"closing the closed log {name} changed its file")
            return res if was else "closed"
        raise KeyError(kind)

    def body(k):
        for op in plan["tasks"][k]:
            r = do(op, k)
            marks.append((k, op[0], r, Disk.state))
            ctx.log(k, op, r)
            ctx.probe(f"{op[0]}-{r}")
            if len(plan["tasks"]) == 1:
                verify(op)
            point("op")

    try:
        tasks = s.run([lambda k=k: body(k) for k in range(len(plan["tasks"]))])
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        verify("the end")
    finally:
        boot.SEAMS["open_hook"] = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        boot.CLOCK.active = False
        Disk.state = "ok"
    ctx.sim_time += boot.CLOCK.mono - 1000.0
    ctx.state(marks)
