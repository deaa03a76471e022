"""Run context: event log, violations, injected faults, statistics."""
import hashlib
import random
import traceback
from collections import Counter

import numpy as np

from . import boot


class Violation(Exception):
    """The property does not hold in this simulated run."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class StepLimit(BaseException):
    """Step budget of a run exhausted (no progress)."""


class Discard(Exception):
    """The run became ambiguous (near tie in floating point): no verdict."""


class _Inj:
    injected = True


class InjRuntime(_Inj, RuntimeError):
    pass


class InjMemory(_Inj, MemoryError):
    pass


class InjOS(_Inj, OSError):
    pass


class InjValue(_Inj, ValueError):
    pass


class InjType(_Inj, TypeError):
    pass


class InjAttr(_Inj, AttributeError):
    pass


class InjKey(_Inj, KeyError):
    pass


class InjIndex(_Inj, IndexError):
    pass


class InjFloat(_Inj, FloatingPointError):
    pass


class InjZero(_Inj, ZeroDivisionError):
    pass


class InjInterrupt(_Inj, KeyboardInterrupt):
    pass


class InjNotImpl(_Inj, NotImplementedError):
    pass


class InjLinAlg(_Inj, np.linalg.LinAlgError):
    pass


EXC = {
    "runtime": InjRuntime, "memory": InjMemory, "os": InjOS, "value": InjValue,
    "type": InjType, "attr": InjAttr, "key": InjKey, "index": InjIndex,
    "float": InjFloat, "zero": InjZero,
    "interrupt": InjInterrupt, "notimpl": InjNotImpl, "linalg": InjLinAlg,
}
EXC_NAMES = sorted(EXC)


def digest_value(v, h):
    if isinstance(v, np.ndarray):
        h.update(str((v.dtype, v.shape)).encode())
        if v.dtype == object:
            for e in v.ravel():
                digest_value(e, h)
        else:
            h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, (list, tuple)):
        h.update(b"(")
        for e in v:
            digest_value(e, h)
        h.update(b")")
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            h.update(str(k).encode())
            digest_value(v[k], h)
    elif isinstance(v, (int, float, complex, str, bool, bytes, type(None), np.generic)):
        h.update(repr(v).encode())
    else:
        h.update(type(v).__name__.encode())


class Ctx:
    """Per-run context handed to a property's run function."""

    def __init__(self, keep=60):
        self.h = hashlib.sha256()
        self.n_events = 0
        self.tail = []
        self.keep = keep
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.sched = hashlib.sha256()
        self.n_switch = 0
        self.sim_time = 0.0
        self.explicit = None  # explicit schedule recorded for replay
        self.scratch = None

    def log(self, *ev):
        self.n_events += 1
        digest_value(ev, self.h)
        self.tail.append(_short(ev))
        if len(self.tail) > self.keep:
            del self.tail[0]

    def fault(self, kind):
        self.faults[kind] += 1
        self.log("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *sig):
        h = hashlib.sha1()
        digest_value(sig, h)
        self.states.add(h.hexdigest()[:12])

    def switch(self, frm, to, where):
        self.n_switch += 1
        self.sched.update(f"{frm}>{to}@{where};".encode())

    def violate(self, kind, msg):
        raise Violation(kind, msg)


def _short(v, n=160):
    if isinstance(v, np.ndarray):
        s = np.array2string(v.ravel()[:6], precision=6, threshold=6)
        return f"arr{v.shape}{s}"
    if isinstance(v, (list, tuple)):
        s = "(" + ", ".join(_short(e, 80) for e in v) + ")"
    elif isinstance(v, dict):
        s = "{" + ", ".join(f"{k}: {_short(e, 80)}" for k, e in v.items()) + "}"
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def from_code_under_test(exc):
    """True if a frame of the package under test is in the traceback."""
    for fr, _ in traceback.walk_tb(exc.__traceback__):
        if fr.f_code.co_filename.startswith(boot.PKG):
            return True
    return False


def close(a, b, rtol=1e-9, atol=0.0):
    """Equality of nested results up to rounding (NaN equal NaN)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(close(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
            return _num_close(a, b, rtol, atol)
        return bool(np.all(a == b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (bool, int, float, complex, np.generic)) and isinstance(
        b, (bool, int, float, complex, np.generic)
    ):
        return _num_close(np.asarray(a), np.asarray(b), rtol, atol)
    if a is None or b is None:
        return a is b
    try:
        return bool(a == b)
    except Exception:
        return False


def _num_close(a, b, rtol, atol):
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        a = a.astype(complex) if a.dtype.kind == "c" else a.astype(float)
        b = b.astype(complex) if b.dtype.kind == "c" else b.astype(float)
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        ia, ib = np.isinf(a), np.isinf(b)
        if not np.array_equal(ia, ib):
            return False
        if ia.any() and a.dtype.kind != "c" and not np.array_equal(a[ia], b[ia]):
            return False
        ok = ~(na | ia)
        if not ok.any():
            return True
        a, b = a[ok], b[ok]
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
        return bool(np.all(np.abs(a - b) <= rtol * scale + atol))


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


def nprng(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return boot.SEAMS["real_default_rng"](
        [int.from_bytes(h[i : i + 4], "little") for i in range(0, 32, 4)]
    )


def in_fork(fn):
    """Value of fn() computed in a forked copy of this process."""
    import os
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:  # noqa: BLE001
                tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
                data = pickle.dumps(("exc", type(e).__name__, tb, from_code_under_test(e),
                                     getattr(e, "kind", None), getattr(e, "msg", None),
                                     isinstance(e, Discard)))
            with boot.SEAMS["real_open"](w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with boot.SEAMS["real_open"](r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked baseline died")
    res = pickle.loads(data)
    if res[0] == "ok":
        return res[1]
    if res[4]:
        raise Violation(res[4], res[5])
    if res[6]:
        raise Discard(res[2])
    if res[3]:
        raise Violation("unexpected-" + res[1], res[2])
    raise RuntimeError(res[2])
