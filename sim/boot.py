"""Process start-up: environment, seams, and import of the code under test.

Everything here runs before modopt is imported, so that the code under test
only ever sees the simulator's clock, process launcher, thread pool, entropy
and file opener.  While no simulation is active every seam passes through.
"""
import builtins
import io
import os
import sys

REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "modopt") + os.sep

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "TZ": "UTC",
    "PYTHONDONTWRITEBYTECODE": "1",
    "CUDA_VISIBLE_DEVICES": "",
    "NO_COLOR": "1",
}

# Heavy optional back ends are made unavailable: the default configuration of
# the simulated deployment is a machine without accelerator libraries.
BLOCKED = ("tensorflow", "torch", "cupy", "ptwt")


class Clock:
    """Simulated clock: wall time may jump, monotonic time never runs back."""

    def __init__(self):
        self.active = False
        self.reset()

    def reset(self, wall=1.7e9, mono=1000.0, tick=1e-4):
        self.wall = wall
        self.mono = mono
        self.tick = tick
        self.reads = 0

    def advance(self, dt):
        self.wall += dt
        self.mono += dt

    def jump(self, dt):
        self.wall += dt

    def read(self, which):
        self.reads += 1
        self.advance(self.tick)
        return self.wall if which == "wall" else self.mono


CLOCK = Clock()
SEAMS = {}


def _install_time():
    import time

    real = {n: getattr(time, n) for n in (
        "time", "monotonic", "perf_counter", "process_time",
        "time_ns", "monotonic_ns", "perf_counter_ns", "sleep")}
    SEAMS["real_time"] = real

    def mk(name, which, ns):
        rf = real[name]

        def f():
            if not CLOCK.active:
                return rf()
            v = CLOCK.read(which)
            return int(v * 1e9) if ns else v

        f.__name__ = name
        return f

    for name in ("time", "monotonic", "perf_counter", "process_time"):
        which = "wall" if name == "time" else "mono"
        setattr(time, name, mk(name, which, False))
        if name != "process_time":
            setattr(time, name + "_ns", mk(name + "_ns", which, True))

    def sleep(dt):
        if not CLOCK.active:
            return real["sleep"](dt)
        CLOCK.advance(max(0.0, dt))

    time.sleep = sleep


def _install_datetime():
    import datetime as dtm

    real = dtm.datetime

    class Meta(type(real)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    class SimDatetime(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            if not CLOCK.active:
                return real.now(tz)
            if tz is None:
                return real(1970, 1, 1) + dtm.timedelta(seconds=CLOCK.read("wall"))
            return real.fromtimestamp(CLOCK.read("wall"), tz)

        @classmethod
        def utcnow(cls):
            if not CLOCK.active:
                return real.utcnow()
            return real(1970, 1, 1) + dtm.timedelta(seconds=CLOCK.read("wall"))

        @classmethod
        def today(cls):
            return cls.now()

    dtm.datetime = SimDatetime


def _install_entropy():
    import numpy as np

    real = np.random.default_rng
    SEAMS["real_default_rng"] = real
    state = {"on": False, "n": 0, "base": 0}
    SEAMS["entropy"] = state

    def default_rng(seed=None):
        if seed is None and state["on"]:
            state["n"] += 1
            return real([state["base"], state["n"]])
        return real(seed)

    default_rng.__doc__ = real.__doc__
    np.random.default_rng = default_rng


def _install_open():
    real = builtins.open
    SEAMS["real_open"] = real
    SEAMS["open_hook"] = None

    def sim_open(file, mode="r", *args, **kwargs):
        hook = SEAMS["open_hook"]
        if hook is not None:
            return hook(real, file, mode, *args, **kwargs)
        return real(file, mode, *args, **kwargs)

    builtins.open = sim_open
    io.open = sim_open


def _install_popen():
    import subprocess

    real = subprocess.Popen
    SEAMS["real_popen"] = real
    SEAMS["popen_hook"] = None

    class Popen(real):
        def __new__(cls, *args, **kwargs):
            hook = SEAMS["popen_hook"]
            if hook is not None and cls is Popen:
                return hook(*args, **kwargs)
            return real.__new__(cls)

    subprocess.Popen = Popen


def _install_joblib():
    import joblib

    real = joblib.Parallel
    SEAMS["real_parallel"] = real
    SEAMS["parallel_hook"] = None

    class Parallel(real):
        def __new__(cls, *args, **kwargs):
            hook = SEAMS["parallel_hook"]
            if hook is not None and cls is Parallel:
                return hook(*args, **kwargs)
            return super().__new__(cls)

    joblib.Parallel = Parallel


class _Blocker:
    """Path finder that does not see the blocked libraries."""

    def __init__(self, inner):
        self.inner = inner
        self.blocked = set(BLOCKED)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.blocked:
            return None
        return self.inner.find_spec(name, path, target)

    def __getattr__(self, name):
        return getattr(self.inner, name)


def _install_blocker():
    import importlib.machinery as mach

    for i, f in enumerate(sys.meta_path):
        if f is mach.PathFinder:
            sys.meta_path[i] = _Blocker(f)
            SEAMS["blocker"] = sys.meta_path[i]


def set_env():
    """Re-execute once with the fixed environment."""
    want = dict(ENV)
    want.setdefault("PYTHONHASHSEED", os.environ.get("SIM_HASHSEED", "0"))
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)


def boot():
    """Install the seams and import modopt from the working tree."""
    sys.dont_write_bytecode = True
    _install_blocker()
    _install_time()
    import warnings

    warnings.simplefilter("ignore")
    # third-party code first, with the real datetime
    import numpy as np  # noqa: F401
    import scipy.signal  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import scipy.ndimage  # noqa: F401
    import scipy.linalg  # noqa: F401
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import astropy.io.fits  # noqa: F401
    import astropy.convolution  # noqa: F401
    import pywt  # noqa: F401
    import joblib  # noqa: F401
    import tqdm.auto
    import tqdm.std
    try:
        import skimage.metrics  # noqa: F401
    except ImportError:
        pass
    try:
        import sklearn.isotonic  # noqa: F401
    except ImportError:
        pass
    tqdm.std.tqdm.monitor_interval = 0
    tqdm.auto.tqdm.monitor_interval = 0
    _install_datetime()
    _install_entropy()
    _install_open()
    _install_popen()
    _install_joblib()
    from . import sched
    sched.install_locks()
    import_code()


def import_code():
    """Import modopt (again) from the working tree and check where it is from."""
    import importlib
    import pkgutil

    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)
    devnull = SEAMS["real_open"](os.devnull, "w")
    err, sys.stderr = sys.stderr, devnull
    # compile the code under test from its sources, never from cached bytecode
    sys.pycache_prefix = os.path.join("/nonexistent", "sim-pyc")
    try:
        import modopt

        where = os.path.realpath(modopt.__file__)
        if not where.startswith(os.path.realpath(PKG)):
            raise RuntimeError(f"modopt imported from {where}")
        for m in pkgutil.walk_packages(modopt.__path__, "modopt."):
            importlib.import_module(m.name)
    finally:
        sys.pycache_prefix = None
        sys.stderr = err
        devnull.close()
