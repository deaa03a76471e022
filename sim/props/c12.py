"""C12: seeded randomness is reproducible and leaves ambient random state alone."""
import random

import numpy as np

from .. import boot
from .. import rig as R
from ..core import EXC, EXC_NAMES, close, in_fork, nprng
from ..sched import Sched, gen_sched, point
from .c10 import Out

ID = "C12"
BUDGET = {"quick": (2000, 240), "thorough": (60000, 1500)}
RULE = ("a run counts if at least one seeded call was compared with the same call alone under a different "
        "ambient random state; distinct plans counted once")
STATE_MEASURE = "sequence of (function, kind of seed, outcome) and foreign draws x switches (bucketed)"
REAL = "add_noise, transpose_test, PowerMethod with numpy's real generators, in real threads"
STUB = "operating-system entropy (simulated), other users of the random generators, operators, thread scheduling"
ASSUME = ["one generator object is not used by two threads at once"]
GENS = {"pcg": np.random.PCG64, "mt": np.random.MT19937, "philox": np.random.Philox, "sfc": np.random.SFC64}
SHAPES = [(4,), (3, 4), (2, 3, 2), (6, 1)]


def gen_foreign(rng):
    k = rng.choice(["seed", "np", "np", "py", "pyseed", "entropy", "normal"])
    return ["foreign", k, rng.randrange(5)]


def gen(rng, tier, i):
    shapes = SHAPES
    if rng.random() < 0.04:
        shapes = [(700,), (40, 30), (3, 20, 20), (1100,)]
    threads = rng.choice([1, 1, 2, 2, 3])
    tasks = []
    for t in range(threads):
        gens = [[rng.choice(sorted(GENS)), rng.randrange(100)] for _ in range(rng.choice([1, 2]))]
        calls = []
        protos = []
        for _ in range(rng.randint(3, 9) if threads == 1 else rng.randint(2, 6)):
            if rng.random() < 0.3:
                calls.append(gen_foreign(rng))
                continue
            if protos and rng.random() < 0.4:
                c = dict(rng.choice(protos))
            else:
                fn = rng.choice(["noise", "noise", "transpose", "power", "power"])
                k = rng.random()
                seed = ["int", rng.choice([0, 0, 1, 2, 3, 123456789, 2**40])] if k < 0.5 else \
                    ["gen", rng.randrange(len(gens))] if k < 0.85 else ["none"]
                if seed[0] == "int" and rng.random() < 0.2:
                    seed = ["npint", seed[1]]
                c = {"fn": fn, "seed": seed, "shape": list(rng.choice(shapes)), "data": rng.randrange(4)}
                if fn == "noise":
                    c.update(type=rng.choice(["gauss", "gauss", "poisson"]), sigma=rng.choice([1.0, 0.5, 3, "list", "array"]),
                             dtype=rng.choice(["float", "float32", "int"]), scale=rng.choice([5, 5, 5, 0.01, 300, 1e6]))
                    if c["dtype"] == "int":
                        # Poisson draws of expectation zero draw nothing
                        c["scale"] = max(c["scale"], 5)
                elif fn == "transpose":
                    c.update(yshape=rng.choice([None, list(rng.choice(shapes))]))
                else:
                    c.update(dtype=rng.choice(["float", "float32", "complex"]), auto=rng.random() < 0.6,
                             again=rng.choice([0, 0, 1, 2]), iters=rng.choice([1, 3, 20]))
                protos.append(c)
            c = dict(c)
            c["cb"] = [gen_foreign(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
            c["fault"] = [rng.choice([0, 0, 1, 2]), rng.choice(EXC_NAMES)] if rng.random() < 0.15 else None
            calls.append(["call", c])
        tasks.append({"gens": gens, "calls": calls})
    return {"tasks": tasks, "ambient": rng.randrange(1 << 20),
            "sched": gen_sched(rng, [0.05, 0.2, 0.5], 0.15)}


def sequential(plan):
    return dict(plan, sched={"explicit": []})


def foreign(op):
    _, k, n = op
    if k == "seed":
        np.random.seed(n)
    elif k == "np":
        np.random.rand(n + 1)
    elif k == "normal":
        np.random.normal(size=n + 1)
    elif k == "py":
        random.random()
    elif k == "pyseed":
        random.seed(n)
    else:
        np.random.default_rng().random()


def seed_of(c, gens):
    k, *v = c["seed"]
    return {"int": lambda: v[0], "npint": lambda: np.int64(v[0]), "gen": lambda: gens[v[0]], "none": lambda: None}[k]()


def execute(c, gens, out, cb, foreign_on=True):
    """Run one call; returns (status, observed values)."""
    from modopt.math.matrix import PowerMethod
    from modopt.signal.noise import add_noise
    from modopt.signal.validation import transpose_test

    n = [0]
    seen = []

    def inside(x):
        seen.append(np.array(x))
        point("op")
        if foreign_on:
            for f in c["cb"]:
                cb(f)
        if c["fault"] and c["fault"][0] == n[0]:
            n[0] += 1
            raise EXC[c["fault"][1]]("injected")
        n[0] += 1

    shape = tuple(c["shape"])
    try:
        if c["fn"] == "noise":
            data = (nprng("noise", c["data"]).normal(size=shape) * c["scale"]).astype(c["dtype"])
            sig = c["sigma"]
            if sig in ("list", "array"):
                s = [0.5 + k for k in range(shape[0])]
                sig = s if sig == "list" else np.array(s)
            return ("ok", [add_noise(data, sigma=sig, noise_type=c["type"], rng=seed_of(c, gens))])
        if c["fn"] == "transpose":
            def op(x, *a):
                inside(x)
                return float(np.sum(x)) * np.ones(tuple(c["yshape"] or shape))

            def adj(y, *a):
                inside(y)
                return float(np.sum(y)) * np.ones(shape)

            out.take()
            transpose_test(op, adj, shape, y_shape=None if c["yshape"] is None else tuple(c["yshape"]), rng=seed_of(c, gens))
            return ("ok", seen + [out.take()])
        scale = 1 + np.arange(int(np.prod(shape))).reshape(shape)

        def pop(x):
            inside(x)
            return scale * x

        pm = PowerMethod(pop, shape, data_type=c["dtype"], auto_run=c["auto"], rng=seed_of(c, gens))
        r = []
        for _ in range(c["again"] if c["auto"] else c["again"] + 1):
            pm.get_spec_rad(max_iter=c["iters"], tolerance=1e-3)
            r += [pm.spec_rad, pm.inv_spec_rad]
        if c["auto"]:
            r += [pm.spec_rad, pm.inv_spec_rad]
        return ("ok", seen + r)
    except (Exception, KeyboardInterrupt) as e:
        if not getattr(e, "injected", False):
            raise
        return ("exc", type(e).__name__)


def mkgens(specs):
    return [np.random.Generator(GENS[k](s)) for k, s in specs]


def gstate(g):
    return repr(g.bit_generator.state)


def ambient(seed, base):
    np.random.seed(seed)
    random.seed(seed)
    boot.SEAMS["entropy"].update(on=True, n=0, base=base)


def states():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def differ(a, b):
    return a[0] != b[0] or not close(a[1], b[1], 1e-12)


def run(plan, ctx):
    import sys

    R.silence()
    out = sys.stdout = Out()
    np.seterr(all="ignore")

    def alone(task):
        """The calls of one thread, nothing else, under another ambient state."""
        def f():
            ambient(plan["ambient"] + 1, 2)
            gens = mkgens(task["gens"])
            r = []
            for kind, c, *_ in task["calls"]:
                if kind == "call":
                    o = execute(c, gens, out, foreign, False)
                    r.append((o, [gstate(g) for g in gens]))
            return r
        return in_fork(f)

    def once(c, amb, base):
        def f():
            ambient(amb, base)
            return execute(c, [], out, foreign, False)
        return in_fork(f)

    base = [alone(t) for t in plan["tasks"]]
    single = {}
    for t in plan["tasks"]:
        for kind, c, *_ in t["calls"]:
            if kind == "call" and c["seed"][0] != "gen":
                key = repr([c[k] for k in sorted(c) if k != "cb"])
                if key in single:
                    continue
                single[key] = once(c, plan["ambient"] + 7, 3)
                if c["seed"][0] == "none" and c["fault"] is None:
                    if not differ(single[key], once(c, plan["ambient"] + 7, 4)):
                        if not (c["fn"] == "noise" and c["type"] == "poisson"):
                            ctx.violate("reads-ambient-state", f"{c['fn']} without a seed repeats for equal process-wide random state")
    ambient(plan["ambient"], 1)
    expected_state = [states()]
    s = Sched(ctx, plan["sched"], max_steps=1000000)
    marks = []

    def cb(f):
        foreign(f)
        expected_state[0] = states()
        ctx.fault("foreign-" + f[1])

    def body(k):
        task = plan["tasks"][k]
        gens = mkgens(task["gens"])
        done = 0
        prev = {}
        for kind, *rest in task["calls"]:
            if kind == "foreign":
                cb(["foreign", *rest])
                continue
            c = rest[0]
            before = [gstate(g) for g in gens]
            o = execute(c, gens, out, cb)
            name = f"{c['fn']} with seed {c['seed']}"
            if states() != expected_state[0]:
                ctx.violate("disturbs-ambient-state", f"{name} changed the process-wide random state")
            if o[0] == "exc":
                ctx.fault("operator-" + c["fault"][1])
            (b, after), done = base[k][done], done + 1
            marks.append((k, c["fn"], c["seed"][0], o[0]))
            if c["seed"][0] == "none":
                key = repr([c[q] for q in sorted(c) if q not in ("cb", "fault")])
                if o[0] == "ok" and key in prev and not differ(o, prev[key]) and not (c["fn"] == "noise" and c["type"] == "poisson"):
                    ctx.violate("not-random", f"{name}: the same draw twice")
                prev[key] = o
            elif c["seed"][0] == "gen":
                if differ(o, b):
                    ctx.violate("not-reproducible", f"{name} {c}: {str(o)[:300]}; alone: {str(b)[:300]}")
                now = [gstate(g) for g in gens]
                if now != after:
                    ctx.violate("generator-state", f"{name} leaves the generator in another state than when run alone")
                j = c["seed"][1]
                if o[0] == "ok" and now[j] == before[j]:
                    ctx.violate("generator-not-advanced", f"{name} did not advance the generator: the next draw repeats")
                if [x for q, x in enumerate(now) if q != j] != [x for q, x in enumerate(before) if q != j]:
                    ctx.violate("generator-state", f"{name} advanced another generator")
            else:
                want = single[repr([c[q] for q in sorted(c) if q != "cb"])]
                if differ(o, want):
                    ctx.violate("not-reproducible", f"{name} {c}: {str(o)[:300]}; alone in a fresh process: {str(want)[:300]}")
            ctx.log(k, c["fn"], c["seed"], o[0])
            ctx.probe(c["fn"] + "-" + c["seed"][0])

    tasks = s.run([lambda k=k: body(k) for k in range(len(plan["tasks"]))])
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    ctx.state(marks, min(ctx.n_switch, 40) // 4)
