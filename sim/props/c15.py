"""C15: batched parallel wavelet transforms are independent of the schedule."""
import numpy as np

from .. import boot
from .. import rig as R
from .. import sched as S
from ..core import EXC, EXC_NAMES, close, in_fork, nprng

ID = "C15"
BUDGET = {"quick": (3000, 240), "thorough": (80000, 1500)}
RULE = ("a run counts if at least one batched transform or inverse was compared channel by channel with "
        "single-channel transforms; distinct plans counted once")
STATE_MEASURE = "channels x jobs x sequence of (method, outcome) x switches (bucketed)"
REAL = "WaveletTransform / CPUWaveletTransform and pywt, one real thread per worker"
STUB = "joblib's worker pool (threads under the baton scheduler), worker failures"
ASSUME = ["the worker pool runs threads of this process (backend 'threading'), hands out channels in order and reports the first failure"]
KEEP = ("shape",)


def gen(rng, tier, i):
    objs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        shape = rng.choice([(8,), (16,), (9,), (8, 8), (7, 9), (4, 4, 4), (6, 5, 4)])
        batch = rng.choice([1, 2, 2, 3, 4, 5, 7])
        if rng.random() < 0.04:
            shape, batch = (8,), rng.choice([11, 12, 17, 33])
        elif rng.random() < 0.02:
            shape = rng.choice([(300,), (33, 40), (9, 10, 11)])
        objs.append({"shape": list(shape), "batch": batch, "jobs": rng.choice([1, 2, 2, 3, 4, -1, 8]),
                     "wavelet": rng.choice(["haar", "db2", "sym4", "db3"]), "level": rng.choice([1, 1, 2, 3]),
                     "cls": rng.choice(["WaveletTransform", "CPUWaveletTransform", "CPUWaveletTransform"]),
                     "mode": rng.choice(["symmetric", "periodization", "zero", "antisymmetric"]),
                     "intshape": rng.random() < 0.3})
    tasks = []
    split = len(objs) > 1 and rng.random() < 0.6
    for t in range(len(objs) if split else 1):
        ops = []
        for _ in range(rng.randint(1, 5)):
            b = t if split else rng.randrange(len(objs))
            flt = None
            if rng.random() < 0.3:
                flt = rng.choice([["worker", rng.randrange(8), rng.choice(EXC_NAMES)], ["shape", rng.randrange(8), ""],
                                  ["channel", rng.randrange(8), rng.choice(["runtime", "memory", "os"])]])
            ops.append([b, rng.choice(["op", "op", "adj", "round"]), rng.randrange(40),
                        rng.choice(["float", "float", "float", "complex", "float32", "int"]),
                        rng.choice(["array", "array", "list", "fortran"]), flt])
        tasks.append(ops)
    return {"objs": objs, "tasks": tasks,
            "sched": S.gen_sched(rng, [0.05, 0.2, 0.5, 0.8], 0.3)}


def sequential(plan):
    return dict(plan, sched={"explicit": []})


def make(o, single=False):
    from modopt.opt.linear import wavelet as W
    shape = tuple(o["shape"])
    kw = dict(level=o["level"], n_batch=1 if single else o["batch"], n_jobs=1 if single else o["jobs"])
    if len(shape) == 1 and o["intshape"]:
        shape = shape[0]
    if o["cls"] == "WaveletTransform":
        return W.WaveletTransform(o["wavelet"], shape, **kw)
    return W.CPUWaveletTransform(o["wavelet"], shape, mode=o["mode"], **kw)


class Channels:
    """Data whose k-th channel cannot be read."""

    def __init__(self, data, k, exc):
        self.data, self.k, self.exc = data, k, exc
        self.shape = (len(data),) + data[0].shape

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return (self[i] for i in range(len(self.data)))

    def __getitem__(self, i):
        if i == self.k:
            raise self.exc
        return self.data[i]


def channels(o, seed, dtype):
    g = nprng("c15", seed, *o["shape"])
    out = []
    for k in range(o["batch"]):
        x = g.normal(size=tuple(o["shape"])) * 3 + k
        if dtype == "complex":
            x = x + 1j * g.normal(size=x.shape)
        out.append(np.round(x).astype(int) if dtype == "int" else x.astype(dtype))
    return out


def run(plan, ctx):
    R.silence()
    marks = []

    def expected():
        """Coefficients and inverses by single-channel transforms, one object each."""
        res = []
        for ops in plan["tasks"]:
            for b, m, seed, dt, form, flt in ops:
                o = plan["objs"][b]
                row = []
                for x in channels(o, seed, dt):
                    c = make(o, True).op(x)
                    row.append((c, make(o, True).adj_op(c)))
                res.append(row)
        return res

    exp = in_fork(expected)
    it = iter(exp)
    want = [[next(it) for _ in ops] for ops in plan["tasks"]]
    boot.SEAMS["parallel_hook"] = S.SimParallel
    s = S.Sched(ctx, plan["sched"], max_steps=2000000)

    def pool_fault(i):
        me = s.me()
        f = faults.get(parent.get(me.id, me.id)) if me else None
        if f and f[0] == i:
            raise f[1]

    faults, parent = {}, {}
    # workers inherit the fault of the task that started them
    real_spawn = s.spawn

    def spawn(fn):
        me = s.me()
        t = real_spawn(fn)
        if me is not None:
            parent[t.id] = parent.get(me.id, me.id)
        return t

    s.spawn = spawn
    S.SimParallel.fault = staticmethod(pool_fault)

    def body(k):
        with np.errstate(all="ignore"):
            trs = {b: make(plan["objs"][b]) for b in sorted({op[0] for op in plan["tasks"][k]})}
            answers = []
            for n, (b, m, seed, dt, form, flt) in enumerate(plan["tasks"][k]):
                o = plan["objs"][b]
                tr = trs[b]
                chans = channels(o, seed, dt)
                ref = want[k][n]
                src = [c for c, _ in ref] if m == "adj" else chans
                src = [np.array(c) for c in src]
                arg = src[0] if o["batch"] == 1 else np.array(src)
                if o["batch"] > 1 and form == "list":
                    arg = src
                elif form == "fortran":
                    arg = np.asfortranarray(arg)
                exc = EXC[flt[2]]("injected") if flt and flt[2] else None
                must = None
                if flt and o["batch"] > 1 and flt[1] < o["batch"]:
                    if flt[0] == "worker":
                        faults[k] = (flt[1], exc)
                        must = exc
                    elif flt[0] == "channel":
                        arg = Channels(src, flt[1], exc)
                        must = exc
                    elif flt[0] == "shape":
                        bad = list(src)
                        bad[flt[1]] = np.zeros((3,) * (1 if m == "adj" else len(o["shape"]) + 1))
                        arg = bad
                        must = True
                before = [np.array(c) for c in src]
                err = res = None
                try:
                    if m == "op":
                        res = tr.op(arg)
                    elif m == "adj":
                        res = tr.adj_op(arg)
                    else:
                        co = tr.op(arg)
                        faults.pop(k, None)
                        res = tr.adj_op(co)
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                faults.pop(k, None)
                if not close(src, before, 0.0):
                    ctx.violate("input-modified", f"{m} changed its input")
                for a, c in answers:
                    if not close(a, c, 0.0):
                        ctx.violate("answer-changed", f"an earlier answer changed when {m} ran")
                if must is not None:
                    ctx.fault("worker-" + (flt[2] or flt[0]))
                    if err is None:
                        if flt[0] != "shape":
                            ctx.violate("failure-hidden", f"channel {flt[1]} failed ({flt[0]}), {m} returned")
                        res = None
                    elif must is not True and err is not must:
                        if not getattr(err, "injected", False):
                            raise err
                        ctx.violate("error-changed", f"channel {flt[1]} raised {must!r}, caller got {err!r}")
                    marks.append((m, "failed"))
                    ctx.probe("failed-" + flt[0])
                    continue
                if err is not None:
                    raise err
                what = f"{m} of {o['batch']} channels with {o['jobs']} jobs ({o})"
                if o["batch"] == 1:
                    res = [res]
                if len(res) != o["batch"]:
                    ctx.violate("channels-lost", f"{what}: {len(res)} channels returned")
                for q, ((c, back), got) in enumerate(zip(ref, res)):
                    exp_q = c if m == "op" else back
                    if not close(np.asarray(got), exp_q, 1e-9, 1e-12):
                        who = [j for j, r in enumerate(ref) if close(np.asarray(got), r[0] if m == "op" else r[1], 1e-9, 1e-12)]
                        ctx.violate("channel-differs", f"{what}: channel {q} is not its single transform"
                                    + (f" but that of channel {who}" if who else ""))
                    if m == "round" and dt != "float32":
                        cut = np.asarray(got)[tuple(slice(0, z) for z in o["shape"])]
                        if not close(cut, chans[q], 1e-8, 1e-8):
                            ctx.violate("not-recovered", f"{what}: channel {q} is not recovered")
                answers.append((res, [np.array(x) for x in res]))
                marks.append((m, o["batch"], o["jobs"]))
                ctx.log(k, m, len(res))
                ctx.probe(m)

    tasks = s.run([lambda k=k: body(k) for k in range(len(plan["tasks"]))])
    for t in tasks[:len(plan["tasks"])]:
        if t.exc is not None:
            raise t.exc
    ctx.state(marks, min(ctx.n_switch, 60) // 5)
    ctx.probe("foreign-lock", s.foreign)
