"""C06: observer notification is ordered, exactly-once and never wedges."""
from .. import rig as R
from ..core import EXC, EXC_NAMES

ID = "C06"
BUDGET = {"quick": (8000, 240), "thorough": (160000, 1500)}
RULE = ("a run counts if at least one notification was compared with the registry model; distinct "
        "operation trees counted once")
STATE_MEASURE = "registry sizes, nesting depth and outcome (done, refused, raised) of each notification"
REAL = "Observable (and a solver's use of it)"
STUB = "observers (scripted: they add, remove, notify and raise)"
ASSUME = ["after an observer raised, the remaining observers of that notification may or may not be called"]
SIGNALS = ["alpha", "beta", "gamma"]


def gen_action(rng, depth):
    k = rng.random()
    subj = rng.randrange(2)
    sig = rng.choice(SIGNALS[:2] if rng.random() < 0.93 else ["nope", "ALPHA", ""])
    if k < 0.28:
        return ["add", subj, sig, rng.randrange(6)]
    if k < 0.45:
        return ["remove", subj, sig, rng.randrange(6)]
    if k < 0.9 or depth == 0:
        data = {rng.choice("abcde"): rng.randrange(100) for _ in range(rng.randint(0, 3))}
        return ["notify", subj, sig, data]
    return ["raise", rng.choice(EXC_NAMES)]


def gen(rng, tier, i):
    if rng.random() < 0.05:
        return gen_many(rng)
    ops = [["add", rng.randrange(2), rng.choice(SIGNALS[:2]), rng.randrange(6)] for _ in range(rng.randint(1, 8))]
    ops += [gen_action(rng, 0) for _ in range(rng.randint(3, 25))]
    scripts = {}
    for o in range(6):
        if rng.random() < 0.7:
            scripts[str(o)] = [
                [gen_action(rng, 1) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
                for _ in range(rng.randint(1, 5))]
    return {"ops": ops, "scripts": scripts, "methods": rng.random() < 0.4,
            "third": rng.random() < 0.3}


def gen_many(rng):
    """Many observers of one signal, or a long history of notifications."""
    n = rng.choice([10, 20, 40, 130])
    order = rng.sample(range(n), n)
    ops = [["add", 0, SIGNALS[0], o] for o in order]
    for _ in range(rng.choice([4, 8, 150])):
        k = rng.random()
        if k < 0.3:
            ops.append([rng.choice(["add", "remove"]), 0, SIGNALS[0], rng.randrange(n)])
        else:
            ops.append(["notify", 0, SIGNALS[0], {c: rng.randrange(100) for c in "abcde" if rng.random() < 0.6}])
    scripts = {str(o): [[gen_action(rng, 1)] for _ in range(rng.randint(1, 3))] for o in range(n) if rng.random() < 0.05}
    return {"ops": ops, "scripts": scripts, "methods": rng.random() < 0.4, "third": False, "n": n}


class Active:
    def __init__(self, sig, data, expected):
        self.sig, self.data, self.expected, self.pos = sig, data, expected, 0
        self.raised = None


def run(plan, ctx):
    from modopt.base.observable import Observable

    R.silence()
    sigs = SIGNALS if plan["third"] else SIGNALS[:2]
    subjects = [Observable(list(sigs)) for _ in range(2)]
    reg = [{s: [] for s in sigs} for _ in range(2)]
    active = [None, None]
    calls = {}
    steps = [0]
    trail = []

    def called(oid, signal):
        steps[0] += 1
        subj = next((k for k, s in enumerate(subjects) if s is signal.object), None)
        ctx.log("called", oid, subj, signal.signal)
        if subj is None:
            ctx.violate("wrong-object", f"observer {oid} was given {signal.object!r}")
        a = active[subj]
        if a is None:
            ctx.violate("unexpected-call", f"observer {oid} called although no notification of subject {subj} runs")
        if signal.signal != a.sig:
            ctx.violate("wrong-data", f"observer {oid} got signal {signal.signal!r}, notified was {a.sig!r}")
        if a.pos >= len(a.expected) or a.expected[a.pos] != oid:
            ctx.violate("wrong-observer",
                        f"observer {oid} called at position {a.pos}, registered were {a.expected}")
        a.pos += 1
        for k, v in a.data.items():
            if not hasattr(signal, k) or getattr(signal, k) != v:
                ctx.violate("wrong-data", f"observer {oid}: {k} = {getattr(signal, k, 'missing')}, sent was {v}")
        for k in "abcde":
            if k not in a.data and hasattr(signal, k):
                ctx.violate("wrong-data", f"observer {oid}: {k} from another notification is visible")
        n = calls.get(oid, 0)
        calls[oid] = n + 1
        script = plan["scripts"].get(str(oid)) or []
        if script and steps[0] < 300:
            for act in script[n % len(script)]:
                if act[0] == "raise":
                    exc = EXC[act[1]](f"injected in observer {oid}")
                    a.raised = exc
                    ctx.fault("observer-raises-" + act[1])
                    raise exc
                try:
                    do(act, nested=True)
                except BaseException as e:  # noqa: BLE001
                    if getattr(e, "injected", False):
                        a.raised = e
                    raise

    class Holder:
        def __init__(self, oid):
            self.oid = oid

        def method(self, signal):
            called(self.oid, signal)

    holders = [Holder(o) for o in range(plan.get("n", 6))]
    funcs = [(lambda s, o=o: called(o, s)) for o in range(plan.get("n", 6))]

    def observer(o):
        # bound methods are new objects at each access but equal
        return holders[o].method if plan["methods"] else funcs[o]

    def do(op, nested=False):
        steps[0] += 1
        kind, subj, sig = op[0], op[1], op[2]
        known = sig in sigs
        if kind in ("add", "remove"):
            f = subjects[subj].add_observer if kind == "add" else subjects[subj].remove_observer
            try:
                f(sig, observer(op[3]))
            except ValueError:
                if known:
                    ctx.violate("rejected", f"{kind} for known signal {sig!r} was rejected")
            else:
                if not known:
                    ctx.violate("accepted", f"{kind} for unknown signal {sig!r} was accepted")
                r = reg[subj][sig]
                if kind == "add" and op[3] not in r:
                    r.append(op[3])
                elif kind == "remove" and op[3] in r:
                    r.remove(op[3])
                if nested:
                    ctx.probe("registry-changed-in-callback")
            return
        if active[subj] is not None:
            before = active[subj].pos
            n_calls = dict(calls)
            try:
                r = subjects[subj].notify_observers(sig, **op[3])
            except (KeyError, ValueError) as e:
                if known or getattr(e, "injected", False):
                    raise
                return
            if r is not False and r != False:  # noqa: E712
                ctx.violate("nested-accepted", f"a notification during a notification returned {r!r}")
            if n_calls != calls or active[subj].pos != before:
                ctx.violate("nested-effect", "a refused notification called observers")
            ctx.probe("nested-refused")
            trail.append("refused")
            return
        if not known:
            n_calls = dict(calls)
            try:
                subjects[subj].notify_observers(sig, **op[3])
            except Exception:  # noqa: BLE001
                pass
            else:
                ctx.violate("accepted", f"notification of unknown signal {sig!r} was accepted")
            if n_calls != calls:
                ctx.violate("unexpected-call", "notification of an unknown signal called observers")
            ctx.probe("unknown-signal")
            return
        a = active[subj] = Active(sig, op[3], list(reg[subj][sig]))
        try:
            r = subjects[subj].notify_observers(sig, **op[3])
        except BaseException as e:  # noqa: BLE001
            active[subj] = None
            if e is a.raised:
                trail.append(("raised", a.pos, len(a.expected)))
                if nested:
                    raise
                return
            raise
        active[subj] = None
        if a.raised is not None:
            ctx.violate("error-swallowed", f"{a.raised!r} raised by an observer did not reach the notifier")
        if a.pos != len(a.expected):
            ctx.violate("not-notified", f"observers {a.expected[a.pos:]} of {a.expected} were not called")
        if r is not True and r != True:  # noqa: E712
            ctx.violate("no-success", f"a completed notification returned {r!r}")
        trail.append(("done", len(a.expected), nested))

    for op in plan["ops"]:
        try:
            do(op)
        except BaseException as e:  # noqa: BLE001
            # errors of observers of the other subject propagate through
            if not getattr(e, "injected", False):
                raise
            active[0] = active[1] = None
    # every notification still works
    for subj in range(2):
        for sig in sigs:
            plan_scripts, plan["scripts"] = plan["scripts"], {}
            do(["notify", subj, sig, {"a": 1}])
            plan["scripts"] = plan_scripts
    ctx.state(trail)
    ctx.probe("notifications", len(trail))
