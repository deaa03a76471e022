"""Seeded search over plans, minimisation, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import traceback
from collections import Counter

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
PLAN_LIMIT = 60.0


def now():
    return boot.SEAMS["real_time"]["monotonic"]()


def load(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


# ---------------------------------------------------------------- one plan
def run_here(prop, plan, scratch):
    """Run one plan in this process; returns a result dict."""
    from .core import Ctx, Discard, StepLimit, Violation, from_code_under_test
    from .sched import Deadlock

    ctx = Ctx()
    ctx.scratch = scratch
    res = {"status": "ok"}
    boot.SEAMS["entropy"].update(on=True, n=0, base=0)
    try:
        prop.run(plan, ctx)
    except Violation as e:
        res = {"status": "violation", "kind": e.kind, "msg": e.msg[:4000]}
    except Discard as e:
        res = {"status": "discard", "msg": str(e)}
    except StepLimit as e:
        res = {"status": "violation", "kind": "no-progress", "msg": str(e)}
    except Deadlock as e:
        res = {"status": "violation", "kind": "deadlock", "msg": str(e)}
    except BaseException as e:  # noqa: BLE001
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]
        if from_code_under_test(e):
            res = {"status": "violation", "kind": f"unexpected-{type(e).__name__}",
                   "msg": tb}
        else:
            res = {"status": "harness", "msg": tb}
    res.update(
        digest=ctx.h.hexdigest(), events=ctx.n_events, tail=ctx.tail,
        faults=dict(ctx.faults), probes=dict(ctx.probes),
        states=sorted(ctx.states)[:400], sched=ctx.sched.hexdigest()[:16],
        switches=ctx.n_switch, sim_time=ctx.sim_time, explicit=ctx.explicit,
    )
    return res


def run_forked(prop, plan, limit=PLAN_LIMIT):
    """Run one plan in a forked child of this pristine process."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    scratch = tempfile.mkdtemp(prefix="mosim-")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setsid()
            dn = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(dn, fd)
            os.chdir(scratch)
            os.environ["TMPDIR"] = scratch
            tempfile.tempdir = scratch
            res = run_here(prop, plan, scratch)
            data = pickle.dumps(res)
            with boot.SEAMS["real_open"](w, "wb") as f:
                f.write(struct.pack("<Q", len(data)) + data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = now() + limit
    timed = False
    while True:
        left = end - now()
        if left <= 0:
            timed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    base = dict(digest="", events=0, tail=[], faults={}, probes={}, states=[],
                sched="", switches=0, sim_time=0.0, explicit=None)
    if timed:
        return dict(base, status="hang", kind="hang",
                    msg=f"no result within {limit:.0f} s of wall-clock time")
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", buf[:8])[0]:
        return dict(base, status="died", kind="died", msg=f"child died, status {st}")
    return pickle.loads(buf[8:])


def settle(prop, plan, res):
    """Confirm hangs and crashes before they count."""
    if res["status"] in ("hang", "died"):
        again = run_forked(prop, plan, PLAN_LIMIT * 2)
        if again["status"] == res["status"]:
            seq = getattr(prop, "sequential", None)
            if seq is not None and res["status"] == "hang":
                s = seq(plan)
                if s is not None and run_forked(prop, s, PLAN_LIMIT)["status"] != "hang":
                    # only the interleaved run hangs: a lock the simulator
                    # does not own; no verdict
                    return dict(again, status="discard")
            return dict(again, status="violation")
        return again
    return res


def plan_for(prop, seed, i, tier):
    from .core import rng_for
    return prop.gen(rng_for(prop.ID, seed, i), tier, i)


# ---------------------------------------------------------------- workers
def worker(prop, seed, tier, first, stride, total, deadline, wfd, stopfile):
    out = boot.SEAMS["real_open"](wfd, "wb")
    agg = Counter()
    faults, probes = Counter(), Counter()
    states, scheds, plans = set(), set(), set()
    digests = {}
    sim_time = 0.0
    sample = []
    viol = []
    errors = []
    i = first
    while i < total and now() < deadline:
        if agg["runs"] % 8 == 0 and os.path.exists(stopfile):
            break
        plan = plan_for(prop, seed, i, tier)
        res = run_forked(prop, plan)
        if res["status"] in ("hang", "died"):
            res = settle(prop, plan, res)
        agg["runs"] += 1
        agg[res["status"]] += 1
        agg["events"] += res["events"]
        agg["switches"] += res["switches"]
        faults.update(res["faults"])
        probes.update(res["probes"])
        states.update(res["states"])
        if res["switches"]:
            scheds.add(res["sched"])
        sim_time += res["sim_time"]
        digests[i] = res["digest"][:16]
        if res["status"] in ("ok",) and (res["faults"] or res["switches"] or res["states"]):
            agg["nontrivial"] += 1
            plans.add(hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12])
        if len(sample) < 3 and res["faults"]:
            sample.append({"index": i, "plan": plan, "events": res["events"],
                           "tail": res["tail"][-6:]})
        if res["status"] == "violation":
            viol.append((i, plan, res))
            boot.SEAMS["real_open"](stopfile, "w").close()
            break
        if res["status"] == "harness":
            errors.append((i, res["msg"]))
            if len(errors) > 3:
                break
        i += stride
    data = pickle.dumps(dict(agg=dict(agg), faults=dict(faults), probes=dict(probes),
                             states=states, scheds=scheds, plans=plans, digests=digests,
                             sim_time=sim_time, sample=sample, viol=viol, errors=errors))
    out.write(struct.pack("<Q", len(data)) + data)
    out.close()


def search(prop, seed, tier, total, budget, workers):
    os.makedirs(OUT, exist_ok=True)
    fd, stopfile = tempfile.mkstemp(prefix="mosim-stop-")
    os.close(fd)
    os.unlink(stopfile)
    deadline = now() + budget
    pipes = []
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                worker(prop, seed, tier, k, workers, total, deadline, w, stopfile)
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        pipes.append((pid, r))
    results = []
    bad = []
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st != 0 or len(data) < 8:
            bad.append(f"worker status {st}")
            continue
        results.append(pickle.loads(data[8:]))
    if os.path.exists(stopfile):
        os.unlink(stopfile)
    tot = dict(agg=Counter(), faults=Counter(), probes=Counter(), states=set(),
               scheds=set(), plans=set(), digests={}, sim_time=0.0, sample=[],
               viol=[], errors=[(-1, b) for b in bad])
    for res in results:
        tot["agg"].update(res["agg"])
        tot["faults"].update(res["faults"])
        tot["probes"].update(res["probes"])
        for k in ("states", "scheds", "plans"):
            tot[k] |= res[k]
        tot["digests"].update(res["digests"])
        tot["sim_time"] += res["sim_time"]
        tot["sample"] += res["sample"]
        tot["viol"] += res["viol"]
        tot["errors"] += res["errors"]
    tot["viol"].sort(key=lambda v: v[0])
    return tot


# ---------------------------------------------------------------- shrinking
def _lists(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _lists(node[k], path + (k,))
    elif isinstance(node, list):
        yield path
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from _lists(v, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def minimise(prop, plan, res, budget=60.0, max_runs=400):
    """Greedy delta debugging over the lists of a plan (and prop.simpler)."""
    end = now() + budget
    runs = 0
    kind = res["kind"]
    keep = set(getattr(prop, "KEEP", ()))

    def fails(cand):
        nonlocal runs
        if runs >= max_runs or now() > end:
            return None
        runs += 1
        r = run_forked(prop, cand)
        if r["status"] in ("hang", "died"):
            return None
        return r if r["status"] == "violation" and r["kind"] == kind else None

    # turn a seeded schedule into an explicit list of switches
    if isinstance(plan.get("sched"), dict) and res.get("explicit") is not None:
        cand = json.loads(json.dumps(plan))
        cand["sched"] = {k: v for k, v in plan["sched"].items() if k not in ("seed", "p", "hot")}
        cand["sched"]["explicit"] = [list(x) for x in res["explicit"]]
        r = fails(cand)
        if r:
            plan, res = cand, r
    changed = True
    while changed and runs < max_runs and now() < end:
        changed = False
        for simp in (getattr(prop, "simpler", None),):
            if simp is None:
                continue
            for cand in simp(json.loads(json.dumps(plan))):
                r = fails(cand)
                if r:
                    plan, res, changed = cand, r, True
                    break
        for path in list(_lists(plan)):
            if path and (path[-1] in keep or path[0] in keep):
                continue
            try:
                lst = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = json.loads(json.dumps(plan))
                    del _get(cand, path)[i : i + size]
                    r = fails(cand)
                    if r:
                        plan, res, changed = cand, r, True
                        lst = _get(plan, path)
                    else:
                        i += size
                    if runs >= max_runs or now() > end:
                        break
                if runs >= max_runs or now() > end:
                    break
                size //= 2
    return plan, res, runs


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with boot.SEAMS["real_open"](path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


# ---------------------------------------------------------------- main
def tree_hash():
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(boot.PKG)):
        dirs.sort()
        for n in sorted(files):
            if n.endswith(".py"):
                p = os.path.join(d, n)
                h.update(p.encode())
                with boot.SEAMS["real_open"](p, "rb") as f:
                    h.update(f.read())
    return h.hexdigest()[:16]


def cmd_check(args):
    t0 = now()
    prop = load(args.property)
    pid = prop.ID
    seed = int(os.environ.get("VERIF_SEED", "1")) if args.seed is None else args.seed
    tier = args.tier
    total, budget = prop.BUDGET[tier]
    if args.runs:
        total = args.runs
    if args.budget:
        budget = args.budget
    workers = args.workers
    print(f"{pid} tier={tier} seed={seed} plans={total} tree={tree_hash()}", flush=True)
    known_lines = []
    for k in known_findings(pid):
        r = run_forked(prop, k["plan"])
        if r["status"] == "violation" and r["kind"] == k["kind"]:
            line = f"KNOWN-FINDING: property={pid} {k['what']}"
            known_lines.append(line)
            print(line, flush=True)
        elif r["status"] == "harness":
            print("HARNESS ERROR in known finding:", r["msg"])
            return 2
    tot = search(prop, seed, tier, total, budget, workers)
    wall = now() - t0
    viol = None
    if tot["viol"]:
        i, plan, res = tot["viol"][0]
        plan2, res2, nmin = minimise(prop, plan, res)
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", f"{pid}-s{seed}-i{i}.json")
        with boot.SEAMS["real_open"](path, "w") as f:
            json.dump({"property": pid, "seed": seed, "index": i, "kind": res2["kind"],
                       "message": res2["msg"], "plan": plan2, "original_plan": plan,
                       "trace": res2["tail"], "digest": res2["digest"],
                       "tree": tree_hash(), "minimiser_runs": nmin}, f, indent=1)
        code = 1
        if not args.no_confirm:
            code = subprocess.run([sys.executable, "-B", sys.argv[0], "replay", path],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        viol = {"kind": res2["kind"], "index": i, "replay": path,
                "confirmed_in_fresh_process": code == 1}
        print(f"violation kind={res2['kind']} index={i} minimiser_runs={nmin} "
              f"replay_confirmed={code == 1}")
        print(res2["msg"][:1500])
        print("trace:", *res2["tail"][-12:], sep="\n  ")
    agg = tot["agg"]
    runs = agg["runs"]
    allx = hashlib.sha256("".join(tot["digests"][k] for k in sorted(tot["digests"])).encode()).hexdigest()
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(tot["plans"]),
            "rule": prop.RULE,
            "samples": tot["sample"][:3] or [{"index": 0, "plan": plan_for(prop, seed, 0, tier)}],
            "planned_runs": total,
            "runs_and_seeds_per_hour": int(runs / max(wall, 1e-6) * 3600),
            "simulated_seconds": round(tot["sim_time"], 3),
            "faults_fired": dict(sorted(tot["faults"].items())),
            "distinct_interleavings": len(tot["scheds"]),
            "thread_switches": agg["switches"],
            "distinct_states": len(tot["states"]),
            "state_measure": getattr(prop, "STATE_MEASURE", "hash of the abstract state signature logged by the property"),
            "events": agg["events"],
            "discarded_near_ties": agg["discard"],
            "probes": dict(sorted(tot["probes"].items())),
            "real": getattr(prop, "REAL", ""),
            "stub": getattr(prop, "STUB", ""),
            "event_log_digest": allx,
            "known_findings": known_lines,
        },
        "assumptions": list(getattr(prop, "ASSUME", [])),
        "wall_s": round(wall, 3),
        "violations": len(tot["viol"]),
    }
    if viol:
        ev["coverage"]["violation"] = viol
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    epath = os.path.join(VERIF, "evidence", f"{pid}.json")
    with boot.SEAMS["real_open"](epath, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} runs={runs} nontrivial={agg['nontrivial']} switches={agg['switches']} "
          f"faults={sum(tot['faults'].values())} states={len(tot['states'])} "
          f"discard={agg['discard']} wall={wall:.1f}s digest={allx[:12]}")
    if args.verbose:
        print("faults", dict(sorted(tot["faults"].items())))
        print("probes", dict(sorted(tot["probes"].items())))
    if viol:
        print(f"VIOLATION property={pid} replay={viol['replay']}", flush=True)
        return 1
    if tot["errors"]:
        for i, m in tot["errors"][:3]:
            print("HARNESS ERROR", i, m)
        return 2
    if runs == 0:
        print("HARNESS ERROR: nothing ran")
        return 2
    return 0


def cmd_replay(args):
    with boot.SEAMS["real_open"](args.file) as f:
        rep = json.load(f)
    prop = load(rep["property"])
    res = settle(prop, rep["plan"], run_forked(prop, rep["plan"]))
    print(res["status"], res.get("kind"), res.get("msg", "")[:3000])
    print("trace:", *res["tail"][-30:], sep="\n  ")
    if res["status"] == "violation":
        same = res["digest"] == rep["digest"]
        print(f"digest {'equal to' if same else 'differs from'} the recorded run")
        print(f"VIOLATION property={prop.ID} replay={args.file}")
        return 1
    return 2 if res["status"] == "harness" else 0


def cmd_one(args):
    prop = load(args.property)
    for i in range(args.index, args.index + args.n):
        plan = plan_for(prop, args.seed, i, args.tier)
        res = run_forked(prop, plan)
        if args.plan or res["status"] not in ("ok",):
            print(json.dumps(plan))
        print(i, res["status"], res.get("kind", ""), res.get("msg", "")[:3000],
              res["faults"], res["digest"][:12])
        if args.verbose:
            print(*res["tail"], sep="\n  ")
    return 0


def cmd_selftest(args):
    """Every property module loads, generates, and runs the same plan twice alike."""
    bad = 0
    names = sorted(n[:-3] for n in os.listdir(os.path.join(VERIF, "sim", "props"))
                   if n.startswith("c") and n.endswith(".py"))
    for n in names:
        prop = load(n)
        for i in range(args.n):
            plan = json.loads(json.dumps(plan_for(prop, 1, i, "quick")))
            a, b = run_forked(prop, plan), run_forked(prop, plan)
            if a["digest"] != b["digest"] or a["status"] == "harness":
                bad += 1
                print(prop.ID, i, a["status"], b["status"], "NOT REPEATABLE",
                      a.get("msg", "")[:500])
        print(prop.ID, "loads and repeats", flush=True)
    print("not repeatable:", bad)
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("tier", choices=["quick", "thorough"])
    c.add_argument("--seed", type=int)
    c.add_argument("--runs", type=int)
    c.add_argument("--budget", type=float)
    c.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", os.cpu_count() or 8)))
    c.add_argument("--no-confirm", action="store_true")
    c.add_argument("-v", "--verbose", action="store_true")
    r = sub.add_parser("replay")
    r.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("property")
    o.add_argument("index", type=int)
    o.add_argument("n", type=int, nargs="?", default=1)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--tier", default="quick")
    o.add_argument("--plan", action="store_true")
    o.add_argument("-v", "--verbose", action="store_true")
    t = sub.add_parser("selftest")
    t.add_argument("n", type=int, nargs="?", default=3)
    args = ap.parse_args(argv)
    return {"selftest": cmd_selftest, "check": cmd_check, "replay": cmd_replay, "one": cmd_one}[args.cmd](args)
