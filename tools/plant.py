"""Validate planted bugs and run the checks against them, each in a private
mount namespace where a patched copy of /repo replaces it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind {w}/repo /repo
mount --bind {w}/verif /verif
mkdir -p {w}/reports /opt/vp/reports 2>/dev/null
mount --bind {w}/reports /opt/vp/reports
rm -f {w}/demo/patch.diff {w}/demo/meta.json
cd /repo
timeout 300 bash {w}/demo/demo.sh > {w}/demo_clean.txt 2>&1; echo clean=$?
git apply --check {w}/patch.diff && git apply {w}/patch.diff; echo apply=$?
timeout 300 bash {w}/demo/demo.sh > {w}/demo_bug.txt 2>&1; echo bug=$?
if [ {tests} = 1 ]; then
bash /opt/vp/build.sh > {w}/build.txt 2>&1; echo build=$?
bash /opt/vp/test.sh {w}/out.json > {w}/test.txt 2>&1
fi
cd /verif
for c in {checks}; do VERIF_SEED={seed} VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py check $c {tier} --workers {workers} > {w}/check_$c.txt 2>&1; echo check_$c=$?; done
'''


def one(bid, tests, checks, tier, workers, seed=1):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = checks or [meta["property"]]
    w = tempfile.mkdtemp(prefix=f"pl-{bid}-", dir="/tmp/w")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.makedirs(w + "/verif")
        shutil.copytree(d, w + "/demo")
        shutil.copy(d + "/patch.diff", w + "/patch.diff")
        for n in ("run.py", "sim", "known_findings.json", "MANIFEST.json"):
            subprocess.run(["cp", "-a", os.path.join(V, n), w + "/verif/"], check=True)
        s = INNER.format(w=w, d=d, tests=int(tests), checks=" ".join(checks), tier=tier, workers=workers, seed=seed)
        r = subprocess.run(["unshare", "-m", "bash", "-c", s], capture_output=True, text=True)
        kv = dict(x.split("=", 1) for x in r.stdout.split() if "=" in x)
        msg = []
        if r.stderr.strip():
            msg.append("stderr: " + r.stderr.strip()[-300:])
        if kv.get("clean") != "0":
            msg.append("DEMO FAILS ON CLEAN TREE: " + open(w + "/demo_clean.txt").read()[-500:])
        if kv.get("apply") != "0":
            msg.append("PATCH DOES NOT APPLY")
        if kv.get("bug") in ("0", None):
            msg.append("DEMO PASSES WITH BUG")
        if tests:
            if kv.get("build") != "0":
                msg.append("BUILD FAILS")
            try:
                base = json.load(open("/opt/vp/BASELINE.json"))
                out = json.load(open(w + "/out.json"))
                stable = base.get("stable") or base.get("passed") or base.get("tests") or base
                failed = sorted(set(stable) - set(out["passed"]))
                if failed:
                    msg.append(f"TESTS FAIL: {failed[:5]}")
            except Exception as e:  # noqa: BLE001
                msg.append("TEST RESULT? %r" % e)
        res = {}
        for c in checks:
            t = open(w + f"/check_{c}.txt").read()
            v = [x for x in t.splitlines() if x.startswith("VIOLATION property=" + c)]
            res[c] = "CAUGHT" if kv.get("check_" + c) == "1" and v else f"missed(rc={kv.get('check_' + c)})"
            if res[c] == "CAUGHT":
                rp = [x for x in t.splitlines() if "kind" in x][:1]
                msg.append(f"[{c}] " + (rp[0][:160] if rp else t.splitlines()[-1][:160]))
            elif kv.get("check_" + c) != "0":
                msg.append(f"[{c}] " + t[-600:])
        return bid, res, msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--checks", default="")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    os.makedirs("/tmp/w", exist_ok=True)
    ids = a.ids or sorted(os.listdir(os.path.join(V, "seeded")))
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        fs = [ex.submit(one, b, not a.no_tests, a.checks.split(",") if a.checks else None, a.tier, a.workers, a.seed) for b in ids]
        for f in cf.as_completed(fs):
            try:
                b, res, msg = f.result()
                print(b, res, *msg, sep="\n    ", flush=True)
            except Exception as e:  # noqa: BLE001
                print("ERR", e, flush=True)


main()
