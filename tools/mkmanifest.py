"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = ("a pure function of its arguments: no schedule, clock, I/O, random draw, other party or fault "
      "takes part in it, so a simulator has nothing to decide; input generation alone would be another technique")
NA_BY = {
    "C29": "argument validation is a pure function of the argument; nothing for a simulator to schedule or fail",
    "C30": "convergence in the limit is a mathematical statement about the recursion (decided per step as C02), not about schedules or faults; no finite simulated history settles it",
}
NOTE = {
    "C01": "Seeded search over fault points, call splits and solver configurations; each run is compared with its own uninterrupted twin on the real solver.",
    "C02": "Lock-step refinement against an executable reference recursion, for scripted operator answers and injected operator failures.",
    "C03": "Stopping iteration compared with a model of the cost test and early-stopping window over scripted cost and metric histories with failures.",
    "C04": "Every call of the user's metric functions compared with the schedule model, over call histories with failures.",
    "C05": "Histories checked after every evaluation under a simulated clock that stalls and steps in both directions, with failing metrics.",
    "C06": "History model of the subject/observer API, with observers that re-enter, mutate the registry and raise.",
    "C07": "Window model of the cost object, with raising cost parts; history observed through the public plot.",
    "C08": "Twin runs in which operators reuse buffers and the caller overwrites its arrays at seeded points.",
    "C09": "Real threads under a baton scheduler, one switch decision per traced line or bytecode, against each solver alone.",
    "C10": "Operation histories with threads and asynchronous interrupts against the same calls in a pristine process.",
    "C11": "Operator call histories with failures and interrupts against freshly built operators.",
    "C12": "Draw histories with a simulated entropy source and interleaved foreign draws.",
    "C13": "Power-method model with raising operators at every application.",
    "C14": "History model of reweighted primal-dual runs with failures in rounds and in the reweighting itself.",
    "C15": "Worker threads of the batched transform under the baton scheduler, with failing workers.",
    "C16": "Real log files in a scratch directory, read back after every call, with injected write errors and full disk.",
    "C17": "Real FITS files in a scratch directory; the external program is a simulated process that crashes, stalls, truncates or lies.",
    "C18": "Real plots into a scratch directory with injected write errors and full disk.",
    "C19": "Re-imports the package against simulated accelerator libraries with allocation failures.",
    "C30": "Disturbed runs of every solver with the package's own operators, followed to the independently computed minimiser.",
    "C31": "The package imported anew in simulated installations with missing and broken packages, compared with the full one.",
    "C20": "Twin runs with and without observation, with failing output streams and a jumping clock.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "sim", "props", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": f"{PY} run.py check {i} quick",
                "thorough_cmd": f"{PY} run.py check {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories",
                "level": "exploration",
                "level_note": NOTE[i] + " Samples seeded runs: a clean batch is evidence, not proof.",
            })
        elif not (21 <= int(i[1:]) <= 29):
            na.append({"property": i, "reason": "check under construction"})
        else:
            na.append({"property": i, "reason": NA_BY.get(i, NA)})
    m = {"version": 1, "setup_cmd": f"{PY} run.py selftest",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks were added to /repo: all seams are at module boundaries (see DESIGN.md). Commits in /repo are fixes of genuine defects, listed in known_findings.json."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
