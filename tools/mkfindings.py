"""Write known_findings.json (committed; never written by a check)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {
    "removing an observer raised": ("C06", "remove_observer raised AttributeError for every observer"),
    "a failing observer blocked": ("C06", "after an observer raised, every later notification was silently refused; observers could be skipped when the list changed during a notification"),
    "metric histories became misaligned": ("C05", "a failing metric left an index without value; elapsed times followed the wall clock backwards; returned histories were the live lists"),
    "metric_call_period was ignored": ("C04", "the metric_call_period given to a solver was replaced by 5"),
    "early stopping on metrics was ignored": ("C03", "without a cost function an early-stopping metric never stopped the run"),
    "GenForwardBackward half updated": ("C01", "a proximity operator failing after another one had answered left part of the dual variables updated"),
    "count a gradient twice": ("C01", "a proximity operator failing after the running averages had been updated made the repeated iteration count its gradient twice"),
    "POGM half updated": ("C01", "a failing proximity operator left z and xi of the failed iteration in place"),
    "POGM wrote into the memory": ("C08", "POGM overwrote the array its gradient operator handed out"),
    "FastADMM failed": ("C01", "FastADMM raised with a cost function and ignored v and tau (also C03, C07)"),
    "PowerMethod ignored its random seed": ("C12", "PowerMethod did not use the seed it was given"),
    "thresholding crashed or lost components": ("C11", "LowRankMatrix with rank-limited SVD crashed or dropped components depending on earlier calls"),
    "svd_thresh_coef modified": ("C10", "svd_thresh_coef wrote into the threshold array of the caller"),
    "multi-channel wavelet transform and early": ("C15", "multichannel transforms failed, and the adjoint failed before a first transform"),
    "closing a log kept": ("C16", "close_log left the file open and could leave handlers attached"),
    "failed mr_transform calls": ("C17", "temporary files stayed behind after failures, and existing files could be overwritten"),
    "a cost plot that could not be saved": ("C18", "a failing save left the figure open"),
    "thresholding failed on zero data": ("C11", "rank-limited SVD thresholding raised on zero data"),
    "a log output that could not be closed": ("C16", "one output that could not be closed kept the other outputs attached and open"),
    "arrays could not be moved": ("C19", "change_backend from a device array to numpy (or another device) relied on implicit conversion, which CuPy refuses"),
    "a progress bar without a total": ("C20", "a progress bar without a total (or an empty one) made the solver fail or was ignored: its truth value was tested instead of its presence"),
    "k-support norm uses the step factor": ("C30", "the k-support norm ignored the step factor in the last step of its proximity operator: solvers ended away from the minimiser"),
    "k-support theta": ("C30", "entries at the edge of two cases were dropped to rounding by the k-support proximity operator (about 2 % of random inputs)"),
    "wrong acceleration sequence": ("C02", "the FISTA t sequence did not follow (p + sqrt(q + r t^2)) / 2"),
}
KNOWN = os.path.join(V, "tools", "known.json")


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True,
                         text=True).stdout.splitlines()
    fixed = []
    for line in reversed(log):
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        k = [v for key, v in FIX.items() if key in s]
        assert len(k) == 1, (line, k)
        fixed.append(f"fixed: property={k[0][0]} {h} {k[0][1]}")
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else []
    with open(os.path.join(V, "known_findings.json"), "w") as f:
        json.dump({"known": known, "fixed": fixed}, f, indent=1)
        f.write("\n")


main()
