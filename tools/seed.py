"""Write a planted bug into /verif/seeded (helper for batch files)."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/modopt/"


def bug(bid, prop, needs, breaks, edits, demo):
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        for side in "ab":
            for f in {e[0] for e in edits}:
                p = os.path.join(tmp, side, SRC + f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join("/repo", SRC + f), p)
        for f, old, new, *nth in edits:
            p = os.path.join(tmp, "b", SRC + f)
            s = open(p).read()
            if nth:  # n-th occurrence, counted from zero
                parts = s.split(old)
                k = nth[0] + 1 if nth[0] >= 0 else len(parts) + nth[0]
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            elif s.count(old) == 1:
                s = s.replace(old, new)
            else:  # blank lines may differ
                rx = r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in old.split("\n"))
                n = len(re.findall(rx, s))
                assert n == 1, (bid, f, n, old)
                s = re.sub(rx, lambda m: new, s)
            open(p, "w").write(s)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp,
                           capture_output=True, text=True).stdout
        # names come out as a/src/... b/src/...
        open(os.path.join(d, "patch.diff"), "w").write(r)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(demo).lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\n'
        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
