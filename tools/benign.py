"""Developer tool (no check runs it): apply behaviour-preserving edits of
/verif/benign to a scratch copy and see which checks alarm.

    benign.py [--each] [--checks C01,C02] NAME...
"""

import os
import runpy
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ENV, PY, V, copy, tests  # noqa: E402


def run(repo, checks):
    cmd = [PY, V + "/check.py"] + (["--all"] if not checks else [])
    out = []
    for c in checks or [None]:
        r = subprocess.run([PY, V + "/check.py", c or "--all", "--tier", "quick"], cwd=V, env=dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_EVIDENCE="0"), capture_output=True, text=True)
        out += [x[:400] for x in r.stdout.splitlines() if "VIOLATION" in x or "BOUNDED" in x or x.startswith("  contract")]
        if r.returncode not in (0, 1):
            out.append("RC %d %s" % (r.returncode, r.stderr[-300:]))
    return out


def main():
    args = sys.argv[1:]
    each = "--each" in args
    checks = None
    if "--checks" in args:
        checks = args[args.index("--checks") + 1].split(",")
        args.remove(args[args.index("--checks") + 1])
    names = [a for a in args if not a.startswith("--")] or sorted(f[:-3] for f in os.listdir(V + "/benign") if f.endswith(".py"))
    for n in names:
        spec = runpy.run_path(f"{V}/benign/{n}.py")
        edits, one = spec["EDITS"], each or spec.get("EACH")
        for group in [[e] for e in edits] if one else [edits]:
            d, repo = copy()
            t0 = time.time()
            try:
                for path, old, new in group:
                    t = open(f"{repo}/{path}").read()
                    assert t.count(old) == 1, (n, path, t.count(old), old[:80])
                    open(f"{repo}/{path}", "w").write(t.replace(old, new))
                bad = tests(repo)
                print("==", n, "" if not one else repr(group[0][2][:60]), "tests broken:" if bad else "", bad or "", flush=True)
                for x in run(repo, checks):
                    print("   ", x, flush=True)
                print("   ", "%.0f s" % (time.time() - t0), flush=True)
            finally:
                shutil.rmtree(d)


main()
