"""Developer tool (no check runs it): confirm a planted bug in a scratch copy
and store it under /verif/seeded/<id>/.

    plant.py SPEC.py...      each spec defines ID, PROPERTY, NEEDS, BREAKS,
                             EDITS = [(file, old, new)], DEMO = python source
    plant.py --check ID...   apply a stored patch to a scratch copy, run its check
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
DEMO_SH = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
    return d, d + "/repo"


def demo(folder, repo):
    r = subprocess.run(["bash", folder + "/demo.sh"], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests(repo):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    x = repo + "/../junit.xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "junit_family=xunit2", "--junitxml=" + x, "--continue-on-collection-errors"],
                   cwd=repo, env=ENV, capture_output=True)
    import xml.etree.ElementTree as E

    ok = set()
    for t in E.parse(x).iter("testcase"):
        if not any(ch.tag in ("failure", "error", "skipped") for ch in t):
            ok.add(t.get("classname") + "::" + t.get("name"))
    return sorted(base - ok)


def check(prop, repo):
    r = subprocess.run([PY, V + "/check.py", prop, "--tier", "quick"], cwd=V, env=dict(ENV, VERIF_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True)
    lines = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "BOUNDED" in x or x.startswith(prop)]
    return r.returncode, lines, r.stderr[-400:]


def main():
    if sys.argv[1] == "--check":
        for i in sys.argv[2:]:
            f = f"{V}/seeded/{i}"
            meta = json.load(open(f + "/meta.json"))
            d, repo = copy()
            try:
                subprocess.run(["git", "-C", repo, "apply", f + "/patch.diff"], check=True)
                rc, lines, err = check(meta["property"], repo)
                print(i, meta["property"], "CAUGHT" if rc == 1 else f"MISSED rc={rc} {err}", "|", " ".join(lines)[:400])
            finally:
                shutil.rmtree(d)
        return
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        f = f"{V}/seeded/{s['ID']}"
        d, repo = copy()
        try:
            tmp = d + "/s"
            os.makedirs(tmp)
            open(tmp + "/demo.py", "w").write(s["DEMO"])
            open(tmp + "/demo.sh", "w").write(DEMO_SH)
            rc0, out0 = demo(tmp, repo)
            for path, old, new in s["EDITS"]:
                t = open(f"{repo}/{path}").read()
                assert t.count(old) == 1, (s["ID"], path, t.count(old))
                open(f"{repo}/{path}", "w").write(t.replace(old, new))
            patch = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
            rc1, out1 = demo(tmp, repo)
            broken = tests(repo)
            print(s["ID"], "demo", rc0, rc1, "tests", "OK" if not broken else broken)
            if rc0 != 0 or rc1 == 0 or broken:
                print("   NOT KEPT", out0 if rc0 else "", out1[-300:])
                continue
            os.makedirs(f, exist_ok=True)
            open(f + "/patch.diff", "w").write(patch)
            shutil.copy(tmp + "/demo.py", f)
            shutil.copy(tmp + "/demo.sh", f)
            os.chmod(f + "/demo.sh", 0o755)
            json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(f + "/meta.json", "w"), indent=1)
            rc, lines, err = check(s["PROPERTY"], repo)
            print("   ", s["PROPERTY"], "CAUGHT" if rc == 1 else f"MISSED rc={rc} {err}", "|", " ".join(lines)[:400])
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
