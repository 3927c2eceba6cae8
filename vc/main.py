"""Command line: check one property, replay a counterexample, develop."""

import argparse
import ast
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import pkgutil
import random
import shutil
import subprocess
import sys
import time

from . import harness as H
from . import loader
from . import run as R

TRUSTED = [
    "the VC generator in /verif/vc (path exploration, symbolic numpy/pandas/scipy/PyCO2SYS stand-ins, normal form)",
    "z3 4.x and cvc5 1.1.2 for the obligations they discharge; sympy's polynomial field arithmetic for normal forms",
    "CPython's compilation and execution of the package source (the program text verified is the file's text with the identity hooks /verif/vc/instrument.py adds to loops, comprehensions and str.join)",
]


def load_contracts():
    import contracts

    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)
    return importlib.import_module("contracts.props")


def known_findings(prop):
    out = []
    p = os.path.join(R.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                d = json.loads(line[len("known: "):])
                if d["property"] == prop:
                    out.append(d)
    return out


def is_known(known, contract, clause, why):
    for k in known:
        if k["contract"] == contract and k["clause"] == clause and k.get("why", "") in why:
            return k
    return None


def _worker(args):
    name, tier, seed = args
    try:
        return R.run_contract(name, tier, seed)
    except BaseException as e:  # noqa: BLE001 - reported, never swallowed
        import traceback

        return dict(contract=name, crashed=f"{type(e).__name__}: {e}", trace=traceback.format_exc())


def run_many(names, tier, seed, jobs):
    if jobs == 1 or len(names) == 1:
        return [_worker((n, tier, seed)) for n in names]
    ctx = multiprocessing.get_context("fork")
    out = {}
    with concurrent.futures.ProcessPoolExecutor(jobs, mp_context=ctx, max_tasks_per_child=None) as ex:
        futs = {ex.submit(_worker, (n, tier, seed)): n for n in names}
        for f in concurrent.futures.as_completed(futs):
            n = futs[f]
            try:
                out[n] = f.result()
            except Exception as e:  # noqa: BLE001
                out[n] = dict(contract=n, crashed=f"{type(e).__name__}: {e}", trace="")
    return [out[n] for n in names]


def function_sources(functions):
    """file:line and hash of every function under contract, current tree."""
    out = {}
    for dotted in functions:
        mod, _, fn = dotted.partition(".") if ":" not in dotted else dotted.partition(":")
        parts = dotted.replace(":", ".").split(".")
        for k in range(len(parts) - 1, 0, -1):
            p = os.path.join(loader.REPO, "calkulate", *parts[:k]) + ".py"
            if os.path.exists(p):
                break
        else:
            continue
        name = parts[-1]
        text = open(p, encoding="utf-8").read()
        try:
            tree = ast.parse(text)
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                seg = ast.get_source_segment(text, n) or ""
                out[dotted] = f"{os.path.relpath(p, loader.REPO)}:{n.lineno} sha1={hashlib.sha1(seg.encode()).hexdigest()[:10]}"
                break
    return out


def undischarged(r):
    """Obligations the verifier does not accept, other than for lack of time
    and for contracts whose function is not there (its callers are judged)."""
    out = [b for b in r["bad"] if b["status"] in ("refuted", "unknown", "vacuous")]
    if H.REGISTRY[r["contract"]].opts.get("fallback"):
        return out  # a bounded check stands in where the verifier does not reach
    for why, ch in r["unsupported"].items():
        if why.startswith(("not found:", "time budget")):
            continue
        out.append(dict(clause="every path is within the verifier's reach", status="not verified", detail=why, choices=ch[:2]))
    return out


def check(prop, tier, seed, props):
    t0 = time.time()
    names = props.PROPS[prop]
    for n in names:
        assert n in H.REGISTRY, n
    jobs = min(int(os.environ.get("VC_JOBS", "8")), os.cpu_count() or 1)
    results = run_many(names, tier, seed, jobs)
    known = known_findings(prop)
    rdir = os.path.join(R.VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    violations, lines, bounded = [], [], []
    seen_known = {}
    for r in results:
        if "crashed" in r:
            bounded.append(f"{r['contract']}: the verifier gave no answer ({r['crashed']})")
            continue
        hard = [f for f in r["failures"] if f["reproduced"]]
        for f in hard:
            k = is_known(known, r["contract"], f["clause"], f["why"])
            if k:
                seen_known[k["what"]] = 1
                continue
            path = os.path.join(rdir, f"{prop}-{r['contract']}-{len(violations)}.json")
            json.dump(dict(property=prop, contract=r["contract"], clause=f["clause"], why=f["why"], all=f["all"],
                           inputs=f["inputs"], before=f["before"], failed_obligations=r["bad"][:5],
                           replay=f"/opt/venv/bin/python /verif/check.py --replay {path}"),
                      open(path, "w"), indent=1, default=str)
            violations.append(dict(contract=r["contract"], clause=f["clause"], why=f["why"], replay=path))
            lines.append((f"VIOLATION property={prop} replay={path}", r["contract"], f["clause"], f["why"]))
            break
        if hard:
            continue
        failed = undischarged(r)
        if failed:
            b = failed[0]
            path = os.path.join(rdir, f"{prop}-{r['contract']}-{len(violations)}.json")
            json.dump(dict(property=prop, contract=r["contract"], clause=b["clause"], obligation=b, undischarged=len(failed),
                           others=[f"{x['status']}: {x['clause']}" for x in failed[1:8]],
                           note=f"the verifier does not accept this obligation; {r['conc_runs']} evaluations of the contract on the real code found no failing input"),
                      open(path, "w"), indent=1, default=str)
            why = f"{b['status']}: {b['detail'][:300]}"
            violations.append(dict(contract=r["contract"], clause=b["clause"], why=why, replay=path))
            lines.append((f"VIOLATION property={prop} replay={path} no-failing-input-found", r["contract"], b["clause"], why))
            continue
        if H.REGISTRY[r["contract"]].opts.get("bounded"):
            bounded.append(f"{r['contract']}: {r['note']}; {r['conc_runs']} evaluations on the real code")
        if r["unsupported"] or r["bad"]:
            why = sorted(set(list(r["unsupported"]) + [f"{b['status']}: {b['clause']}" for b in r["bad"]]))
            bounded.append(f"{r['contract']}: bounded, {r['conc_runs']} evaluations on the real code stand in for: " + "; ".join(why)[:600])
    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    ev = evidence(prop, tier, seed, results, bounded, violations, time.time() - t0, props)
    os.makedirs(os.path.join(R.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(R.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    cov = ev["coverage"]
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged over {cov['paths']} paths, "
          f"{len(results)} contracts, {cov['concrete_evaluations']} evaluations on the real code, {ev['wall_s']:.1f} s")
    for b in bounded:
        print("  BOUNDED", b)
    for ln, con, cl, why in lines:
        print(f"  contract {con}, clause: {cl}: {why}")
        print(ln)
    return 1 if lines else 0


def evidence(prop, tier, seed, results, bounded, violations, wall, props):
    ob = dis = paths = conc = checks = rej = can = 0
    backends, functions, per_contract, solver = {}, set(), {}, 0.0
    stubs = {}
    for r in results:
        if "crashed" in r:
            per_contract[r["contract"]] = "no answer: " + r["crashed"]
            continue
        n = sum(r["per"].values())
        d = r["per"].get("proved", 0)
        ob += n
        dis += d
        paths += r["paths"]
        conc += r["conc_runs"]
        checks += r["conc_checks"]
        rej += r["rejected"]
        can += r["canaries"]
        solver += r["stats"]["solver_s"]
        for k, v in r["stats"]["proved"].items():
            backends[k] = backends.get(k, 0) + v
        for k, v in r["stubs"].items():
            stubs[k] = stubs.get(k, 0) + v
        functions |= set(r["functions"])
        ok = n and n == d and not r["unsupported"]
        per_contract[r["contract"]] = dict(
            status="proved" if ok else "bounded", obligations=n, discharged=d, paths=r["paths"],
            clauses=r["clauses"], unsupported=list(r["unsupported"])[:5],
            not_discharged=[f"{b['status']}: {b['clause']}" for b in r["bad"]][:8],
            evaluations_on_real_code=r["conc_runs"], notes=list(r["notes"])[:6],
            functions=r["functions"])
    info = props.INFO[prop]
    level = info["level"]
    return dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=ob, discharged=dis, undischarged=ob - dis, paths=paths,
            checker_cmd=f"/opt/venv/bin/python /verif/check.py {prop} --tier {tier}",
            trusted_base=TRUSTED + props.ASSUMED_COMMON,
            by_backend=backends, solver_s=round(solver, 2),
            functions_under_contract=function_sources(sorted(functions)),
            callee_contracts_used=stubs, contracts=per_contract, bounded=bounded,
            vacuity=dict(false_clauses_tried=can,
                         rule="each first normal-form/SMT obligation of a clause is retried with a false right-hand side, which must not be provable; each contract must accept concrete inputs"),
            concrete_evaluations=conc, concrete_clause_checks=checks, concrete_rejected=rej),
        assumptions=info["assumptions"] + props.ASSUMED_COMMON,
        wall_s=round(wall, 2), violations=violations)


def selftest(props):
    """The tools are there, and the verifier accepts a true obligation and
    rejects a false one."""
    for p, names in props.PROPS.items():
        for n in names:
            assert n in H.REGISTRY, (p, n)
        assert p in props.INFO, p
    from . import prover as PR
    from . import terms as T

    x = T.var("selftest.x", "R", "+")
    pr = PR.Prover()
    good = pr.prove([], T.eq(T.log(T.exp(x)), x))
    bad = pr.prove([], T.eq(T.mul(x, x), x))
    lin = pr.prove([T.lt(T.num(2), x)], T.lt(T.ONE, x))
    assert good.status == "proved" and lin.status == "proved" and bad.status == "refuted", (good, bad, lin)
    assert shutil.which("cvc5")
    loader.real()
    print("selftest ok:", len(H.REGISTRY), "contracts,", len(props.PROPS), "properties")
    return 0


def replay(path):
    d = json.load(open(path))
    r = R.ContractRun(H.REGISTRY[d["contract"]], "quick", 1)
    for x in d.get("before") or []:  # what was evaluated just before it
        r.concrete(random.Random(0), x, R.literals())
    st, c, fails = r.concrete(random.Random(0), d.get("inputs") or (d.get("obligation") or {}).get("model") or {}, R.literals())
    print("status:", st)
    for f in fails:
        print("FAILED", f[0], "-", f[1])
    return 1 if fails else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("what", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--dev", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in R.TIERS:
        a.tier = "quick"
    props = load_contracts()
    if a.selftest:
        return selftest(props)
    if a.replay:
        return replay(a.replay)
    if a.dev:
        for n in a.what:
            r = R.run_contract(n, a.tier, a.seed)
            print(n, r["per"], "paths", r["paths"], "sym %.1fs" % r["sym_s"], "conc", r["conc_runs"], "rej", r["rejected"],
                  "%.1fs" % r["conc_s"], "canaries", r["canaries"], r["stats"]["proved"], "stubs", r["stubs"], r["notes"] or "")
            for k, v in r["unsupported"].items():
                print("  UNSUPPORTED", k, v[:2])
            for b in r["bad"][:8]:
                print("  BAD", b["status"], b["clause"], b["choices"], b["detail"][:500], b["model"], b["opaque"])
            for f in r["failures"]:
                print("  FAIL", f["clause"], f["why"], "reproduced", f["reproduced"], str(f["inputs"])[:600])
        return 0
    if a.all:
        rc = 0
        for p in sorted(props.PROPS):
            rc |= check(p, a.tier, a.seed, props)
        return rc
    return check(a.what[0], a.tier, a.seed, props)
