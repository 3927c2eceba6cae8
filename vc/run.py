"""Runs the contracts of a property: obligations by the verifier, then the
contracts evaluated on the real package (replay of counterexamples,
cross-check of the assumed dependency contracts, bounded stand-in)."""

import ast
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from . import harness as H
from . import loader, numeval, prover
from . import sym as S
from . import terms as T

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TIERS = {
    # concrete runs per contract, seconds for them, seconds for the proof,
    # solver timeout per query
    "quick": dict(conc=300, conc_s=40.0, sym_s=240.0, timeout=8.0),
    "thorough": dict(conc=3000, conc_s=240.0, sym_s=900.0, timeout=30.0),
}


class ContractRun:
    def __init__(self, contract, tier, seed):
        self.contract = contract
        self.tier, self.seed = tier, seed
        self.cfg = TIERS[tier]
        self.obligations = {}  # clause -> list of dict
        self.notes = {}
        self.stub_calls = {}
        self.paths = 0
        self.unsupported = {}
        self.canaries = {}
        self.inputs = {}
        self.warm = 0
        self.prover = None

    # -- called by the contexts
    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def oblige(self, clause, ctx, goal, extra_hyps, canary=None):
        hyps = list(ctx.path.pc) + [h for h in extra_hyps if h is not T.TRUE]
        v = self.prover.prove(hyps, goal)
        rec = dict(status=v.status, backend=v.backend, choices=dict(ctx.choices))
        if v.status == "proved":
            k = self.canaries.get(clause, 0)
            if canary is not None and k < 1 and v.backend != "simplify":
                self.canaries[clause] = k + 1
                w = self.prover.prove(hyps, canary, count=False, deep=False)
                if w.status == "proved":
                    rec.update(status="vacuous", detail="a false clause is provable here")
        else:
            rec["detail"] = v.detail
            if v.status == "refuted" and v.model is not None:
                rec["model"] = self.model_inputs(ctx, v.model)
                rec["opaque"] = sorted(v.model.opaque_used)
        self.obligations.setdefault(clause, []).append(rec)

    def static(self, clause, ok, why):
        p = S.P
        rec = dict(status="proved" if ok else "refuted", backend="execution")
        ctx = H.CURRENT
        rec["choices"] = dict(ctx.choices) if ctx is not None else {}
        if not ok:
            rec["detail"] = why
            rec["model"] = {}
            # the path itself has to be feasible
            env = numeval.find_counterexample(list(p.pc), T.FALSE, self.prover.rng, tries=200)
            if env is not None:
                rec["model"] = self.model_inputs(ctx, env)
            else:
                rec["status"] = "unknown"
        prover.STATS["obligations"] += 1
        if ok:
            prover.STATS["proved"]["execution"] = prover.STATS["proved"].get("execution", 0) + 1
        else:
            prover.STATS[rec["status"]] += 1
        self.obligations.setdefault(clause, []).append(rec)

    def congruence(self, clause, ok, why, ctx):
        """Same uninterpreted function of the same arguments; a mismatch does
        not show that the values differ."""
        prover.STATS["obligations"] += 1
        if ok:
            prover.STATS["proved"]["congruence"] = prover.STATS["proved"].get("congruence", 0) + 1
            rec = dict(status="proved", backend="congruence", choices=dict(ctx.choices))
        else:
            prover.STATS["unknown"] += 1
            rec = dict(status="unknown", backend=None, choices=dict(ctx.choices), detail=why)
        self.obligations.setdefault(clause, []).append(rec)

    def model_inputs(self, ctx, env):
        out = {}
        for name, info in ctx.inputs.items():
            kind, full = info[0], info[1]
            if kind in ("real", "int", "bool"):
                if full in env.scal:
                    v = env.scal[full]
                    out[name] = int(v) if kind == "int" else (bool(v) if kind == "bool" else float(v))
                if full + ".nan" in env.scal:
                    out[name + ".nan"] = bool(env.scal[full + ".nan"])
            else:
                nn = info[2].t
                try:
                    k = numeval.Evaluator(env).ev(nn)
                except numeval.EvalFail:
                    continue
                sort = "B" if kind == "boolarray" else "R"
                vals = [env.element(full, i, sort) for i in range(int(k))]
                out[name] = [bool(v) if sort == "B" else float(v) for v in vals]
        for k, v in ctx.choices.items():
            out["?" + k] = v
        return out

    # -- verification
    def verify(self):
        t0 = time.time()
        self.prover = prover.Prover(timeout=self.cfg["timeout"], seed=self.seed)
        ex = S.Explorer(self.prover, deadline=t0 + self.cfg["sym_s"], **{
            k: v for k, v in self.contract.opts.items() if k == "max_paths"})

        def path():
            ctx = H.SymCtx(self)
            H.CURRENT = ctx
            try:
                self.contract.fn(ctx)
                self.paths += 1
            except S.Unsupported as e:
                self.mark(f"outside the subset: {e}", ctx)
            except H.Missing as e:
                self.mark(f"not found: {e}", ctx)
            except H.TargetRaised as e:
                self.mark(f"raised in symbolic execution: {e}", ctx)
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exception(e.exc)
            except (S.Infeasible, S.NeedLoopInfo, RecursionError):
                raise
            except Exception as e:  # noqa: BLE001 - what came back is not what the clauses are written for
                self.mark(f"result not of the expected form: {type(e).__name__}: {e}"[:200], ctx)
            finally:
                H.CURRENT = None

        try:
            ex.run(path)
        except S.Unsupported as e:
            self.mark(str(e), None)
        except RecursionError:
            self.mark("recursion limit", None)
        self.sym_s = time.time() - t0

    def mark(self, why, ctx):
        d = self.unsupported.setdefault(why, [])
        if ctx is not None and len(d) < 4:
            d.append({"?" + k: v for k, v in ctx.choices.items()})
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()

    # -- concrete
    def concrete(self, rng, fixed, literals):
        """One evaluation on the real package: (status, ctx, failures)."""
        c = H.ConcCtx(rng, fixed, literals)
        H.CURRENT = c
        try:
            with contextlib.redirect_stdout(_Sink()), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                self.contract.fn(c)
        except H.Rejected:
            return "rejected", c, []
        except H.Missing as e:
            return "missing", c, []
        except H.TargetRaised as e:
            return "ran", c, c.failures + [("completes without an error", str(e))]
        except Exception as e:  # noqa: BLE001 - raised by a clause itself
            if os.environ.get("VC_DEBUG"):
                traceback.print_exc()
            if c.failures or (c.touched and not c.private):
                return "ran", c, c.failures + [("result has the expected form", f"{type(e).__name__}: {e}"[:300])]
            return "missing", c, []
        finally:
            H.CURRENT = None
            c.cleanup()
        return "ran", c, c.failures

    def battery(self, boost):
        t0 = time.time()
        lits = literals()
        rng = random.Random(f"{self.contract.name}/{self.seed}")
        want = int(self.contract.opts.get("conc", self.cfg["conc"]))
        if self.tier == "thorough":
            want = max(want * 10, 400)
        want *= boost
        self.conc_runs = self.conc_checks = self.rejected = 0
        self.failures = []
        guided, history = [], []
        for clause, recs in self.obligations.items():
            for r in recs:
                if r["status"] != "proved":
                    if r.get("model"):
                        guided.append((r["model"], r))
                    guided += [({"?" + k: v for k, v in r["choices"].items()}, None)] * 6
        for why, ch in self.unsupported.items():
            for x in ch:
                guided += [(x, None)] * 6
        guided = guided[:120]
        limit = self.cfg["conc_s"] * (2 if boost > 1 else 1)
        budget = want * 12
        while budget > 0 and time.time() - t0 < limit:
            budget -= 1
            if guided:
                fixed, ob = guided.pop(0)
            elif self.conc_runs >= want:
                break
            else:
                fixed, ob = None, None
            st, c, fails = self.concrete(rng, fixed, lits)
            if ob is not None:
                ob["replayed"] = "yes" if st == "ran" else "no"
            if st == "missing":
                self.note("function under contract not present; its callers execute what replaced it")
                break
            if st == "rejected":
                self.rejected += 1
                continue
            self.conc_runs += 1
            self.conc_checks += c.checks
            if fails:
                # must fail again from its recorded inputs
                st2, c2, fails2 = self.concrete(random.Random(0), dict(c.record), lits)
                again = [f for f in fails2 if f[0] in {x[0] for x in fails}]
                self.failures.append(
                    dict(clause=fails[0][0], why=fails[0][1], all=[list(f) for f in fails[:6]],
                         inputs=c.record, before=list(history), reproduced=bool(again)))
                if len(self.failures) >= 3:
                    break
            history = (history + [c.record])[-3:]
        self.conc_s = time.time() - t0

    def result(self):
        per = {}
        for clause, recs in self.obligations.items():
            for r in recs:
                per[r["status"]] = per.get(r["status"], 0) + 1
        bad = []
        for clause, recs in self.obligations.items():
            for r in recs:
                if r["status"] != "proved":
                    bad.append(dict(clause=clause, status=r["status"], detail=(r.get("detail") or "")[:3000],
                                    model=r.get("model"), replayed=r.get("replayed"), choices=r["choices"], opaque=r.get("opaque")))
        return dict(
            contract=self.contract.name,
            functions=list(self.contract.functions),
            note=self.contract.opts.get("note"),
            clauses=sorted(self.obligations),
            per=per,
            bad=bad[:40],
            unsupported={k: v for k, v in self.unsupported.items()},
            paths=self.paths,
            notes=self.notes,
            stubs=self.stub_calls,
            canaries=sum(self.canaries.values()),
            sym_s=getattr(self, "sym_s", 0.0),
            conc_runs=getattr(self, "conc_runs", 0),
            conc_checks=getattr(self, "conc_checks", 0),
            rejected=getattr(self, "rejected", 0),
            conc_s=getattr(self, "conc_s", 0.0),
            failures=getattr(self, "failures", []),
            stats=dict(prover.STATS),
        )


class _Sink:
    """What the package prints while its contracts are evaluated."""

    def write(self, s):
        return len(s)

    def flush(self):
        pass


_lits = None


def literals():
    """Numeric literals of the current source: boundary values to try."""
    global _lits
    if _lits is None:
        s = set()
        for f in loader.source_files():
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    s.add(float(n.value))
                    s.add(-float(n.value))
        _lits = sorted(x for x in s if abs(x) < 1e9)
    return _lits


def run_contract(name, tier, seed):
    """Worker entry point."""
    prover.reset_stats()
    r = ContractRun(H.REGISTRY[name], tier, seed)
    if not r.contract.opts.get("bounded"):
        def late(*_):
            raise S.Unsupported("time budget for the proof used up")

        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(int(r.cfg["sym_s"]) + 20)
        try:
            r.verify()
        except S.Unsupported as e:
            r.mark(str(e), None)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            S.P = None
    clean = (not r.unsupported and all(
        x["status"] == "proved" for recs in r.obligations.values() for x in recs))
    r.battery(1 if clean else 3)
    return r.result()


def refuted_for_sure(res):
    """Obligations shown false at a point of the term level semantics, where
    every opaque value involved is a declared input."""
    return [b for b in res["bad"] if b["status"] == "refuted"]
