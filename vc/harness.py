"""Contracts as dual-mode harness functions.

A contract `k(c)` declares inputs with their preconditions, calls the real
function, and states postconditions.  Run with SymCtx, every postcondition is
an obligation for all inputs; run with ConcCtx it is evaluated on the real
package with real inputs (replay, CPython cross-check, bounded stand-in)."""

import copy
import inspect
import math
import os
import random
import time
import traceback
import warnings

import numpy as _np

from . import textio, frames, loader, numeval, prover, shims, tok
from . import sym as S
from . import terms as T
from .sym import SArr, SBool, SNum, SVec, Space, Unsupported

CURRENT = None
REGISTRY = {}  # contract name -> Contract
SPECS = {}  # "module.func" -> spec function (np, *args, **kwargs)


class Contract:
    def __init__(self, name, fn, functions, opts):
        self.name, self.fn, self.functions, self.opts = name, fn, functions, opts


def contract(name, functions=(), **opts):
    def deco(fn):
        assert name not in REGISTRY, name
        REGISTRY[name] = Contract(name, fn, tuple(functions) or (name,), opts)
        return fn

    return deco


def spec(dotted):
    def deco(fn):
        SPECS[dotted] = fn
        return fn

    return deco


class TargetRaised(Exception):
    def __init__(self, exc):
        super().__init__(f"{type(exc).__name__}: {exc}")
        self.exc = exc


class ClauseFailed(Exception):
    pass


class Rejected(Exception):
    """Concrete input outside the precondition."""


KEEPS = "the call leaves the package's own variables as they were"


class Missing(Exception):
    """The function under contract is not in the current tree."""


def must_bind(fn, a, k):
    """A function whose parameters were renamed or rearranged is another
    function: its callers are judged instead."""
    import inspect

    try:
        sig = inspect.signature(fn)
    except (TypeError, ValueError):
        return
    try:
        sig.bind(*a, **k)
    except TypeError as e:
        raise Missing(f"{getattr(fn, '__qualname__', fn)} with these parameters ({e})") from e


class Base:
    mode = None
    private = False

    def array_like(self, name, n, lo, hi, **k):
        raise NotImplementedError

    def vec(self, name, lo, hi, n=None, **k):
        """A scalar or an array, decided by a harness choice."""
        if self.choice(name + "?", ["scalar", "array"]) == "scalar":
            return self.real(name, lo, hi, **k)
        return self.array(name + "[]", n if n is not None else self.length("n"), lo, hi, **k)

    def subset(self, name, keys, style="all"):
        """A subset of keys: every subset ('all')."""
        return [k for k in keys if self.choice(f"{name}:{k}", [True, False])]


class SymCtx(Base):
    mode = "sym"

    def __init__(self, run):
        self.run = run  # ContractRun
        self.pkg = None
        self.inputs = {}
        self.choices = {}
        self.lengths = {}
        self.path = S.cur()
        self.stubbed = set()
        self.ncalls = 0
        self.stub_sigs = {}

    # ---- package access
    def package(self, **kw):
        if self.pkg is None:
            self.pkg = loader.SymPackage(**kw)
        return self.pkg

    def mod(self, name):
        return self.package().mod(name)

    @property
    def np(self):
        return self.package().np

    @property
    def pd(self):
        return self.package().shims["pandas"]

    @property
    def pyco2(self):
        return self.package().shims["PyCO2SYS"]

    def use(self, *names):
        """Callers are checked against these callees' contracts."""
        pkg = self.package()
        for dotted in names:
            spec_fn = SPECS[dotted]

            def make(orig, spec_fn=spec_fn, dotted=dotted):
                sig = inspect.signature(spec_fn)

                def stub(*a, **k):
                    try:
                        sig.bind(self, *a, **k)
                    except TypeError:
                        self.run.note(f"inlined {dotted} (call shape not covered by its contract)")
                        return orig(*a, **k)
                    self.run.stub_calls[dotted] = self.run.stub_calls.get(dotted, 0) + 1
                    return spec_fn(self, *a, **k)

                stub.__name__ = getattr(orig, "__name__", "stub")
                stub.__wrapped_original__ = orig
                try:
                    stub.__signature__ = inspect.signature(orig)
                except (TypeError, ValueError):
                    pass
                return stub

            if pkg.patch(dotted, make) is None:
                self.run.note(f"callee {dotted} not found; executed inline")

    def stub(self, *names, arity=None, fields=None):
        """These callees become uninterpreted functions of their arguments
        (defaults filled in), whose contracts are other properties."""
        pkg = self.package()
        for dotted in names:

            def make(orig, dotted=dotted):
                sig = inspect.signature(orig)
                self.stub_sigs[dotted] = sig

                def f(*a, **k):
                    b = sig.bind(*a, **k)
                    b.apply_defaults()
                    self.run.stub_calls[dotted] = self.run.stub_calls.get(dotted, 0) + 1
                    return self.opaque_call(dotted, b.arguments, arity, fields)

                f.__name__ = getattr(orig, "__name__", "stub")
                f.__signature__ = sig
                f.__wrapped_original__ = orig
                return f

            if pkg.patch(dotted, make) is None:
                raise Missing(dotted)

    def opaque_call(self, dotted, arguments, arity=None, fields=None):
        args = {}
        for k, v in arguments.items():
            if isinstance(v, dict) and k in ("kwargs", "titrant_totals"):
                args.update(v)
            else:
                args[k] = v
        return tok.Tok.call(dotted, args, arity, fields)

    def value(self, name, concrete=None):
        """An arbitrary non-null setting."""
        return tok.Tok.value(name)

    def files(self):
        """Give the package a symbolic file system."""
        pkg = self.package()
        fs = textio.FS()
        pkg.opener = fs.open
        pkg.np.genfromtxt = textio.genfromtxt(fs)
        return fs

    def loop_index(self):
        return SNum(T.var("li", "I", "0+"))

    # ---- inputs
    def _name(self, name):
        return f"{self.run.contract.name}.{name}"

    def real(self, name, lo=0.0, hi=1.0, pos=False, nonneg=False, requires=True, nan=False):
        sg = "+" if pos else ("0+" if nonneg else None)
        n = self._name(name) + (sg or "")
        numeval.RANGES[n] = (lo, hi)
        v = T.var(n, "R", sg)
        self.inputs[name] = ("real", n)
        if nan:
            return SNum(v, T.var(n + ".nan", "B"))
        return SNum(v)

    def integer(self, name, lo, hi):
        n = self._name(name) + (":i0+" if lo >= 0 else ":i")
        numeval.RANGES[n] = (lo, hi)
        v = T.var(n, "I", "0+" if lo >= 0 else None)
        self.inputs[name] = ("int", n)
        self.path.assume(T.le(T.num(lo, "I"), v))
        self.path.assume(T.le(v, T.num(hi, "I")))
        return SNum(v)

    def length(self, name="n", lo=3, hi=9):
        n = self._name(name) + ":len"
        numeval.RANGES[n] = (lo, hi)
        v = T.var(n, "I", "+")
        self.inputs[name] = ("int", n)
        self.path.assume(T.le(T.num(lo, "I"), v))
        return SNum(v)

    def array(self, name, n, lo=0.0, hi=1.0, pos=False, nonneg=False, order=None, nan=False, gen=None, ints=False):
        sg = "+" if pos else ("0+" if nonneg else None)
        nm = self._name(name) + "@" + (sg or "")
        numeval.RANGES[nm] = (lo, hi)
        t = T.app(nm, (T.IX,), "R", sg)
        sp = Space.get(n.t)
        self.path.assume(T.implies(T.TRUE, T.lt(T.IX, n.t)))
        self.inputs[name] = ("array", nm, n)
        r = SArr(sp, t, T.app(nm + ".nan", (T.IX,), "B") if nan else T.FALSE)
        r.isint = ints
        return r

    def boolarray(self, name, n):
        nm = self._name(name)
        sp = Space.get(n.t)
        self.path.assume(T.lt(T.IX, n.t))
        self.inputs[name] = ("boolarray", nm, n)
        return SArr(sp, T.app(nm, (T.IX,), "B"))

    def bool(self, name):
        n = self._name(name)
        self.inputs[name] = ("bool", n)
        return SBool(T.var(n, "B"))

    def choice(self, name, options):
        k = self.path.pick(len(options))
        self.choices[name] = k
        return options[k]

    def derived(self, name, symbolic, concrete):
        return symbolic()

    def requires(self, cond):
        if isinstance(cond, SArr):
            self.path.assume(T.implies(cond.space.inside, cond.elem))
        elif isinstance(cond, SBool):
            self.path.assume(cond.t)
        elif not cond:
            raise S.Infeasible()

    def requires_feasible(self):
        pass

    # ---- spec vocabulary
    def index(self, arr):
        return SArr(arr.space, T.IX)

    def first(self, mask):
        return mask.nonzero()[0][0]

    def affine(self, a, b):
        """The data regressed from here on are claimed to be y = a*x + b."""
        self.path.affine = None if a is None else (a, b)

    def linregress(self, x, y):
        return shims.linregress(x, y)

    def least_squares(self, fun, x0, **opts):
        return shims.least_squares(fun, x0, _again=False, **opts)

    def pchip(self, xi, yi, x):
        return shims.pchip_interpolate(xi, yi, x)

    def functional(self, name, like, scalars, arrays):
        """An array over the same positions as `like`, an uninterpreted
        function of the position, the scalars and the whole arrays."""
        body = []
        for a in arrays:
            if not isinstance(a, SArr):
                raise Unsupported(f"argument of {name}")
            if a.nan is not T.FALSE:
                raise Unsupported(f"NaN argument of {name}")
            body += [T.toreal(a.elem), a.space.mask, a.space.n]
        sc = []
        for v in scalars:
            if isinstance(v, SArr) or not S.is_scalar(v):
                raise Unsupported(f"argument of {name}")
            sc.append(T.toreal(S.term_of(v)))
        q = T.bind(name, ("ix",), tuple(body), "R")
        return SArr(like.space, T.app(name + "_at", (q, T.IX) + tuple(sc), "R"))

    def oracle(self, fn, *a, **k):
        return fn(*a, **k)

    def opaque(self, name, *args):
        """An uninterpreted function, element by element."""
        sp = None
        for a in args:
            if isinstance(a, SArr):
                sp = a.space if sp is None else Space.unify(sp, a.space)
            elif not S.is_scalar(a):
                raise Unsupported(f"argument of {name}: {type(a).__name__}")
        ts, nn = [], T.FALSE
        for a in args:
            t, n = S.elem_of(a)
            ts.append(T.toreal(t) if t.sort == "I" else t)
            nn = T.lor(nn, n)
        t = T.app(name, tuple(ts), "R")
        return SArr(sp, t, nn) if sp is not None else SNum(t, nn)

    # ---- tables
    def row(self, d):
        return frames.LSeries(d)

    def table(self, n, cols):
        return frames.SFrame({k: v for k, v in cols.items()}, space=Space.get(n.t))

    def column(self, name, n, nan=True, lo=0.0, hi=1.0, values=None):
        """A column of arbitrary values, missing values included."""
        nm = self._name(name)
        return frames.CSeries(Space.get(n.t), T.app(nm, (T.IX,), "R"), T.app(nm + ".nan", (T.IX,), "B") if nan else T.FALSE)

    def batch_stat(self, kind, values, keys, mask):
        """For each row: a statistic of the non-missing values over the rows
        with the same key, where mask holds."""
        g = T.var("group.key", "R")
        sp = Space.get(values.space.n, T.land(T.lnot(keys.nan), T.eq(T.toreal(keys.elem), g), S.elem_of(mask)[0]))
        r = getattr(frames.CSeries(sp, values.elem, values.nan), kind)()
        return frames.SGroupCol(g, *S.elem_of(r)).lookup(keys)

    # ---- execution
    def call(self, dotted, *a, **k):
        fn = self.fn(dotted)
        return self.guard(fn, *a, **k)

    def fn(self, dotted):
        mod, name = dotted.split(":") if ":" in dotted else dotted.rsplit(".", 1)
        obj = self.mod(mod)
        for part in name.split("."):
            if not hasattr(obj, part):
                raise Missing(dotted)
            obj = getattr(obj, part)
        return obj

    def guard(self, fn, *a, **k):
        self.ncalls += 1
        must_bind(fn, a, k)
        before = loader.state_of(self.package().modules)
        try:
            r = fn(*a, **k)
            self.keeps_no_state(before)
            return r
        except (Unsupported, S.Infeasible, S.NeedLoopInfo, TargetRaised):
            raise
        except RecursionError as e:
            raise Unsupported("recursion") from e
        except Exception as e:
            raise TargetRaised(e) from e

    def keeps_no_state(self, before):
        """Frame: the call leaves the package's own variables as they were
        (modules first imported by the call are not variables)."""
        after = loader.state_of(self.package().modules)
        bad = [w for w, v in before.items() if after.get(w, v) != v]
        self.run.congruence(KEEPS, not bad, "changed by the call: " + ", ".join(bad[:4]), self)

    def raises(self, clause, dotted, *a, **k):
        """The call must end in an exception."""
        fn = self.fn(dotted)
        try:
            fn(*a, **k)
        except (Unsupported, S.Infeasible, S.NeedLoopInfo, TargetRaised, Missing):
            raise
        except Exception:
            return self.run.static(clause, True, "")
        self.run.static(clause, False, "no exception")

    def hint_range(self, x, lo, hi):
        pass

    def snapshot(self, x):
        return deep_snapshot(x)

    def warnings(self):
        return list(self.path.warnings)

    # ---- obligations
    def eq(self, clause, got, want, rtol=1e-9, atol=0.0):
        self._eq(clause, got, want)

    def _eq(self, clause, got, want):
        got, want = unwrap(got), unwrap(want)
        if isinstance(want, tok.Tok) or isinstance(got, tok.Tok):
            ok = isinstance(want, tok.Tok) and want.same(got)
            return self.run.congruence(clause, ok, f"{describe(got)} vs {describe(want)}", self)
        if isinstance(want, dict):
            if not isinstance(got, dict):
                return self._fail(clause, f"expected a dict, got {type(got).__name__}")
            if set(got.keys()) != set(want.keys()):
                return self._fail(
                    clause, f"keys differ: {sorted(map(str, got))} vs {sorted(map(str, want))}"
                )
            for k in want:
                self._eq(f"{clause}[{k}]", got[k], want[k])
            return
        if isinstance(want, (tuple, list)) and not isinstance(got, SVec):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                return self._fail(clause, "shape differs")
            for i, (g, w) in enumerate(zip(got, want)):
                self._eq(f"{clause}[{i}]", g, w)
            return
        if isinstance(want, shims.SConcat) or isinstance(got, shims.SConcat):
            if not (isinstance(want, shims.SConcat) and isinstance(got, shims.SConcat)):
                return self._fail(clause, "concatenation differs")
            return self._eq(clause, got.parts, want.parts)
        if isinstance(want, SVec) or isinstance(got, SVec):
            if isinstance(got, SVec) and not isinstance(want, SVec):
                if isinstance(want, (list, tuple)):
                    return self._eq(clause, list(got.items), list(want))
                if len(got.items) == 1:
                    return self._eq(clause, got.items[0], want)
            elif isinstance(want, SVec) and not isinstance(got, SVec):
                if len(want.items) == 1:
                    return self._eq(clause, got, want.items[0])
            else:
                return self._eq(clause, list(got.items), list(want.items))
            return self._fail(clause, "vector vs non-vector")
        if want is None or isinstance(want, (str, bool, _np.bool_)) or got is None or isinstance(got, str):
            if isinstance(got, SBool) and isinstance(want, (bool, _np.bool_)):
                return self.true(clause, got if want else ~got)
            if isinstance(want, bool) and isinstance(got, SNum):
                pass
            else:
                ok = type(got) is type(want) and got == want or got is want
                if isinstance(want, (bool, _np.bool_)) and isinstance(got, (bool, _np.bool_)):
                    ok = bool(got) == bool(want)
                return self.run.static(clause, ok, f"{got!r} vs {want!r}")
        if getattr(got, "group", None) is not None and getattr(want, "group", None) is not None:
            # per-group values: equal for every group, looked up by the same keys
            a, b = got.group, want.group
            m = {a.g: b.g}
            self._prove_eq(clause, T.subst(a.t, m), T.subst(a.nan, m), b.t, b.nan, [])
            return self._eq(clause + " (key)", got.keys, want.keys)
        if isinstance(got, SArr) or isinstance(want, SArr):
            if not isinstance(got, SArr):
                if S.is_scalar(got):
                    return self._fail(clause, "scalar returned where an array is expected")
                raise Unsupported(f"comparing {type(got).__name__} with an array")
            sp = got.space
            if isinstance(want, SArr):
                sp = Space.unify(got.space, want.space)
            ge, gn = S.elem_of(got)
            we, wn = S.elem_of(want)
            self._prove_eq(clause, ge, gn, we, wn, [sp.inside])
            return
        if S.is_scalar(got) and S.is_scalar(want):
            self._prove_eq(
                clause, S.num_or_bool(got), S.nan_of(got), S.num_or_bool(want), S.nan_of(want), []
            )
            return
        if isinstance(got, float) and got != got and isinstance(want, float) and want != want:
            return self.run.static(clause, True, "")
        self.run.static(clause, got is want or _safe_eq(got, want), f"{got!r} vs {want!r}")

    def _prove_eq(self, clause, ge, gn, we, wn, extra):
        if (ge.sort == "B") != (we.sort == "B"):
            if ge.sort == "B":
                ge = T.ite(ge, T.ONE, T.ZERO)
            else:
                we = T.ite(we, T.ONE, T.ZERO)
        if gn is not wn:
            self.run.oblige(clause + " (NaN)", self, T.iff(gn, wn), extra)
        g = T.eq(ge, we)
        if wn is not T.FALSE:
            g = T.lor(wn, g)
        self.run.oblige(clause, self, g, extra, canary=T.eq(ge, T.add(T.toreal(we), T.ONE)) if we.sort != "B" else None)

    def true(self, clause, cond):
        cond = unwrap(cond)
        if isinstance(cond, SArr):
            self.run.oblige(clause, self, cond.elem, [cond.space.inside])
        elif isinstance(cond, SBool):
            self.run.oblige(clause, self, cond.t, [])
        else:
            self.run.static(clause, bool(cond), "")

    def recurrence(self, clause, arr, init, step, rtol=1e-9):
        """arr[0] == init and arr[i+1] == step(i, arr[i]) for every i."""
        if not isinstance(arr, SArr):
            return self._fail(clause, "not an array")
        i = T.var("li", "I", "0+")
        g = [T.lt(T.add(i, T.IONE), arr.space.n)]
        first = unfold(S.at(arr.elem, T.IZERO))
        nxt = unfold(S.at(arr.elem, T.add(i, T.IONE)))
        it, inan = S.elem_of(init)
        it = unfold(it)
        self._prove_eq(clause + " (start)", first, S.at(arr.nan, T.IZERO), it, inan, [])
        st, snan = S.elem_of(step(SNum(i), SNum(S.at(arr.elem, i))))
        st = unfold(st)
        self._prove_eq(clause + " (step)", nxt, S.at(arr.nan, T.add(i, T.IONE)), st, snan, g)

    def derive(self, clause, facts, goal):
        """goal follows from the facts (already obliged), whatever the values
        compared are: every compared value is generalised to a variable."""
        m = {}

        def gen(x):
            t = S.elem_of(x)[0]
            return m.setdefault(t, T.var(f"gen{len(m)}", "R"))

        hy = [T.le(gen(a), gen(b)) if op == "le" else (T.lt(gen(a), gen(b)) if op == "lt" else None) for op, a, b in facts]
        op, a, b = goal
        sa, sb = T.ZERO, T.ZERO
        for x in a:
            sa = T.add(sa, gen(x))
        for x in b:
            sb = T.add(sb, gen(x))
        v = self.run.prover.prove(hy, T.lt(sa, sb) if op == "lt" else T.le(sa, sb))
        self.run.obligations.setdefault(clause, []).append(
            dict(status=v.status, backend=v.backend, choices=dict(self.choices), detail=v.detail))

    def _fail(self, clause, why):
        self.run.static(clause, False, why)

    def same(self, clause, got, want):
        """Same object / unchanged value."""
        self._eq(clause, got, want)

    def lemma(self, cond):
        """Use an already proved fact."""
        if isinstance(cond, SArr):
            self.path.assume(T.implies(cond.space.inside, cond.elem))
        elif isinstance(cond, SBool):
            self.path.assume(cond.t)


def describe(v, depth=0):
    if isinstance(v, tok.Tok):
        k = next((k for k, i in tok._table.items() if i == v.key_id), None)
        return f"{v!r} = {k!r}"[:700]
    return repr(v)[:300]


def unfold(t):
    """Replace loop-defined values at 0 and i+1 by their definitions."""
    for _ in range(4):
        m = {}
        for x in T.subterms(t):
            if x.op == "app" and x.args[0] in S.RECS:
                init, idx, step = S.RECS[x.args[0]]
                j = x.args[1]
                if T.is_num(j) and T.val(j) == 0:
                    m[x] = init
                elif j.op == "add" and T.is_num(j.args[0]) and T.val(j.args[0]) >= 1:
                    m[x] = T.subst(step, {idx: T.sub(j, T.IONE)})
                elif T.is_num(j) and T.val(j) >= 1:
                    m[x] = T.subst(step, {idx: T.sub(j, T.IONE)})
        if not m:
            break
        t = T.subst(t, m)
    return t


def unwrap(x):
    if hasattr(x, "_unwrap"):
        return x._unwrap()
    return x


def _safe_eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def deep_snapshot(x):
    if isinstance(x, SArr):
        return SArr(x.space, x.elem, x.nan)
    if isinstance(x, SVec):
        return SVec(list(x.items))
    if isinstance(x, dict):
        return {k: deep_snapshot(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep_snapshot(v) for v in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(deep_snapshot(v) for v in x)
    if isinstance(x, tuple):
        return type(x)(*[deep_snapshot(v) for v in x])
    if isinstance(x, _np.ndarray):
        return x.copy()
    if hasattr(x, "_snapshot"):
        return x._snapshot()
    if hasattr(x, "copy") and hasattr(x, "columns"):
        return x.copy(deep=True)
    return x


class ConcCtx(Base):
    mode = "conc"

    def __init__(self, rng, fixed=None, literals=(), small=False):
        self.rng = rng
        self.fixed = fixed or {}
        self.literals = literals
        self.record = {}
        self.failures = []
        self.checks = 0
        self.small = small
        self.caught = []
        self.touched = 0
        self._tmp = None

    np = _np

    @property
    def pd(self):
        import pandas

        return pandas

    def mod(self, name):
        return loader.real_mod(name)

    @property
    def pyco2(self):
        import PyCO2SYS

        return PyCO2SYS

    def use(self, *names):
        pass

    def stub(self, *names, **k):
        pass

    def value(self, name, concrete=None):
        v = self.fixed.get("value:" + name)
        if v is None:
            v = concrete(self.rng) if callable(concrete) else concrete
        self.record["value:" + name] = _jsonable(v)
        return v

    def integer(self, name, lo, hi):
        v = self.fixed.get(name)
        if v is None:
            v = self.rng.randint(lo, hi)
        v = int(v)
        if not lo <= v <= hi:
            raise Rejected()
        self.record[name] = v
        return v

    def real(self, name, lo=0.0, hi=1.0, pos=False, nonneg=False, requires=True, nan=False):
        if nan:
            if (name + ".nan") in self.fixed:
                isn = self.fixed[name + ".nan"]
            else:
                isn = self.rng.random() < 0.3
            self.record[name + ".nan"] = isn
            if isn:
                self.record[name] = None
                return float("nan")
        v = self.fixed.get(name)
        if v is None:
            u = self.rng.random()
            lits = [x for x in self.literals if lo <= x <= hi]
            seen = [x for r in self.record.values() if isinstance(r, list) for x in r
                    if isinstance(x, float) and lo <= x <= hi] if u >= 0.85 else []
            if seen:
                v = self.rng.choice(seen)
            elif u < 0.05:
                v = lo
            elif u < 0.1:
                v = hi
            elif u < 0.2 and lits:
                v = self.rng.choice(lits)
                v += self.rng.choice([0, 0, 1e-9, -1e-9]) * max(1, abs(v))
                v = min(max(v, lo), hi)
            else:
                v = self.rng.uniform(lo, hi)
        v = float(v)
        if (pos and v <= 0) or (nonneg and v < 0):
            raise Rejected()
        self.record[name] = v
        return v

    def length(self, name="n", lo=3, hi=9):
        v = self.fixed.get(name)
        if v is None:
            hi2 = max(hi, 40)
            v = self.rng.choice([lo, lo + 1, self.rng.randint(lo, hi), self.rng.randint(lo, hi2)])
            if self.rng.random() < 0.05:
                v = self.rng.randint(lo, 4 * hi2)
        v = int(v)
        if v < lo or v > 500:
            raise Rejected()
        self.record[name] = v
        return v

    def array(self, name, n, lo=0.0, hi=1.0, pos=False, nonneg=False, order=None, nan=False, gen=None, ints=False):
        v = self.fixed.get(name)
        if (v is None or len(v) != n) and gen is not None:
            a = _np.array(gen(), dtype=float)
        elif v is None or len(v) != n:
            a = _np.array([self.rng.uniform(lo, hi) for _ in range(n)])
            if order == "inc":
                a = _np.sort(a)
            elif order == "dec":
                a = _np.sort(a)[::-1].copy()
        else:
            a = _np.array(v, dtype=float)
        if v is None and n > 0 and self.rng.random() < 0.35:
            # an element equal to a number the source compares with
            i = self.rng.randrange(n)
            if order is not None or (n > 1 and (_np.diff(a) >= 0).all()) or (n > 1 and (_np.diff(a) <= 0).all()):
                nb = [a[j] for j in (i - 1, i + 1) if 0 <= j < n] + [a[i]]
            else:
                nb = a.tolist()
            lits = [x for x in self.literals if min(nb) < x < max(nb)]
            if lits:
                a[i] = self.rng.choice(lits)
        if v is None and n > 1 and order is None and self.rng.random() < 0.15:
            # a repeated value, next to the first one or not
            i = self.rng.randrange(n - 1)
            a[i + 1] = a[i]
            if gen is None and self.rng.random() < 0.5:
                a[self.rng.randrange(n)] = a[i]
        if nan and (name not in self.fixed):
            for i in range(n):
                if self.rng.random() < 0.2:
                    a[i] = _np.nan
        if ints:
            a = _np.round(a)
        if (pos and (a <= 0).any()) or (nonneg and (a < 0).any()):
            raise Rejected()
        self.record[name] = a.tolist()
        return a.astype(int) if ints else a

    def boolarray(self, name, n):
        v = self.fixed.get(name)
        if v is None or len(v) != n:
            v = [self.rng.random() < 0.5 for _ in range(n)]
        self.record[name] = list(v)
        return _np.array(v, dtype=bool)

    def bool(self, name):
        v = self.fixed.get(name)
        if v is None:
            v = self.rng.random() < 0.5
        self.record[name] = bool(v)
        return bool(v)

    def choice(self, name, options):
        k = self.fixed.get("?" + name)
        if k is None or k >= len(options):
            k = self.rng.randrange(len(options))
        self.record["?" + name] = k
        return options[k]

    def derived(self, name, symbolic, concrete):
        v = concrete(self.rng)
        self.record[name] = _jsonable(v)
        return v

    def requires(self, cond):
        if not _np.all(cond):
            raise Rejected()

    def row(self, d):
        import pandas

        return pandas.Series(d, dtype=object)

    def table(self, n, cols):
        import pandas

        df = pandas.DataFrame(cols)
        kind = self.choice("row labels", ["default", "shifted", "strings", "reversed", "repeated"])
        m = len(df)
        if kind == "shifted":
            df.index = [100 + 3 * i for i in range(m)]
        elif kind == "strings":
            df.index = ["row%d" % i for i in range(m)]
        elif kind == "reversed":
            df.index = list(range(m))[::-1]
        elif kind == "repeated":
            df.index = [i // 2 for i in range(m)]
        return df

    def column(self, name, n, nan=True, lo=0.0, hi=1.0, values=None):
        v = self.fixed.get("col:" + name)
        if v is None or len(v) != n:
            v = [None if nan and self.rng.random() < 0.3 else (values(self.rng, i) if values else self.rng.uniform(lo, hi)) for i in range(n)]
        self.record["col:" + name] = _jsonable(v)
        return [float("nan") if x is None else x for x in v]

    def batch_stat(self, kind, values, keys, mask):
        out = []
        for k in keys:
            v = [x for x, y, m in zip(values, keys, mask) if y == k and m and x == x]
            if kind == "mean":
                out.append(sum(v) / len(v) if v else float("nan"))
            elif kind == "count":
                out.append(len(v))
            elif kind == "std":
                mu = sum(v) / len(v) if v else 0
                out.append(math.sqrt(sum((x - mu) ** 2 for x in v) / (len(v) - 1)) if len(v) > 1 else float("nan"))
        return out

    def index(self, arr):
        return _np.arange(len(arr))

    def first(self, mask):
        return int(_np.nonzero(mask)[0][0])

    def affine(self, a, b):
        pass

    def linregress(self, x, y):
        from scipy.stats import linregress

        return linregress(x, y)

    def least_squares(self, fun, x0, **opts):
        from scipy.optimize import least_squares

        return least_squares(fun, x0, **opts)

    def pchip(self, xi, yi, x):
        from scipy.interpolate import pchip_interpolate

        return pchip_interpolate(xi, yi, x)

    def oracle(self, fn, *a, **k):
        """Evaluate a specification; inputs on which it is undefined are
        outside the precondition."""
        try:
            r = fn(*a, **k)
        except (Rejected, ClauseFailed):
            raise
        except Exception as e:
            raise Rejected() from e
        return r

    def call(self, dotted, *a, **k):
        return self.guard(self.fn(dotted), *a, **k)

    def fn(self, dotted):
        mod, name = dotted.split(":") if ":" in dotted else dotted.rsplit(".", 1)
        try:
            obj = self.mod(mod)
        except ModuleNotFoundError as e:
            raise Missing(dotted) from e
        for part in name.split("."):
            if not hasattr(obj, part):
                raise Missing(dotted)
            obj = getattr(obj, part)
        return obj

    def files(self):
        return None

    def tmpdir(self):
        import tempfile

        if self._tmp is None:
            # the same names in every evaluation of this process: what the
            # package remembers about a file must not outlive the file
            self._tmp = os.path.join(tempfile.gettempdir(), f"verif-scratch-{os.getpid()}")
            os.mkdir(self._tmp, 0o700)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            import shutil

            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def guard(self, fn, *a, **k):
        self.touched += 1
        must_bind(fn, a, k)
        self.private = self.private or any(p.startswith("_") and not p.startswith("__") for p in getattr(fn, "__qualname__", "").split("."))
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    r = fn(*a, **k)
                finally:
                    self.caught += [
                        str(x.message) for x in w
                        if issubclass(x.category, UserWarning)
                        and not issubclass(x.category, DeprecationWarning)
                    ]
            return r
        except (Rejected, ClauseFailed):
            raise
        except Exception as e:
            raise TargetRaised(e) from e

    def raises(self, clause, dotted, *a, **k):
        fn = self.fn(dotted)
        self.checks += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(*a, **k)
        except Exception:
            return
        self.failures.append((clause, "no exception"))

    def hint_range(self, x, lo, hi):
        """Mostly sample inside a range (the edges and outside still occur)."""
        if isinstance(x, _np.ndarray) and self.rng.random() < 0.5 and x.dtype == float:
            _np.clip(x, lo, hi, out=x)

    def snapshot(self, x):
        return deep_snapshot(x)

    def warnings(self):
        return list(self.caught)

    def eq(self, clause, got, want, rtol=1e-9, atol=0.0):
        self.checks += 1
        why = conc_diff(got, want, rtol, atol)
        if why:
            self.failures.append((clause, why))

    def true(self, clause, cond):
        self.checks += 1
        if not _np.all(cond):
            self.failures.append((clause, "condition is false"))

    def recurrence(self, clause, arr, init, step, rtol=1e-9):
        self.eq(clause + " (start)", arr[0], init, rtol=rtol)
        for i in range(len(arr) - 1):
            self.eq(clause + " (step)", arr[i + 1], step(i, arr[i]), rtol=rtol, atol=1e-12)

    def derive(self, clause, facts, goal):
        pass

    def same(self, clause, got, want):
        self.eq(clause, got, want, rtol=0.0)

    def lemma(self, cond):
        pass


def _jsonable(v):
    if isinstance(v, _np.ndarray):
        return v.tolist()
    if isinstance(v, (_np.floating, _np.integer)):
        return v.item()
    if isinstance(v, dict):
        return {str(k): _jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_jsonable(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)[:500]


def conc_diff(got, want, rtol, atol, where=""):
    import pandas as pd

    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{where}: expected a dict, got {type(got).__name__}"
        if set(got) != set(want):
            return f"{where}: keys {sorted(map(str, got))} vs {sorted(map(str, want))}"
        for k in want:
            r = conc_diff(got[k], want[k], rtol, atol, f"{where}[{k}]")
            if r:
                return r
        return None
    if isinstance(want, pd.DataFrame):
        if not isinstance(got, pd.DataFrame):
            return f"{where}: not a table"
        if list(got.columns) != list(want.columns) or len(got) != len(want):
            return f"{where}: table shape {list(got.columns)} vs {list(want.columns)}"
        for k in want.columns:
            r = conc_diff(list(got[k]), list(want[k]), rtol, atol, f"{where}[{k}]")
            if r:
                return r
        return None
    if isinstance(want, (tuple, list)):
        if isinstance(got, _np.ndarray):
            got = list(got)
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            return f"{where}: {got!r} vs {want!r}"
        for i, (g, w) in enumerate(zip(got, want)):
            r = conc_diff(g, w, rtol, atol, f"{where}[{i}]")
            if r:
                return r
        return None
    if want is None or got is None or isinstance(want, str) or isinstance(got, str):
        if got is None and isinstance(want, float) and want != want:
            return None
        ok = got is want or (isinstance(want, str) and isinstance(got, str) and got == want)
        return None if ok else f"{where}: {got!r} vs {want!r}"
    try:
        g = _np.asarray(got)
        w = _np.asarray(want)
        if g.dtype == object or w.dtype == object:
            try:
                g, w = g.astype(float), w.astype(float)
            except (TypeError, ValueError):
                return None if bool(_np.all(g == w)) else f"{where}: {got!r} vs {want!r}"
        if g.dtype.kind in "UMm" or w.dtype.kind in "UMm":
            return None if bool(_np.all((g == w) | ((g != g) & (w != w)))) else f"{where}: {got!r} vs {want!r}"
        if g.shape != w.shape:
            if g.size == 1 and w.size == 1:
                g, w = g.reshape(()), w.reshape(())
            elif w.ndim == 0 and g.ndim == 1:
                w = _np.full(g.shape, w)
            else:
                return f"{where}: shape {g.shape} vs {w.shape}"
        g, w = g.astype(float), w.astype(float)
        bad = ~(
            (_np.isnan(g) & _np.isnan(w))
            | (g == w)
            | (_np.abs(g - w) <= atol + rtol * _np.maximum(_np.abs(g), _np.abs(w)))
        )
        if bad.any():
            if g.ndim:
                i = int(_np.argmax(bad))
                return f"{where}[{i}]: got {g[i]!r}, expected {w[i]!r}"
            return f"{where}: got {float(g)!r}, expected {float(w)!r}"
        return None
    except (TypeError, ValueError) as e:
        return f"{where}: cannot compare {type(got).__name__} with {type(want).__name__}: {e}"
