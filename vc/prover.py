"""Discharging obligations: rational-function normal form, then z3, then cvc5.

`Prover.prove(hyps, goal)` returns a Verdict with status
  "proved"  (backend names the decision procedure),
  "refuted" (a model of hyps & !goal was found; model attached),
  "unknown" (solvers gave up).
"""

import random
import re
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

from . import numeval
from . import terms as T

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import mpmath  # noqa: E402
import z3  # noqa: E402
from sympy import QQ  # noqa: E402
from sympy.polys.fields import field as _field  # noqa: E402

RTOL = Fraction(1, 10**12)
STATS = {
    "obligations": 0,
    "proved": {},
    "refuted": 0,
    "unknown": 0,
    "solver_s": 0.0,
    "feasibility_queries": 0,
}


def reset_stats():
    STATS.update(obligations=0, proved={}, refuted=0, unknown=0, solver_s=0.0,
                 feasibility_queries=0)


class TooBig(Exception):
    pass


NG = 64
_K, *_G = _field([f"g{i}" for i in range(NG)], QQ)
_R = _K.ring


def _close(a, b):
    a, b = Fraction(int(a.numerator), int(a.denominator)), Fraction(
        int(b.numerator), int(b.denominator)
    )
    return a == b or abs(a - b) <= RTOL * max(abs(a), abs(b))


def _poly_close(p, q):
    if p == q:
        return True
    for m in set(p.keys()) | set(q.keys()):
        if not _close(p.get(m, QQ(0)), q.get(m, QQ(0))):
            return False
    return True


class Canon:
    """Canonical rational functions over atoms (exp/log/sqrt/app aware)."""

    def __init__(self, limit=4000, hyps=(), binds=None):
        self.posfacts = []
        self.binds = binds  # callable deciding equality of binder terms
        self.hyps = hyps
        self._hyps_done = False
        self.atoms = []  # list of (kind, data) per generator
        self.index = {}
        self.cache = {}
        self.limit = limit
        self.apps = {}  # fname -> list of (canon args, gen)

    def gen(self, key, kind, data):
        if key in self.index:
            return _G[self.index[key]]
        n = len(self.atoms)
        if n >= NG:
            raise TooBig("too many atoms")
        self.index[key] = n
        self.atoms.append((kind, data))
        return _G[n]

    def eq(self, a, b):
        """Equality of canonical forms, up to rounding of constants."""
        if a == b:
            return True
        na, da, nb, db = a.numer, a.denom, b.numer, b.denom
        if len(na) * len(db) > 20000 or len(nb) * len(da) > 20000:
            raise TooBig("product too big")
        return _poly_close(na * db, nb * da)

    def c(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._c(t)
            if len(r.numer) > self.limit or len(r.denom) > self.limit:
                raise TooBig("polynomial too big")
            self.cache[t.id] = r
        return r

    def _c(self, t):
        op = t.op
        if op == "num":
            v = T.val(t)
            return _K(QQ(v.numerator, v.denominator))
        if op == "var":
            return self.gen(("var", t.args[0]), "var", t)
        if op == "toreal":
            return self.c(t.args[0])
        if op == "add":
            return self.c(t.args[0]) + self.c(t.args[1])
        if op == "mul":
            return self.c(t.args[0]) * self.c(t.args[1])
        if op == "div":
            d = self.c(t.args[1])
            if d == 0:
                raise TooBig("division by zero")
            return self.c(t.args[0]) / d
        if op == "app":
            f = t.args[0]
            if f == "exp":
                return self._exp(self.c(t.args[1]))
            if f == "log":
                return self._log(self.c(t.args[1]), t)
            if f == "sqrt" and T.is_num(t.args[1]) and T.val(t.args[1]) > 0:
                # a constant, to 40 digits (constants agree up to rounding)
                with mpmath.workdps(50):
                    v = T.val(t.args[1])
                    r = mpmath.sqrt(mpmath.mpf(v.numerator) / v.denominator)
                    q = int(mpmath.nint(r * mpmath.mpf(10) ** 40))
                return _K(QQ(q, 10**40))
            return self._app(f, [self.c(a) for a in t.args[1:]], t)
        if op == "ite":
            a, b = self.c(t.args[1]), self.c(t.args[2])
            if self.eq(a, b):
                return a
            cnd = canon_simplify(t.args[0])
            for k, (kind, data) in enumerate(self.atoms):
                if kind == "ite" and data[0] is cnd and self.eq(data[1], a) and self.eq(data[2], b):
                    return _G[k]
            return self.gen(("ite", len(self.atoms)), "ite", (cnd, a, b, t))
        if op == "bind":
            if t.args[0] in ("mean", "max", "min", "median"):
                # of equal values
                e, mask, n = t.args[2:]
                outer = [h for h in self.hyps if "ix" not in T.free(h)]
                try:
                    sub = Canon(self.limit, outer + [mask, T.lt(T.IX, n)])
                    body = sub.term(sub.c(e))
                    if "ix" not in T.free(body):
                        return self.c(body)
                except (TooBig, ZeroDivisionError):
                    pass
            if t.args[0] in ("mean", "sum", "std", "std1", "median", "max", "min"):
                f, rest = scalar_factor(t.args[2], t.args[1])
                sf = T.sign(f)
                if f is not T.ONE and (t.args[0] in ("mean", "sum", "median") or sf == "+"):
                    return self.c(f) * self.c(T.bind(t.args[0], t.args[1], (rest,) + t.args[3:], t.sort))
            for k, (kind, data) in enumerate(self.atoms):
                if kind == "bind" and (
                    data is t or bind_equal(data, t, self.hyps)
                ):
                    return _G[k]
            return self.gen(("bind", t.id), "bind", t)
        raise TooBig("op " + op)

    def load_hyps(self):
        if self._hyps_done:
            return
        self._hyps_done = True
        for h in self.hyps:
            for q in conjuncts(h):
                if q.op == "lt" and T.is_num(q.args[0]) and T.val(q.args[0]) >= 0:
                    try:
                        self.posfacts.append(self.c(q.args[1]))
                    except (TooBig, ZeroDivisionError):
                        pass
                elif q.op == "lt" and not T.is_num(q.args[0]):
                    try:
                        self.posfacts.append(self.c(q.args[1]) - self.c(q.args[0]))
                    except (TooBig, ZeroDivisionError):
                        pass

    def known_positive(self, u):
        if self.frac_positive(u):
            return True
        self.load_hyps()
        for p in self.posfacts:
            if p != 0 and self.frac_positive(u / p):
                return True
        return False

    def _app(self, f, cargs, t):
        for k, (kind, data) in enumerate(self.atoms):
            if kind == "app" and data[0] == f and len(data[1]) == len(cargs):
                if all(self.eq(x, y) for x, y in zip(data[1], cargs)):
                    return _G[k]
        return self.gen(("app", f, len(self.atoms)), "app", (f, cargs, t))

    # -- exp / log ------------------------------------------------------
    def _linear_coeff(self, e, g, k):
        """If e = c*g + rest with c a rational constant and rest free of g."""
        d = e.diff(g)
        if d.numer.is_ground and d.denom.is_ground:
            c = d.numer.LC / d.denom.LC if d.numer else QQ(0)
            return c
        return None

    def _exp(self, u):
        out = _K(1)
        # pull integer multiples of logarithm atoms out of the exponent
        for k, (kind, data) in list(enumerate(self.atoms)):
            if kind == "log" and data[1]:
                c = self._linear_coeff(u, _G[k], k)
                if c and QQ(int(c)) == c:
                    out = out * data[0] ** int(c)
                    u = u - _K(c) * _G[k]
            elif kind == "var" and data is T.LN10:
                c = self._linear_coeff(u, _G[k], k)
                if c and QQ(int(c)) == c:
                    rest = u - _K(c) * _G[k]
                    if rest.numer.is_ground or True:
                        out = out * _K(10) ** int(c)
                        u = rest
        if u == 0:
            return out
        den = u.denom
        for mon, co in sorted(u.numer.terms()):
            base = _K.new(_R({mon: QQ(1)}), den) if True else None
            base = _K(_R({mon: QQ(1)})) / _K(den)
            neg = co < 0
            c = -co if neg else co
            g = self._exp_atom(base, c)
            out = out / g if neg else out * g
        return out

    def _exp_atom(self, base, c):
        for k, (kind, data) in enumerate(self.atoms):
            if kind == "exp":
                b0, c0 = data
                # base may carry a constant factor: compare base*c to b0*c0*n
                r = (base * _K(c)) / (b0 * _K(c0))
                if r.numer.is_ground and r.denom.is_ground:
                    q = r.numer.LC / r.denom.LC
                    n = int(round(float(q)))
                    if n != 0 and abs(q - n) <= QQ(1, 10**12) * abs(n):
                        return _G[k] ** n
        return self.gen(("exp", len(self.atoms)), "exp", (base, c))

    def _log(self, u, t):
        out = _K(0)
        num, den = u.numer, u.denom

        def strip(p, sgn):
            nonlocal out
            if not p:
                return p
            mons = list(p.keys())
            common = [min(m[i] for m in mons) for i in range(NG)]
            keep = [0] * NG
            for i, e in enumerate(common):
                if e:
                    kind, data = self.atoms[i]
                    if kind == "exp":
                        out = out + _K(sgn * e) * data[0] * _K(data[1])
                        keep[i] = e
                    elif self.positive(i):
                        out = out + _K(sgn * e) * self._log_atom(_G[i], True)
                        keep[i] = e
            if any(keep):
                p = _R({tuple(a - b for a, b in zip(m, keep)): c for m, c in p.items()})
            return p

        num = strip(num, 1)
        den = strip(den, -1)
        rest = _K(num) / _K(den)
        if rest.numer.is_ground and rest.denom.is_ground:
            q = rest.numer.LC / rest.denom.LC
            if q > 0:
                e10 = 0
                qq = Fraction(int(q.numerator), int(q.denominator))
                while qq >= 10:
                    qq /= 10
                    e10 += 1
                while qq < 1:
                    qq *= 10
                    e10 -= 1
                if e10:
                    out = out + _K(e10) * self.gen(("var", "LN10"), "var", T.LN10)
                if qq != 1:
                    out = out + self._log_atom(_K(QQ(qq.numerator, qq.denominator)), True)
                return out
        pos = (
            T.sign(t.args[1]) == "+"
            or self.known_positive(rest)
            or self.known_positive(u)
        )
        if rest != 1:
            out = out + self._log_atom(rest, pos)
        return out

    def _log_atom(self, arg, pos):
        for k, (kind, data) in enumerate(self.atoms):
            if kind == "log" and self.eq(data[0], arg):
                if pos and not data[1]:
                    self.atoms[k] = ("log", (data[0], True))
                return _G[k]
        return self.gen(("log", len(self.atoms)), "log", (arg, pos))

    def positive(self, i):
        kind, data = self.atoms[i]
        if kind == "exp":
            return True
        if kind == "var":
            return T.sign(data) == "+"
        if kind == "app":
            return T.SIGNS.get(data[0]) == "+"
        if kind == "bind":
            return T.sign(data) == "+"
        if kind == "ite":
            return self.frac_positive(data[1]) and self.frac_positive(data[2])
        return False

    def poly_positive(self, p):
        return bool(p) and all(
            c > 0 and all(not e or self.positive(i) for i, e in enumerate(m))
            for m, c in p.items()
        )

    def nonneg(self, i):
        kind, data = self.atoms[i]
        if self.positive(i):
            return True
        if kind in ("var", "bind"):
            return T.sign(data) == "0+"
        if kind == "app":
            return T.SIGNS.get(data[0]) == "0+"
        return False

    def poly_nonneg(self, p):
        return all(
            c > 0 and all(e % 2 == 0 or self.nonneg(i) for i, e in enumerate(m))
            for m, c in p.items()
        )

    def frac_positive(self, f):
        return self.poly_positive(f.numer) and self.poly_positive(f.denom)

    # -- back to terms ---------------------------------------------------
    def term(self, f):
        n, d = self._poly_term(f.numer), self._poly_term(f.denom)
        return T.div(n, d)

    def _poly_term(self, p):
        out = T.ZERO
        for mon, co in p.terms():
            t = T.num(Fraction(int(co.numerator), int(co.denominator)))
            for i, e in enumerate(mon):
                if e:
                    t = T.mul(t, T.powi(self.atom_term(i), e))
            out = T.add(out, t)
        return out

    def atom_term(self, i):
        kind, data = self.atoms[i]
        if kind == "var":
            return T.toreal(data)
        if kind == "exp":
            b, c = data
            return T.exp(self.term(b * _K(c)))
        if kind == "log":
            return T.app("log", (self.term(data[0]),), "R")
        if kind == "app":
            return T.toreal(data[2])
        if kind == "ite":
            return data[3]
        if kind == "bind":
            return T.toreal(data)
        raise ValueError(kind)


def scalar_factor(t, bound):
    """(f, g) with t == f*g and f free of the bound variables."""
    if t.sort != "R":
        return T.ONE, t
    if not T.free(t) & (set(bound) | {"ix"}):
        return t, T.ONE
    if t.op == "mul":
        (f1, g1), (f2, g2) = scalar_factor(t.args[0], bound), scalar_factor(t.args[1], bound)
        return T.mul(f1, f2), T.mul(g1, g2)
    if t.op == "div":
        (f1, g1), (f2, g2) = scalar_factor(t.args[0], bound), scalar_factor(t.args[1], bound)
        return T.div(f1, f2), T.div(g1, g2)
    return T.ONE, t


def addends(t, out, coef=None, neg=False):
    """Distribute t over its sums into a list of product terms."""
    if t.op == "add":
        addends(t.args[0], out, coef)
        addends(t.args[1], out, coef)
    elif t.op == "mul" and (t.args[0].op == "add" or t.args[1].op == "add") and (
        t.args[0].op != "add" or t.args[1].op != "add"
    ):
        x, y = t.args
        if y.op == "add":
            addends(y, out, x if coef is None else T.mul(x, coef))
        else:
            addends(x, out, y if coef is None else T.mul(y, coef))
    elif t.op == "mul" and T.is_num(t.args[0]) and t.args[1].op in ("mul", "div"):
        c = t.args[0] if coef is None else T.mul(t.args[0], coef)
        addends(t.args[1], out, c)
    elif t.op == "div" and t.args[0].op in ("add", "mul"):
        inv = T._mk("div", (T.ONE, t.args[1]), "R")
        addends(t.args[0], out, inv if coef is None else T.mul(inv, coef))
    elif t.op == "toreal" and t.args[0].op == "add":
        addends(T.toreal(t.args[0].args[0]), out, coef)
        addends(T.toreal(t.args[0].args[1]), out, coef)
    else:
        out.append(t if coef is None else T.mul(coef, t))
    if len(out) > 300:
        raise TooBig("addends")


def sum_equal(c, a, b):
    """Equality of two sums of fractions without a common denominator."""
    groups = {}
    for side, t in enumerate((a, b)):
        out = []
        addends(t, out)
        for x in out:
            f = c.c(x)
            if f == 0:
                continue
            n, d = f.numer, f.denom
            lc = d.LC
            d, n = d.quo_ground(lc), n.quo_ground(lc)
            g = groups.setdefault(d, [_R(0), _R(0)])
            g[side] = g[side] + n
    return all(_poly_close(p, q) for p, q in groups.values())


_bind_memo = {}


def bind_equal(x, y, hyps=()):
    """Congruence of binder terms: same kind and provably equal bodies."""
    if x is y:
        return True
    if x.sort != y.sort or x.args[:2] != y.args[:2] or len(x.args) != len(y.args):
        return False
    bound = set(x.args[1])
    global _bind_depth
    outer = [h for h in hyps if not (T.free(h) & (bound | {"ix"}))
             and not any(t.op == "bind" and (_bind_depth or t.args[0] == x.args[0]) for t in T.subterms(h))]
    key = (min(x.id, y.id), max(x.id, y.id), frozenset(h.id for h in outer))
    r = _bind_memo.get(key)
    if r is not None:
        return r
    kind = x.args[0]
    r = True
    xs, ys = x.args[2:], y.args[2:]
    order = range(len(xs))
    # compare mask and length first; bodies are compared where the mask holds
    extra = []
    if "ix" in bound:
        mi = 0 if kind in ("count", "first", "last") else (2 if kind == "pchip" or kind.startswith("lr_") else 1)
        order = [mi + 1, mi] + [i for i in order if i not in (mi, mi + 1)]
        extra = [xs[mi], T.lt(T.IX, xs[mi + 1])]
    for j, i in enumerate(order):
        p, q = xs[i], ys[i]
        if p is q:
            continue
        if not isinstance(p, T.Term) or not isinstance(q, T.Term):
            if p != q:
                r = False
                break
            continue
        h = outer + (extra if j >= 2 else extra[1:]) if extra else outer
        g = T.eq(p, q)
        if g is T.TRUE:
            continue
        _bind_depth += 1
        try:
            v = _inner_prover().prove(h, g, count=False, deep=False)
        finally:
            _bind_depth -= 1
        if v.status != "proved":
            r = False
            break
    _bind_memo[key] = r
    return r


_bind_depth = 0


_inner = []


def _inner_prover():
    if not _inner:
        _inner.append(Prover(timeout=2.0, use_cvc5=False))
    return _inner[0]


# ----------------------------------------------------------------- z3


class ToZ3:
    def __init__(self, hyps=()):
        self.hyps = hyps
        self.bindlist = []
        self.cache = {}
        self.funcs = {}
        self.exps, self.logs, self.sqrts = [], [], []
        self.vars = {}

    def sort(self, s):
        return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[s]

    def __call__(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._tr(t)
            self.cache[t.id] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == "num":
            v = T.val(t)
            if t.sort == "I":
                return z3.IntVal(int(v))
            return z3.Q(v.numerator, v.denominator)
        if op == "var":
            x = z3.Const(t.args[0], self.sort(t.sort))
            self.vars[t.args[0]] = (t, x)
            return x
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "app":
            f = t.args[0]
            a = [self(x) for x in t.args[1:]]
            if f not in self.funcs:
                self.funcs[f] = z3.Function(
                    f, *[x.sort() for x in a], self.sort(t.sort)
                )
            r = self.funcs[f](*a)
            if f == "exp":
                self.exps.append((a[0], r))
            elif f == "log":
                self.logs.append((a[0], r))
            elif f == "sqrt":
                self.sqrts.append((a[0], r))
            return r
        if op == "bind":
            for b, z in self.bindlist:
                if bind_equal(b, t, self.hyps):
                    return z
            z = z3.Const(f"bind!{len(self.bindlist)}!{t.args[0]}", self.sort(t.sort))
            self.bindlist.append((t, z))
            return z
        a = [self(x) for x in t.args]
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op == "toreal":
            return z3.ToReal(a[0])
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "not":
            return z3.Not(a[0])
        if op == "iff":
            return a[0] == a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "lt":
            return a[0] < a[1]
        raise ValueError(op)

    def axioms(self, terms):
        ax = []
        for s in self.signs(terms):
            ax.append(s)
        L = 12
        for a, r in self.exps[:40]:
            ax += [r > 0, r >= 1 + a]
        for i, (a, r) in enumerate(self.exps[:L]):
            for b, s in self.exps[:i]:
                ax += [(a < b) == (r < s), (a == b) == (r == s)]
        for a, r in self.logs[:40]:
            ax += [z3.Implies(a > 1, r > 0), z3.Implies(a == 1, r == 0),
                   z3.Implies(z3.And(a > 0, a < 1), r < 0)]
        for i, (a, r) in enumerate(self.logs[:L]):
            for b, s in self.logs[:i]:
                ax += [z3.Implies(z3.And(a > 0, b > 0), (a < b) == (r < s))]
        for a, r in self.sqrts[:20]:
            ax += [z3.Implies(a >= 0, z3.And(r >= 0, r * r == a))]
        for i, (a, r) in enumerate(self.sqrts[:L]):
            for b, s in self.sqrts[:i]:
                ax += [z3.Implies(z3.And(a >= 0, b >= 0), (a < b) == (r < s))]
        if "LN10" in self.vars:
            x = self.vars["LN10"][1]
            ax += [x > z3.Q(2302585, 10**6), x < z3.Q(2302586, 10**6)]
        return ax

    def signs(self, terms):
        seen = set()
        for t in terms:
            for s in T.subterms(t, seen):
                if s.op in ("var", "app") and s.sort in ("R", "I"):
                    sg = T.SIGNS.get(s.args[0])
                    if sg == "+":
                        yield self(s) > 0
                    elif sg == "0+":
                        yield self(s) >= 0
                elif s.op == "bind" and s.sort in ("R", "I"):
                    sg = T.sign(s)
                    if sg == "+":
                        yield self(s) > 0
                    elif sg == "0+":
                        yield self(s) >= 0


class Verdict:
    __slots__ = ("status", "backend", "model", "detail")

    def __init__(self, status, backend=None, model=None, detail=None):
        self.status, self.backend, self.model, self.detail = (
            status, backend, model, detail)

    def __repr__(self):
        return f"<{self.status} {self.backend}>"


def conjuncts(t):
    return list(t.args) if t.op == "and" else [t]


def find_ite(t):
    """An innermost-first ite condition inside an arithmetic term."""
    for s in T.subterms(t):
        if s.op == "ite" and s.sort != "B":
            return s.args[0]
    return None


class Prover:
    def __init__(self, timeout=8.0, use_cvc5=True, seed=1):
        self.timeout = timeout
        self.use_cvc5 = use_cvc5
        self.memo = {}
        self.rng = random.Random(seed)

    # ---- public
    def prove(self, hyps, goal, count=True, deep=True):
        t0 = time.time()
        hyps = [h for h in hyps if h is not T.TRUE]
        key = (tuple(sorted(h.id for h in hyps)), goal.id)
        v = self.memo.get(key)
        if v is None:
            v = self._prove(hyps, goal, deep)
            self.memo[key] = v
        dt = time.time() - t0
        STATS["solver_s"] += dt
        if count:
            STATS["obligations"] += 1
            if v.status == "proved":
                STATS["proved"][v.backend] = STATS["proved"].get(v.backend, 0) + 1
            else:
                STATS[v.status] += 1
        return v

    def _prove(self, hyps, goal, deep):
        if goal is T.TRUE:
            return Verdict("proved", "simplify")
        hs = set()
        for h in hyps:
            hs.update(conjuncts(h))
        if goal in hs or T.FALSE in hs:
            return Verdict("proved", "simplify")
        if goal.op == "and":
            vs = []
            for g in goal.args:
                v = self._prove(hyps, g, deep)
                if v.status != "proved":
                    return v
                vs.append(v.backend)
            return Verdict("proved", max(vs, key=len))
        m = {}
        for h in hs:
            if h.op == "not":
                m[h.args[0]] = T.FALSE
            else:
                m[h] = T.TRUE
        g2 = T.subst(goal, m)
        if g2 is T.TRUE:
            return Verdict("proved", "simplify")
        if g2.op == "and":
            return self._prove(hyps, g2, deep)
        if g2.op == "or":
            # treat as implication when one disjunct is an equality
            eqs = [x for x in g2.args if x.op == "eq" and x.args[0].sort == "R"]
            if len(eqs) == 1:
                others = [T.lnot(x) for x in g2.args if x is not eqs[0]]
                return self._prove(list(hyps) + others, eqs[0], deep)
        if g2.op == "ite" and g2.sort == "B":
            c, a, b = g2.args
            v = self._prove(list(hyps) + [c], a, deep)
            if v.status != "proved":
                return v
            return self._prove(list(hyps) + [T.lnot(c)], b, deep)
        goal = g2
        if goal.op == "eq" and goal.args[0].sort in ("R", "I"):
            v = self._prove_eq(hyps, goal, 0)
            if v is not None:
                return v
        elif goal.op in ("lt", "not") and goal.args[0].op in ("lt", "add", "mul", "div", "ite", "app"):
            cond = find_ite(goal)
            if cond is not None:
                for value in (True, False):
                    lit = cond if value else T.lnot(cond)
                    if self.quick_infeasible(hyps, lit):
                        continue
                    v = self._prove(list(hyps) + [lit], T.assume_cond(goal, cond, value), deep)
                    if v.status != "proved":
                        return v
                return Verdict("proved", "case-split+" + "normal-form-sign")
        return self._solve(hyps, goal, deep)

    def _prove_eq(self, hyps, goal, depth):
        a, b = goal.args
        if not (T.free(a) | T.free(b)) - {"exp", "log", "sqrt"}:
            # closed terms: numerically, at the precision coefficients have
            try:
                env = numeval.Env(self.rng)
                x, y = numeval.Evaluator(env).ev(a), numeval.Evaluator(env).ev(b)
                if not env.opaque_used and abs(x - y) <= 1e-12 * max(abs(x), abs(y)):
                    return Verdict("proved", "constant-evaluation")
            except (numeval.EvalFail, TypeError, ArithmeticError):
                pass
        cond = find_ite(a) or find_ite(b)
        if cond is not None and depth < 8:
            for value in (True, False):
                lit = cond if value else T.lnot(cond)
                if self.quick_infeasible(hyps, lit):
                    continue
                g = T.assume_cond(goal, cond, value)
                if g is T.TRUE:
                    continue
                h2 = list(hyps) + [lit]
                if g.op == "eq" and g.args[0].sort in ("R", "I"):
                    v = self._prove_eq(h2, g, depth + 1)
                else:
                    v = None
                if v is None:
                    v = self._solve(h2, g, True)
                if v.status != "proved":
                    return v
            return Verdict("proved", "case-split+normal-form")
        try:
            c = Canon(hyps=hyps)
            for _ in range(2):
                if sum_equal(c, a, b):
                    return Verdict("proved", "normal-form")
                c.cache.clear()
        except (TooBig, ZeroDivisionError):
            pass
        if len(set(T.subterms(a)) | set(T.subterms(b))) > 400:
            return None
        try:
            c = Canon(hyps=hyps)
            ca, cb = c.c(a), c.c(b)
            # a second pass lets log atoms discovered late be used
            if c.eq(ca, cb):
                return Verdict("proved", "normal-form")
            c.cache.clear()
            ca, cb = c.c(a), c.c(b)
            if c.eq(ca, cb):
                return Verdict("proved", "normal-form")
            # use equational hypotheses  x == e  as rewrites
            m = {}
            for h in hyps:
                for q in conjuncts(h):
                    if q.op == "eq" and q.args[0].sort == "R":
                        l, r = q.args
                        for x, y in ((l, r), (r, l)):
                            if x.op in ("var", "app") and x not in m and x not in set(T.subterms(y)):
                                m[x] = y
                                break
            if m:
                a2, b2 = a, b
                for _ in range(6):
                    a3, b3 = T.subst(a2, m), T.subst(b2, m)
                    if a3 is a2 and b3 is b2:
                        break
                    a2, b2 = a3, b3
                c = Canon(hyps=hyps)
                if sum_equal(c, a2, b2) or c.eq(c.c(a2), c.c(b2)):
                    return Verdict("proved", "normal-form")
        except (TooBig, ZeroDivisionError):
            pass
        return None

    def quick_infeasible(self, hyps, lit):
        hs = set()
        for h in hyps:
            hs.update(conjuncts(h))
        if T.lnot(lit) in hs:
            return True
        if lit in hs:
            return False
        return self.infeasible(hyps, lit, 0.5)

    def infeasible(self, hyps, lit, timeout=1.5):
        STATS["feasibility_queries"] += 1
        key = ("inf", tuple(sorted(h.id for h in hyps)), lit.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        tr = ToZ3(hyps)
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        rel = relevant(hyps, lit)
        zs = [tr(h) for h in rel] + [tr(lit)]
        s.add(*zs)
        s.add(*tr.axioms(rel + [lit]))
        t0 = time.time()
        r = s.check() == z3.unsat
        STATS["solver_s"] += time.time() - t0
        self.memo[key] = r
        return r

    def _solve(self, hyps, goal, deep):
        m = same_comparisons(hyps, goal)
        if m:
            h2, g2 = [T.subst(h, m) for h in hyps], T.subst(goal, m)
            if g2 is not goal or any(x is not y for x, y in zip(h2, hyps)):
                return self._prove(h2, g2, deep)
        ng = T.lnot(goal)
        rel = relevant(hyps, ng)
        if deep and any(x.op == "bind" for x in T.subterms(goal)) and T.FALSE not in rel:
            # evaluating nested binders is slow: try the solver first
            tr = ToZ3(hyps)
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*[tr(canon_simplify(h)) for h in rel], tr(canon_simplify(ng)))
            s.add(*tr.axioms(rel + [ng]))
            if s.check() == z3.unsat:
                return Verdict("proved", "z3")
        if deep:
            env = numeval.find_counterexample(hyps, goal, self.rng)
            if env is not None:
                return Verdict("refuted", "numeric", env, T.show(goal)[:1500])
        if T.FALSE in rel:
            return Verdict("proved", "simplify")
        v = self._positivity(rel, goal)
        if v:
            return v
        tr = ToZ3(hyps)
        zs = [tr(canon_simplify(h)) for h in rel] + [tr(canon_simplify(ng))]
        ax = tr.axioms(rel + [ng])
        s = z3.Solver()
        s.set("timeout", int(self.timeout * 1000))
        s.add(*zs)
        s.add(*ax)
        r = s.check()
        if r == z3.unsat:
            return Verdict("proved", "z3")
        if r == z3.sat:
            m = extract_model(s.model(), tr)
            if deep:
                fixed = {k: x for k, x in m["vars"].items() if x is not None}
                env = numeval.find_counterexample(
                    hyps, goal, self.rng, tries=3, fixed=fixed)
                if env is not None:
                    return Verdict("refuted", "z3", env, T.show(goal)[:1500])
            return Verdict("unknown", None, None, "unconfirmed model: " + T.show(goal)[:1500])
        if deep:
            s2 = z3.Tactic("qfnra-nlsat").solver() if not tr.funcs else None
            if s2 is not None:
                s2.set("timeout", int(self.timeout * 1000))
                s2.add(*zs)
                s2.add(*ax)
                try:
                    r = s2.check()
                    if r == z3.unsat:
                        return Verdict("proved", "z3-nlsat")
                except z3.Z3Exception:
                    pass
            if self.use_cvc5:
                r = run_cvc5(s, self.timeout)
                if r == "unsat":
                    return Verdict("proved", "cvc5")
        return Verdict("unknown", None, None, T.show(goal)[:1500])

    def _positivity(self, hyps, goal):
        """a < b when b - a is a quotient of polynomials with positive
        coefficients over positive atoms."""
        strict, g = True, goal
        if g.op == "not" and g.args[0].op == "lt":
            b, a = g.args[0].args
            strict = False
        elif g.op == "lt":
            a, b = g.args
        else:
            return None
        if a.sort != "R":
            return None
        try:
            c = Canon(hyps=hyps, limit=2000)
            f = c.c(b) - c.c(a)
            if f == 0:
                return None if strict else Verdict("proved", "normal-form-sign")
            if c.known_positive(f):
                return Verdict("proved", "normal-form-sign")
            if not strict and c.poly_nonneg(f.numer) and c.poly_positive(f.denom):
                return Verdict("proved", "normal-form-sign")
        except (TooBig, ZeroDivisionError):
            pass
        return None


_same_cache = {}


def same_comparisons(hyps, goal):
    """{atom: atom}: comparisons of reals between the same quantities, up to
    rounding of constants, written differently."""
    groups, m, seen = {}, {}, set()
    stack = [goal] + list(hyps)
    atoms = []
    while stack:
        t = stack.pop(0)
        if not isinstance(t, T.Term) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "lt" and t.args[0].sort == "R":
            atoms.append(t)
        elif t.op in ("and", "or", "not", "iff", "ite") and t.sort == "B":
            stack += list(t.args)
        if len(seen) > 400 or len(atoms) > 24:
            break
    for t in atoms:
        if len(list(T.subterms(t))) > 150:
            continue
        key = frozenset(T.free(t)) - {"exp", "log", "sqrt", "LN10"}
        for r in groups.setdefault(key, []):
            k = (t.id, r.id)
            if k not in _same_cache:
                try:
                    c = Canon(limit=200)
                    _same_cache[k] = c.eq(c.c(t.args[0]), c.c(r.args[0])) and c.eq(c.c(t.args[1]), c.c(r.args[1]))
                except (TooBig, ZeroDivisionError):
                    _same_cache[k] = False
            if _same_cache[k]:
                m[t] = r
                break
        else:
            groups[key].append(t)
    return m


_simp_cache = {}


def canon_simplify(t):
    """Rewrite arithmetic atoms of a formula into canonical form."""
    r = _simp_cache.get(t.id)
    if r is not None:
        return r
    if t.op in ("and", "or", "not", "iff") or (t.op == "ite" and t.sort == "B"):
        args = [canon_simplify(a) for a in t.args]
        r = T.rebuild(t, args)
    elif t.op in ("lt", "eq") and t.args[0].sort == "R" and not any(
        s.op == "ite" for s in T.subterms(t)
    ) and any(s.op == "app" and s.args[0] in ("exp", "log") for s in T.subterms(t)):
        try:
            c = Canon(limit=200)
            a, b = c.c(t.args[0]), c.c(t.args[1])
            r = T.rebuild(t, [c.term(a), c.term(b)])
        except (TooBig, ZeroDivisionError):
            r = t
    else:
        r = t
    _simp_cache[t.id] = r
    return r


def relevant(hyps, goal):
    """Hypotheses connected (through shared symbols) to the goal."""
    hs = []
    for h in hyps:
        hs += conjuncts(h)
    hs = list(dict.fromkeys(hs))
    ignore = {"exp", "log", "sqrt", "LN10"}
    syms = set(T.free(goal)) - ignore
    out, rest = [], hs
    for _ in range(6):
        nxt = []
        changed = False
        for h in rest:
            f = T.free(h) - ignore
            if not f or f & syms:
                out.append(h)
                if f - syms:
                    syms |= f
                    changed = True
            else:
                nxt.append(h)
        rest = nxt
        if not changed:
            break
    return out


def _zval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


def extract_model(m, tr):
    out = {"vars": {}, "apps": []}
    for name, (t, x) in tr.vars.items():
        out["vars"][name] = _zval(m.eval(x, model_completion=True))
    # function applications that occur in the query
    for tid, z in list(tr.cache.items()):
        if z3.is_app(z) and z.num_args() > 0 and z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            f = z.decl().name()
            if f in ("exp", "log", "sqrt"):
                continue
            args = [_zval(m.eval(a, model_completion=True)) for a in z.children()]
            out["apps"].append((f, args, _zval(m.eval(z, model_completion=True))))
    return out


def run_cvc5(solver, timeout):
    smt = solver.to_smt2()
    smt = re.sub(r"\(check-sat\)", "", smt)
    text = "(set-logic ALL)\n" + smt + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write(text)
        f.flush()
        try:
            p = subprocess.run(
                ["cvc5", "--lang=smt2", f"--tlimit={int(timeout * 1000)}", f.name],
                capture_output=True, text=True, timeout=timeout + 5)
        except subprocess.TimeoutExpired:
            return "unknown"
    out = p.stdout.strip().splitlines()
    return out[-1] if out else "unknown"
