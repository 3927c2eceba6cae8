"""High-precision numeric evaluation of terms, used to look for a concrete
point at which an undischarged obligation is false (a refutation is only ever
reported after such a point was found), never to accept an obligation."""

import random
import time
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import mpmath  # noqa: E402

from . import terms as T  # noqa: E402

mp = mpmath.mp
mp.dps = 30

# declared sampling ranges: name -> (lo, hi)
RANGES = {}


class EvalFail(Exception):
    pass


class Env:
    def __init__(self, rng, fixed=None):
        self.rng = rng
        self.scal = dict(fixed or {})
        self.arr = {}
        self.opq = {}
        self.bounds = {}
        self.opaque_used = set()

    def sample(self, name, sort):
        lo, hi = RANGES.get(name, (0.05, 3.0))
        blo, bhi = self.bounds.get(name, (None, None))
        if blo is not None and (lo is None or blo > lo):
            lo = blo
            if hi < lo:
                hi = lo + max(1.0, abs(lo))
        if bhi is not None and bhi < hi:
            hi = bhi
            if hi < lo:
                lo = hi - max(1.0, abs(hi))
        if sort == "B":
            return self.rng.random() < 0.5
        if sort == "I":
            import math

            lo, hi = math.ceil(lo), math.floor(hi)
            return self.rng.randint(lo, max(lo, hi))
        u = self.rng.random()
        if u < 0.04:
            return mp.mpf(lo)
        if u < 0.08:
            return mp.mpf(hi)
        return mp.mpf(repr(lo + (hi - lo) * self.rng.random()))

    def scalar(self, name, sort):
        if name == "LN10":
            return mpmath.log(10)
        if name not in self.scal:
            self.scal[name] = self.sample(name, sort)
        v = self.scal[name]
        if sort == "R" and not isinstance(v, mp.mpf) and v is not True and v is not False:
            v = mp.mpf(repr(float(v)))
            self.scal[name] = v
        return v

    def element(self, name, idx, sort):
        d = self.arr.setdefault(name, {})
        if idx not in d:
            d[idx] = self.sample(name, sort)
        v = d[idx]
        if sort == "R" and not isinstance(v, mp.mpf):
            v = mp.mpf(repr(float(v)))
        return v

    def opaque(self, name, key, sort):
        self.opaque_used.add(name)
        k = (name, key)
        if k not in self.opq:
            self.opq[k] = self.sample(name, sort)
        return self.opq[k]


def sig(v):
    if isinstance(v, (list, tuple)):
        return tuple(sig(x) for x in v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if v == 0:
        return 0
    return mpmath.nstr(v, 9)


def interval_hints(hyps, env):
    for h in hyps:
        for q in (h.args if h.op == "and" else (h,)):
            neg = q.op == "not"
            if neg:
                q = q.args[0]
            if q.op not in ("lt", "eq"):
                continue
            a, b = q.args
            for x, y, side in ((a, b, 0), (b, a, 1)):
                if x.op == "toreal":
                    x = x.args[0]
                if T.is_num(y) and x.op in ("var", "app") and isinstance(x.args[0], str):
                    name, v = x.args[0], float(T.val(y))
                    lo, hi = env.bounds.get(name, (None, None))
                    eps = 1e-9 * max(1, abs(v)) if x.sort == "R" else 1
                    if q.op == "eq":
                        if not neg:
                            lo = hi = v
                    else:
                        upper = (side == 0) != neg
                        strict = not neg
                        if upper:
                            w = v - eps if strict else v
                            hi = w if hi is None else min(hi, w)
                        else:
                            w = v + eps if strict else v
                            lo = w if lo is None else max(lo, w)
                    env.bounds[name] = (lo, hi)


def equal(a, b, rtol=1e-9):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    d = abs(a - b)
    return d <= mp.mpf(rtol) * max(abs(a), abs(b)) or d == 0


class Evaluator:
    def __init__(self, env, budget=60000):
        self.env = env
        self.budget = budget

    def ev(self, t, loc=None, cache=None):
        if cache is None:
            cache = {}
        return self._ev(t, loc or {}, cache)

    def _ev(self, t, loc, cache):
        r = cache.get(t.id)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise EvalFail("budget")
        r = self._ev1(t, loc, cache)
        cache[t.id] = r
        return r

    def _ev1(self, t, loc, cache):
        op = t.op
        if op == "num":
            v = T.val(t)
            if t.sort == "I":
                return int(v)
            return mp.mpf(v.numerator) / v.denominator
        if op == "var":
            n = t.args[0]
            if n in loc:
                return loc[n]
            return self.env.scalar(n, t.sort)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ite":
            return self._ev(
                t.args[1] if self._ev(t.args[0], loc, cache) else t.args[2], loc, cache
            )
        if op == "and":
            return all(self._ev(a, loc, cache) for a in t.args)
        if op == "or":
            return any(self._ev(a, loc, cache) for a in t.args)
        if op == "app":
            f = t.args[0]
            a = [self._ev(x, loc, cache) for x in t.args[1:]]
            try:
                if f == "exp":
                    if a[0] > 5000:
                        raise EvalFail("overflow")
                    return mpmath.exp(a[0])
                if f == "log":
                    if a[0] <= 0:
                        raise EvalFail("log")
                    return mpmath.log(a[0])
                if f == "sqrt":
                    if a[0] < 0:
                        raise EvalFail("sqrt")
                    return mpmath.sqrt(a[0])
            except (OverflowError, ValueError) as e:
                raise EvalFail(str(e))
            if f == "trunc":
                return mp.mpf(int(a[0]))
            if f in ("floor_div", "floor_mod"):
                if a[1] == 0:
                    raise EvalFail("div")
                return a[0] // a[1] if f == "floor_div" else a[0] - (a[0] // a[1]) * a[1]
            if len(a) == 1 and isinstance(a[0], int) and t.args[1].sort == "I":
                return self.env.element(f, a[0], t.sort)
            return self.env.opaque(f, sig(a), t.sort)
        if op == "bind":
            return self._bind(t, loc)
        a = [self._ev(x, loc, cache) for x in t.args]
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            if a[1] == 0:
                raise EvalFail("div")
            return a[0] / a[1]
        if op == "toreal":
            return mp.mpf(a[0])
        if op == "not":
            return not a[0]
        if op == "iff":
            return bool(a[0]) == bool(a[1])
        if op == "eq":
            return a[0] == a[1]
        if op == "lt":
            # a tie within rounding is a tie
            return a[0] < a[1] and (isinstance(a[0], int) or not equal(a[0], a[1], 1e-12))
        raise EvalFail(op)

    def _rows(self, args, loc):
        """Evaluate args[:-2] over the points of the space args[-2:]=(mask,n)."""
        *els, mask, n = args
        nn = self._ev(n, loc, {})
        if nn > 14:
            raise EvalFail("too long")
        out = []
        for i in range(int(nn)):
            l2 = dict(loc)
            l2["ix"] = i
            c2 = {}
            if self._ev(mask, l2, c2):
                out.append((i, [self._ev(e, l2, c2) for e in els]))
        return out

    def _bind(self, t, loc):
        kind, bound, *args = t.args
        if bound == ("ix",):
            rows = self._rows(args, loc)
            idx = [i for i, _ in rows]
            cols = list(zip(*[v for _, v in rows])) if rows else [()] * (len(args) - 2)
            m = len(rows)
            if kind == "count":
                return m
            if kind == "size":
                return m
            if kind == "any":
                return any(cols[0]) if m else False
            if kind == "all":
                return all(cols[0]) if m else True
            if kind in ("first", "last"):
                if not m:
                    raise EvalFail("empty")
                return idx[0] if kind == "first" else idx[-1]
            if kind == "sum":
                return sum(cols[0], mp.mpf(0)) if m else mp.mpf(0)
            if not m:
                raise EvalFail("empty")
            x = cols[0]
            if kind == "mean":
                return sum(x) / m
            if kind == "max":
                return max(x)
            if kind == "min":
                return min(x)
            if kind == "median":
                s = sorted(x)
                return s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) / 2
            if kind in ("std", "std1"):
                mu = sum(x) / m
                d = m - (1 if kind == "std1" else 0)
                if d <= 0:
                    raise EvalFail("std")
                return mpmath.sqrt(sum((v - mu) ** 2 for v in x) / d)
            if kind.startswith("lr_"):
                y = cols[1]
                if m < 2:
                    raise EvalFail("lr")
                mx, my = sum(x) / m, sum(y) / m
                sxx = sum((a - mx) ** 2 for a in x)
                syy = sum((b - my) ** 2 for b in y)
                sxy = sum((a - mx) * (b - my) for a, b in zip(x, y))
                if sxx == 0 or syy == 0:
                    raise EvalFail("lr")
                if kind == "lr_slope":
                    return sxy / sxx
                if kind == "lr_intercept":
                    return my - sxy / sxx * mx
                if kind == "lr_rvalue":
                    return sxy / mpmath.sqrt(sxx * syy)
            return self.env.opaque(kind, (sig(tuple(idx)), sig(tuple(map(tuple, cols)))), t.sort)
        # generic binder: signature by probing the bound variables
        lx = [b for b in bound if b != "ix"]
        s = []
        rng = random.Random(12345)
        for _ in range(2):
            l2 = dict(loc)
            for b in lx:
                lo, hi = RANGES.get(b, (0.05, 3.0))
                l2[b] = mp.mpf(repr(rng.uniform(lo, hi)))
            if "ix" in bound:
                resid, mask, n, *rest = args
                s.append(sig([(i, v) for i, v in self._rows([resid, mask, n], l2)]))
            else:
                resid, *rest = args
                s.append(sig(self._ev(resid, l2, {})))
            s.append(sig([self._ev(r, l2, {}) if isinstance(r, T.Term) else r for r in rest]))
        return self.env.opaque(kind, tuple(s), t.sort)


def settable(t):
    return t.sort == "R" and (t.op == "var" and t.args[0] not in ("LN10",) or (
        t.op == "app" and len(t.args) == 2 and t.args[1].sort == "I" and t.args[0] not in ("exp", "log", "sqrt")))


def comparisons(ts):
    """Pairs (input, term) compared somewhere outside a binder: a boundary
    case has them equal."""
    out, seen, stack = [], set(), list(ts)
    while stack:
        t = stack.pop()
        if not isinstance(t, T.Term) or t.id in seen or len(seen) > 4000:
            continue
        seen.add(t.id)
        if t.op == "bind":
            continue
        if t.op in ("lt", "eq") and t.args[0].sort == "R":
            a, b = t.args
            if settable(a):
                out.append((a, b))
            elif settable(b):
                out.append((b, a))
        stack += [x for x in t.args if isinstance(x, T.Term)]
    return out


def tie(env, a, b):
    ev = Evaluator(env)
    v = ev.ev(b)
    if a.op == "var":
        env.scal[a.args[0]] = v
    else:
        i = ev.ev(a.args[1])
        env.arr.setdefault(a.args[0], {})[i] = v


def find_counterexample(hyps, goal, rng, tries=60, fixed=None):
    """A concrete Env at which all hyps hold and goal fails, or None."""
    ok = 0
    fails = 0
    ties = None
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 8.0:
            break
        env = Env(rng, fixed if k == 0 else None)
        interval_hints(hyps, env)
        ev = Evaluator(env)
        cache = {}
        try:
            if ties is None:
                ties = comparisons([goal] + list(hyps))
            if ties and k % 5 in (2, 4):
                for a, b in rng.sample(ties, min(len(ties), 1 if k % 5 == 2 else 3)):
                    tie(env, a, b)
            if not all(ev.ev(h, cache=cache) for h in hyps):
                continue
            ok += 1
            if not holds(ev, goal, cache):
                return env
            fails = 0
        except EvalFail:
            fails += 1
            if fails > 25 and ok == 0:
                break
            continue
        except (ZeroDivisionError, OverflowError):
            continue
        if ok > 25:
            break
    return None


def holds(ev, goal, cache):
    if goal.op == "eq" and goal.args[0].sort in ("R", "I"):
        return equal(ev.ev(goal.args[0], cache=cache), ev.ev(goal.args[1], cache=cache))
    if goal.op == "and":
        return all(holds(ev, g, cache) for g in goal.args)
    if goal.op == "or":
        return any(holds(ev, g, cache) for g in goal.args)
    if goal.op == "ite" and goal.sort == "B":
        return holds(ev, goal.args[1 if ev.ev(goal.args[0], cache=cache) else 2], cache)
    if goal.op == "not" and goal.args[0].op == "lt":
        a, b = (ev.ev(x, cache=cache) for x in goal.args[0].args)
        return not a < b or equal(a, b)
    return bool(ev.ev(goal, cache=cache))
