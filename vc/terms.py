"""Hash-consed first-order terms over mathematical reals, ints and booleans.

Everything the verifier reasons about is a Term.  Constructors do only
constant folding and sign-based folding that is valid over the reals.
"""

from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "sort", "id", "_vars", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def _mk(op, args, sort):
    key = (op, sort) + tuple(
        a.id if isinstance(a, Term) else ("#", a) for a in args
    )
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.id = op, tuple(args), sort, len(_table)
        t._vars = None
        _table[key] = t
    return t


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")

# Declared signs of variables / uninterpreted functions: name -> "+", "0+"
SIGNS = {}


def num(x, sort="R"):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, bool):
        f = Fraction(int(x))
    elif isinstance(x, int):
        f = Fraction(x)
    else:
        # decimal reading of the literal: 0.1 means 1/10
        f = Fraction(repr(float(x)))
    return _mk("num", (f,), sort)


ZERO, ONE = num(0), num(1)
IZERO, IONE = num(0, "I"), num(1, "I")


def var(name, sort="R", sign=None):
    if sign:
        assert SIGNS.setdefault(name, sign) == sign, name
    return _mk("var", (name,), sort)


def app(fname, args, sort="R", sign=None):
    if sign:
        assert SIGNS.setdefault(fname, sign) == sign, fname
    return _mk("app", (fname,) + tuple(args), sort)


IX = var("ix", "I", "0+")


def bind(kind, bound, args, sort="R"):
    """Opaque functional of the terms `args`, binding the names in `bound`."""
    return _mk("bind", (kind, tuple(bound)) + tuple(args), sort)


def is_num(t):
    return t.op == "num"


def val(t):
    return t.args[0]


def _sort2(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def toreal(a):
    if a.sort == "R":
        return a
    if is_num(a):
        return num(val(a))
    return _mk("toreal", (a,), "R")


def _unify(a, b):
    if a.sort == b.sort:
        return a, b
    return toreal(a), toreal(b)


def add(a, b):
    a, b = _unify(a, b)
    if is_num(a) and is_num(b):
        return num(val(a) + val(b), a.sort)
    if is_num(a) and val(a) == 0:
        return b
    if is_num(b) and val(b) == 0:
        return a
    if is_num(b) and not is_num(a):
        a, b = b, a
    # fold c + (d + x)
    if is_num(a) and b.op == "add" and is_num(b.args[0]):
        return add(num(val(a) + val(b.args[0]), a.sort), b.args[1])
    return _mk("add", (a, b), a.sort)


def mul(a, b):
    a, b = _unify(a, b)
    if is_num(a) and is_num(b):
        return num(val(a) * val(b), a.sort)
    if is_num(b) and not is_num(a):
        a, b = b, a
    if is_num(a):
        if val(a) == 0:
            return a
        if val(a) == 1:
            return b
        if b.op == "mul" and is_num(b.args[0]):
            return mul(num(val(a) * val(b.args[0]), a.sort), b.args[1])
    return _mk("mul", (a, b), a.sort)


def neg(a):
    return mul(num(-1, a.sort), a)


def sub(a, b):
    if a is b:
        return num(0, a.sort)
    return add(a, neg(b))


def div(a, b):
    a, b = toreal(a), toreal(b)
    if is_num(b) and val(b) != 0:
        return mul(num(1 / val(b)), a)
    if is_num(a) and val(a) == 0 and sign(b) == "+":
        return a
    return _mk("div", (a, b), "R")


def powi(a, n):
    """a ** n for a concrete integer n."""
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


LN10 = var("LN10", "R", "+")


def exp(a):
    a = toreal(a)
    if is_num(a) and val(a) == 0:
        return ONE
    if a.op == "app" and a.args[0] == "log" and sign(a.args[1]) == "+":
        return a.args[1]
    return app("exp", (a,), "R", "+")


def log(a):
    a = toreal(a)
    if is_num(a):
        if val(a) == 1:
            return ZERO
        if val(a) == 10:
            return LN10
    if a.op == "app" and a.args[0] == "exp":
        return a.args[1]
    return app("log", (a,), "R")


def sqrt(a):
    a = toreal(a)
    if is_num(a) and val(a) >= 0:
        import math

        p, q = val(a).numerator, val(a).denominator
        rp, rq = math.isqrt(p), math.isqrt(q)
        if rp * rp == p and rq * rq == q:
            return num(Fraction(rp, rq))
    if a.op == "mul" and a.args[0] is a.args[1] and sign(a.args[0]) in ("+", "0+"):
        return a.args[0]
    return app("sqrt", (a,), "R", "0+")


def power(a, b):
    """a ** b over the reals (a > 0 unless b is an integer)."""
    a, b = toreal(a), toreal(b)
    if is_num(b):
        e = val(b)
        if e.denominator == 1:
            return powi(a, int(e))
        if e.denominator == 2:
            n = e.numerator // 2
            return mul(powi(a, n), sqrt(a))
    if is_num(a) and val(a) > 0:
        return exp(mul(log(a), b))
    return exp(mul(b, log(a)))


# ---------------------------------------------------------------- booleans


def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "B")


def land(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in x.args if x.op == "and" else (x,):
            if y not in out:
                out.append(y)
    s = set(out)
    for x in out:
        if lnot(x) in s:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "B")


def lor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in x.args if x.op == "or" else (x,):
            if y not in out:
                out.append(y)
    s = set(out)
    for x in out:
        if lnot(x) in s:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "B")


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return lnot(b)
    if b is FALSE:
        return lnot(a)
    return _mk("iff", (a, b), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    else:
        a, b = _unify(a, b)
    return _mk("ite", (c, a, b), a.sort)


def eq(a, b):
    if a.sort == "B":
        return iff(a, b)
    a, b = _unify(a, b)
    if a is b:
        return TRUE
    if is_num(a) and is_num(b):
        return TRUE if val(a) == val(b) else FALSE
    # linear offset folding:  c + x == d + x
    sa, sb = _off(a), _off(b)
    if sa[1] is not None and sa[1] is sb[1]:
        return TRUE if sa[0] == sb[0] else FALSE
    if b.id < a.id:
        a, b = b, a
    return _mk("eq", (a, b), "B")


def _off(a):
    if is_num(a):
        return val(a), None
    if a.op == "add" and is_num(a.args[0]):
        return val(a.args[0]), a.args[1]
    return Fraction(0), a


def lt(a, b):
    a, b = _unify(a, b)
    if a is b:
        return FALSE
    if is_num(a) and is_num(b):
        return TRUE if val(a) < val(b) else FALSE
    sa, sb = _off(a), _off(b)
    if sa[1] is not None and sa[1] is sb[1]:
        return TRUE if sa[0] < sb[0] else FALSE
    if is_num(b):
        s = sign(a)
        if val(b) <= 0 and s in ("+", "0+"):
            return FALSE
    if is_num(a):
        s = sign(b)
        if val(a) < 0 and s in ("+", "0+"):
            return TRUE
        if val(a) == 0 and s == "+":
            return TRUE
    return _mk("lt", (a, b), "B")


def le(a, b):
    return lnot(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


# -------------------------------------------------------------------- signs

_sign_cache = {}


def sign(t):
    """'+', '0+', '-', '0-' or None: a syntactic, sound sign bound."""
    r = _sign_cache.get(t.id, 0)
    if r != 0:
        return r
    r = _sign(t)
    _sign_cache[t.id] = r
    return r


def _sign(t):
    op = t.op
    if op == "num":
        v = val(t)
        return "+" if v > 0 else ("-" if v < 0 else "0+")
    if op == "var":
        return SIGNS.get(t.args[0])
    if op == "app":
        return SIGNS.get(t.args[0])
    if op == "toreal":
        return sign(t.args[0])
    if op == "bind":
        k = t.args[0]
        if k in ("std", "count", "size", "first", "last"):
            return "0+"
        if k in ("max", "min", "mean", "sum", "median"):
            s = sign(t.args[2])
            return "0" + s if k == "sum" and s in ("+", "-") else s
        return None
    if op == "add":
        a, b = sign(t.args[0]), sign(t.args[1])
        if a in ("+", "0+") and b in ("+", "0+"):
            return "+" if "+" in (a, b) else "0+"
        if a in ("-", "0-") and b in ("-", "0-"):
            return "-" if "-" in (a, b) else "0-"
        return None
    if op in ("mul", "div"):
        if op == "mul" and t.args[0] is t.args[1]:
            return "+" if sign(t.args[0]) in ("+", "-") else "0+"
        a, b = sign(t.args[0]), sign(t.args[1])
        if a is None or b is None:
            return None
        neg_ = (a[-1] == "-") != (b[-1] == "-")
        strict = len(a) == 1 and len(b) == 1
        return ("" if strict else "0") + ("-" if neg_ else "+")
    if op == "ite":
        a, b = sign(t.args[1]), sign(t.args[2])
        if a == b:
            return a
        if a in ("+", "0+") and b in ("+", "0+"):
            return "0+"
        return None
    return None


# ------------------------------------------------------------- traversal


def subterms(t, seen=None, into_binds=False):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "bind" and not into_binds:
            continue
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)


def free(t):
    """Set of free variable names and function names used in t."""
    if t._vars is None:
        if t.op == "var":
            t._vars = frozenset((t.args[0],))
        else:
            s = set()
            if t.op == "app":
                s.add(t.args[0])
            elif t.op == "bind":
                s.add("bind:" + t.args[0])
            for a in t.args:
                if isinstance(a, Term):
                    s |= free(a)
            if t.op == "bind":
                s -= set(t.args[1])
            t._vars = frozenset(s)
    return t._vars


_BUILD = {
    "add": add,
    "mul": mul,
    "div": div,
    "toreal": toreal,
    "not": lnot,
    "and": land,
    "or": lor,
    "iff": iff,
    "ite": ite,
    "eq": eq,
    "lt": lt,
}


def subst(t, mapping, cache=None):
    """Replace subterms (keys are Terms) bottom-up."""
    if cache is None:
        cache = {}
    return _subst(t, mapping, cache)


def _subst(t, m, cache):
    if t in m:
        return m[t]
    r = cache.get(t.id)
    if r is not None:
        return r
    if not t.args or t.op in ("num", "var"):
        r = t
    elif t.op == "bind":
        bound = set(t.args[1])
        m2 = {k: v for k, v in m.items() if not (free(k) & bound)}
        if not m2:
            r = t
        else:
            c2 = cache if len(m2) == len(m) else {}
            args = [
                _subst(a, m2, c2) if isinstance(a, Term) else a for a in t.args
            ]
            r = _mk("bind", tuple(args), t.sort)
    else:
        args = [_subst(a, m, cache) if isinstance(a, Term) else a for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t, args)
    cache[t.id] = r
    return r


def rebuild(t, args):
    if t.op == "bind":
        return _mk("bind", tuple(args), t.sort)
    if t.op == "app":
        f = args[0]
        if f == "exp":
            return exp(args[1])
        if f == "log":
            return log(args[1])
        if f == "sqrt":
            return sqrt(args[1])
        return _mk("app", tuple(args), t.sort)
    return _BUILD[t.op](*args)


def assume_cond(t, cond, value):
    """Rewrite t knowing boolean term cond has the given truth value."""
    m = {cond: TRUE if value else FALSE}
    if cond.op == "not":
        m[cond.args[0]] = FALSE if value else TRUE
    else:
        m[lnot(cond)] = FALSE if value else TRUE
    return subst(t, m)


def show(t, depth=0):
    if depth > 14:
        return "..."
    op = t.op
    if op == "num":
        v = val(t)
        return str(v) if v.denominator == 1 else f"{float(v):.12g}"
    if op == "var":
        return str(t.args[0])
    if op in ("true", "false"):
        return op
    a = [show(x, depth + 1) if isinstance(x, Term) else str(x) for x in t.args]
    sym = {"add": " + ", "mul": "*", "div": "/", "eq": " == ", "lt": " < ",
           "and": " & ", "or": " | ", "iff": " <=> "}
    if op in sym:
        return "(" + sym[op].join(a) + ")"
    if op == "app":
        return a[0] + "(" + ", ".join(a[1:]) + ")"
    if op == "not":
        return "!" + a[0]
    return op + "(" + ", ".join(a) + ")"


