"""Assumed contracts of the dependencies, as stand-in modules for the symbolic
run.  Calls without symbolic arguments go to the real library."""

import types
import warnings as _warnings
from collections import namedtuple

import numpy as _np

from . import sym as S
from . import terms as T
from .sym import SArr, SBool, SNum, SVec, Space, Unsupported, cur, is_scalar


# ------------------------------------------------------------------- numpy


def _map(f):
    def g(x, *rest, **k):
        if rest or k:
            raise Unsupported("ufunc options")
        if isinstance(x, SArr):
            return x.make(x.space, f(T.toreal(x.elem)), x.nan)
        if isinstance(x, SVec):
            return SVec([g(v) for v in x.items])
        if is_scalar(x):
            return SNum(f(T.toreal(S.term_of(x))), S.nan_of(x))
        if isinstance(x, (list, tuple)):
            return SVec([g(v) for v in x])
        if hasattr(x, "_apply_unary"):
            return x._apply_unary(g)
        raise Unsupported(f"ufunc on {type(x).__name__}")

    return g


def _abs(x):
    return abs(x)


def _where(c, *ab):
    if not ab:
        return _nonzero(c)
    a, b = ab
    if isinstance(c, (list, _np.ndarray)):
        c = SVec(list(c))
    arrs = [v for v in (c, a, b) if isinstance(v, SArr)]
    if not arrs:
        if any(isinstance(v, SVec) for v in (c, a, b)):
            n = max(len(v.items) for v in (c, a, b) if isinstance(v, SVec))

            def ex(v):
                if isinstance(v, SVec):
                    return v.items if len(v.items) == n else v.items * n
                return [v] * n

            return SVec([_where(*z) for z in zip(ex(c), ex(a), ex(b))])
        ct = S.bterm(c)
        if isinstance(a, str) or isinstance(b, str):
            return a if cur().decide(ct) else b
        ta, tb = S.num_or_bool(a), S.num_or_bool(b)
        return S.mk(T.ite(ct, ta, tb), T.ite(ct, S.nan_of(a), S.nan_of(b)))
    sp = arrs[0].space
    for v in arrs[1:]:
        sp = Space.unify(sp, v.space)
    a, b = (string(v) if isinstance(v, str) else v for v in (a, b))
    ce = S.elem_of(c)[0]
    ea, na = S.elem_of(a)
    eb, nb = S.elem_of(b)
    return SArr(sp, T.ite(ce, ea, eb), T.ite(ce, na, nb))


def string(s):
    """A string as a cell of a column."""
    return SNum(T.var("str:" + s, "R"))


def _nonzero(a):
    return a.nonzero()


def _size(x, axis=None):
    if isinstance(x, (SArr, SVec, S.SIdx)):
        return x.size
    if isinstance(x, (SNum, SBool)):
        return 1
    if hasattr(x, "__symsize__"):
        return x.__symsize__()
    if isinstance(x, (list, tuple)):
        return len(x)
    return _np.size(x)


def _shape(x):
    if isinstance(x, (SArr, SVec, SNum)):
        return x.shape
    return _np.shape(x)


def _isscalar(x):
    if isinstance(x, (SNum, SBool)):
        return True
    if isinstance(x, (SArr, SVec)):
        return False
    return _np.isscalar(x)


def _full(shape, v, dtype=None, **k):
    v = _typed(v, dtype)
    if isinstance(shape, tuple):
        if len(shape) == 0:
            return v
        if len(shape) != 1:
            raise Unsupported("multi-dimensional full")
        shape = shape[0]
    if isinstance(shape, int):
        return SVec([v] * shape)
    t, n = S.elem_of(v)
    st = shape.t
    if st.op == "bind":  # size of a filtered array
        return SArr(Space.get(st.args[3], st.args[2]), t, n)
    return SArr(Space.get(st), t, n)


def _full_like(a, v, dtype=None, **k):
    v = _typed(v, dtype)
    if isinstance(a, (SNum, float, int)):
        return v
    if isinstance(a, SVec):
        return SVec([v] * len(a.items))
    t, n = S.elem_of(v)
    if t.sort == "I" and a.elem.sort == "R":
        t = T.toreal(t)
    r = SArr(a.space, t, n)
    if a.isint and dtype is None:
        r.isint = True
        r.elem = S.truncated(a, t, n, v)
    return r


def _empty_like(a, dtype):
    r = _full_like(a, float("nan"), dtype or float)
    if isinstance(a, SArr) and a.isint and dtype is None:
        r.isint = True
    return r


def _red(kind):
    def f(a, axis=None, **k):
        if isinstance(a, (list, tuple)):
            if kind == "sum" and (axis in (0, None)):
                if axis is None and any(isinstance(v, SArr) for v in a):
                    raise Unsupported("sum over all axes")
                return _sumlist(a)
            if not any(isinstance(v, SArr) for v in a):
                a = SVec(list(a))
            else:
                raise Unsupported(kind + " of a list")
        if isinstance(a, types.GeneratorType):
            raise Unsupported("generator reduction")
        S._only({x: v for x, v in k.items() if x != "ddof"})
        if isinstance(a, SArr):
            if kind == "std":
                return a.std(ddof=k.get("ddof", 0))
            return a.reduce(kind)
        if isinstance(a, (SNum, SBool)) or is_scalar(a):
            if kind == "std":
                return 0.0
            return a
        if isinstance(a, SVec):
            if kind == "sum":
                return _sumlist(a.items)
            if kind == "mean":
                return _sumlist(a.items) / len(a.items)
            if kind in ("any", "all"):
                ts = [S.bterm(v) for v in a.items]
                return SBool((T.lor if kind == "any" else T.land)(*ts))
            if kind in ("max", "min"):
                r = a.items[0]
                for v in a.items[1:]:
                    c = v > r if kind == "max" else v < r
                    r = _where(c, v, r)
                return r
            if kind == "std":
                n = len(a.items)
                mu = _sumlist(a.items) / n
                return _map(T.sqrt)(_sumlist([(v - mu) * (v - mu) for v in a.items]) / n)
        if hasattr(a, "_reduce"):
            return a._reduce(kind, **k)
        raise Unsupported(kind)

    return f


def _nanred(kind):
    def f(a, axis=None, **k):
        S._only(k)
        if not isinstance(a, SArr):
            raise Unsupported("nan" + kind)
        return SArr(a.space.filter(T.lnot(a.nan)), a.elem).reduce(kind)

    return f


def _sumlist(a):
    r = None
    for v in a:
        r = v if r is None else r + v
    return 0.0 if r is None else r


def _array(x, dtype=None, **k):
    if dtype is not None:
        return _typed(_array(x, None, **k), dtype)
    if isinstance(x, (SArr, SVec)):
        return x.copy()
    if isinstance(x, (list, tuple)):
        if all(is_scalar(v) for v in x):
            return SVec(list(x))
        raise Unsupported("np.array of nested data")
    if isinstance(x, (SNum, SBool)):
        return x
    if hasattr(x, "to_numpy"):
        return x.to_numpy().copy()
    if hasattr(x, "cells"):
        return x
    raise Unsupported("np.array")


def _asarray(x, dtype=None, **k):
    if dtype is not None:
        return _typed(_asarray(x, None, **k), dtype)
    if isinstance(x, (SArr, SVec)):
        return x
    if hasattr(x, "to_numpy"):
        return x.to_numpy()
    return _array(x)


def _isnan(x):
    if isinstance(x, SArr):
        return x.make(x.space, x.nan)
    if isinstance(x, SVec):
        return SVec([_isnan(v) for v in x.items])
    if isinstance(x, SNum):
        return SBool(x.nan)
    if hasattr(x, "_apply_unary"):
        return x._apply_unary(_isnan)
    return _np.isnan(x)


def _power(a, b):
    return S.binop("pow", a, b)


def _bin(op):
    def f(a, b, **k):
        S._only(k)
        return S.binop(op, a, b)

    return f


def _logical_not(a):
    return ~a if isinstance(a, (SArr, SBool, SVec)) else (not a)


def _minmax2(kind):
    def f(a, b):
        c = S.binop("lt", a, b) if kind == "min" else S.binop("gt", a, b)
        return _where(c, a, b)

    return f


def _clip(a, lo=None, hi=None):
    if lo is not None:
        a = _minmax2("max")(a, lo)
    if hi is not None:
        a = _minmax2("min")(a, hi)
    return a


def _diff(a):
    if isinstance(a, SArr):
        return a[1:] - a[:-1]
    if isinstance(a, SVec):
        return SVec([y - x for x, y in zip(a.items, a.items[1:])])
    raise Unsupported("diff")


def _arange(*a, **k):
    """np.arange(start, stop, step): start + i*step, with an opaque length."""
    S._only(k)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if isinstance(stop, SNum) and stop.t.sort == "I" and step == 1 and not isinstance(start, SNum):
        if start == 0:
            return SArr(Space.get(stop.t), T.IX)
    st, sp, se = (T.toreal(S.term_of(v)) for v in (start, stop, step))
    n = T.app("arange_len", (st, sp, se), "I", "+")
    p = cur()
    e = T.add(st, T.mul(T.toreal(T.IX), se))
    p.assume(T.lt(num_i(1), n))  # at least two steps
    p.assume(T.implies(T.land(T.lt(T.ZERO, se), T.lt(T.IX, n)), T.lt(e, sp)))
    return SArr(Space.get(n), e)


def num_i(k):
    return T.num(k, "I")


def _so_far(a):
    """True from the first true element on."""
    if not (isinstance(a, SArr) and a.elem.sort == "B" and a.space.mask is T.TRUE):
        raise Unsupported("accumulation of numbers")
    if not cur().decide(a._any(a.elem)):
        return SArr(a.space, T.FALSE)
    b = SArr(a.space.filter(a.elem), T.IX).pick("first")
    return SArr(a.space, T.le(b, T.IX))


class SCount(SArr):
    """np.cumsum of a mask: only whether it is still zero is known."""

    def __init__(self, space, elem, nan=T.FALSE, mask=None):
        super().__init__(space, elem, nan)
        self.mask = mask

    def _cmp(self, o, pos, zero):
        if isinstance(o, (int, float)) and o in pos:
            return self.mask.copy()
        if isinstance(o, (int, float)) and o in zero:
            return ~self.mask
        raise Unsupported("a running count compared with a number")

    def __gt__(self, o):
        return self._cmp(o, (0,), ())

    def __ge__(self, o):
        return self._cmp(o, (1,), ())

    def __ne__(self, o):
        return self._cmp(o, (0,), ())

    def __eq__(self, o):
        return self._cmp(o, (), (0,))

    def __lt__(self, o):
        return self._cmp(o, (), (1,))

    def __le__(self, o):
        return self._cmp(o, (), (0,))

    __hash__ = None

    def astype(self, dtype, **k):
        if dtype is bool:
            return self.mask.copy()
        raise Unsupported("a running count")


def _cumsum(a):
    m = _so_far(a)
    return SCount(m.space, T.app("running_count", (T.IX,), "R"), T.FALSE, m)


def _concatenate(seq, axis=0):
    return SConcat(list(seq))


class SConcat:
    """Concatenation of symbolic arrays, kept as its pieces."""

    __issym__ = True

    def __init__(self, parts):
        self.parts = parts


def _typed(v, dtype):
    if dtype is None:
        return v
    name = S.dtype_name(dtype)
    if name == "bool":
        if isinstance(v, SArr) and v.elem.sort == "B" or isinstance(v, (SBool, bool)):
            return v
        if isinstance(v, (int, float)):
            return bool(v)
    if name == "float":
        if isinstance(v, SArr) or hasattr(v, "cells"):
            return v.astype(float)
        if isinstance(v, SVec):
            return SVec([_typed(x, dtype) for x in v.items])
        return S.sym_float(v)
    raise Unsupported("dtype " + name)


def _zeros(shape, dtype=None):
    return _full(shape, _typed(0.0, dtype))


def _ones(shape, dtype=None):
    return _full(shape, _typed(1.0, dtype))


def _copy(a):
    return a.copy()


def _squeeze(a):
    if isinstance(a, SVec) and len(a.items) == 1:
        return a.items[0]
    return a


def _exp10(t):
    return T.power(T.num(10), t)


NP_FUNCS = {
    "exp": _map(T.exp),
    "log": _map(T.log),
    "log10": _map(lambda t: T.div(T.log(t), T.LN10)),
    "log2": _map(lambda t: T.div(T.log(t), T.log(T.num(2)))),
    "log1p": _map(lambda t: T.log(T.add(T.ONE, t))),
    "expm1": _map(lambda t: T.sub(T.exp(t), T.ONE)),
    "sqrt": _map(T.sqrt),
    "square": _map(lambda t: T.mul(t, t)),
    "negative": lambda x: -x,
    "reciprocal": lambda x: 1 / x,
    "abs": _abs,
    "absolute": _abs,
    "fabs": _abs,
    "where": _where,
    "nonzero": _nonzero,
    "flatnonzero": lambda a: a.nonzero()[0],
    "argmax": lambda a: a.argmax(),
    "size": _size,
    "shape": _shape,
    "isscalar": _isscalar,
    "full": _full,
    "full_like": _full_like,
    "zeros_like": lambda a, dtype=None, **k: _full_like(a, _typed(0.0, dtype), dtype),
    "ones_like": lambda a, dtype=None, **k: _full_like(a, _typed(1.0, dtype), dtype),
    "empty_like": lambda a, dtype=None, **k: _empty_like(a, dtype),
    "zeros": _zeros,
    "ones": _ones,
    "sum": _red("sum"),
    "mean": _red("mean"),
    "average": _red("mean"),
    "std": _red("std"),
    "max": _red("max"),
    "amax": _red("max"),
    "min": _red("min"),
    "amin": _red("min"),
    "median": _red("median"),
    "nanmax": _nanred("max"),
    "nanmin": _nanred("min"),
    "nanmean": _nanred("mean"),
    "nanmedian": _nanred("median"),
    "any": _red("any"),
    "all": _red("all"),
    "count_nonzero": _red("sum"),
    "array": _array,
    "asarray": _asarray,
    "atleast_1d": _asarray,
    "isnan": _isnan,
    "power": _power,
    "float_power": _power,
    "add": _bin("add"),
    "subtract": _bin("sub"),
    "multiply": _bin("mul"),
    "divide": _bin("div"),
    "true_divide": _bin("div"),
    "greater": _bin("gt"),
    "greater_equal": _bin("ge"),
    "less": _bin("lt"),
    "less_equal": _bin("le"),
    "equal": _bin("eq"),
    "logical_and": _bin("and"),
    "logical_or": _bin("or"),
    "logical_not": _logical_not,
    "invert": _logical_not,
    "minimum": _minmax2("min"),
    "maximum": _minmax2("max"),
    "clip": _clip,
    "diff": _diff,
    "cumsum": _cumsum,
    "arange": _arange,
    "concatenate": _concatenate,
    "copy": _copy,
    "squeeze": _squeeze,
    "ndim": lambda x: x.ndim if hasattr(x, "ndim") else 0,
}
NP_PASS = {
    "nan", "pi", "e", "inf", "newaxis", "float64", "float32", "int64", "int32",
    "bool_", "ndarray", "floating", "integer", "number", "generic", "datetime64",
    "errstate", "float", "int", "dtype", "NaN", "str_", "timedelta64",
}


class Shim(types.ModuleType):
    """Module stand-in; unknown attributes are outside the verifier's reach."""

    def __init__(self, name, attrs, real=None, passthrough=()):
        super().__init__(name)
        self.__dict__.update(attrs)
        self.__dict__["_real"] = real
        self.__dict__["_pass"] = set(passthrough)

    def __getattr__(self, k):
        if k.startswith("__") and k not in ("__version__",):
            raise AttributeError(k)
        if self._real is not None and k in self._pass:
            return getattr(self._real, k)
        if self._real is not None and hasattr(self._real, k):
            real = getattr(self._real, k)
            if callable(real) and not isinstance(real, type):

                def g(*a, **kw):
                    if any(S.contains_sym(v) for v in a) or any(
                        S.contains_sym(v) for v in kw.values()
                    ):
                        raise Unsupported(f"{self.__name__}.{k}")
                    return real(*a, **kw)

                return g
            return real
        raise AttributeError(f"module {self.__name__!r} has no attribute {k!r}")


_EXACT = {"exp", "log", "log10", "log2", "log1p", "expm1", "sqrt"}


def _wrap(name, fn, real):
    def g(*a, **k):
        a = [S.ungrow(v) for v in a]
        if name in _EXACT and S.P is not None and len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, (int, float)) and not isinstance(x, bool) and x == x and x > 0:
                r = fn(x)
                return float(T.val(r.t)) if T.is_num(r.t) and r.t.sort == "R" else r
        if any(S.contains_sym(v) for v in a) or any(
            S.contains_sym(v) for v in k.values()
        ):
            return fn(*a, **k)
        return real(*a, **k)

    g.__name__ = name
    return g


def make_numpy():
    attrs = {}
    for k, f in NP_FUNCS.items():
        attrs[k] = _wrap(k, f, getattr(_np, k))
    for k in ("maximum", "logical_or"):
        attrs[k].accumulate = _wrap(k, _so_far, getattr(_np, k).accumulate)
    return Shim("numpy", attrs, _np, NP_PASS)


# ------------------------------------------------------------------- scipy

LinregressResult = namedtuple("LinregressResult", ("slope", "intercept", "rvalue", "pvalue", "stderr"))


class LR:
    def __init__(self, slope, intercept, rvalue):
        self.slope, self.intercept, self.rvalue = slope, intercept, rvalue

    def __iter__(self):
        raise Unsupported("unpacking linregress")

    def __getitem__(self, k):
        return (self.slope, self.intercept, self.rvalue)[k]


def linregress(x, y=None, **k):
    S._only(k)
    if not (isinstance(x, SArr) and isinstance(y, SArr)):
        raise Unsupported("linregress")
    sp = Space.unify(x.space, y.space)
    p = cur()
    aff = getattr(p, "affine", None)
    if aff is not None:
        # assumed contract: exactly affine data give back their line
        a, b = aff
        from . import harness

        harness.CURRENT.true(
            "linregress.requires: data exactly affine",
            SArr(sp, T.eq(y.elem, T.add(T.mul(S.term_of(a), x.elem), S.term_of(b)))),
        )
        return LR(a, b, 1.0)
    args = (T.toreal(x.elem), T.toreal(y.elem), sp.mask, sp.n)
    f = {k: SNum(T.bind("lr_" + k, ("ix",), args)) for k in ("slope", "intercept", "rvalue")}
    return LR(f["slope"], f["intercept"], f["rvalue"])


class OptResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def _at(r, m):
    """A residual with the unknowns replaced."""
    if isinstance(r, SArr):
        return SArr(Space.get(T.subst(r.space.n, m), T.subst(r.space.mask, m)), T.subst(r.elem, m), T.subst(r.nan, m))
    if isinstance(r, SVec):
        return SVec([_at(v, m) for v in r.items])
    t, n = S.elem_of(r)
    return SNum(T.subst(t, m), T.subst(n, m))


def _lsq_default(name, value):
    """Is it what scipy takes when nothing is given?"""
    import inspect

    from scipy import optimize

    q = inspect.signature(optimize.least_squares).parameters.get(name)
    return q is not None and q.default is not q.empty and repr(q.default) == repr(value)


def least_squares(fun, x0, args=(), kwargs=None, _again=True, **opts):
    """Assumed contract: the returned x is a function of the residual function,
    the start values and the options only; `fun` is the residual at x. Its
    precondition, an obligation: what is passed is a function, so that an
    evaluation after any other one gives what it would have given first."""
    p = cur()
    depth = p.lsq_depth
    if isinstance(x0, (int, float, SNum)):
        x0 = [x0]
    starts = [T.toreal(S.term_of(v)) for v in x0]
    lx = [T.var(f"lx{depth}_{k}", "R") for k in range(len(starts))]
    vec = SVec([SNum(v) for v in lx])
    p.lsq_depth += 1
    try:
        r = fun(vec, *args, **(kwargs or {}))
    finally:
        p.lsq_depth -= 1
    if _again and depth == 0:
        from . import harness

        ly = [T.var(f"ly{depth}_{k}", "R") for k in range(len(starts))]
        p.lsq_depth += 1
        try:
            r2 = fun(SVec([SNum(v) for v in ly]), *args, **(kwargs or {}))
        finally:
            p.lsq_depth -= 1
        harness.CURRENT.eq("residuals do not depend on earlier evaluations", r2, _at(r, dict(zip(lx, ly))))
    names = tuple(str(v.args[0]) for v in lx)
    opt = tuple(sorted((k, repr(v)) for k, v in opts.items() if not _lsq_default(k, v)))
    if isinstance(r, SArr):
        kind, bound = "lsq", ("ix",) + names
        body = (T.toreal(r.elem), r.space.mask, r.space.n)
    else:
        if isinstance(r, SVec):
            if len(r.items) != 1:
                raise Unsupported("vector residual")
            r = r.items[0]
        kind, bound = "lsqs", names
        body = (T.toreal(S.term_of(r)),)
    xs = [
        SNum(T.bind(f"{kind}{k}/{len(lx)}{opt if opt else ''}", bound, body + tuple(starts)))
        for k in range(len(lx))
    ]
    m = {a: b.t for a, b in zip(lx, xs)}
    if isinstance(r, SArr):
        fun_ = SArr(r.space, T.subst(T.toreal(r.elem), m))
    else:
        fun_ = SVec([SNum(T.subst(T.toreal(S.term_of(r)), m))])
    return OptResult(x=SVec(xs), fun=fun_, residual=(lx, r), start=list(x0), success=True)


def pchip_interpolate(xi, yi, x, der=0, axis=0):
    """Assumed contract: the value at a point is a function of the nodes, the
    values at the nodes and the point."""
    if der != 0 or axis != 0:
        raise Unsupported("pchip options")
    body = []
    for a in (xi, yi):
        for b in a.parts if isinstance(a, SConcat) else [a]:
            if not isinstance(b, SArr):
                raise Unsupported("pchip nodes")
            if b.nan is not T.FALSE:
                raise Unsupported("pchip NaN")
            body += [T.toreal(b.elem), b.space.mask, b.space.n]
    q = T.bind("pchip", ("ix",), tuple(body), "R")
    if isinstance(x, SArr):
        if x.nan is not T.FALSE:
            raise Unsupported("pchip NaN")
        return SArr(x.space, T.app("pchip_at", (q, T.toreal(x.elem)), "R"))
    if isinstance(x, SVec) and len(x.items) == 1:
        return SVec([SNum(T.app("pchip_at", (q, T.toreal(S.term_of(x.items[0]))), "R"))])
    if not S.is_scalar(x):
        raise Unsupported("pchip points")
    return SNum(T.app("pchip_at", (q, T.toreal(S.term_of(x))), "R"))


# ----------------------------------------------------------------- warnings


def warn(message, *a, **k):
    P = S.P
    if P is not None:
        P.warnings.append(str(message))
    return None


class catch_warnings:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


def make_warnings():
    return Shim(
        "warnings",
        {
            "warn": warn,
            "catch_warnings": catch_warnings,
            "filterwarnings": lambda *a, **k: None,
            "simplefilter": lambda *a, **k: None,
        },
        _warnings,
        {"warn_explicit"},
    )


# ------------------------------------------------------------------- pandas

import pandas as _pd  # noqa: E402


def isnull(x):
    if isinstance(x, SNum):
        return SBool(x.nan)
    if isinstance(x, SBool):
        return False
    if isinstance(x, SArr):
        return x.make(x.space, x.nan)
    if isinstance(x, SVec):
        return SVec([isnull(v) for v in x.items])
    if hasattr(x, "_isnull"):
        return x._isnull()
    if isinstance(x, (dict, S.SIdx)):
        return False
    return _pd.isnull(x)


def notnull(x):
    r = isnull(x)
    if isinstance(r, (SBool, SArr, SVec)):
        return ~r
    if isinstance(r, bool):
        return not r
    if hasattr(r, "__invert__"):
        return ~r
    return not r


def make_pandas(extra=None):
    attrs = {
        "isnull": isnull,
        "isna": isnull,
        "notnull": notnull,
        "notna": notnull,
    }
    from . import frames

    attrs.update(frames.PANDAS)
    attrs.update(extra or {})
    return Shim("pandas", attrs, _pd, {"NaT", "NA", "Timestamp"})
