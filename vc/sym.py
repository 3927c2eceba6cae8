"""Symbolic values and path exploration.

The real source of the package is executed by CPython on these values.  A
branch on a symbolic boolean forks the path (by re-execution with a decision
prefix); every path is explored.
"""

import numbers
import sys
from fractions import Fraction

import numpy as _np

from . import terms as T


class Unsupported(Exception):
    """The executed code left the subset the verifier reasons about."""


class Infeasible(Exception):
    """The current path contradicts the precondition."""


class NeedLoopInfo(Exception):
    """Restart the path with knowledge about a loop's stored arrays."""


class PathState:
    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = list(prefix)
        self.pos = 0
        self.pc = []
        self.decisions = []
        self.warnings = []
        self.printed = []
        self.files = {}
        self.counter = {}
        self.loops = []
        self.arrays = 0
        self.loopcount = {}
        self.compkey = None
        self.lastloop = None
        self.carried = {}
        self.lsq_depth = 0
        self.notes = set()

    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    def assume(self, t):
        if t is T.FALSE:
            raise Infeasible()
        if t is not T.TRUE:
            for q in t.args if t.op == "and" else (t,):
                if q not in self.pc:
                    self.pc.append(q)

    def pick(self, n, label=None):
        """A harness-level choice between n alternatives (not in the pc)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            self.prefix.append(0)
        self.pos += 1
        self.decisions.append((d, n))
        return d

    def decide(self, t):
        if t is T.TRUE:
            return True
        if t is T.FALSE:
            return False
        if t in self.pc:
            return True
        if T.lnot(t) in self.pc:
            return False
        m = {}
        for h in self.pc:
            if h.op == "not":
                m[h.args[0]] = T.FALSE
            else:
                m[h] = T.TRUE
        t2 = T.subst(t, m) if m else t
        if t2 is T.TRUE:
            return True
        if t2 is T.FALSE:
            return False
        pr = self.ex.prover
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d == "T" or d == "F":
                self.pos += 1
                self.decisions.append((d, 1))
                v = d == "T"
                self.assume(t if v else T.lnot(t))
                return v
        else:
            can_f = not pr.infeasible(self.pc, T.lnot(t))
            can_t = not pr.infeasible(self.pc, t)
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                d = 0
            else:
                d = "T" if can_t else "F"
            self.prefix.append(d)
            if d in ("T", "F"):
                self.pos += 1
                self.decisions.append((d, 1))
                v = d == "T"
                self.assume(t if v else T.lnot(t))
                return v
        self.pos += 1
        self.decisions.append((d, 2))
        if d == 0:
            self.assume(t)
            return True
        self.assume(T.lnot(t))
        return False


P = None  # current PathState


def cur():
    if P is None:
        raise Unsupported("symbolic value used outside a path")
    return P


class Explorer:
    def __init__(self, prover, max_paths=3000, deadline=None):
        self.prover = prover
        self.max_paths = max_paths
        self.loopinfo = {}
        self.searchinfo = {}
        self.carryinfo = {}
        self.scaninfo = {}
        self.deadline = deadline
        self.npaths = 0

    def run(self, fn):
        """Call fn() once per path; fn is expected to record its own results."""
        import time

        global P
        prefix = []
        n = 0
        while True:
            P = PathState(self, prefix)
            try:
                fn()
                self.npaths += 1
            except Infeasible:
                pass
            except NeedLoopInfo:
                prefix = [d for d in P.prefix[: P.pos]]
                P = None
                continue
            finally:
                st, P = P, None
            n += 1
            if n > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for path exploration used up")
            # next prefix
            dec = st.decisions
            k = len(dec) - 1
            while k >= 0 and (dec[k][0] in ("T", "F") or dec[k][0] + 1 >= dec[k][1]):
                k -= 1
            if k < 0:
                return n
            prefix = [d for d, _ in dec[:k]] + [dec[k][0] + 1]


# ------------------------------------------------------------------ scalars


# floats that stand for well-known irrational numbers
SPECIAL = {
    2.302585092994046: T.LN10,
    -2.302585092994046: T.neg(T.LN10),
    0.4342944819032518: T.div(T.ONE, T.LN10),
    -0.4342944819032518: T.neg(T.div(T.ONE, T.LN10)),
}


def term_of(x):
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return T.ite(x.t, T.ONE, T.ZERO)
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return T.num(int(x), "I")
    if isinstance(x, (int, _np.integer)):
        return T.num(int(x), "I")
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        if f != f:
            return T.ZERO
        if f in (float("inf"), float("-inf")):
            raise Unsupported("infinity")
        if f in SPECIAL:
            return SPECIAL[f]
        return T.num(f)
    if isinstance(x, Fraction):
        return T.num(x)
    if isinstance(x, SVec) and len(x.items) == 1:
        return term_of(x.items[0])
    if isinstance(x, _np.ndarray) and x.size == 1:
        return term_of(x.reshape(-1)[0])
    raise Unsupported(f"not a number: {type(x).__name__}")


def nan_of(x):
    if isinstance(x, SNum):
        return x.nan
    if isinstance(x, SVec) and len(x.items) == 1:
        return nan_of(x.items[0])
    if isinstance(x, (float, _np.floating)):
        return T.TRUE if x != x else T.FALSE
    return T.FALSE


def is_scalar(x):
    return isinstance(
        x, (SNum, SBool, bool, int, float, _np.integer, _np.floating, _np.bool_, Fraction)
    )


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return T.TRUE if x else T.FALSE
    if isinstance(x, SNum):
        return T.lnot(T.eq(x.t, T.num(0, x.t.sort)))
    if isinstance(x, (int, float)):
        return T.TRUE if x else T.FALSE
    raise Unsupported(f"not a boolean: {type(x).__name__}")


def mk(t, nan=T.FALSE):
    if t.sort == "B":
        return SBool(t)
    return SNum(t, nan)


def arith(op, a, b):
    """Binary arithmetic on terms."""
    if op == "add":
        return T.add(a, b)
    if op == "sub":
        return T.sub(a, b)
    if op == "mul":
        return T.mul(a, b)
    if op == "div":
        return T.div(a, b)
    if op == "pow":
        if a.sort == "I" and b.sort == "I" and T.is_num(b) and T.val(b) >= 0:
            r = T.num(1, "I")
            for _ in range(int(T.val(b))):
                r = T.mul(r, a)
            return r
        return T.power(a, b)
    if op in ("floordiv", "mod"):
        if T.is_num(a) and T.is_num(b) and T.val(b) != 0:
            q = T.val(a) // T.val(b)
            return T.num(q if op == "floordiv" else T.val(a) - q * T.val(b), a.sort)
        if T.is_num(b) and T.val(b) == 1 and (a.sort == "I" or a.op == "toreal"):
            return a if op == "floordiv" else T.num(0, a.sort)
        s = "I" if a.sort == b.sort == "I" else "R"
        if s == "R":
            a, b = T.toreal(a), T.toreal(b)
        return T.app("floor_div" if op == "floordiv" else "floor_mod", (a, b), s)
    raise Unsupported(op)


CMP = {
    "lt": T.lt,
    "le": T.le,
    "gt": T.gt,
    "ge": T.ge,
    "eq": T.eq,
    "ne": lambda a, b: T.lnot(T.eq(a, b)),
}


def binop(op, x, y):
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        raise TypeError(f"unsupported operand type(s) for {op}")
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(y, _np.ndarray) and y.ndim == 0:
        y = y.item()
    if isinstance(x, _np.ndarray):
        x = SVec.of(x)
    if isinstance(y, _np.ndarray):
        y = SVec.of(y)
    if isinstance(x, (list, tuple)) and isinstance(y, (SArr, SVec)):
        x = SVec(list(x))
    if isinstance(y, (list, tuple)) and isinstance(x, (SArr, SVec)):
        y = SVec(list(y))
    if isinstance(x, SArr) or isinstance(y, SArr):
        sp = None
        for v in (x, y):
            if isinstance(v, SArr):
                if sp is None:
                    sp = v.space
                elif sp is not v.space:
                    sp = Space.unify(sp, v.space)
            elif isinstance(v, SVec):
                if len(v.items) != 1:
                    raise Unsupported("array/vector broadcasting")
            elif not is_scalar(v):
                raise Unsupported(f"array op with {type(v).__name__}")
        a, na = elem_of(x)
        b, nb = elem_of(y)
        t, n = scalar_op(op, a, na, b, nb)
        cls = type(x) if isinstance(x, SArr) and type(x) is not SArr else type(y) if isinstance(y, SArr) else SArr
        r = cls.make(sp, t, n)
        if intlike(x) and intlike(y):
            if op == "pow" and not (isinstance(y, int) and y >= 0):
                if isinstance(x, int) and isinstance(y, SArr) and not cur().decide(SArr(sp, T.lnot(T.lt(y.elem, T.num(0, y.elem.sort)))).reduce("all").t):
                    raise ValueError("Integers to negative integer powers are not allowed.")
            r.isint = op in ("add", "sub", "mul", "pow") and r.elem.sort != "B"
        return r
    if isinstance(x, SVec) or isinstance(y, SVec):
        xs = x.items if isinstance(x, SVec) else None
        ys = y.items if isinstance(y, SVec) else None
        n = max(len(v) for v in (xs, ys) if v is not None)
        if xs is None:
            xs = [x] * n
        if ys is None:
            ys = [y] * n
        if len(xs) == 1:
            xs = xs * n
        if len(ys) == 1:
            ys = ys * n
        if len(xs) != len(ys):
            raise ValueError("operands could not be broadcast together")
        return SVec([binop(op, a, b) for a, b in zip(xs, ys)])
    if not (is_scalar(x) and is_scalar(y)):
        return NotImplemented
    if op in ("and", "or", "xor"):
        a, b = bterm(x), bterm(y)
        return SBool(_bool2(op, a, b))
    t, n = scalar_op(op, num_or_bool(x), nan_of(x), num_or_bool(y), nan_of(y))
    return mk(t, n)


def num_or_bool(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return T.TRUE if x else T.FALSE
    return term_of(x)


def _bool2(op, a, b):
    if op == "and":
        return T.land(a, b)
    if op == "or":
        return T.lor(a, b)
    return T.lnot(T.iff(a, b))


def scalar_op(op, a, na, b, nb):
    """Returns (term, nan)."""
    if op in ("and", "or", "xor"):
        return _bool2(op, a, b), T.FALSE
    if a.sort == "B" and b.sort == "B" and op in ("eq", "ne"):
        t = T.iff(a, b)
        return (t if op == "eq" else T.lnot(t)), T.FALSE
    if a.sort == "B":
        if op == "mul":
            return T.ite(a, b, T.num(0, b.sort)) if b.sort != "B" else T.land(a, b), nb
        a = T.ite(a, T.num(1, "I"), T.num(0, "I"))
    if b.sort == "B":
        if op == "mul":
            return T.ite(b, a, T.num(0, a.sort)), na
        b = T.ite(b, T.num(1, "I"), T.num(0, "I"))
    if op in CMP:
        t = CMP[op](a, b)
        nn = T.lor(na, nb)
        if op == "ne":
            return T.lor(t, nn), T.FALSE
        return T.land(t, T.lnot(nn)), T.FALSE
    return arith(op, a, b), T.lor(na, nb)


class _Ops:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __add__(self, o):
        return binop("add", self, o)

    def __radd__(self, o):
        return binop("add", o, self)

    def __sub__(self, o):
        return binop("sub", self, o)

    def __rsub__(self, o):
        return binop("sub", o, self)

    def __mul__(self, o):
        return binop("mul", self, o)

    def __rmul__(self, o):
        return binop("mul", o, self)

    def __truediv__(self, o):
        return binop("div", self, o)

    def __rtruediv__(self, o):
        return binop("div", o, self)

    def __pow__(self, o):
        return binop("pow", self, o)

    def __rpow__(self, o):
        return binop("pow", o, self)

    def __floordiv__(self, o):
        return binop("floordiv", self, o)

    def __mod__(self, o):
        return binop("mod", self, o)

    def __neg__(self):
        return binop("mul", -1, self)

    def __pos__(self):
        return self

    def __lt__(self, o):
        return binop("lt", self, o)

    def __le__(self, o):
        return binop("le", self, o)

    def __gt__(self, o):
        return binop("gt", self, o)

    def __ge__(self, o):
        return binop("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return binop("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return binop("ne", self, o)

    def __and__(self, o):
        return binop("and", self, o)

    def __rand__(self, o):
        return binop("and", o, self)

    def __or__(self, o):
        return binop("or", self, o)

    def __ror__(self, o):
        return binop("or", o, self)

    def __xor__(self, o):
        return binop("xor", self, o)

    def __hash__(self):
        return id(self)


class SNum(_Ops):
    __slots__ = ("t", "nan")

    def __init__(self, t, nan=T.FALSE):
        self.t, self.nan = t, nan

    def __repr__(self):
        return f"<{self.t}>"

    def __bool__(self):
        return cur().decide(T.lor(T.lnot(T.eq(self.t, T.num(0, self.t.sort))), self.nan))

    def __format__(self, spec):
        return format_token(self, spec)

    def __str__(self):
        return format_token(self, "")

    def __abs__(self):
        return SNum(T.ite(T.lt(self.t, T.num(0, self.t.sort)), T.neg(self.t), self.t), self.nan)

    def __index__(self):
        if T.is_num(self.t) and self.t.sort == "I":
            return int(T.val(self.t))
        raise Unsupported("symbolic index used by native code")

    def __int__(self):
        if T.is_num(self.t):
            return int(T.val(self.t))
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        if T.is_num(self.t) and self.nan is T.FALSE:
            return float(T.val(self.t))
        raise Unsupported("float() of a symbolic value in native code")

    def is_integer(self):
        if self.t.sort == "I" or self.t.op == "toreal":
            return True
        raise Unsupported("is_integer of a symbolic real")

    def __round__(self, n=None):
        raise Unsupported("round")

    def __getitem__(self, key):
        if key == ():
            return self
        raise IndexError("invalid index to scalar variable.")

    # numpy scalar look-alikes
    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dtype):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SBool(_Ops):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<bool {self.t}>"

    def __bool__(self):
        return cur().decide(self.t)

    def __invert__(self):
        return SBool(T.lnot(self.t))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


FORMATS = {}


def format_token(x, spec):
    """Text standing for a formatted number: one per value and format."""
    key = (x.t.id, x.nan.id, spec)
    tok = _TOKENS.get(key)
    if tok is None:
        tok = _TOKENS[key] = f"\u27e6{len(FORMATS)}\u27e7"
        FORMATS[tok] = (x, spec)
    return tok


_TOKENS = {}


class SVec(_Ops):
    """A one-dimensional array of fixed, known length."""

    def __init__(self, items):
        self.items = list(items)

    @staticmethod
    def of(a):
        if a.ndim != 1:
            raise Unsupported("multi-dimensional array")
        return SVec([v.item() if hasattr(v, "item") else v for v in a])

    def __repr__(self):
        return f"<vec {self.items}>"

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SVec(self.items[k])
        if isinstance(k, SNum):
            k = k.__index__()
        if isinstance(k, (int, _np.integer)):
            return self.items[k]
        if isinstance(k, SVec):
            return SVec([v for v, m in zip(self.items, k.items) if m])
        raise Unsupported("vector index")

    def __setitem__(self, k, v):
        if isinstance(v, (SVec, SArr, _np.ndarray, list)):
            raise ValueError("setting an array element with a sequence.")
        self.items[k] = v

    def __bool__(self):
        if len(self.items) == 1:
            return bool(self.items[0])
        raise ValueError("The truth value of an array is ambiguous")

    def __invert__(self):
        return SVec([~v if isinstance(v, SBool) else not v for v in self.items])

    @property
    def size(self):
        return len(self.items)

    @property
    def shape(self):
        return (len(self.items),)

    @property
    def ndim(self):
        return 1

    def copy(self):
        return SVec(self.items)

    def item(self):
        if len(self.items) != 1:
            raise ValueError("can only convert an array of size 1")
        return self.items[0]

    def sum(self):
        return sum(self.items)

    def mean(self):
        return sum(self.items) / len(self.items)


# ------------------------------------------------------------------- arrays


class Space:
    """Index space of symbolic arrays: { ix | 0 <= ix < n, mask(ix) }."""

    _all = {}

    def __init__(self, n, mask):
        self.n, self.mask = n, mask

    @staticmethod
    def get(n, mask=T.TRUE):
        k = (n.id, mask.id)
        s = Space._all.get(k)
        if s is None:
            s = Space._all[k] = Space(n, mask)
        return s

    @staticmethod
    def unify(a, b):
        if a is b:
            return a
        pr = cur().ex.prover
        hy = [h for h in cur().pc if "ix" not in T.free(h)]
        if a.n is not b.n:
            v = pr.prove(hy, T.eq(a.n, b.n), count=False, deep=False)
            if v.status != "proved":
                # array of length 1 broadcasting etc. is outside the subset
                raise Unsupported("arrays over different index spaces")
        if a.mask is not b.mask:
            v = pr.prove(hy + [T.lt(T.IX, a.n)], T.iff(a.mask, b.mask), count=False, deep=False)
            if v.status != "proved":
                raise Unsupported("arrays over different selections")
        return a

    def filter(self, m):
        return Space.get(self.n, T.land(self.mask, m))

    @property
    def inside(self):
        return T.land(T.lt(T.IX, self.n), T.le(T.IZERO, T.IX), self.mask)

    def size(self):
        if self.mask is T.TRUE:
            return SNum(self.n)
        return SNum(T.bind("count", ("ix",), (self.mask, self.n), "I"))


def elem_of(x):
    if isinstance(x, SArr):
        return x.elem, x.nan
    if isinstance(x, SVec):
        return elem_of(x.items[0])
    return num_or_bool(x), nan_of(x)


def at(term, idx):
    """Instantiate the generic index of an element term."""
    return T.subst(term, {T.IX: idx})


def dtype_name(d):
    n = getattr(d, "__name__", None) or str(d)
    n = {"_FloatProxy": "float", "_IntProxy": "int"}.get(n, n).strip("_")
    return {"float64": "float", "double": "float", "int64": "int", "<f8": "float"}.get(n, n)


class LoopFrame:
    def __init__(self, key, idx, info):
        self.key, self.idx, self.info = key, idx, info
        self.stores = []
        self.reads = []
        self.recs = []


def intlike(v):
    """Of an integer dtype (an array known to be, or a plain int)."""
    if isinstance(v, SArr):
        return v.isint
    if isinstance(v, SNum):
        return v.t.sort == "I"
    return isinstance(v, (int, _np.integer)) and not isinstance(v, bool)


def truncated(a, e, n, v):
    """What storing v into an array of a's dtype keeps of it."""
    if not a.isint or intlike(v) or e.sort != "R" or e is a.elem:
        return e
    if n is not T.FALSE:
        if n is T.TRUE:
            raise ValueError("cannot convert float NaN to integer")
        raise Unsupported("possibly missing value in an integer array")
    if e.op == "app" and a.elem.op == "app" and e.args[0] == a.elem.args[0]:
        return e  # another element of the same array
    if T.is_num(e) and T.val(e) == int(T.val(e)):
        return e
    return T.app("trunc", (e,), "R")


class SArr(_Ops):
    """A one-dimensional array known through its generic element."""

    isint = False  # an integer dtype (elements are reals all the same)

    def __init__(self, space, elem, nan=T.FALSE, aid=None):
        self.space, self.elem, self.nan = space, elem, nan
        p = cur()
        p.arrays += 1
        self.aid = p.arrays
        self.rec = None

    def __repr__(self):
        return f"<arr {self.elem} | {self.space.mask}>"

    def __bool__(self):
        raise ValueError("The truth value of an array is ambiguous")

    def __len__(self):
        raise Unsupported("native len() of a symbolic array")

    def __iter__(self):
        return generic_iter([self])

    def __invert__(self):
        if self.elem.sort != "B":
            raise TypeError("ufunc 'invert' not supported")
        return self.make(self.space, T.lnot(self.elem))

    def __abs__(self):
        return self.map(lambda t: T.ite(T.lt(t, T.num(0, t.sort)), T.neg(t), t))

    def map(self, f):
        return self.make(self.space, f(self.elem), self.nan)

    def copy(self, deep=True):
        return self._as(self.make(self.space, self.elem, self.nan))

    def _as(self, r):
        """r, of the same dtype as this."""
        if self.isint:
            r.isint = True
        return r

    @classmethod
    def make(cls, space, elem, nan=T.FALSE):
        """Result of an element-wise operation, of the same kind."""
        return cls(space, elem, nan)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, **k):
        name = dtype_name(dtype)
        if name == "int" and self.isint:
            return self.copy()
        if name == "float" and self.elem.sort != "B":
            return self.make(self.space, T.toreal(self.elem), self.nan)
        if name == "float":
            return self.make(self.space, T.ite(self.elem, T.ONE, T.ZERO), self.nan)
        if name == "bool" and self.elem.sort == "B":
            return self.copy()
        if name == "int" and self.elem.sort == "I":
            return self.copy()
        raise Unsupported("astype " + name)

    def flatten(self):
        return self.copy()

    ravel = flatten

    def to_numpy(self):
        return self

    @property
    def values(self):
        return self

    @property
    def T(self):
        return self

    @property
    def size(self):
        return self.space.size()

    @property
    def shape(self):
        return (self.space.size(),)

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return _np.dtype("bool" if self.elem.sort == "B" else "int64" if self.isint else "float64")

    # -- indexing
    def scalar_index(self, k):
        if isinstance(k, (int, _np.integer)):
            kt = T.num(int(k), "I")
            if k < 0:
                kt = None
        else:
            kt = k.t
        sp = self.space
        if sp.mask is T.TRUE:
            if kt is None:
                kt = T.add(sp.n, T.num(int(k), "I"))
            return kt
        if kt is not None and T.is_num(kt) and T.val(kt) == 0:
            return self.pick("first")
        if kt is None and k == -1:
            return self.pick("last")
        raise Unsupported("index into a filtered array")

    def pick(self, which):
        sp = self.space
        b = T.bind(which, ("ix",), (sp.mask, sp.n), "I")
        p = cur()
        p.assume(T.lt(b, sp.n))
        p.assume(at(sp.mask, b))
        p.assume(SArr(Space.get(sp.n), sp.mask)._any(sp.mask))
        if which == "first":
            p.assume(T.implies(T.land(T.lt(T.IX, b)), T.lnot(sp.mask)))
        else:
            p.assume(T.implies(T.land(T.lt(b, T.IX), T.lt(T.IX, sp.n)), T.lnot(sp.mask)))
        return b

    def read(self, idx):
        for fr in reversed(cur().loops):
            if self.aid in fr.info:
                return loop_read(self, fr, idx)
        return mk(at(self.elem, idx), at(self.nan, idx))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, (SNum, int, _np.integer)) and not isinstance(k, bool):
            return self.read(self.scalar_index(k))
        if isinstance(k, SArr):
            if k.elem.sort == "B":
                sp = Space.unify(self.space, k.space)
                return self._as(self.make(sp.filter(k.elem), self.elem, self.nan))
            raise Unsupported("fancy indexing")
        if isinstance(k, slice):
            return self._as(self.slice(k))
        if isinstance(k, SIdx):
            sp = Space.unify(self.space, k.base)
            return self._as(self.make(sp.filter(k.mask), self.elem, self.nan))
        if k is Ellipsis:
            return self
        raise Unsupported(f"index {type(k).__name__}")

    def slice(self, s):
        if s.start is None and s.stop is None and s.step in (None, 1):
            return self.make(self.space, self.elem, self.nan)
        if self.space.mask is not T.TRUE:
            raise Unsupported("slice of a filtered array")
        n = self.space.n
        if s.step == -1 and s.start is None and s.stop is None:
            j = T.sub(T.sub(n, T.IONE), T.IX)
            return self.make(self.space, at(self.elem, j), at(self.nan, j))
        if s.step not in (None, 1):
            raise Unsupported("slice step")
        a = 0 if s.start is None else s.start
        if any(isinstance(v, SNum) for v in (a, s.stop)):
            # a computed bound: the same positions as a mask over this space
            return self.make(self.space.filter(self.slice_cond(s)), self.elem, self.nan)
        if a < 0:
            return self.make(self.space.filter(self.slice_cond(s)), self.elem, self.nan)
        at_ = T.num(a, "I")
        if s.stop is None:
            ln = T.sub(n, at_)
        elif isinstance(s.stop, int) and s.stop < 0:
            ln = T.add(T.sub(n, at_), T.num(s.stop, "I"))
        else:
            raise Unsupported("slice stop")
        j = T.add(at_, T.IX)
        return self.make(Space.get(ln), at(self.elem, j), at(self.nan, j))

    def __setitem__(self, k, v):
        if isinstance(v, (SVec, list, _np.ndarray)) and not isinstance(k, (SArr, slice)):
            raise ValueError("setting an array element with a sequence.")
        if isinstance(k, SArr) and k.elem.sort == "B":
            cond = k.elem
            Space.unify(self.space, k.space)
        elif isinstance(k, slice):
            cond = self.slice_cond(k)
        elif isinstance(k, (SNum, int, _np.integer)):
            idx = self.scalar_index(k)
            fr = cur().loops[-1] if cur().loops else None
            if fr is not None:
                if self.isint and not intlike(v):
                    raise Unsupported("store into an integer array in a loop")
                fr.stores.append((self, idx, v))
                return
            cond = T.eq(T.IX, idx)
        elif isinstance(k, SIdx):
            cond = k.mask
        else:
            raise Unsupported("store index")
        if cur().loops:
            raise Unsupported("vector store inside a loop of unknown length")
        if isinstance(v, SArr):
            if isinstance(k, (SNum, int, _np.integer)):
                raise ValueError("setting an array element with a sequence.")
            if v.space is not self.space and not (
                isinstance(k, (SArr, slice, SIdx)) and v.space is self.space.filter(cond)
            ):
                raise Unsupported("store of an array over another space")
        e, n = elem_of(v)
        if self.elem.sort == "B" and e.sort != "B":
            e = T.lnot(T.eq(e, T.num(0, e.sort)))
        if self.elem.sort != "B" and e.sort == "B":
            e = T.ite(e, T.ONE, T.ZERO)
        e = truncated(self, e, n, v)
        self.elem = T.ite(cond, e, self.elem)
        self.nan = T.ite(cond, n, self.nan)

    def slice_cond(self, s):
        if self.space.mask is not T.TRUE:
            raise Unsupported("slice store into a filtered array")
        if s.step not in (None, 1):
            raise Unsupported("slice step")
        c = T.TRUE
        n = self.space.n

        def idx(v):
            if isinstance(v, SNum):
                if v.t.sort != "I":
                    raise TypeError("slice indices must be integers")
                return v.t if cur().decide(T.le(T.IZERO, v.t)) else T.add(n, v.t)
            return T.num(v, "I") if v >= 0 else T.add(n, T.num(v, "I"))

        if s.start is not None:
            c = T.land(c, T.le(idx(s.start), T.IX))
        if s.stop is not None:
            c = T.land(c, T.lt(T.IX, idx(s.stop)))
        return c

    # in-place arithmetic really mutates (aliasing matters)
    def _ip(self, op, o):
        r = binop(op, self, o)
        if r.space is not self.space:
            raise Unsupported("in-place broadcasting")
        if self.isint and not r.isint:
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        self.elem, self.nan = r.elem, r.nan
        return self

    def __iadd__(self, o):
        return self._ip("add", o)

    def __isub__(self, o):
        return self._ip("sub", o)

    def __imul__(self, o):
        return self._ip("mul", o)

    def __itruediv__(self, o):
        return self._ip("div", o)

    def __iand__(self, o):
        return self._ip("and", o)

    def __ior__(self, o):
        return self._ip("or", o)

    # -- reductions
    def reduce(self, kind, sort="R", extra=()):
        sp = self.space
        e = self.elem
        if kind in ("any", "all"):
            e = e if e.sort == "B" else T.lnot(T.eq(e, T.num(0, e.sort)))
            if kind == "all":
                return SBool(T.lnot(self._any(T.lnot(e))))
            return SBool(self._any(e))
        if e.sort == "B":
            if kind == "sum":
                m = T.land(sp.mask, e)
                if m is T.TRUE:
                    return SNum(sp.n)
                if m is T.FALSE:
                    return SNum(T.IZERO)
                return SNum(T.bind("count", ("ix",), (m, sp.n), "I"))
            e = T.ite(e, T.ONE, T.ZERO)
        e = T.toreal(e)
        if kind in ("mean", "max", "min", "median") and "ix" not in T.free(e):
            return SNum(e, self._anynan())
        b = T.bind(kind, ("ix",), (e, sp.mask, sp.n), sort)
        if kind == "max":
            cur().assume(T.implies(sp.inside, T.le(e, b)))
        elif kind == "min":
            cur().assume(T.implies(sp.inside, T.le(b, e)))
        return SNum(b, self._anynan())

    def _any(self, e):
        """exists ix in the space: e(ix); distributed over disjunctions."""
        sp = self.space
        if e is T.FALSE:
            return T.FALSE
        if "ix" not in T.free(e):
            return e  # non-empty arrays
        if e.op == "or":
            return T.lor(*[self._any(x) for x in e.args])
        if e.op == "and":
            out = [x for x in e.args if "ix" not in T.free(x)]
            if out:
                return T.land(*out, self._any(T.land(*[x for x in e.args if x not in out])))
        if e.op == "not" and e.args[0].op == "and":
            return T.lor(*[self._any(T.lnot(x)) for x in e.args[0].args])
        b = T.bind("any", ("ix",), (e, sp.mask, sp.n), "B")
        cur().assume(T.implies(T.land(sp.inside, e), b))
        return b

    def _anynan(self):
        n = T.land(self.space.mask, self.nan)
        if n is T.FALSE:
            return T.FALSE
        return T.bind("any", ("ix",), (self.nan, self.space.mask, self.space.n), "B")

    def sum(self, axis=None, **k):
        _only(k)
        return self.reduce("sum")

    def mean(self, axis=None, **k):
        _only(k)
        return self.reduce("mean")

    def std(self, axis=None, ddof=0, **k):
        _only(k)
        if ddof not in (0, 1):
            raise Unsupported("ddof")
        return self.reduce("std" if ddof == 0 else "std1")

    def var(self, ddof=0):
        s = self.std(ddof=ddof)
        return s * s

    def max(self, axis=None):
        return self.reduce("max")

    def min(self, axis=None):
        return self.reduce("min")

    def any(self, axis=None):
        return self.reduce("any")

    def all(self, axis=None):
        return self.reduce("all")

    def argmax(self):
        if self.elem.sort == "B" and self.space.mask is T.TRUE:
            return SNum(SArr(self.space.filter(self.elem), T.IX).pick("first"))
        raise Unsupported("argmax")

    def nonzero(self):
        if self.elem.sort != "B":
            raise Unsupported("nonzero of numbers")
        return (SIdx(self.space, self.elem),)


def _only(k):
    if any(v is not None for v in k.values()):
        raise Unsupported(f"keywords {list(k)}")


class SIdx:
    """np.nonzero(mask)[0]: the increasing array of selected positions."""

    def __init__(self, base, mask):
        if base.mask is not T.TRUE:
            raise Unsupported("nonzero of a filtered array")
        self.base, self.mask = base, mask
        self.arr = SArr(base.filter(mask), T.IX)

    def __getitem__(self, k):
        if isinstance(k, int) and k == 0:
            return SNum(self.arr.pick("first"))
        if isinstance(k, int) and k == -1:
            return SNum(self.arr.pick("last"))
        raise Unsupported("index of nonzero()")

    @property
    def size(self):
        return self.arr.size

    def min(self):
        return self[0]

    def max(self):
        return self[-1]


# -------------------------------------------------------------------- loops

LOOPS = {}  # (filename, lineno) -> names carried from iteration to iteration
LEFT = {}  # the same, less what instrument.py takes care of


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        fr = sys._getframe(1)

        def make(i):
            return SNum(i)

        lo = term_of(self.lo)
        yield from run_generic(make, fr, lambda i: T.land(T.le(lo, i), T.lt(i, term_of(self.hi))), (self.lo, self.hi), self.hi)


class SIter:
    """zip or enumerate of symbolic arrays, or one of them."""

    def __init__(self, make, bound):
        self.make, self.bound = make, bound

    def __iter__(self):
        fr = sys._getframe(1)
        while fr is not None and fr.f_code.co_filename == __file__:
            fr = fr.f_back
        return run_generic(self.make, fr, lambda i: T.lt(i, self.bound), (0, SNum(self.bound)), SNum(self.bound))


def generic_iter(arrs, enum=None):
    """Iterate a generic element of one or more equally long arrays."""
    sp = arrs[0].space
    for a in arrs[1:]:
        sp = Space.unify(sp, a.space)
    if sp.mask is not T.TRUE:
        raise Unsupported("iteration over a filtered array")

    def make(i):
        items = [a.read(i) for a in arrs]
        item = items[0] if len(items) == 1 and enum is None else tuple(items)
        if enum is not None:
            item = (SNum(T.add(i, T.num(enum, "I"))), items[0] if len(items) == 1 else tuple(items))
        return item

    return SIter(make, sp.n)


class _Found(Exception):
    pass


def run_generic(make, frame, guard, bounds, hi):
    p = cur()
    key0 = p.compkey
    p.compkey = None
    if key0 is None:
        key0 = (frame.f_code.co_filename, frame.f_lineno)
        left = LEFT.get(key0)
        if left is None:
            raise Unsupported("iteration outside a known for loop")
        if left:
            raise Unsupported("loop carries locals: " + ", ".join(sorted(left)))
    if p.loops:
        raise Unsupported("nested loops of unknown length")
    k = p.loopcount.get(key0, 0)
    p.loopcount[key0] = k + 1
    key = key0 + (k,)
    info = p.ex.loopinfo.get(key, frozenset())
    fr = LoopFrame(key, T.var("li", "I", "0+"), info)
    fr.bounds = bounds
    fr.lo, fr.hi = (term_of(b) for b in bounds)
    fr.carry = {}
    fr.found = None
    p.loops.append(fr)
    npc = len(p.pc)
    srch = p.ex.searchinfo.get(key)
    if srch is not None:
        # a search: the first index that passes the test, if there is one
        sp = Space.get(fr.hi).filter(T.land(T.le(fr.lo, T.IX), srch))
        fr.first = T.bind("first", ("ix",), (sp.mask, sp.n), "I")
        fr.space = sp
        try:
            yield make(fr.first)
        finally:
            if p.loops and p.loops[-1] is fr:
                p.loops.pop()
        if fr.found is None:
            raise Unsupported("a search loop that does not reach its test")
        return
    p.pc.append(guard(fr.idx))
    ndec = p.pos
    held = containers(frame)
    yield make(fr.idx)
    p.loops.pop()
    if p.pos != ndec:
        raise Unsupported("branch on symbolic data inside a loop of unknown length")
    del p.pc[npc:]
    stored = frozenset(a.aid for a, _, _ in fr.stores)
    if stored != info:
        p.ex.loopinfo[key] = stored
        raise NeedLoopInfo()
    finish_carry(fr)
    finish_loop(fr)
    finish_containers(fr, held)
    p.lastloop = fr
    if getattr(fr, "effects", None):
        from . import textio

        textio.flush_effects(fr, bounds)


def search_test(fr, test, left):
    """The test of a search loop."""
    p = cur()
    if isinstance(test, (bool, _np.bool_)):
        raise Unsupported("a search loop with a concrete test")
    c = bterm(test)
    if fr.stores or getattr(fr, "effects", None):
        raise Unsupported("a search loop that stores")
    if p.ex.searchinfo.get(fr.key) is None:
        p.ex.searchinfo[fr.key] = T.subst(c, {fr.idx: T.IX})
        raise NeedLoopInfo()
    want = p.ex.searchinfo[fr.key]
    if at(want, fr.first) is not c:
        raise Unsupported("a search whose test depends on the path")
    fr.found = False
    sp = fr.space
    if not p.decide(SArr(Space.get(sp.n), sp.mask)._any(sp.mask)):
        p.assume(T.implies(T.lt(T.IX, sp.n), T.lnot(sp.mask)))
        if left:
            raise Unsupported("values left behind by a search: " + left)
        return False
    SArr(sp, T.IX).pick("first")
    fr.found = True
    p.loops.pop()
    return True


def carry_in(fr, name, get):
    """The value of a carried local at the start of the generic iteration."""
    try:
        v = get()
    except NameError:
        raise Unsupported("a carried local without a value before the loop")
    if isinstance(v, (SNum, int, float, _np.number)) and not isinstance(v, (bool, _np.bool_)):
        if nan_of(v) is not T.FALSE:
            raise Unsupported("a carried local that may be NaN")
        init = term_of(v)
        step = cur().ex.carryinfo.get((fr.key, name))
        off = T.sub(fr.idx, fr.lo) if not _zero(fr.lo) else fr.idx
        if step == "real":
            init, step = T.toreal(init), None
        if step is not None:
            w = T.add(init, T.mul(T.num(step, init.sort), off if init.sort == "I" else T.toreal(off)))
        else:
            w = T.app(f"rec:{fr.key[1]}:{fr.key[2]}:local:{name}", (off,), init.sort)
        fr.carry[name] = [init, w, step, None]
        return SNum(w)
    fr.carry[name] = [None, v, None, None]
    return v


def _zero(t):
    return T.is_num(t) and T.val(t) == 0


def carry_end(fr, name, v):
    fr.carry[name][3] = v


def finish_carry(fr):
    p = cur()
    out = {}
    if not fr.carry:
        return
    for name, (init, w, step, v) in fr.carry.items():
        if init is None:
            if v is not w:
                raise Unsupported("loop carries locals: " + name)
            out[name] = v
            continue
        if not isinstance(v, (SNum, int, float, _np.number)) or isinstance(v, (bool, _np.bool_)) or nan_of(v) is not T.FALSE:
            raise Unsupported("loop carries locals: " + name)
        e = term_of(v)
        if e.sort == "I" and init.sort == "R":
            e = T.toreal(e)
        if e.sort != init.sort:
            p.ex.carryinfo[(fr.key, name)] = "real"
            raise NeedLoopInfo()
        d = int_offset(e, w)
        if d is None and e.op == "add" and T.is_num(e.args[0]) and e.args[1] is w:
            d = T.val(e.args[0])
        if step is None and d is not None:
            p.ex.carryinfo[(fr.key, name)] = d
            raise NeedLoopInfo()
        if step is not None and d != step:
            raise Unsupported("a counter that changes its step")
        if not p.decide(T.le(fr.lo, fr.hi)):
            out[name] = SNum(init)
            continue
        m = T.sub(fr.hi, fr.lo) if not _zero(fr.lo) else fr.hi
        if step is not None:
            out[name] = SNum(T.add(init, T.mul(T.num(step, init.sort), m if init.sort == "I" else T.toreal(m))))
            continue
        rec = w.args[0]
        body = e if _zero(fr.lo) else T.subst(e, {fr.idx: T.add(fr.lo, fr.idx)})
        p.notes.add("recurrence")
        RECS[rec] = (init, fr.idx, body)
        fr.recs.append((rec, init, e, fr.lo))
        out[name] = SNum(T.app(rec, (m,), init.sort))
    p.carried[fr.key[:2]] = out


def int_offset(j, i):
    """d with j = i + d, if that is plain to see."""
    if j is i:
        return 0
    if j.op == "add" and T.is_num(j.args[0]) and j.args[1] is i:
        return T.val(j.args[0])
    if i.op == "add" and T.is_num(i.args[0]):
        d = int_offset(j, i.args[1])
        return None if d is None else d - T.val(i.args[0])
    return None


def loop_read(arr, fr, idx):
    """Read of a loop-written array inside the loop body."""
    for a, j, v in reversed(fr.stores):
        if a is arr:
            if j is idx or T.eq(j, idx) is T.TRUE:
                e, n = elem_of(v)
                return mk(T.toreal(e), n)
            d = int_offset(idx, j)
            if T.eq(j, idx) is not T.FALSE and not d:
                raise Unsupported("loop read may alias a store")
    if int_offset(idx, fr.idx) is None:
        raise Unsupported("loop reads another iteration's element")
    fr.reads.append((arr, idx))
    return SNum(rec_term(fr, arr, idx))


def rec_term(fr, arr, idx):
    return T.app(f"rec:{fr.key[1]}:{fr.key[2]}:{sorted(fr.info).index(arr.aid)}", (idx,), "R")


RECS = {}


def finish_loop(fr):
    """After the generic iteration: arrays become their defining recurrences."""
    by = {}
    for a, j, v in fr.stores:
        if a.aid in by:
            raise Unsupported("several stores to one array in a loop")
        by[a.aid] = (a, j, v)
    lo, hi = fr.lo, fr.hi
    p = cur()
    offs = {}
    for aid, (a, j, v) in by.items():
        offs[aid] = int_offset(j, fr.idx)
        if offs[aid] is None:
            raise Unsupported("loop store at an unusual index")
    for arr, idx in fr.reads:
        # the element the previous iteration stored, or one not yet stored
        if int_offset(idx, fr.idx) != offs[arr.aid] - 1:
            raise Unsupported("loop reads another iteration's element")
    mine = {rec_term(fr, a, T.IX).args[0] for a, _, _ in by.values()}
    for aid, (a, j, v) in by.items():
        e, n = elem_of(v)
        off = offs[aid]
        e = T.toreal(e)
        if a.elem.sort == "B":
            raise Unsupported("loop store into a boolean array")
        name = rec_term(fr, a, T.IX).args[0]
        uses_rec = any(f in mine for f in T.free(e)) or any(f in mine for f in T.free(n))
        first, end = (T.add(x, T.num(off, "I")) for x in (lo, hi))
        start = T.sub(first, T.IONE)
        fills = end is a.space.n or T.eq(end, a.space.n) is T.TRUE
        if not uses_rec and not (off == 1 and _zero(start) and fills and len(by) > 1):
            # element-wise map
            back = T.sub(T.IX, T.num(off, "I"))
            for rec, init, step, rlo in fr.recs:
                if step is e and n is T.FALSE:
                    # what a carried local becomes in this iteration
                    at_ = T.add(T.IONE, back if _zero(rlo) else T.sub(back, rlo))
                    cond = T.land(T.le(first, T.IX), T.lt(T.IX, end))
                    if T.is_num(start) and T.val(start) >= 0 and at(a.nan, start) is T.FALSE and at(a.elem, start) is T.toreal(init):
                        cond = T.land(T.le(start, T.IX), T.lt(T.IX, end))
                        if _zero(start) and fills:
                            cond = T.TRUE
                    a.elem = T.ite(cond, T.app(rec, (at_,), "R"), a.elem)
                    a.nan = T.ite(cond, T.FALSE, a.nan)
                    break
            else:
                cond = T.land(T.le(first, T.IX), T.lt(T.IX, end))
                a.elem = T.ite(cond, T.subst(e, {fr.idx: back}), a.elem)
                a.nan = T.ite(cond, T.subst(n, {fr.idx: back}), a.nan)
            continue
        if n is not T.FALSE:
            raise Unsupported("NaN in a loop store")
        if not _zero(start):
            raise Unsupported("loop recurrence shape")
        if not fills:
            raise Unsupported("loop does not fill the array")
        init, initnan = at(a.elem, T.IZERO), at(a.nan, T.IZERO)
        if initnan is not T.FALSE:
            raise Unsupported("recurrence starts from NaN")
        p.notes.add("recurrence")
        if off != 1:
            e = T.subst(e, {fr.idx: T.add(T.num(1 - off, "I"), fr.idx)})
        RECS[name] = (T.toreal(init), fr.idx, e)
        a.elem = T.app(name, (T.IX,), "R")
        a.nan = T.FALSE
        a.rec = name


# ---- lists a loop appends to


class Grown:
    """In a list: `items` once for every index of a loop, in order."""

    __issym__ = True

    def __init__(self, items, fr):
        self.items, self.fr = items, fr

    def __iter__(self):
        raise Unsupported("iteration over a list built in a loop")

    __len__ = __getitem__ = __contains__ = __iter__

    def array(self, before):
        if len(self.items) != 1 or len(before) > 1 or not _zero(self.fr.lo):
            raise Unsupported("array of this list")
        v = self.items[0]
        if not is_scalar(v) or not all(is_scalar(x) for x in before):
            raise Unsupported("array of this list")
        fr = self.fr
        e, n = elem_of(v)
        if not before:
            return SArr(Space.get(fr.hi), T.subst(e, {fr.idx: T.IX}), T.subst(n, {fr.idx: T.IX}))
        sp = Space.get(T.add(T.IONE, fr.hi))
        e0, n0 = elem_of(before[0])
        e, e0 = T.toreal(e), T.toreal(e0)
        for rec, init, step, _ in fr.recs:
            if T.toreal(step) is e and T.toreal(init) is e0:
                return SArr(sp, T.toreal(T.app(rec, (T.IX,), init.sort)))
        back = {fr.idx: T.sub(T.IX, T.IONE)}
        first = T.eq(T.IX, T.IZERO)
        return SArr(sp, T.ite(first, e0, T.subst(e, back)), T.ite(first, n0, T.subst(n, back)))


def ungrow(x):
    """A list with a repetition in it, as the array numpy makes of it."""
    if isinstance(x, list) and x and isinstance(x[-1], Grown):
        return x[-1].array(x[:-1])
    if isinstance(x, list) and len(x) == 1 and hasattr(x[0], "as_table"):
        return x[0].as_table()
    return x


def containers(frame):
    """The mutable containers the loop's function can reach."""
    out, seen = [], set()

    def add(v, depth):
        if id(v) in seen:
            return
        if type(v) is list:
            seen.add(id(v))
            out.append((v, list(v)))
        elif type(v) is dict:
            seen.add(id(v))
            out.append((v, dict(v)))
        elif type(v) is set:
            seen.add(id(v))
            out.append((v, set(v)))
        if depth and type(v) in (list, tuple):
            for x in v:
                add(x, depth - 1)
        elif depth and type(v) is dict:
            for x in v.values():
                add(x, depth - 1)
        elif depth and type(v).__module__.startswith("calkulate"):
            d = getattr(v, "__dict__", None)
            if isinstance(d, dict):
                add(d, depth)

    if frame is not None:
        for v in list(frame.f_locals.values()):
            add(v, 2)
    return out


def finish_containers(fr, held):
    for v, old in held:
        if type(v) is list:
            same = len(v) == len(old) and all(a is b for a, b in zip(v, old))
            if same:
                continue
            if len(v) > len(old) and all(a is b for a, b in zip(v, old)) and not any(isinstance(x, Grown) for x in v):
                v[:] = old + [Grown(v[len(old):], fr)]
                continue
            raise Unsupported("a loop that changes a list")
        elif type(v) is dict:
            if len(v) != len(old) or any(k not in old or old[k] is not x for k, x in v.items()):
                raise Unsupported("a loop that changes a dict")
        elif v != old:
            raise Unsupported("a loop that changes a set")


def generic_comp(key, it, one):
    p = cur()
    p.compkey = key
    out = []
    for x in iter(it):
        out.extend(one(x))
    return [Grown(out, p.lastloop)]


REPS = []


def join_grown(sep, x):
    """sep.join of a list whose last part is a repetition."""
    if not isinstance(x[-1], Grown) or any(isinstance(v, Grown) for v in x[:-1]):
        raise Unsupported("join of this list")
    g = x[-1]
    if not all(isinstance(v, str) for v in g.items) or not _zero(g.fr.lo):
        raise Unsupported("join of this list")
    if len(x) == 1 and sep:
        raise Unsupported("join of a repetition alone")
    REPS.append((sep + sep.join(g.items), g.fr))
    return sep.join(x[:-1]) + f"\u2983{len(REPS) - 1}\u2984"


def sym_range(*args):
    if any(isinstance(a, SNum) for a in args):
        if len(args) == 1:
            return SRange(0, args[0])
        if len(args) == 2:
            return SRange(args[0], args[1])
        raise Unsupported("range step")
    return range(*args)


def sym_len(x):
    x = ungrow(x)
    if isinstance(x, SArr):
        return x.space.size()
    if isinstance(x, SNum):
        raise TypeError("object of type 'float' has no len()")
    if hasattr(x, "__symlen__"):
        return x.__symlen__()
    return len(x)


def sym_zip(*a, **k):
    if any(hasattr(x, "__symzip__") for x in a):
        return next(x for x in a if hasattr(x, "__symzip__")).__symzip__(a)
    if any(isinstance(x, SArr) for x in a):
        if not all(isinstance(x, SArr) for x in a):
            raise Unsupported("zip of mixed iterables")
        return generic_iter(list(a), None) if len(a) > 1 else _single(a[0])
    return zip(*a, **k)


def _single(a):
    raise Unsupported("zip of one array")


def sym_enumerate(x, start=0):
    if hasattr(x, "__symzip__"):
        return x.__symzip__([None, x])
    if isinstance(x, SArr):
        return generic_iter([x], start)
    return enumerate(x, start)


def sym_isinstance(x, cls):
    if hasattr(x, "__symisinstance__"):
        return x.__symisinstance__(cls)
    cs = cls if isinstance(cls, tuple) else (cls,)
    if isinstance(x, SNum):
        for c in cs:
            if c in (float, numbers.Real, numbers.Number, _np.floating, _np.number, _np.float64, object):
                if x.t.sort == "R" or c in (numbers.Real, numbers.Number, _np.number, object):
                    return True
            if c in (int, numbers.Integral, _np.integer) and x.t.sort == "I":
                return True
        return any(isinstance(x, c) for c in cs if isinstance(c, type))
    if isinstance(x, SBool):
        return any(c in (bool, _np.bool_, int, object) for c in cs)
    if isinstance(x, (SArr, SVec)):
        return any(c in (_np.ndarray, object) for c in cs) or any(
            isinstance(x, c) for c in cs if isinstance(c, type)
        )
    return isinstance(x, cls)


def sym_float(x=0.0):
    if isinstance(x, SNum):
        return SNum(T.toreal(x.t), x.nan)
    if isinstance(x, SBool):
        return SNum(T.ite(x.t, T.ONE, T.ZERO))
    if isinstance(x, SVec) and len(x.items) == 1:
        return sym_float(x.items[0])
    if isinstance(x, str) and x.strip() in FORMATS:
        return parse_token(x.strip())
    return float(x)


def sym_int(x=0, *a):
    if isinstance(x, SNum):
        if x.t.sort == "I":
            return x
        if x.t.op == "toreal" and x.nan is T.FALSE:
            return SNum(x.t.args[0])
        raise Unsupported("int() of a symbolic real")
    return int(x, *a)


def parse_token(tok):
    x, spec = FORMATS[tok]
    if spec in ("", "r"):
        return x
    import re

    m = re.fullmatch(r"\d*\.(\d+)f", spec)
    if m:
        k = int(m.group(1))
        r = T.app(f"rounded{k}", (x.t,), "R")
        half = T.num(Fraction(1, 2 * 10**k))
        g = {T.var("li", "I", "0+"): T.IX}
        cur().assume(T.subst(T.le(T.sub(r, x.t), half), g))
        cur().assume(T.subst(T.le(T.sub(x.t, r), half), g))
        return SNum(r, x.nan)
    m = re.fullmatch(r"\d*\.(\d+)e", spec)
    if m:
        k = int(m.group(1))
        r = T.app(f"rounded_e{k}", (x.t,), "R")
        g = {T.var("li", "I", "0+"): T.IX}
        d = T.sub(r, x.t)
        half = T.mul(T.num(Fraction(1, 2 * 10**k)), T.ite(T.lt(x.t, T.ZERO), T.neg(x.t), x.t))
        cur().assume(T.subst(T.le(d, half), g))
        cur().assume(T.subst(T.le(T.neg(d), half), g))
        return SNum(r, x.nan)
    raise Unsupported("format " + spec)


def contains_sym(x, depth=0):
    if isinstance(x, (SNum, SBool, SArr, SVec, SIdx)):
        return True
    if hasattr(x, "__issym__"):
        return True
    if depth < 3:
        if isinstance(x, (list, tuple, set)):
            return any(contains_sym(v, depth + 1) for v in x)
        if isinstance(x, dict):
            return any(contains_sym(v, depth + 1) for v in x.values())
    return False
