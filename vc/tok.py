"""Uninterpreted values: results of stubbed calls and arbitrary settings.

Two tokens are equal exactly when they are the same function of the same
arguments (congruence); anything the code does with one other than passing
it on, reading a field or an item is outside the verifier's reach."""

from . import sym as S
from . import terms as T
from .sym import SArr, SBool, SNum, SVec, Unsupported

_table = {}


def key_of(v):
    if isinstance(v, Tok):
        return ("tok", v.key_id)
    if isinstance(v, SNum):
        return ("num", v.t.id, v.nan.id)
    if isinstance(v, SBool):
        return ("bool", v.t.id)
    if isinstance(v, SArr):
        sp = v.space
        return ("arr", v.elem.id, v.nan.id, sp.mask.id, sp.n.id)
    if isinstance(v, SVec):
        return ("vec",) + tuple(key_of(x) for x in v.items)
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((str(k), key_of(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("seq",) + tuple(key_of(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted(map(str, v)))
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ("lit", repr(v))
    if isinstance(v, (int, float)):
        return ("numlit", repr(float(v)))
    if hasattr(v, "_tok_key"):
        return v._tok_key()
    raise Unsupported(f"opaque call with a {type(v).__name__}")


class Tok:
    __issym__ = True

    def __init__(self, label, key, arity=None, fields=None):
        self.__dict__.update(_label=label, _key=key, _arity=arity, _fields_=fields)
        self.__dict__["key_id"] = _table.setdefault(key, len(_table))

    @staticmethod
    def value(name):
        """An arbitrary non-null value."""
        return Tok(name, ("value", name))

    @staticmethod
    def call(name, args, arity=None, fields=None):
        """args: dict of normalised arguments."""
        return Tok(name, ("call", name, key_of(args)), arity, fields)

    def __getattr__(self, k):
        if k == "_tok_key":
            raise AttributeError(k)
        if k.startswith("_"):
            raise AttributeError(k)
        if self._fields_ == "items":  # a dict whose items are attributes too
            return self[k]
        if self._fields_ is not None and k not in self._fields_:
            raise AttributeError(k)
        if self._fields_ is None:
            raise Unsupported(f"attribute {k} of {self._label}")
        return Tok(f"{self._label}.{k}", ("attr", self.key_id, k))

    def __setattr__(self, k, v):
        raise Unsupported("assignment to a field of an opaque value")

    def __getitem__(self, k):
        if isinstance(k, (str, int)):
            return Tok(f"{self._label}[{k!r}]", ("item", self.key_id, k))
        raise Unsupported("item of an opaque value")

    def __iter__(self):
        if self._arity is None:
            raise Unsupported(f"iteration over {self._label}")
        return iter([Tok(f"{self._label}[{i}]", ("item", self.key_id, i)) for i in range(self._arity)])

    def __bool__(self):
        raise Unsupported(f"truth value of {self._label}")

    def __eq__(self, o):
        if isinstance(o, Tok):
            if o.key_id == self.key_id:
                return True
            raise Unsupported("comparison of opaque values")
        raise Unsupported(f"comparison of {self._label}")

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(("Tok", self.key_id))

    def same(self, o):
        return isinstance(o, Tok) and o.key_id == self.key_id

    def __repr__(self):
        return f"<{self._label}#{self.key_id}>"

    def __format__(self, spec):
        return f"<{self._label}>"

    def _isnull(self):
        return False

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self


def _no(op):
    def f(self, *a):
        raise Unsupported(f"{op} on {self._label}")

    return f


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "neg", "lt", "le", "gt",
            "ge", "and", "or", "invert", "float", "int", "len", "call", "contains", "setitem", "abs"):
    setattr(Tok, f"__{_op}__", _no(_op))
del Tok.__call__
