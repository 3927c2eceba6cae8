"""Frame conditions by execution on opaque objects.

The code under contract runs on objects about which nothing is known.  Every
operation on them yields another opaque object, which is either a new one
(arithmetic, selection by a mask or list, copies) or one that may share
storage with the object it came from (a column, a slice, `.values`).  Storing
into the caller's objects, or into something that may share their storage, is
recorded as a write; every branch on an opaque condition is explored both
ways.  What the code is checked for is the set of writes."""

import builtins
import types

from . import sym as S
from .sym import Unsupported

# methods returning something that may share storage with the object
VIEWS = {"values", "T", "loc", "iloc", "at", "iat", "array", "flat", "real", "to_numpy", "view", "ravel", "reshape", "squeeze", "transpose",
         "items", "iterrows", "itertuples", "swapaxes", "index", "columns", "__dict__", "get", "xs", "head", "tail", "infer_objects",
         "to_frame", "keys", "data", "base", "axes", "rename", "set_axis", "reset_index", "set_index", "to_dict", "pipe", "iterkeys",
         "sr", "row", "kwargs", "titration", "t", "ggr", "lr", "asarray", "atleast_1d", "atleast_2d", "broadcast_to", "_mgr", "attrs", "flags"}
# methods that change the object they are called on
WRITERS = {"insert", "pop", "update", "fill", "put", "sort", "resize", "itemset", "partition", "setflags", "setdefault", "clear", "popitem",
           "append", "extend", "remove", "reverse", "byteswap", "setfield", "isetitem", "__setitem__", "__setattr__", "__delitem__", "eval", "add_solve",
           "_set_value", "set_value", "do_CO2SYS", "get_alkalinity_from_acid"}
# numpy functions writing into their first argument
NP_WRITERS = {"put", "place", "copyto", "putmask", "fill_diagonal", "put_along_axis", "shuffle"}
NP_VIEWS = {"asarray", "asanyarray", "ravel", "reshape", "squeeze", "transpose", "atleast_1d", "atleast_2d", "broadcast_to", "broadcast_arrays",
            "swapaxes", "moveaxis", "expand_dims", "ascontiguousarray", "flip", "real", "split", "array_split", "nditer", "rot90", "flatnonzero_view",
            "asfarray", "require", "lib", "nan_to_num_view", "frombuffer", "diagonal"}


# attributes of the caller's objects that are themselves the caller's
PARTS = {"titration", "t", "row", "sr", "kwargs", "ggr", "lr", "totals", "k_constants", "opt_result"}


class Effects:
    """The writes of one path."""

    def __init__(self, absent=()):
        self.writes, self.shared, self.absent = [], [], set(absent)
        self.sites = {}

    def write(self, o, how):
        d = o._o
        if d["own"] == "caller":
            self.writes.append(f"{d['name']}{how}")
        elif d["own"] == "shared":
            self.shared.append(f"{d['name']}{how}")

    def branch(self, site):
        """Both ways; a condition met repeatedly is always true, always
        false, or alternating."""
        k = self.sites.get(site)
        if k is None:
            k = self.sites[site] = [S.cur().pick(4), 0]
        k[1] += 1
        return [True, False, bool(k[1] % 2), not k[1] % 2][k[0]]


def _site():
    import sys

    f = sys._getframe(2)
    while f is not None and ("/vc/" in f.f_code.co_filename or f.f_code.co_filename.startswith("<")):
        f = f.f_back
    return (f.f_code.co_filename, f.f_lineno, f.f_lasti) if f else None


class Opaque:
    __issym__ = True

    def __init__(self, fx, name, own="new"):
        object.__setattr__(self, "_o", dict(fx=fx, name=name, own=own))

    # -- derived objects
    def _new(self, name=""):
        return Opaque(self._o["fx"], f"new({self._o['name'][:30]}{name})")

    def _shared(self, name):
        own = self._o["own"]
        return Opaque(self._o["fx"], self._o["name"] + name, "shared" if own in ("caller", "shared") else "new")

    def __getattr__(self, k):
        if k == "_tok_key" or (k.startswith("__") and k.endswith("__")) or k in ("_isnull", "_arr"):
            raise AttributeError(k)
        d = self._o
        if d["own"] == "caller" and k in d["fx"].absent:
            raise AttributeError(k)
        if d["own"] == "caller" and k in PARTS:
            return Opaque(d["fx"], f"{d['name']}.{k}", "caller")
        return Opaque(d["fx"], f"{d['name']}.{k}", "shared" if d["own"] in ("caller", "shared") else "new")._as(self, k)

    def _as(self, parent, k):
        self._o["of"], self._o["attr"] = parent, k
        return self

    def __setattr__(self, k, v):
        self._o["fx"].write(self, f".{k} = …")

    def __delattr__(self, k):
        self._o["fx"].write(self, f".{k} deleted")

    def __call__(self, *a, **k):
        d = self._o
        fx, of, attr = d["fx"], d.get("of"), d.get("attr")
        if of is None:
            return self._new("()")
        if attr in WRITERS:
            fx.write(of, f".{attr}(…)")
        inplace = k.get("inplace")
        if inplace is not None and inplace is not False:
            fx.write(of, f".{attr}(inplace)")
        for x in (k.get("out"),):
            if isinstance(x, Opaque):
                fx.write(x, " = …")
        if callable(a[0] if a else None) and attr in ("apply", "map", "pipe", "transform", "agg", "aggregate", "applymap", "assign"):
            f = a[0]
            if isinstance(f, (types.FunctionType, types.MethodType)):
                extra = {x: y for x, y in k.items() if x not in ("axis", "include_groups", "raw", "result_type", "args", "by_row", "engine")}
                f(of._shared("[…]"), *a[1:], *k.get("args", ()), **extra)
        if attr in VIEWS and not (attr in ("to_numpy",) and k.get("copy") is True) and attr not in ("copy",):
            return of._shared(f".{attr}()")
        return of._new(f".{attr}()")

    def __getitem__(self, k):
        d = self._o
        if d["own"] == "caller" and isinstance(k, str) and k in d["fx"].absent:
            raise KeyError(k)
        if isinstance(k, (Opaque, list)) or hasattr(k, "dtype") or callable(k):
            # by a mask or a list of labels: a new object (an opaque scalar
            # key could select a view, so only through loc and the like)
            if d.get("attr") in ("loc", "iloc", "at", "iat"):
                return self._shared("[…]")
            return self._new("[…]")
        return self._shared(f"[{k!r}]" if isinstance(k, str) else "[…]")

    def __setitem__(self, k, v):
        d = self._o
        if d.get("attr") in ("loc", "iloc", "at", "iat", "flat") and d.get("of") is not None:
            d["fx"].write(d["of"], f".{d['attr']}[…] = …")
        else:
            d["fx"].write(self, "[…] = …")

    def __delitem__(self, k):
        self._o["fx"].write(self, "[…] deleted")

    def __contains__(self, k):
        fx = self._o["fx"]
        if isinstance(k, str) and k in fx.absent:
            return False
        return fx.branch(("in", _site()))

    def __symisinstance__(self, cls):
        return self._o["fx"].branch(("isinstance", _site()))

    def __bool__(self):
        return self._o["fx"].branch(_site())

    def _generic(self, make):
        """A generic element, unless the loop carries locals."""
        import sys

        f = sys._getframe(2)
        while "/vc/" in f.f_code.co_filename:
            f = f.f_back
        at = (f.f_code.co_filename, f.f_lineno)
        carried = S.LOOPS.get(at)
        fx = self._o["fx"]

        def gen():
            if carried:
                raise Unsupported("loop carries locals: " + ", ".join(sorted(carried)))
            if fx.branch(("iter",) + at):
                yield make()

        return gen()

    def __iter__(self):
        return self._generic(lambda: self._shared("[…]"))

    def __symzip__(self, a):
        if not all(x is None or isinstance(x, Opaque) for x in a):
            raise Unsupported("zip of an opaque object with another")
        return self._generic(lambda: tuple(self._new("[i]") if x is None else x._shared("[…]") for x in a))

    def __symlen__(self):
        return self._new("len")

    def __len__(self):
        raise Unsupported("length of an opaque object")

    def __index__(self):
        raise Unsupported("an opaque index")

    __float__ = __int__ = __index__

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"‹{self._o['name']}›"

    def __format__(self, spec):
        return "‹›"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def copy(self, deep=True):
        return self._shared(".copy()") if deep is False else self._new(".copy()")

    def __deepcopy__(self, memo):
        return self._new()

    def __copy__(self):
        return self._new()

    def __array_ufunc__(self, *a, **k):
        raise Unsupported("a numpy function on an opaque object")


def _pure(op):
    def f(self, *a):
        return self._new(op)

    return f


for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lshift", "rshift"):
    setattr(Opaque, f"__{_op}__", _pure(_op))
    setattr(Opaque, f"__r{_op}__", _pure(_op))

    def _ip(self, o, _op=_op):
        # in place on what may be the caller's storage
        self._o["fx"].write(self, f" {_op}= …")
        return self

    setattr(Opaque, f"__i{_op}__", _ip)
for _op in ("neg", "pos", "abs", "invert", "lt", "le", "gt", "ge", "eq", "ne", "round"):
    setattr(Opaque, f"__{_op}__", _pure(_op))


def involves(v):
    if isinstance(v, Opaque):
        return True
    if isinstance(v, (list, tuple, set)):
        return any(involves(x) for x in v)
    if isinstance(v, dict):
        return any(involves(x) for x in v.values())
    return False


class Lib(types.ModuleType):
    """A library whose functions make new objects out of opaque ones and
    write only what their contracts say."""

    def __init__(self, fx, name, real=None, values=()):
        super().__init__(name)
        self.__dict__.update(_fx=fx, _real=real, _values=set(values))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        real = getattr(self._real, k, None) if self._real is not None else None
        if isinstance(real, (int, float)) or k in self._values:
            return real
        if isinstance(real, type) and self._real is not None and issubclass(real, (Exception, builtins.object)) and k in ("ndarray", "Warning"):
            return real
        fx, name = self._fx, f"{self.__name__}.{k}"
        if isinstance(real, types.ModuleType):
            return Lib(fx, name, real)

        def call(*a, **kw):
            if isinstance(kw.get("out"), Opaque):
                fx.write(kw["out"], f": {name}(out=)")
            if k in NP_WRITERS and a and isinstance(a[0], Opaque):
                fx.write(a[0], f": {name}(…)")
            if k in NP_VIEWS and a and isinstance(a[0], Opaque):
                return a[0]._shared(f":{name}")
            if k == "array" and kw.get("copy") in (False, None) and "copy" in kw and a and isinstance(a[0], Opaque):
                return a[0]._shared(f":{name}")
            if k == "subplots":
                return Opaque(fx, "figure"), Opaque(fx, "axes")
            if k in ("vectorize", "frompyfunc", "apply_along_axis"):
                raise Unsupported(name)
            return Opaque(fx, name)

        call.__name__ = k
        return call


class _Table(type):
    """Made from the caller's data: may share it."""

    def __call__(cls, *a, **k):
        o = a[0] if a else k.get("data")
        if isinstance(o, Opaque):
            return o._new("copied") if k.get("copy") is True else o._shared("wrapped")
        if involves(a) or involves(k):
            return Opaque(cls._fx, cls.__name__)
        raise Unsupported(f"a new {cls.__name__}")


def libraries(fx):
    """Stand-ins: matplotlib never changes what it is given to draw, numpy
    and scipy only through `out` and the functions listed above."""
    import numpy
    import pandas
    import scipy

    mpl = Lib(fx, "matplotlib")
    plt = Lib(fx, "matplotlib.pyplot")
    pd = Lib(fx, "pandas", pandas)
    pd.DataFrame = _Table("DataFrame", (), {"_fx": fx})
    pd.Series = _Table("Series", (), {"_fx": fx})
    mpl.pyplot = plt
    itp = Lib(fx, "scipy.interpolate", scipy.interpolate)
    return {"matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.dates": Lib(fx, "matplotlib.dates"), "numpy": Lib(fx, "numpy", numpy),
            "pandas": pd, "scipy": Lib(fx, "scipy", scipy), "scipy.interpolate": itp}
