"""Symbolic pandas objects: assumed contracts of the few pandas operations the
package uses on tables of any number of rows.

A table (SFrame) has arbitrarily many rows and known columns, each known
through its cell in a generic row.  A labelled series (LSeries) is one row, or
a result made from a dict.  A column (CSeries) is a symbolic array with pandas'
treatment of missing values."""

import pandas as _pd

from . import sym as S
from . import terms as T
from .sym import SArr, SBool, SNum, SVec, Space, Unsupported, cur


class LSeries:
    """pandas.Series with known labels."""

    __issym__ = True

    def __init__(self, data=None, index=None, name=None, dtype=None):
        d = {}
        if isinstance(data, LSeries):
            d = dict(data._d)
        elif isinstance(data, dict):
            d = dict(data)
        elif data is None:
            d = {}
        elif index is not None and not isinstance(data, SArr):
            idx = list(index)
            d = dict(zip(idx, list(data) if isinstance(data, (list, tuple)) else [data] * len(idx)))
        else:
            raise Unsupported("pandas.Series of this data")
        if index is not None:
            d = {k: d.get(k, float("nan")) for k in index}
        self.__dict__.update(_d=d, name=name, _log=[])

    def __getattr__(self, k):
        if k.startswith("__") or k in ("_unwrap_",):
            raise AttributeError(k)
        if k in self.__dict__["_d"]:
            return self._d[k]
        if hasattr(_pd.Series, k):
            raise Unsupported(f"Series.{k}")
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in self._d:
            self._d[k] = v
        elif k == "name":
            self.__dict__["name"] = v
        else:
            raise Unsupported("attribute of a Series")

    def __getitem__(self, k):
        if isinstance(k, (list, tuple, set)):
            return LSeries({x: self._d[x] for x in k})
        if isinstance(k, str):
            return self._d[k]
        raise Unsupported("Series index")

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("Series store")
        if k not in self._d and hasattr(v, "_fields"):
            raise Unsupported("Series store of a tuple")
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d.values())

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous")

    def get(self, k, default=None):
        return self._d.get(k, default)

    def pop(self, k):
        return self._d.pop(k)

    def keys(self):
        return list(self._d)

    @property
    def index(self):
        return list(self._d)

    def items(self):
        return list(self._d.items())

    def to_dict(self):
        return dict(self._d)

    def copy(self, deep=True):
        return LSeries(self._d, name=self.name)

    def __deepcopy__(self, memo):
        return self.copy()

    def update(self, other):
        from .shims import notnull

        for k, v in (other.items() if hasattr(other, "items") else other):
            if k in self._d and notnull(v):
                self._d[k] = v

    def notnull(self):
        from .shims import notnull

        return LSeries({k: notnull(v) for k, v in self._d.items()})

    notna = notnull

    def isnull(self):
        from .shims import isnull

        return LSeries({k: isnull(v) for k, v in self._d.items()})

    isna = isnull

    def dropna(self):
        from .shims import notnull

        return LSeries({k: v for k, v in self._d.items() if notnull(v)})

    @property
    def loc(self):
        return self

    @property
    def values(self):
        raise Unsupported("Series.values")

    def _unwrap(self):
        return dict(self._d)

    def _snapshot(self):
        return LSeries(self._d, name=self.name)

    def _tok_key(self):
        from .tok import key_of

        return key_of(self._d)


class CSeries(SArr):
    """A column: missing values are skipped by reductions."""

    def _skip(self):
        m = self.space.mask
        return SArr(Space.get(self.space.n, T.land(m, T.lnot(self.nan))), self.elem)

    def _count(self):
        sp = self._skip().space
        return sp.n if sp.mask is T.TRUE else T.bind("count", ("ix",), (sp.mask, sp.n), "I")

    def count(self):
        return SNum(self._count())

    def _stat(self, kind, least, ddof=None):
        a = self._skip()
        r = a.reduce(kind)
        t, n = S.elem_of(r)
        k = self._count()
        return SNum(t, T.lor(n, T.lt(k, T.num(least, "I"))))

    def mean(self, axis=None, skipna=True, **k):
        S._only(k)
        return self._stat("mean", 1)

    def std(self, axis=None, skipna=True, ddof=1, **k):
        S._only(k)
        if ddof not in (0, 1):
            raise Unsupported("ddof")
        return self._stat("std1" if ddof == 1 else "std", 1 + ddof)

    def median(self):
        return self._stat("median", 1)

    def sum(self, axis=None, **k):
        S._only(k)
        if self.elem.sort == "B":
            return SArr.sum(self)
        return self._skip().reduce("sum")

    def max(self, axis=None, **k):
        return self._stat("max", 1)

    def min(self, axis=None, **k):
        return self._stat("min", 1)

    def any(self, axis=None, **k):
        return SArr.reduce(self, "any")

    def all(self, axis=None, **k):
        return SArr.reduce(self, "all")

    def reduce(self, kind, sort="R", extra=()):
        if kind in ("any", "all"):
            return SArr.reduce(self, kind)
        if kind == "std":  # np.std(Series) keeps numpy's ddof
            return self._stat("std", 1)
        return getattr(self, kind)()

    def var(self, ddof=1):
        s = self.std(ddof=ddof)
        return s * s

    def where(self, cond, other=float("nan"), **k):
        S._only(k)
        from .shims import _where

        r = _where(cond, self, other)
        return CSeries(r.space, r.elem, r.nan)

    def mask(self, cond, other=float("nan"), **k):
        return self.where(~cond, other)

    def fillna(self, value, **k):
        S._only(k)
        return self.where(self.notnull(), value)

    def combine_first(self, other):
        return self.where(self.notnull(), other)

    def notnull(self):
        return CSeries(self.space, T.lnot(self.nan))

    notna = notnull

    def isnull(self):
        return CSeries(self.space, self.nan)

    isna = isnull

    def dropna(self):
        return CSeries(self.space.filter(T.lnot(self.nan)), self.elem)

    def to_numpy(self, *a, **k):
        return _plain(self)

    def to_list(self):
        raise Unsupported("list of a column")

    tolist = to_list

    @property
    def values(self):
        return _plain(self)

    @property
    def array(self):
        return _plain(self)

    @property
    def index(self):
        return SIndex(self.space)

    @property
    def loc(self):
        return _ColLoc(self)

    def map(self, f):
        if isinstance(f, SGroupCol):
            return f.lookup(self)
        if callable(f) and getattr(f, "__module__", "").startswith("vc"):
            return SArr.map(self, f)
        raise Unsupported("Series.map")

    def __abs__(self):
        return SArr.map(self, lambda t: T.ite(T.lt(t, T.num(0, t.sort)), T.neg(t), t))

    def __getitem__(self, k):
        if isinstance(k, (int, SNum)):
            raise Unsupported("row label")
        return SArr.__getitem__(self, k)

    def add(self, o):
        return self + o

    def sub(self, o):
        return self - o

    def mul(self, o):
        return self * o

    def div(self, o):
        return self / o

    truediv, subtract, multiply, divide = div, sub, mul, div

    def __setitem__(self, k, v):
        raise Unsupported("store into a column")

    def rename(self, *a, **k):
        return self

    def reset_index(self, **k):
        raise Unsupported("reset_index")

    def apply(self, f, *a, **k):
        raise Unsupported("Series.apply")


def _plain(a):
    r = SArr(a.space, a.elem, a.nan)
    if isinstance(a, SLookup):
        r = SLookupArr(a.space, a.elem, a.nan)
        r.group, r.keys = a.group, a.keys
    return r


class _ColLoc:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, k):
        return self.col[k]


class SIndex:
    """Row labels; going through them gives the label of a generic row."""

    __issym__ = True

    def __init__(self, space, frame=None):
        self.space, self.frame = space, frame

    def __iter__(self):
        if self.frame is None or self.space.mask is not T.TRUE:
            raise Unsupported("iteration over row labels")
        return iter(S.SIter(lambda i: RowLabel(self.frame._space, i), self.space.n))


class RowLabel:
    """The label of row `idx` of a table."""

    __issym__ = True

    def __init__(self, space, idx):
        self.space, self.idx = space, idx

    def __eq__(self, o):
        raise Unsupported("comparison of row labels")

    __lt__ = __gt__ = __le__ = __ge__ = __add__ = __sub__ = __eq__
    __hash__ = None


class SFrame:
    """pandas.DataFrame with known columns and any number of rows."""

    __issym__ = True

    def __init__(self, data=None, index=None, columns=None, space=None, **k):
        S._only(k)
        d, sp = {}, space
        if isinstance(data, SFrame):
            d, sp = dict(data._cols), data._space
        elif isinstance(data, dict):
            for v in data.values():
                if isinstance(v, SArr):
                    sp = v.space if sp is None else Space.unify(sp, v.space)
            if sp is None:
                raise Unsupported("DataFrame of this data")
        elif isinstance(data, list) and len(data) == 1 and isinstance(data[0], S.Grown):
            # a list of rows, one for each index of a loop
            rows = data[0]
            if not isinstance(index, SIndex) or columns is not None or len(rows.items) != 1:
                raise Unsupported("DataFrame of this data")
            row = rows.items[0]
            if not isinstance(row, (dict, LSeries)):
                raise Unsupported("DataFrame of this data")
            row = dict(row.items())
            data = {}
            for c, v in row.items():
                data[c] = S.Grown([v], rows.fr).array([])
                Space.unify(index.space, data[c].space)
            sp = index.space
        elif data is not None:
            raise Unsupported("DataFrame of this data")
        object.__setattr__(self, "_cols", {})
        object.__setattr__(self, "_space", sp)
        object.__setattr__(self, "_ref", None)
        for k, v in (data.items() if isinstance(data, dict) else d.items()):
            self[k] = v

    # -- columns
    def __contains__(self, k):
        return k in self._cols

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        cols = object.__getattribute__(self, "_cols")
        if k in cols:
            return cols[k].copy()
        if hasattr(_pd.DataFrame, k):
            raise Unsupported(f"DataFrame.{k}")
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in self._cols:
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self._cols:
                raise KeyError(k)
            return self._cols[k].copy()
        if isinstance(k, SArr) and k.elem.sort == "B":
            sp = Space.unify(self._space, k.space).filter(k.elem)
            return type(self)._of({n: _refilter(c, sp) for n, c in self._cols.items()}, sp)
        if isinstance(k, (list, SCols)):
            for x in k:
                if x not in self._cols:
                    raise KeyError(x)
            return type(self)._of({n: self._cols[n] for n in k}, self._space)
        raise Unsupported("DataFrame index")

    @classmethod
    def _of(cls, cols, sp):
        r = cls(space=sp)
        r._cols.update({k: v.copy() for k, v in cols.items()})
        return r

    def __setitem__(self, k, v):
        if isinstance(k, list) and hasattr(v, "_cols") and len(k) == len(v._cols):
            for a, b in zip(list(k), list(v._cols)):
                self[a] = v[b]
            return
        if not isinstance(k, str):
            raise Unsupported("DataFrame store")
        v = S.ungrow(v)
        if isinstance(v, str):
            from .shims import string

            v = string(v)
        if isinstance(v, SLookupArr) or isinstance(v, SLookup):
            Space.unify(self._space, v.space)
            c = SLookup(self._space, v.elem, v.nan)
            c.group, c.keys = v.group, v.keys
        elif isinstance(v, SArr):
            sp = self._space
            if v.space is not sp:
                Space.unify(sp, v.space)
            c = CSeries(sp, v.elem, v.nan)
        elif S.is_scalar(v):
            t, n = S.elem_of(v)
            c = CSeries(self._space, t, n)
        elif v is None:
            c = CSeries(self._space, T.ZERO, T.TRUE)
        else:
            raise Unsupported(f"column of {type(v).__name__}")
        self._cols[k] = c

    def __delitem__(self, k):
        del self._cols[k]

    @property
    def columns(self):
        return SCols(self._cols)

    def keys(self):
        return SCols(self._cols)

    def items(self):
        return [(k, v.copy()) for k, v in self._cols.items()]

    def __iter__(self):
        return iter(list(self._cols))

    def __symlen__(self):
        return self._space.size()

    @property
    def index(self):
        return SIndex(self._space, self)

    def _row_at(self, i):
        return LSeries({k: c.read(i) for k, c in self._cols.items()})

    def iterrows(self):
        """Assumed contract: each label with its row, in order."""
        if self._space.mask is not T.TRUE:
            raise Unsupported("iteration over selected rows")
        return S.SIter(lambda i: (RowLabel(self._space, i), self._row_at(i)), self._space.n)

    @property
    def shape(self):
        return (self._space.size(), len(self._cols))

    @property
    def empty(self):
        raise Unsupported("DataFrame.empty")

    def copy(self, deep=True):
        return type(self)._of(self._cols, self._space)

    def get(self, k, default=None):
        return self[k] if k in self._cols else default

    def assign(self, **k):
        r = self.copy()
        for n, v in k.items():
            r[n] = v(r) if callable(v) else v
        return r

    def drop(self, labels=None, axis=None, columns=None, errors="raise", inplace=False):
        cols = columns if columns is not None else labels if axis in (1, "columns") else None
        if cols is None or inplace:
            raise Unsupported("DataFrame.drop")
        cols = [cols] if isinstance(cols, str) else list(cols)
        return type(self)._of({k: v for k, v in self._cols.items() if k not in cols}, self._space)

    def rename(self, mapper=None, *, index=None, columns=None, axis=None, inplace=False, **k):
        S._only(k)
        if inplace or index is not None or (mapper is not None and axis not in (1, "columns")):
            raise Unsupported("DataFrame.rename")
        m = columns if columns is not None else mapper
        f = m if callable(m) else (lambda n: m.get(n, n))
        return type(self)._of({f(n): c for n, c in self._cols.items()}, self._space)

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous")

    # -- rows
    def row(self):
        """The generic row."""
        return LSeries({k: S.mk(c.elem, c.nan) for k, c in self._cols.items()})

    def apply(self, func, axis=0, args=(), **kw):
        """Assumed contract: func is called with each row (a copy) and the
        keywords (a fresh dict); the results make up the rows."""
        if axis not in (1, "columns"):
            raise Unsupported("DataFrame.apply along columns")
        for o in ("raw", "result_type", "by_row", "engine", "engine_kwargs"):
            if o in kw:
                raise Unsupported("DataFrame.apply option")
        p = cur()
        n = p.pos
        r = func(self.row(), *args, **kw)
        if p.pos != n:
            raise Unsupported("branch on the contents of a row")
        if isinstance(r, LSeries):
            return SFrame._of({k: _cell(self._space, v) for k, v in r._d.items()}, self._space)
        return _cell(self._space, r)

    def groupby(self, by=None, sort=True, **k):
        S._only(k)
        if isinstance(by, list) and len(by) == 1:
            by = by[0]
        if not isinstance(by, str):
            raise Unsupported("groupby")
        return SGroupBy(self, by)

    @property
    def loc(self):
        return _FrameLoc(self)

    at = loc

    # -- for the harness
    def _unwrap(self):
        return dict(self._cols)

    def _snapshot(self):
        return SFrame._of(self._cols, self._space)

    def _tok_key(self):
        from .tok import key_of

        return key_of(self._cols)


class SCols(list):
    def tolist(self):
        return list(self)

    to_list = tolist

    def __add__(self, o):
        return list(self) + list(o)


def _refilter(c, sp):
    return CSeries(sp, c.elem, c.nan)


def _cell(sp, v):
    if isinstance(v, SArr):
        raise Unsupported("array in a cell")
    if not S.is_scalar(v):
        raise Unsupported(f"{type(v).__name__} in a cell")
    t, n = S.elem_of(v)
    return CSeries(sp, t, n)


class _FrameLoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, RowLabel) and k.space is self.f._space:
            return self.f._row_at(k.idx)
        if isinstance(k, tuple) and len(k) == 2:
            rows, col = k
            if isinstance(rows, RowLabel) and rows.space is self.f._space and isinstance(col, str):
                return self.f._cols[col].read(rows.idx)
            if isinstance(rows, slice) and rows == slice(None):
                return self.f[col]
            if isinstance(rows, SArr) and rows.elem.sort == "B":
                return self.f[rows][col]
        elif isinstance(k, SArr) and k.elem.sort == "B":
            return self.f[k]
        raise Unsupported("DataFrame.loc")

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 2:
            rows, col = k
            if isinstance(rows, RowLabel) and rows.space is self.f._space and isinstance(col, str) and S.is_scalar(v):
                if col not in self.f._cols:
                    raise Unsupported("a new column stored row by row")
                SArr.__setitem__(self.f._cols[col], SNum(rows.idx), v)
                return
            if isinstance(col, str) and isinstance(rows, SArr) and rows.elem.sort == "B":
                from .shims import _where

                old = self.f[col] if col in self.f else CSeries(self.f._space, T.ZERO, T.TRUE)
                if isinstance(v, SArr) and v.space is not self.f._space:
                    if v.space is not self.f._space.filter(rows.elem):
                        raise Unsupported("DataFrame.loc store")
                    v = SArr(self.f._space, v.elem, v.nan)
                self.f[col] = _where(rows, v, old)
                return
            if isinstance(rows, slice) and rows == slice(None) and isinstance(col, str):
                self.f[col] = v
                return
        raise Unsupported("DataFrame.loc store")


# ------------------------------------------------------------------ groupby


class SGroupBy:
    """Assumed contract: for each distinct non-null key the function is given
    the rows with that key, and the results are indexed by the key."""

    def __init__(self, frame, by, cols=None):
        self.frame, self.by, self.cols = frame, by, cols

    def _group(self):
        key = self.frame._cols[self.by]
        g = T.var("group.key", "R")
        m = T.land(T.lnot(key.nan), T.eq(T.toreal(key.elem), g))
        sp = self.frame._space.filter(m)
        return g, SFrame._of({k: _refilter(c, sp) for k, c in self.frame._cols.items() if k != self.by}, sp)

    def apply(self, func, *a, include_groups=False, **k):
        if include_groups:
            raise Unsupported("include_groups")
        g, sub = self._group()
        p = cur()
        n = p.pos
        npc = len(p.pc)
        r = func(sub, *a, **k)
        if p.pos != n:
            raise Unsupported("branch on the contents of a group")
        del p.pc[npc:]
        if isinstance(r, LSeries):
            return SGroups(g, {k_: S.elem_of(v) for k_, v in r._d.items()})
        return SGroupCol(g, *S.elem_of(r))

    def __getitem__(self, k):
        if isinstance(k, str):
            return _SGroupByCol(self, k)
        raise Unsupported("groupby columns")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in self.frame._cols:
            return _SGroupByCol(self, k)
        raise Unsupported("groupby." + k)


class _SGroupByCol:
    def __init__(self, gb, col):
        self.gb, self.col = gb, col

    def _do(self, kind, **k):
        g, sub = self.gb._group()
        return SGroupCol(g, *S.elem_of(getattr(sub[self.col], kind)(**k)))

    def mean(self):
        return self._do("mean")

    def std(self, ddof=1):
        return self._do("std", ddof=ddof)

    def count(self):
        return self._do("count")

    def median(self):
        return self._do("median")

    def transform(self, how):
        if how not in ("mean", "std", "count", "median"):
            raise Unsupported("transform")
        return self._do(how).lookup(self.gb.frame._cols[self.gb.by])

    def agg(self, how):
        if isinstance(how, str):
            return self._do(how)
        if isinstance(how, (list, tuple)):
            r = {h: self._do(h) for h in how}
            g = next(iter(r.values())).g
            return SGroups(g, {h: (v.t, v.nan) for h, v in r.items()})
        raise Unsupported("agg")


class SGroupCol:
    __issym__ = True

    def __init__(self, g, t, nan):
        self.g, self.t, self.nan = g, t, nan

    def lookup(self, keys, missing=True):
        """The value of each row's group: a null key is in no group, which
        reindex and map leave missing and loc does not accept."""
        if not isinstance(keys, SArr):
            raise Unsupported("group lookup")
        if keys.nan is not T.FALSE and not missing and SArr(keys.space, keys.nan).any():
            raise KeyError("null not in index")
        e = T.app(f"group[{self.t.id}]", (T.toreal(keys.elem),), "R")
        n = T.app(f"group.nan[{self.nan.id}]", (T.toreal(keys.elem),), "B") if self.nan is not T.FALSE else T.FALSE
        r = SLookup(keys.space, e, T.lor(keys.nan, n))
        r.group, r.keys = self, SArr(keys.space, keys.elem, keys.nan)
        return r

    @property
    def loc(self):
        return self

    def __getitem__(self, k):
        return self.lookup(k, False)

    def to_dict(self):
        return self

    def reindex(self, k):
        return self.lookup(k)

    def rename(self, *a):
        return self


class SGroups:
    __issym__ = True

    def __init__(self, g, cols):
        self.g, self.cols_ = g, cols

    def __getitem__(self, k):
        return SGroupCol(self.g, *self.cols_[k])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in self.__dict__.get("cols_", {}):
            return self[k]
        if k == "columns":
            return SCols(self.cols_)
        raise Unsupported("groups." + k)

    def __contains__(self, k):
        return k in self.cols_

    @property
    def loc(self):
        return _GroupsLoc(self)

    def reindex(self, keys):
        return _GroupRows(self, keys, True)


class _GroupsLoc:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str):
            return self.g[k[1]].lookup(k[0], False)
        if isinstance(k, SArr):
            return _GroupRows(self.g, k, False)
        raise Unsupported("groups.loc")


class _GroupRows:
    def __init__(self, g, keys, missing):
        self.g, self.keys, self.missing = g, keys, missing

    def __getitem__(self, c):
        return self.g[c].lookup(self.keys, self.missing)

    def __getattr__(self, c):
        if c.startswith("__"):
            raise AttributeError(c)
        return self[c]


class SLookup(CSeries):
    """Column holding a per-group value looked up by the row's key."""

    group = keys = None

    def copy(self, deep=True):
        r = SLookup(self.space, self.elem, self.nan)
        r.group, r.keys = self.group, self.keys
        return r

    @classmethod
    def make(cls, space, elem, nan=T.FALSE):
        return CSeries(space, elem, nan)


class SLookupArr(SArr):
    group = keys = None

    def copy(self, deep=True):
        r = SLookupArr(self.space, self.elem, self.nan)
        r.group, r.keys = self.group, self.keys
        return r

    @classmethod
    def make(cls, space, elem, nan=T.FALSE):
        return SArr(space, elem, nan)


class _SeriesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (LSeries, CSeries))

    def __call__(cls, data=None, *a, **k):
        if isinstance(data, SArr):
            return CSeries(data.space, data.elem, data.nan)
        return LSeries(data, *a, **k)


class Series(metaclass=_SeriesMeta):
    pass


PANDAS = {"Series": Series, "DataFrame": SFrame}
