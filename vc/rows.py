"""Assumed contract of pandas tables handled row by row: a table of any number
of rows is known through the cells of one arbitrary row.  Whole-column and
row-wise operations act on that row's cells; a loop over the rows reaches it
exactly once, and its body may not carry anything from row to row."""

import sys

from . import sym as S
from .frames import LSeries
from .sym import Unsupported
from .tok import Tok


class GCol:
    """The cell of the arbitrary row in one column."""

    __issym__ = True

    def __init__(self, v):
        self.v = v

    def _isnull(self):
        from .shims import isnull

        return GCol(isnull(self.v))

    isnull = isna = _isnull

    def notnull(self):
        return ~self._isnull()

    notna = notnull

    def __invert__(self):
        return GCol(not self.v)

    def __eq__(self, o):
        return GCol(bool(self.v == (o.v if isinstance(o, GCol) else o)))

    def __ne__(self, o):
        return ~(self == o)

    def __and__(self, o):
        return GCol(bool(self.v) and bool(o.v))

    def __or__(self, o):
        return GCol(bool(self.v) or bool(o.v))

    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous")

    def map(self, f):
        if not callable(f):
            return GCol(f.get(self.v, float("nan")))
        return GCol(f(self.v))

    def apply(self, f, *a, **k):
        return GCol(f(self.v, *a, **k))

    def to_numpy(self):
        return self

    @property
    def values(self):
        return self

    def _unwrap(self):
        return self.v

    def _tok_key(self):
        from .tok import key_of

        return ("col", key_of(self.v))


class Label:
    """Index label of the arbitrary row."""


class GFrame:
    __issym__ = True

    def __init__(self, cells=None):
        if isinstance(cells, GFrame):
            cells = cells._cells
        object.__setattr__(self, "_cells", dict(cells or {}))
        object.__setattr__(self, "_label", Label())

    def __contains__(self, k):
        return k in self._cells

    def __getitem__(self, k):
        if isinstance(k, list):
            return GFrame({x: self._cells[x] for x in k})
        if not isinstance(k, str):
            raise Unsupported("selection of rows")
        return GCol(self._cells[k])

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("store to this selection")
        if isinstance(v, GCol):
            v = v.v
        elif isinstance(v, (list, tuple, dict)):
            raise Unsupported("column of a " + type(v).__name__)
        self._cells[k] = v

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in self._cells:
            return GCol(self._cells[k])
        import pandas

        if hasattr(pandas.DataFrame, k):
            raise Unsupported(f"DataFrame.{k}")
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in self._cells:
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    @property
    def columns(self):
        return list(self._cells)

    def keys(self):
        return list(self._cells)

    def __iter__(self):
        return iter(list(self._cells))

    def get(self, k, default=None):
        return self[k] if k in self._cells else default

    def copy(self, deep=True):
        return GFrame(self._cells)

    def rename(self, mapper=None, *, columns=None, axis=None, **k):
        S._only(k)
        m = columns if columns is not None else mapper
        if columns is None and axis not in (1, "columns"):
            raise Unsupported("rename")
        f = m if callable(m) else (lambda n: m.get(n, n))
        return GFrame({f(a): b for a, b in self._cells.items()})

    def assign(self, **k):
        r = self.copy()
        for n, v in k.items():
            r[n] = v(r) if callable(v) else v
        return r

    def drop(self, labels=None, axis=None, columns=None, **k):
        S._only(k)
        cols = columns if columns is not None else labels if axis in (1, "columns") else None
        if cols is None:
            raise Unsupported("drop")
        cols = [cols] if isinstance(cols, str) else list(cols)
        return GFrame({a: b for a, b in self._cells.items() if a not in cols})

    def row(self):
        return LSeries(dict(self._cells))

    def apply(self, func, axis=0, args=(), **kw):
        if axis not in (1, "columns"):
            raise Unsupported("apply over columns")
        r = func(self.row(), *args, **kw)
        if isinstance(r, LSeries):
            return GFrame(r.to_dict())
        return GCol(r)

    def join(self, other, **k):
        S._only(k)
        both = [c for c in other._cells if c in self._cells]
        if both:
            raise ValueError(f"columns overlap but no suffix specified: {both}")
        return GFrame({**self._cells, **other._cells})

    def iterrows(self):
        fr = sys._getframe(1)

        def gen():
            key = (fr.f_code.co_filename, fr.f_lineno)
            carried = S.LOOPS.get(key)
            if carried is None or carried:
                raise Unsupported("loop over rows carries locals: " + ", ".join(sorted(carried or ["?"])))
            yield self._label, self.row()

        return gen()

    def itertuples(self, index=True, name="Pandas"):
        raise Unsupported("itertuples")

    @property
    def index(self):
        fr = sys._getframe(1)

        def gen():
            key = (fr.f_code.co_filename, fr.f_lineno)
            carried = S.LOOPS.get(key)
            if carried is None or carried:
                raise Unsupported("loop over rows")
            yield self._label

        return gen()

    @property
    def loc(self):
        return _Loc(self)

    at = loc

    def __symlen__(self):
        raise Unsupported("number of rows")

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous")

    def _tok_key(self):
        from .tok import key_of

        return ("gframe", key_of(self._cells))


class _Loc:
    def __init__(self, f):
        self.f = f

    def _here(self, sel):
        if sel is self.f._label or isinstance(sel, Label):
            if sel is not self.f._label:
                raise Unsupported("label of another table")
            return True
        if isinstance(sel, GCol) and isinstance(sel.v, bool):
            return sel.v
        if isinstance(sel, slice) and sel == slice(None):
            return True
        raise Unsupported("selection of rows")

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str):
            if isinstance(k[0], Label) and self._here(k[0]):
                return self.f._cells[k[1]]
        elif isinstance(k, Label) and self._here(k):
            return self.f.row()
        raise Unsupported("loc")

    def __setitem__(self, k, v):
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str)):
            raise Unsupported("loc store")
        if isinstance(v, GCol):
            v = v.v
        if self._here(k[0]):
            self.f._cells[k[1]] = v
        elif k[1] not in self.f._cells:
            self.f._cells[k[1]] = float("nan")
