"""Loops that scan the lines of a text of any length.

The text is a sequence of lines, each a data row or another line (predicates
of the contract, given as regular languages).  A loop over them is explored one
generic iteration at a time: from every reachable value of its control
variables (flags, whether a list is still empty), line k being a row or not.
In lockstep with it runs the contract's own transducer, which says for each
line whether it belongs to the result.  The exploration is closed when no new
pair of control values and transducer state turns up; then, by induction on k,
the loop has kept exactly the lines the transducer keeps."""

import functools
import re as _re

from . import regex
from . import sym as S
from . import terms as T
from .sym import SArr, SNum, Unsupported
from .textio import Table2D

UNBOUND = type("Unbound", (), {"__repr__": lambda s: "<no value>", "__bool__": lambda s: _unbound()})()


def _unbound():
    raise Unsupported("a local without a value before the loop")


class ScanText:
    """`row`, `other`: languages; `delta(state, is_row)` -> (kept, state)."""

    __issym__ = True

    def __init__(self, name, row, other, delta, start, end, columns):
        self.name, self.row, self.other = name, row, other
        self.delta, self.start, self.end = delta, start, end
        self.columns = columns  # the kept rows' cells as arrays
        self.n = T.var(name + ".lines:len", "I", "+")

    def is_row(self, i):
        return T.lt(T.ZERO, T.app(self.name + ".is_row", (i,), "R"))

    def cell(self, j, i):
        return T.app(f"{self.name}.cell:{j}", (i,), "R")

    def _aslines(self):
        return self

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines")
        return ScanLines(self)

    def split(self, sep=None):
        raise Unsupported("split of a text")


class ScanLines:
    __issym__ = True

    def __init__(self, text):
        self.text = text

    def __symlen__(self):
        return SNum(self.text.n)

    def __len__(self):
        raise Unsupported("length of a text")

    def __iter__(self):
        raise Unsupported("iteration over the lines of a text")

    def __bool__(self):
        return True

    def __symzip__(self, a):
        if len(a) != 2 or a[0] is not None or a[1] is not self:
            raise Unsupported("zip with the lines of a text")
        return ScanIter(self, True)

    def __getitem__(self, i):
        if not isinstance(i, SNum) or i.t.sort != "I" or T.le(T.IZERO, i.t) is not T.TRUE:
            raise Unsupported("a certain line of a text")
        if not S.cur().decide(T.lt(i.t, self.text.n)):
            raise IndexError("list index out of range")
        return ScanLine(self.text, i.t)


class ScanIter:
    def __init__(self, lines, enum):
        self.lines, self.enum = lines, enum

    def __iter__(self):
        raise Unsupported("iteration over the lines of a text")


class ScanLine:
    """Line number i."""

    __issym__ = True
    __hash__ = None

    def __init__(self, text, i, row=False):
        self.text, self.i, self.row = text, i, row

    def split(self, sep=None):
        if sep != "\t":
            raise Unsupported("split of a line")
        if not self.row and self.text.is_row(self.i) not in S.cur().pc:
            raise Unsupported("cells of a line that is no row")
        return [format(SNum(self.text.cell(j, self.i)), "") for j in range(len(self.text.columns))]

    def _no(self, *a, **k):
        raise Unsupported("content of a line")

    __eq__ = __ne__ = __len__ = __getitem__ = __iter__ = __contains__ = __bool__ = __str__ = __format__ = _no

    def __getattr__(self, k):
        raise Unsupported("content of a line")


class Pattern:
    def __init__(self, pattern, flags=0):
        self._p = _re.compile(pattern, flags)

    def __getattr__(self, k):
        return getattr(self._p, k)

    def _how(self, how, x, a):
        if not isinstance(x, ScanLine):
            return getattr(self._p, how)(x, *a)
        if a:
            raise Unsupported("a match from another position")
        (all_r, no_r), (all_o, no_o) = _accepts(x.text.row, x.text.other, self._p.pattern, self._p.flags, how)
        m = T.TRUE if x.row else x.text.is_row(x.i)
        if all_r and all_o:
            return Match()
        if no_r and no_o:
            return None
        if all_r and no_o:
            return Match() if S.cur().decide(m) else None
        if no_r and all_o:
            return None if S.cur().decide(m) else Match()
        raise Unsupported("a pattern that some rows match and others do not" if not (all_r or no_r) else
                          "a pattern that some lines outside the rows match and others do not")

    def match(self, x, *a):
        return self._how("match", x, a)

    def fullmatch(self, x, *a):
        return self._how("fullmatch", x, a)

    def search(self, x, *a):
        return self._how("search", x, a)


@functools.lru_cache(None)
def _accepts(row, other, pattern, flags, how):
    m = regex.Language(pattern, flags, how)
    return regex.compare(row, m), regex.compare(other, m)


class Match:
    def __getattr__(self, k):
        raise Unsupported("content of a match")


def make_re(Shim):
    def f(how):
        return lambda p, x, flags=0: getattr(p if isinstance(p, Pattern) else Pattern(p, flags), how)(x)

    return Shim("re", {"compile": lambda p, flags=0: p if isinstance(p, Pattern) else Pattern(p, flags),
                       "match": f("match"), "fullmatch": f("fullmatch"), "search": f("search")}, _re,
                {k for k in dir(_re) if k.isupper()} | {"RegexFlag", "error"})


# ------------------------------------------------------------------- loops


class SoFar:
    """In a list: what earlier iterations have appended."""

    __issym__ = True

    def _no(self, *a, **k):
        raise Unsupported("what a loop has appended so far")

    __iter__ = __len__ = __getitem__ = __eq__ = __bool__ = __format__ = __str__ = _no
    __hash__ = None


class Block:
    """In a list: `item` (of line `k`) for every line that was kept."""

    __issym__ = True

    def __init__(self, text, item, k):
        self.text, self.item, self.k = text, item, k

    def _no(self, *a, **k):
        raise Unsupported("the rows of a block")

    __iter__ = __len__ = __getitem__ = __eq__ = __bool__ = _no
    __hash__ = None

    def map(self, one):
        r = one(self.item)
        if len(r) != 1:
            raise Unsupported("a comprehension over the rows of a block")
        return Block(self.text, r[0], self.k)

    def as_table(self):
        t = self.text
        if not isinstance(self.item, (list, tuple)) or len(self.item) != len(t.columns):
            raise Unsupported("array of these rows")
        m = {t.cell(j, self.k): T.toreal(a.elem) for j, a in enumerate(t.columns)}
        sp = t.columns[0].space
        is_text = any(isinstance(x, str) for x in self.item)

        def get(j):
            v = S.sym_float(self.item[j])
            if not S.is_scalar(v):
                raise Unsupported("array of these rows")
            e, n = S.elem_of(v)
            e = T.subst(T.toreal(e), m)
            if T.free(e) & T.free(self.k):
                raise Unsupported("rows that depend on their position")
            return SArr(sp, e, n)

        return TextTable(len(self.item), get) if is_text else Table2D(len(self.item), get)


class TextTable:
    """The same cells as text."""

    __issym__ = True
    cells = "text"

    def __init__(self, ncol, get):
        self.ncol, self.get = ncol, get

    def astype(self, dtype, **k):
        if S.dtype_name(dtype) != "float":
            raise Unsupported("type of the cells")
        return Table2D(self.ncol, self.get)


class Info:
    def __init__(self):
        self.states, self.template = [], None


CLAUSE = "the scan keeps line k exactly if it belongs to the block"


class Scan:
    def __init__(self, p, text, path, line, names, count, gets, it=None):
        self.p, self.text, self.names, self.count, self.it = p, text, names, count, it
        key = (path, line, tuple(d for d, _ in p.decisions))
        self.info = p.ex.scaninfo.setdefault(key, Info())
        self.vals = {}
        for n in names:
            self.vals[n] = _get(gets.get(n))
        self.lists = []
        for g in gets.values():
            v = _get(g)
            if type(v) is list and not any(v is x for x in self.lists):
                self.lists.append(v)
            elif type(v) in (dict, set):
                raise Unsupported("a scan with a dict or set at hand")

    def begin(self):
        p, info = self.p, self.info
        if any(self.lists):
            raise Unsupported("a scan that starts with items in a list")
        if not info.states:
            ctrl = tuple(("counter",) if n in self.count else _control(self.vals[n]) for n in self.names)
            info.states.append((ctrl, tuple(False for _ in self.lists), self.text.start))
        self.i = p.pick(len(info.states))
        ctrl, full, self.spec = info.states[self.i]
        self.k = T.var("scan.k", "I", "0+")
        self.npc = len(p.pc)
        out = []
        for n, c in zip(self.names, ctrl):
            if c == ("counter",):
                if type(self.vals[n]) is not int:
                    raise Unsupported("a counter that does not start at a number")
                out.append(SNum(T.add(T.num(self.vals[n], "I"), self.k)))
            elif c == ("object",):
                out.append(self.vals[n])
            elif c == ("unbound",):
                out.append(UNBOUND)
            else:
                out.append(c[1])
        self.start = dict(zip(self.names, out))
        for v, f in zip(self.lists, full):
            v[:] = [SoFar()] if f else []
        self.before = [len(v) for v in self.lists]
        return tuple(out)

    def items(self):
        if self.p.decide(T.lt(self.k, self.text.n)):
            ln = ScanLine(self.text, self.k)
            yield (SNum(self.k), ln) if isinstance(self.it, ScanIter) else ln
            raise Unsupported("an iteration that does not end")

    def kept(self):
        """What this iteration has appended."""
        out = []
        for v, b in zip(self.lists, self.before):
            if len(v) < b or b and not isinstance(v[0], SoFar):
                raise Unsupported("a scan that changes a list")
            out += [(v, x) for x in v[b:]]
        return out

    def judge(self):
        """One step of the transducer on line k; does the loop agree?"""
        p, t = self.p, self.text
        m = p.decide(t.is_row(self.k))
        keep, nxt = t.delta(self.spec, m)
        got = self.kept()
        if len(got) > 1:
            raise Unsupported("several items for one line")
        if bool(got) != keep:
            self.fail(f"a {'row' if m else 'line that is no row'} {'before' if self.spec == t.start else 'in' if self.spec != t.end else 'after'} "
                      f"the block is {'kept' if got else 'left out'}")
        if got:
            x = got[0][1]
            w = _template(x, self.k)
            if self.info.template is None:
                self.info.template = w
            if w != self.info.template:
                raise Unsupported("items made in different ways")
            self.item = x
        S_run().static(CLAUSE, True, "")
        return nxt, got

    def fail(self, why):
        p, t = self.p, self.text
        known = {t.is_row(self.k), T.lt(self.k, t.n), T.lt(T.add(T.IONE, self.k), t.n)}
        for q in p.pc[self.npc:]:
            if q not in known and T.lnot(q) not in known:
                raise Unsupported("a scan that depends on more than its line: " + why)
        S_run().static(CLAUSE, False, why)
        raise S.Infeasible()

    def end(self, get):
        p, info = self.p, self.info
        if not p.decide(T.lt(self.k, self.text.n)):
            raise Unsupported("an iteration without a line")
        nxt, got = self.judge()
        now = dict(zip(self.names, get()))
        ctrl = []
        for n in self.names:
            v, old = now[n], self.start[n]
            if n in self.count:
                if not isinstance(v, SNum) or v.t is not T.add(T.IONE, old.t):
                    raise Unsupported("a counter that does not count lines")
                ctrl.append(("counter",))
                continue
            c = _control(v)
            if c == ("object",) and v is not self.vals[n]:
                raise Unsupported("a scan that carries " + n)
            ctrl.append(c)
        full = tuple(bool(v) for v in self.lists)
        st = (tuple(ctrl), full, nxt)
        if st not in info.states:
            if len(info.states) > 60:
                raise Unsupported("too many control states of a scan")
            info.states.append(st)
            raise S.NeedLoopInfo()
        raise S.Infeasible()  # the next iteration is one of the states explored

    def exit(self, get):
        p, t = self.p, self.text
        spec = self.spec
        self.item = None
        if p.decide(T.lt(self.k, t.n)):
            spec, got = self.judge()
            if spec != t.end and p.decide(T.lt(T.add(T.IONE, self.k), t.n)):
                self.fail("the scan stops before the end of the block")
        elif self.kept():
            raise Unsupported("an item without a line")
        if spec == t.start:
            raise S.Infeasible()  # there is at least one row
        S_run().static(CLAUSE, True, "")
        some = [v for v in self.lists if v]
        if len(some) != 1 or self.info.template is None:
            raise Unsupported("the list of a scan")
        some[0][:] = [Block(t, _make(self.info.template, t, self.k), self.k)]
        return get()


def S_run():
    from . import harness as H

    return H.CURRENT.run


def _get(g):
    if g is None:
        return UNBOUND
    try:
        return g()
    except NameError:
        return UNBOUND


def _control(v):
    if v is UNBOUND:
        return ("unbound",)
    if v is None or isinstance(v, (bool, int, float, str)) and v == v:
        return ("value", v)
    return ("object",)


def _template(x, k):
    """The appended item, comparable between iterations."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(_template(v, k) for v in x))
    if isinstance(x, str) and x in S.FORMATS:
        v, spec = S.FORMATS[x]
        return ("text", v.t.id, spec)
    if isinstance(x, SNum):
        if x.nan is not T.FALSE:
            raise Unsupported("items of this form")
        return ("number", x.t.id, x.t)
    if isinstance(x, ScanLine) and x.i is k:
        return ("line",)
    raise Unsupported("items of this form")


def _make(w, text, k):
    if w[0] in ("list", "tuple"):
        v = [_make(x, text, k) for x in w[1]]
        return v if w[0] == "list" else tuple(v)
    if w[0] == "text":
        return next(tok for tok, (v, spec) in S.FORMATS.items() if isinstance(v, SNum) and v.t.id == w[1] and spec == w[2])
    if w[0] == "number":
        return SNum(w[2])
    return ScanLine(text, k, True)


def scan(path, line, names, count, gets, it=None):
    p = S.P
    if p is None:
        return None
    if it is not None:
        src = it.lines.text if isinstance(it, ScanIter) else it.text if isinstance(it, ScanLines) else None
    else:
        src = next((v.text for v in map(_get, gets.values()) if isinstance(v, ScanLines)), None)
    if src is None:
        return None
    return Scan(p, src, path, line, names, count, gets, it)
