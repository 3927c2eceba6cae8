"""Assumed contracts of files for symbolic execution.

A file is a sequence of pieces: text with format tokens in it, or one text
repeated for every index of a generic loop.  numpy.genfromtxt and
pandas.read_csv are modelled on such files only."""

import re

from . import sym as S
from . import terms as T
from .sym import SArr, SNum, Space, Unsupported


class Rep:
    """`text` once for every index i with 0 <= i < n, in order."""

    def __init__(self, text, idx, n):
        self.text, self.idx, self.n = text, idx, n

    def __repr__(self):
        return f"<{self.text!r} for {self.idx} < {self.n}>"


class FS:
    """The files the code under contract can see."""

    def __init__(self):
        self.files = {}
        self.log = []
        self.bytes = {}  # reports: the encodings the user asks for

    def open(self, path, mode="r", *a, **k):
        path = str(path)
        kind = mode.replace("t", "")
        if "b" in mode or "+" in mode:
            raise Unsupported("open mode " + mode)
        bad = set(k) - {"encoding", "newline", "errors", "buffering"}
        if bad or a:
            raise Unsupported("open options")
        self.log.append((path, mode))
        if kind == "x":
            if path in self.files:
                raise FileExistsError(17, "File exists", path)
            self.files[path] = []
        elif kind == "w":
            self.files[path] = []
        elif kind == "a":
            self.files.setdefault(path, [])
        elif kind == "r":
            if path not in self.files:
                raise FileNotFoundError(2, "No such file or directory", path)
            self.decodes(path, k.get("encoding"), k.get("errors"))
            return Reader(self, path)
        else:
            raise ValueError("invalid mode")
        return Writer(self, path)

    def decodes(self, path, encoding, errors=None):
        """Reports are sequences of bytes: only decoding them byte by byte
        gives their lines, unless the user asks for another encoding."""
        if path in self.bytes:
            enc = (encoding or "utf-8").lower().replace("-", "_")
            ok = {"latin_1", "latin1", "iso_8859_1", "iso8859_1", "l1"} | {str(x).lower().replace("-", "_") for x in self.bytes[path]}
            if enc not in ok and not (enc in ("utf_8", "utf8", "ascii") and errors in ("replace", "ignore", "surrogateescape", "backslashreplace")):
                raise Unsupported(f"a report with any bytes, decoded with {encoding}")

    def text(self, path):
        """Pieces with neighbouring plain text joined."""
        out = []
        for p in self.files[str(path)]:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, str) and out and isinstance(out[-1], Rep):
                # (newline row)* newline  =  newline (row newline)*
                r = out[-1]
                if r.text.startswith("\n") and p.startswith("\n"):
                    out.pop()
                    if out and isinstance(out[-1], str):
                        out[-1] += "\n"
                    else:
                        out.append("\n")
                    out.append(Rep(r.text[1:] + "\n", r.idx, r.n))
                    p = p[1:]
                if p:
                    out.append(p)
            else:
                out.append(p)
        return out


class _File:
    def __init__(self, fs, path):
        self.fs, self.path, self.closed = fs, path, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass


class Writer(_File):
    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        loops = S.cur().loops
        if "\u2983" in s:
            if loops:
                raise Unsupported("a repetition written in a loop")
            for k, x in enumerate(re.split("\u2983(\\d+)\u2984", s)):
                if k % 2:
                    text, fr = S.REPS[int(x)]
                    self.fs.files[self.path].append(Rep(text, fr.idx, fr.hi))
                elif x:
                    self.fs.files[self.path].append(x)
            return
        if not loops:
            self.fs.files[self.path].append(s)
        else:
            fr = loops[-1]
            fr.effects = getattr(fr, "effects", []) + [(self, s)]

    def writelines(self, lines):
        if isinstance(lines, (S.SArr, S.SIter, S.SRange)):
            raise Unsupported("writelines of symbolic data")
        for s in lines:
            if isinstance(s, S.Grown):
                s = S.join_grown("", [s])
            self.write(s)


def flush_effects(fr, bounds):
    """At the end of a generic loop: its writes, repeated."""
    eff = getattr(fr, "effects", [])
    if not eff:
        return
    lo, hi = bounds
    if not (isinstance(lo, int) and lo == 0):
        raise Unsupported("file writes in a loop not starting at 0")
    by = {}
    for w, s in eff:
        by.setdefault(id(w), [w, ""])[1] += s
    for w, s in by.values():
        w.fs.files[w.path].append(Rep(s, fr.idx, S.term_of(hi)))


class Reader(_File):
    def read(self):
        p = self.fs.text(self.path)
        if len(p) == 1 and hasattr(p[0], "_aslines"):
            return p[0]
        if not all(isinstance(x, str) for x in p):
            raise Unsupported("reading a symbolic file as text")
        return "".join(p)

    def readlines(self):
        r = self.read()
        if isinstance(r, str):
            return r.splitlines(keepends=True)
        raise Unsupported("readlines of a symbolic file")

    def __iter__(self):
        return iter(self.readlines())


class Table2D:
    """What numpy.genfromtxt returns: columns of a two-dimensional array."""

    __issym__ = True
    cells = "float"

    def __init__(self, ncol, get):
        self.ncol, self.get = ncol, get

    def astype(self, dtype, **k):
        if S.dtype_name(dtype) != "float":
            raise Unsupported("type of the cells")
        return self

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            return self.col(k[1])
        raise Unsupported("two-dimensional indexing")

    def col(self, j):
        if isinstance(j, SNum):
            raise Unsupported("symbolic column number")
        if self.ncol is not None:
            if not -self.ncol <= j < self.ncol:
                raise IndexError("index out of bounds")
            j %= self.ncol
        return self.get(j)

    @property
    def T(self):
        return _Rows(self)


class _Rows:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, j):
        return self.t.col(j)


def genfromtxt(fs):
    def f(fname, dtype=float, comments="#", delimiter=None, skip_header=0, skip_footer=0, ndmin=0, **k):
        if str(fname) not in fs.files:
            raise FileNotFoundError(f"{fname} not found.")
        pieces = fs.text(fname)
        if k or skip_footer or dtype is not float or comments != "#":
            raise Unsupported("genfromtxt options")
        if len(pieces) != 2 or not isinstance(pieces[1], Rep):
            raise Unsupported("genfromtxt of this file")
        head, rep = pieces
        lines = head.split("\n")
        if lines[-1] != "" or len(lines) - 1 != skip_header:
            raise Unsupported("header lines left for genfromtxt")
        if not rep.text.endswith("\n") or "\n" in rep.text[:-1]:
            raise Unsupported("rows of several lines")
        cells = [x.strip() for x in (rep.text[:-1].split(delimiter) if delimiter is not None else rep.text.split())]
        sp = Space.get(rep.n)

        def get(j):
            v = S.sym_float(cells[j])
            e, n = S.elem_of(v)
            m = {rep.idx: T.IX}
            return SArr(sp, T.subst(T.toreal(e), m), T.subst(n, m))

        # every cell has to be a number
        for x in cells:
            if x not in S.FORMATS:
                float(x)
        if ndmin != 2 and not S.cur().decide(T.le(T.num(2, "I"), rep.n)):
            raise IndexError("too many indices for array: array is 1-dimensional")
        return Table2D(len(cells), get)

    return f


class Report:
    """A text file known by some of its lines: `known` maps a line number
    (a term) to its text; `first(text)` is the number of the first line
    consisting of that text, of which there is one."""

    __issym__ = True

    def __init__(self, name):
        self.n = T.var(name + ".lines:len", "I", "+")
        self.name, self.known, self.marks = name, {}, {}

    def first(self, text):
        sp = Space.get(self.n).filter(line_is(self.name, text, T.IX))
        b = SArr(sp, T.IX).pick("first")
        self.marks[text] = b
        self.known[b] = text
        return SNum(b)

    def _aslines(self):
        return self

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines")
        return ReportLines(self)

    def split(self, sep=None):
        if sep != "\n":
            raise Unsupported("split")
        return ReportLines(self)


def line_is(name, text, i):
    return T.lt(T.ZERO, T.app(f"{name}.line_is:{text}", (i,), "R"))


class Line:
    """Some line of a report; only its equality with a text is known."""

    __issym__ = True
    __hash__ = None

    def __init__(self, r, i):
        self.r, self.i = r, i

    def __eq__(self, o):
        if not isinstance(o, str):
            raise Unsupported("comparing a line")
        return S.SBool(line_is(self.r.name, o, self.i))

    def __ne__(self, o):
        return ~(self == o)

    def __getattr__(self, k):
        raise Unsupported("content of another line of the report")

    __str__ = __len__ = __getitem__ = __iter__ = __contains__ = lambda self, *a: self.split


class ReportLines:
    __issym__ = True

    def __init__(self, r):
        self.r = r

    def __symlen__(self):
        return SNum(self.r.n)

    def __iter__(self):
        return iter(S.SIter(self._line, self.r.n))

    def _line(self, i):
        return Line(self.r, i)

    def __symzip__(self, a):
        if not all(x is None or x is self for x in a):
            raise Unsupported("zip with the lines of a report")
        return S.SIter(lambda i: tuple(SNum(i) if x is None else self._line(i) for x in a), self.r.n)

    def index(self, text):
        if text not in self.r.marks:
            raise Unsupported("position of another line")
        return SNum(self.r.marks[text])

    def __contains__(self, text):
        if text in self.r.marks:
            return True
        raise Unsupported("presence of another line")

    def __getitem__(self, k):
        kt = S.term_of(k)
        for t, text in self.r.known.items():
            if t is kt or T.eq(t, kt) is T.TRUE:
                return text
        return Line(self.r, kt)


def read_csv(fs, frames):
    """`frames`: (path, first line, separator) -> the table below it."""

    def f(path, skiprows=0, encoding=None, sep=",", **k):
        fs.decodes(str(path), encoding, k.pop("encoding_errors", None))
        S._only(k)
        st = S.term_of(skiprows)
        for (p, line, s), make in frames.items():
            if p == str(path) and s == sep and (line is st or T.eq(line, st) is T.TRUE):
                return make()
        raise Unsupported("read_csv of this part of the file")

    return f


class GText(str):
    """An arbitrary text, written as a name in \u2039\u203a, with the separators its
    precondition gives it.  It can be split at those, joined and formatted;
    looking at what it contains is outside the verifier's reach."""

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1 or not _known(sep, self):
            raise Unsupported("content of an arbitrary text")
        return [GText(x) if "\u2039" in x else x for x in str.split(self, sep)]

    def _unwrap(self):
        return str.__str__(self)

    def _look(self, *a, **k):
        raise Unsupported("content of an arbitrary text")

    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __contains__ = __hash__ = __len__ = __getitem__ = __iter__ = __mod__ = _look
    __mul__ = __rmul__ = __int__ = __float__ = _look
    __bool__ = lambda self: True  # noqa: E731 - not empty

    def __add__(self, o):
        return GText(str.__add__(str.__str__(self), o))

    def __radd__(self, o):
        return GText(str.__add__(o, str.__str__(self)))

    def __str__(self):
        return str.__str__(self)


def _known(sep, text):
    """A separator outside the names."""
    depth, i = 0, 0
    t = str.__str__(text)
    while i < str.__len__(t):
        if t[i] == "\u2039":
            depth += 1
        elif t[i] == "\u203a":
            depth -= 1
        elif depth == 0 and t.startswith(sep, i):
            return True
        i += 1
    return False


for _m in ("capitalize casefold center count encode endswith expandtabs find index isalnum isalpha isascii isdecimal isdigit isidentifier "
           "islower isnumeric isprintable isspace istitle isupper ljust lower lstrip partition removeprefix removesuffix replace rfind rindex "
           "rjust rpartition rsplit rstrip splitlines startswith strip swapcase title translate upper zfill").split():
    setattr(GText, _m, GText._look)
