"""Decides inclusion and disjointness of regular languages of lines, exactly,
for the regular expressions of Python's `re` (the regular part of them)."""

import re
import re._constants as C
import re._parser as P
from functools import lru_cache

import numpy as np

from .sym import Unsupported

BREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
_ALL = None


def universe():
    """Every character a line of splitlines() can contain."""
    global _ALL
    if _ALL is None:
        _ALL = "".join(chr(i) for i in range(0x110000) if chr(i) not in BREAKS)
    return _ALL


@lru_cache(None)
def members(cls):
    """Which characters a one-character pattern (text, flags) accepts."""
    out = np.zeros(0x110000, bool)
    got = "".join(re.findall(cls[0], universe(), cls[1]))
    out[np.frombuffer(got.encode("utf-32-le", "surrogatepass"), "<u4")] = True
    return out


class NFA:
    def __init__(self):
        self.eps, self.arcs, self.classes = [], [], []

    def state(self):
        self.eps.append([])
        self.arcs.append([])
        return len(self.eps) - 1

    def arc(self, a, cls, b):
        self.arcs[a].append((cls, b))
        if cls not in self.classes:
            self.classes.append(cls)

    def build(self, seq, a, flags):
        """From state a through the parsed sequence; returns the end state."""
        for op, av in seq:
            b = self.state()
            if op is C.LITERAL:
                self.arc(a, (re.escape(chr(av)), flags), b)
            elif op is C.NOT_LITERAL:
                self.arc(a, (f"[^{_cls(chr(av))}]", flags), b)
            elif op is C.ANY:
                self.arc(a, (".", flags), b)
            elif op is C.IN:
                self.arc(a, (_set(av), flags), b)
            elif op is C.SUBPATTERN:
                if av[1] or av[2]:
                    raise Unsupported("flags inside a regular expression")
                self.eps[self.build(av[3], a, flags)].append(b)
            elif op is C.BRANCH:
                for alt in av[1]:
                    s = self.state()
                    self.eps[a].append(s)
                    self.eps[self.build(alt, s, flags)].append(b)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
                if op not in (C.MAX_REPEAT, C.MIN_REPEAT):
                    raise Unsupported("possessive repetition")
                lo, hi, sub = av
                x = a
                for _ in range(lo):
                    x = self.build(sub, x, flags)
                if hi is C.MAXREPEAT:
                    s = self.state()
                    self.eps[x].append(s)
                    self.eps[self.build(sub, s, flags)].append(s)
                    self.eps[s].append(b)
                else:
                    if hi - lo > 200:
                        raise Unsupported("long repetition")
                    self.eps[x].append(b)
                    for _ in range(hi - lo):
                        x = self.build(sub, x, flags)
                        self.eps[x].append(b)
            else:
                raise Unsupported(f"regular expression: {op}")
            a = b
        return a

    def closure(self, states):
        todo, out = list(states), set(states)
        while todo:
            for t in self.eps[todo.pop()]:
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)


def _cls(c):
    return "\\" + c if c in "]^\\-[&|~" else c


def _set(items):
    s = ""
    for op, av in items:
        if op is C.NEGATE:
            s += "^"
        elif op is C.LITERAL:
            s += _cls(chr(av))
        elif op is C.RANGE:
            s += f"{_cls(chr(av[0]))}-{_cls(chr(av[1]))}"
        elif op is C.CATEGORY:
            s += {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
                  C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[av]
        else:
            raise Unsupported(f"regular expression: {op}")
    return f"[{s}]"


class Language:
    """The lines (without line breaks) a pattern accepts."""

    def __init__(self, pattern, flags=0, how="fullmatch"):
        if flags & ~(re.UNICODE | re.IGNORECASE | re.ASCII | re.VERBOSE):
            raise Unsupported("regular expression flags")
        p = P.parse(pattern, flags)
        flags = p.state.flags
        seq = list(p)
        head = tail = False
        if seq and seq[0] == (C.AT, C.AT_BEGINNING) or seq and seq[0] == (C.AT, C.AT_BEGINNING_STRING):
            head, seq = True, seq[1:]
        if seq and seq[-1] in ((C.AT, C.AT_END), (C.AT, C.AT_END_STRING)):
            tail, seq = True, seq[:-1]
        n = self.nfa = NFA()
        a = n.state()
        if how == "search" and not head:
            n.arc(a, (".", re.DOTALL), a)
        b = n.build(seq, a, flags & (re.IGNORECASE | re.ASCII))
        if how != "fullmatch" and not tail:
            n.arc(b, (".", re.DOTALL), b)
        self.start, self.end = a, b


def compare(k, m):
    """(every line of k is in m, no line of k is in m)."""
    classes = k.nfa.classes + [c for c in m.nfa.classes if c not in k.nfa.classes]
    # characters that no class tells apart
    ok = members((".", re.DOTALL))
    code = np.where(ok, 1, 0)
    for c in classes:
        code = np.unique(code * 2 + members(c) * ok, return_inverse=True)[1].reshape(-1)
    reps = [int(i) for i in np.unique(np.where(ok, code, -1), return_index=True)[1] if ok[i]]
    inside = [{c: bool(members(c)[r]) for c in classes} for r in reps]

    def step(n, states, i):
        return n.closure({t for s in states for c, t in n.arcs[s] if inside[i][c]})

    first = (k.nfa.closure({k.start}), m.nfa.closure({m.start}))
    seen, todo = {first}, [first]
    sub, apart = True, True
    while todo:
        x, y = todo.pop()
        if k.end in x:
            if m.end in y:
                apart = False
            else:
                sub = False
        for i in range(len(reps)):
            nx = step(k.nfa, x, i)
            if not nx:
                continue
            t = (nx, step(m.nfa, y, i))
            if t not in seen:
                if len(seen) > 20000:
                    raise Unsupported("regular expression too large")
                seen.add(t)
                todo.append(t)
    return sub, apart
