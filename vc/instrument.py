"""What is added to the parsed source before a symbolic run, and the hooks it
calls.  Every addition is the identity when the loop at hand runs over
concrete data:

- a for-loop that carries locals from one iteration to the next (or out of
  the loop) hands their values to the verifier at the start and the end of an
  iteration and takes them back after the loop;
- the test of a search loop (`for ...: if test: ...; break`) goes through the
  verifier;
- `while i < n: ...; i += 1` becomes `for i in range(i, n): ...`;
- an innermost loop asks whether it scans the lines of a symbolic text; if so,
  a copy of it runs, with the verifier told of the start and the end of an
  iteration and of each way out of the loop (scan.py);
- a comprehension with one source asks whether that source is symbolic;
- `sep.join(x)` asks whether x holds symbolic repetitions.
"""

import ast
import copy

from . import scan as SC
from . import sym as S
from . import terms as T
from .sym import SNum, Unsupported

V = "__vc__"


def _call(name, *args):
    return ast.Call(ast.Attribute(ast.Name(V, ast.Load()), name, ast.Load()), list(args), [])


def _lam(body, *params):
    a = ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[])
    return ast.Lambda(a, body)


def own_level(stmts, kinds):
    """Nodes of these kinds that belong to this loop (not to an inner one)."""
    todo, out = list(stmts), []
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            out.append(n)
        if isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
        elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return out


def _one_more(st, name):
    if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
        return isinstance(st.op, ast.Add) and isinstance(st.value, ast.Constant) and st.value.value == 1
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name:
        v = st.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            xs = [v.left, v.right]
            return any(isinstance(x, ast.Name) and x.id == name for x in xs) and any(isinstance(x, ast.Constant) and x.value == 1 for x in xs)
    return False


def _simple_bound(n):
    """An expression a loop body that stores none of its names cannot change
    (symbolic arrays have a fixed length)."""
    for m in ast.walk(n):
        if isinstance(m, ast.Call) and not (isinstance(m.func, ast.Name) and m.func.id == "len"):
            return False
        if not isinstance(m, (ast.Call, ast.Name, ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Attribute, ast.Subscript, ast.Load)):
            return False
    return True


class Whiles(ast.NodeTransformer):
    """while i < n: ...; i += 1   ->   for i in range(i, n): ..."""

    def __init__(self):
        self.k = 0

    def visit_While(self, w):
        self.generic_visit(w)
        t = w.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and not w.orelse):
            return w
        a, op, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.Gt):
            a, b, op = b, a, ast.Lt()
        if not (isinstance(op, ast.Lt) and isinstance(a, ast.Name) and _simple_bound(b)):
            return w
        i = a.id
        if len(w.body) < 2 or not _one_more(w.body[-1], i):
            return w
        if own_level(w.body, (ast.Break, ast.Continue)) or any(isinstance(n, ast.Return) for s in w.body for n in ast.walk(s)):
            return w
        names = {n.id for n in ast.walk(b) if isinstance(n, ast.Name)} | {i}
        for s in w.body[:-1]:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
                    return w
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
                    return w
        self.k += 1
        n0, n1 = f"__vc_from{self.k}", f"__vc_to{self.k}"
        ld = ast.Load()
        out = [
            ast.Assign([ast.Name(n0, ast.Store())], ast.Name(i, ld)),
            ast.Assign([ast.Name(n1, ast.Store())], b),
            ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ld), [ast.Name(n0, ld), ast.Name(n1, ld)], []), w.body[:-1], []),
            ast.Assign([ast.Name(i, ast.Store())], _call("counted", ast.Name(n0, ld), ast.Name(n1, ld))),
        ]
        for o in out:
            ast.copy_location(o, w)
            ast.fix_missing_locations(o)
        return out


class Loops(ast.NodeTransformer):
    """`carried`: for-node -> names; `left`: (path, line) -> what remains
    outside the verifier's reach."""

    def __init__(self, path, carried, left):
        self.path, self.carried, self.left = path, carried, left
        self.scope, self.fns, self.nscan = [], [], 0

    def scanned(self, f, names, plain):
        """`plain`, or the scan of a symbolic text by this loop."""
        if (self.scope[-1:] != ["def"] or not self.fns or f.orelse or any(isinstance(m, (ast.For, ast.While, ast.Yield, ast.YieldFrom, ast.Try, ast.FunctionDef))
                for s in f.body for m in ast.walk(s))):
            return plain
        self.nscan += 1
        sv, ld = f"__vc_s{self.nscan}", ast.Load()
        names = sorted(set(names) - {"<break/return>"})
        used = {m.id for m in ast.walk(f) if isinstance(m, ast.Name)} & self.fns[-1] | set(names)
        gets = ast.Dict([ast.Constant(x) for x in sorted(used)], [_lam(ast.Name(x, ld)) for x in sorted(used)])
        it = f"__vc_i{self.nscan}"
        isfor = isinstance(f, ast.For)
        out = [ast.Assign([ast.Name(it, ast.Store())], f.iter)] if isfor else []
        count = tuple(x for x in names if any(_one_more(s, x) for s in f.body) and sum(
            isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id == x for s in f.body for m in ast.walk(s)) == 1)
        out.append(ast.Assign([ast.Name(sv, ast.Store())], _call("scan", *self.key(f), ast.Constant(tuple(names)), ast.Constant(count), gets,
                                                                 ast.Name(it, ld) if isfor else ast.Constant(None))))

        def tup(ctx):
            return ast.Tuple([ast.Name(x, ctx) for x in names], ctx)

        def hook(k, *a):
            return ast.Call(ast.Attribute(ast.Name(sv, ld), k, ld), list(a), [])

        def leave():
            r = hook("exit", _lam(tup(ld)))
            return ast.Assign([tup(ast.Store())], r) if names else ast.Expr(r)

        class Ends(ast.NodeTransformer):
            def visit_Continue(self, n):
                return ast.Expr(hook("end", _lam(tup(ld))))

            def visit_Return(self, n):
                return [leave(), n]

        body = [copy.deepcopy(s) for s in f.body]
        body = [y for s in body for y in ((lambda r: r if isinstance(r, list) else [r])(Ends().visit(s)))]
        body.append(ast.Expr(hook("end", _lam(tup(ld)))))
        head = ast.Assign([tup(ast.Store())], hook("begin")) if names else ast.Expr(hook("begin"))
        if isfor:
            loop = ast.For(copy.deepcopy(f.target), hook("items"), body, [])
            f.iter = ast.Name(it, ld)
        else:
            loop = ast.While(copy.deepcopy(f.test), body, [])
        out.append(ast.If(ast.Compare(ast.Name(sv, ld), [ast.Is()], [ast.Constant(None)]), plain if isinstance(plain, list) else [plain], [head, loop, leave()]))
        for n in out:
            ast.copy_location(n, f)
            ast.fix_missing_locations(n)
        return out

    def visit_While(self, w):
        names = self.carried.get(w, ())
        self.generic_visit(w)
        return self.scanned(w, names, w)

    def visit_ClassDef(self, n):
        self.scope.append("class")
        self.generic_visit(n)
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        self.scope.append("def")
        a = n.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None}
        loc |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
        self.fns.append(loc)
        self.generic_visit(n)
        self.fns.pop()
        self.scope.pop()
        return n

    def visit_Lambda(self, n):
        self.scope.append("def")
        self.generic_visit(n)
        self.scope.pop()
        return n

    def key(self, n):
        return [ast.Constant(self.path), ast.Constant(n.lineno)]

    def visit_For(self, f):
        names = set(self.carried.get(f, ()))
        self.generic_visit(f)
        g = copy.deepcopy(f)
        plain = self.plain_for(f, set(names))
        if not names and not any(isinstance(m, ast.Attribute) and m.attr == "append" for m in ast.walk(g)):
            return plain
        out = self.scanned(g, names, plain)
        f.iter = g.iter
        return out

    def plain_for(self, f, names):
        tgt = {n.id for n in ast.walk(f.target) if isinstance(n, ast.Name)}
        exits = "<break/return>" in names
        names.discard("<break/return>")
        k = (self.path, f.lineno)
        if exits:
            last = f.body[-1]
            plain = all(isinstance(s, (ast.Assign, ast.Expr, ast.Pass)) for s in f.body[:-1])
            if (plain and isinstance(last, ast.If) and not last.orelse and last.body and isinstance(last.body[-1], (ast.Break, ast.Return, ast.Raise))
                    and len(own_level(last.body, (ast.Break, ast.Continue, ast.Return))) <= 1 and not own_level(f.body[:-1], (ast.Break, ast.Continue, ast.Return))):
                # names the loop leaves behind, if nothing is found
                before = {n.id for s in f.body[:-1] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                last.test = _call("search", *self.key(f), last.test, ast.Constant(", ".join(sorted(names & (tgt | before)))))
                ast.fix_missing_locations(ast.copy_location(last.test, last))
                self.left[k] = frozenset()
            else:
                self.left[k] = frozenset(names | {"<break/return>"})
            return f
        if not names:
            self.left[k] = frozenset()
            return f
        if names & tgt or f.orelse or own_level(f.body, (ast.Continue,)) or "class" in self.scope[-1:]:
            self.left[k] = frozenset(names)
            return f
        self.left[k] = frozenset()
        ld = ast.Load()
        head = [ast.Assign([ast.Name(x, ast.Store())], _call("enter", *self.key(f), ast.Constant(x), _lam(ast.Name(x, ld)))) for x in sorted(names)]
        tail = [ast.Expr(_call("leave", *self.key(f), ast.Constant(x), _lam(ast.Name(x, ld)))) for x in sorted(names)]
        after = [ast.Assign([ast.Name(x, ast.Store())], _call("out", *self.key(f), ast.Constant(x))) for x in sorted(names)]
        a = ast.If(_call("active", *self.key(f)), head, [])
        b = ast.If(_call("active", *self.key(f)), tail, [])
        d = ast.If(_call("done", *self.key(f)), after, [])
        for n, at in ((a, f), (b, f.body[-1]), (d, f)):
            ast.copy_location(n, at)
            ast.fix_missing_locations(n)
        f.body = [a] + f.body + [b]
        return [f, d]

    def comp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs or n.generators[0].is_async or "class" in self.scope[-1:] or not self.scope:
            return n
        if any(isinstance(m, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for m in ast.walk(n)):
            return n
        g = n.generators[0]
        ld = ast.Load()
        x = "__vc_x"
        one = _lam(ast.ListComp(n.elt, [ast.comprehension(g.target, ast.Tuple([ast.Name(x, ld)], ld), [], 0)]), x)
        every = _lam(type(n)(n.elt, [ast.comprehension(g.target, ast.Name(x, ld), [], 0)]), x)
        r = _call("comp", *self.key(n), g.iter, one, every)
        return ast.fix_missing_locations(ast.copy_location(r, n))

    visit_ListComp = visit_GeneratorExp = comp

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return ast.fix_missing_locations(ast.copy_location(_call("join", f.value, n.args[0]), n))
        return n


# ------------------------------------------------------------------- hooks


def _frame(path, line):
    p = S.P
    if p is not None and p.loops and p.loops[-1].key[:2] == (path, line):
        return p.loops[-1]
    return None


class Hooks:
    """What the added calls do."""

    @staticmethod
    def active(path, line):
        return _frame(path, line) is not None

    @staticmethod
    def enter(path, line, name, get):
        return S.carry_in(_frame(path, line), name, get)

    @staticmethod
    def leave(path, line, name, get):
        S.carry_end(_frame(path, line), name, get())

    @staticmethod
    def done(path, line):
        return S.P is not None and (path, line) in S.P.carried

    @staticmethod
    def out(path, line, name):
        d = S.P.carried[(path, line)]
        v = d.pop(name)
        if not d:
            del S.P.carried[(path, line)]
        return v

    @staticmethod
    def counted(lo, hi):
        return hi if lo < hi else lo

    @staticmethod
    def search(path, line, test, left):
        fr = _frame(path, line)
        if fr is None:
            return test
        return S.search_test(fr, test, left)

    @staticmethod
    def scan(path, line, names, count, gets, it):
        return SC.scan(path, line, names, count, gets, it)

    @staticmethod
    def comp(path, line, it, one, every):
        if isinstance(it, list) and len(it) == 1 and isinstance(it[0], SC.Block):
            return [it[0].map(one)]
        if S.P is None or not (isinstance(it, (S.SArr, S.SRange, S.SIter)) or type(it).__name__ == "SIndex"):
            return every(it)
        return S.generic_comp((path, line), it, one)

    @staticmethod
    def join(sep, x):
        if isinstance(sep, str) and isinstance(x, list) and any(isinstance(v, S.Grown) for v in x):
            return S.join_grown(sep, x)
        return sep.join(x)
