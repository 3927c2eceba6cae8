"""Loads the package source from /repo's working tree twice: as it is (for
replays and cross-checks), and with its imports redirected to the stand-in
dependency modules (for the symbolic run).  The program text is the file's
text; what is added to it for the symbolic run is in instrument.py."""

import ast
import builtins
import functools
import os
import sys
import tempfile
import types

from . import instrument, pyco2_shim, scan, shims
from . import sym as S

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "calkulate"

_code = {}


def source_files():
    out = []
    base = os.path.join(REPO, PKG)
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith(".py"):
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_file(path):
    if path not in _code:
        with open(path, encoding="utf-8") as f:
            text = f.read()
        tree = instrument.Whiles().visit(ast.parse(text, path))
        carried = analyse_loops(tree, path)
        tree = ast.fix_missing_locations(instrument.Loops(path, carried, S.LEFT).visit(tree))
        _code[path] = compile(tree, path, "exec")
    return _code[path]


class _Names(ast.NodeVisitor):
    """Names loaded and stored in this scope (comprehension variables and the
    locals of nested functions left out)."""

    def __init__(self):
        self.stores, self.loads = set(), set()

    def visit_Name(self, n):
        (self.loads if isinstance(n.ctx, ast.Load) else self.stores).add(n.id)

    def _comp(self, n):
        v = _Names()
        v.generic_visit(n)
        bound = set()
        for g in n.generators:
            t = _Names()
            t.visit(g.target)
            bound |= t.stores
        self.loads |= v.loads - bound
        self.stores |= v.stores - bound

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def _func(self, n):
        v = _Names()
        for st in n.body if isinstance(n.body, list) else [n.body]:
            v.visit(st)
        a = n.args
        bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None}
        shared = {x for m in ast.walk(n) if isinstance(m, (ast.Nonlocal, ast.Global)) for x in m.names}
        self.loads |= (v.loads - bound - v.stores) | shared
        self.stores |= shared
        for d in a.defaults + [x for x in a.kw_defaults if x is not None] + getattr(n, "decorator_list", []):
            self.visit(d)
        if not isinstance(n, ast.Lambda):
            self.stores.add(n.name)

    visit_Lambda = visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ExceptHandler(self, n):
        if n.name:
            self.stores.add(n.name)
        self.generic_visit(n)


def _names(*nodes):
    v = _Names()
    for n in nodes:
        if n is not None:
            v.visit(n)
    return v


class _Live:
    """Backward liveness of the locals of one scope; at each loop, the
    names whose value at the end of an iteration may still be read."""

    def __init__(self):
        self.loops = {}

    def block(self, stmts, out, brk, cont):
        for st in reversed(stmts):
            out = self.stmt(st, out, brk, cont)
        return out

    def stmt(self, st, out, brk, cont):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            t = _names(*ts)
            if isinstance(st, ast.AnnAssign) and st.value is None:
                return out
            return (out - t.stores) | t.loads | _names(st.value).loads
        if isinstance(st, ast.AugAssign):
            t = _names(st.target)
            return out | t.stores | t.loads | _names(st.value).loads
        if isinstance(st, ast.If):
            return _names(st.test).loads | self.block(st.body, out, brk, cont) | self.block(st.orelse, out, brk, cont)
        if isinstance(st, (ast.For, ast.While)):
            after = self.block(st.orelse, out, brk, cont)
            tgt = _names(st.target) if isinstance(st, ast.For) else _Names()
            test = _names(st.test).loads if isinstance(st, ast.While) else set()
            end = after | test
            while True:
                new = end | ((self.block(st.body, end, out, end) - tgt.stores) | tgt.loads)
                if new == end:
                    break
                end = new
            self.loops[st] = end
            if isinstance(st, ast.For):
                return end | _names(st.iter).loads
            return end
        if isinstance(st, (ast.Return, ast.Raise)):
            return _names(st).loads
        if isinstance(st, ast.Break):
            return brk
        if isinstance(st, ast.Continue):
            return cont
        if isinstance(st, (ast.With, ast.AsyncWith)):
            b = self.block(st.body, out, brk, cont)
            for it in reversed(st.items):
                t = _names(it.optional_vars)
                b = (b - t.stores) | t.loads | _names(it.context_expr).loads
            return b
        if isinstance(st, ast.Try):
            out = self.block(st.finalbody, out, brk, cont)
            brk, cont = brk | out, cont | out
            h = set(out) if st.finalbody else set()
            for x in st.handlers:
                h |= self.block(x.body, out, brk, cont) | _names(x.type).loads
            b = self.block(st.body, self.block(st.orelse, out, brk, cont), brk, cont)
            return b | h
        n = _names(st)
        if isinstance(st, (ast.Expr, ast.Assert, ast.Pass, ast.Import, ast.ImportFrom, ast.Delete)):
            return out | n.loads
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return (out - {st.name}) | n.loads
        return out | n.loads | n.stores


def analyse_loops(tree, path):
    """For every loop: the locals it carries from iteration to iteration, or
    out of the loop."""
    out = {}
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.Module)):
            continue
        lv = _Live()
        shared = {x for n in ast.walk(fn) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
        # names read by nested functions may be read at any later call
        nested = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, ast.FunctionDef):
                nested |= _names(n).loads
        lv.block(fn.body, set(), set(), set())
        for lp, end in lv.loops.items():
            written = _names(getattr(lp, "target", None), *lp.body).stores
            carried = written & (end | shared | (nested if isinstance(fn, ast.FunctionDef) else set()))
            todo = list(lp.body)
            while todo:  # leaving this loop early
                n = todo.pop()
                if isinstance(n, (ast.Break, ast.Return)):
                    carried.add("<break/return>")
                if isinstance(n, (ast.For, ast.While)):
                    if any(isinstance(m, ast.Return) for m in ast.walk(n)):
                        carried.add("<break/return>")
                elif not isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    todo += list(ast.iter_child_nodes(n))
            out[lp] = frozenset(carried) | out.get(lp, frozenset())
            if isinstance(lp, ast.While):
                continue
            key = (path, lp.lineno)
            S.LOOPS[key] = S.LOOPS.get(key, frozenset()) | frozenset(carried)
    return out


# ---------------------------------------------------------------- symbolic


class SymPackage:
    def __init__(self, extra_pandas=None, overrides=None):
        self.modules = {}
        np_ = shims.make_numpy()
        wn = shims.make_warnings()
        import scipy
        import scipy.interpolate
        import scipy.optimize
        import scipy.stats

        opt = shims.Shim("scipy.optimize", {"least_squares": shims.least_squares}, scipy.optimize)
        sts = shims.Shim("scipy.stats", {"linregress": shims.linregress}, scipy.stats)
        itp = shims.Shim(
            "scipy.interpolate", {"pchip_interpolate": shims.pchip_interpolate}, scipy.interpolate
        )
        self.shims = {
            "numpy": np_,
            "pandas": shims.make_pandas(extra_pandas),
            "warnings": wn,
            "PyCO2SYS": pyco2_shim.make_pyco2(),
            "scipy": shims.Shim(
                "scipy", {"optimize": opt, "stats": sts, "interpolate": itp}, scipy
            ),
            "scipy.optimize": opt,
            "scipy.stats": sts,
            "scipy.interpolate": itp,
            "math": make_math(),
            "re": scan.make_re(shims.Shim),
        }
        self.shims.update(overrides or {})
        mpl = _Null("matplotlib")
        for k in ("matplotlib", "matplotlib.pyplot", "matplotlib.dates"):
            self.shims.setdefault(k, mpl)
        self.np = self.shims["numpy"]
        b = dict(vars(builtins))
        b.update(
            __import__=self._import,
            len=S.sym_len,
            range=S.sym_range,
            zip=S.sym_zip,
            enumerate=S.sym_enumerate,
            isinstance=S.sym_isinstance,
            float=_FloatProxy,
            int=_IntProxy,
            print=lambda *a, **k: S.P.printed.append(a) if S.P else None,
            open=self._open,
            __vc__=instrument.Hooks,
        )
        self.builtins = b
        self.opener = None

    def _open(self, *a, **k):
        if self.opener is None:
            raise S.Unsupported("open()")
        return self.opener(*a, **k)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == PKG or name.startswith(PKG + "."):
            if level > 0:
                pkg = globals["__package__"].split(".")
                base = pkg[: len(pkg) - (level - 1)]
                full = ".".join(base + ([name] if name else []))
            else:
                full = name
            m = self.load(full)
            if not fromlist:
                return self.load(full.split(".")[0]) if level == 0 else m
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f):
                    try:
                        setattr(m, f, self.load(full + "." + f))
                    except ModuleNotFoundError:
                        raise ImportError(f"cannot import name {f!r} from {full!r}")
            return m
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            top = name.split(".")[0]
            return self.shims.get(top, self.shims[name])
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, full):
        if full in self.modules:
            return self.modules[full]
        rel = full.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            path, is_pkg = os.path.join(base, "__init__.py"), True
        else:
            path, is_pkg = base + ".py", False
        if not os.path.exists(path):
            raise ModuleNotFoundError(full)
        if len(rel) > 1:
            parent = self.modules.get(".".join(rel[:-1]))
            if parent is None:
                if len(rel) == 2:
                    self.load_parent(rel[0])
                else:
                    self.load(".".join(rel[:-1]))
                if full in self.modules:
                    return self.modules[full]
        code = compile_file(path)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if is_pkg else ".".join(rel[:-1])
        if is_pkg:
            m.__path__ = [base]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[full] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[full]
            raise
        if len(rel) > 1:
            setattr(self.modules[".".join(rel[:-1])], rel[-1], m)
        return m

    def load_parent(self, full):
        """Parents are loaded as bare packages: the top-level __init__ only
        re-exports, and sub-modules import what they need themselves."""
        base = os.path.join(REPO, *full.split("."))
        if full.count(".") and ".".join(full.split(".")[:-1]) not in self.modules:
            self.load_parent(".".join(full.split(".")[:-1]))
        m = types.ModuleType(full)
        m.__file__ = os.path.join(base, "__init__.py")
        m.__package__ = full
        m.__path__ = [base]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[full] = m
        return m

    def mod(self, name):
        return self.load(PKG + "." + name)

    def patch(self, dotted, make):
        """Replace function `dotted` (module.func) wherever it is bound."""
        modname, fname = dotted.rsplit(".", 1)
        m = self.mod(modname)
        orig = getattr(m, fname, None)
        if orig is None:
            return None
        new = make(orig)
        for mm in list(self.modules.values()):
            for k, v in list(vars(mm).items()):
                if v is orig:
                    setattr(mm, k, new)
                elif isinstance(v, dict) and not k.startswith("__"):
                    for kk, vv in list(v.items()):
                        if vv is orig:
                            v[kk] = new
                elif isinstance(v, type) and v.__module__.startswith(PKG):
                    for kk, vv in list(vars(v).items()):
                        if vv is orig:
                            setattr(v, kk, new)
        return new


_LRU = type(functools.lru_cache(lambda: 0))


def state_of(modules):
    """What the package keeps between calls: bindings and (shallow) contents
    of its modules, classes, functions and their defaults."""
    out = {}

    def shallow(v):
        if isinstance(v, dict):
            return ("dict", tuple((repr(k) if isinstance(k, (str, int)) else id(k), id(x)) for k, x in v.items()))
        if isinstance(v, (list, tuple)):
            return ("seq", tuple(id(x) for x in v))
        if isinstance(v, (set, frozenset)):
            return ("set", len(v), tuple(sorted(id(x) for x in v)))
        if type(v) is _LRU:
            return ("cache", v.cache_info().currsize)
        return None

    for name, m in list(modules.items()):
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            where = name + "." + k
            out[where] = (id(v), shallow(v))
            if isinstance(v, types.FunctionType):
                out[where + "()"] = (tuple(id(x) for x in (v.__defaults__ or ())), tuple(map(shallow, v.__defaults__ or ())),
                                     tuple((a, id(x), shallow(x)) for a, x in vars(v).items()),
                                     tuple(shallow(x) for x in (v.__kwdefaults__ or {}).values()),
                                     tuple(_cell(x, shallow) for x in (v.__closure__ or ())))
            elif isinstance(v, type) and v.__module__.startswith(PKG):
                for a, x in list(vars(v).items()):
                    if not a.startswith("__"):
                        out[f"{where}.{a}"] = (id(x), shallow(x))
            elif type(v).__module__.startswith(PKG) and hasattr(v, "__dict__"):
                for a, x in list(vars(v).items()):
                    out[f"{where}.{a}"] = (id(x), shallow(x))
    return out


def _cell(x, shallow):
    try:
        v = x.cell_contents
    except ValueError:
        return None
    return id(v), shallow(v)


class _FloatMeta(type):
    def __call__(cls, *a):
        return S.sym_float(*a)

    def __instancecheck__(cls, x):
        return S.sym_isinstance(x, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class _FloatProxy(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, *a):
        return S.sym_int(*a)

    def __instancecheck__(cls, x):
        return S.sym_isinstance(x, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class _IntProxy(metaclass=_IntMeta):
    pass


class _Null(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Null(f"{self.__name__}.{k}")

    def __call__(self, *a, **k):
        raise S.Unsupported(self.__name__)


def make_math():
    import math

    f = shims.NP_FUNCS
    attrs = {
        k: shims._wrap(k, f[k], getattr(math, k))
        for k in ("exp", "log", "log10", "log2", "log1p", "sqrt")
    }
    attrs["pow"] = shims._wrap("pow", f["power"], math.pow)
    attrs["isnan"] = shims._wrap("isnan", f["isnan"], math.isnan)
    attrs["fabs"] = shims._wrap("fabs", f["abs"], math.fabs)
    return shims.Shim("math", attrs, math, {"pi", "e", "inf", "nan"})


# ------------------------------------------------------------------- real

_real = {}


def real():
    """The package as CPython runs it, freshly compiled from /repo."""
    if "pkg" not in _real:
        sys.dont_write_bytecode = True
        d = tempfile.mkdtemp(prefix="verif-pyc-")
        sys.pycache_prefix = d
        for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
            del sys.modules[k]
        sys.path.insert(0, REPO)
        import atexit
        import shutil

        atexit.register(shutil.rmtree, d, True)
        import importlib

        _real["pkg"] = importlib.import_module(PKG)
        f = os.path.realpath(_real["pkg"].__file__)
        assert f.startswith(os.path.realpath(REPO)), f
    return _real["pkg"]


def real_mod(name):
    real()
    import importlib

    return importlib.import_module(PKG + "." + name)
