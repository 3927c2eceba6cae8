"""Contracts on calkulate/dataset.py and meta.py."""

import math
import os

import pandas

from contracts import core_c, files_c
from contracts.files_c import ALL, EMF, GEN, KCON, PH, READ, TITRANT
from vc.harness import Missing, Rejected, TargetRaised, contract

NAN = float("nan")
NULLS = {"nan": NAN, "None": None, "NA": pandas.NA}
SOLVE_KEYS = sorted(set(ALL) - {"titrant_molinity_init"} | {"file_path", "solve_mode"})
CAL_KEYS = sorted(set(ALL) | {"file_path", "solve_mode"})
FIELDS = ["alkalinity_npts", "alkalinity_std", "alkalinity", "analyte_mass", "emf0", "gran_alkalinity", "gran_emf0", "pH_init",
          "temperature_init"]
FAILURES = [ValueError("x"), KeyError("k"), FileNotFoundError("f"), AssertionError(), Exception("e"), ZeroDivisionError()]


def isnull(v):
    return v is None or v is pandas.NA or (isinstance(v, float) and v != v)


def effective(kw, row, keys):
    """A non-null row value beats a keyword (old-style ones acting like their
    current counterparts)."""
    kw = dict(kw)
    kw.update(kw.get("read_dat_kwargs") or {})
    if "pH_range" in kw:
        kw["pH_min"], kw["pH_max"] = kw["pH_range"]
    if "read_dat_method" in kw:
        kw["file_type"] = kw["read_dat_method"]
    if not isnull(row.get("read_dat_method")):
        kw["file_type"] = row["read_dat_method"]
    out = {}
    for k in keys:
        if not isnull(row.get(k)):
            out[k] = row[k]
        elif k in kw:
            out[k] = kw[k]
    return out


@contract("kwargs_for", ["meta._get_kwargs_for"], max_paths=5000)
def k_kwargs_for(c):
    """Every combination for three keys (the function treats keys alike)."""
    keys = {"a", "b", "total_borate"}
    kw, row = {}, {}
    if c.choice("other", [False, True]):
        row["other"], kw["other"] = c.value("row.other", lambda r: 1), c.value("kw.other", lambda r: 2)
    for k in sorted(keys):
        s = c.choice("row:" + k, ["absent", "nan", "None", "NA", "value"])
        if s != "absent":
            row[k] = NULLS[s] if s in NULLS else c.value("row." + k, lambda r: r.choice(["x", 0, 1.5, False, ""]))
        if c.choice("kw:" + k, ["absent", "value"]) == "value":
            kw[k] = c.value("kw." + k, lambda r: r.choice(["y", 0, 2.5, False, ""]))
    use_row = c.choice("row given", [True, False])
    snap, srow = dict(kw), dict(row)
    r = c.row(row)
    got = c.call("meta._get_kwargs_for", keys, kw, *([r] if use_row else []))
    want = {}
    for k in keys:
        if use_row and not isnull(row.get(k)):
            want[k] = row[k]
        elif k in kw:
            want[k] = kw[k]
    c.eq("row value beats keyword", dict(got), want)
    c.true("keywords unchanged", list(kw) == list(snap) and all(kw[k] is snap[k] for k in kw))
    c.true("row unchanged", list(r.index) == list(srow))


# --------------------------------------------------------------- one titration

def result_stub(c, kind):
    """files.solve as an uninterpreted function of its arguments returning a
    result of the given kind (or failing)."""
    if c.mode != "sym":
        return
    import inspect

    from vc import sym as S
    from vc import terms as T
    from vc.sym import SArr, SNum, Space

    core = c.mod("core")
    cls = {"emf": "SolveEmfResult", "pH": "SolvePhResult", "pH_gran": "SolvePhGranResult"}.get(kind)
    c.mod("files")

    def make(orig):
        sig = inspect.signature(orig)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            tk = c.opaque_call("files.solve", b.arguments)
            c.run.stub_calls["files.solve"] = c.run.stub_calls.get("files.solve", 0) + 1
            if kind not in ("emf", "pH", "pH_gran"):
                raise FAILURES[kind]
            q = f"sr{tk.key_id}"
            n = T.var(q + ".n:len", "I", "+")
            sp = Space.get(n)
            arr = lambda x, sort="R": SArr(sp, T.app(f"{q}.{x}", (T.IX,), sort))
            num = lambda x: SNum(T.var(f"{q}.{x}", "R"))
            vals = {x: num(x) for x in ("alkalinity", "emf0", "alkalinity_std", "titrant_molinity", "analyte_mass")}
            vals.update({x: arr(x) for x in ("pH", "alkalinity_all", "titrant_mass", "emf", "temperature", "gfunc")})
            vals["used"] = arr("used", "B")
            vals["totals"] = {x: arr(x) for x in ("dic", "total_sulfate", "total_borate", "total_fluoride", "total_phosphate")}
            vals["k_constants"] = {x: arr(x) for x in KCON}
            vals["opt_result"] = vals["lr"] = None
            if kind == "emf":
                G = core.GranGuessesResult
                g = {x: num("ggr." + x) for x in ("alkalinity", "emf0", "intercept_x")}
                g.update({x: arr("ggr." + x) for x in ("gfunc", "emf0s", "pH")})
                g["used"] = arr("ggr.used", "B")
                vals["ggr"] = G(*[g.get(x) for x in G._fields])
            R = getattr(core, cls)
            return R(*[vals[x] for x in R._fields])

        f.__signature__ = sig
        f.__name__ = "solve"
        return f

    if c.package().patch("files.solve", make) is None:
        raise Missing("files.solve")


def stale(c, row):
    """What an earlier run of this or another titration left in the row's
    columns: not settings."""
    if c.choice("processed before", [False, True]):
        for k in FIELDS + ["alkalinity_offset", "titrant_molinity_here"]:
            if k not in row:
                row[k] = c.value("stale." + k, lambda r: r.choice([float("nan"), r.uniform(0.5, 900.0)]))


def blank(row):
    d = {k: NAN for k in FIELDS}
    d.update(alkalinity_npts=0, analyte_mass=row["analyte_mass"])
    return d


def solved_fields(c, kind, sr, row):
    d = blank(row)
    if c.mode == "conc":
        kind = {"SolveEmfResult": "emf", "SolvePhResult": "pH", "SolvePhGranResult": "pH_gran"}[type(sr).__name__]
    d.update(alkalinity_npts=sr.used.sum(), alkalinity=sr.alkalinity, pH_init=sr.pH[0], temperature_init=sr.temperature[0])
    if kind != "pH_gran":
        d.update(alkalinity_std=sr.alkalinity_all[sr.used].std())
    if kind == "emf":
        d.update(emf0=sr.emf0, gran_alkalinity=sr.ggr.alkalinity * 1e6, gran_emf0=sr.ggr.emf0)
    return d


def base_row(c, kind, purpose):
    mol = c.real("titrant_molinity", 0.09, 0.12, pos=True)
    sal = c.real("salinity", 30.0, 37.0, nonneg=True)
    mode = kind if kind in ("pH", "pH_gran") else "emf"
    name, where = files_c._file(c, mode, mol if purpose == "solve" else 0.105, sal)
    row = {"file_name": name, "salinity": sal, "file_good": True, "analyte_mass": c.value("row.analyte_mass", GEN["analyte_mass"]),
           "station": "A", "total_nonsense": 3.0}
    if purpose == "solve":
        row["titrant_molinity"] = mol
    else:
        row["alkalinity_certified"] = c.real("alkalinity_certified", 2100.0, 2500.0, nonneg=True)
    return row, where


def FILE_TYPE(r):
    return r.choice(["genfromtxt", "vindta", "pclims"])  # which does not suit the file


def _val(c, who, k, where):
    if k == "file_path":
        if c.mode == "conc":
            if who == "row":
                return where
            other = os.path.join(where, "other")
            return other
        return c.value(f"{who}.{k}")
    if k == "solve_mode":
        return c.value(f"{who}.{k}", lambda r: r.choice(["emf", "emf", "EMF", "pH_adjust", "ph", "pH_gran"]))
    if k == "titrant_normality" and c.mode == "sym":
        return c.real(f"{who}.{k}", 0.95, 1.1, pos=True)
    if k == "file_type" and who != "row":
        return c.value(f"{who}.{k}", FILE_TYPE)
    return c.value(f"{who}.{k}", GEN[k])


def _put(c, d, who, k, where):
    if c.mode == "conc" and k in files_c.NO_FILE:
        return
    d[k] = _val(c, who, k, where)


def choose_settings(c, row, where, keys):
    """Row and keyword values: one setting in each of its states, with the
    others all absent or all present; or old-style settings."""
    kw = {}
    fixedrow = {"analyte_mass"}
    if c.choice("style", ["current", "old"]) == "current":
        k = c.choice("setting", keys)
        others = c.choice("others", ["none", "row", "keyword", "both"])
        rs = c.choice("in the row", ["absent", "nan", "None", "NA", "value"])
        ks = c.choice("as a keyword", ["absent", "value"])
        for o in keys:
            if o == k or (c.mode == "conc" and c.choice("skip " + o, [True, True, True, True, False])):
                continue
            if others in ("row", "both"):
                _put(c, row, "row", o, where)
            if others in ("keyword", "both"):
                _put(c, kw, "kw", o, where)
        if others == "both":
            row["latitude"], kw["ham"] = c.value("row.latitude", lambda r: 12.5), c.value("kw.ham", lambda r: 1)
        if rs == "absent" and k not in fixedrow:
            row.pop(k, None)
        elif rs == "nan" or (rs == "absent" and k in fixedrow):
            row[k] = NAN
        elif rs in NULLS:
            row[k] = NULLS[rs]
        else:
            _put(c, row, "row", k, where)
        if ks == "value":
            _put(c, kw, "kw", k, where)
    else:
        rdk = c.choice("read_dat_kwargs", ["absent", "empty", "all"] + READ)
        if rdk != "absent":
            kw["read_dat_kwargs"] = {}
            for o in [] if rdk == "empty" else READ if rdk == "all" else [rdk]:
                _put(c, kw["read_dat_kwargs"], "rdk", o, where)
        if c.choice("pH_range", [False, True]):
            kw["pH_range"] = [c.value("rng.lo", GEN["pH_min"]), c.value("rng.hi", GEN["pH_max"])]
        if rdk in ("absent", "empty") and c.choice("read_dat_method", [False, True]):
            kw["read_dat_method"] = c.value("kw.rdm", FILE_TYPE)
        elif c.choice("file_type", [False, True]) and rdk not in ("all", "file_type"):
            kw["file_type"] = c.value("kw.file_type", FILE_TYPE)
        rs = c.choice("read_dat_method in the row", ["absent", "nan", "None", "NA", "value"])
        if rs != "absent":
            row["read_dat_method"] = NULLS[rs] if rs in NULLS else c.value("row.rdm", GEN["file_type"])
        if c.choice("row values too", [False, True]):
            for o in READ + ["pH_min", "pH_max"]:
                _put(c, row, "row", o, where)
    if c.mode == "conc":
        if "file_path" not in row and kw.get("file_path") is None:
            row["file_name"] = os.path.join(where, row["file_name"])
        if isnull(row["analyte_mass"]) and isnull(row.get("analyte_volume")) and "analyte_volume" not in kw and \
                isnull(kw.get("analyte_mass")):
            row["analyte_mass"] = 0.1
        if kw.get("file_path") is not None and isnull(row.get("file_path")):
            os.makedirs(kw["file_path"], exist_ok=True)
            src = os.path.join(where, "titration.dat")
            open(os.path.join(kw["file_path"], "titration.dat"), "w").write(open(src).read())
    return kw


def unchanged(c, kw, snap, nested):
    c.true("caller's keywords unchanged", list(kw) == list(snap) and all(kw[k] is snap[k] for k in kw))
    if "read_dat_kwargs" in kw:
        c.true("caller's grouped options unchanged", list(kw["read_dat_kwargs"]) == nested)


@contract("solve_row_settings", ["dataset.solve_row", "dataset._backcompat", "meta._get_kwargs_for"], conc=150)
def k_solve_row_settings(c):
    row, where = base_row(c, "emf", "solve")
    kw = choose_settings(c, row, where, SOLVE_KEYS)
    result_stub(c, "emf")
    eff = effective(kw, row, SOLVE_KEYS)

    def spec():
        return c.call("files.solve", row["file_name"], row["titrant_molinity"], row["salinity"], **eff)

    try:
        want = solved_fields(c, "emf", spec(), row)
    except TargetRaised:
        if c.mode == "sym":
            raise
        want = blank(row)
    snap, nested = dict(kw), list(kw.get("read_dat_kwargs") or [])
    r = c.row(row)
    extra = {"spam": 1} if c.mode == "conc" and c.choice("spam", [False, True]) else {}
    got = c.call("dataset.solve_row", r, **kw, **extra)
    for k in FIELDS:
        if k == "analyte_mass" and c.mode == "conc" and isnull(want[k]):
            c.true("no analyte mass", isnull(got[k]))  # pandas may turn one kind of null into another
            continue
        c.eq("result of solving with the row's settings: " + k, got[k], want[k])
    unchanged(c, kw, snap, nested)


@contract("calibrate_row_settings", ["dataset.calibrate_row", "dataset._backcompat", "meta._get_kwargs_for"], conc=60)
def k_calibrate_row_settings(c):
    row, where = base_row(c, "emf", "calibrate")
    kw = choose_settings(c, row, where, CAL_KEYS)
    c.mod("dataset")
    c.stub("files.calibrate", fields="items")
    eff = effective(kw, row, CAL_KEYS)
    try:
        cal = c.call("files.calibrate", row["file_name"], row["alkalinity_certified"], row["salinity"], **eff)
        want = cal["x"][0]
    except TargetRaised:
        if c.mode == "sym":
            raise
        want = NAN
    snap, nested = dict(kw), list(kw.get("read_dat_kwargs") or [])
    got = c.call("dataset.calibrate_row", c.row(row), **kw)
    c.eq("molinity calibrated with the row's settings", got, want)
    unchanged(c, kw, snap, nested)


@contract("solve_row_results", ["dataset.solve_row", "dataset.add_solve_results"], conc=80)
def k_solve_row_results(c):
    """Results of each kind; blank when bad, without molinity, or failing."""
    what = c.choice("what", ["emf", "pH", "pH_gran", "fails", "bad", "null molinity"])
    kind = what if what in ("emf", "pH", "pH_gran") else "emf"
    row, where = base_row(c, kind, "solve")
    row["file_path"] = where
    row["solve_mode"] = kind
    if what == "bad":
        row["file_good"] = False
    elif what == "null molinity":
        row["titrant_molinity"] = c.choice("null", [NAN, None])
    err = c.choice("error", list(range(len(FAILURES)))) if what == "fails" else None
    if what == "fails" and c.mode == "conc":
        how = err % 3
        if how == 0:
            row["file_name"] = "missing.dat"
        elif how == 1:
            row["solve_mode"] = "nonsense"
        else:
            row["titrant_amount_unit"] = "pints"
    stale(c, row)
    verbose = c.choice("verbose", [False, True])
    result_stub(c, err if what == "fails" else kind)
    if what == kind:
        want = solved_fields(c, kind, c.call("files.solve", row["file_name"], row["titrant_molinity"], row["salinity"],
                                             **effective({}, row, SOLVE_KEYS)), row)
    else:
        want = blank(row)
    snap = dict(row)
    r = c.row(row)
    got = c.call("dataset.solve_row", r, verbose=verbose)
    c.eq("the result fields", sorted(got.index), sorted(FIELDS))
    for k in FIELDS:
        c.eq("result: " + k, got[k], want[k])
    c.true("row unchanged", list(r.index) == list(snap))


@contract("calibrate_row_results", ["dataset.calibrate_row"], conc=40)
def k_calibrate_row_results(c):
    what = c.choice("what", ["good", "fails", "bad", "not certified"])
    row, where = base_row(c, "emf", "calibrate")
    row["file_path"] = where
    if what == "bad":
        row["file_good"] = False
    elif what == "not certified":
        row["alkalinity_certified"] = c.choice("null", [NAN, None])
    err = None
    if what == "fails":
        err = c.choice("error", list(range(len(FAILURES))))
        if c.mode == "conc":
            row["file_name"] = "missing.dat"
    c.mod("dataset")
    if what == "fails" and c.mode == "sym":
        def make(orig):
            def f(*a, **k):
                raise FAILURES[err]
            return f
        c.package().patch("files.calibrate", make)
    else:
        c.stub("files.calibrate", fields="items")
    stale(c, row)
    verbose = c.choice("verbose", [False, True])
    want = NAN
    if what == "good":
        want = c.call("files.calibrate", row["file_name"], row["alkalinity_certified"], row["salinity"],
                      **effective({}, row, CAL_KEYS))["x"][0]
    got = c.call("dataset.calibrate_row", c.row(row), verbose=verbose)
    c.eq("molinity of the row, missing unless good, certified and calibrated", got, want)


# --------------------------------------------------------------- whole tables

SALTS = ["total_sulfate", "total_borate", "total_fluoride"]


def salts_from_salinity(c, salt, salinity, opt):
    if c.mode == "sym":
        return c.pyco2.sys(salinity=salinity, opt_total_borate=opt)[salt]
    return [float(c.pyco2.sys(salinity=s, opt_total_borate=o)[salt]) for s, o in zip(salinity, opt)]


def filled(c, col, other):
    """col, with its missing cells taken from other."""
    if c.mode == "sym":
        return c.np.where(c.pd.isnull(col), other, col)
    n = len(col)
    other = [other] * n if not isinstance(other, (list, tuple)) else other
    return [o if isnull(v) else v for v, o in zip(col, other)]


def constant(c, n, v):
    return c.np.full(n, v) if c.mode == "sym" else [v] * n


def cells(c, ds, k):
    return ds[k] if c.mode == "sym" else [None if isnull(v) else v for v in ds[k]]


def table_inputs(c, n, salts="any", opt="any"):
    cols = {"salinity": c.column("salinity", n, nan=False, lo=0.0, hi=42.0)}
    for s in SALTS:
        w = c.choice(s, ["absent", "values", "null"]) if salts == "any" else salts
        if w == "values":
            cols[s] = c.column(s, n, lo=0.0, hi=30000.0, values=lambda r, i: r.choice([0.0, r.uniform(1, 3e4)]))
        elif w == "null":
            cols[s] = constant(c, n, NAN)
    w = c.choice("opt_total_borate", ["absent", "values"]) if opt == "any" else opt
    if w == "values":
        cols["opt_total_borate"] = c.column("opt_total_borate", n, values=lambda r, i: r.choice([1, 2]))
    return cols


def salts_spec(c, n, cols, kwopt):
    """The columns after the missing salt contents are filled."""
    default = 1 if kwopt is None else kwopt
    opt = filled(c, cols["opt_total_borate"], default) if "opt_total_borate" in cols else constant(c, n, default)
    out = {"opt_total_borate": opt}
    for s in SALTS:
        want = salts_from_salinity(c, s, cols["salinity"], opt)
        out[s] = filled(c, cols[s], want) if s in cols else want
    return out


def eq_col(c, clause, ds, k, want):
    c.true("column present: " + k, k in ds)
    if k in ds:
        c.eq(clause, cells(c, ds, k), want)


@contract("total_salts", ["dataset.get_total_salts"], conc=60)
def k_total_salts(c):
    n = c.length("n", 1, 6)
    cols = table_inputs(c, n)
    kwopt = c.choice("keyword", [None, 1, 2])
    if kwopt is not None:
        kwopt = c.real("kw.opt_total_borate", 1, 2) if c.mode == "sym" else kwopt
    cols["other"] = c.column("other", n)
    want = salts_spec(c, n, cols, kwopt)
    ds = c.table(n, cols)
    r = c.call("dataset.prepare", _with_mass(c, ds, cols, n), **({} if kwopt is None else {"opt_total_borate": kwopt}))
    for k in want:
        eq_col(c, "filled where missing, kept where present: " + k, ds, k, want[k])
    for k in ("salinity", "other"):
        eq_col(c, "other columns kept: " + k, ds, k, cols[k])


def _with_mass(c, ds, cols, n):
    ds["analyte_mass"] = cols["analyte_mass"] = c.column("analyte_mass", n, lo=0.09, hi=0.11)
    return ds


@contract("prepare", ["dataset.prepare"], conc=60)
def k_prepare(c):
    n = c.length("n", 1, 6)
    cols = table_inputs(c, n, salts="absent", opt="absent")
    amount = c.choice("amount", ["mass", "volume", "both", "neither"])
    if amount in ("mass", "both"):
        cols["analyte_mass"] = c.column("analyte_mass", n, lo=0.09, hi=0.11)
    if amount in ("volume", "both"):
        cols["analyte_volume"] = c.column("analyte_volume", n, lo=90, hi=110)
    if c.choice("file_good", [True, False]):
        cols["file_good"] = c.boolarray("file_good", n)
    w = c.choice("titrant_amount_unit", ["absent", "values"])
    if w == "values":
        cols["titrant_amount_unit"] = c.column("titrant_amount_unit", n, values=lambda r, i: r.choice(["ml", "g", "kg"]))
    kw = {}
    if c.choice("unit keyword", [False, True]):
        kw["titrant_amount_unit"] = c.choice("unit", ["g", "kg"])
    ds = c.table(n, dict(cols))
    if amount == "neither":
        return c.raises("neither mass nor volume is rejected", "dataset.prepare", ds, **kw)
    c.call("dataset.prepare", ds, **kw)
    eq_col(c, "analyte mass kept, created only when absent", ds, "analyte_mass", cols.get("analyte_mass", constant(c, n, NAN)))
    eq_col(c, "file_good kept, created only when absent", ds, "file_good", cols["file_good"] if "file_good" in cols else constant(c, n, True))
    if w == "values":
        unit = kw.get("titrant_amount_unit", "ml")
        if c.mode == "sym":
            from vc.shims import string
            unit = string(unit)
        eq_col(c, "titrant_amount_unit: own value, else keyword, else ml", ds, "titrant_amount_unit",
               filled(c, cols["titrant_amount_unit"], unit))
    for k in ("salinity", "analyte_volume"):
        if k in cols:
            eq_col(c, "other columns kept: " + k, ds, k, cols[k])
    for k in ds.columns:
        c.true("no other columns made", k in cols or k in SALTS + ["opt_total_borate", "analyte_mass", "file_good"])


@contract("prepare_rejects", ["dataset.prepare", "dataset.solve", "dataset.calibrate"])
def k_prepare_rejects(c):
    n = c.length("n", 1, 4)
    full = {"salinity": 35.0, "analyte_mass": 0.1, "file_name": "x.dat", "titrant_molinity": 0.1, "alkalinity_certified": 2300.0}
    f, miss = c.choice("case", [("dataset.prepare", "salinity"), ("dataset.solve", "titrant_molinity"), ("dataset.solve", "salinity"),
                                ("dataset.solve", "analyte_mass"), ("dataset.calibrate", "alkalinity_certified"),
                                ("dataset.calibrate", "salinity"), ("dataset.calibrate", "analyte_mass")])
    cols = {}
    for k, v in full.items():
        if k != miss:
            cols[k] = c.column(k, n, nan=False, values=lambda r, i, v=v: v)
    c.raises("missing column is rejected", f, c.table(n, cols))


@contract("group_calibration", ["dataset.get_group_calibration"])
def k_group_calibration(c):
    n = c.length("n", 1, 8)
    here = c.array("titrant_molinity_here", n, 0.09, 0.11, nan=True)
    good = c.boolarray("reference_good", n)
    ds = c.table(n, {"titrant_molinity_here": here, "reference_good": good})
    r = c.call("dataset.get_group_calibration", ds)
    if c.mode == "sym":
        from vc import frames
        from vc import terms as T
        use = frames.CSeries(here.space.filter(T.land(good.elem, T.lnot(here.nan))), here.elem)
        mean, std, count = use.mean(), use.std(), use.count()
    else:
        v = [x for x, g in zip(here, good) if g and x == x]
        mean = sum(v) / len(v) if v else NAN
        std = math.sqrt(sum((x - mean) ** 2 for x in v) / (len(v) - 1)) if len(v) > 1 else NAN
        count = len(v)
    c.eq("mean over the good calibrated references", r["titrant_molinity"], mean)
    c.eq("sample standard deviation over the same", r["titrant_molinity__std"], std, atol=1e-15)
    c.eq("count of the same", r["titrant_molinity__count"], count)


OLD = ["pH_range", "read_dat_kwargs", "read_dat_method"]
READS = sorted(set(CAL_KEYS) | set(OLD) | {"file_name", "file_good", "salinity", "titrant_molinity", "alkalinity_certified"})


def row_stubs(c):
    """calibrate_row and solve_row as uninterpreted functions of the keywords
    and of the row's settings, file and certified value or molinity (what
    their own contracts allow them to depend on)."""
    if c.mode == "sym":
        from vc import sym as S
        from vc import terms as T
        from vc import tok
        from vc.frames import LSeries
        from vc.sym import SNum

        def of_row(name, row, kw, sort):
            k = tok.Tok.call("kw", kw).key_id
            args = []
            use = [q for q in READS if q in row.index and q != ("titrant_molinity" if name.startswith("cal") else "alkalinity_certified")]
            for q in use:
                t, n = S.elem_of(row[q])
                if t.sort == "B":
                    t = T.ite(t, T.ONE, T.ZERO)
                if n is not T.FALSE:
                    args.append(T.ite(n, T.ONE, T.ZERO))
                    t = T.ite(n, T.ZERO, T.toreal(t))
                else:
                    args.append(T.ZERO)
                args.append(T.toreal(t))
            return T.app(f"{name}[{','.join(use)};{k}]", tuple(args), sort)

        def cal(orig):
            def calibrate_row(row, verbose=False, **kw):
                return SNum(of_row("calibrate_row", row, kw, "R"), of_row("calibrate_row.nan", row, kw, "B"))
            return calibrate_row

        def sol(orig):
            def solve_row(row, verbose=False, **kw):
                return LSeries({f: row["analyte_mass"] if f == "analyte_mass" else SNum(of_row("solve_row." + f, row, kw, "R"), of_row(f"solve_row.{f}.nan", row, kw, "B")) for f in FIELDS})
            return solve_row

        for f, m in (("dataset.calibrate_row", cal), ("dataset.solve_row", sol)):
            if c.package().patch(f, m) is None:
                raise Missing(f)


def fake_file(rng, i, kind):
    """Strong-acid titration rows cheap to solve."""
    return i


def dataset_inputs(c, purpose):
    """A table of titrations with arbitrary cells; concretely with real files,
    some of them missing, marked bad, or without molinity or certified value."""
    n = c.length("n", 1, 5)
    c.n = n
    salts = c.choice("salts", ["absent", "values"])
    cols = {"salinity": c.column("salinity", n, nan=False, lo=30.0, hi=36.0),
            "analyte_mass": c.column("analyte_mass", n, nan=False, values=lambda r, i: 0.1)}
    for s in SALTS:
        if salts == "values":
            lim = {"total_sulfate": (27000, 29000), "total_borate": (380, 440), "total_fluoride": (60, 80)}[s]
            cols[s] = c.column(s, n, lo=lim[0], hi=lim[1])
    if c.choice("file_good", [True, False]):
        cols["file_good"] = c.boolarray("file_good", n)
    cols["extra"] = c.column("extra", n)
    if purpose == "calibrate" or c.choice("certified", [True, False]):
        cols["alkalinity_certified"] = c.column("alkalinity_certified", n, lo=2150.0, hi=2350.0)
    if purpose == "solve":
        cols["titrant_molinity"] = c.column("titrant_molinity", n, lo=0.095, hi=0.11)
    if c.choice("results of an earlier run", [False, True]):
        left = [k for k in FIELDS if k != "analyte_mass"] + ["alkalinity_offset"] * ("alkalinity_certified" in cols)
        left += ["titrant_molinity_here", "titrant_molinity"] * (purpose == "calibrate")
        for k in left:
            cols[k] = c.column("earlier " + k, n, lo=0.2, hi=0.3)
    kw = {}
    if c.mode == "sym":
        cols["file_name"] = c.column("file_name", n, nan=False)
        if c.choice("keywords", [False, True]):
            kw = {"pH_min": c.real("kw.pH_min"), "opt_total_borate": c.real("kw.opt_total_borate"), "titrant_normality": c.value("kw.normality")}
    else:
        names = []
        for i in range(n):
            bad = c.value("missing file %d" % i, lambda r: r.random() < 0.2)
            nm, where = _numbered_file(c, i)
            names.append("missing.dat" if bad else nm)
        cols["file_name"] = names
        kw["file_path"] = where
        kw["pH_max"] = c.value("pH_max", lambda r: r.uniform(3.8, 4.2))
        for k, opts in (("read_dat_method", [None, None, "vindta", "pclims"]), ("file_type", [None, "genfromtxt", "pclims"]),
                        ("pH_min", [None, 3.0, 3.2]), ("dic", [None, 0.0, 50.0])):
            v = c.value("cells " + k, lambda r: [r.choice(opts) for _ in range(n)] if r.random() < 0.4 else None)
            if v is not None:
                cols[k] = (v * n)[:n]
        if c.choice("keywords", [False, True]):
            kw["opt_total_borate"] = 2
            kw["titrant_normality"] = 1.01
    return n, cols, kw


def _numbered_file(c, i):
    saved = c.record.get("value:file rows")
    name, where = files_c._file(c, "emf", 0.1025, 33.0, label="file rows %d" % i, name="t%d.dat" % i)
    return name, where


def prepared(c, n, cols, kw):
    """The table after dataset.prepare (its own contracts: total_salts, prepare)."""
    out = dict(cols)
    if c.mode == "sym":
        t = c.table(n, dict(cols))
        c.call("dataset.prepare", t, **kw)
        return {k: t[k] for k in t.columns}
    out.update(salts_spec(c, n, cols, kw.get("opt_total_borate")))
    if "file_good" not in out:
        out["file_good"] = constant(c, n, True)
    return out


def rows_of(c, n, cols, f):
    """f(row) for every row."""
    if c.mode == "sym":
        from vc.frames import SFrame
        from vc.sym import Space
        return SFrame(cols, space=Space.get(n.t)).apply(f, axis=1)
    return [f(c.row({k: v[i] if not isinstance(v, (int, float)) else v for k, v in cols.items()})) for i in range(n)]


def solved_columns(c, n, cols, kw):
    res = rows_of(c, n, cols, lambda row: c.call("dataset.solve_row", row, **kw))
    out = {k: res[k] if c.mode == "sym" else [r[k] for r in res] for k in FIELDS}
    if "alkalinity_certified" in cols:
        a, b = out["alkalinity"], cols["alkalinity_certified"]
        out["alkalinity_offset"] = a - b if c.mode == "sym" else [x - y for x, y in zip(a, b)]
    return out


def check_table(c, ds, want, cols, clause):
    for k, v in want.items():
        eq_col(c, f"{clause}: {k}", ds, k, v)
    for k in cols:
        if k not in want:
            eq_col(c, "input column kept: " + k, ds, k, cols[k])


def entry(c, ds, what, kw):
    """The function, or the method of a Dataset."""
    f = c.fn("dataset." + what)
    how = c.choice("called as", ["function", "method", "verbose"])
    if how == "verbose":
        kw = dict(kw, verbose=True)
    if how == "method":
        D = c.mod("classes").Dataset
        if not hasattr(D, what):
            raise Missing("classes:Dataset." + what)
        if c.mode == "conc":
            ds = D(ds)
        f = getattr(D, what)
    r = c.guard(f, ds, **kw)
    if c.choice("runs", ["once", "twice"]) == "twice":
        r = c.guard(f, r, **kw)
    return r, ds


@contract("solve_table", ["dataset.solve"], conc=30)
def k_solve_table(c):
    n, cols, kw = dataset_inputs(c, "solve")
    c.mod("dataset")
    row_stubs(c)
    base = prepared(c, n, cols, kw)
    want = solved_columns(c, n, base, kw)
    full = {**base, **want}
    ds = c.table(n, dict(cols))
    order = list(ds.index) if c.mode == "conc" else None
    snap = dict(kw)
    r, ds = entry(c, ds, "solve", kw)
    check_table(c, r, full, {}, "each row is its own result")
    c.true("no other columns", set(r.columns) <= set(full))
    c.true("same rows in the same order", c.mode == "sym" or list(r.index) == order)
    c.true("caller's keywords unchanged", list(kw) == list(snap) and all(kw[k] is snap[k] for k in kw))
    if c.mode == "conc":
        c.true("the given table is the one updated", r is ds)


@contract("known_keywords", ["dataset.solve", "dataset.calibrate"], conc=40)
def k_known_keywords(c):
    """A recognised keyword is not reported as ignored; another one is, and
    does not stop the work."""
    n = c.length("n", 1, 3)
    c.n = n
    what = c.choice("function", ["solve", "calibrate"])
    k = c.choice("keyword", CAL_KEYS + OLD)
    spam = c.choice("unknown keyword", [False, True])
    cols = {"salinity": c.column("salinity", n, nan=False, lo=30.0, hi=36.0),
            "analyte_mass": c.column("analyte_mass", n, nan=False, lo=0.09, hi=0.11),
            "titrant_molinity": c.column("titrant_molinity", n, nan=False, lo=0.09, hi=0.11),
            "alkalinity_certified": c.column("alkalinity_certified", n, nan=False, lo=2150.0, hi=2350.0),
            "file_good": constant(c, n, False)}
    cols["file_name"] = c.column("file_name", n, nan=False) if c.mode == "sym" else ["missing.dat"] * n
    if k == "pH_range":
        v = [3.0, 4.0]
    elif k == "read_dat_kwargs":
        v = {o: c.value("rdk." + o, GEN[o]) for o in READ}
    elif k == "opt_total_borate":
        v = 2
    else:
        v = c.value("kw", GEN.get(k, lambda r: r.choice(["vindta", "emf", "x"])))
    kw = {k: v}
    if spam:
        kw["spam"] = c.value("spam", lambda r: 1)
    c.mod("dataset")
    row_stubs(c)
    ds = c.table(n, dict(cols))
    before = len(c.warnings())
    c.call("dataset." + what, ds, **kw)
    said = c.warnings()[before:]
    words = " ".join(said).replace(",", " ").replace("'", " ").replace('"', " ").replace("[", " ").replace("]", " ").split()
    c.true("recognised keywords are not reported as ignored", k not in words and not any(o in words for o in (v if isinstance(v, dict) else [])))
    c.true("an unrecognised keyword is reported", ("spam" in words) == spam)


@contract("calibrate_table", ["dataset.calibrate", "dataset.calkulate", "dataset.get_batches", "dataset.get_group_calibration"], conc=20)
def k_calibrate_table(c):
    n, cols, kw = dataset_inputs(c, "calibrate")
    batches = c.choice("analysis_batch", ["values", "absent"])
    marks = c.choice("reference_good", ["values", "absent"])
    if batches == "values":
        # at least one titration has a batch
        some = c.choice("a titration without a batch", [False, True])
        cols["analysis_batch"] = c.column("analysis_batch", n, nan=some, values=lambda r, i: r.choice([1, 2, 7.5]))
        if c.mode == "conc" and all(isnull(b) for b in cols["analysis_batch"]):
            cols["analysis_batch"][0] = 1
        if c.mode == "conc" and c.value("batches are named", lambda r: r.random() < 0.4):
            names = {1: "NBC-1", 2: "NBC-2", 7.5: ""}
            cols["analysis_batch"] = [None if isnull(b) else names[b] for b in cols["analysis_batch"]]
    if marks == "values":
        cols["reference_good"] = c.boolarray("reference_good", n)
    c.mod("dataset")
    row_stubs(c)
    base = prepared(c, n, cols, kw)
    here = rows_of(c, n, base, lambda row: c.call("dataset.calibrate_row", row, **kw))
    base["titrant_molinity_here"] = here
    if c.mode == "sym":
        base.setdefault("analysis_batch", c.np.full(n, 0))
        base.setdefault("reference_good", ~c.np.isnan(here.to_numpy()))
        mol = c.batch_stat("mean", here, c.pd.Series(base["analysis_batch"]), base["reference_good"])
    else:
        base.setdefault("analysis_batch", [0] * n)
        base.setdefault("reference_good", [x == x for x in here])
        mol = c.batch_stat("mean", here, base["analysis_batch"], base["reference_good"])
    ds = c.table(n, dict(cols))
    order = list(ds.index) if c.mode == "conc" else None
    snap = dict(kw)
    r, ds = entry(c, ds, c.choice("function", ["calibrate", "calkulate"]), kw)
    eq_col(c, "each row's own calibrated molinity", r, "titrant_molinity_here", here)
    eq_col(c, "mean over the batch's good calibrated references", r, "titrant_molinity", mol)
    base["titrant_molinity"] = r["titrant_molinity"] if c.mode == "sym" else list(r["titrant_molinity"])
    want = solved_columns(c, n, base, kw)
    for k in base:
        if k not in ("titrant_molinity", "titrant_molinity_here") and k not in want:
            eq_col(c, "column kept or filled: " + k, r, k, base[k])
    for k in want:
        eq_col(c, "solved with the batch molinity: " + k, r, k, want[k])
    c.true("no other columns", set(r.columns) <= set(base) | set(want))
    c.true("same rows in the same order", c.mode == "sym" or list(r.index) == order)
    c.true("caller's keywords unchanged", list(kw) == list(snap) and all(kw[k] is snap[k] for k in kw))
    if c.mode == "conc":
        c.true("the given table is the one updated", r is ds)
