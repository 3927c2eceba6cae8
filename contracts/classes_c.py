"""Contracts on calkulate/classes.py."""

import math
import os
from types import SimpleNamespace

from contracts import dataset_c, files_c
from contracts.dataset_c import NAN, NULLS, SOLVE_KEYS, isnull
from vc.harness import Rejected, TargetRaised, contract

SPECIES = ["HCO3", "CO3", "BOH4", "PO4", "HPO4", "H3PO4", "HSO4", "HF", "H3SiO4", "NH3", "HS", "OH"]
SYS_TOTALS = ["total_sulfate", "total_fluoride", "total_borate", "total_phosphate", "total_silicate", "total_ammonia", "total_sulfide",
              "total_alpha", "total_beta"]


def titration_settings(kw, row):
    """Keyword, else non-null cell (an old-style one acting like its current
    counterpart), else not given."""
    kw = dict(kw)
    kw.update(kw.get("read_dat_kwargs") or {})
    if "pH_range" in kw:
        kw["pH_min"], kw["pH_max"] = kw["pH_range"]
    if "read_dat_method" in kw:
        kw["file_type"] = kw["read_dat_method"]
    out = {}
    for k in SOLVE_KEYS:
        if not isnull(kw.get(k)):
            out[k] = kw[k]
        elif k not in kw and not isnull(row.get(k)):
            out[k] = row[k]
        elif k == "file_type" and not isnull(row.get("read_dat_method")):
            out[k] = row["read_dat_method"]
    return out


def kind_of(c, sr, kind):
    return kind if c.mode == "sym" else {"SolveEmfResult": "emf", "SolvePhResult": "pH", "SolvePhGranResult": "pH_gran"}[type(sr).__name__]


def expected_table(c, kind, sr, mol, norm, salinity):
    """Name -> values at every titration point."""
    np = c.np
    t = {"titrant_mass": sr.titrant_mass, "temperature": sr.temperature, "pH": sr.pH, "used": sr.used}
    if kind == "emf":
        t.update(emf=sr.emf, gran_func=sr.ggr.gfunc, gran_emf0=sr.ggr.emf0s, gran_pH=sr.ggr.pH, gran_used=sr.ggr.used)
    elif kind == "pH_gran":
        t.update(gran_func=sr.gfunc, gran_used=sr.used)
    t.update(sr.totals)
    t.update(sr.k_constants)
    m, M = sr.titrant_mass, sr.analyte_mass
    t["dilution_factor"] = M / (m + M)
    t["alkalinity_from_acid"] = (1e-6 * sr.alkalinity * M - m * mol * norm) / (M + m)
    tot = {k: sr.totals[k] * 1e6 if k in sr.totals else 0 for k in SYS_TOTALS}
    res = c.pyco2.sys(par1=sr.totals["dic"] * 1e6, par2=sr.pH, par1_type=2, par2_type=3, opt_pH_scale=3, salinity=salinity,
                      temperature=sr.temperature, **tot, **sr.k_constants)
    t["alkalinity_from_pH"] = res["alkalinity"] * 1e-6
    t["k_CO2"] = res["k_CO2"]
    for s in SPECIES:
        t[s] = res[s] * 1e-6
    t["H"] = 10.0 ** -sr.pH
    t["alk_alpha"] = res["alkalinity_alpha"] * 1e-6
    t["alk_beta"] = res["alkalinity_beta"] * 1e-6
    t["alkalinity_estimate"] = (t["alkalinity_from_pH"] + m * mol * norm / (m + M)) / t["dilution_factor"]
    return t


def check_titration(c, tt, kind, sr, row, kw, norm, name):
    full = {**row, **{k: v for k, v in kw.items()}}
    want = {"alkalinity_npts": sr.used.sum(), "alkalinity": sr.alkalinity, "pH_init": sr.pH[0], "temperature_init": sr.temperature[0],
            "analyte_mass": sr.analyte_mass}
    if kind != "pH_gran":
        want["alkalinity_std"] = sr.alkalinity_all[sr.used].std()
    if kind == "emf":
        want.update(emf0=sr.emf0, gran_alkalinity=sr.ggr.alkalinity * 1e6, gran_emf0=sr.ggr.emf0)
    for k, v in want.items():
        c.eq("solved as in the dataset: " + k, tt.row[k], v)
        c.eq("available as an attribute: " + k, getattr(tt, k), v)
        c.eq("available as an item: " + k, tt[k], v)
    for k in ("salinity", "titrant_molinity", "station"):
        c.eq("cell or keyword kept: " + k, tt.row[k], full[k])
    table = expected_table(c, kind, sr, full["titrant_molinity"], norm, full["salinity"])
    t = tt.titration
    c.true("the same table under its short name", tt.t is t)
    c.eq("the columns", sorted(t.columns), sorted(table))
    for k, v in table.items():
        if k in t:
            got = t[k] if c.mode == "sym" else t[k].to_numpy()
            if c.mode == "conc":
                v = c.np.broadcast_to(v, got.shape)
            c.eq("at every point: " + k, got, v, rtol=1e-9, atol=1e-18)


def keyword_row(c, row, kw):
    """Keywords for what is not a solver setting."""
    if c.choice("molinity keyword", [False, True]):
        kw["titrant_molinity"] = c.real("kw.titrant_molinity", 0.095, 0.11, pos=True)
    if c.choice("salinity keyword", [False, True]):
        kw["salinity"] = c.real("kw.salinity", 30.0, 37.0, nonneg=True)


def spec_solve(c, row, kw):
    full = {**row, **kw}
    eff = titration_settings(kw, row)
    try:
        sr = c.call("files.solve", full["file_name"], full["titrant_molinity"], full["salinity"], **eff)
    except TargetRaised:
        if c.mode == "sym":
            raise
        raise Rejected()
    return eff, sr


@contract("titration_settings", ["classes.Titration", "dataset._backcompat", "meta._get_kwargs_for"], conc=60)
def k_titration_settings(c):
    row, where = dataset_c.base_row(c, "emf", "solve")
    kw = dataset_c.choose_settings(c, row, where, SOLVE_KEYS)
    c.mod("classes")
    dataset_c.result_stub(c, "emf")
    eff, sr = spec_solve(c, row, kw)
    snap, nested = dict(kw), list(kw.get("read_dat_kwargs") or [])
    srow = dict(row)
    r = c.row(row)
    tt = c.call("classes.Titration", r, **kw)
    kind = kind_of(c, sr, "emf")
    check_titration(c, tt, kind, sr, row, {}, eff.get("titrant_normality", 1), row["file_name"])
    dataset_c.unchanged(c, kw, snap, nested)
    c.true("the given row is unchanged", list(r.index) == list(srow) and all(_same(r[k], srow[k]) for k in srow))


def _same(a, b):
    return a is b or (isnull(a) and isnull(b)) or (type(a) is type(b) and a == b)


@contract("titration_object", ["classes.Titration"], conc=60)
def k_titration_object(c):
    """Each mode, keywords for the row's own cells, and the way in."""
    kind = c.choice("kind", ["emf", "pH", "pH_gran"])
    row, where = dataset_c.base_row(c, kind, "solve")
    row["file_path"] = where
    row["solve_mode"] = kind
    kw = {}
    norm = 1
    n = c.choice("normality", ["absent", "row", "keyword", "both"])
    if n in ("row", "both"):
        norm = row["titrant_normality"] = c.real("titrant_normality", 0.95, 1.1, pos=True)
    if n in ("keyword", "both"):
        norm = kw["titrant_normality"] = c.real("kw.titrant_normality", 0.95, 1.1, pos=True)
    keyword_row(c, row, kw)
    if c.mode == "conc" and c.choice("by volume", [False, True]):
        row["analyte_mass"] = NAN
        row["analyte_volume"] = c.value("analyte_volume", lambda r: r.uniform(95.0, 105.0))
        if c.choice("no mass column", [False, True]):
            del row["analyte_mass"]
    if c.mode == "conc" and c.choice("nutrients", [False, True]):
        row["total_phosphate"] = 2.5
        row["dic"] = 40.0
    c.mod("classes")
    dataset_c.result_stub(c, kind)
    eff, sr = spec_solve(c, row, kw)
    srow = dict(row)
    r = c.row(row)
    how = c.choice("made by", ["Titration", "to_Titration", "Dataset.to_Titration"])
    if how == "Titration":
        tt = c.call("classes.Titration", r, **kw)
    elif c.mode == "sym":
        ds = SimpleNamespace(loc={7: r})
        tt = c.call("classes.to_Titration" if how == "to_Titration" else "classes:Dataset.to_Titration", ds, 7, **kw)
    else:
        D = c.mod("classes").Dataset if how != "to_Titration" else c.pd.DataFrame
        ds = D({k: [v, NAN if k != "file_good" else False] for k, v in row.items()}, index=[7, 3])
        f = c.mod("classes").to_Titration if how == "to_Titration" else D.to_Titration
        tt = c.guard(f, ds, 7, **kw)
    check_titration(c, tt, kind, sr, row, kw, norm, row["file_name"])
    c.true("the given row is unchanged", list(r.index) == list(srow) and all(_same(r[k], srow[k]) for k in srow))


@contract("titration_agrees", ["classes.Titration", "dataset.solve_row"], conc=40)
def k_titration_agrees(c):
    """The object made from a row agrees with the dataset's result for it,
    whichever cells are null."""
    kind = c.choice("kind", ["emf", "pH", "pH_gran"])
    row, where = dataset_c.base_row(c, kind, "solve")
    row["file_path"] = where
    row["solve_mode"] = kind
    row["extra"] = NAN
    k = c.choice("setting", [k for k in SOLVE_KEYS + ["read_dat_method"] if k not in ("file_path", "solve_mode", "n_cols")])
    state = c.choice("state", ["nan", "None", "NA", "value"])
    others = c.choice("others", ["absent", "null", "values"]) if c.mode == "sym" else "absent"
    for o in SOLVE_KEYS + ["read_dat_method"]:
        if o in row and o != k:
            continue
        s = state if o == k else others
        if s == "absent":
            continue
        if s == "value" or s == "values":
            row[o] = c.value("row.rdm", files_c.GEN["file_type"]) if o == "read_dat_method" else dataset_c._val(c, "row", o, where)
        else:
            row[o] = NULLS.get(s, NAN)
    if c.mode == "conc" and isnull(row["analyte_mass"]):
        row["analyte_volume"] = c.value("analyte_volume", lambda r: r.uniform(95.0, 105.0))
    c.mod("classes")
    dataset_c.result_stub(c, kind)
    want = c.call("dataset.solve_row", c.row(row))
    if c.mode == "conc" and isnull(want["alkalinity"]):
        raise Rejected()
    tt = c.call("classes.Titration", c.row(row))
    for f in dataset_c.FIELDS:
        if f in tt.row and f != "analyte_mass":
            c.eq("agrees with the dataset: " + f, tt.row[f], want[f])
    need = ["alkalinity_npts", "alkalinity", "pH_init", "temperature_init"] + (["emf0", "gran_emf0", "gran_alkalinity"] if kind == "emf" else [])
    c.true("reports the same quantities", all(f in tt.row for f in need))


@contract("titration_printed", ["classes.Titration"])
def k_titration_printed(c):
    """Printing names the file, with its directory when there is one."""
    row = {"file_name": c.choice("name", ["a.dat", "x y.txt"])}
    p = c.choice("path", ["absent", "nan", "None", "NA", "some/where", "/abs/dir/"])
    if p != "absent":
        row["file_path"] = NULLS.get(p, p)
    p = None if p in NULLS or p == "absent" else p
    T = c.mod("classes").Titration
    tt = T.__new__(T)
    object.__setattr__(tt, "row", c.row(row))
    f = os.path.join(p, row["file_name"]) if p else row["file_name"]
    for fn in ("__str__", "__repr__"):
        c.eq("names the file: " + fn, c.call("classes:Titration." + fn, tt), f'calkulate.Titration for file "{f}"')
