"""Contracts on calkulate/files.py and core.totals_ks."""

import math
import os

from contracts import convert_c, core_c
from contracts.core_c import K0, SETS
from vc.harness import Rejected, contract

READ = ["col_measurement", "col_temperature", "col_titrant_amount", "delimiter", "encoding", "file_type", "n_cols", "skip_header"]
CAU = ["analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl", "molinity_NaCl", "temperature_override", "titrant",
       "titrant_amount_unit", "titrant_density"]
TOT = ["dic", "total_alpha", "total_beta", "total_ammonia", "total_phosphate", "total_silicate", "total_sulfide",
       "total_borate", "total_fluoride", "total_sulfate"]
KCON = list(K0)
OPT_T = ["opt_k_carbonic", "opt_total_borate"]
OPT_K = ["opt_k_bisulfate", "opt_k_carbonic", "opt_k_fluoride", "opt_pH_scale", "opt_total_borate"]
TITRANT = list(core_c.TITRANT)
EMF = ["alkalinity_init", "double", "emf0_init", "gran_logic", "pH_max", "pH_min", "titrant_normality"]
PH = ["pH_max", "pH_min", "titrant_normality"]
TOTKS = sorted(set(TOT + KCON + OPT_T + OPT_K + ["dilute_totals_for_ks"]))
ALL = sorted(set(READ + CAU + TOTKS + TITRANT + EMF + ["titrant_molinity_init"]))

GEN = {
    "col_measurement": lambda r: 1, "col_temperature": lambda r: 2, "col_titrant_amount": lambda r: 0,
    "delimiter": lambda r: "\t", "encoding": lambda r: "utf-8", "file_type": lambda r: r.choice(["genfromtxt", "vindta"]),
    "skip_header": lambda r: r.choice([2, 3]),
    "analyte_mass": lambda r: r.uniform(0.095, 0.105), "analyte_volume": lambda r: r.uniform(95.0, 105.0),
    "molinity_H2SO4": lambda r: r.uniform(0.06, 0.2), "molinity_HCl": lambda r: r.uniform(0.05, 0.2),
    "molinity_NaCl": lambda r: r.uniform(0.3, 0.7), "temperature_override": lambda r: r.uniform(20.0, 27.0),
    "titrant": lambda r: r.choice(["HCl", "H2SO4"]), "titrant_amount_unit": lambda r: r.choice(["ml", "g", "G", "mL"]),
    "titrant_density": lambda r: r.uniform(1.0, 1.05),
    "dic": lambda r: r.uniform(0, 100.0), "total_alpha": lambda r: r.uniform(1, 20.0), "total_beta": lambda r: r.uniform(1, 20.0),
    "total_ammonia": lambda r: r.uniform(1, 20.0), "total_phosphate": lambda r: r.uniform(1, 20.0),
    "total_silicate": lambda r: r.uniform(1, 20.0), "total_sulfide": lambda r: r.uniform(1, 20.0),
    "total_borate": lambda r: r.uniform(300, 500.0), "total_fluoride": lambda r: r.uniform(50, 90.0),
    "total_sulfate": lambda r: r.uniform(20000, 30000.0),
    "dilute_totals_for_ks": lambda r: r.choice([True, False]),
    "opt_k_bisulfate": lambda r: r.choice([1, 2]), "opt_k_carbonic": lambda r: r.choice([4, 10, 13]),
    "opt_k_fluoride": lambda r: r.choice([1, 2]), "opt_pH_scale": lambda r: r.choice([1, 2, 3]),
    "opt_total_borate": lambda r: r.choice([1, 2]),
    "titrant_total_sulfate": lambda r: r.uniform(0, 1.0), "titrant_total_phosphate": lambda r: r.uniform(0, 0.01),
    "titrant_total_fluoride": lambda r: r.uniform(0, 0.01),
    "alkalinity_init": lambda r: r.uniform(2000, 2600.0), "double": lambda r: r.choice([True, False]),
    "emf0_init": lambda r: r.uniform(600, 610.0), "gran_logic": lambda r: r.choice(["v23.7+", "legacy"]),
    "pH_max": lambda r: r.uniform(3.7, 4.2), "pH_min": lambda r: r.uniform(2.8, 3.2),
    "titrant_normality": lambda r: r.uniform(0.95, 1.1), "titrant_molinity_init": lambda r: r.uniform(0.08, 0.12),
    "n_cols": lambda r: None,
}
for _k in KCON:
    GEN[_k] = lambda r, k=_k: K0[k] * r.uniform(0.9, 1.1)
NO_FILE = ["n_cols"]  # pclims only: concretely exercised by the reader's own contracts


# ----------------------------------------------------------- core.totals_ks

def pick_settings(c, keys, extra=()):
    """Which settings are given: none, all, exactly one, all but one, or a
    random subset (concretely)."""
    keys = list(keys)
    opts = ["none", "all", "random"] + ["+" + k for k in keys] + ["-" + k for k in keys]
    w = c.choice("settings", opts)
    if w == "none":
        return []
    if w == "all":
        return keys
    if w == "random":
        if c.mode == "sym":
            return [k for i, k in enumerate(keys) if i % 2]
        return [k for k in keys if c.choice("random:" + k, [True, False, False, False])]
    return [w[1:]] if w[0] == "+" else [k for k in keys if k != w[1:]]


def settings(c, keys):
    return {k: c.value(k, GEN[k]) for k in keys}


def opaque_get_totals(c, sig, sal, kw):
    """Contract used for interface.get_totals: some totals and PyCO2SYS-style
    totals, functions of the arguments."""
    b = sig.bind(sal, **kw)
    b.apply_defaults()
    names = [k for k in b.arguments]
    vals, lits = [], []
    for k in names:
        v = b.arguments[k]
        if v is None or isinstance(v, (str, bool)):
            lits.append(f"{k}={v!r}")
        else:
            lits.append(k)
            vals.append(v)
    tag = ",".join(lits)
    t = {k: c.opaque(f"get_totals.{k}[{tag}]", *vals) for k in ("dic", "total_borate", "total_fluoride", "total_sulfate", "total_phosphate")}
    py = {k: c.opaque(f"get_totals.pyco2.{k}[{tag}]", *vals) for k in ("Sal", "TB", "TF", "TSO4", "TPO4", "TSi", "TNH3", "TH2S", "TCa", "alpha", "beta", "PengCorrection")}
    return t, py


def opaque_get_k(c, sig, py, t, kw):
    b = sig.bind(py, t, **kw)
    b.apply_defaults()
    vals, lits = [], []
    for k, v in b.arguments.items():
        if k == "totals_pyco2":
            for kk in sorted(v):
                lits.append("T." + kk)
                vals.append(v[kk])
        elif v is None or isinstance(v, (str, bool)):
            lits.append(f"{k}={v!r}")
        else:
            lits.append(k)
            vals.append(v)
    tag = ",".join(lits)
    return {k: c.opaque(f"get_k.{k}[{tag}]", *vals) for k in KCON}


@contract("totals_ks", ["core.totals_ks"])
def k_totals_ks(c):
    n = c.length("n", 2, 6)
    Converted = c.mod("convert").Converted
    m = c.array("titrant_mass", n, 0.0, 0.005, nonneg=True)
    e = c.array("measurement", n, 100.0, 600.0)
    t = c.array("temperature", n, 15.0, 30.0, nonneg=True)
    M = c.real("analyte_mass", 0.05, 0.25, pos=True)
    sal = c.real("salinity", 25.0, 40.0, nonneg=True)
    cv = Converted(*[dict(titrant_mass=m, measurement=e, temperature=t, analyte_mass=M, salinity=sal)[k] for k in Converted._fields])
    keys = pick_settings(c, TOT + KCON + sorted(set(OPT_T + OPT_K)))
    kw = {}
    for k in keys:
        if k.startswith("opt_"):
            kw[k] = c.integer(k, 1, 3 if k == "opt_pH_scale" else 2) if k != "opt_k_carbonic" else c.integer(k, 9, 15)
        elif k.startswith("k_"):
            kw[k] = c.real(k, K0[k] * 0.5, K0[k] * 2, pos=True)
        else:
            kw[k] = c.real(k, 0.0, 400.0, nonneg=True)
    dil = c.choice("dilute_totals_for_ks", ["absent", True, False])
    unknown = c.choice("unknown setting", [False, True])
    if c.mode == "sym":
        sigs = {}

        def patch(dotted, fn):
            import inspect

            def make(orig):
                sigs[dotted] = inspect.signature(orig)
                f = fn(sigs[dotted])
                f.__signature__ = sigs[dotted]
                return f
            if c.package().patch(dotted, make) is None:
                from vc.harness import Missing
                raise Missing(dotted)

        patch("interface.get_totals", lambda sig: lambda salinity, **k: opaque_get_totals(c, sig, salinity, k))
        patch("interface.get_k_constants", lambda sig: lambda totals_pyco2, temperature, **k: opaque_get_k(c, sig, totals_pyco2, temperature, k))
        T, py = opaque_get_totals(c, sigs["interface.get_totals"], sal, {k: v for k, v in kw.items() if k in TOT + OPT_T})
    else:
        T, py = c.call("interface.get_totals", sal, **{k: v for k, v in kw.items() if k in TOT + OPT_T})
    f = M / (m + M)
    want_t = {k: v * f for k, v in T.items()}
    pyd = dict(py)
    if dil is True:
        pyd = convert_c.s_dilute_totals_pyco2(c, py, m, M)
    kk = {k: v for k, v in kw.items() if k in KCON + OPT_K}
    want_k = opaque_get_k(c, sigs["interface.get_k_constants"], pyd, t, kk) if c.mode == "sym" else \
        c.call("interface.get_k_constants", pyd, t, **kk)
    args = dict(kw)
    if dil != "absent":
        args["dilute_totals_for_ks"] = dil
    if unknown:
        args.update(spam=1, titrant_normality=2.0, file_type="x")
    snap = c.snapshot((m, e, t))
    totals, ks = c.call("core.totals_ks", cv, **args)
    c.eq("the substances of the analyte", sorted(totals), sorted(want_t))
    for k in want_t:
        c.eq("total diluted by the titrant: " + k, totals[k], want_t[k])
    c.eq("the constants", sorted(ks), sorted(want_k))
    for k in want_k:
        c.eq("constant at each temperature: " + k, ks[k], want_k[k])
    c.same("caller's data unchanged", (m, e, t), snap)


# -------------------------------------------------------------------- files

MODES = {"emf": ("emf", "EMF", "Emf"), "ph_adjust": ("pH_adjust", "ph_adjust", "PH_ADJUST"), "ph": ("pH", "ph", "PH"),
         "ph_gran": ("pH_gran", "ph_gran", "PH_Gran")}


def _mode(c):
    mode = c.choice("mode", ["default"] + list(MODES))
    c.rest = False
    if mode == "default":
        return "emf", {}
    rest = c.mode == "conc" or c.choice("focus", ["settings", "rest"]) == "rest"
    c.rest = rest
    return mode, {"solve_mode": MODES[mode][c.choice("spelling", [0, 1, 2]) if rest else 0]}


def _file(c, mode, mol, sal, label="file rows", name="titration.dat"):
    """A real file (concretely); its name and directory."""
    if c.mode == "sym":
        return name, "some/where"
    rng = c.rng
    M, at = 0.1, rng.uniform(2.1e-3, 2.5e-3)
    n = rng.randint(16, 30)
    eqv = M * at / mol
    tot = {"total_sulfate": 0.028 * sal / 35, "total_fluoride": 7e-5 * sal / 35, "total_borate": 4e-4 * sal / 35}
    rows = []
    for i in range(n):
        m = 1.7 * eqv * i / (n - 1)
        t = 24.0 + rng.uniform(-0.3, 0.3)
        f = M / (M + m)
        h = core_c._h_for((M * at - m * mol) / (M + m), {k: v * f for k, v in tot.items()}, K0)
        v = (605.0 + core_c.R * (t + core_c.T0) / core_c.F * math.log(h) + rng.uniform(-1, 1) * 0.05) if mode == "emf" else \
            -math.log10(h) + rng.uniform(-1, 1) * 0.002
        rows.append("%.9f\t%.9f\t%.6f" % (m / 1.0235 * 1000, v, t))
    rows = c.value(label, lambda r: rows)
    with open(os.path.join(c.tmpdir(), name), "w") as fh:
        fh.write("line 0\nline 1\n" + "\n".join(rows) + "\n")
    return name, c.tmpdir()


def _sub(kw, keys):
    return {k: kw[k] for k in kw if k in keys}


CVF = ("titrant_mass", "measurement", "temperature", "analyte_mass", "salinity")


def _stubs(c):
    c.stub("read.titrations.read_dat")
    c.stub("convert.amount_units", fields=CVF)
    c.stub("core.totals_ks", arity=2)
    c.stub("convert.pH_to_emf", "core.add_titrant_totals", "core.solve_emf", "core.solve_pH", "core.solve_pH_gran",
           "core.calibrate_emf", "core.calibrate_pH", "core.calibrate_pH_gran")


def pipeline(c, fn, sal, kw):
    dd = c.call("read.titrations.read_dat", fn, **_sub(kw, READ))
    cv = c.call("convert.amount_units", dd, sal, **_sub(kw, CAU))
    totals, ks = c.call("core.totals_ks", cv, **_sub(kw, TOTKS))
    return cv, totals, ks


def _given(c, mode):
    rest = c.rest and c.mode == "sym"
    keys = (ALL if c.choice("settings", ["all", "none"]) == "all" else []) if rest else pick_settings(c, ALL)
    if c.mode == "conc":
        keys = [k for k in keys if k not in NO_FILE]
    kw = settings(c, keys)
    if c.mode == "conc":
        if "analyte_volume" in kw and "analyte_mass" in kw and c.choice("mass null", [True, False]):
            kw["analyte_mass"] = None
        elif "analyte_volume" not in kw:
            kw.setdefault("analyte_mass", 0.1)
        if "titrant_total_phosphate" in kw:  # the total has to be among the totals
            kw.setdefault("total_phosphate", c.value("total_phosphate", GEN["total_phosphate"]))
    unknown = (c.rest or c.mode == "conc") and c.choice("unknown setting", [False, True])
    if unknown:
        kw["spam"] = "eggs"
        kw["titrant_total_borate"] = 1
    return kw, unknown


def _where(c, name, where, kw):
    if c.mode == "sym":
        how = c.choice("file_path", ["given", "absent", "trailing"]) if c.rest else "given"
    else:
        how = c.choice("file_path", ["given", "absent"])
    if how == "absent":
        return os.path.join(where, name), os.path.join(where, name)
    kw["file_path"] = where + ("/" if how == "trailing" else "")
    return name, os.path.join(where, name)


def _same_result(c, r, want):
    if c.mode == "sym":
        return c.eq("result of the mode's solver on the file's data", r, want)
    c.eq("kind of result", type(r).__name__, type(want).__name__)
    for k in want._fields:
        if k not in ("opt_result", "ggr", "lr"):
            c.eq("result: " + k, getattr(r, k), getattr(want, k), rtol=1e-9)
    if hasattr(want, "ggr"):
        c.eq("result: ggr", r.ggr.alkalinity, want.ggr.alkalinity)


@contract("file_solve", ["files.solve"], conc=200)
def k_file_solve(c):
    mode, mk = _mode(c)
    mol = c.real("titrant_molinity", 0.09, 0.12, pos=True)
    sal = c.real("salinity", 30.0, 37.0, nonneg=True)
    name, where = _file(c, mode, mol, sal)
    kw, unknown = _given(c, mode)
    fn, full = _where(c, name, where, kw)
    _stubs(c)

    def spec():
        cv, totals, ks = pipeline(c, full, sal, kw)
        totals = c.call("core.add_titrant_totals", totals, cv.titrant_mass, cv.analyte_mass, mol, **_sub(kw, TITRANT))
        common = (cv.temperature, cv.analyte_mass, totals, ks)
        if mode == "emf":
            return c.call("core.solve_emf", mol, cv.titrant_mass, cv.measurement, *common, **_sub(kw, EMF))
        if mode == "ph_adjust":
            emf = c.call("convert.pH_to_emf", cv.measurement, 0, cv.temperature)
            return c.call("core.solve_emf", mol, cv.titrant_mass, emf, *common, **{**_sub(kw, EMF), "emf0_init": 0})
        f = "core.solve_pH" if mode == "ph" else "core.solve_pH_gran"
        return c.call(f, mol, cv.titrant_mass, cv.measurement, *common, **_sub(kw, PH))

    want = c.oracle(spec)
    if c.mode == "conc" and not c.np.all(c.np.isfinite(want.alkalinity)):
        raise Rejected()
    snap = dict(kw)
    r = c.call("files.solve", fn, mol, sal, **mk, **kw)
    _same_result(c, r, want)
    c.true("caller's settings unchanged", list(kw) == list(snap) and all(kw[k] is snap[k] for k in kw))


@contract("file_calibrate", ["files.calibrate"], conc=60)
def k_file_calibrate(c):
    mode, mk = _mode(c)
    cert = c.real("alkalinity_certified", 2100.0, 2500.0, nonneg=True)
    sal = c.real("salinity", 30.0, 37.0, nonneg=True)
    name, where = _file(c, mode, 0.105, sal)
    kw, unknown = _given(c, mode)
    fn, full = _where(c, name, where, kw)
    _stubs(c)

    def spec():
        cv, totals, ks = pipeline(c, full, sal, kw)
        common = (cv.temperature, cv.analyte_mass, totals, ks)
        cal = EMF + TITRANT + ["titrant_molinity_init"]
        if mode == "emf":
            return c.call("core.calibrate_emf", cert, cv.titrant_mass, cv.measurement, *common, **_sub(kw, cal))
        if mode == "ph_adjust":
            emf = c.call("convert.pH_to_emf", cv.measurement, 0, cv.temperature)
            return c.call("core.calibrate_emf", cert, cv.titrant_mass, emf, *common, **{**_sub(kw, cal), "emf0_init": 0})
        f = "core.calibrate_pH" if mode == "ph" else "core.calibrate_pH_gran"
        return c.call(f, cert, cv.titrant_mass, cv.measurement, *common, **_sub(kw, PH + TITRANT + ["titrant_molinity_init"]))

    want = c.oracle(spec)
    w0 = len(c.warnings())
    snap = dict(kw)
    r = c.call("files.calibrate", fn, cert, sal, **mk, **kw)
    w = [x for x in c.warnings()[w0:] if "spam" in x]
    c.eq("an unknown setting is reported", len(w), 1 if unknown else 0)
    if c.mode == "sym":
        c.eq("result of the mode's calibration on the file's data", r, want)
    else:
        c.eq("calibrated molinity", r["x"], want["x"], rtol=1e-9)
    c.true("caller's settings unchanged", list(kw) == list(snap) and all(kw[k] is snap[k] for k in kw))


@contract("file_mode_rejected", ["files.solve", "files.calibrate"])
def k_file_mode_rejected(c):
    bad = c.choice("bad", ["ph-adjust", "", "emf0", "gran", "pH gran", "EMF "])
    f = c.choice("function", ["files.solve", "files.calibrate"])
    name, where = _file(c, "emf", 0.1, 35.0)
    _stubs(c)
    c.raises("any other mode is rejected", f, os.path.join(where, name), 0.1 if f == "files.solve" else 2300.0, 35.0,
             solve_mode=bad, analyte_mass=0.1)
