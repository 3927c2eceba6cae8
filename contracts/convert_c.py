"""Contracts on calkulate/convert.py."""

from collections import namedtuple

from vc.harness import contract, spec

F = 96.4853365  # kC/mol
R = 8.3144621  # J/(K mol)
T0 = 273.15

DatData = namedtuple("DatData", ("titrant_amount", "measurement", "temperature"))

# ---------------------------------------------------------------- C01 Nernst


@spec("convert.emf_to_h")
def s_emf_to_h(c, emf, emf0, temperature):
    return c.np.exp((emf - emf0) * F / (R * (temperature + T0)))


@spec("convert.h_to_emf")
def s_h_to_emf(c, h, emf0, temperature):
    return emf0 + c.np.log(h) * (R * (temperature + T0) / F)


@spec("convert.emf_to_pH")
def s_emf_to_pH(c, emf, emf0, temperature):
    return -((emf - emf0) * F / (R * (temperature + T0))) / c.np.log(10.0)


@spec("convert.pH_to_emf")
def s_pH_to_emf(c, pH, emf0, temperature):
    return emf0 - pH * c.np.log(10.0) * R * (temperature + T0) / F


@spec("convert.f_to_demf0")
def s_f_to_demf0(c, f, temperature):
    return c.np.log(f) * R * (temperature + T0) / F


def _nernst_inputs(c):
    n = c.length("n", 1, 6)
    kind = c.choice("shape", ["scalar", "array", "array-scalarT", "integers"])
    if kind == "scalar":
        x = c.real("emf", -300.0, 900.0)
        t = c.real("temperature", 0.0, 45.0, nonneg=True)
        h = c.real("h", 1e-10, 0.1, pos=True)
        pH = c.real("pH", 1.0, 12.0)
    else:
        ints = kind == "integers"
        x = c.array("emf", n, -300.0, 900.0, ints=ints)
        h = c.array("h", n, 1e-10, 0.1, pos=True)
        pH = c.array("pH", n, 1.0, 12.0, ints=ints)
        if kind != "array-scalarT":
            t = c.array("temperature", n, 0.0, 45.0, nonneg=True, ints=ints)
        else:
            t = c.real("temperature", 0.0, 45.0, nonneg=True)
    e0 = c.real("emf0", 200.0, 800.0)
    return x, h, pH, e0, t


@contract("nernst", ["convert.emf_to_h", "convert.emf_to_pH", "convert.h_to_emf", "convert.pH_to_emf"])
def k_nernst(c):
    emf, h, pH, e0, t = _nernst_inputs(c)
    snap = c.snapshot((emf, h, pH, t))
    c.eq("[H+] from EMF follows the Nernst equation", c.call("convert.emf_to_h", emf, e0, t),
         s_emf_to_h(c, emf, e0, t))
    c.eq("pH is -log10 [H+]", c.call("convert.emf_to_pH", emf, e0, t), s_emf_to_pH(c, emf, e0, t), atol=1e-11)
    c.eq("EMF from [H+] follows the Nernst equation", c.call("convert.h_to_emf", h, e0, t),
         s_h_to_emf(c, h, e0, t), atol=1e-9)
    c.eq("EMF from pH follows the Nernst equation", c.call("convert.pH_to_emf", pH, e0, t),
         s_pH_to_emf(c, pH, e0, t), atol=1e-9)
    c.same("inputs are left as they were", (emf, h, pH, t), snap)


@contract("nernst_inverse", ["convert.emf_to_h", "convert.emf_to_pH", "convert.h_to_emf", "convert.pH_to_emf"])
def k_nernst_inverse(c):
    emf, h, pH, e0, t = _nernst_inputs(c)
    c.eq("EMF -> [H+] -> EMF", c.call("convert.h_to_emf", c.call("convert.emf_to_h", emf, e0, t), e0, t),
         emf, atol=1e-8)
    c.eq("[H+] -> EMF -> [H+]", c.call("convert.emf_to_h", c.call("convert.h_to_emf", h, e0, t), e0, t), h)
    c.eq("EMF -> pH -> EMF", c.call("convert.pH_to_emf", c.call("convert.emf_to_pH", emf, e0, t), e0, t),
         emf, atol=1e-8)
    c.eq("pH -> EMF -> pH", c.call("convert.emf_to_pH", c.call("convert.pH_to_emf", pH, e0, t), e0, t),
         pH, atol=1e-10)
    c.eq("pH is -log10 of [H+]", c.call("convert.emf_to_pH", emf, e0, t),
         -c.np.log10(c.call("convert.emf_to_h", emf, e0, t)), atol=1e-11)
    d = c.real("shift", 0.001, 50.0, pos=True)
    lo = c.call("convert.emf_to_pH", emf, e0, t)
    hi = c.call("convert.emf_to_pH", emf + d, e0, t)
    c.true("pH falls strictly as the EMF rises", hi < lo)


@contract("f_to_demf0", ["convert.f_to_demf0"])
def k_f_to_demf0(c):
    kind = c.choice("shape", ["scalar", "array", "integers"])
    if kind == "scalar":
        f = c.real("f", 0.5, 2.0, pos=True)
        t = c.real("temperature", 0.0, 45.0, nonneg=True)
        emf = c.real("emf", -300.0, 900.0)
    else:
        n = c.length("n", 1, 6)
        f = c.array("f", n, 0.5, 2.0, pos=True)
        ints = kind == "integers"
        t = c.array("temperature", n, 0.0, 45.0, nonneg=True, ints=ints)
        emf = c.array("emf", n, -300.0, 900.0, ints=ints)
    e0 = c.real("emf0", 200.0, 800.0)
    d = c.call("convert.f_to_demf0", f, t)
    c.eq("definition", d, s_f_to_demf0(c, f, t), atol=1e-12)
    # moving emf0 by d divides [H+] by f
    c.eq("an EMF0 shift of f_to_demf0(f) divides [H+] by f",
         c.call("convert.emf_to_h", emf, e0 + d, t) * f, c.call("convert.emf_to_h", emf, e0, t))


# -------------------------------------------------------------- C02 dilution


@spec("convert.get_dilution_factor")
def s_dilution(c, titrant_mass, analyte_mass):
    return analyte_mass / (titrant_mass + analyte_mass)


@spec("convert.dilute_totals")
def s_dilute_totals(c, totals, titrant_mass, analyte_mass):
    f = s_dilution(c, titrant_mass, analyte_mass)
    return {k: v * f for k, v in totals.items()}


PYCO2_DILUTED = ("TB", "TF", "TSO4", "TCa", "alpha", "beta", "TPO4", "TSi", "TNH3", "TH2S")


@spec("convert.dilute_totals_pyco2")
def s_dilute_totals_pyco2(c, totals_pyco2, titrant_mass, analyte_mass):
    f = s_dilution(c, titrant_mass, analyte_mass)
    return {k: (v * f if k in PYCO2_DILUTED else v) for k, v in totals_pyco2.items()}


CALK_TOTALS = ("dic", "total_alpha", "total_beta", "total_ammonia", "total_silicate", "total_phosphate",
               "total_sulfide", "total_borate", "total_fluoride", "total_sulfate")


def _masses(c):
    kind = c.choice("masses", ["array", "scalar"])
    if kind == "array":
        n = c.length("n", 1, 6)
        tm = c.array("titrant_mass", n, 0.0, 0.01, nonneg=True)
    else:
        tm = c.real("titrant_mass", 0.0, 0.01, nonneg=True)
    am = c.real("analyte_mass", 0.02, 0.5, pos=True)
    return tm, am


@contract("dilute_totals", ["convert.get_dilution_factor", "convert.dilute_totals"])
def k_dilute(c):
    tm, am = _masses(c)
    names = c.choice("which", [list(CALK_TOTALS), ["total_borate"], ["total_sulfate", "dic"], ["acetate", "dic", "TB", "k"], []])
    totals = {k: c.real(k, 0.0, 0.03, nonneg=True) for k in names}
    snap, tsnap = c.snapshot(totals), c.snapshot(tm)
    f = c.call("convert.get_dilution_factor", tm, am)
    c.eq("dilution factor = analyte / (titrant + analyte)", f, s_dilution(c, tm, am))
    r = c.call("convert.dilute_totals", totals, tm, am)
    c.eq("every total is diluted", r, s_dilute_totals(c, totals, tm, am))
    for k in names:
        c.eq(f"amount of substance is conserved: {k}", r[k] * (tm + am), totals[k] * am)
    c.same("caller's totals unchanged", totals, snap)
    c.same("caller's masses unchanged", tm, tsnap)


@contract("dilute_totals_arrays", ["convert.dilute_totals"])
def k_dilute_arrays(c):
    n = c.length("n", 1, 6)
    tm = c.array("titrant_mass", n, 0.0, 0.01, nonneg=True)
    am = c.real("analyte_mass", 0.02, 0.5, pos=True)
    totals = {k: c.array(k, n, 0.0, 0.03, nonneg=True) for k in CALK_TOTALS}
    snap = c.snapshot(totals)
    r = c.call("convert.dilute_totals", totals, tm, am)
    for k in totals:
        c.eq(f"every total is diluted [{k}]", r[k], totals[k] * (am / (am + tm)))
    c.eq("no total is added or lost", sorted(r), sorted(totals))
    c.same("caller's totals unchanged", totals, snap)


PY_KEYS = ("TNH3", "TPO4", "TSi", "TH2S", "TB", "TF", "TSO4", "TCa", "alpha", "beta")


@contract("dilute_totals_pyco2", ["convert.dilute_totals_pyco2"])
def k_dilute_pyco2(c):
    tm, am = _masses(c)
    some = c.choice("which", [list(PY_KEYS), ["TB", "TF", "TSO4"], ["TPO4", "TSi"]])
    tp = {k: c.real(k, 0.0, 0.03, nonneg=True) for k in some}
    tp["Sal"] = c.real("Sal", 0.0, 45.0, nonneg=True)
    snap = c.snapshot(tp)
    r = c.call("convert.dilute_totals_pyco2", tp, tm, am)
    want = {k: v * am / (tm + am) for k, v in tp.items() if k != "Sal"}
    want["Sal"] = tp["Sal"]
    c.eq("contents diluted, salinity not", r, want)
    c.same("caller's totals unchanged", tp, snap)


@contract("totals_to_pyco2", ["convert.totals_to_pyco2"])
def k_totals_to_pyco2(c):
    own = {"total_ammonia": "TNH3", "total_phosphate": "TPO4", "total_silicate": "TSi", "total_sulfide": "TH2S",
           "total_borate": "TB", "total_fluoride": "TF", "total_sulfate": "TSO4",
           "total_alpha": "total_alpha", "total_beta": "total_beta", "total_calcium": "total_calcium"}
    sal = c.real("salinity", 0.0, 45.0)
    shape = c.choice("shape", ["scalar", "array"])
    skip = c.choice("absent", [None] + list(own) + ["all"])
    n = c.length("n", 1, 6)
    mk = (lambda k: c.real(k, 0.0, 0.03)) if shape == "scalar" else (lambda k: c.array(k, n, 0.0, 0.03))
    totals = {k: mk(k) for k in own if k != skip and skip != "all"}
    totals["dic"] = mk("dic")
    snap = c.snapshot(totals)
    r = c.call("convert.totals_to_pyco2", totals, sal)
    want = {v: (totals[k] if k in totals else 0.0) for k, v in own.items()}
    want["Sal"] = sal
    c.eq("each substance maps to its own counterpart", r, want)
    c.same("caller's totals unchanged", totals, snap)


@contract("dilute_H2SO4", ["convert.dilute_totals_H2SO4", "convert.dilute_totals_pyco2_H2SO4"])
def k_dilute_h2so4(c):
    tm, am = _masses(c)
    mol = c.real("titrant_molinity", 0.001, 1.0, nonneg=True)
    names = c.choice("which", [list(CALK_TOTALS), ["total_borate", "total_sulfate"], ["total_borate"]])
    totals = {k: c.real(k, 0.0, 0.03, nonneg=True) for k in names}
    snap = c.snapshot(totals)
    r = c.call("convert.dilute_totals_H2SO4", totals, mol, tm, am)
    want = {k: (v * am + (mol * tm if k == "total_sulfate" else 0)) / (tm + am) for k, v in totals.items()}
    c.eq("sulfate mixed in, everything else diluted", r, want)
    c.same("caller's totals unchanged", totals, snap)
    tp = {k: c.real("py_" + k, 0.0, 0.03, nonneg=True) for k in PY_KEYS}
    tp["Sal"] = c.real("Sal", 0.0, 45.0)
    snap = c.snapshot(tp)
    r = c.call("convert.dilute_totals_pyco2_H2SO4", tp, mol, tm, am)
    want = {k: (v * am + (mol * tm if k == "TSO4" else 0)) / (tm + am) for k, v in tp.items()}
    want["Sal"] = tp["Sal"]
    c.eq("PyCO2SYS-style: sulfate mixed in, everything else diluted", r, want)
    c.same("PyCO2SYS-style: caller's totals unchanged", tp, snap)


# ------------------------------------------------------------ C03 amount_units


def _spellings(c, unit):
    return c.choice("spelling", [unit, unit.upper(), unit.capitalize()])


Converted = namedtuple("Converted", ("titrant_mass", "measurement", "temperature", "analyte_mass", "salinity"))


@spec("convert.amount_units")
def s_amount_units(c, dat_data, salinity, analyte_mass=None, analyte_volume=None, molinity_H2SO4=0.1,
                   molinity_HCl=0.1, molinity_NaCl=0.6, temperature_override=None, titrant_amount_unit="ml",
                   titrant_density=None, titrant="HCl"):
    from contracts.density_c import s_h2so4, s_hcl_nacl, s_seawater

    u = titrant_amount_unit.lower()
    ta = dat_data.titrant_amount
    t = dat_data.temperature if temperature_override is None else c.np.full_like(dat_data.temperature, temperature_override, dtype=float)
    if u == "kg":
        tm = ta
    elif u == "g":
        tm = ta / 1000
    else:
        if titrant_density is not None:
            rho = titrant_density
        elif titrant.upper() == "H2SO4":
            rho = s_h2so4(c, molinity_H2SO4)
        else:
            rho = s_hcl_nacl(c, molinity_HCl, molinity_NaCl)
        tm = ta * rho / 1000
    if analyte_mass is None or (c.mode == "conc" and analyte_mass != analyte_mass):
        am = analyte_volume * s_seawater(c, t[0], salinity) / 1000
    else:
        am = analyte_mass
    return Converted(tm, dat_data.measurement, t, am, salinity)


def dat(c, n=None, mlo=100.0, mhi=700.0, ints=False):
    if n is None:
        n = c.length("n", 1, 6)
    return DatData(c.array("titrant_amount", n, 0.0, 5.0, nonneg=True, ints=ints), c.array("measurement", n, mlo, mhi, ints=ints),
                   c.array("temperature", n, 0.0, 39.0, nonneg=True, ints=ints))


@contract("amount_units", ["convert.amount_units"])
def k_amount_units(c):
    c.use("density.seawater_1atm_MP81", "density.HCl_NaCl_25C_DSC07", "density.H2SO4_25C_EAIM")
    dd = dat(c, ints=c.choice("dtype", ["float", "int"]) == "int")
    snap = c.snapshot(dd)
    sal = c.real("salinity", 0.0, 42.0, nonneg=True)
    unit = c.choice("unit", ["ml", "g", "kg", None])
    kw = {}
    if unit is not None:
        kw["titrant_amount_unit"] = _spellings(c, unit)
    if unit in ("ml", None):
        rho = c.choice("density", ["given", "HCl", "HCl default", "H2SO4", "H2SO4 default", "unset"])
        if rho == "given":
            kw["titrant_density"] = c.real("titrant_density", 0.9, 1.3, pos=True)
        elif rho.startswith("HCl"):
            kw["titrant"] = c.choice("titrant spelling", ["HCl", "hcl", "HCL"])
            if rho == "HCl":
                kw["molinity_HCl"] = c.real("molinity_HCl", 0.0, 0.5, nonneg=True)
                kw["molinity_NaCl"] = c.real("molinity_NaCl", 0.0, 0.9, nonneg=True)
        elif rho.startswith("H2SO4"):
            kw["titrant"] = c.choice("titrant spelling", ["H2SO4", "h2so4"])
            if rho == "H2SO4":
                kw["molinity_H2SO4"] = c.real("molinity_H2SO4", 0.0, 2.9, nonneg=True)
    a = c.choice("analyte", ["mass", "volume", "null mass and volume", "both"])
    if a in ("mass", "both"):
        kw["analyte_mass"] = c.real("analyte_mass", 0.02, 0.5, pos=True)
    if a == "null mass and volume":
        kw["analyte_mass"] = float("nan")
    if a in ("volume", "null mass and volume", "both"):
        kw["analyte_volume"] = c.real("analyte_volume", 20.0, 300.0, pos=True)
    if c.choice("override", [False, True]):
        kw["temperature_override"] = c.real("temperature_override", 0.0, 39.0, nonneg=True)
    r = c.call("convert.amount_units", dd, sal, **kw)
    kw2 = dict(kw)
    if a == "null mass and volume":
        kw2.pop("analyte_mass")
    w = s_amount_units(c, dd, sal, **kw2)
    for f in w._fields:
        c.eq(f"{f}", getattr(r, f), getattr(w, f))
    c.same("imported data unchanged", dd, snap)


@contract("amount_units_rejects", ["convert.amount_units"])
def k_amount_units_rejects(c):
    dd = dat(c)
    sal = c.real("salinity", 0.0, 42.0, nonneg=True)
    am = c.real("analyte_mass", 0.02, 0.5, pos=True)
    bad = c.choice("bad", ["unit", "titrant", "no analyte"])
    if bad == "unit":
        kw = dict(analyte_mass=am, titrant_amount_unit=c.choice("u", ["l", "mg", "grams", "mol"]))
    elif bad == "titrant":
        kw = dict(analyte_mass=am, titrant=c.choice("t", ["HNO3", "H3PO4", "HClO4"]))
    else:
        kw = {}
    c.raises(f"rejected: {bad}", "convert.amount_units", dd, sal, **kw)
