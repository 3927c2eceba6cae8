"""Contracts on calkulate/core.py."""

import math
from collections import namedtuple

from contracts import simulate_c
from vc.harness import Rejected, contract, spec

F, R, T0 = 96.4853365, 8.3144621, 273.15
LOGIC = ["v23.7+", "legacy"]


# ------------------------------------------------------------------ inputs

def _h_for(alk, tot, ks):
    """[H+] with the given mixture alkalinity (data generator only)."""
    def f(h):
        a = -h + ks["k_water"] / h
        k1, k2 = ks["k_carbonic_1"], ks["k_carbonic_2"]
        a += tot.get("dic", 0) * (k1 * h + 2 * k1 * k2) / (h * h + k1 * h + k1 * k2)
        a += tot.get("total_borate", 0) * ks["k_borate"] / (ks["k_borate"] + h)
        a -= tot.get("total_sulfate", 0) * h / (ks["k_bisulfate"] + h)
        a -= tot.get("total_fluoride", 0) * h / (ks["k_fluoride"] + h)
        return a
    lo, hi = -12.0, -1.0
    for _ in range(70):
        m = 0.5 * (lo + hi)
        if f(10.0 ** m) > alk:
            lo = m
        else:
            hi = m
    return 10.0 ** (0.5 * (lo + hi))


K0 = {"k_water": 5e-14, "k_carbonic_1": 1.1e-6, "k_carbonic_2": 8e-10, "k_borate": 2e-9, "k_phosphoric_1": 0.02,
      "k_phosphoric_2": 9e-7, "k_phosphoric_3": 1.5e-9, "k_silicate": 4e-10, "k_ammonia": 6e-10, "k_sulfide": 3e-7,
      "k_alpha": 1e-5, "k_beta": 1e-7, "k_fluoride": 2.4e-3, "k_bisulfate": 0.1}


class Data:
    pass


def titration(c, measure="emf", totals=("dic", "total_borate", "total_fluoride", "total_sulfate"), ks="array", nmin=6,
              points=(9, 30), normality=True, dtypes=False, missing=False):
    """A titration: any data symbolically, realistic noisy data concretely; with dtypes, also files in which
    every EMF and temperature happens to be a whole number (so numpy and pandas read integers)."""
    d = Data()
    ints = dtypes and c.choice("dtype", ["float", "int"]) == "int"
    d.n = c.length("n", nmin, 12) if c.mode == "sym" else c.length("n", points[0], points[1])
    n = d.n
    d.analyte_mass = c.real("analyte_mass", 0.05, 0.25, pos=True)
    d.molinity = c.real("titrant_molinity", 0.05, 0.3, pos=True)
    d.normality = c.real("titrant_normality", 0.9, 2.1, pos=True) if normality else 1
    st = {}
    if c.mode == "conc":
        rng = c.rng
        at = rng.uniform(1.2e-3, 3e-3)
        eq = d.analyte_mass * at / (d.molinity * d.normality)
        stop = rng.uniform(1.35, 2.2) * eq
        st["emf0"] = rng.uniform(300.0, 700.0)
        st["noise"] = rng.choice([0.0, 0.02, 0.2])
        st["t"] = rng.uniform(15.0, 30.0)
        st["dt"] = rng.choice([0.0, 0.0, 0.4, 5.0])
        st["mass"] = [stop * i / (n - 1) for i in range(n)]
        st["at"] = at

        def temperature():
            return [st["t"] + st["dt"] * rng.uniform(-1, 1) for _ in range(n)]
    else:
        temperature = None
    d.titrant_mass = c.array("titrant_mass", n, 0.0, 0.006, nonneg=True, gen=lambda: st["mass"])
    d.temperature = c.array("temperature", n, 10.0, 30.0, nonneg=True, gen=temperature, ints=ints)
    rel = {"dic": 2e-3, "total_borate": 4e-4, "total_fluoride": 7e-5, "total_sulfate": 0.028}

    def mk(k, gen_scalar, arr, sg):
        if arr:
            return c.array(k, n, 0.0, 0.03, gen=lambda: [gen_scalar() for _ in range(n)], **sg)
        v = c.real(k, 0.0, 0.03, **sg)
        if c.mode == "conc" and k not in c.fixed:
            v = c.record[k] = gen_scalar()
        return v

    d.totals = {}
    for k in totals:
        if c.mode == "conc":
            r0 = rel.get(k, 5e-6)
            top = c.rng.choice([0.0, 1.0, 1.0]) * r0 * c.rng.uniform(0.5, 1.5)
            if k == "dic":
                top *= c.rng.choice([0.0, 0.05, 1.0])
        else:
            top = 0
        if ks != "scalar":
            d.totals[k] = c.array(k, n, 0.0, 0.03, nonneg=True,
                                  gen=lambda: [top * d.analyte_mass / (d.analyte_mass + m) for m in d.titrant_mass])
        else:
            d.totals[k] = mk(k, lambda: top, False, dict(nonneg=True))
    d.ks = {}
    for k in simulate_c.KS:
        f = c.rng.uniform(0.8, 1.2) if c.mode == "conc" else 1
        arr = ks == "array" or (ks == "mixed" and k in ("k_bisulfate", "k_carbonic_1"))
        d.ks[k] = mk(k, lambda: K0[k] * f * (1 if not arr else c.rng.uniform(0.99, 1.01)), arr, dict(pos=True))

    def measured():
        out = []
        for i in range(n):
            m, M, t = float(d.titrant_mass[i]), d.analyte_mass, float(d.temperature[i])
            pick = lambda v: float(v[i]) if hasattr(v, "__len__") else float(v)
            h = _h_for((M * st["at"] - m * d.molinity * d.normality) / (M + m), {k: pick(v) for k, v in d.totals.items()},
                       {k: pick(v) for k, v in d.ks.items()})
            e = st["emf0"] + R * (t + T0) / F * math.log(h) + c.rng.uniform(-1, 1) * st["noise"]
            out.append(e if measure == "emf" else -math.log10(h) + c.rng.uniform(-1, 1) * st["noise"] * 0.05)
        if c.rng.random() < 0.15:  # a disturbed reading
            out[c.rng.randrange(n)] += c.rng.uniform(-1, 1) * (120 if measure == "emf" else 2)
        if missing and c.rng.random() < 0.3:  # missing readings
            for i in c.rng.sample(range(n), c.rng.randint(1, 3)):
                out[i] = math.nan
        return out

    if measure == "emf":
        d.meas = d.emf = c.array("emf", n, 100.0, 600.0, gen=measured, ints=ints)
    else:
        d.meas = d.pH = c.array("pH", n, 2.5, 7.0, gen=measured, nan=missing)
    return d


def finite(c, *xs):
    if c.mode == "conc":
        for x in xs:
            if not c.np.all(c.np.isfinite(x)):
                raise Rejected()


def norm_kw(c, d, kw):
    """normality: given or left out"""
    if c.choice("normality", ["given", "absent"]) == "given":
        kw["titrant_normality"] = d.normality
        return d.normality
    return 1


# -------------------------------------------------------------------- Gran

def g_function(c, m, e, t, M):
    return (m + M) * c.np.exp(e * F / (R * (t + T0)))


def g_used(c, g, logic):
    top = c.np.max(g)
    if logic == "v23.7+":
        return c.index(g) >= c.first(g > 0.1 * top)
    return (g > 0.1 * top) & (g < 0.9 * top)


GranAlk = namedtuple("GranAlkalinityResult", ("alkalinity", "gfunc", "used", "intercept_x", "lr"))
GranGuess = namedtuple("GranGuessesResult", GranAlk._fields + ("emf0", "emf0s", "pH"))


@spec("core.gran_alkalinity")
def s_gran_alkalinity(c, titrant_mass, emf, temperature, analyte_mass, titrant_molinity, titrant_normality=1,
                      gran_logic="v23.7+"):
    g = g_function(c, titrant_mass, emf, temperature, analyte_mass)
    used = g_used(c, g, gran_logic)
    lr = c.linregress(titrant_mass[used], g[used])
    ix = -lr.intercept / lr.slope
    return GranAlk(ix * titrant_molinity * titrant_normality / analyte_mass, g, used, ix, lr)


@contract("gran_function", ["core.gran_function"])
def k_gran_function(c):
    shape = c.choice("shape", ["array", "integers", "scalar"])
    if shape != "scalar":
        n, ints = c.length("n", 1, 6), shape == "integers"
        m = c.array("titrant_mass", n, 0.0, 0.005, nonneg=True)
        e = c.array("emf", n, 100.0, 700.0, ints=ints)
        t = c.array("temperature", n, 0.0, 35.0, nonneg=True, ints=ints)
    else:
        m, e, t = c.real("titrant_mass", 0.0, 0.005, nonneg=True), c.real("emf", 100.0, 700.0), c.real("temperature", 0.0, 35.0, nonneg=True)
    M = c.real("analyte_mass", 0.05, 0.25, pos=True)
    snap = c.snapshot((m, e, t))
    c.eq("Gran function", c.call("core.gran_function", m, e, t, M), g_function(c, m, e, t, M))
    c.same("caller's data unchanged", (m, e, t), snap)


@contract("gran_alkalinity", ["core.gran_alkalinity", "core.gran_function"])
def k_gran_alkalinity(c):
    d = titration(c, totals=("dic",), ks="scalar", nmin=3, points=(3, 25), dtypes=True)
    logic = c.choice("gran_logic", [None] + LOGIC)
    kw = {} if logic is None else {"gran_logic": logic}
    norm = norm_kw(c, d, kw)
    snap = c.snapshot((d.titrant_mass, d.emf, d.temperature))
    want = c.oracle(s_gran_alkalinity, c, d.titrant_mass, d.emf, d.temperature, d.analyte_mass, d.molinity, norm,
                    logic or "v23.7+")
    finite(c, want.gfunc, want.alkalinity, want.lr.rvalue)
    w0 = len(c.warnings())
    r = c.call("core.gran_alkalinity", d.titrant_mass, d.emf, d.temperature, d.analyte_mass, d.molinity, **kw)
    c.eq("fields", list(r._fields), ["alkalinity", "gfunc", "used", "intercept_x", "lr"])
    c.eq("Gran function", r.gfunc, want.gfunc)
    c.eq("selected points", r.used, want.used)
    c.eq("regression slope over the selected points", r.lr.slope, want.lr.slope, rtol=1e-7)
    c.eq("regression intercept over the selected points", r.lr.intercept, want.lr.intercept, rtol=1e-7)
    c.eq("x-intercept", r.intercept_x, want.intercept_x, rtol=1e-7)
    c.eq("alkalinity guess", r.alkalinity, want.alkalinity, rtol=1e-7)
    nw = (1 if want.used.sum() < 3 else 0) + (1 if want.lr.rvalue < 0.95 else 0)
    c.eq("a warning exactly for too few points and for a poor correlation", len(c.warnings()) - w0, nw)
    c.same("caller's data unchanged", (d.titrant_mass, d.emf, d.temperature), snap)


@contract("gran_rejects", ["core.gran_alkalinity", "core.gran_guesses"])
def k_gran_rejects(c):
    d = titration(c, totals=("dic",), ks="scalar", nmin=3)
    bad = c.choice("bad", ["v23.7", "", "Legacy", "new", None])
    for f in ("core.gran_alkalinity", "core.gran_guesses"):
        c.raises("any other rule is rejected", f, d.titrant_mass, d.emf, d.temperature, d.analyte_mass, d.molinity,
                 gran_logic=bad)


@spec("core.gran_emf0s")
def s_gran_emf0s(c, titrant_mass, emf, temperature, analyte_mass, titrant_molinity, alkalinity, titrant_normality=1):
    excess = (titrant_mass * titrant_molinity * titrant_normality - analyte_mass * alkalinity) / (titrant_mass + analyte_mass)
    return emf - (R * (temperature + T0) / F) * c.np.log(excess)


@contract("gran_emf0s", ["core.gran_emf0s"])
def k_gran_emf0s(c):
    n = c.length("n", 1, 6)
    ints = c.choice("dtype", ["float", "int"]) == "int"
    m = c.array("titrant_mass", n, 0.0, 0.005, nonneg=True)
    e = c.array("emf", n, 100.0, 700.0, ints=ints)
    t = c.array("temperature", n, 0.0, 35.0, nonneg=True, ints=ints)
    M = c.real("analyte_mass", 0.05, 0.25, pos=True)
    mol = c.real("titrant_molinity", 0.05, 0.3, pos=True)
    a = c.real("alkalinity", 0.0, 0.003)
    kw, norm = {}, 1
    if c.choice("normality", ["given", "absent"]) == "given":
        norm = kw["titrant_normality"] = c.real("titrant_normality", 0.9, 2.1, pos=True)
    snap = c.snapshot((m, e, t))
    r = c.call("core.gran_emf0s", m, e, t, M, mol, a, **kw)
    c.eq("EMF0 at every point", r, s_gran_emf0s(c, m, e, t, M, mol, a, norm))
    c.same("caller's data unchanged", (m, e, t), snap)


@spec("core.gran_guesses")
def s_gran_guesses(c, titrant_mass, emf, temperature, analyte_mass, titrant_molinity, titrant_normality=1,
                   gran_logic="v23.7+"):
    r = s_gran_alkalinity(c, titrant_mass, emf, temperature, analyte_mass, titrant_molinity, titrant_normality, gran_logic)
    emf0s = s_gran_emf0s(c, titrant_mass, emf, temperature, analyte_mass, titrant_molinity, r.alkalinity, titrant_normality)
    emf0 = c.np.mean(emf0s[r.used])
    return GranGuess(*r, emf0, emf0s, nernst_pH(c, emf, emf0, temperature))


def nernst_pH(c, emf, emf0, temperature):
    return -c.np.log10(c.np.exp((emf - emf0) * F / (R * (temperature + T0))))


@contract("gran_guesses", ["core.gran_guesses"])
def k_gran_guesses(c):
    d = titration(c, totals=("dic",), ks="scalar", nmin=3, dtypes=True)
    logic = c.choice("gran_logic", [None] + LOGIC)
    kw = {} if logic is None else {"gran_logic": logic}
    norm = norm_kw(c, d, kw)
    snap = c.snapshot((d.titrant_mass, d.emf, d.temperature))
    want = c.oracle(s_gran_guesses, c, d.titrant_mass, d.emf, d.temperature, d.analyte_mass, d.molinity, norm,
                    logic or "v23.7+")
    finite(c, want.gfunc, want.alkalinity, want.lr.rvalue)
    r = c.call("core.gran_guesses", d.titrant_mass, d.emf, d.temperature, d.analyte_mass, d.molinity, **kw)
    c.eq("fields", list(r._fields), ["alkalinity", "gfunc", "used", "intercept_x", "lr", "emf0", "emf0s", "pH"])
    c.eq("Gran function", r.gfunc, want.gfunc)
    c.eq("selected points", r.used, want.used)
    c.eq("alkalinity guess", r.alkalinity, want.alkalinity, rtol=1e-7)
    c.eq("x-intercept", r.intercept_x, want.intercept_x, rtol=1e-7)
    c.eq("EMF0 at every point", r.emf0s, want.emf0s, rtol=1e-6)
    c.eq("EMF0 guess is the mean over the selected points", r.emf0, want.emf0, rtol=1e-6)
    c.eq("pH from the EMF0 guess", r.pH, want.pH, rtol=1e-5)
    c.same("caller's data unchanged", (d.titrant_mass, d.emf, d.temperature), snap)


@contract("gran_exact", ["core.gran_guesses", "core.gran_alkalinity", "core.gran_emf0s"])
def k_gran_exact(c):
    """Strong acid in excess at constant temperature: both guesses are exact."""
    n = c.length("n", 3, 9)
    M = c.real("analyte_mass", 0.05, 0.25, pos=True)
    mol = c.real("titrant_molinity", 0.05, 0.3, pos=True)
    norm = c.real("titrant_normality", 0.9, 2.1, pos=True)
    at = c.real("alkalinity", 1e-3, 3e-3, pos=True)
    emf0 = c.real("emf0", 200.0, 700.0)
    t = c.real("t", 5.0, 35.0, pos=True)
    x = c.array("excess", n, 1e-5, 5e-4, pos=True, order="inc")  # mol of acid beyond the alkalinity
    m = (M * at + x) / (mol * norm)
    e = emf0 + R * (t + T0) / F * c.np.log(x / (m + M))
    temp = c.np.full_like(m, t)
    logic = c.choice("gran_logic", LOGIC)
    if c.mode == "conc":
        g = g_used(c, x, logic)
        c.requires(g.sum() >= 2 and len(set(m[g])) >= 2 and (m[g].max() - m[g].min()) > 1e-5)
    big = c.np.exp(emf0 * F / (R * (t + T0)))
    c.affine(big * mol * norm, -(big * M * at))
    r = c.call("core.gran_guesses", m, e, temp, M, mol, titrant_normality=norm, gran_logic=logic)
    c.affine(None, None)
    c.eq("alkalinity guess is exact", r.alkalinity, at, rtol=1e-6)
    c.eq("EMF0 guess is exact", r.emf0, emf0, rtol=1e-6, atol=1e-4)


# --------------------------------------------------------------- alkalinity

@spec("simulate.alkalinity")
def s_alkalinity(c, pH, totals, k_constants, opt_pH_scale=3):
    """Contract of simulate.alkalinity for its callers: a function of its
    arguments (what function: C05)."""
    if c.mode == "sym":
        if isinstance(opt_pH_scale, int) and opt_pH_scale in (1, 2, 3):
            tk, kk = sorted(totals), sorted(k_constants)
            return c.opaque(f"alkalinity[{opt_pH_scale};{','.join(tk)};{','.join(kk)}]", pH, *[totals[k] for k in tk],
                            *[k_constants[k] for k in kk])
        return c.fn("simulate.alkalinity").__wrapped_original__(pH, totals, k_constants, opt_pH_scale=opt_pH_scale)
    h = 10.0 ** -pH
    t, k = totals, k_constants
    a = k["k_water"] / h - h
    if "dic" in t:
        k1, k2 = k["k_carbonic_1"], k["k_carbonic_2"]
        a = a + t["dic"] * (k1 * h + 2 * k1 * k2) / (h * h + k1 * h + k1 * k2)
    for tt, kk in (("total_borate", "k_borate"), ("total_silicate", "k_silicate"), ("total_ammonia", "k_ammonia"),
                   ("total_sulfide", "k_sulfide")):
        if tt in t:
            a = a + t[tt] * k[kk] / (k[kk] + h)
    if "total_phosphate" in t:
        p1, p2, p3 = k["k_phosphoric_1"], k["k_phosphoric_2"], k["k_phosphoric_3"]
        den = h**3 + p1 * h * h + p1 * p2 * h + p1 * p2 * p3
        a = a + t["total_phosphate"] * (p1 * p2 * h + 2 * p1 * p2 * p3 - h**3) / den
    for tt, kk in (("total_alpha", "k_alpha"), ("total_beta", "k_beta")):
        if tt in t:
            low = -c.np.log10(k[kk]) <= 4.5
            a = a + c.np.where(low, -t[tt] * h / (k[kk] + h), t[tt] * k[kk] / (k[kk] + h))
    if "total_fluoride" in t and opt_pH_scale in (1, 3):
        a = a - t["total_fluoride"] * h / (k["k_fluoride"] + h)
    if "total_sulfate" in t and opt_pH_scale == 3:
        a = a - t["total_sulfate"] * h / (k["k_bisulfate"] + h)
    return a


SETS = {"seawater": ("dic", "total_borate", "total_fluoride", "total_sulfate"),
        "rich": ("dic", "total_borate", "total_fluoride", "total_sulfate", "total_phosphate", "total_silicate",
                 "total_ammonia", "total_sulfide", "total_alpha", "total_beta"),
        "none": ()}


def window(c, kw):
    lo, hi = 3, 4
    w = c.choice("window", ["both", "absent", "min", "max"])
    if w in ("both", "min"):
        lo = kw["pH_min"] = c.real("pH_min", 2.6, 3.4)
    if w in ("both", "max"):
        hi = kw["pH_max"] = c.real("pH_max", 3.6, 4.6)
    c.requires(lo < hi)
    return lo, hi


PH_FIELDS = ["titrant_molinity", "titrant_mass", "pH", "temperature", "analyte_mass", "totals", "k_constants"]
EMF_FIELDS = ["alkalinity", "emf0", "used", "pH", "alkalinity_std", "alkalinity_all", "opt_result", "ggr",
              "titrant_molinity", "titrant_mass", "emf", "temperature", "analyte_mass", "totals", "k_constants"]
ResEmf = namedtuple("SolveEmfResult", EMF_FIELDS)
ResPh = namedtuple("SolvePhResult", ["alkalinity", "used", "alkalinity_std", "alkalinity_all"] + PH_FIELDS)
ResPhGran = namedtuple("SolvePhGranResult", ["alkalinity", "used", "gfunc", "lr"] + PH_FIELDS)


def point_alkalinity(c, pH, d_totals, d_ks, m, M, mol, norm):
    f = M / (m + M)
    return 1e6 * (s_alkalinity(c, pH, d_totals, d_ks) + m * mol * norm / (m + M)) / f


def inside(pH, lo, hi):
    return (pH >= lo) & (pH <= hi)


@spec("core.solve_pH")
def s_solve_pH(c, titrant_molinity, titrant_mass, pH, temperature, analyte_mass, totals, k_constants, pH_min=3, pH_max=4,
               titrant_normality=1):
    used = inside(pH, pH_min, pH_max)
    a = point_alkalinity(c, pH, totals, k_constants, titrant_mass, analyte_mass, titrant_molinity, titrant_normality)
    return ResPh(c.np.mean(a[used]), used, c.np.std(a[used]), a, titrant_molinity, titrant_mass, pH, temperature,
                 analyte_mass, totals, k_constants)


@spec("core.solve_pH_gran")
def s_solve_pH_gran(c, titrant_molinity, titrant_mass, pH, temperature, analyte_mass, totals, k_constants, pH_min=3,
                    pH_max=4, titrant_normality=1):
    used = inside(pH, pH_min, pH_max)
    g = (titrant_mass + analyte_mass) * 10.0 ** -pH
    lr = c.linregress(titrant_mass[used], g[used])
    return ResPhGran(1e6 * (-lr.intercept / lr.slope) * titrant_molinity * titrant_normality / analyte_mass, used, g, lr,
                     titrant_molinity, titrant_mass, pH, temperature, analyte_mass, totals, k_constants)


def _passed_through(c, r, d, meas):
    c.eq("inputs returned as given: titrant_molinity", r.titrant_molinity, d.molinity)
    c.eq("inputs returned as given: titrant_mass", r.titrant_mass, d.titrant_mass)
    c.eq("inputs returned as given: temperature", r.temperature, d.temperature)
    c.eq("inputs returned as given: analyte_mass", r.analyte_mass, d.analyte_mass)
    c.eq("inputs returned as given: totals", r.totals, d.totals)
    c.eq("inputs returned as given: k_constants", r.k_constants, d.ks)
    if meas == "pH":
        c.eq("inputs returned as given: pH", r.pH, d.pH)
    else:
        c.eq("inputs returned as given: emf", r.emf, d.emf)


def _args(d):
    return (d.molinity, d.titrant_mass, d.meas, d.temperature, d.analyte_mass, d.totals, d.ks)


@contract("solve_pH", ["core.solve_pH"])
def k_solve_pH(c):
    which = c.choice("composition", list(SETS))
    ks = c.choice("constants", ["array", "scalar", "mixed"])
    d = titration(c, "pH", SETS[which], ks, nmin=2, dtypes=True, missing=True)
    c.use("simulate.alkalinity")
    kw = {}
    lo, hi = window(c, kw)
    norm = norm_kw(c, d, kw)
    snap = c.snapshot((d.titrant_mass, d.pH, d.temperature, d.totals, d.ks))
    want = c.oracle(s_solve_pH, c, *_args(d), lo, hi, norm)
    finite(c, want.alkalinity)
    r = c.call("core.solve_pH", *_args(d), **kw)
    c.eq("fields", list(r._fields), ["alkalinity", "used", "alkalinity_std", "alkalinity_all"] + PH_FIELDS)
    c.eq("points inside the window, both ends included", r.used, want.used)
    c.eq("point alkalinities", r.alkalinity_all, want.alkalinity_all, rtol=1e-8)
    c.eq("mean over the window", r.alkalinity, want.alkalinity, rtol=1e-8)
    c.eq("standard deviation over the window", r.alkalinity_std, want.alkalinity_std, rtol=1e-6, atol=1e-6)
    _passed_through(c, r, d, "pH")
    c.same("caller's data unchanged", (d.titrant_mass, d.pH, d.temperature, d.totals, d.ks), snap)


@contract("solve_pH_gran", ["core.solve_pH_gran"])
def k_solve_pH_gran(c):
    d = titration(c, "pH", SETS["none"], "scalar", nmin=3, missing=True)
    kw = {}
    lo, hi = window(c, kw)
    norm = norm_kw(c, d, kw)
    snap = c.snapshot((d.titrant_mass, d.pH, d.temperature))
    want = c.oracle(s_solve_pH_gran, c, *_args(d), lo, hi, norm)
    finite(c, want.alkalinity)
    r = c.call("core.solve_pH_gran", *_args(d), **kw)
    c.eq("fields", list(r._fields), ["alkalinity", "used", "gfunc", "lr"] + PH_FIELDS)
    c.eq("points inside the window, both ends included", r.used, want.used)
    c.eq("Gran function", r.gfunc, want.gfunc)
    c.eq("regression slope over the window", r.lr.slope, want.lr.slope, rtol=1e-7)
    c.eq("regression intercept over the window", r.lr.intercept, want.lr.intercept, rtol=1e-7)
    c.eq("alkalinity from the x-intercept", r.alkalinity, want.alkalinity, rtol=1e-7)
    _passed_through(c, r, d, "pH")
    c.same("caller's data unchanged", (d.titrant_mass, d.pH, d.temperature), snap)


@contract("solve_rejects_window", ["core.solve_pH", "core.solve_pH_gran", "core.solve_emf"])
def k_solve_rejects(c):
    f = c.choice("solver", ["core.solve_pH", "core.solve_pH_gran", "core.solve_emf"])
    d = titration(c, "emf" if f.endswith("emf") else "pH", SETS["seawater"], "array", nmin=3)
    c.use("simulate.alkalinity")
    lo = c.real("pH_min", 3.0, 4.5)
    hi = c.real("pH_max", 2.5, 4.5)
    if c.choice("equal", [False, True]):
        hi = lo
    c.requires(lo >= hi)
    c.raises("a window whose minimum is not below its maximum is rejected", f, *_args(d), pH_min=lo, pH_max=hi)


# ---------------------------------------------------------------- solve_emf

def emf_pass(c, mol, m, e, t, M, totals, ks, a0, e0, lo, hi, norm):
    """One pass: the fit over the points inside the window at e0."""
    used = inside(nernst_pH(c, e, e0, t), lo, hi)
    cut = lambda v: v[used] if not is_scalar(c, v) else v
    tu, ku = {k: cut(v) for k, v in totals.items()}, {k: cut(v) for k, v in ks.items()}
    mu, eu, tmu = m[used], e[used], t[used]

    def residual(x):
        a, emf0 = x[0], x[1]
        return (s_alkalinity(c, nernst_pH(c, eu, emf0, tmu), tu, ku) - a * M / (mu + M) + mu * mol * norm / (mu + M))

    o = c.least_squares(residual, [a0, e0])
    emf0 = o["x"][1]
    pH = nernst_pH(c, e, emf0, t)
    return ResEmf(o["x"][0] * 1e6, emf0, used, pH, c.np.std(o["fun"]) * 1e6,
                  point_alkalinity(c, pH, totals, ks, m, M, mol, norm), o, None, mol, m, e, t, M, totals, ks)


def is_scalar(c, v):
    return not hasattr(v, "space") if c.mode == "sym" else c.np.size(v) == 1


@spec("core.solve_emf")
def s_solve_emf(c, titrant_molinity, titrant_mass, emf, temperature, analyte_mass, totals, k_constants,
                alkalinity_init=None, double=True, emf0_init=None, gran_logic="v23.7+", pH_min=3, pH_max=4,
                titrant_normality=1):
    g = s_gran_guesses(c, titrant_mass, emf, temperature, analyte_mass, titrant_molinity, titrant_normality, gran_logic)
    a0 = g.alkalinity if alkalinity_init is None else alkalinity_init * 1e-6
    e0 = g.emf0 if emf0_init is None else emf0_init
    r = emf_pass(c, titrant_molinity, titrant_mass, emf, temperature, analyte_mass, totals, k_constants, a0, e0, pH_min,
                 pH_max, titrant_normality)
    if double:
        r = emf_pass(c, titrant_molinity, titrant_mass, emf, temperature, analyte_mass, totals, k_constants,
                     r.alkalinity * 1e-6, r.emf0, pH_min, pH_max, titrant_normality)
    return r._replace(ggr=g)


def emf_settings(c, few=False):
    kw = {}
    window(c, kw)
    if c.choice("alkalinity_init", ["absent", "given"]) == "given":
        kw["alkalinity_init"] = c.real("alkalinity_init", 1500.0, 2800.0, nonneg=True)
    if c.choice("emf0_init", ["absent", "given"]) == "given":
        kw["emf0_init"] = c.real("emf0_init", 300.0, 700.0)
    dbl = c.choice("double", ["absent", False] if few else ["absent", True, False])
    if dbl != "absent":
        kw["double"] = dbl
    lg = c.choice("gran_logic", [None] + LOGIC)
    if lg is not None:
        kw["gran_logic"] = lg
    return kw


def well_posed(c, want, d, lo, hi, need=4):
    """Concrete inputs on which the numerical comparison is meaningful."""
    if c.mode == "conc":
        finite(c, want.alkalinity, want.emf0, want.alkalinity_std)
        u = want.used
        if u.sum() < need or not 100 < want.alkalinity < 10000 or abs(want.emf0) > 2000:
            raise Rejected()
        J = want.opt_result.jac
        s = c.np.linalg.svd(J / c.np.abs(J).max(axis=0), compute_uv=False)
        if s[-1] < 1e-4 * s[0]:
            raise Rejected()


@contract("solve_emf", ["core.solve_emf", "core._lsqfun_solve_emf"], conc=100)
def k_solve_emf(c):
    focus = c.choice("focus", ["settings", "composition"])
    which, ks = "seawater", "array"
    if focus == "composition":
        which = c.choice("composition", list(SETS))
        ks = c.choice("constants", ["scalar", "mixed"])
    d = titration(c, "emf", SETS[which], ks, nmin=4, points=(14, 40), dtypes=focus == "composition")
    c.use("simulate.alkalinity", "core.gran_guesses")
    kw = emf_settings(c) if focus == "settings" else {"double": False}
    norm = norm_kw(c, d, kw)
    near_init(c, d, kw)
    snap = c.snapshot((d.titrant_mass, d.emf, d.temperature, d.totals, d.ks))
    want = c.oracle(s_solve_emf, c, *_args(d), **kw)
    well_posed(c, want, d, kw.get("pH_min", 3), kw.get("pH_max", 4))
    r = c.call("core.solve_emf", *_args(d), **kw)
    c.eq("fields", list(r._fields), EMF_FIELDS)
    c.eq("points inside the window at the starting EMF0, both ends included", r.used, want.used)
    c.eq("alkalinity", r.alkalinity, want.alkalinity, rtol=2e-5)
    c.eq("EMF0", r.emf0, want.emf0, rtol=2e-5)
    c.eq("pH from the final EMF0", r.pH, want.pH, rtol=2e-5)
    c.eq("standard deviation of the residuals", r.alkalinity_std, want.alkalinity_std, rtol=1e-3, atol=1e-3)
    c.eq("point alkalinities at every point", r.alkalinity_all, want.alkalinity_all, rtol=1e-4, atol=1e-2)
    # the same, exactly, among the results themselves
    o = r.opt_result
    c.eq("alkalinity of the fit, in umol/kg", r.alkalinity, o["x"][0] * 1e6, rtol=1e-11)
    c.eq("EMF0 of the fit", r.emf0, o["x"][1], rtol=1e-12)
    c.eq("standard deviation of the fit's residuals", r.alkalinity_std, c.np.std(o["fun"]) * 1e6, rtol=1e-9)
    c.eq("pH of the reported EMF0", r.pH, nernst_pH(c, d.emf, r.emf0, d.temperature), rtol=1e-9)
    c.eq("point alkalinities of the reported pH", r.alkalinity_all,
         point_alkalinity(c, r.pH, d.totals, d.ks, d.titrant_mass, d.analyte_mass, d.molinity, norm), rtol=1e-9, atol=1e-7)
    c.eq("Gran alkalinity guess", r.ggr.alkalinity, want.ggr.alkalinity, rtol=1e-6)
    c.eq("Gran EMF0 guess", r.ggr.emf0, want.ggr.emf0, rtol=1e-6)
    c.eq("Gran points", r.ggr.used, want.ggr.used)
    _passed_through(c, r, d, "emf")
    c.same("caller's data unchanged", (d.titrant_mass, d.emf, d.temperature, d.totals, d.ks), snap)


def near_init(c, d, kw):
    """Concretely: mostly a plausible start."""
    if c.mode == "conc" and "emf0_init" in kw and "emf0_init" not in c.fixed:
        try:
            g = s_gran_guesses(c, d.titrant_mass, d.emf, d.temperature, d.analyte_mass, d.molinity,
                               kw.get("titrant_normality", 1))
            near = float(g.emf0) + c.rng.uniform(-8, 8)
            kw["emf0_init"] = c.record["emf0_init"] = near
            if c.rng.random() < 0.25 and math.isfinite(near):
                # a start of exactly zero, as for pH read as potentials
                d.emf -= near
                c.record["emf"] = d.emf.tolist()
                kw["emf0_init"] = c.record["emf0_init"] = 0.0
        except Exception:
            pass


# -------------------------------------------------------------- calibration

@spec("core.add_titrant_totals")
def s_add_titrant_totals(c, totals, titrant_mass, analyte_mass, titrant_molinity, titrant_molinity_prev=0, **titrant_totals):
    for k, f in titrant_totals.items():
        if not k.startswith("titrant_total_"):
            raise AssertionError(k)
        totals[k[8:]] = totals.get(k[8:], 0) + titrant_mass * (titrant_molinity - titrant_molinity_prev) * f / (titrant_mass + analyte_mass)
    return totals


TITRANT = ("titrant_total_sulfate", "titrant_total_phosphate", "titrant_total_fluoride")


def titrant_totals(c, kw):
    w = c.choice("titrant totals", ["none", "sulfate", "fluoride and sulfate", "phosphate"])
    if w == "phosphate":
        kw["titrant_total_phosphate"] = c.real("titrant_total_phosphate", 0.0, 0.01)
    elif w != "none":
        kw["titrant_total_sulfate"] = c.real("titrant_total_sulfate", 0.0, 1.5)
    if w == "fluoride and sulfate":
        kw["titrant_total_fluoride"] = c.real("titrant_total_fluoride", 0.0, 0.01)


@contract("add_titrant_totals", ["core.add_titrant_totals"])
def k_add_titrant_totals(c):
    shape = c.choice("shape", ["array", "scalar"])
    n = c.length("n", 1, 6)
    mk = (lambda k, lo, hi, **g: c.array(k, n, lo, hi, **g)) if shape == "array" else (lambda k, lo, hi, **g: c.real(k, lo, hi, **g))
    m = mk("titrant_mass", 0.0, 0.005, nonneg=True)
    M = c.real("analyte_mass", 0.05, 0.25, pos=True)
    mol, prev, mid = c.real("titrant_molinity", 0.0, 0.3), c.real("titrant_molinity_prev", 0.0, 0.3), c.real("between", 0.0, 0.3)
    comp = c.choice("composition", ["rich", "seawater"])  # the latter without phosphate
    totals = {k: mk(k, 0.0, 0.03, nonneg=True) for k in SETS[comp]}
    which = c.subset("in the titrant", ["sulfate", "phosphate", "fluoride"])
    kw = {f"titrant_total_{k}": c.real(f"f_{k}", -1.0, 2.0) for k in which}
    snap = c.snapshot((totals, m))
    t0 = c.snapshot(totals)
    mode = c.choice("previous", ["given", "absent", "back", "two steps"])
    if mode == "given":
        r = c.call("core.add_titrant_totals", totals, m, M, mol, titrant_molinity_prev=prev, **kw)
        add = mol - prev
    elif mode == "absent":
        r = c.call("core.add_titrant_totals", totals, m, M, mol, **kw)
        add = mol
    elif mode == "back":
        r = c.call("core.add_titrant_totals", totals, m, M, mol, **kw)
        r = c.call("core.add_titrant_totals", r, m, M, 0, titrant_molinity_prev=mol, **kw)
        add = 0
    else:
        r = c.call("core.add_titrant_totals", totals, m, M, mid, **kw)
        r = c.call("core.add_titrant_totals", r, m, M, mol, titrant_molinity_prev=mid, **kw)
        add = mol
    names = set(t0) | {k[8:] for k in kw}
    c.eq("no other totals appear", sorted(r), sorted(names))
    for k in sorted(names):
        f = kw.get("titrant_" + k)
        if f is None:
            c.same("other totals unchanged", r[k], t0[k])
        else:
            c.eq("the titrant's share is added: " + k, r[k], t0.get(k, 0) + m * add * f / (m + M), atol=1e-14)
        c.eq("the given totals are the ones updated", totals[k], r[k])
    c.same("titrant masses unchanged", m, snap[1])


@contract("add_titrant_rejects", ["core.add_titrant_totals"])
def k_add_titrant_rejects(c):
    n = c.length("n", 1, 6)
    m = c.array("titrant_mass", n, 0.0, 0.005, nonneg=True)
    totals = {"total_sulfate": c.array("total_sulfate", n, 0.0, 0.03, nonneg=True)}
    M, mol = c.real("analyte_mass", 0.05, 0.25, pos=True), c.real("titrant_molinity", 0.05, 0.3)
    bad = c.choice("bad", ["total_sulfate", "titrant_sulfate", "Titrant_total_sulfate", "xtitrant_total_sulfate", "titrant_molinity_init"])
    c.raises("names that are not titrant totals are rejected", "core.add_titrant_totals", totals, m, M, mol, **{bad: 1.0})


def added(c, d, totals, mol, kw):
    return s_add_titrant_totals(c, dict(totals), d.titrant_mass, d.analyte_mass, mol,
                                **{k: v for k, v in kw.items() if k in TITRANT})


def _calibration(c, d, f, solve, kw, ref):
    init = 0.1
    if c.choice("titrant_molinity_init", ["absent", "given"]) == "given":
        init = kw["titrant_molinity_init"] = c.real("titrant_molinity_init", 0.08, 0.2, pos=True)
        if c.mode == "conc" and "titrant_molinity_init" not in c.fixed:
            init = kw["titrant_molinity_init"] = c.record["titrant_molinity_init"] = d.molinity * c.rng.uniform(0.8, 1.2)
    cert = c.real("alkalinity_certified", 1500.0, 2800.0, nonneg=True)
    skw = {k: v for k, v in kw.items() if k not in TITRANT + ("titrant_molinity_init",)}
    if c.mode == "conc" and "alkalinity_certified" not in c.fixed:
        try:
            a = solve(c, d.molinity, *_args(d)[1:5], added(c, d, d.totals, d.molinity, kw), d.ks, **skw).alkalinity
        except Exception as e:
            raise Rejected() from e
        if not 100 < a < 10000:
            raise Rejected()
        cert = c.record["alkalinity_certified"] = float(a) * c.rng.choice([1.0, 1.0, 0.98, 1.03])
    snap = c.snapshot((d.titrant_mass, d.meas, d.temperature, d.totals, d.ks))
    base = c.snapshot(d.totals)

    def residual(x):
        s = solve(c, x[0], *_args(d)[1:5], added(c, d, base, x[0], kw), d.ks, **skw)
        return s.alkalinity - cert

    want = c.oracle(c.least_squares, residual, [init])
    if c.mode == "conc":
        finite(c, want["x"], want["fun"])
        if abs(float(c.np.ravel(want["fun"])[0])) > 1e-3 or want["x"][0] < 0.01:
            raise Rejected()  # the fit did not converge
    r = c.call(f, cert, *_args(d)[1:], **kw)
    c.eq("calibrated molinity", r["x"][0], want["x"][0], rtol=1e-6)
    c.eq("one molinity", len(r["x"]), 1)
    c.eq("the residual is solved minus certified alkalinity", r["fun"], want["fun"], atol=0.01)
    for k in d.totals:
        c.eq("totals as before", d.totals[k], snap[3][k], rtol=1e-9, atol=1e-15)
    c.same("caller's other data unchanged", (d.titrant_mass, d.meas, d.temperature, d.ks), snap[:3] + snap[4:])
    if ref and c.mode == "conc":
        s = c.call(ref, float(r["x"][0]), *_args(d)[1:5], added(c, d, base, float(r["x"][0]), kw), d.ks, **skw)
        c.eq("solving with the calibrated molinity returns the certified value", s.alkalinity, cert, rtol=1e-5)


def _setup_cal(c, meas, **k):
    d = titration(c, meas, SETS["seawater"], "array", nmin=4, points=(14, 35), **k)
    d.ks = {x: d.ks[x] for x in d.ks if x in ("k_water", "k_carbonic_1", "k_carbonic_2", "k_borate", "k_fluoride", "k_bisulfate")}
    return d


@contract("calibrate_emf", ["core.calibrate_emf", "core._lsqfun_calibrate_emf"], conc=60)
def k_calibrate_emf(c):
    d = _setup_cal(c, "emf")
    c.use("simulate.alkalinity", "core.gran_guesses", "core.solve_emf")
    kw = emf_settings(c, few=True)
    norm_kw(c, d, kw)
    titrant_totals(c, kw)
    near_init(c, d, kw)
    _calibration(c, d, "core.calibrate_emf", s_solve_emf, kw, "core.solve_emf")


@contract("calibrate_pH", ["core.calibrate_pH", "core._lsqfun_calibrate_pH"])
def k_calibrate_pH(c):
    d = _setup_cal(c, "pH")
    c.use("simulate.alkalinity", "core.solve_pH")
    kw = {}
    window(c, kw)
    norm_kw(c, d, kw)
    titrant_totals(c, kw)
    _calibration(c, d, "core.calibrate_pH", s_solve_pH, kw, "core.solve_pH")


@contract("calibrate_pH_gran", ["core.calibrate_pH_gran", "core._lsqfun_calibrate_pH_gran"])
def k_calibrate_pH_gran(c):
    d = _setup_cal(c, "pH")
    c.use("simulate.alkalinity", "core.solve_pH_gran")
    kw = {}
    window(c, kw)
    norm_kw(c, d, kw)
    titrant_totals(c, kw)
    _calibration(c, d, "core.calibrate_pH_gran", s_solve_pH_gran, kw, "core.solve_pH_gran")


@contract("calibrate_rejects", ["core.calibrate_emf", "core.calibrate_pH", "core.calibrate_pH_gran"])
def k_calibrate_rejects(c):
    """A calibration that fails leaves no residue either."""
    f = c.choice("calibration", ["core.calibrate_emf", "core.calibrate_pH", "core.calibrate_pH_gran"])
    d = _setup_cal(c, "emf" if f.endswith("emf") else "pH")
    c.use("simulate.alkalinity")
    cert = c.real("alkalinity_certified", 1500.0, 2800.0, nonneg=True)
    kw = {}
    titrant_totals(c, kw)
    if c.choice("because of", ["the window", "a name"]) == "a name":
        kw["titrant_" + c.choice("name", ["sulfate", "totals"])] = 1.0
    else:
        kw["pH_min"], kw["pH_max"] = c.real("pH_min", 3.0, 4.5), c.real("pH_max", 2.5, 4.5)
        c.requires(kw["pH_min"] >= kw["pH_max"])
    snap = c.snapshot((d.titrant_mass, d.meas, d.temperature, d.totals, d.ks))
    c.raises("rejected", f, cert, *_args(d)[1:], **kw)
    for k in d.totals:
        c.eq("totals as before", d.totals[k], snap[3][k], rtol=1e-9, atol=1e-15)
    c.same("caller's other data unchanged", (d.titrant_mass, d.meas, d.temperature, d.ks), snap[:3] + snap[4:])
