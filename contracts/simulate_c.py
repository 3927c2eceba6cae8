"""Contracts on calkulate/simulate.py."""

from vc.harness import contract, spec

SINGLE = {  # total: (constant, component, True if the component is the base)
    "total_borate": ("k_borate", "BOH4", True),
    "total_silicate": ("k_silicate", "H3SiO4", True),
    "total_ammonia": ("k_ammonia", "NH3", True),
    "total_sulfide": ("k_sulfide", "HS", True),
}
GENERIC = {"total_alpha": ("k_alpha", "alk_alpha"), "total_beta": ("k_beta", "alk_beta")}
TOTALS = ("dic", "total_borate", "total_phosphate", "total_silicate", "total_ammonia", "total_sulfide",
          "total_alpha", "total_beta", "total_fluoride", "total_sulfate")
KS = ("k_water", "k_carbonic_1", "k_carbonic_2", "k_borate", "k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3",
      "k_silicate", "k_ammonia", "k_sulfide", "k_alpha", "k_beta", "k_fluoride", "k_bisulfate")
K_RANGE = {"k_water": (1e-15, 1e-12), "k_carbonic_1": (1e-7, 1e-5), "k_carbonic_2": (1e-10, 1e-8),
           "k_borate": (1e-10, 1e-8), "k_phosphoric_1": (1e-3, 1e-1), "k_phosphoric_2": (1e-7, 1e-5),
           "k_phosphoric_3": (1e-10, 1e-8), "k_silicate": (1e-10, 1e-8), "k_ammonia": (1e-10, 1e-8),
           "k_sulfide": (1e-8, 1e-6), "k_alpha": (1e-6, 1e-3), "k_beta": (1e-9, 1e-3),
           "k_fluoride": (1e-4, 1e-2), "k_bisulfate": (0.01, 0.3)}
MULT = {"OH": 1, "HCO3": 1, "CO3": 2, "BOH4": 1, "HPO4": 1, "PO4": 2, "H3PO4": -1, "H3SiO4": 1, "NH3": 1, "HS": 1,
        "H": -1, "HSO4": -1, "HF": -1, "alk_alpha": 1, "alk_beta": 1, "CO2": 0}


def solution(c, n=None, drop=None, only=None, prefix=""):
    """Totals in mol/kg and constants; scalars or arrays."""
    mkt = (lambda k: c.real(prefix + k, 0.0, 0.03, nonneg=True)) if n is None else \
        (lambda k: c.array(prefix + k, n, 0.0, 0.03, nonneg=True))
    mkk = (lambda k: c.real(prefix + k, *K_RANGE[k], pos=True)) if n is None else \
        (lambda k: c.array(prefix + k, n, *K_RANGE[k], pos=True))
    names = [t for t in TOTALS if t != drop and (only is None or t in only)]
    totals = {t: mkt(t) for t in names}
    ks = {k: mkk(k) for k in KS}
    return totals, ks


def expected_components(totals, ks, scale):
    e = {"H"}
    if "k_water" in ks:
        e.add("OH")
    if "dic" in totals:
        e |= {"CO2", "HCO3", "CO3"}
    for t, (k, comp, _) in SINGLE.items():
        if t in totals:
            e.add(comp)
    if "total_phosphate" in totals:
        e |= {"H3PO4", "HPO4", "PO4"}
    for t, (k, comp) in GENERIC.items():
        if t in totals:
            e.add(comp)
    if "total_fluoride" in totals and scale in (1, 3):
        e.add("HF")
    if "total_sulfate" in totals and scale == 3:
        e.add("HSO4")
    return e


def _scale(c):
    return c.choice("scale", [None, 3, 1, 2])


def _which(c):
    return c.choice("composition", ["full"] + ["-" + t for t in TOTALS] + ["+" + t for t in TOTALS] + ["none", "no k_water"])


def _setup(c):
    shape = c.choice("shape", ["scalar", "array", "integer pH"])
    w = _which(c)
    n = None if shape == "scalar" else c.length("n", 1, 5)
    drop = w[1:] if w[0] == "-" else None
    only = [w[1:]] if w[0] == "+" else ([] if w == "none" else None)
    totals, ks = solution(c, n, drop, only)
    if w == "no k_water":
        del ks["k_water"]
    pH = c.real("pH", 0.0, 14.0) if n is None else c.array("pH", n, 0.0, 14.0, ints=shape == "integer pH")
    scale = _scale(c)
    kw = {} if scale is None else {"opt_pH_scale": scale}
    return pH, totals, ks, kw, (3 if scale is None else scale)


@contract("speciation", ["simulate.alkalinity_components"])
def k_speciation(c):
    pH, totals, ks, kw, scale = _setup(c)
    snap = c.snapshot((pH, totals, ks))
    r = c.call("simulate.alkalinity_components", pH, totals, ks, **kw)
    c.eq("exactly the supplied substances are reported", sorted(r), sorted(expected_components(totals, ks, scale)))
    h = 10.0**-pH
    c.eq("H is 10^-pH", r["H"], h)
    if "OH" in r:
        c.eq("water equilibrium", r["OH"] * h, ks["k_water"])
    if "dic" in totals:
        k1, k2 = ks["k_carbonic_1"], ks["k_carbonic_2"]
        c.eq("carbonate mass balance", r["CO2"] + r["HCO3"] + r["CO3"], totals["dic"])
        c.eq("first carbonate equilibrium", r["HCO3"] * h, k1 * r["CO2"])
        c.eq("second carbonate equilibrium", r["CO3"] * h, k2 * r["HCO3"])
    for t, (k, comp, _) in SINGLE.items():
        if t in totals:
            c.eq(f"equilibrium and mass balance: {comp}", r[comp] * (ks[k] + h), totals[t] * ks[k])
    if "total_phosphate" in totals:
        p1, p2, p3 = ks["k_phosphoric_1"], ks["k_phosphoric_2"], ks["k_phosphoric_3"]
        c.eq("phosphate equilibria: HPO4/H3PO4", r["HPO4"] * h * h, p1 * p2 * r["H3PO4"])
        c.eq("phosphate equilibria: PO4/HPO4", r["PO4"] * h, p3 * r["HPO4"])
        c.eq("phosphate mass balance", r["H3PO4"] + p1 * r["H3PO4"] / h + r["HPO4"] + r["PO4"],
             totals["total_phosphate"])
    for t, (k, comp) in GENERIC.items():
        if t in totals:
            base = totals[t] * ks[k] / (ks[k] + h)
            acid = totals[t] * h / (ks[k] + h)
            low = -c.np.log10(ks[k]) <= 4.5
            c.eq(f"generic acid relative to the zero level of protons: {comp}", r[comp], c.np.where(low, -acid, base),
                 atol=1e-15)
    if "HF" in r:
        c.eq("equilibrium and mass balance: HF", r["HF"] * (ks["k_fluoride"] + h), totals["total_fluoride"] * h)
    if "HSO4" in r:
        c.eq("equilibrium and mass balance: HSO4", r["HSO4"] * (ks["k_bisulfate"] + h), totals["total_sulfate"] * h)
    c.same("caller's data unchanged", (pH, totals, ks), snap)


@contract("speciation_rejects", ["simulate.alkalinity_components", "simulate.alkalinity"])
def k_speciation_rejects(c):
    totals, ks = solution(c)
    pH = c.real("pH", 2.0, 9.5)
    bad = c.choice("bad", [0, 4, 5, -1])
    c.raises("other pH scales are rejected", "simulate.alkalinity_components", pH, totals, ks, opt_pH_scale=bad)
    c.raises("other pH scales are rejected (alkalinity)", "simulate.alkalinity", pH, totals, ks, opt_pH_scale=bad)


@contract("alkalinity_sum", ["simulate.alkalinity"])
def k_alkalinity_sum(c):
    pH, totals, ks, kw, scale = _setup(c)
    snap = c.snapshot((pH, totals, ks))
    comp = c.call("simulate.alkalinity_components", pH, totals, ks, **kw)
    a = c.call("simulate.alkalinity", pH, totals, ks, **kw)
    want = 0.0
    for k in MULT:
        if k in comp and MULT[k]:
            want = want + MULT[k] * comp[k]
    c.eq("acceptors minus donors", a, want, atol=1e-17)
    c.same("caller's data unchanged", (pH, totals, ks), snap)


GROUPS = TOTALS


@contract("alkalinity_monotone", ["simulate.alkalinity", "simulate.alkalinity_components"])
def k_monotone(c):
    """h_hi = h_lo-pH's proton content; any pair of pH values is -log10 of
    some h and h + d with d > 0."""
    totals, ks = solution(c)
    scale = _scale(c)
    kw = {} if scale is None else {"opt_pH_scale": scale}
    h = c.real("h", 1e-9, 1e-2, pos=True)
    d = c.real("d", 1e-9, 1e-2, pos=True)
    if c.mode == "conc" and "h" not in c.fixed:
        h = c.record["h"] = 10.0 ** c.rng.uniform(-15.0, 0.0)  # any pH
        d = c.record["d"] = h * 10.0 ** c.rng.uniform(-3.0, 2.0)
    hi, lo = -c.np.log10(h), -c.np.log10(h + d)  # pH: hi > lo
    only_h, only_l = {}, {}
    base_h = c.call("simulate.alkalinity", hi, {}, ks, **kw)
    base_l = c.call("simulate.alkalinity", lo, {}, ks, **kw)
    c.true("without solutes alkalinity rises strictly with pH", base_l < base_h)
    facts = [("lt", base_l, base_h)]
    for g in GROUPS:
        gh = c.call("simulate.alkalinity", hi, {g: totals[g]}, ks, **kw)
        gl = c.call("simulate.alkalinity", lo, {g: totals[g]}, ks, **kw)
        only_h[g], only_l[g] = gh - base_h, gl - base_l
        c.true(f"contribution does not fall with pH: {g}", only_l[g] <= only_h[g] + (0 if c.mode == "sym" else 1e-15 + 1e-14 * (abs(gh) + abs(gl))))
        facts.append(("le", only_l[g], only_h[g]))
    full_h = c.call("simulate.alkalinity", hi, totals, ks, **kw)
    full_l = c.call("simulate.alkalinity", lo, totals, ks, **kw)
    sh, sl = base_h, base_l
    for g in GROUPS:
        sh, sl = sh + only_h[g], sl + only_l[g]
    near = {} if c.mode == "sym" else dict(atol=1e-16 + 1e-13 * (abs(base_h) + abs(base_l)))
    c.eq("contributions add up (higher pH)", full_h, sh, **near)
    c.eq("contributions add up (lower pH)", full_l, sl, **near)
    c.derive("alkalinity rises strictly with pH", facts,
             ("lt", [base_l] + list(only_l.values()), [base_h] + list(only_h.values())))
    if c.mode == "conc":
        c.true("alkalinity rises strictly with pH", full_l < full_h)


# ------------------------------------------------------------- C21 simulator

SIM_TOTALS = ("total_alpha", "total_ammonia", "total_beta", "total_borate", "total_calcium", "total_fluoride",
              "total_phosphate", "total_silicate", "total_sulfate", "total_sulfide")
SIM_DEFAULT_OPTS = {"opt_gas_constant": 3, "opt_k_bisulfate": 1, "opt_k_carbonic": 10, "opt_k_fluoride": 1,
                    "opt_total_borate": 1}


SIM_DEFAULTS = {"analyte_mass": 0.1, "dic": 0, "emf0": 600, "salinity": 35, "temperature": 25, "titrant_mass_start": 0,
                "titrant_mass_step": 0.15e-3, "titrant_mass_stop": 4.2e-3, "titrant_molinity": 0.1}


def _sim_inputs(c, loss):
    kw = {}
    kw["analyte_mass"] = c.real("analyte_mass", 0.05, 0.3, pos=True)
    kw["dic"] = c.real("dic", 0.0, 2500.0, nonneg=True)
    kw["emf0"] = c.real("emf0", 300.0, 700.0)
    kw["salinity"] = c.real("salinity", 20.0, 40.0, nonneg=True)
    kw["temperature"] = c.real("temperature", 0.0, 30.0, nonneg=True)
    start = c.real("start", 0.0, 0.0005, nonneg=True)
    step = c.real("step", 0.0001, 0.0004, pos=True)
    span = c.real("span", 2.5, 12.0, pos=True)
    c.requires(span > 2.1)
    left = c.choice("left out", ["nothing", "chemistry", "start", "step", "stop"])
    start = SIM_DEFAULTS["titrant_mass_start"] if left == "start" else start
    step = SIM_DEFAULTS["titrant_mass_step"] if left == "step" else step
    stop = start + step * span
    if left == "stop":
        stop = SIM_DEFAULTS["titrant_mass_stop"]
        step = (stop - start) / span
        c.requires(start < stop)
    kw.update(titrant_mass_start=start, titrant_mass_step=step, titrant_mass_stop=stop)
    kw["titrant_molinity"] = c.real("titrant_molinity", 0.05, 0.3, pos=True)
    if left == "nothing" and c.choice("temperature", ["one", "at every point"]) == "at every point":
        grid = c.np.arange(start, stop, step)
        kw["temperature"] = c.array("temperature[]", grid.space.size() if c.mode == "sym" else len(grid), 0.0, 30.0, nonneg=True)
    if left == "chemistry":
        for k in ("analyte_mass", "dic", "emf0", "salinity", "temperature", "titrant_molinity"):
            del kw[k]
    elif left != "nothing":
        del kw["titrant_mass_" + left]
    opts = c.choice("options", ["defaults", "opts", "nutrients", "given salts"])
    extra = {}
    if opts == "opts":
        extra = dict(opt_k_carbonic=c.choice("optk", [4, 14]), opt_total_borate=2, opt_k_bisulfate=2)
    elif opts == "nutrients":
        for k in ("total_alpha", "total_ammonia", "total_beta", "total_phosphate", "total_silicate", "total_sulfide"):
            extra[k] = c.real(k, 0.0, 60.0, nonneg=True)
        extra["k_alpha"] = c.real("k_alpha", 1e-6, 1e-4, pos=True)
        extra["k_beta"] = c.real("k_beta", 1e-7, 1e-5, pos=True)
    elif opts == "given salts":
        for k in ("total_borate", "total_fluoride", "total_sulfate"):
            extra[k] = c.real(k, 10.0, 900.0, nonneg=True)
    return c.real("alkalinity", 1800.0, 2600.0), kw, extra


def _sim_check(c, alk, kw, extra, r, loss=None):
    tm, emf, temp, am, totals, ks = r
    sd = {**SIM_DEFAULTS, **kw}
    opts = dict(SIM_DEFAULT_OPTS)
    opts.update(extra)
    m, M = tm, sd["analyte_mass"]
    if c.mode == "sym":
        want_tm = c.np.arange(sd["titrant_mass_start"], sd["titrant_mass_stop"], sd["titrant_mass_step"])
        c.eq("titrant masses from start in the given steps", tm, want_tm)
    else:
        c.eq("titrant masses from start in the given steps", tm,
             sd["titrant_mass_start"] + sd["titrant_mass_step"] * c.np.arange(len(tm)), atol=1e-12)
        c.true("stop is exclusive", tm[-1] < sd["titrant_mass_stop"] and
               tm[-1] + sd["titrant_mass_step"] * (1 + 1e-9) >= sd["titrant_mass_stop"])
    t_arr = c.np.full_like(tm, sd["temperature"]) if c.np.isscalar(sd["temperature"]) else sd["temperature"]
    c.eq("temperature at every point", temp, t_arr)
    c.eq("analyte mass", am, M)
    f = M / (M + m)
    start = c.pyco2.sys(salinity=sd["salinity"], temperature=t_arr, opt_pH_scale=3, **opts)
    args = dict(opts)
    for k in SIM_TOTALS:
        args[k] = start[k] * f
        c.eq("every total is the undiluted one times the dilution factor: " + k, totals[k], args[k] * 1e-6)
    args.update(salinity=sd["salinity"], temperature=t_arr, opt_pH_scale=3)
    a_mix = (M * alk - 1e6 * m * sd["titrant_molinity"]) / (M + m)
    if loss is None:
        dic = sd["dic"] * f
        c.eq("DIC is diluted only", totals["dic"], dic * 1e-6)
    else:
        dic = totals["dic"] * 1e6
        kdl, air = loss

        def step(i, prev):
            one = {k: (v if c.np.isscalar(v) else v[i]) for k, v in args.items()}
            fco2 = c.pyco2.sys(par1=a_mix[i], par2=prev, par1_type=1, par2_type=2, **one)["fCO2"]
            w = M + m[i]
            s = sd["titrant_mass_step"]
            return prev * w / (w + s) - kdl * (fco2 - air) * s

        c.recurrence("each step dilutes DIC and subtracts the loss", dic, sd["dic"], step, rtol=1e-8)
    mix = c.pyco2.sys(a_mix, dic, 1, 2, **args)
    ln10 = c.np.log(10.0)
    slope = ln10 * 8.3144621 * (t_arr + 273.15) / 96.4853365
    c.eq("EMF is the Nernst potential of the free-scale pH", emf, sd["emf0"] - mix["pH_free"] * slope, atol=1e-6)
    for k in KS:
        c.eq("constants of the same calculation: " + k, ks[k], mix[k])


@contract("simulated_titration", ["simulate._titration"], conc=30)
def k_simulated(c):
    alk, kw, extra = _sim_inputs(c, False)
    r = c.call("simulate._titration", alk, **kw, **extra)
    _sim_check(c, alk, kw, extra, r)


@contract("simulated_dic_loss", ["simulate._titration"], conc=8)
def k_simulated_loss(c):
    alk, kw, extra = _sim_inputs(c, True)
    kdl = c.real("k_dic_loss", 0.0, 20.0, nonneg=True)
    air = c.choice("air", ["default", "given"])
    kw2 = dict(k_dic_loss=kdl)
    a = 450
    if air == "given":
        a = kw2["fCO2_air"] = c.real("fCO2_air", 300.0, 600.0)
    r = c.call("simulate._titration", alk, **kw, **kw2, **extra)
    _sim_check(c, alk, kw, extra, r, (kdl, a))
