"""Contracts on calkulate/interface.py."""

from vc.harness import contract, spec

NUTS = ("total_ammonia", "total_phosphate", "total_silicate", "total_sulfide")
GEN = ("total_alpha", "total_beta")
SALTS = {"total_borate": "TB", "total_fluoride": "TF", "total_sulfate": "TSO4"}
PY = {"total_ammonia": "TNH3", "total_phosphate": "TPO4", "total_silicate": "TSi", "total_sulfide": "TH2S"}


def missing(c, v):
    return v is None or (isinstance(v, float) and v != v)


def _assemble(c, sal, nut, optk, optb, given):
    return c.pyco2.salts.assemble(sal, nut["total_silicate"], nut["total_phosphate"], nut["total_ammonia"],
                                  nut["total_sulfide"], optk, optb, totals=dict(given))


@spec("interface.get_totals")
def s_get_totals(c, salinity, dic=0, total_alpha=0, total_beta=0, total_ammonia=0, total_phosphate=0,
                 total_silicate=0, total_sulfide=0, total_borate=None, total_fluoride=None, total_sulfate=None,
                 opt_k_carbonic=10, opt_total_borate=1):
    nut = dict(total_ammonia=total_ammonia, total_phosphate=total_phosphate, total_silicate=total_silicate,
               total_sulfide=total_sulfide)
    salts = dict(total_borate=total_borate, total_fluoride=total_fluoride, total_sulfate=total_sulfate)
    given = {}
    for k, v in salts.items():
        if v is None or c.pd.isnull(v):
            continue
        given[SALTS[k]] = v * 1e-6
    gen = {}
    if total_alpha > 0:
        gen["total_alpha"] = total_alpha * 1e-6
        given["alpha"] = total_alpha * 1e-6
    if total_beta > 0:
        gen["total_beta"] = total_beta * 1e-6
        given["beta"] = total_beta * 1e-6
    py = _assemble(c, salinity, nut, opt_k_carbonic, opt_total_borate, given)
    totals = {"dic": dic * 1e-6}
    totals.update(gen)
    for k, p in PY.items():
        if nut[k] > 0:
            totals[k] = nut[k] * 1e-6
    for k, p in SALTS.items():
        totals[k] = py[p]
    return totals, py


def _salt(c, k, how):
    """absent / null / given (zero included)"""
    if how == "none":
        return None
    if how == "nan":
        return float("nan")
    return c.real(k, 0.0, 40000.0, nonneg=True)


@contract("get_totals", ["interface.get_totals"])
def k_get_totals(c):
    sal = c.real("salinity", 0.5, 45.0, nonneg=True)
    kw = {}
    dic = 0
    if c.choice("dic", ["given", "absent"]) == "given":
        dic = kw["dic"] = c.real("dic", 0.0, 2500.0, nonneg=True)
    given = {}
    focus = c.choice("focus", ["salts", "others"])
    hows = ("given", "absent", "absent") if focus == "others" else c.choice("salts", [
        ("absent",) * 3, ("none",) * 3, ("given",) * 3, ("nan",) * 3,
        ("given", "absent", "nan"), ("nan", "given", "absent"), ("absent", "nan", "given"),
        ("given", "given", "none"), ("given", "none", "given"), ("none", "given", "given"),
        ("zero", "absent", "given"), ("given", "zero", "absent"), ("nan", "given", "zero")])
    for k, how in zip(SALTS, hows):
        if how == "zero":
            kw[k] = given[k] = c.choice("zero type", [0, 0.0])
        elif how != "absent":
            kw[k] = _salt(c, k, how)
            if how == "given":
                given[k] = kw[k]
    # each of the other substances: any non-negative content, or not mentioned
    other = c.choice("others", ["absent", "positive", "zero"] if focus == "salts" else ["any"])
    val = {}
    for k in NUTS + GEN:
        val[k] = 0
        if other in ("any", "positive"):
            val[k] = kw[k] = c.real(k, 0.0, 100.0, nonneg=True, pos=other == "positive")
        elif other == "zero":
            val[k] = kw[k] = 0
    optk, optb = 10, 1
    if c.choice("options", ["given", "absent"]) == "given":
        optk = kw["opt_k_carbonic"] = c.integer("opt_k_carbonic", 9, 17)
        optb = kw["opt_total_borate"] = c.integer("opt_total_borate", 1, 2)
    totals, py = c.call("interface.get_totals", sal, **kw)
    nut = {k: val[k] for k in NUTS}
    default = _assemble(c, sal, nut, optk, optb, {})
    want = {"dic": dic * 1e-6}
    for k, p in SALTS.items():
        want[k] = given[k] * 1e-6 if k in given else default[p]
        c.eq(f"PyCO2SYS-style {k}", py[p], want[k])
    for k in NUTS + GEN:
        if val[k] > 0:
            want[k] = val[k] * 1e-6
    c.eq("exactly the contents present are reported", sorted(totals), sorted(want))
    for k in want:
        c.eq(f"content in mol/kg: {k}", totals[k], want[k])
    c.eq("salinity passed on", py["Sal"], sal)
    for k, p in PY.items():
        c.eq(f"PyCO2SYS-style {k}", py[p], val[k] * 1e-6)


K = {"k_alpha": "k_alpha", "k_ammonia": "KNH3", "k_beta": "k_beta", "k_bisulfate": "KSO4", "k_borate": "KB",
     "k_carbonic_1": "K1", "k_carbonic_2": "K2", "k_fluoride": "KF", "k_phosphoric_1": "KP1",
     "k_phosphoric_2": "KP2", "k_phosphoric_3": "KP3", "k_silicate": "KSi", "k_sulfide": "KH2S", "k_water": "KW"}


@spec("interface.get_k_constants")
def s_get_k(c, totals_pyco2, temperature, k_alpha=None, k_ammonia=None, k_beta=None, k_bisulfate=None,
            k_borate=None, k_carbonic_1=None, k_carbonic_2=None, k_fluoride=None, k_phosphoric_1=None,
            k_phosphoric_2=None, k_phosphoric_3=None, k_silicate=None, k_sulfide=None, k_water=None,
            opt_k_bisulfate=1, opt_k_carbonic=10, opt_k_fluoride=1, opt_pH_scale=3, opt_total_borate=1):
    loc = locals()
    user = {}
    for k, p in K.items():
        v = loc[k]
        if v is None or c.pd.isnull(v):
            continue
        user[p] = v
    # a dict of its own: the totals belong to the caller
    Ks = c.pyco2.equilibria.assemble(temperature, 0, dict(totals_pyco2), opt_pH_scale, opt_k_carbonic,
                                     opt_k_bisulfate, opt_k_fluoride, 3, Ks=dict(user))
    out = {k: Ks[p] for k, p in K.items()}
    if opt_pH_scale == 1 and "TSO4" in totals_pyco2:
        out["k_fluoride"] = out["k_fluoride"] * (1 + totals_pyco2["TSO4"] / out["k_bisulfate"])
    return out


@contract("get_k_constants", ["interface.get_k_constants"])
def k_get_k(c):
    from contracts.simulate_c import K_RANGE

    n = c.length("n", 1, 5)
    shape = c.choice("temperature", ["array", "integers", "scalar"])
    t = c.array("t", n, 0.0, 39.0, nonneg=True, ints=shape == "integers") if shape != "scalar" else c.real("t", 0.0, 39.0, nonneg=True)
    sal = c.real("salinity", 5.0, 42.0, nonneg=True)
    tot = {"Sal": sal, "TSO4": c.real("TSO4", 0.0, 0.03, nonneg=True), "TF": c.real("TF", 0.0, 1e-4, nonneg=True),
           "TB": c.real("TB", 0.0, 5e-4, nonneg=True), "TPO4": 0.0, "TSi": 0.0, "TNH3": 0.0, "TH2S": 0.0,
           "TCa": 0.01, "PengCorrection": 0.0}
    which = c.choice("user constants", ["none", "all", "all null"] + list(K) + ["-" + k for k in K] + ["0" + k for k in K])
    kw = {}
    if which in ("all", "none", "all null"):
        names = list(K) if which == "all" else []
    elif which in K:
        names = [which]
    else:
        names = [k for k in K if k != which[1:]]
    for k in names:
        kw[k] = c.real(k, *K_RANGE[k], pos=True)
    if which == "all null":
        kw = {k: (None if i % 2 else float("nan")) for i, k in enumerate(K)}
    elif which[0] == "0":
        kw[which[1:]] = float("nan")
    scale = c.choice("scale", [None, 1, 2, 3])
    if scale is not None:
        kw["opt_pH_scale"] = scale
    if c.choice("options", ["given", "absent"]) == "given":
        kw["opt_k_carbonic"] = c.integer("opt_k_carbonic", 9, 17)
        kw["opt_k_bisulfate"] = c.integer("opt_k_bisulfate", 1, 2)
        kw["opt_k_fluoride"] = c.integer("opt_k_fluoride", 1, 2)
    snap = c.snapshot(tot)
    r = c.call("interface.get_k_constants", tot, t, **kw)
    want = s_get_k(c, snap, t, **kw)
    c.eq("exactly the known equilibria", sorted(r), sorted(want))
    for k in K:
        if k in names and not (k == "k_fluoride" and scale == 1):
            c.eq("a given constant is used as given", r[k], kw[k])
        c.eq(f"constant: {k}", r[k], want[k])
    for k in ("Sal", "TSO4", "TF", "TB"):
        c.same(f"caller's totals unchanged: {k}", tot[k], snap[k])
