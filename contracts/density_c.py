"""Contracts on calkulate/density.py."""

from vc.harness import contract, spec


@spec("density.seawater_1atm_MP81")
def s_seawater(c, temperature=25, salinity=35):
    t, s = temperature, salinity
    pure = (999.842594 + t * (6.793952e-2 + t * (-9.095290e-3 + t * (1.001685e-4 + t * (-1.120083e-6 + t * 6.536336e-9)))))
    a = 8.24493e-1 + t * (-4.0899e-3 + t * (7.6438e-5 + t * (-8.2467e-7 + t * 5.3875e-9)))
    b = -5.72466e-3 + t * (1.0227e-4 - 1.6546e-6 * t)
    return (pure + a * s + b * s**1.5 + 4.8314e-4 * s * s) / 1000


@spec("density.HCl_NaCl_25C_DSC07")
def s_hcl_nacl(c, molinity_HCl=None, molinity_NaCl=None):
    h = 0.1 if molinity_HCl is None else molinity_HCl
    na = 0.6 if molinity_NaCl is None else molinity_NaCl
    rw = 0.99704
    m = h + na
    root = m**0.5
    phi_h = 17.854 + 1.460 * root - 0.307 * m
    phi_na = 16.613 + 1.811 * root + 0.094 * m
    return rw * (1000 + 36.46 * h + 58.44 * na) / (1000 + (h * phi_h + na * phi_na) * rw)


@spec("density.H2SO4_25C_EAIM")
def s_h2so4(c, titrant_molinity):
    m = titrant_molinity
    return 0.99750018 + m * (0.06181819 - 0.00285491 * m)


def _warned(c, before):
    return len(c.warnings()) - before


def _count(c, *conds):
    """How many of the conditions hold (an integer, or forks the path)."""
    return sum(1 for x in conds if x)


@contract("density_seawater", ["density.seawater_1atm_MP81"])
def k_seawater(c):
    shape = c.choice("shape", ["both arrays", "scalars", "T array", "S array", "default T", "default S", "integers"])
    n = c.length("n", 1, 6)
    t, s = 25, 35
    kw = {}
    if shape in ("both arrays", "T array", "integers"):
        t = kw["temperature"] = c.array("t[]", n, -5.0, 45.0, ints=shape == "integers")
    elif shape != "default T":
        t = kw["temperature"] = c.real("t", -5.0, 45.0)
    if shape in ("both arrays", "S array", "integers"):
        s = kw["salinity"] = c.array("s[]", n, 0.0, 45.0, nonneg=True, ints=shape == "integers")
    elif shape != "default S":
        s = kw["salinity"] = c.real("s", 0.0, 45.0, nonneg=True)
    c.hint_range(t, 0.0, 40.0)
    c.hint_range(s, 0.5, 43.0)
    before = len(c.warnings())
    r = c.call("density.seawater_1atm_MP81", **kw)
    w = _warned(c, before)
    c.eq("MP81 equation", r, s_seawater(c, t, s))
    bad_t = c.np.any((t < 0) | (t > 40))
    bad_s = c.np.any((s < 0.5) | (s > 43))
    c.eq("warns once per quantity out of range, not otherwise", w, _count(c, bad_t, bad_s))


@contract("density_hcl", ["density.HCl_NaCl_25C_DSC07"])
def k_hcl(c):
    n = c.length("n", 1, 6)
    shape = c.choice("shape", ["scalars", "arrays", "none", "HCl only", "NaCl only"])
    kw = {}
    if shape in ("scalars", "HCl only"):
        kw["molinity_HCl"] = c.real("h", 0.001, 2.0, pos=True)
    if shape in ("scalars", "NaCl only"):
        kw["molinity_NaCl"] = c.real("na", 0.0, 2.0, nonneg=True)
    if shape == "arrays":
        kw = dict(molinity_HCl=c.array("h[]", n, 0.001, 2.0, pos=True), molinity_NaCl=c.array("na[]", n, 0.0, 2.0, nonneg=True))
    before = len(c.warnings())
    r = c.call("density.HCl_NaCl_25C_DSC07", **kw)
    c.eq("DSC07 equation", r, s_hcl_nacl(c, **kw))
    c.eq("no warning", _warned(c, before), 0)


@contract("density_h2so4", ["density.H2SO4_25C_EAIM"])
def k_h2so4(c):
    m = c.real("m", 0.0, 4.0, nonneg=True)
    before = len(c.warnings())
    r = c.call("density.H2SO4_25C_EAIM", m)
    w = _warned(c, before)
    c.eq("E-AIM fit", r, s_h2so4(c, m))
    c.eq("warns iff out of range", w, _count(c, (m < 0.05) | (m > 3)))
