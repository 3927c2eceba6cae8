"""Contracts on calkulate/loss.py."""

from vc.harness import contract, spec


def dilution(M, dm):
    return M / (dm + M)


def fco2(dic, pH, k0, k1, k2):
    h = 10.0 ** -pH
    return dic * h * h / ((h * h + k1 * h + k1 * k2) * k0)


@spec("loss.dic_loss_model_fitted")
def s_fitted(c, k_dic_loss, i_titrant_mass, i_delta_fCO2, dic_start, analyte_mass, step_tm):
    """For callers: a function of its arguments (which one: k_fitted)."""
    if c.mode == "sym":
        return c.functional("loss_fitted", i_delta_fCO2, [k_dic_loss, dic_start, analyte_mass, step_tm], [i_titrant_mass, i_delta_fCO2])
    out = [dic_start * 1e6]
    for m, d in zip(i_titrant_mass[:-1], i_delta_fCO2[:-1]):
        out.append(out[-1] * dilution(analyte_mass + m, step_tm) - k_dic_loss * d * step_tm)
    return c.np.array(out)


@spec("loss.dic_loss_model_future")
def s_future(c, k_dic_loss, f_titrant_mass, f_pH, f_k0, f_k1, f_k2, delta_fCO2_start, dic_start, pH_start, k0_start, k1_start, k2_start,
             analyte_mass, step_tm, fCO2_air=450):
    if c.mode == "sym":
        a = ([k_dic_loss, delta_fCO2_start, dic_start, pH_start, k0_start, k1_start, k2_start, analyte_mass, step_tm, fCO2_air],
             [f_titrant_mass, f_pH, f_k0, f_k1, f_k2])
        return c.functional("loss_future_dic", f_titrant_mass, *a), c.functional("loss_future_fCO2", f_titrant_mass, *a)
    dic, df = [], []
    for i in range(len(f_titrant_mass)):
        if i == 0:
            w = analyte_mass + f_titrant_mass[0] - step_tm
            dic.append(dic_start * dilution(w, step_tm) - k_dic_loss * delta_fCO2_start * step_tm)
            df.append(fco2(dic[0], pH_start, k0_start, k1_start, k2_start) - fCO2_air)
        else:
            w = analyte_mass + f_titrant_mass[i - 1]
            dic.append(dic[-1] * dilution(w, step_tm) - k_dic_loss * df[-1] * step_tm)
            df.append(fco2(dic[-1], f_pH[i], f_k0[i], f_k1[i], f_k2[i]) - fCO2_air)
    return c.np.array(dic), c.np.array(df)


def model_inputs(c):
    k = c.real("k_dic_loss", 0.0, 3.0)
    M = c.real("analyte_mass", 0.05, 0.25, pos=True)
    step = c.real("step_tm", 1e-5, 3e-5, pos=True)
    return k, M, step


@contract("loss_fitted", ["loss.dic_loss_model_fitted", "convert.get_dilution_factor"])
def k_fitted(c):
    n = c.length("n", 1, 9)
    k, M, step = model_inputs(c)
    m = c.array("i_titrant_mass", n, 0.0, 0.005, nonneg=True)
    d = c.array("i_delta_fCO2", n, -100.0, 50000.0)
    dic0 = c.real("dic_start", 0.0, 0.003)
    snap = c.snapshot([m, d])
    dic = c.call("loss.dic_loss_model_fitted", k, m, d, dic0, M, step)
    c.recurrence("each step dilutes DIC and subtracts the loss", dic, dic0 * 1e6,
                 lambda i, prev: prev * dilution(M + m[i], step) - k * d[i] * step)
    c.same("the data are not modified", [m, d], snap)


@contract("loss_fCO2", ["loss.get_fCO2_from_dic_pH"])
def k_fco2(c):
    arr = c.choice("array", [False, True])
    n = c.length("n", 1, 6)
    v = c.array if arr else (lambda name, n, *a, **k: c.real(name, *a, **k))
    dic = v("dic", n, 0.0, 3000.0, nonneg=True)
    pH = v("pH", n, 2.5, 9.0)
    k0, k1, k2 = v("k0", n, 0.01, 0.06, pos=True), v("k1", n, 1e-7, 3e-6, pos=True), v("k2", n, 1e-10, 2e-9, pos=True)
    f = c.call("loss.get_fCO2_from_dic_pH", dic, pH, k0, k1, k2)
    c.eq("fCO2 is the CO2(aq) part of DIC over k0", f, fco2(dic, pH, k0, k1, k2))


@contract("loss_future", ["loss.dic_loss_model_future", "loss.get_fCO2_from_dic_pH", "convert.get_dilution_factor"])
def k_future(c):
    n = c.length("n", 1, 9)
    k, M, step = model_inputs(c)
    m = c.array("f_titrant_mass", n, 0.001, 0.005, pos=True)
    pH = c.array("f_pH", n, 2.5, 6.0)
    k0 = c.array("f_k0", n, 0.01, 0.06, pos=True)
    k1 = c.array("f_k1", n, 1e-7, 3e-6, pos=True)
    k2 = c.array("f_k2", n, 1e-10, 2e-9, pos=True)
    s = dict(delta_fCO2_start=c.real("delta_fCO2_start", 100.0, 50000.0), dic_start=c.real("dic_start", 0.0, 3000.0, nonneg=True),
             pH_start=c.real("pH_start", 3.0, 6.0), k0_start=c.real("k0_start", 0.01, 0.06, pos=True),
             k1_start=c.real("k1_start", 1e-7, 3e-6, pos=True), k2_start=c.real("k2_start", 1e-10, 2e-9, pos=True))
    kw, air = {}, 450.0
    if c.choice("air", [False, True]):
        air = kw["fCO2_air"] = c.real("fCO2_air", 300.0, 600.0)
    snap = c.snapshot([m, pH, k0, k1, k2])
    dic, df = c.call("loss.dic_loss_model_future", k, m, pH, k0, k1, k2, analyte_mass=M, step_tm=step, **s, **kw)
    w0 = M + m[0] - step
    first = s["dic_start"] * dilution(w0, step) - k * s["delta_fCO2_start"] * step
    c.recurrence("DIC goes on from the last fitted value", dic, first,
                 lambda i, prev: prev * dilution(M + m[i], step) - k * df[i] * step)
    start = fco2(dic[0], s["pH_start"], s["k0_start"], s["k1_start"], s["k2_start"]) - air
    c.recurrence("delta-fCO2 follows from DIC, pH and the constants", df, start,
                 lambda i, prev: fco2(dic[i + 1], pH[i + 1], k0[i + 1], k1[i + 1], k2[i + 1]) - air)
    c.same("the data are not modified", [m, pH, k0, k1, k2], snap)


def loss_inputs(c):
    n = c.length("n", 12, 24)
    if c.mode == "sym":
        m = c.array("titrant_mass", n, 0.0, 0.005, nonneg=True)
        pH = c.array("pH", n, 2.5, 9.0)
    else:
        # increasing titrant, falling pH, the split inside
        exact = c.choice("evenly spaced", [False, True])
        step = 2.0**-12 if exact else c.real("step", 1e-4, 2.5e-4)
        jit = c.array("jitter", n, 0.0, 0.3) * (not exact)
        m = (c.np.arange(n) + jit) * step
        m = m - m[0]
        pH = 8.1 - (5.0 + c.real("pH span", -0.5, 0.5)) * c.np.sort(c.array("pH frac", n, 0.0, 1.0))
        pH[0], pH[-1] = 8.1, 3.0
    dic = c.array("dic_loss", n, 0.0, 2500.0, nan=True)
    f = c.array("fCO2_loss", n, 300.0, 60000.0, nan=True, nonneg=True)
    if c.mode == "conc":
        c.requires(not c.np.isnan(f).all())
    k0 = c.array("k_CO2", n, 0.01, 0.06, pos=True)
    k1 = c.array("k_carbonic_1", n, 1e-7, 3e-6, pos=True)
    k2 = c.array("k_carbonic_2", n, 1e-10, 2e-9, pos=True)
    M = c.real("analyte_mass", 0.05, 0.25, pos=True)
    dic0 = c.real("dic_start", 0.0015, 0.0025, nonneg=True)
    kw = {}
    if c.choice("air", [False, True]):
        kw["fCO2_air"] = c.real("fCO2_air", 300.0, 600.0)
    if c.choice("split", [False, True]):
        kw["split_pH"] = c.real("split_pH", 4.5, 6.5)
        if c.mode == "conc" and c.choice("split at a point", [False, True]):
            kw["split_pH"] = float(pH[c.np.argmin(c.np.abs(pH - kw["split_pH"]))])
    return [m, pH, dic, f, k0, k1, k2], M, dic0, kw


def spec_hires(c, data, M, dic0, air=450, split=5.5):
    np, pchip = c.np, c.pchip
    m, pH, dic, f, k0, k1, k2 = data
    dic = np.where(np.isnan(dic), 0.0, dic)
    f = np.where(np.isnan(f), np.nanmax(f), f)
    step = np.median(np.diff(m)) / 10
    a = np.arange(0, np.max(m), step)
    a_pH = pchip(m, pH, a)
    hi, lo = a[a_pH >= split], a[a_pH < split]
    if c.mode == "conc":
        c.requires(len(hi) > 1 and len(lo) > 1)
    i_dic, i_d = pchip(m, dic, hi), pchip(m, f - air, hi)
    last = hi[-1]
    k = c.least_squares(lambda x: s_fitted(c, x[0], hi, i_d, dic0, M, step) - i_dic, [1.0])["x"][0]
    fit = s_fitted(c, k, hi, i_d, dic0, M, step)
    fut, fut_d = s_future(c, k, lo, pchip(m, pH, lo), pchip(m, k0, lo), pchip(m, k1, lo), pchip(m, k2, lo), i_d[-1], fit[-1],
                          pchip(m, pH, last), pchip(m, k0, last), pchip(m, k1, last), pchip(m, k2, last), M, step, air)
    return k, {"titrant_mass": a, "pH": a_pH, "dic": np.concatenate((fit, fut)), "delta_fCO2": np.concatenate((i_d, fut_d))}


@contract("loss_hires", ["loss.get_dic_loss_hires", "loss._lsqfun_dic_loss_model", "loss.dic_loss_model_fitted", "loss.dic_loss_model_future"],
          conc=60)
def k_hires(c):
    data, M, dic0, kw = loss_inputs(c)
    snap = c.snapshot(data)
    c.use("loss.dic_loss_model_fitted", "loss.dic_loss_model_future")
    want_k, want = spec_hires(c, data, M, dic0, kw.get("fCO2_air", 450), kw.get("split_pH", 5.5))
    k, out = c.call("loss.get_dic_loss_hires", *data, M, dic0, **kw)
    c.eq("the coefficient is the least-squares fit of the fitted part", k, want_k, rtol=1e-5, atol=1e-6)
    for name, v in want.items():
        c.eq("at high resolution: " + name, out[name], v, rtol=1e-5, atol=1e-3)
    c.same("the data are not modified", data, snap)


@contract("loss_points", ["loss.get_dic_loss", "loss.get_dic_loss_hires", "loss.dic_loss_model_fitted", "loss.dic_loss_model_future"], conc=40)
def k_points(c):
    data, M, dic0, kw = loss_inputs(c)
    snap = c.snapshot(data)
    c.use("loss.dic_loss_model_fitted", "loss.dic_loss_model_future")
    air, split = kw.get("fCO2_air", 450), kw.get("split_pH", 5.5)
    want_k, w = spec_hires(c, data, M, dic0, air, split)
    m, pH = data[:2]
    if c.mode == "conc":
        c.requires(len(w["titrant_mass"]) > 2)
    k, dic, f, fitted = c.call("loss.get_dic_loss", *data, M, dic0, **kw)
    c.eq("the coefficient is the least-squares fit of the fitted part", k, want_k, rtol=1e-5, atol=1e-6)
    c.eq("DIC at the titration points in mol/kg", dic, c.pchip(w["titrant_mass"], w["dic"], m) * 1e-6, rtol=1e-5, atol=1e-8)
    c.eq("fCO2 at the titration points in uatm", f, c.pchip(w["titrant_mass"], w["delta_fCO2"], m) + air, rtol=1e-5, atol=1e-2)
    c.eq("the fitted part is where pH is at or above the split", fitted, pH >= split)
    c.same("the data are not modified", data, snap)
