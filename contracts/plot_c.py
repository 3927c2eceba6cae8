"""Contracts on calkulate/plot: frame conditions."""

import os

from contracts import dataset_c
from vc import effects as E
from vc import harness as H
from vc.harness import Rejected, TargetRaised, contract

NAN = float("nan")
DATASET = {"titrant_molinity": "plot_titrant_molinity", "alkalinity_offset": "plot_alkalinity_offset"}
TITRATION = {"emf": "plot_emf", "pH": "plot_pH", "gran_emf0": "plot_emf0_gran", "gran_alkalinity": "plot_alkalinity_gran",
             "alkalinity": "plot_alkalinity", "components": "plot_components"}
GRAN = ["gran_used", "gran_pH", "gran_emf0", "gran_func", "gran_alkalinity"]


def frame(c, dotted, fx, make, *a, **k):
    """Runs until it returns or raises; either way nothing of the caller's
    may have been written."""
    c.package(overrides=E.libraries(fx))
    try:
        c.call(dotted, *make(), *a, **k)
    except TargetRaised:
        pass
    c.run.static("writes nothing of the caller's", not fx.writes, "; ".join(fx.writes[:4]))
    c.run.congruence("writes nothing that may share the caller's storage", not fx.shared, "; ".join(fx.shared[:4]), c)


def batch_table(c, n):
    rnd = lambda name, lo, hi: c.column(name, n, lo=lo, hi=hi)  # noqa: E731
    d = dict(analysis_batch=[c.choice(f"batch{i}", [0, 1, "b"] if c.choice("mixed", [0, 0]) else [0, 1, 2]) for i in range(n)],
             titrant_molinity_here=rnd("here", 0.09, 0.11), titrant_molinity=rnd("molinity", 0.09, 0.11),
             alkalinity_offset=rnd("offset", -5.0, 5.0), salinity=rnd("salinity", 30.0, 38.0))
    d["reference_good"] = [bool(c.choice(f"good{i}", [True, False])) for i in range(n)]
    d["analysis_datenum"] = [c.real(f"when{i}", 0.0, 9.0) for i in range(n)]
    return d


@contract("plots_of_datasets", ["plot." + f for f in DATASET] + ["dataset.get_batches", "plot.misc.add_credit"], conc=25)
def k_plots_of_datasets(c):
    fn = c.choice("figure", list(DATASET))
    kw = {}
    if c.choice("x given", [False, True]):
        kw["xvar"] = "analysis_datenum"
    for k in ("show_bad", "show_batches"):
        v = c.choice(k, [None, True, False])
        if v is not None:
            kw[k] = v
    good = c.choice("references marked", [True, False])
    save = c.choice("saved", [False, True])
    if c.mode == "sym":
        if save:
            kw["figure_fname"] = "x.png"
        fx = E.Effects([] if good else ["reference_good"])
        return frame(c, "plot." + fn, fx, lambda: [E.Opaque(fx, "data", "caller")], **kw)
    pyplot()
    if save and c.choice("really saved", [False, False, True]):
        kw["figure_fname"] = os.path.join(c.tmpdir(), "x.png")
    d = batch_table(c, c.integer("n", 2, 8))
    if not good:
        del d["reference_good"]
        kw["show_batches"] = False
    order = list(range(len(d["salinity"])))
    if c.choice("labels", [0, 1]):
        order = [5 * i + 3 for i in reversed(order)]
    ds = c.mod("classes").Dataset(d, index=order)
    extra = c.choice("first draws", [None] + [f for f in DATASET if good])
    if extra:
        draw(c, getattr(ds, DATASET[extra]))
        ds = c.mod("classes").Dataset(d, index=order)
    before = snapshot(c, ds)
    via = c.choice("via", ["method", "function"])
    draw(c, getattr(ds, DATASET[fn]) if via == "method" else lambda **k: c.fn("plot." + fn)(ds, **k), **kw)
    c.true("the dataset is as it was", before == snapshot(c, ds))


def pyplot():
    import matplotlib

    matplotlib.use("Agg", force=True)


def draw(c, f, *a, **k):
    """Whether or not it can be drawn."""
    import matplotlib.pyplot as plt

    try:
        c.guard(f, *a, **k)
    except TargetRaised:
        pass
    finally:
        plt.close("all")


def snapshot(c, t):
    """Values, types, order and labels of a table."""
    return (type(t).__name__, list(t.columns), list(t.index), [str(x) for x in t.dtypes],
            [[repr(v) for v in t[k].tolist()] for k in t.columns], dict(t.attrs))


def plain(c, v, depth=0):
    if isinstance(v, c.pd.DataFrame):
        return snapshot(c, v)
    if isinstance(v, c.pd.Series):
        return (list(map(repr, v.index)), str(v.dtype), [repr(x) for x in v.tolist()])
    if isinstance(v, c.np.ndarray):
        return (str(v.dtype), repr(v.tolist()))
    if isinstance(v, dict):
        return {str(k): plain(c, x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(c, x, depth + 1) for x in v]
    if hasattr(v, "__dict__") and not callable(v) and depth < 8:
        return {k: plain(c, x, depth + 1) for k, x in vars(v).items()}
    return repr(v)


def titration_state(c, tt):
    return {k: plain(c, v) for k, v in sorted(vars(tt).items())}


@contract("plots_of_titrations", ["plot.titration." + f for f in TITRATION] + ["plot.titration.scatter_both", "plot.misc.add_credit"], conc=25)
def k_plots_of_titrations(c):
    fn = c.choice("figure", list(TITRATION))
    kw = {}
    if fn == "pH":
        v = c.choice("show_gran", [None, True, False])
        if v is not None:
            kw["show_gran"] = v
    if fn == "components":
        v = c.choice("log_scale", [None, True, False])
        if v is not None:
            kw["log_scale"] = v
    ax = c.choice("axes given", [False, True])
    if c.mode == "sym":
        fx = E.Effects([[], GRAN, ["pH_min", "pH_max"], ["emf"]][c.choice("absent", [0, 1, 2, 3])])
        if ax:
            kw["ax"] = E.Opaque(fx, "axes")
        return frame(c, "plot.titration." + fn, fx, lambda: [E.Opaque(fx, "titration object", "caller")], **kw)
    pyplot()
    import matplotlib.pyplot as plt

    kind = c.choice("kind", ["emf", "emf", "pH", "pH_gran"])
    row, where = dataset_c.base_row(c, kind, "solve")
    row["file_path"] = where
    row["solve_mode"] = kind
    if c.choice("window", [0, 1]):
        row["pH_min"], row["pH_max"] = 3.1, 3.9
    if c.choice("nutrients", [0, 1]):
        row["total_phosphate"], row["total_alpha"], row["k_alpha"] = 2.5, 3.0, 1e-5
    r = c.row(row)
    try:
        tt = c.call("classes.Titration", r)
    except TargetRaised:
        raise Rejected() from None
    src = (list(r.index), [repr(x) for x in r.tolist()])
    before = titration_state(c, tt)
    seq = [fn] + [c.choice(f"then{i}", list(TITRATION)) for i in range(c.integer("more", 0, 2))]
    for f in seq:
        a = dict(kw) if f == fn else {}
        if ax:
            a["ax"] = plt.subplots()[1]
        m = getattr(tt, TITRATION[f])
        draw(c, m, **a)
        after = titration_state(c, tt)
        for k in before:
            c.true(f"as it was after drawing: {k}", after.get(k) == before[k])
        c.true("nothing added", set(after) == set(before))
    c.true("the dataset row is as it was", src == (list(r.index), [repr(x) for x in r.tolist()]))
