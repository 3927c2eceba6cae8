"""Contracts on calkulate/read/metadata.py."""

import math
import os

from vc import loader
from vc import sym as S
from vc import terms as T
from vc.harness import contract
from vc.rows import GCol, GFrame
from vc.shims import Shim
from vc.textio import GText
from vc.tok import Tok

RM = "read.metadata"
HEAD = ["run type", "bottle", "station", "cast", "niskin", "depth", "salinity", "cert. CRM CT", "cert. CRM AT", "batch", "AT", "comment",
        "date", "time"]
NAN = float("nan")


def setup_sym(c, cells, path, numeric):
    """Assumed contracts: the first line gives the column names, read_table
    the cells below them (a column of numbers only as numbers, unless it is
    asked for as text)."""
    def genfromtxt(fname, delimiter=None, dtype=float, max_rows=None, **k):
        S._only(k)
        if fname != path or delimiter != "\t" or dtype is not str or max_rows != 1:
            raise S.Unsupported("genfromtxt")
        return list(HEAD)

    def read_table(fname, header="infer", names=None, usecols=None, dtype=None, sep="\t", **k):
        S._only(k)
        if fname != path or header != 0 or names != HEAD or usecols != HEAD or sep != "\t" or set(dtype or {}) - {"bottle"}:
            raise S.Unsupported("read_table")
        d = dict(cells)
        if numeric and (dtype or {}).get("bottle") is not str:
            d["bottle"] = S.SNum(T.var("number of the bottle text", "I"))
        return GFrame(d)

    dates = Shim("matplotlib.dates", {"date2num": date2num})
    mpl = loader._Null("matplotlib")
    mpl.dates = dates
    pkg = c.package(extra_pandas={"DataFrame": GFrame, "read_table": read_table}, overrides={"matplotlib": mpl, "matplotlib.dates": dates})
    pkg.np.genfromtxt = genfromtxt
    pkg.np.datetime64 = datetime64


def datetime64(text):
    if isinstance(text, GText):
        text = text._unwrap()
    return Tok.value("NaT") if text == "NaT" else Tok.call("datetime64", {"text": text})


def date2num(x):
    if isinstance(x, GCol):
        return GCol(Tok.call("date2num", {"x": x.v}))
    return Tok.call("date2num", {"x": x})


def row_cells(c, kind, i, cfg):
    """The cells of one row, in the order of HEAD."""
    if c.mode == "sym":
        num = lambda k: S.SNum(T.toreal(c.integer(k, 0, 9999).t) if cfg["floats"] else c.integer(k, 0, 9999).t)  # noqa: E731
        txt = lambda k, f: GText(f"\u2039{k}\u203a")  # noqa: E731
    else:
        num = lambda k: c.integer(f"{k}{i}", 0, 300)  # noqa: E731
        txt = lambda k, f: f()  # noqa: E731
    d = dict.fromkeys(HEAD, NAN)
    if kind is not None:
        d["run type"] = kind
    d["bottle"] = txt("bottle", lambda: (f"{num('bottle'):04d}" if cfg["numeric"] else f"S{num('bottle')} #{i}"))
    if kind == "bottle":
        for k in ("station", "cast", "niskin", "depth"):
            d[k] = num(k)
        if c.mode == "conc" and not i and c.choice("depth", [False, True]):
            d["depth"] += 0.7
    if kind == "CRM" or not cfg["floats"]:
        d["batch"] = num("batch")
    d["salinity"] = c.real("salinity" if c.mode == "sym" else f"salinity{i}", 20.0, 38.0, nonneg=True)
    d["cert. CRM AT"] = c.real("certified" if c.mode == "sym" else f"certified{i}", 2000.0, 2400.0, nonneg=True)
    has = c.choice("dated" if c.mode == "sym" else f"dated{i}", ["both", "none", "no time", "no date"] + ["both"] * 4 * (c.mode == "conc"))
    if has in ("both", "no time"):
        d["date"] = GText("\u2039mm\u203a/\u2039dd\u203a/\u2039yy\u203a") if c.mode == "sym" else \
            f"{c.integer(f'mm{i}', 1, 12):02d}/{c.integer(f'dd{i}', 1, 28):02d}/{c.integer(f'yy{i}', 0, 68):02d}"
    if has in ("both", "no date"):
        d["time"] = GText("\u2039time\u203a") if c.mode == "sym" else f"{c.integer(f'hour{i}', 0, 23):02d}:{c.integer(f'min{i}', 0, 59):02d}"
    return d, has == "both"


def expected_name(d, kind, fmt):
    if kind == "bottle":
        k = {a: S.sym_int(d[b]) if isinstance(d[b], S.SNum) else int(d[b]) for a, b in
             dict(s="station", c="cast", n="niskin", d="depth").items()}
        return fmt.format(b=d["bottle"], **k)
    if kind == "CRM":
        b = S.sym_int(d["batch"]) if isinstance(d["batch"], S.SNum) else int(d["batch"])
        return f"CRM{b}{d['bottle']}.dat"
    return ""


FORMATS = ["{s}-{c}  {n}  ({d}){b}.dat", "{s}-{c} {n} ({d}){b}.dat", "{b}_{d}_{n}_{c}_{s}.txt", "{b}.dat"]
KINDS = ["bottle", "CRM", "junk", "Bottle", "crm", "CRMs", "", None]


def isnull(v):
    return v is None or (isinstance(v, float) and math.isnan(v)) or (not isinstance(v, (str, S.SNum, Tok, bool)) and v != v)


@contract("dbs_rows", [RM + ".read_dbs", RM + ".get_VINDTA_filenames", RM + ".dbs_datetime", RM + ".add_func_cols"], conc=200, max_paths=5000)
def k_dbs_rows(c):
    cfg = dict(floats=c.choice("numbers missing in some rows", [False, True]), numeric=c.choice("bottles all numbers", [False, True]))
    kw = {}
    fmt = FORMATS[0]
    f = c.choice("format", [None] + FORMATS[1:])
    if f is not None:
        fmt = kw["filename_format"] = f
    vol, mass = c.choice("volume", [None, 97.7]), c.choice("mass", [None, 0.1])
    if vol is not None:
        kw["analyte_volume"] = vol
    if mass is not None:
        kw["analyte_mass"] = mass
    if c.choice("path", [False, True]):
        kw["file_path"] = "data/somewhere/"
    if c.mode == "sym":
        kind = c.choice("kind", [k for k in KINDS if k != ""])
        rows = [(kind, *row_cells(c, kind, 0, cfg))]
        path = "x.dbs"
        setup_sym(c, rows[0][1], path, cfg["numeric"])
    else:
        n = c.integer("n", 1, 6)
        kinds = [c.choice(f"kind{i}", KINDS) or None for i in range(n)]
        rows = [(k, *row_cells(c, k, i, cfg)) for i, k in enumerate(kinds)]
        path = os.path.join(c.tmpdir(), "x.dbs")
        with open(path, "w") as f:
            f.write("\t".join(HEAD) + "\n")
            for _, d, _ in rows:
                f.write("\t".join("" if isnull(v) else repr(float(v)) if isinstance(v, float) else str(v) for v in d.values()) + "\t\t\n")
    ds = c.call(RM + ".read_dbs", path, **kw)
    if c.mode == "conc":
        c.eq("every row, in order", len(ds), len(rows))
        c.true("the default row labels", list(ds.index) == list(range(len(rows))))
        c.true("a dataset", type(ds).__name__ == "Dataset")
    for i, (kind, d, dated) in enumerate(rows):
        got = (lambda k: ds._cells.get(k, NAN)) if c.mode == "sym" else (lambda k: ds[k].iloc[i] if k in ds else NAN)
        for k in HEAD:
            name = {"run type": "run_type"}.get(k, k)
            if c.mode == "conc" and k == "bottle" or isnull(d[k]):
                c.true("the data are kept: " + k, isnull(got(name)) if isnull(d[k]) else str(got(name)) == str(d[k]))
            elif c.mode == "conc" and isinstance(d[k], str):
                c.true("the data are kept: " + k, got(name) == d[k])
            else:
                c.eq("the data are kept: " + k, got(name), d[k])
        c.eq("file name", got("file_name"), expected_name(d, kind, fmt))
        good = got("file_good")
        c.true("usable: bottles and reference materials only", bool(good) == (kind in ("bottle", "CRM")))
        if kind == "CRM":
            c.eq("certified alkalinity of a reference material", got("alkalinity_certified"), d["cert. CRM AT"])
        else:
            c.true("no certified alkalinity otherwise", isnull(got("alkalinity_certified")))
        if mass is None:
            c.eq("analyte volume", got("analyte_volume"), 100.0 if vol is None else vol)
            c.true("no analyte mass", isnull(got("analyte_mass")))
        else:
            c.eq("analyte mass", got("analyte_mass"), mass)
            c.true("no analyte volume", isnull(got("analyte_volume")))
        if "file_path" in kw:
            c.eq("file path", got("file_path"), kw["file_path"])
        else:
            c.true("no file path", isnull(got("file_path")))
        c.eq("the file it is from", got("dbs_fname"), path)
        if c.mode == "sym":
            want = datetime64("20\u2039yy\u203a-\u2039mm\u203a-\u2039dd\u203aT\u2039time\u203a") if dated else datetime64("NaT")
            c.eq("analysis time", got("analysis_datetime"), want)
            c.eq("analysis time as a number", got("analysis_datenum"), date2num(want))
        elif dated:
            m, dd, y = d["date"].split("/")
            t = c.pd.Timestamp(f"20{y}-{m}-{dd} {d['time']}:00")
            c.true("analysis time", got("analysis_datetime") == t)
            c.eq("analysis time as a number", got("analysis_datenum"), (t - c.pd.Timestamp("1970-01-01")).total_seconds() / 86400, rtol=1e-12)
        else:
            c.true("analysis time", c.pd.isnull(got("analysis_datetime")))
            c.true("analysis time as a number", isnull(got("analysis_datenum")))


READERS = ["read_csv", "read_table", "read_fwf", "read_excel", "read_clipboard"]
OPTIONS = {
    "read_csv": [{}, {"sep": ";"}, {"usecols": ["station", "salinity"]}, {"index_col": "station"}, {"skiprows": [1]}, {"nrows": 2},
                 {"na_values": ["33.5"]}, {"dtype": {"bottle": "str"}}, {"names": ["a", "b", "c"], "header": 0}],
    "read_fwf": [{}, {"widths": [9, 9, 9]}, {"nrows": 1}, {"header": None}],
    "read_excel": [{}, {"sheet_name": "second"}, {"skiprows": 1, "header": None}, {"usecols": [0, 2]}, {"index_col": 0}],
}
OPTIONS["read_table"] = OPTIONS["read_clipboard"] = OPTIONS["read_csv"]


class TableOf:
    """pandas.DataFrame, as far as it is a given table."""

    def __init__(self, data=None, *a, **k):
        if a or {x: v for x, v in k.items() if not (x == "copy" and v in (True, False, None))}:
            raise S.Unsupported("DataFrame")
        self.data = data.data if isinstance(data, TableOf) else data

    def copy(self, deep=True):
        return type(self)(self)


@contract("metadata_tables", [RM + "." + f for f in READERS] + ["classes.Dataset.to_pandas"], conc=60)
def k_metadata_tables(c):
    """What pandas reads, as a Dataset; and back."""
    f = c.choice("reader", READERS)
    i = c.choice("options", list(range(9)))
    opt = OPTIONS[f][i % len(OPTIONS[f])]
    given = dict(opt)
    if c.mode == "sym":
        import inspect

        import pandas

        def reader(name):
            sig = inspect.signature(getattr(pandas, name))

            def call(*a, **k):
                b = sig.bind(*a, **k)
                b.apply_defaults()
                args = {q: repr(v) if "no_default" in repr(v) else v for q, v in b.arguments.items()}
                for q, v in args.pop("kwargs", {}).items():
                    args[q] = v
                if name in ("read_csv", "read_table"):
                    for q in ("sep", "delimiter"):
                        if "no_default" in str(args[q]) or args[q] is None:
                            args.pop(q)
                    args.setdefault("sep", args.pop("delimiter", "," if name == "read_csv" else "\t"))
                    return TableOf(Tok.call("read_csv", args))
                return TableOf(Tok.call(name, args))
            return call

        src = [] if f == "read_clipboard" else [Tok.value("where")]
        pkg = c.package(extra_pandas={"DataFrame": TableOf, **{x: reader(x) for x in READERS}})
        want = reader(f)(*src, **opt)
        got = c.call(f"{RM}.{f}", *src, **opt)
        c.true("a Dataset", type(got) is c.mod("classes").Dataset)
        c.eq("what pandas reads with the same options", got.data, want.data)
        back = c.guard(c.mod("classes").Dataset.to_pandas, got)
        c.true("back to a pandas DataFrame", type(back) is TableOf)
        c.eq("with the same contents", back.data, want.data)
    else:
        import pandas as pd

        n = c.integer("rows", 1, 5)
        cells = pd.DataFrame({"station": [c.integer(f"s{j}", 1, 99) for j in range(n)], "bottle": [f"00{j}" for j in range(n)],
                              "salinity": [c.choice(f"x{j}", [33.5, 35.25, None]) for j in range(n)]})
        if n > 2 and c.choice("an empty row, twice the same row", [False, True]):
            cells.iloc[1] = None
            cells.iloc[2] = cells.iloc[0]
        d = c.tmpdir()
        src = []
        if f == "read_clipboard":
            text = cells.to_csv(sep=opt.get("sep", "\t"), index=False)
            saved = pd.read_clipboard
            pd.read_clipboard = lambda *a, **k: pd.read_csv(__import__("io").StringIO(text), **{"sep": "\t", **k})
            want = pd.read_clipboard(**opt)
        else:
            path = os.path.join(d, f + (".xlsx" if f == "read_excel" else ".txt"))
            if f == "read_excel":
                with pd.ExcelWriter(path) as w:
                    cells.to_excel(w, sheet_name="first", index=False)
                    cells.iloc[::-1].to_excel(w, sheet_name="second", index=False)
            elif f == "read_fwf":
                with open(path, "w") as o:
                    for row in [list(cells.columns)] + cells.values.tolist():
                        o.write("".join(f"{x!s:<9}" for x in row) + "\n")
            else:
                cells.to_csv(path, sep=opt.get("sep", "," if f == "read_csv" else "\t"), index=False)
            src = [path]
            want = getattr(pd, f)(*src, **opt)
        try:
            got = c.call(f"{RM}.{f}", *src, **opt)
        finally:
            if f == "read_clipboard":
                pd.read_clipboard = saved
        D = c.mod("classes").Dataset
        c.true("a Dataset", type(got) is D)
        c.true("what pandas reads with the same options", pd.DataFrame(got).equals(want) and list(got.columns) == list(want.columns))
        back = c.guard(D.to_pandas, got)
        c.true("back to a pandas DataFrame", type(back) is pd.DataFrame)
        c.true("with the same contents", back.equals(want) and list(back.columns) == list(want.columns))
        back["added"] = 1
        back.iloc[:, 0] = back.iloc[::-1, 0].to_numpy()
        back.drop(index=back.index[:1], inplace=True)
        c.true("a copy", pd.DataFrame(got).equals(want) and list(got.columns) == list(want.columns))
    c.true("caller's options unchanged", opt == given)
