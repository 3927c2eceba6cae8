"""Contracts on calkulate/read/titrations.py."""

import functools
import itertools
import os

from vc import regex
from vc import sym as S
from vc import terms as T
from vc.harness import contract
from vc.scan import ScanText
from vc.textio import Rep, Report, read_csv

FIELDS = ["titrant_amount", "measurement", "temperature"]
FORMATS = [None, ".0f", ".6f", "12.4f", ".5e", ""]
RT = "read.titrations"


def half_unit(c, x, spec):
    """Largest difference between a number and its formatted text."""
    spec = ".3f" if spec is None else spec
    if spec == "":
        return 0.0 * x
    k = int(spec.split(".")[1][:-1])
    if spec.endswith("e"):
        return 0.5 * 10.0 ** -k * c.np.abs(x)
    return 0.5 * 10.0 ** -k + 0.0 * x


def path_of(c, name="t.dat"):
    return "t.dat" if c.mode == "sym" else os.path.join(c.tmpdir(), name)


def data_of(c, n):
    v = c.array("titrant_amount", n, 0.0, 5.0), c.array("measurement", n, -200.0, 700.0, nan=True), c.array("temperature", n, 0.0, 35.0)
    if c.mode == "conc" and n > 1 and "titrant_amount" not in c.fixed and c.rng.random() < 0.25:
        i = c.rng.randrange(n - 1)  # the same reading twice
        for k, x in zip(FIELDS, v):
            x[i + 1] = x[i]
            c.record[k] = x.tolist()
    return v


@contract("write_read", [RT + ".write_dat", RT + ".read_dat", RT + ".read_dat_genfromtxt"], conc=150)
def k_write_read(c):
    n = c.length("n", 1, 12)
    data = data_of(c, n)
    kw, spec = {}, {}
    for f in FIELDS:
        spec[f] = c.choice("fmt " + f, FORMATS)
        if spec[f] is not None:
            kw[f + "_fmt"] = spec[f]
    head = c.choice("header", [None, "Station 4; cast 2", "Sample {A1} 100 % {0}{} %s \\t"])
    if head is not None:
        kw["line0"] = head
        kw["line1"] = "a,b,{c}"
    snap = c.snapshot(list(data))
    path = path_of(c)
    fs = c.files()
    given = data
    if c.mode == "conc":
        given = c.choice("as", [data, [list(v) for v in data], [c.pd.Series(v, index=range(5, 5 + len(v))) for v in data]])
    c.call(RT + ".write_dat", path, *given, **kw)
    c.same("the data are not modified", list(data), snap)
    got = c.call(RT + ".read_dat", path)
    for f, x in zip(FIELDS, data):
        v = getattr(got, f)
        if c.mode == "conc":
            c.true("the same number of points", c.np.shape(v) == c.np.shape(x))
        d = v - x
        h = half_unit(c, x, spec[f])
        c.true(f + " is read back to the written precision",
               c.np.isnan(x) | ((d <= h * (1 + 1e-9) + 1e-12) & (-d <= h * (1 + 1e-9) + 1e-12)) if c.mode == "conc" else (d <= h) & (-d <= h) | c.np.isnan(x))
        c.true(f + ": missing stays missing", c.np.isnan(v) == c.np.isnan(x))


@contract("write_text", [RT + ".write_dat"], conc=60)
def k_write_text(c):
    """What is in the file: two header lines, then one line per point."""
    n = c.length("n", 1, 6)
    data = data_of(c, n)
    path = path_of(c)
    fs = c.files()
    kw, head = {}, ["Titration data exported by Calkulate", "titrant_amount\tmeasurement\ttemperature"]
    for i in (0, 1):
        own = c.choice(f"line{i}", [None, f"Own header {i}\t#", "{A1} 100 % {0}{} %s \\n"])
        if own is not None:
            kw[f"line{i}"] = head[i] = own
    c.call(RT + ".write_dat", path, *data, **kw)
    if c.mode == "sym":
        t = fs.text(path)
        c.eq("a header and the rows", len(t), 2)
        c.eq("the header", t[0], "\n".join(head) + "\n")
        c.true("one line for every point", isinstance(t[1], Rep) and t[1].n is n.t and t[1].text.endswith("\n")
               and "\n" not in t[1].text[:-1] and t[1].text.count("\t") == 2)
    else:
        t = open(path).read().split("\n")
        c.eq("the header", t[:2], head)
        c.eq("one line for every point", t[2:], ["\t".join(f"{float(x):.3f}" for x in r) for r in zip(*data)] + [""])


@contract("write_existing", [RT + ".write_dat"], conc=60)
def k_write_existing(c):
    """An existing file is only replaced when that is asked for."""
    n = c.length("n", 1, 6)
    data = data_of(c, n)
    path = path_of(c)
    fs = c.files()
    mode = c.choice("mode", [None, "x", "w"])
    kw = {} if mode is None else dict(mode=mode)
    if c.mode == "sym":
        fs.files[path] = ["precious"]
    else:
        open(path, "w").write("precious")
    if mode == "w":
        c.call(RT + ".write_dat", path, *data, **kw)
        if c.mode == "sym":
            c.true("replaced on request", "precious" not in "".join(x for x in fs.text(path) if isinstance(x, str)))
        else:
            c.true("replaced on request", "precious" not in open(path).read())
        return
    c.raises("an existing file is refused", RT + ".write_dat", path, *data, **kw)
    if c.mode == "sym":
        c.eq("and left alone", fs.text(path), ["precious"])
    else:
        c.eq("and left alone", open(path).read(), "precious")


PERMS = list(itertools.permutations(range(4), 3)) + [(-1, 0, 1), (0, 0, 3)]
DELIMS = ["\t", ",", ";", None, " "]


@contract("read_columns", [RT + ".read_dat_genfromtxt", RT + ".read_dat"], conc=150)
def k_read_columns(c):
    n = c.length("n", 1, 8)
    cols = [c.array(f"col{j}", n, -900.0, 900.0) for j in range(4)]
    perm = c.choice("columns", [None] + PERMS)
    delim = c.choice("delimiter", ["default"] + DELIMS)
    nhead = c.choice("skip", ["default", 0, 1, 5])
    via = c.choice("via", ["read_dat", "read_dat genfromtxt", "read_dat vindta", "direct"])
    sep = {"default": "\t", None: "  "}.get(delim, delim)
    kw = {}
    if perm is not None:
        kw.update(zip(["col_titrant_amount", "col_measurement", "col_temperature"], perm))
    if delim != "default":
        kw["delimiter"] = delim
    if nhead != "default":
        kw["skip_header"] = nhead
    head = "".join(f"header {i}{sep}x\n" for i in range(2 if nhead == "default" else nhead))
    path = path_of(c)
    fs = c.files()
    if c.mode == "sym":
        i = c.loop_index()
        fs.files[path] = ([head] if head else [""]) + [Rep(sep.join(str(v[i]) for v in cols) + "\n", i.t, n.t)]
    else:
        with open(path, "w") as f:
            f.write(head + "".join(sep.join(repr(float(x)) for x in r) + "\n" for r in zip(*cols)))
    if via == "direct":
        got = c.call(RT + ".read_dat_genfromtxt", path, **kw)
    else:
        got = c.call(RT + ".read_dat", path, **kw, **({} if via == "read_dat" else dict(file_type=via.split()[1])))
    for f, j in zip(FIELDS, perm or (0, 1, 2)):
        c.eq(f + " from its requested column", getattr(got, f), cols[j], rtol=0)
    c.eq("in this order", list(got), [cols[j] for j in perm or (0, 1, 2)], rtol=0)
    c.eq("no warning", len(c.warnings()), 0)


READERS = {"genfromtxt": "read_dat_genfromtxt", "vindta": "read_dat_genfromtxt", "orgalk_excel": "read_dat_orgalk_excel",
           "pclims": "read_dat_pclims", "tiamo_de": "read_tiamo_de"}


@contract("read_dispatch", [RT + ".read_dat", RT + ".file_types"], conc=60)
def k_read_dispatch(c):
    """Each file type has its own reader, given the file and the settings."""
    ft = c.choice("type", [None, *READERS, "unheard_of", "GENFROMTXT", "", "read_dat_pclims"])
    kw = {}
    fn = READERS.get("genfromtxt" if ft is None else ft, "read_dat_genfromtxt")
    sets = {"read_dat_genfromtxt": ["col_titrant_amount", "col_measurement", "col_temperature", "delimiter", "skip_header"],
            "read_dat_pclims": ["col_titrant_amount", "col_measurement", "col_temperature", "n_cols"], "read_tiamo_de": ["encoding"]}
    names = sets.get(fn, [])
    given = c.choice("settings", [[], names[:1], names])
    known = ft is None or ft in READERS
    if c.mode == "sym":
        c.mod(RT)
        c.stub(*[f"{RT}.{r}" for r in sorted(set(READERS.values()))])
        kw = {k: c.value(k) for k in given}
        path = c.value("path")
        want = c.call(f"{RT}.{fn}", path, **kw)
        got = c.call(RT + ".read_dat", path, **({} if ft is None else dict(file_type=ft)), **kw)
        c.eq("read by its own reader", got, want)
    else:
        path = sample_file(c, fn)
        vals = dict(col_titrant_amount=1, col_measurement=0, col_temperature=2, delimiter="\t", skip_header=2, n_cols=6, encoding="latin-1")
        kw = {k: vals[k] for k in given}
        if fn == "read_dat_orgalk_excel":
            c.requires(False)
        want = c.call(f"{RT}.{fn}", path, **kw)
        got = c.call(RT + ".read_dat", path, **({} if ft is None else dict(file_type=ft)), **kw)
        c.eq("read by its own reader", list(got), list(want), rtol=0)
    w = [str(x) for x in c.warnings()]
    c.true("an unknown type is reported by name", any(f"'{ft}'" in x for x in w) if not known else not w)


def sample_file(c, fn):
    path = path_of(c)
    n = c.length("rows", 2, 5)
    v = [c.array(f"v{j}", n, 0.0, 9.0) for j in range(8)]
    rows = list(zip(*v))
    with open(path, "w", encoding="latin-1") as f:
        if fn == "read_dat_pclims":
            f.write("head\n" + "".join("\t".join(f"{x:.4f}" for x in r[:6]) + "\n" for r in rows) + "\nend\n")
        elif fn == "read_tiamo_de":
            f.write("x\n1;2;3.5;4\n\n\nGran.1\nVolumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\u00b0C];Berechnet 1;Berechnet 2;Berechnet 3\n")
            f.write("".join(";".join(f"{x:.4f}" for x in r) + "\n" for r in rows))
        else:
            f.write("a\nb\n" + "".join("\t".join(f"{x:.4f}" for x in r) + "\n" for r in rows))
    return path


TIAMO = ["Volumen [mL]", "Messwert", "dMW [pH]", "Zeit [s]", "Temperatur [\u00b0C]", "Berechnet 1", "Berechnet 2", "Berechnet 3"]


@contract("tiamo", [RT + ".read_tiamo_de", RT + "._read_tiamo_de_df"], conc=150)
def k_tiamo(c):
    """The Gran block runs from its column names to the end of the file."""
    n = c.length("n", 1, 9)
    start = c.real("starting volume", 0.0, 8.0, nonneg=True)
    cols = {k: c.array(k, n, -1.0 if k == "dMW [pH]" else 0.0, 9.0) for k in TIAMO}
    via = c.choice("via", ["read_tiamo_de", "read_dat"])
    enc = c.choice("encoding", [None, "unicode_escape"] + (["latin-1"] if c.mode == "conc" else []))
    path = path_of(c)
    if c.mode == "sym":
        fs = c.files()
        rep = Report("report")
        g = rep.first("Gran.1")
        c.requires(g >= 3)
        rep.known[(g - 3).t] = f"7.5;3.2;{start};10.5;20.1"
        fs.files[path] = [rep]
        fs.bytes[path] = [enc] if enc else []
        c.pd.read_csv = read_csv(fs, {(path, (g + 1).t, ";"): lambda: c.table(n, cols)})
    else:
        k = c.integer("other lines", 0, 12)
        head = ["2024-10-25 11:17:44 UTC+2", "", "Steilheit.1", "Zeit [s];Messwert", "0.0;5.7", "Gran.1;x", " Gran.1"]
        head += ["C:\\Users\\Labor\\x.mth"] if enc != "unicode_escape" else ["Pr\u00fcfer"]
        head = [head[c.integer(f"head{i}", 0, len(head) - 1)] for i in range(k)]
        head += [f"7.5;3.2;{start!r};10.5;20.1", "", "", "Gran.1", ";".join(TIAMO)]
        rows = [";".join(repr(float(x)) for x in r) for r in zip(*cols.values())]
        text = "\n".join(head + rows) + c.choice("end", ["", "\n", "\n\n"])
        with open(path, "wb") as f:
            f.write(text.encode("latin-1"))
    kw = {} if enc is None else dict(encoding=enc)
    got = c.call(f"{RT}.{via}", path, **({} if via == "read_tiamo_de" else dict(file_type="tiamo_de")), **kw)
    c.eq("every volume includes the starting volume", got.titrant_amount, cols["Volumen [mL]"] + start, rtol=1e-12)
    c.eq("pH", got.measurement, cols["Messwert"], rtol=1e-12)
    c.eq("temperature", got.temperature, cols[TIAMO[4]], rtol=1e-12)


ORGALK = ["acid", "base", "emf", "temperature"]


@contract("orgalk", [RT + ".read_dat_orgalk_excel"], conc=12)
def k_orgalk(c):
    """The named columns below the first line of the sheet, wherever they are."""
    n = c.length("n", 1, 7)
    cols = {k: c.array(k, n, -200.0 if k == "emf" else 0.0, 300.0, nan=True) for k in ORGALK + ["other"]}
    order = c.choice("columns", [["acid", "base", "emf", "temperature"], ["emf", "other", "temperature", "base", "acid"]])
    via = c.choice("via", ["read_dat_orgalk_excel", "read_dat"])
    path = path_of(c, "t.xlsx")
    if c.mode == "sym":
        def read_excel(io, skiprows=0, header=0, **k):
            S._only(k)
            if io != path or (skiprows or 0) + header != 1:
                raise S.Unsupported("read_excel of this part of the sheet")
            return c.table(n, {k: cols[k] for k in order})
        c.mod(RT)
        c.pd.read_excel = read_excel
    else:
        import pandas

        rows = [["title"] + [None] * (len(order) - 1), order] + [list(r) for r in zip(*[cols[k].tolist() for k in order])]
        pandas.DataFrame(rows).to_excel(path, header=False, index=False)
    got = c.call(f"{RT}.{via}", path, **({} if via != "read_dat" else dict(file_type="orgalk_excel")))
    c.eq("acid, base, EMF and temperature as in the sheet", list(got), [cols[k] for k in ORGALK], rtol=1e-12)


NUM = ["0.0000", "12.5", "-3.25", "7", ".5", "-120.9"]
OTHER = ["", "Volume\tEMF", "Sample ID:\tCRM 1", "1.5\t2.5", "1.0\tab\t3\t4\t5\t6", "EOF", "abc\t1\t2\t3\t4\t5\t6", "--",
         "C:\\Users\\lab\\x.txt", "Temperatur \u00b0C", "D:\\n1.5\\t2\\t3\\t4\\t5\\t6"]


@functools.lru_cache(None)
def row_lines(n, more):
    """The lines that are rows (of n or more cells), the lines that are not."""
    cell = r"-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)"
    other = [r"[^\t]*(?:\t[^\t]*){0,%d}" % (n - 2)]
    other += [r"(?:[^\t]*\t){%d}[^\t]*[^\t\d.\-][^\t]*(?:\t.*)?" % j for j in range(n - 1)]
    return regex.Language(r"\t".join([cell] * (n + more))), regex.Language("|".join(other))


def first_block(state, is_row):
    """The first contiguous block of rows, line by line."""
    if is_row and state != "after":
        return True, "in"
    return False, "after" if state == "in" else state


@contract("pclims", [RT + ".read_dat_pclims", RT + ".read_dat"], conc=1500, fallback=True,
          note="2 to 12 columns, each width on its own")
def k_pclims(c):
    """Exactly the lines of the first contiguous block of rows."""
    if c.mode == "sym":
        return pclims_text(c)
    ncol = c.choice("columns", [6, 6, 6, 2, 3, 8])
    more = c.choice("further columns", [0, 0, 1, 3])
    n1 = c.integer("lines before", 0, 3)
    n2 = c.integer("rows", 1, 4)
    tail = c.integer("lines after", 0, 4)
    via = c.choice("via", ["read_dat_pclims", "read_dat"])
    enc = [x for x in OTHER if ncol > 2 or not x.startswith("1.")]

    def num(name):
        if c.choice(name + " kind", [0, 1]):
            return c.choice(name + " text", NUM)
        return f"{c.real(name, -700.0, 700.0):.4f}"

    def row(name):
        return [num(f"{name}.{j}") for j in range(ncol + more)]

    lines = [c.choice(f"before{i}", enc) for i in range(n1)]
    rows = [row(f"row{i}") for i in range(n2)]
    lines += ["\t".join(r) for r in rows]
    for i in range(tail):
        if i and c.choice(f"after{i} is a row", [0, 1]):
            lines.append("\t".join(row(f"after{i}")))
        else:
            lines.append(c.choice(f"after{i}", enc))
    path = path_of(c)
    with open(path, "w", newline="", encoding="latin-1") as f:
        f.write(c.choice("newline", ["\n", "\r\n"]).join(lines) + c.choice("end", ["", "\n"]))
    kw = {}
    cols = (1, 2, 5)
    if ncol != 6 or c.choice("n_cols given", [False, True]):
        kw["n_cols"] = ncol
    if ncol != 6 or c.choice("columns given", [False, True]):
        cols = tuple(c.integer(f"col{j}", 0, ncol + more - 1) for j in range(3))
        kw.update(zip(["col_titrant_amount", "col_measurement", "col_temperature"], cols))
    got = c.call(f"{RT}.{via}", path, **({} if via == "read_dat_pclims" else dict(file_type="pclims")), **kw)
    for f, j in zip(FIELDS, cols):
        c.eq(f + " of exactly the rows of the block", list(getattr(got, f)), [float(r[j]) for r in rows], rtol=0)


def pclims_text(c):
    """A report of any number of lines, with at least one row among them."""
    ncol = c.choice("columns", [6, 2, 3, 4, 5, 7, 8, 12])
    more = c.choice("further columns", [0, 1, 3])
    via = c.choice("via", ["read_dat_pclims", "read_dat"])
    n = c.length("rows", 1)
    cells = [c.array(f"column{j}", n) for j in range(ncol + more)]
    path = path_of(c)
    fs = c.files()
    fs.files[path] = [ScanText("report", *row_lines(ncol, more), first_block, "before", "after", cells)]
    fs.bytes[path] = []
    kw = {}
    cols = (1, 2, 5)
    if ncol != 6 or c.choice("n_cols given", [False, True]):
        kw["n_cols"] = ncol
    if ncol != 6 or c.choice("columns given", [False, True]):
        cols = c.choice("col", [(0, 1, ncol + more - 1), (ncol - 1, 0, 1), (ncol // 2, ncol - 1, ncol - 2)])
        kw.update(zip(["col_titrant_amount", "col_measurement", "col_temperature"], cols))
    got = c.call(f"{RT}.{via}", path, **({} if via == "read_dat_pclims" else dict(file_type="pclims")), **kw)
    for f, j in zip(FIELDS, cols):
        c.eq(f + " of exactly the rows of the block", getattr(got, f), cells[j], rtol=0)
