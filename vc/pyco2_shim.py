"""Assumed contracts of PyCO2SYS for the symbolic run."""

from . import sym as S
from . import terms as T
from .shims import Shim, _map, _where
from .sym import SArr, SBool, SNum, SVec, Space, Unsupported, is_scalar


def ew(name, args, sign=None):
    """Element-wise opaque function of scalars and arrays."""
    sp = None
    for a in args:
        if isinstance(a, SArr):
            sp = a.space if sp is None else Space.unify(sp, a.space)
    ts = []
    for a in args:
        if isinstance(a, SArr):
            ts.append(T.toreal(a.elem))
        elif isinstance(a, SBool):
            ts.append(T.ite(a.t, T.ONE, T.ZERO))
        elif is_scalar(a) or isinstance(a, SVec):
            ts.append(T.toreal(S.term_of(a)))
        else:
            raise Unsupported(f"PyCO2SYS argument {type(a).__name__}")
    t = T.app(name, ts, "R", sign)
    return SArr(sp, t) if sp is not None else SNum(t)


def isin(x, vals):
    r = SBool(T.FALSE)
    for v in vals:
        r = r | (x == v)
    return r


def salts_assemble(
    salinity,
    total_silicate,
    total_phosphate,
    total_ammonia,
    total_sulfide,
    opt_k_carbonic,
    opt_total_borate,
    totals=None,
):
    totals = {} if totals is None else totals
    sal = _where(isin(opt_k_carbonic, (8,)), 0.0, salinity)
    zero = isin(opt_k_carbonic, (6, 8))
    if "TB" not in totals:
        totals["TB"] = ew("pyco2_TB", [sal, opt_k_carbonic, opt_total_borate], "0+")
    if "TF" not in totals:
        totals["TF"] = ew("pyco2_TF", [sal], "0+")
    if "TSO4" not in totals:
        totals["TSO4"] = ew("pyco2_TSO4", [sal], "0+")
    if "TCa" not in totals:
        totals["TCa"] = ew("pyco2_TCa", [sal, opt_k_carbonic], "0+")
    totals.setdefault("total_alpha", 0.0)
    totals.setdefault("total_beta", 0.0)
    totals["TPO4"] = _where(zero, 0.0, total_phosphate) * 1e-6
    totals["TSi"] = _where(zero, 0.0, total_silicate) * 1e-6
    totals["TNH3"] = _where(zero, 0.0, total_ammonia) * 1e-6
    totals["TH2S"] = _where(zero, 0.0, total_sulfide) * 1e-6
    totals["PengCorrection"] = _where(isin(opt_k_carbonic, (7,)), totals["TPO4"], 0.0)
    totals["Sal"] = sal
    return totals


K_NAMES = ["KNH3", "KB", "K1", "K2", "KP1", "KP2", "KP3", "KSi", "KH2S", "KW"]


def equilibria_assemble(
    temperature,
    pressure,
    totals,
    opt_pH_scale,
    opt_k_carbonic,
    opt_k_bisulfate,
    opt_k_fluoride,
    opt_gas_constant,
    Ks=None,
    **extra,
):
    if extra:
        raise Unsupported("equilibria.assemble options")
    Ks = {} if Ks is None else Ks
    sal = totals["Sal"]
    rgas = opt_gas_constant
    if "KSO4" not in Ks:
        Ks["KSO4"] = ew("pyco2_KSO4", [temperature, sal, pressure, rgas, opt_k_bisulfate], "+")
    if "KF" not in Ks:
        Ks["KF"] = ew("pyco2_KF", [temperature, sal, pressure, rgas, opt_k_fluoride], "+")
    common = [
        temperature, pressure, sal, totals["TSO4"], totals["TF"], Ks["KSO4"], Ks["KF"],
        opt_pH_scale, opt_k_carbonic, opt_k_bisulfate, opt_k_fluoride, rgas,
    ]
    for k in K_NAMES:
        if k not in Ks:
            Ks[k] = ew("pyco2_" + k, common, "+")
    Ks.setdefault("k_alpha", 1e-7)
    Ks.setdefault("k_beta", 1e-7)
    Ks["K0"] = ew("pyco2_K0", common, "+")
    Ks["RGas"] = rgas
    return Ks


SYS_TOTALS = [
    "total_alpha", "total_ammonia", "total_beta", "total_borate", "total_calcium",
    "total_fluoride", "total_phosphate", "total_silicate", "total_sulfate", "total_sulfide",
]


class SysResult(dict):
    """Result of pyco2.sys: user-given values are returned as given; anything
    else is an opaque element-wise function of all the inputs."""

    __issym__ = True

    def __init__(self, kw):
        super().__init__()
        self.kw = dict(kw)
        given = {k: v for k, v in kw.items() if v is not None}
        self.key = sorted(given)
        self.vals = [given[k] for k in self.key]
        self.given = given
        for k in SYS_TOTALS:
            if k in given:
                self[k] = given[k]
            elif k in ("total_borate", "total_fluoride", "total_sulfate", "total_calcium"):
                self[k] = ew(
                    "sys_" + k,
                    [given.get("salinity", 35)]
                    + ([given.get("opt_total_borate", 1)] if k == "total_borate" else [])
                    + [given.get("opt_k_carbonic", 10)],
                    "0+",
                )
            else:
                self[k] = 0.0
        for k in given:
            if k.startswith("k_") or k in ("salinity", "temperature"):
                self[k] = given[k]
        p1, p2 = given.get("par1"), given.get("par2")
        t1, t2 = given.get("par1_type"), given.get("par2_type")
        for p, t in ((p1, t1), (p2, t2)):
            if t == 1:
                self["alkalinity"] = p
            elif t == 2:
                self["dic"] = p

    def out(self, name):
        tag = "sys_" + name + ":" + ",".join(self.key)
        return ew(tag, self.vals, "+" if name.startswith("k_") else None)

    def __missing__(self, k):
        v = self.out(k)
        self[k] = v
        return v

    KS = [
        "k_CO2", "k_alpha", "k_ammonia", "k_beta", "k_bisulfate", "k_borate",
        "k_carbonic_1", "k_carbonic_2", "k_fluoride", "k_phosphoric_1",
        "k_phosphoric_2", "k_phosphoric_3", "k_silicate", "k_sulfide", "k_water",
    ]

    def items(self):
        for k in self.KS:
            self[k]
        return super().items()

    def keys(self):
        for k in self.KS:
            self[k]
        return super().keys()

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, k):
        return super().__contains__(k) or k in self.KS


SYS_POS = ["par1", "par2", "par1_type", "par2_type"]


def pyco2_sys(*args, **kw):
    for n, a in zip(SYS_POS, args):
        kw[n] = a
    kw = {k: v.arr if hasattr(v, "arr") and not isinstance(v, SArr) else v for k, v in kw.items()}
    return SysResult(kw)


def make_pyco2():
    import PyCO2SYS as real

    return Shim(
        "PyCO2SYS",
        {
            "salts": Shim("PyCO2SYS.salts", {"assemble": salts_assemble}, real.salts),
            "equilibria": Shim(
                "PyCO2SYS.equilibria", {"assemble": equilibria_assemble}, real.equilibria
            ),
            "sys": pyco2_sys,
        },
        real,
    )
