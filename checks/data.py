"""shared by the checks of the data-reading functions"""
from .common import *
from gwstat import datamodel as dm
from gwstat.interp import to_P
from gwstat.ext import mk_arr

PRI = "gwinferno.preprocess.priors."
COS = "gwinferno.cosmology.Cosmology."
ISO, JOINT = PRI + "chi_effective_prior_from_isotropic_spins", PRI + "joint_prior_from_isotropic_spins"


def column(name, n, **k):
    x = arr(name, 1, **k)
    ops.LENGTHS[as_atom(x)] = n
    return x


def pw(name, *xs):
    """elementwise summary of a function whose values are decided by another property"""
    return tm.op(name, tuple(to_P(x) for x in xs), pointwise=True)


def dl2z(x):
    return tm.sub(pw("cosmo:1+DL2z", x), tm.ONE)


def at1(name, *xs):
    r = pw(name, *xs)
    return mk_arr([r]) if nd_of(r) == 0 else r


def load_interp(c, files):
    it = c.interp(opaque=(COS + "extend",))
    dm.install(it, files)
    it.override = {
        COS + "DL2z": lambda it, b: dl2z(b["DL"]),
        COS + "z2DL": lambda it, b: pw("cosmo:z2DL", b["z"]),
        COS + "z2Dc": lambda it, b: pw("cosmo:z2Dc", b["z"]),
        ISO: lambda it, b: at1("iso_chieff", b["chi_eff"], b["q"], b["a_max"]),
        JOINT: lambda it, b: scalar_joint(it, b),
    }
    return it


def scalar_joint(it, b):
    xs = [b["chi_p"], b["chi_eff"], b["q"], b["a_max"]]
    if any(nd_of(to_P(x)) != 0 for x in xs):
        raise Unsupported("joint prior of arrays")
    return mk_arr([pw("iso_joint", *xs)])


def no_ones(x):
    """factors of ones and terms of zeros broadcast along the samples"""
    def fa(t):
        if t.op == "index" and isinstance(t.args[0], P):
            b = as_atom(t.args[0])
            t = b if b is not None and b.op in ("ones", "zeros") else t
        return ONE if t.op == "ones" else ZERO if t.op == "zeros" else None
    return ops.Rewriter(fa=fa).P(x) if isinstance(x, P) else x
