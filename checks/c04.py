from .common import *

TITLE = ("Value numbering of every one-dimensional B-spline population model, constructed and evaluated on symbolic samples: the density returned for "
         "parameter-estimation samples and for injections is compared with the reference (basis projected at those very samples, zero outside the domain).")
ASSUMPTIONS = ("basis classes are treated as opaque here; their own contract is decided by the basis-function property",)
I = "gwinferno.interpolation."
BASES = tuple(I + b for b in ("BasisSpline", "BSpline", "LogXBSpline", "LogYBSpline", "LogXLogYBSpline"))
COSMO = ("gwinferno.cosmology.Cosmology",)
M = "gwinferno.models.bsplines.single."
B = "vspec.bsplines."
SINGLE = [
    ("Base1DBSplineModel", "base"), ("BSplineSpinMagnitude", "spin_magnitude"), ("BSplineSpinTilt", "spin_tilt"), ("BSplineChiEffective", "chi_eff"),
    ("BSplineSymmetricChiEffective", "symmetric_chi_eff"), ("BSplineChiPrecess", "chi_p"), ("BSplineRatio", "ratio"), ("BSplineMass", "mass"),
]


def variants(it, c, cls):
    lo, hi = ssym("lo"), ssym("hi")
    basis = c.entity(it, I + "LogXLogYBSpline")
    yield "defaults", {}, {}
    yield "range", {"xrange": (lo, hi)}, {"lo": lo, "hi": hi}
    yield "degree,basis", {"degree": num(2), "basis": basis}, {"degree": num(2), "basis": basis}
    yield "unnormalised", {"normalize": False}, {"normalize": False}
    if cls == "BSplineRatio":
        yield "qmin", {"qmin": lo}, {"lo": lo}
    if cls == "BSplineMass":
        yield "mmin,mmax", {"mmin": lo, "mmax": hi}, {"lo": lo, "hi": hi}


def evaluate(it, cls, cargs, ckw, callargs):
    o = it.call(cls, cargs, ckw)
    out = []
    for kw in ({"pe_samples": True}, {"pe_samples": False}, {}):
        out.append(it.call(o, callargs, kw))
    return out


def check(c):
    n = pos("n_splines", integer=True)
    coefs = arr("coefs", 1)
    for cls, spec in SINGLE:
        def one(cls=cls, spec=spec):
            it0 = c.interp(BASES)
            for lab, kw, skw in variants(it0, c, cls):
                it = c.interp(BASES)
                kw = dict(kw)
                skw = dict(skw)
                if "basis" in kw:
                    kw["basis"] = skw["basis"] = c.entity(it, I + "LogXLogYBSpline")
                pe, inj = arr("pe", 2), arr("inj", 1)
                K = c.entity(it, M + cls)
                S = c.entity(it, B + spec)
                where = c.loc(it, M + cls)
                got = force(lambda: evaluate(it, K, [n, pe, inj], kw, [coefs]))
                for k, (x, side) in enumerate(((pe, "PE samples"), (inj, "injections"), (pe, "default = PE samples"))):
                    want = lambda: it.call(S, [n, x, coefs], skw)
                    c.equal(f"{cls}[{lab}] on {side}", got if isinstance(got, (Raised, BaseException)) else got[k], want, where)
        c.attempt(cls, one)

    def red():
        for lab, kw, skw in (("defaults", {}, {}), ("zmax", {"zmax": pos("zmax")}, {"hi": pos("zmax")}),
                             ("range,unnormalised", {"xrange": (pos("lo"), pos("hi")), "normalize": False}, {"lo": pos("lo"), "hi": pos("hi"), "normalize": False})):
            it = c.interp(BASES + COSMO)
            K = c.entity(it, M + "BSplineRedshift")
            where = c.loc(it, M + "BSplineRedshift")
            z, zi, dv, dvi = arr("z", 2), arr("z_inj", 1), arr("dV", 2), arr("dV_inj", 1)
            got = force(lambda: evaluate(it, K, [n, z, zi, dv, dvi], kw, [coefs]))
            S = c.entity(it, B + "redshift")
            for k, (x, d, side) in enumerate(((z, dv, "PE samples"), (zi, dvi, "injections"), (z, dv, "default = PE samples"))):
                want = lambda: it.call(S, [n, x, d, z, zi, coefs], skw)
                c.equal(f"BSplineRedshift[{lab}] on {side}", got if isinstance(got, (Raised, BaseException)) else got[k], want, where)
            g = lambda: it.call(it.getattr(it.call(K, [n, z, zi, dv, dvi], kw), "normalization"), [coefs], {})
            c.equal(f"BSplineRedshift[{lab}] normalization", g, lambda: it.call(c.entity(it, B + "redshift_norm"), [n, z, zi, coefs], skw), where)
    c.attempt("BSplineRedshift", red)
