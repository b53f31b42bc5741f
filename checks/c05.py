from .common import *
from .c04 import BASES

TITLE = ("Value numbering of every separable two-dimensional spline model: the joint density evaluated on PE samples and on injections is compared with "
         "the product of the reference marginals, each taken at its own component's samples, coefficients, domain and per-component options.")
ASSUMPTIONS = ("basis classes and the closed-form mass densities are opaque here; they are decided by their own properties",)
M = "gwinferno.models.bsplines.separable."
B = "vspec.bsplines."
OP = BASES + ("gwinferno.distributions.powerlaw_pdf", "gwinferno.models.parametric.parametric.plpeak_primary_pdf")


def check(c):
    n, n1, n2 = pos("n", integer=True), pos("n1", integer=True), pos("n2", integer=True)
    cs, c1, c2 = arr("coefs", 1), arr("coefs1", 1), arr("coefs2", 1)
    x1, x2, i1, i2 = arr("x1", 2), arr("x2", 2), arr("x1_inj", 1), arr("x2_inj", 1)
    lo, hi, lo2, hi2 = pos("lo"), pos("hi"), pos("lo2"), pos("hi2")
    sides = (({"pe_samples": True}, x1, x2, "PE"), ({"pe_samples": False}, i1, i2, "injections"), ({}, x1, x2, "default=PE"))
    k1, k2, kk = {"degree": num(2)}, {"degree": num(1)}, {"normalize": False}
    D = lambda d: DictV(dict(d))

    def run(cls, lab, cargs, ckw, callf, spec, specf):
        def one():
            it = c.interp(OP)
            K = c.entity(it, M + cls)
            S = c.entity(it, B + spec)
            where = c.loc(it, M + cls)
            o = force(lambda: it.call(K, cargs, ckw))
            for kw, a, b, side in sides:
                if isinstance(o, (Raised, BaseException)):
                    got = o
                else:
                    ca, ck = callf(a, b)
                    got = lambda: it.call(o, ca, {**ck, **kw})
                sa, sk = specf(a, b)
                c.equal(f"{cls}[{lab}] on {side}", got, lambda: it.call(S, sa, sk), where)
        c.attempt(f"{cls}[{lab}]", one)

    for cls, spec in (("BSplineIIDSpinMagnitudes", "iid_magnitudes"), ("BSplineIIDSpinTilts", "iid_tilts")):
        for lab, kw in (("defaults", {}), ("options", {**kk, **k1})):
            run(cls, lab, [n, x1, x2, i1, i2], kw, lambda a, b: ([cs], {}), spec, lambda a, b, kw=kw: ([n, a, b, cs], kw))
    for cls, spec in (("BSplineIndependentSpinMagnitudes", "ind_magnitudes"), ("BSplineIndependentSpinTilts", "ind_tilts")):
        for lab, ka, kb, kw in (("defaults", {}, {}, {}), ("options", k1, k2, kk)):
            ck = {**({"kwargs1": D(ka)} if ka else {}), **({"kwargs2": D(kb)} if kb else {}), **kw}
            run(cls, lab, [n1, n2, x1, x2, i1, i2], ck, lambda a, b: ([c1, c2], {}), spec,
                lambda a, b, ka=ka, kb=kb, kw=kw: ([n1, n2, a, b, c1, c2, D(ka), D(kb), D(kw)], {}))
    beta, mmin = ssym("beta"), pos("mmin_call")
    qm, qq = arr("m1_eval", 2), arr("q_eval", 2)
    for lab, kw, sl, sh, sk in (("defaults", {}, num(2), num(100), {}), ("bounds,options", {"mmin": lo, "mmax": hi, **kk}, lo, hi, kk)):
        run("BSplinePrimaryPowerlawRatio", lab, [n, x1, i1], kw, lambda a, b: ([qm, qq, beta, mmin, cs], {}), "primary_powerlaw_ratio",
            lambda a, b, sl=sl, sh=sh, sk=sk: ([n, a, sl, sh, qm, qq, beta, mmin, cs], sk))
    al, mx, mu, sd, fr = ssym("alpha"), pos("mmax_call"), ssym("peak_mean"), pos("peak_sd"), ssym("peak_frac")
    for lab, kw, sk in (("defaults", {}, {}), ("options", {"qmin": lo, **kk}, {"lo": lo, **kk})):
        run("PLPeakPrimaryBSplineRatio", lab, [n, x1, i1], kw, lambda a, b: ([qm, al, mmin, mx, mu, sd, fr, cs], {}), "plpeak_spline_ratio",
            lambda a, b, sk=sk: ([n, a, qm, al, mmin, mx, mu, sd, fr, cs], sk))
    for lab, kw, a3, ka, kb, k0 in (("defaults", {}, (num(100), num(3), num(3)), {}, {}, {}),
                                    ("bounds,options", {"mmax": hi, "m1min": lo, "m2min": lo2, "kwargs_m": D(k1), "kwargs_q": D(k2), **kk}, (hi, lo, lo2), k1, k2, kk)):
        run("BSplinePrimaryBSplineRatio", lab, [n1, n2, x1, i1, x2, i2], kw, lambda a, b: ([c1, c2], {}), "primary_ratio",
            lambda a, b, a3=a3, ka=ka, kb=kb, k0=k0: ([n1, n2, a, b, *a3, c1, c2, D(ka), D(kb), D(k0)], {}))
    for lab, kw, sl, sh, sk, ck in (("defaults", {}, num(2), num(100), {}, {}), ("bounds,options", {"mmin": lo, "mmax": hi, **kk}, lo, hi, kk, {"beta": beta})):
        run("BSplineIIDComponentMasses", lab, [n, x1, x2, i1, i2], kw, lambda a, b, ck=ck: ([cs], ck), "iid_masses",
            lambda a, b, sl=sl, sh=sh, sk=sk, ck=ck: ([n, a, b, sl, sh, cs, ck.get("beta", num(0))], sk))
    for lab, kw, bb, ka, kb, k0, ck in (
            ("defaults", {}, (num(2), num(100), num(2), num(100)), {}, {}, {}, {}),
            ("bounds,options", {"mmin1": lo, "mmax1": hi, "mmin2": lo2, "mmax2": hi2, "kwargs1": D(k1), "kwargs2": D(k2), **kk}, (lo, hi, lo2, hi2), k1, k2, kk, {"beta": beta})):
        run("BSplineIndependentComponentMasses", lab, [n1, n2, x1, x2, i1, i2], kw, lambda a, b, ck=ck: ([c1, c2], ck), "ind_masses",
            lambda a, b, bb=bb, ka=ka, kb=kb, k0=k0, ck=ck: ([n1, n2, a, b, *bb, c1, c2, ck.get("beta", num(0)), D(ka), D(kb), D(k0)], {}))
    for lab, kw, ka, kb, k0 in (("defaults", {}, {}, {}, {}), ("options", {"kwargs_e": D(k1), "kwargs_p": D(k2), **kk}, k1, k2, kk)):
        run("BSplineEffectiveSpinDims", lab, [n1, n2, x1, x2, i1, i2], kw, lambda a, b: ([c1, c2], {}), "effective_spins",
            lambda a, b, ka=ka, kb=kb, k0=k0: ([n1, n2, a, b, c1, c2, D(ka), D(kb), D(k0)], {}))
