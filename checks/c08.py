from .common import *

TITLE = ("Value numbering of every method of the probability distributions: density, distribution function, quantile function and the transform applied "
         "to the uniform draw are each compared with the reference derived from one and the same density.")
ASSUMPTIONS = ("real arithmetic; power-law bounds positive and minimum < maximum",)
N = "gwinferno.numpyro_distributions."
S = "vspec.npdists."


def check(c):
    it = c.interp()
    x, q = arr("x", 1), arr("q", 1)
    lo, hi = ssym("minimum"), ssym("maximum")
    dom = {"minimum": (0.2, 0.9), "maximum": (1.1, 1.5), "x": (0.05, 1.7), "q": (0.01, 0.99), "low": (0.05, 0.15), "high": (1.6, 3.0)}

    def spec(f, *a):
        return it.call(c.entity(it, S + f), list(a), {})

    def dist(cls, args, kw):
        return it.call(c.entity(it, N + cls), args, kw)

    def m(o, name, *a, **k):
        return it.call(it.getattr(o, name), list(a), k)

    def draws(name, cls, o, icdf, where):
        key = ssym("key")
        for lab, shp, kw in (("default shape", (), {}), ("shape", (num(7),), {"sample_shape": (num(7),)})):
            def got():
                return m(o, "sample", key, **kw)

            def want():
                bs = it.getattr(o, "batch_shape")
                sh = it.binop("+", shp, bs) if hasattr(it, "binop_") else tuple(shp) + tuple(bs)
                return icdf(spec("uniform", key, sh))
            c.equal(f"{name}: draws transform a uniform draw by the quantile function ({lab})", got, want, where)

    for cls, sp in (("Sine", "sine"), ("Cosine", "cosine")):
        def trig(cls=cls, sp=sp):
            where = c.loc(it, N + cls)
            for lab, args, b in (("interval", [lo, hi], (lo, hi)), ("defaults", [], None)):
                o = dist(cls, args, {})
                l, h = b or ((ZERO, tm.PI_P) if cls == "Sine" else (div(neg(tm.PI_P), num(2)), div(tm.PI_P, num(2))))
                c.equal(f"{cls}[{lab}] log density", lambda: m(o, "log_prob", x), lambda: spec(sp + "_lp", x, l, h), where, dom)
                c.equal(f"{cls}[{lab}] distribution function", lambda: m(o, "cdf", x), lambda: spec(sp + "_cdf", x, l, h), where, {**dom, "@facts": [sub(h, l)]})
                c.equal(f"{cls}[{lab}] quantile function", lambda: m(o, "icdf", q), lambda: spec(sp + "_icdf", q, l, h), where, dom)
                draws(f"{cls}[{lab}]", cls, o, lambda u: spec(sp + "_icdf", u, l, h), where)
        c.attempt(cls, trig)

    def pl():
        where = c.loc(it, N + "Powerlaw")
        xp = arr("x", 1, pos=True)
        a, l, h = ssym("alpha"), pos("minimum"), pos("maximum")
        for lab, al, kw, ll, hh in (("symbolic index", a, {"minimum": l, "maximum": h}, l, h), ("index -1", num(-1), {"minimum": l, "maximum": h}, l, h),
                                    ("index 2", num(2), {"minimum": l, "maximum": h}, l, h), ("separate support", a, {"minimum": l, "maximum": h, "low": pos("low"), "high": pos("high")}, l, h)):
            o = dist("Powerlaw", [al], kw)
            c.equal(f"Powerlaw[{lab}] log density", lambda: m(o, "log_prob", xp), lambda: spec("pl_lp", xp, al, ll, hh), where, dom)
            c.equal(f"Powerlaw[{lab}] distribution function", lambda: m(o, "cdf", xp), lambda: spec("pl_cdf", xp, al, ll, hh), where, dom)
            c.equal(f"Powerlaw[{lab}] quantile function", lambda: m(o, "icdf", q), lambda: spec("pl_icdf", q, al, ll, hh), where, dom)
            draws(f"Powerlaw[{lab}]", "Powerlaw", o, lambda u: spec("pl_icdf", u, al, ll, hh), where)
    c.attempt("Powerlaw", pl)

    for k in (-1, -2, 0, 2):
        for meth, v in (("log_prob", arr("x", 1, pos=True)), ("cdf", arr("x", 1, pos=True)), ("icdf", q)):
            nm = f"Powerlaw.{meth}, index {k} given as a plain number"
            c.attempt(nm, lambda: plain_numbers(
                c, nm, lambda i2, s: i2.call(i2.getattr(i2.call(c.entity(i2, N + "Powerlaw"), [s["alpha"], s["low"], s["high"]], {}), meth), [v], {}),
                {"alpha": k, "low": 1, "high": 2}, N + "Powerlaw"))

    cum = c.entity(it, S + "cumulative")

    def cumt():
        y, g = arr("y", 1), arr("g", 1)
        both(c, it, "cumulative integral", N + "cumtrapz", S + "cumulative", [y, g], {},
             alts=[("cumtrapz-shift", lambda: spec("cumulative_shifted", y, g))])
    c.attempt("cumtrapz", cumt)

    def red():
        where = c.loc(it, N + "PowerlawRedshift")
        xp = arr("x", 1, pos=True)
        lamb, mx, zg, dv = ssym("lamb"), pos("zmax"), arr("zgrid", 1, pos=True), arr("dVdz", 1, pos=True)
        o = dist("PowerlawRedshift", [lamb, mx, zg, dv], {})
        c.equal("PowerlawRedshift log density", lambda: m(o, "log_prob", xp), lambda: spec("plz_lp", xp, lamb, mx, zg, dv), where)
        at = arr("dV_at_x", 1, pos=True)
        c.equal("PowerlawRedshift log density with precomputed volume", lambda: m(o, "log_prob", xp, dVdc=at), lambda: spec("plz_lp", xp, lamb, mx, zg, dv, at), where)
        c.equal("PowerlawRedshift normalisation", lambda: it.getattr(o, "norm"), lambda: spec("plz_norm", lamb, zg, dv), where)
        cg = lambda: spec("plz_cdfgrid", lamb, zg, dv, c.entity(it, N + "cumtrapz"))
        c.equal("PowerlawRedshift distribution function", lambda: m(o, "cdf", xp), lambda: spec("interp", xp, zg, cg()), where)
        c.equal("PowerlawRedshift quantile function", lambda: m(o, "icdf", q), lambda: spec("interp", q, cg(), zg), where)
        draws("PowerlawRedshift", "PowerlawRedshift", o, lambda u: spec("interp", u, cg(), zg), where)
    c.attempt("PowerlawRedshift", red)

    def psp():
        where = c.loc(it, N + "PowerlawSmoothedPowerlaw")
        xp = arr("x", 1, pos=True)
        a = [ssym("alpha"), pos("minimum"), pos("maximum"), pos("amax"), pos("amin"), pos("low"), pos("high")]
        dom = {"minimum": (0.6, 0.9), "maximum": (1.1, 1.5), "x": (0.3, 3), "low": (0.1, 0.3), "high": (3, 5), "@facts": [sub(a[2], a[1]), sub(a[1], a[5]), sub(a[6], a[2])]}
        o = dist("PowerlawSmoothedPowerlaw", a, {})
        c.equal("PowerlawSmoothedPowerlaw log density", lambda: m(o, "log_prob", xp), lambda: spec("psp_lp", xp, *a), where, dom)
    c.attempt("PowerlawSmoothedPowerlaw", psp)

    def bs():
        where = c.loc(it, N + "BSplineDistribution")
        cs, g, dm = arr("cs", 1), arr("grid", 1), arr("grid_dmat", 2)
        o = dist("BSplineDistribution", [lo, hi, cs, g, dm], {})
        c.equal("BSplineDistribution log density", lambda: m(o, "log_prob", x), lambda: spec("bs_lp", x, cs, g, dm), where)
        cg = lambda: spec("bs_cdfgrid", cs, g, dm, c.entity(it, N + "cumtrapz"))
        c.equal("BSplineDistribution normalisation", lambda: it.getattr(o, "norm"), lambda: spec("bs_norm", cs, g, dm), where)
        c.equal("BSplineDistribution distribution function", lambda: m(o, "cdf", x), lambda: spec("interp", x, g, cg()), where)
        c.equal("BSplineDistribution quantile function", lambda: m(o, "icdf", q), lambda: spec("interp", q, cg(), g), where)
        draws("BSplineDistribution", "BSplineDistribution", o, lambda u: spec("interp", u, cg(), g), where)
    c.attempt("BSplineDistribution", bs)

    def ps():
        where = c.loc(it, N + "PSplineCoeficientPrior")
        tau, n = pos("inv_var"), pos("N", integer=True)
        cs = arr("cs", 1)
        for lab, kw, order in (("default", {}, 2), ("order 1", {"diff_order": num(1)}, 1), ("order 3", {"diff_order": num(3)}, 3)):
            o = dist("PSplineCoeficientPrior", [n, tau], kw)
            c.equal(f"PSplineCoeficientPrior[{lab}] log density", lambda: m(o, "log_prob", cs), lambda: spec("ps_lp", cs, tau, num(order)), where)
        for lab, kw, order in (("default", {}, 1), ("degree 2", {"degree": num(2)}, 2)):
            both(c, it, f"difference penalty [{lab}]", "gwinferno.models.bsplines.smoothing.apply_difference_prior", S + "ps_lp", [cs, tau], kw, [cs, tau, num(order)], {})
    c.attempt("PSplineCoeficientPrior", ps)
