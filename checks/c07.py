from .common import *
from .c04 import BASES, COSMO

TITLE = ("Value numbering of the parametric and spline-perturbation population models (masses, spins, tilts, redshift): the value returned is compared with the "
         "reference density; numerically normalised models must divide by the integral of exactly the function they evaluate.")
ASSUMPTIONS = ("basis and cosmology classes are opaque here; they are decided by their own properties", "samples are positive where a mass or redshift is meant")
P0 = "gwinferno.models.parametric.parametric."
Q = "gwinferno.models.spline_perturbation."
S = "vspec.densities."
R = "vspec.perturbation."


def check(c):
    it = c.interp()
    m1, q = arr("m1", 1, pos=True), arr("q", 1, pos=True)
    al, be, mmin, mmax, mu, sd, lam, de = ssym("alpha"), ssym("beta"), pos("mmin"), pos("mmax"), ssym("mpp"), pos("sigpp"), ssym("lam"), pos("delta")
    a1, a2, A, B_, A2, B2 = arr("a1", 1), arr("a2", 1), pos("al"), pos("be"), pos("al2"), pos("be2")
    xi, sg, xi2, sg2 = ssym("xi"), pos("sig"), ssym("xi2"), pos("sig2")
    am, am2 = pos("amax"), pos("amax2")
    rows = [
        ("powerlaw_primary_ratio_pdf", "powerlaw_primary_ratio", [m1, q, al, be, mmin, mmax], {}),
        ("powerlaw_primary_ratio_falloff_pdf", "powerlaw_primary_ratio_falloff", [m1, q, al, be, mmin, mmax, pos("fall")], {}),
        ("plpeak_primary_pdf", "plpeak_primary", [m1, al, mmin, mmax, mu, sd, lam], {}),
        ("plpeak_primary_pdf", "plpeak_primary", [m1, al, mmin, mmax, mu, sd, lam], {"delta": de}),
        ("plpeak_primary_ratio_pdf", "plpeak_primary_ratio", [m1, q, al, be, mmin, mmax, mu, sd, lam], {}),
        ("plpeak_primary_ratio_pdf", "plpeak_primary_ratio", [m1, q, al, be, mmin, mmax, mu, sd, lam], {"delta": de}),
        ("beta_spin_magnitude", "beta_spin", [a1, A, B_], {}),
        ("beta_spin_magnitude", "beta_spin", [a1, A, B_], {"amax": am}),
        ("iid_spin_magnitude", "iid_spin", [a1, a2, A, B_], {}),
        ("iid_spin_magnitude", "iid_spin", [a1, a2, A, B_], {"amax": am}),
        ("independent_spin_magnitude_beta_dist", "ind_spin", [a1, a2, A, B_, A2, B2], {}),
        ("independent_spin_magnitude_beta_dist", "ind_spin", [a1, a2, A, B_, A2, B2], {"amax1": am, "amax2": am2}),
        ("mixture_isoalign_spin_tilt", "tilt", [a1, xi, sg], {}),
        ("iid_spin_tilt", "iid_tilt", [a1, a2, xi, sg], {}),
        ("independent_spin_tilt", "ind_tilt", [a1, a2, xi, xi2, sg, sg2], {}),
        ("default_spin_tilt", "default_tilt", [a1, a2, xi, sg], {}),
    ]
    for t, s, a, kw in rows:
        nm = t + ("" if not kw else "[" + ",".join(kw) + "]")
        c.attempt(nm, lambda t=t, s=s, a=a, kw=kw, nm=nm: both(c, it, nm, P0 + t, S + s, a, kw))

    z, zi, lamb, cs = arr("z", 2, pos=True), arr("z_inj", 1, pos=True), ssym("lamb"), arr("cs", 1)

    def pl():
        it = c.interp(COSMO)
        K = c.entity(it, P0 + "PowerlawRedshiftModel")
        where = c.loc(it, P0 + "PowerlawRedshiftModel")
        o = it.call(K, [z, zi], {})
        for x, side in ((z, "PE"), (zi, "injections")):
            c.equal(f"PowerlawRedshiftModel on {side}", lambda: it.call(o, [x, lamb], {}), lambda: it.call(c.entity(it, R + "pl_redshift"), [z, zi, x, lamb], {}), where)
            c.equal(f"PowerlawRedshiftModel log density on {side}", lambda: it.call(it.getattr(o, "log_prob"), [x, lamb], {}),
                    lambda: it.call(c.entity(it, R + "pl_redshift_log"), [z, zi, x, lamb], {}), where)
        c.equal("PowerlawRedshiftModel normalization", lambda: it.call(it.getattr(o, "normalization"), [lamb], {}),
                lambda: it.call(c.entity(it, R + "pl_redshift_norm"), [z, zi, lamb], {}), where)
    c.attempt("PowerlawRedshiftModel", pl)

    def plspl():
        n = pos("n", integer=True)
        it = c.interp(COSMO + BASES)
        K = c.entity(it, Q + "PowerlawSplineRedshiftModel")
        where = c.loc(it, Q + "PowerlawSplineRedshiftModel")
        for lab, kw, skw in (("defaults", {}, {}), ("basis", {"basis": c.entity(it, "gwinferno.interpolation.BSpline")}, {"basis": c.entity(it, "gwinferno.interpolation.BSpline")})):
            o = it.call(K, [n, z, zi], kw)
            for x, side in ((z, "PE"), (zi, "injections")):
                c.equal(f"PowerlawSplineRedshiftModel[{lab}] on {side}", lambda: it.call(o, [x, lamb, cs], {}),
                        lambda: it.call(c.entity(it, R + "spline_redshift"), [n, z, zi, x, lamb, cs], skw), where)
                c.equal(f"PowerlawSplineRedshiftModel[{lab}] log density on {side}", lambda: it.call(it.getattr(o, "log_prob"), [x, lamb, cs], {}),
                        lambda: it.call(c.entity(it, R + "spline_redshift_log"), [n, z, zi, x, lamb, cs], skw), where)
            c.equal(f"PowerlawSplineRedshiftModel[{lab}] normalization", lambda: it.call(it.getattr(o, "normalization"), [lamb, cs], {}),
                    lambda: it.call(c.entity(it, R + "spline_redshift_norm"), [n, z, zi, lamb, cs], skw), where)
    c.attempt("PowerlawSplineRedshiftModel", plspl)

    mp, mi, qp, qi = arr("m1_pe", 2, pos=True), arr("m1_inj", 1, pos=True), arr("q_pe", 2, pos=True), arr("q_inj", 1, pos=True)
    nm, nq, vs = pos("n_m", integer=True), pos("n_q", integer=True), arr("vs", 1)
    lo, hi, m2 = pos("lo"), pos("hi"), pos("m2min")

    def pert1():
        for lab, kw, skw in (("defaults", {}, {}), ("bounds,k", {"mmin": lo, "mmax": hi, "m2min": m2, "k": num(3)}, {"lo": lo, "hi": hi, "m2min": m2, "k": num(3)})):
            it = c.interp(BASES)
            K = c.entity(it, Q + "PowerlawBasisSplinePrimaryPowerlawRatio")
            where = c.loc(it, Q + "PowerlawBasisSplinePrimaryPowerlawRatio")
            o = force(lambda: it.call(K, [nm, mp, mi], kw))
            for x, y, side in ((mp, qp, "PE"), (mi, qi, "injections")):
                got = o if isinstance(o, (Raised, BaseException)) else (lambda: it.call(o, [x, y], dict(alpha=al, beta=be, mmin=mmin, mmax=mmax, cs=cs)))
                c.equal(f"power law primary with spline perturbation[{lab}] on {side}", got,
                        lambda: it.call(c.entity(it, R + "pl_spline_primary"), [nm, x, x, y, al, mmin, mmax, cs, be], skw), where)
    c.attempt("PowerlawBasisSplinePrimaryPowerlawRatio", pert1)

    def pert2():
        for lab, kw, skw in (("defaults", {}, {}), ("bounds,k", {"mmin": lo, "mmax": hi, "k": num(3)}, {"lo": lo, "hi": hi, "k": num(3)})):
            it = c.interp(BASES)
            K = c.entity(it, Q + "PowerlawBasisSplinePrimaryRatio")
            where = c.loc(it, Q + "PowerlawBasisSplinePrimaryRatio")
            o = force(lambda: it.call(K, [nm, nq, mp, qp, mi, qi], kw))
            for x, y, side in ((mp, qp, "PE"), (mi, qi, "injections")):
                for l2, ck, mm_ in (("", {"mmin": mmin}, mmin), (", default mmin", {}, kw.get("mmin", num(2)))):
                    got = o if isinstance(o, (Raised, BaseException)) else (lambda: it.call(o, [x, y], dict(alpha=al, beta=be, mmax=mmax, cs=cs, vs=vs, **ck)))
                    c.equal(f"power law primary and ratio with spline perturbations[{lab}{l2}] on {side}", got,
                            lambda: it.call(c.entity(it, R + "pl_spline_primary_ratio"), [nm, nq, x, y, x, y, al, mm_, mmax, cs, be, vs], skw), where)
    c.attempt("PowerlawBasisSplinePrimaryRatio", pert2)

    def window():
        it = c.interp(BASES)
        K = c.entity(it, Q + "PowerlawBasisSplinePrimaryPowerlawRatio")
        o = it.call(K, [nm, mp, mi], {})
        c.equal("mass smoothing window", lambda: it.call(it.getattr(o, "smoothing"), [m1, mmin, de], {}), lambda: it.call(c.entity(it, R + "mass_window"), [m1, mmin, de], {}),
                c.loc(it, Q + "PowerlawBasisSplinePrimaryPowerlawRatio.smoothing"))
    c.attempt("mass smoothing window", window)
