from .common import *
from .c04 import BASES, COSMO

TITLE = ("Effect analysis of the coefficient priors: every sample and factor site recorded (name, distribution, number of coefficients, penalty, smoothing order) and every returned value is compared with the reference; value numbering of the models "
         "assembled from loaded data, on posterior samples and injections, against the reference densities of their components.")
ASSUMPTIONS = ("basis and cosmology classes are opaque here; they are decided by their own properties", "independent normal coefficients given by expansion, by vectors of equal parameters or by a sample shape are the same prior")
U = "gwinferno.pipeline.utils."
S = "vspec.pipeline."
B = "vspec.bsplines."


def check(c):
    n1, n2 = pos("n1", integer=True), pos("n2", integer=True)
    t1, t2, s1, s2 = pos("tau1"), pos("tau2"), pos("sig1"), pos("sig2")

    def prior(fn, lab, kw, rows, pick):
        """rows: (site, factor, n, sig, tau, order, zero) in any order; pick: indices returned"""
        def one():
            it = c.interp()
            where = c.loc(it, U + fn)
            got = force(lambda: it.call(c.entity(it, U + fn), [], kw))
            if isinstance(got, (Raised, BaseException)):
                return c.equal(f"{fn}[{lab}]", got, num(0), where)
            it2 = c.interp()
            cs = [it2.call(c.entity(it2, S + "coefs"), list(r), {}) for r in rows]
            c.same_sites(f"{fn}[{lab}]", it.effects, it2.effects, where)
            want = cs[pick] if isinstance(pick, int) else tuple(cs[k] for k in pick)
            if isinstance(pick, int):
                c.equal(f"{fn}[{lab}] returned coefficients", got, want, where)
            else:
                g = it.unpack(got, len(pick))
                for k, (a, b) in enumerate(zip(g, want)):
                    c.equal(f"{fn}[{lab}] returned coefficients {k + 1} of {len(pick)}", a, b, where)
        c.attempt(f"{fn}[{lab}]", one)

    O, Z = num(1), num(0)
    for lab, nm in (("unnamed", None), ("named", "pop")):
        x = "" if nm is None else "_" + nm
        kn = {} if nm is None else {"name": nm}
        m = lambda n=n1, s=num(15), t=O, d=O: ("mass_cs" + x, "mass_smoothing_prior" + x, n, s, t, d, Z)
        q = lambda n=n2, s=num(5), t=O, d=O: ("q_cs" + x, "q_smoothing_prior" + x, n, s, t, d, Z)
        prior("bspline_mass_prior", lab + ", both", {"m_nsplines": n1, "q_nsplines": n2, **kn}, [m(), q()], (0, 1))
        prior("bspline_mass_prior", lab + ", mass", {"m_nsplines": n1, **kn}, [m()], 0)
        prior("bspline_mass_prior", lab + ", ratio", {"q_nsplines": n2, **kn}, [q()], 0)
        for d1, d2 in ((2, 1), (1, 2), (3, 2)):
            prior("bspline_mass_prior", f"{lab}, orders {d1}, {d2}", {"m_nsplines": n1, "q_nsplines": n2, "m_tau": t1, "q_tau": t2, "m_cs_sig": s1, "q_cs_sig": s2, "m_deg": num(d1), "q_deg": num(d2), **kn},
                  [m(n1, s1, t1, num(d1)), q(n2, s2, t2, num(d2))], (0, 1))
        a = lambda k, s=num(5), d=num(2): (f"a{k}_cs" + x, f"a{k}_smoothing_prior" + x, n1, s, t1, d, Z)
        t = lambda k, s=num(5), d=num(2): (f"tilt{k}_cs" + x, f"ct{k}_smoothing_prior" + x, n2, s, t2, d, Z)
        base = {"a_nsplines": n1, "ct_nsplines": n2, "a_tau": t1, "ct_tau": t2, **kn}
        for d1, d2, kw in ((2, 2, {}), (1, 3, {"a_cs_sig": s1, "ct_cs_sig": s2, "a_deg": num(1), "ct_deg": num(3)})):
            o = (s1, num(d1)) if kw else ()
            p = (s2, num(d2)) if kw else ()
            prior("bspline_spin_prior", f"{lab}, iid, orders {d1}, {d2}", {**base, **kw, "IID": True}, [a("", *o), t("", *p)], (0, 1))
            prior("bspline_spin_prior", f"{lab}, independent, orders {d1}, {d2}", {**base, **kw}, [a("1", *o), t("1", *p), a("2", *o), t("2", *p)], (0, 1, 2, 3))
        for d1, kw in ((2, {}), (1, {"z_cs_sig": s1, "z_deg": num(1)}), (3, {"z_cs_sig": s1, "z_deg": num(3)})):
            prior("bspline_redshift_prior", f"{lab}, order {d1}", {"z_nsplines": n1, "z_tau": t1, **kn, **kw},
                  [("z_cs" + x, "z_smoothing_prior" + x, n1, s1 if kw else O, t1, num(d1), O)], 0)

    def refused():
        it = c.interp()
        c.equal("mass prior without any number of splines is refused", lambda: it.call(c.entity(it, U + "bspline_mass_prior"), [], {}), Raised("AssertionError"), c.loc(it, U + "bspline_mass_prior"))
    c.attempt("mass prior without splines", refused)
    models(c)
    c.attempt("find_map", lambda: fmap(c))


def models(c):
    names = ("mass_1", "mass_ratio", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "redshift")
    pe = {k: arr("pe_" + k, 2, pos=not k.startswith("cos")) for k in names}
    inj = {k: arr("inj_" + k, 1, pos=not k.startswith("cos")) for k in names}
    P_, I_ = DictV(dict(pe)), DictV(dict(inj))
    n1, n2, n3, n4 = (pos(f"n{k}", integer=True) for k in (1, 2, 3, 4))
    c1, c2 = arr("coefs1", 1), arr("coefs2", 1)
    lo, hi = pos("mmin"), pos("mmax")
    D = lambda **k: DictV(k)
    sides = (("posterior samples", {"pe_samples": True}, pe), ("injections", {"pe_samples": False}, inj))

    def mass():
        it = c.interp(BASES)
        fn = U + "setup_bspline_mass_models"
        where = c.loc(it, fn)
        basis = lambda nm: c.entity(it, "gwinferno.interpolation." + nm)
        for form in ("positional", "keywords"):
            a, k = ([P_, I_, n1, n2, lo, hi], {}) if form == "positional" else ([P_, I_, n1, n2], {"mmin": lo, "mmax": hi})
            o = it.call(c.entity(it, fn), a, k)
            for side, kw, d in sides:
                c.equal(f"mass model on {side} ({form})", lambda: it.call(o, [c1, c2], kw),
                        lambda: it.call(c.entity(it, B + "primary_ratio"), [n1, n2, d["mass_1"], d["mass_ratio"], hi, lo, lo, c1, c2, D(basis=basis("LogXLogYBSpline")), D(basis=basis("LogYBSpline")), D()], {}), where)
    c.attempt("mass model", mass)

    def spins(iid):
        it = c.interp(BASES)
        fn = U + "setup_bspline_spin_models"
        where = c.loc(it, fn)
        mag, tilt = it.unpack(it.call(c.entity(it, fn), [P_, I_, n1, n2], {"IID": True} if iid else {"IID": False, "a2_nsplines": n3, "ct2_nsplines": n4}), 2)
        lab = "iid" if iid else "independent"
        nz = {"normalize": True}
        for side, kw, d in sides:
            for nm, o, x, n, m, spec in (("magnitude", mag, "a", n1, n3, "magnitudes"), ("tilt", tilt, "cos_tilt", n2, n4, "tilts")):
                u, v = d[x + "_1"], d[x + "_2"]
                if iid:
                    c.equal(f"{lab} {nm} model on {side}", lambda: it.call(o, [c1], kw), lambda: it.call(c.entity(it, B + "iid_" + spec), [n, u, v, c1], dict(nz)), where)
                else:
                    c.equal(f"{lab} {nm} model on {side}", lambda: it.call(o, [c1, c2], kw), lambda: it.call(c.entity(it, B + "ind_" + spec), [n, m, u, v, c1, c2, D(), D(), D(**nz)], {}), where)
    c.attempt("iid spin models", lambda: spins(True))
    c.attempt("independent spin models", lambda: spins(False))

    def redshift():
        it = c.interp(COSMO + BASES)
        fn = U + "setup_powerlaw_spline_redshift_model"
        where = c.loc(it, fn)
        o = it.call(c.entity(it, fn), [P_, I_, n1], {})
        ref = it.call(c.entity(it, "gwinferno.models.spline_perturbation.PowerlawSplineRedshiftModel"), [n1, pe["redshift"], inj["redshift"]], {})
        lamb = ssym("lamb")
        for side, _, d in sides:
            c.equal(f"redshift model on {side}", lambda: it.call(o, [d["redshift"], lamb, c1], {}), lambda: it.call(ref, [d["redshift"], lamb, c1], {}), where)
        c.equal("redshift normalisation", lambda: it.call(it.getattr(o, "normalization"), [lamb, c1], {}), lambda: it.call(it.getattr(ref, "normalization"), [lamb, c1], {}), where)
    c.attempt("redshift model", redshift)


def fmap(c):
    fn = "gwinferno.pipeline.analysis.find_map"
    key, model, x, y, k, lr = arr("key", 1), ssym("model"), arr("x", 1), arr("y", 1), pos("niter", integer=True), pos("lr")
    for lab, kw, nn, ll in (("defaults", {}, num(100), num("0.01")), ("options", {"Niter": k, "lr": lr}, k, lr)):
        it = c.interp()
        where = c.loc(it, fn)
        c.equal(f"find_map[{lab}]", lambda: it.call(c.entity(it, fn), [key, model, x, y], kw), lambda: it.call(c.entity(it, S + "find_map"), [key, model, (x, y), nn, ll], {}), where)
