from .common import *
from .c04 import BASES, COSMO

TITLE = ("Value numbering of the posterior-predictive calculations: row i of every returned table is compared, for a symbolic draw i, with the reference curve of draw i "
         "(density of that draw's parameters on the returned grid, marginalised, normalised and scaled by that draw's rate and fraction).")
ASSUMPTIONS = ("basis classes, the cosmology and the closed-form densities are opaque here; they are decided by their own properties", "all tables of one call hold the same number of draws")
K = "gwinferno.postprocess.calculations."
S = "vspec.ppd."
DENS = ("gwinferno.distributions.betadist", "gwinferno.distributions.truncnorm_pdf", "gwinferno.models.parametric.parametric.mixture_isoalign_spin_tilt",
        "gwinferno.models.parametric.parametric.plpeak_primary_ratio_pdf")
OP = BASES + DENS

DOM = {"draws": (4, 4), "i": (3, 3), "mmin": (2, 5), "mmax": (50, 90)}


def check(c):
    n_draws = pos("draws", integer=True)
    i = pos("i", integer=True)

    def draws(name, nd=1):
        x = arr(name, nd)
        ops.LENGTHS[ops.as_atom(x)] = n_draws
        return x
    mmin, mmax = pos("mmin"), pos("mmax")
    draw = [i]
    row = lambda x: ops.index(x, (draw[0],))
    rate, frac = draws("rate"), draws("pop_frac")

    def interp(opaque):
        it = c.interp(opaque)
        it.elementwise |= set(DENS)
        it.method_rank.update(bases=1, project=-1)
        return it

    def run(fn, args, kw, spec):
        """spec(it, rate, frac) -> tuple of reference values, curves for draw i"""
        def at(it, j, rk):
            draw[0] = j
            try:
                return spec(it, *(row(rk[k]) if k in rk else num(1) for k in ("rate", "pop_frac")))
            finally:
                draw[0] = i
        for lab, rk in (("plain", {}), ("rate", {"rate": rate}), ("fraction", {"pop_frac": frac}), ("rate, fraction", {"rate": rate, "pop_frac": frac})):
            def one(lab=lab, rk=rk):
                it = interp(OP)
                f = c.entity(it, K + fn)
                where = c.loc(it, K + fn)
                got = it.call(f, list(args), {**kw, **rk})
                want = at(it, i, rk)
                c.holds(f"{fn}[{lab}] returns {len(want)} values", isinstance(got, tuple) and len(got) == len(want), f"{got!r:.100}", where)
                first = [(nm, g, w) for (nm, kind, w), g in zip(at(it, num(0), rk), got if isinstance(got, tuple) else ()) if kind == "curve"]
                for nm, g, w in first:
                    c.equal(f"{fn}[{lab}] {nm} of the first draw", ops.index(g, (num(0),)), w, where, DOM)
                for (nm, kind, w), g in zip(want, got):
                    if kind == "curve":
                        c.equal(f"{fn}[{lab}] {nm} of draw i", row(g), w, where, DOM)
                        c.equal(f"{fn}[{lab}] number of {nm} curves", ops.dim(g, 0), n_draws, where)
                    else:
                        c.equal(f"{fn}[{lab}] {nm}", g, w, where)
            c.attempt(f"{fn}[{lab}]", one)

    def ref(it, name, *a):
        return it.call(c.entity(it, S + name), list(a), {})

    def four(it, name, *a):
        v = ref(it, name, *a)
        return [("primary mass", "curve", v[0]), ("mass grid", "grid", v[1]), ("mass ratio", "curve", v[2]), ("mass ratio grid", "grid", v[3])]

    nm, nq = pos("n_m", integer=True), pos("n_q", integer=True)
    cm, cq = draws("m_cs", 2), draws("q_cs", 2)
    run("calculate_bspline_mass_ppds", [cm, cq, DictV({"m1": nm, "q": nq}), mmin, mmax], {}, lambda it, r, f: four(it, "bspline_mass", row(cm), row(cq), nm, nq, mmin, mmax, r, f))
    al, be, mu, sg, la = (draws(x) for x in ("alpha", "beta", "mu", "sig", "lam"))
    run("calculate_powerlaw_peak_mass_ppds", [al, be, mu, sg, la, mmin, mmax], {},
        lambda it, r, f: four(it, "plpeak_mass", row(al), row(be), row(mu), row(sg), row(la), mmin, mmax, r, f))
    run("calculate_peak_logm1_bspline_q_ppds", [mu, sg, cq, DictV({"q": nq}), mmin, mmax], {},
        lambda it, r, f: four(it, "logpeak_mass", row(mu), row(sg), row(cq), nq, mmin, mmax, r, f))

    def two(it, nm_, v):
        return [(nm_, "curve", v[0]), ("grid", "grid", v[1])]
    am = pos("amax")
    run("calculate_beta_spin_mag", [al, be], {"amax": am}, lambda it, r, f: two(it, "magnitude", ref(it, "beta_spin", row(al), row(be), am, r, f)))
    run("calculate_beta_spin_mag", [al, be], {}, lambda it, r, f: two(it, "magnitude", ref(it, "beta_spin", row(al), row(be), num(1), r, f)))
    run("calculate_mixture_iso_aligned_spin_tilt", [sg, la], {}, lambda it, r, f: two(it, "tilt", ref(it, "tilt", row(sg), row(la), r, f)))

    a1, a2, t1, t2 = draws("a1_cs", 2), draws("a2_cs", 2), draws("tilt1_cs", 2), draws("tilt2_cs", 2)
    ns = {k: pos("n_" + k, integer=True) for k in ("a", "tilt", "a1", "a2", "tilt1", "tilt2")}

    def spins(it, r, f, names):
        g = {"grid a": ("magnitude grid", "grid", ref(it, "unit", num(800))), "grid t": ("tilt grid", "grid", ref(it, "symmetric_unit", num(800)))}
        out = []
        for x in names:
            if x in g:
                out.append(g[x])
            else:
                cs, which, kind = x
                out.append((which, "curve", ref(it, kind, row(cs), ns[which], r, f)))
        return out
    run("calculate_bspline_spin_ppds", [a1, t1, DictV({"a": ns["a"], "tilt": ns["tilt"]})], {},
        lambda it, r, f: spins(it, r, f, [(a1, "a", "magnitude"), "grid a", (t1, "tilt", "cos_tilt"), "grid t"]))
    run("calculate_bspline_spin_ppds", [a1, t1, DictV({k: ns[k] for k in ("a1", "a2", "tilt1", "tilt2")})], {"a2_cs": a2, "tilt2_cs": t2},
        lambda it, r, f: spins(it, r, f, [(a1, "a1", "magnitude"), (a2, "a2", "magnitude"), "grid a", (t1, "tilt1", "cos_tilt"), (t2, "tilt2", "cos_tilt"), "grid t"]))

    z, zi, cs, n = arr("z", 2, pos=True), arr("z_inj", 1, pos=True), draws("z_cs", 2), pos("n", integer=True)

    store = {}

    def args1(it):
        store["m"] = it.call(c.entity(it, "gwinferno.models.parametric.parametric.PowerlawRedshiftModel"), [z, zi], {})
        return [la, rate, store["m"]]

    def spec1(it, r, f):
        zs = it.getattr(store["m"], "zs")
        return [("rate", "curve", ref(it, "rate_of_z", zs, row(la), row(rate), f)), ("grid", "grid", zs)]
    def zrun(fn, args, spec):
        for lab, rk in (("plain", {}), ("fraction", {"pop_frac": frac})):
            def one(lab=lab, rk=rk):
                it = interp(OP + COSMO)
                f = c.entity(it, K + fn)
                where = c.loc(it, K + fn)
                got = it.call(f, args(it), dict(rk))
                want = spec(it, None, row(frac) if rk else num(1))
                c.holds(f"{fn}[{lab}] returns {len(want)} values", isinstance(got, tuple) and len(got) == len(want), f"{got!r:.100}", where)
                for (nm, kind, w), g in zip(want, got):
                    c.equal(f"{fn}[{lab}] {nm}", row(g) if kind == "curve" else g, w, where, DOM)
                    if kind == "curve":
                        c.equal(f"{fn}[{lab}] number of {nm} curves", ops.dim(g, 0), n_draws, where)
            c.attempt(f"{fn}[{lab}]", one)
    zrun("calculate_powerlaw_rate_of_z_ppds", args1, spec1)

    def args2(it):
        store["m"] = it.call(c.entity(it, "gwinferno.models.spline_perturbation.PowerlawSplineRedshiftModel"), [n, z, zi], {})
        return [la, cs, rate, store["m"]]

    def spec2(it, r, f):
        zs = it.getattr(store["m"], "zs")
        return [("rate", "curve", ref(it, "spline_rate_of_z", store["m"], zs, row(la), row(cs), row(rate), f)), ("grid", "grid", zs)]
    zrun("calculate_powerlaw_spline_rate_of_z_ppds", args2, spec2)
