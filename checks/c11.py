from .common import *

TITLE = ("Value numbering of the effective-spin conversions and priors: each piece of each piecewise prior is compared with the reference formula of the scaled problem under the sign conditions that select it, "
         "and the conditions are shown to select it; the numerical precession prior is followed through its resampling, kernel estimate and normalised interpolation.")
ASSUMPTIONS = ("spence is scipy's dilogarithm with its usual convention", "a kernel density estimate is an opaque function of its samples, weights and bandwidth", "effective precession is non-negative, mass ratios lie in (0, 1]")
M = "gwinferno.preprocess.priors."
V = "gwinferno.preprocess.conversions."
S = "vspec.spins."
ISO = M + "chi_effective_prior_from_isotropic_spins"


def affine(r):
    """r = constant + coefficient * one uniform draw, coefficients free of draws"""
    u = [a for a in ops.all_atoms(r) if a.op == "nprand:random"]
    return len(u) == 1 and all(all(e is ONE for a, e in mm if a is u[0]) and not any(u[0] in ops.all_atoms(a.args) for a, e in mm) for mm in r.terms)


def check(c):
    DOM = {"ce": (-0.6, 0.6), "q": (0.05, 0.999), "amax": (0.2, 1.0), "a1": (0.01, 0.99), "a2": (0.01, 0.99), "ct1": (-0.99, 0.99), "ct2": (-0.99, 0.99)}

    def args(nd):
        if nd == 0:
            return ssym("x"), pos("q")
        return arr("x", nd), arr("q", nd, pos=True)

    def convs():
        for nd in (0, 1, 2):
            it = c.interp()
            mk = (lambda n, **k: ssym(n, **k)) if nd == 0 else (lambda n, **k: arr(n, nd, **k))
            a = [mk("q", pos=True), mk("a1", pos=True), mk("a2", pos=True), mk("ct1"), mk("ct2")]
            both(c, it, f"effective spin [{nd}-D]", V + "chieff_from_q_component_spins", S + "chi_eff", a, {}, domains=DOM)
            both(c, it, f"effective precession [{nd}-D]", V + "chip_from_q_component_spins", S + "chi_p", a, {}, domains=DOM)
            for xm in (None, mk("xmax", pos=True)):
                kw = {} if xm is None else {"xmax": xm}
                al, be = mk("alpha", pos=True), mk("beta", pos=True)
                lab = f"[{nd}-D, {'default' if xm is None else 'given'} maximum]"
                both(c, it, f"mean and variance of a beta distribution {lab}", V + "mu_var_from_alpha_beta", S + "mu_var", [al, be], kw)
                # inverse of the moment map
                f = c.entity(it, V + "alpha_beta_from_mu_var")
                mom = it.unpack(it.call(c.entity(it, S + "mu_var"), [al, be], kw), 2)
                for i, (n, w) in enumerate((("alpha", al), ("beta", be))):
                    c.equal(f"{n} is recovered from mean and variance {lab}", lambda: it.unpack(it.call(f, list(mom), kw), 2)[i], w, c.loc(it, V + "alpha_beta_from_mu_var"))
                it2 = c.interp()
                f = c.entity(it2, V + "alpha_beta_from_mu_var")
                force(lambda: it2.call(f, [mk("mu"), mk("var")], kw))
                bad = [e for e in it2.events if e[0] in ("mutate", "mutate_term")]
                c.holds(f"the given mean and variance are left unchanged {lab}", not bad, c.loc(it2, V + "alpha_beta_from_mu_var"), str(bad[:1])[:150])
    c.attempt("conversions", convs)

    def aligned():
        for nd in (0, 1):
            for am in (None, pos("amax")):
                it = c.interp()
                x, q = args(nd)
                kw = {} if am is None else {"a_max": am}
                got = lambda: it.call(c.entity(it, M + "chi_effective_prior_from_aligned_spins"), [x, q], kw)
                sp = it.call(c.entity(it, S + "aligned"), [x, q] + ([] if am is None else [am]), {})
                ok = tm.le(q, ONE)
                z = lambda v: tm.where(ok, v, ZERO)
                c.equal(f"aligned effective-spin prior [{nd}-D, a_max {'default' if am is None else 'given'}]", lambda: z(got()), z(sp), c.loc(it, M + "chi_effective_prior_from_aligned_spins"), {"x": (-1.2, 1.2), **DOM})
    c.attempt("aligned prior", aligned)

    def iso():
        for nd in (0, 1):
            for am in (None, pos("amax")):
                it = c.interp()
                it.reclimit = {ISO: 1}
                x, q = args(nd)
                kw = {} if am is None else {"a_max": am}
                w = c.loc(it, ISO)
                got = force(lambda: it.call(c.entity(it, ISO), [x, q], kw))
                lab = f"[{nd}-D, a_max {'default' if am is None else 'given'}]"
                if not isinstance(got, P):
                    c.equal(f"isotropic effective-spin prior {lab}", got, ZERO, w)
                    continue
                # neighbours of a piece boundary: values at a slightly shifted spin
                nb = {a: ssym("neighbour") for a in ops.all_atoms(got) if a.op == "call:" + ISO and any(k == () and v != 0 for k, v in getattr(dict(a.args).get("chi_eff"), "terms", {}).items())}
                got = ops.subst_atoms(got, nb)
                am = ONE if am is None else am
                y = div(it.ext.call(it, "np.abs", [x], {}), am)
                s = mul(add(ONE, q), y)
                pieces = it.unpack(it.call(c.entity(it, S + "iso_cases"), [y, q], {}), 6)
                omq = sub(ONE, q)
                lt, gt = tm.lt, tm.gt
                conds = [("zero spin", tm.eqc(y, ZERO)), ("small spin, A", tm.cand(gt(y, ZERO), lt(s, omq), lt(s, q))), ("B", tm.cand(lt(s, omq), gt(s, q))), ("C", tm.cand(gt(s, omq), lt(s, q))),
                         ("D", tm.cand(gt(s, omq), gt(s, q), lt(s, ONE))), ("E", tm.cand(gt(s, omq), gt(s, ONE), lt(y, ONE))), ("beyond the maximum", gt(y, ONE))]
                for (n, cnd), p in zip(conds, list(pieces) + [ZERO]):
                    p = div(p, am)
                    cn = tm.cand(cnd, tm.le(q, ONE))
                    c.equal(f"isotropic effective-spin prior, {n} {lab}", tm.where(cn, got, ZERO), tm.where(cn, it.ext.call(it, "np.real", [p], {}), ZERO), w, {"x": (-1.1, 1.1), **DOM})
    c.attempt("isotropic prior", iso)

    def chip():
        for nd in (0, 1):
            for am in (None, pos("amax")):
                it = c.interp()
                x, q = args(nd)
                kw = {} if am is None else {"a_max": am}
                w = c.loc(it, M + "chi_p_prior_from_isotropic_spins")
                sp = it.call(c.entity(it, S + "chi_p_iso"), [x, q] + ([] if am is None else [am]), {})
                ok = tm.cand(tm.le(q, ONE), tm.ge(x, ZERO))
                z = lambda v: tm.where(ok, v, ZERO)
                c.equal(f"isotropic precession prior [{nd}-D, a_max {'default' if am is None else 'given'}]", lambda: z(it.call(c.entity(it, M + "chi_p_prior_from_isotropic_spins"), [x, q], kw)), z(sp), w, {"x": (0.0, 1.2), **DOM})
    c.attempt("precession prior", chip)

    def given():
        for lab, kw in (("defaults", {}), ("given maximum spin, number of draws and bandwidth", {"a_max": pos("amax"), "ndraws": pos("n", integer=True), "bw_method": "silverman"})):
            it = c.interp()
            q, ce, x = pos("q"), ssym("ce"), arr("x", 1)
            f = M + "chi_p_prior_given_chi_eff_q"
            w = c.loc(it, f)
            am, n, bw = kw.get("a_max", ONE), kw.get("ndraws", num(10000)), kw.get("bw_method", "scott")
            name = f"precession prior at fixed effective spin [{lab}]"
            got = force(lambda: it.call(c.entity(it, f), [x, ce, q], kw))
            if not isinstance(got, P):
                c.equal(name, got, ZERO, w)
                continue
            kde = [a for a in ops.all_atoms(got) if a.op.startswith("call:") and a.op.endswith("gaussian_kde")]
            app = [a for a in ops.all_atoms(got) if a.op == "apply" and any(b in kde for b in ops.all_atoms(a.args[0]))]
            if len(kde) != 1 or len(app) != 1:
                c.record(f"{name}: kernel estimate", UNDECIDED, f"{len(kde)} kernel estimates", w)
                continue
            ka = kde[0].args
            kws = dict((a[0], a[1]) for a in ka[-1][1:]) if isinstance(ka[-1], tuple) and ka[-1][:1] == ("kw",) else {}
            c.holds(f"{name}: bandwidth rule as requested", kws.get("bw_method") == bw, w, f"bandwidth {kws.get('bw_method')}")
            ws = [a for a in ops.all_atoms(ka) if a.op == "while"]
            wt = kws.get("weights")
            if len(ws) != 4 or len({a.args[0] for a in ws}) != 1:
                c.record(f"{name}: spins kept by the rejection loop", UNDECIDED, f"{len(ws)} loop variables", w)
                continue
            A1 = next((a for a in ws if isinstance(wt, P) and eq.compare(wt, div(add(ONE, q), tm.atomP(a))).status == PROVED), None)
            c.holds(f"{name}: draws are weighted by the Jacobian (1+q)/a1", A1 in ws, w, f"weights {tm.show(wt, 4)[:120] if isinstance(wt, P) else wt}")
            if A1 not in ws:
                continue
            import itertools
            ref = c.entity(it, S + "chi_p")
            hit, unsure = None, False
            for p in itertools.permutations([a for a in ws if a is not A1]):
                want = it.call(ref, [q, tm.atomP(A1), tm.atomP(p[0]), tm.atomP(p[1]), tm.atomP(p[2])], {})
                st = eq.compare(ka[0], want).status
                if st == PROVED:
                    hit = (A1,) + p
                    break
                unsure = unsure or st == UNDECIDED
            if hit is None and unsure:
                c.record(f"{name}: the draws are precessing spins of the accepted configurations", UNDECIDED, "not decided for some assignment", w)
                continue
            c.holds(f"{name}: the draws are precessing spins of the accepted configurations", hit is not None, w, "not chi_p of the four accepted variables in any assignment")
            if hit is None:
                continue
            ia, i2, ic1, ic2 = [a.args[1] for a in hit]
            # the configurations at the start of a round, as arrays
            held = {j: arr(f"held{j}", 1) for j in range(4)}
            sysm = ops.subst_atoms(A1.args[0], {tm._mk_atom("acc", (j,)): v for j, v in held.items()})
            acc = held.get
            rel = lambda v: div(sub(mul(ce, add(ONE, q)), mul(mul(q, v(i2)), v(ic2))), v(ia))
            ini, stp = (lambda j: sysm[1 + j][0]), (lambda j: sysm[1 + j][1])
            c.equal(f"{name}: initial configurations have the given effective spin", lambda: ini(ic1), lambda: rel(ini), w)
            c.equal(f"{name}: redrawn configurations have the given effective spin", lambda: stp(ic1), lambda: rel(stp), w)
            uns = tm.cor(tm.lt(acc(ic1), num(-1)), tm.gt(acc(ic1), ONE))
            nps = lambda v: it.ext.call(it, "np.any", [v], {})
            c.equal(f"{name}: redraws until every tilt is physical", sysm[0], tm.cor(it.cond(nps(tm.lt(acc(ic1), num(-1)))), it.cond(nps(tm.gt(acc(ic1), ONE)))), w)
            us = []
            for j, lo, hi, lab2 in ((ia, ZERO, am, "primary spin"), (i2, ZERO, am, "secondary spin"), (ic2, num(-1), ONE, "secondary tilt")):
                u0 = tm.as_atom(div(sub(ini(j), lo), sub(hi, lo)))
                c.holds(f"{name}: {lab2} drawn uniformly", u0 is not None and u0.op == "nprand:random" and u0.args[1] == ("tuple", n), w, f"drawn as {tm.show(ini(j), 5)[:100]}")
                b = tm.as_atom(stp(j))
                r = b.args[1] if b is not None and b.op == "where" else None
                u1 = tm.as_atom(div(sub(r, lo), sub(hi, lo))) if isinstance(r, P) else None
                if u1 is not None and u1.op == "nprand:random":
                    c.equal(f"{name}: {lab2} redrawn exactly where unphysical", stp(j), tm.where(uns, r, acc(j)), w)
                    us.append(u1)
                elif isinstance(r, P) and len([a for a in ops.all_atoms(r) if a.op.startswith("nprand:")]) == 1 and all(len(mm) <= 2 for mm in r.terms) and affine(r):
                    c.holds(f"{name}: {lab2} redrawn over its whole range", False, w, f"redrawn as {tm.show(r, 4)[:100]}")
                else:
                    c.record(f"{name}: {lab2} redrawn", UNDECIDED, "redraw not recognised", w)
                us.append(u0)
            c.holds(f"{name}: draws are independent", len(set(us)) == len(us), w, "two variables share their random numbers")
            # normalised interpolation of the estimate on (0, max)
            se = mul(add(ONE, q), it.ext.call(it, "np.abs", [ce], {}))
            mx = tm.where(tm.lt(div(se, q), am), am, tm.power(sub(mul(am, am), mul(sub(se, mul(q, am)), sub(se, mul(q, am)))), num("1/2")))
            call = lambda fn, *a: it.ext.call(it, fn, list(a), {})
            grid = call("np.linspace", mul(num("0.05"), mx), mul(num("0.95"), mx), num(50))
            real = tm.as_atom(it.call(tm.atomP(kde[0]), [grid], {}))
            c.equal(f"{name}: the estimate is evaluated on a grid inside (0, largest precession)", tm.atomP(app[0]) if real is not None and app[0].args[0] == real.args[0] and app[0].args[2:] != real.args[2:] else app[0].args[1], real.args[1] if real is not None else grid, w, DOM)
            vals = arr("est", 1)
            got = ops.subst_atoms(got, {app[0]: vals})
            G = call("np.concatenate", ListV([ListV([ZERO]), grid, ListV([mx])]))
            Vv = call("np.concatenate", ListV([ListV([ZERO]), vals, ListV([ZERO])]))
            c.equal(f"{name}: normalised kernel estimate interpolated on [0, largest precession]", got, lambda: call("np.interp", x, G, div(Vv, trapz_(it, Vv, G))), w, DOM)
    c.attempt("precession prior at fixed effective spin", given)

    def joint():
        for lab, nd, extra in (("one value", 0, {}), ("arrays", 1, {}), ("arrays, number of draws given", 1, {"ndraws": pos("n", integer=True)})):
            it = c.interp(opaque=(M + "chi_p_prior_given_chi_eff_q", ISO))
            w = c.loc(it, M + "joint_prior_from_isotropic_spins")
            am = pos("amax")
            cp, ce, q = (ssym("chi_p"), ssym("chi_eff"), pos("q")) if nd == 0 else (arr("chi_p", 1), arr("chi_eff", 1), arr("q", 1, pos=True))

            def want():
                cond = it.call(it.ext.call(it, "np.vectorize", [c.entity(it, M + "chi_p_prior_given_chi_eff_q")], {"excluded": ListV(["a_max", "ndraws", "bw_method"])}),
                               [it.ext.call(it, "np.atleast_1d", [cp], {}), it.ext.call(it, "np.atleast_1d", [ce], {}), q], {"a_max": am, **extra})
                return mul(it.call(c.entity(it, ISO), [it.ext.call(it, "np.atleast_1d", [ce], {}), q], {"a_max": am}), cond)
            c.equal(f"joint prior is the marginal times the conditional [{lab}]", lambda: it.call(c.entity(it, M + "joint_prior_from_isotropic_spins"), [cp, ce, q], {"a_max": am, **extra}), want, w)
    c.attempt("joint prior", joint)

    def edges():
        # on the boundary between two pieces: average of the two neighbours at the same mass ratio
        it = c.interp()
        it.reclimit = {ISO: 1}
        ops.MASKED.clear()
        x, q, am = arr("x", 1), arr("q", 1, pos=True), pos("amax")
        w = c.loc(it, ISO)
        got = force(lambda: it.call(c.entity(it, ISO), [x, q], {"a_max": am}))
        if not isinstance(got, P):
            c.equal("isotropic effective-spin prior on piece boundaries", got, ZERO, w)
            return
        calls = [(a, m) for v, m in ops.MASKED for a in ops.all_atoms(v) if a.op == "call:" + ISO]
        if not calls:
            c.record("isotropic effective-spin prior on piece boundaries", UNDECIDED, "no recursive evaluation under a mask", w)
            return
        picked = lambda v, m: v.scalar or any(t.op == "index" and t.args[1] == (m,) for t in ops.all_atoms(v))
        for a, m in calls:
            b = dict(a.args)
            dx, dq = b.get("chi_eff"), b.get("q")
            ok = isinstance(dx, P) and isinstance(dq, P) and picked(dx, m) == picked(dq, m)
            c.holds("boundary values use the mass ratio of their own sample", ok, w, f"spins {tm.show_any(dx, 3)[:80]} of the boundary samples with mass ratios {tm.show_any(dq, 3)[:80]} of all samples")
        # the value there is the mean of the values a little above and below
        y = it.ext.call(it, "np.abs", [x], {})
        s = mul(add(ONE, q), y)
        edge = tm.cand(tm.lt(q, ONE), tm.gt(y, ZERO), tm.lt(y, am), tm.cor(tm.eqc(s, mul(am, sub(ONE, q))), tm.eqc(s, am)))
        at = {}
        for a in ops.all_atoms(got):
            if a.op == "call:" + ISO:
                at[a] = ssym("above") if tm.as_atom(dict(a.args)["chi_eff"]) is None and any(k == () and v > 0 for k, v in dict(a.args)["chi_eff"].terms.items()) else ssym("below")
        g2 = ops.subst_atoms(got, at)
        c.equal("a spin on a piece boundary gets the mean of its neighbours", tm.where(edge, g2, ZERO), tm.where(edge, it.ext.call(it, "np.real", [mul(num("1/2"), add(ssym("above"), ssym("below")))], {}), ZERO), w, {"x": (-1, 1), **DOM})
    c.attempt("piece boundaries", edges)
