import itertools

from .common import *

TITLE = ("Gated value numbering of the hierarchical likelihood for every setting of its flags: each recorded quantity and the factor added to the "
         "target density is compared, as a normal form, with the reference assembly (selection term, sum of Bayes factors, cuts, rate).")
A = "gwinferno.pipeline.analysis."
H = A + "hierarchical_likelihood"
S = "vspec.analysis."


def inputs():
    return dict(pe=arr("pe_weights", 2), inj=arr("inj_weights", 1), n=pos("total_inj"), nobs=pos("Nobs", integer=True), t=pos("Tobs"), vt=pos("hypervolume"))


def run_repo(c, kw, v, pe=None):
    it = c.interp()
    f = c.entity(it, H)
    it.effects.clear()
    r = force(lambda: it.call(f, [v["pe"] if pe is None else pe, v["inj"], v["n"], v["nobs"], v["t"]], {"surveyed_hypervolume": v["vt"], **kw}))
    return it, r, list(it.effects)


def check(c):
    v = inputs()
    for rr, ms, mn, mv, lg in itertools.product((True, False), repeat=5):
        lab = f"rate={rr} marginalize={ms} neff_cut={mn} var_cut={mv} log={lg}"

        def one(rr=rr, ms=ms, mn=mn, mv=mv, lg=lg, lab=lab):
            kw = dict(reconstruct_rate=rr, marginalize_selection=ms, min_neff_cut=mn, max_variance_cut=mv, log=lg)
            it, r, fx = run_repo(c, kw, v)
            where = c.loc(it, H)
            if mv and (ms or mn):
                c.equal(f"incompatible cuts rejected [{lab}]", r, Raised("ValueError"), where)
                return
            it2 = c.interp()
            s = c.entity(it2, S + "hierarchical_likelihood")
            want = it2.call(s, [v["pe"], v["inj"], v["n"], v["nobs"], v["t"], v["vt"], rr, ms, mn, mv, lg], {})
            if isinstance(r, (Raised, BaseException)):
                c.equal(f"likelihood [{lab}]", r, want, where)
                return
            c.equal(f"returned rate [{lab}]", r, want, where)
            c.same_sites(f"likelihood [{lab}]", fx, it2.effects, where)
        c.attempt(f"likelihood [{lab}]", one)

    def defaults():
        it, r, fx = run_repo(c, {}, v)
        it2 = c.interp()
        s = c.entity(it2, S + "hierarchical_likelihood")
        want = it2.call(s, [v["pe"], v["inj"], v["n"], v["nobs"], v["t"], v["vt"], True, False, True, False, False], {})
        where = c.loc(it, H)
        c.equal("returned rate [defaults]", r, want, where)
        if not isinstance(r, (Raised, BaseException)):
            c.same_sites("likelihood [defaults]", fx, it2.effects, where)
    c.attempt("likelihood [defaults]", defaults)

    for lg in (False, True):
        def cat(lg=lg):
            pe = arr("pe_by_subpop", 3)
            fr = arr("pop_frac", 1)
            key = ssym("rngkey")
            it, r, fx = run_repo(c, dict(categorical=True, pop_frac=fr, rngkey=key, log=lg), v, pe=pe)
            it2 = c.interp()
            w = it2.call(c.entity(it2, S + "categorical_weights"), [pe, fr, v["nobs"], key], {})
            s = c.entity(it2, S + "hierarchical_likelihood")
            want = it2.call(s, [w, v["inj"], v["n"], v["nobs"], v["t"], v["vt"], True, False, True, False, lg], {})
            where = c.loc(it, H)
            c.equal(f"returned rate [categorical log={lg}]", r, want, where)
            if not isinstance(r, (Raised, BaseException)):
                c.same_sites(f"likelihood [categorical log={lg}]", fx, it2.effects, where)
        c.attempt(f"likelihood [categorical log={lg}]", cat)
