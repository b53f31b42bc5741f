import itertools

from .common import *
from .c02 import H, S, inputs, run_repo

TITLE = ("Gated value numbering of the posterior-predictive branch: the index drawn for each event, its probability vector, the key it is drawn with and "
         "the values recorded per parameter are compared with the reference draws for a symbolic event index and symbolic parameter names.")


def check(c):
    v = inputs()
    m1, m2, mm = pos("m1min"), pos("m2min"), pos("mmax")
    names = ListV(["mass_1", "mass_ratio", "redshift"])
    for lg, mq, nobs in itertools.product((False, True), (False, True), (v["nobs"], num(3))):
        lab = f"log={lg} subpop={mq} Nobs={'symbolic' if nobs is v['nobs'] else 3}"

        def one(lg=lg, mq=mq, nobs=nobs, lab=lab):
            pe = DictV({k: arr("pe_" + k, 2) for k in ("mass_1", "mass_ratio", "redshift", "prior")})
            inj = DictV({k: arr("inj_" + k, 1) for k in ("mass_1", "mass_ratio", "redshift", "prior")})
            iw = ListV([arr("indv0", 2), arr("indv1", 2)])
            vv = dict(v, nobs=nobs)
            kw = dict(posterior_predictive_check=True, param_names=names, pedata=pe, injdata=inj, m1min=m1, m2min=m2, mmax=mm, log=lg,
                      marginal_qs=mq, indv_weights=iw if mq else None)
            it, r, fx = run_repo(c, kw, vv)
            where = c.loc(it, H)
            it2 = c.interp()
            it2.call(c.entity(it2, S + "ppc"), [v["pe"], v["inj"], nobs, names, pe, inj, m1, m2, mm, lg, mq, iw], {})
            if isinstance(r, (Raised, BaseException)):
                c.equal(f"draws [{lab}]", r, num(0), where)
                return
            ppc = [e for e in fx if e.kind != "deterministic" or "_event_" in repr(e.name)]
            c.same_sites(f"draws [{lab}]", [e for e in ppc if e.kind == "deterministic"], it2.effects, where)
        c.attempt(f"draws [{lab}]", one)

    def disabled():
        for kw in ({}, dict(posterior_predictive_check=True)):
            it, r, fx = run_repo(c, kw, v)
            n = [e for e in fx if e.kind == "deterministic" and "_event_" in repr(e.name)]
            c.holds("no draws recorded unless requested with data", not n, "", c.loc(it, H))
    c.attempt("draws disabled", disabled)
