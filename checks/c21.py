"""C21: what lies between the sampled parameters and the likelihood can be traced by JAX."""
import importlib
import os

from gwstat import report
from gwstat.report import Check, force
from gwstat.trace import Traced

TITLE = ("Dependence analysis of the interpreted program: which values depend on a sampled parameter, and every operation given one of them: numpy/scipy/math "
         "calls, float()/int()/bool(), built-in max/min and Python decisions need the number behind a traced value and are violations; jax calls are not")
ASSUMPTIONS = ("A parameter is traced where it reaches a density, a model call or the likelihood; arguments of constructors (data, bounds, numbers of splines) are not.",)

ONLY = lambda *ns: (lambda n: n in ns)
BUT = lambda *ns: (lambda n: n not in ns)
RUNS = {
    "c01": ONLY("weights"),
    "c02": ONLY("pe_weights", "inj_weights", "pe_by_subpop", "pop_frac"),
    "c04": ONLY("coefs"),
    "c05": ONLY("coefs", "coefs1", "coefs2", "alpha", "beta", "peak_frac", "peak_mean", "peak_sd"),
    "c06": BUT("sgn", "floor", "k", "L"),
    "c07": ONLY("al", "al2", "alpha", "be", "be2", "beta", "cs", "delta", "lam", "lamb", "mpp", "sig", "sig2", "sigpp", "vs", "xi", "xi2", "fall"),
    "c08": ONLY("x", "q", "alpha", "lamb", "cs", "amin", "amax", "inv_var"),
    "c09": ONLY("cs", "coefs"),
    "c16": ONLY(),
    "c17": ONLY(),
}


class Follow(Check):
    """runs the programs another property is decided on, without judging their values"""
    history = False

    def __init__(self, pid, syms):
        super().__init__(pid)
        self.syms = syms
        self.known = []

    def interp(self, opaque=()):
        it = super().interp(opaque)
        it.traced = Traced(self.syms)
        return it

    def record(self, *a, **k):
        return None

    def equal(self, name, got, want, *a, **k):
        force(got)

    def same_sites(self, *a, **k):
        pass

    def alt(self, *a, **k):
        return None


def check(c):
    for mod, syms in RUNS.items():
        m = importlib.import_module("checks." + mod)
        f = Follow(mod.upper(), syms)
        c.attempt(f"programs of {mod.upper()}", lambda: m.check(f))
        hits, seen = {}, set()
        for it in f._its:
            hits.update(it.traced.hits)
            seen |= it.traced.seen
        c._its += f._its
        rel = lambda p: os.path.relpath(p, report.REPO)
        bad = {}
        for p, l, fn, what in hits:
            bad.setdefault((rel(p), fn), []).append((l, what))
        for p, fn in sorted({(rel(p), fn) for p, l, fn, n in seen} | set(bad)):
            w = bad.get((p, fn), [])
            l = min(w)[0] if w else min(l for q, l, g, n in seen if (rel(q), g) == (p, fn))
            c.holds(f"{fn} can be traced [{mod.upper()}]", not w, "; ".join(f"line {l}: {x} needs the value of a sampled parameter" for l, x in sorted(w)[:4]), f"{p}:{l} {fn}")
