import os

from gwstat.terms import *
from gwstat.terms import sym
from gwstat.interp import *
from gwstat.report import *
from gwstat import terms as tm, ops, eq


def ssym(name, **k):
    return sym(name, scalar=True, **k)


def pos(name, **k):
    return sym(name, scalar=True, pos=True, **k)


def arr(name, nd=1, **k):
    return sym(name, nd=nd, **k)


def both(c, it, name, target, spec, args, kwargs, sargs=None, skwargs=None, domains=None, alts=(), pick=None):
    """value of a repository function vs value of its reference"""
    f = c.entity(it, target)
    s = c.entity(it, spec)
    post = pick or (lambda v: v)
    got = lambda: post(it.call(f, list(args), dict(kwargs)))
    want = lambda: post(it.call(s, list(args if sargs is None else sargs), dict(kwargs if skwargs is None else skwargs)))
    return c.equal(name, got, want, c.loc(it, target), domains, alts)


def plain_numbers(c, name, make, values, where_of):
    """no zero division among plain Python numbers when make(it, syms) is evaluated at the given values"""
    it = c.interp()
    syms = {k: ssym(k) for k in values}
    atom = {k: next(iter(next(iter(p.terms))))[0] for k, p in syms.items()}
    it.py = PyNumbers({atom[k]: num(v) for k, v in values.items()})
    try:
        make(it, syms)
    except PyRaise as ex:
        return c.record(name, UNDECIDED, f"raised {ex.typ}", c.loc(it, where_of))
    vals = it.py.value
    hits = [(f, ln, ops.subst_atoms(tm.cand(*g), vals) if g else tm.TRUE) for f, ln, g in it.py.hits]
    bad = [(f, ln) for f, ln, g in hits if g is tm.TRUE]
    if bad:
        f, ln = bad[0]
        return c.record(name, REFUTED, f"plain numbers divide by zero (ZeroDivisionError) at line {ln}", f"{os.path.relpath(f, REPO)}:{ln}")
    if any(g is not tm.FALSE for _, _, g in hits):
        return c.record(name, UNDECIDED, "division by zero under an unresolved condition", c.loc(it, where_of))
    return c.record(name, PROVED, "no division by zero among plain numbers", c.loc(it, where_of))


def trapz_(it, y, x):
    return it.ext.call(it, "np.trapz", [y, x], {})
