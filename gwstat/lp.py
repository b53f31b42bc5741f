"""Contradictions among polynomial sign conditions.

Looks for a non-negative combination of the conditions, of the positive atoms
in them and of their pairwise products that vanishes identically while using a
strict one (a degree-2 certificate).  Found with a linear programme, accepted
only after exact rational verification."""
from fractions import Fraction

from . import terms as tm
from .terms import P, ZERO, add, atomP, mul, neg, scale

try:
    import numpy as np
    from scipy.optimize import linprog
except Exception:  # pragma: no cover
    linprog = None

MEMO = {}


def atoms_of(p, acc):
    for m in p.terms:
        for a, e in m:
            if a.op == "sum":
                continue
            acc[a] = None
    return acc


def contradictory(pos, zer, limit=14):
    """no valuation makes every form of pos positive and every form of zer zero"""
    if linprog is None:
        return False
    pos, zer = list(dict.fromkeys(pos)), list(dict.fromkeys(zer))
    key = (frozenset(pos), frozenset(zer))
    if key in MEMO:
        return MEMO[key]
    r = MEMO[key] = _search(pos, zer, limit)
    return r


def _search(pos, zer, limit):
    if not pos or len(pos) + len(zer) > limit:
        return False
    acc = {}
    for p in pos + zer:
        if len(p.terms) > 12:
            return False
        atoms_of(p, acc)
    strict = [(p, True) for p in pos]
    for a in acc:
        if a.pos:
            strict.append((atomP(a), True))
        elif a.op == "abs":
            strict.append((atomP(a), False))
    cols = list(strict)
    if len(strict) <= limit:
        for i in range(len(strict)):
            for j in range(i + 1):
                p = mul(strict[i][0], strict[j][0])
                if p is ZERO:
                    continue
                cols.append((p, strict[i][1] and strict[j][1]))
    cols.append((tm.ONE, True))
    for z in zer:
        for f in [tm.ONE] + [s[0] for s in strict[:6]] + zer[:3] + [atomP(a) for a in acc if not a.pos][:3]:
            p = mul(z, f)
            if p is not ZERO:
                cols.append((p, False))
                cols.append((neg(p), False))
    rows = {}
    for p, _ in cols:
        for m in p.terms:
            rows.setdefault(m, len(rows))
    if len(rows) > 400 or len(cols) > 400:
        return False
    A = np.zeros((len(rows) + 1, len(cols)))
    for j, (p, s) in enumerate(cols):
        for m, c in p.terms.items():
            A[rows[m], j] = float(c)
        if s:
            A[-1, j] = 1.0
    b = np.zeros(len(rows) + 1)
    b[-1] = 1.0
    try:
        res = linprog(np.ones(len(cols)), A_eq=A, b_eq=b, bounds=(0, None), method="highs")
    except Exception:
        return False
    if not res.success:
        return False
    lam = [Fraction(float(x)).limit_denominator(5000) if x > 1e-9 else Fraction(0) for x in res.x]
    tot = ZERO
    st = False
    for l, (p, s) in zip(lam, cols):
        if l:
            tot = add(tot, scale(p, l))
            st = st or s
    return st and tot is ZERO
