"""Deciding equality of value-graph terms.

PROVED   : the normal forms coincide under every sign assignment of the tests
           occurring in them (exact rational-function arithmetic + congruence).
REFUTED  : they differ and a valuation of the symbols separates them.
UNDECIDED: anything else (never an alarm).
"""
from fractions import Fraction
import math
import os
import random
import hashlib
from .terms import *
from . import terms as tm
from .terms import _mk, _mk_atom
from .ops import *
from .ops import _nd_atom
from . import lp, model, ops

PROVED, REFUTED, UNDECIDED = "PROVED", "REFUTED", "UNDECIDED"


# ----------------------------------------------------- condition collection

def pw_conds(x, acc=None, seen=None, deep=False):
    """condition leaves in pointwise position (and scalar leaves anywhere)"""
    if acc is None:
        acc, seen = {}, set()
    if (id(x), deep) in seen:
        return acc
    seen.add((id(x), deep))
    if isinstance(x, P):
        for m in x.terms:
            for a, e in m:
                pw_conds(a, acc, seen, deep)
                if not e.is_const():
                    pw_conds(e, acc, seen, deep)
    elif isinstance(x, C):
        for l in c_leaves(x):
            if deep and (not l.scalar or has_bv(l)):
                continue
            acc.setdefault(l.data[0] if l.kind == "sgn" else l.data, l.kind)
            pw_conds(l.data[0] if l.kind == "sgn" else l.data, acc, seen, deep)
    elif isinstance(x, T):
        pw = POINTWISE.get(x.op, ())
        for i, y in enumerate(x.args):
            if pw is None or i in pw:
                pw_conds(y, acc, seen, deep)
            else:
                pw_conds(y, acc, seen, True)
    elif isinstance(x, tuple):
        for y in x:
            pw_conds(y, acc, seen, deep)
    return acc


def has_bv(l):
    x = l.data[0] if l.kind == "sgn" else l.data
    if isinstance(x, P):
        return bool(tm.P_bvs(x))
    return bool(x.bvs)


def assume(x, key, val):
    """replace leaf key (P d or T) by val ('-','0','+' or bool)"""
    kd = isinstance(key, P)

    def fc(c):
        if c.kind == "sgn" and kd:
            if c.data[0] is key:
                return TRUE if val in c.data[1] else FALSE
        elif c.kind == "b" and not kd and c.data is key:
            return TRUE if val else FALSE
        return None

    scalar = key.scalar
    if scalar:
        rw = Rewriter(fc=fc)
    else:
        rw = Rewriter(fc=fc, pointwise_only=True)
    r = rw.any(x)
    if kd and val == "0":
        s = solve_zero(key)
        if s is not None:
            a, v = s
            if scalar:
                r = subst_atoms(r, {a: v})
            else:
                r = Rewriter(fa=lambda t: v if t is a else None, pointwise_only=True).any(r)
    if kd and val in "+-":
        # abs() of the tested difference
        absa = _T_get("abs", (key,))
        if absa is not None:
            v = key if val == "+" else neg(key)
            r = Rewriter(fa=lambda t: v if t is absa else None, pointwise_only=not scalar).any(r)
    return r


def _T_get(op_, args):
    return tm._T.get((op_, args))


def solve_zero(d):
    """d == 0 solved for one atom occurring linearly with constant coefficient"""
    best = None
    for m, c in d.terms.items():
        if len(m) == 1 and m[0][1] is ONE:
            a = m[0][0]
            if a.op in ("inf", "nan", "fmax", "pi", "num"):
                continue
            cnt = 0
            for m2 in d.terms:
                if any(contains(b, lambda t: t is a) or (not e.is_const() and contains(e, lambda t: t is a)) for b, e in m2):
                    cnt += 1
            if cnt == 1:
                pr = (0 if a.op != "sym" else 1, a.uid)
                if best is None or pr > best[0]:
                    rest = sub(d, _mk({m: c}))
                    best = (pr, a, scale(rest, -1 / c))
    return (best[1], best[2]) if best else None


# ------------------------------------------------------------ zero test

def is_zero(d, depth=0):
    if d is ZERO:
        return True
    if d.is_const():
        return False
    if depth == 0 and _rational_part(d):
        return True
    logs = [(m, c) for m, c in d.terms.items() if any(a.op == "log" for a, _ in m)]
    if depth == 0 and logs and all(sum(a.op == "log" for a, _ in m) == 1 and all(e is ONE for a, e in m if a.op == "log") for m, _ in logs):
        # d = sum k_i log u_i + r  vanishes iff prod u_i^k_i e^r = 1
        try:
            den = 1
            for _, c in logs:
                den = den * c.denominator // math.gcd(den, c.denominator)
            e = sub(tm.exp(scale(d, den)), ONE)
            return e is ZERO or _rational_part(e)
        except Blowup:
            return False
    return False


def _rational_part(d, depth=0):
    if d is ZERO:
        return True
    if d.is_const():
        return False
    # group by non-integer part of exponents of sum atoms
    sums = set()
    for m in d.terms:
        for a, e in m:
            if a.op == "sum":
                sums.add(a)
    if not sums:
        return False
    groups = {}
    for m, c in d.terms.items():
        sig = []
        for a, e in m:
            if a.op == "sum":
                k = e.terms.get((), Fraction(0))
                fl = math.floor(k)
                sig.append((a, sub(e, num(fl))))
        # atoms whose fractional signature is zero are not part of the signature
        key = frozenset((a, f) for a, f in sig if f is not ZERO)
        groups.setdefault(key, []).append((m, c))
    if len(groups) > 1 and depth > 6:
        return False
    for key, mons in groups.items():
        mins = {}
        for m, c in mons:
            here = {}
            for a, e in m:
                if a.op == "sum":
                    k = e.terms.get((), Fraction(0))
                    here[a] = math.floor(k)
            for a in sums:
                v = here.get(a, 0)
                mins[a] = min(mins.get(a, v), v)
        tot = ZERO
        for m, c in mons:
            r = None
            rest = []
            fac = num(c)
            here = {a: e for a, e in m if a.op == "sum"}
            for a, e in m:
                if a.op != "sum":
                    rest.append((a, e))
            fac = _mk({tuple(rest): c}) if rest else num(c)
            for a in sums:
                e = here.get(a, ZERO)
                k = math.floor(e.terms.get((), Fraction(0))) if e is not ZERO else 0
                up = k - mins[a]
                if up:
                    fac = mul(fac, power_int(a.args[0], up) if up <= 8 else power(a.args[0], num(up)))
            tot = add(tot, fac)
        if not (tot is ZERO):
            if any(a.op == "sum" for m in tot.terms for a, _ in m) and depth < 4:
                if _rational_part(tot, depth + 1):
                    continue
            return False
    return True


def numerator(d):
    """d times the sums it is divided by"""
    low = {}
    for m in d.terms:
        for a, e in m:
            if a.op == "sum" and e.is_const() and e.const() < 0 and e.const().denominator == 1:
                low[a] = min(low.get(a, 0), int(e.const()))
    for a, k in low.items():
        if k < -8:
            return d
        tot = ZERO
        for m, c in d.terms.items():
            e = dict(m).get(a, ZERO)
            rest = _mk({tuple((b, x) for b, x in m if b is not a): c})
            e = sub(e, num(k))
            if not e.is_const() or e.const().denominator != 1 or not 0 <= e.const() <= 16:
                return d
            tot = add(tot, mul(rest, power_int(a.args[0], int(e.const()))) if e is not ZERO else rest)
        d = tot
    return d


def multiple(d, zeros):
    """d is a combination of forms that are zero"""
    zeros = [z for z in zeros if 1 < len(z.terms) <= 12]
    if not zeros:
        return False
    try:
        d = numerator(d)
        for _ in range(6):
            if d is ZERO:
                return True
            if len(d.terms) > 60:
                return False
            best = None
            for z in zeros:
                mz, cz = next(iter(z.terms.items()))
                for m, c in d.terms.items():
                    q = mul(_mk({m: c}), power(_mk({mz: cz}), num(-1)))
                    r = sub(d, mul(q, z))
                    if best is None or len(r.terms) < len(best.terms):
                        best = r
            if best is None or len(best.terms) >= len(d.terms):
                return False
            d = best
    except Blowup:
        pass
    return d is ZERO


LINEAR = {"rsum": 0, "trapz": 0, "cumsum": 0, "diff": 0, "interp": 2, "sumover": 1}


def parallel_conflict(pos, zer):
    """forms that differ by a constant and a factor bound the same quantity: is its interval empty?"""
    lo, hi, eq = {}, {}, {}
    for forms, zero in ((pos, False), (zer, True)):
        for f in forms:
            if f.is_const():
                continue
            c0 = f.terms.get((), Fraction(0))
            m, k = min(((m, k) for m, k in f.terms.items() if m != ()), key=lambda t: tuple((a.uid, e.uid) for a, e in t[0]))
            L = scale(sub(f, num(c0)), 1 / Fraction(k))
            b = -c0 / k
            if zero:
                if eq.setdefault(L, b) != b:
                    return True
            elif k > 0:
                lo[L] = max(lo.get(L, b), b)
            else:
                hi[L] = min(hi.get(L, b), b)
    for L, b in lo.items():
        if L in hi and b >= hi[L] or L in eq and b >= eq[L]:
            return True
    return any(L in hi and b >= hi[L] for L, b in eq.items())


def infeasible(path, facts=()):
    """a small non-negative combination of the assumed signs is contradictory"""
    pos, zer = list(facts), []
    for k, v in path:
        if isinstance(k, P):
            if v == "+":
                pos.append(k)
            elif v == "-":
                pos.append(neg(k))
            elif v == "0":
                zer.append(k)
    if parallel_conflict(pos, zer):
        return True
    if not pos:
        return False
    aux = zer + [neg(z) for z in zer]
    for i, f in enumerate(pos):
        s1 = neg(f)
        if nonneg(s1):
            return True
        for j in range(i):
            s2 = sub(s1, pos[j])
            if nonneg(s2):
                return True
            for l in range(j):
                if nonneg(sub(s2, pos[l])):
                    return True
            for z in aux:
                if nonneg(add(s2, z)):
                    return True
        for z in aux:
            if nonneg(add(s1, z)):
                return True
    return False


def signs(path, facts=()):
    pos, zer = list(facts), []
    for k, v in path:
        if isinstance(k, P):
            if v == "0":
                zer.append(k)
            else:
                pos.append(k if v == "+" else neg(k))
    return pos, zer


def impossible(path, facts=()):
    """no valuation satisfies the sign conditions (degree-2 certificate)"""
    pos, zer = signs(path, facts)
    return lp.contradictory(pos, zer)


def sign_on(p, path, facts=()):
    """'+' or '-' when the sign conditions force it"""
    if p.is_const():
        return "+" if p.const() > 0 else "-" if p.const() < 0 else None
    if nonneg(p) and any(all(a.pos or a is tm.E for a, _ in m) for m in p.terms):
        return "+"
    pos, zer = signs(path, facts)
    for f in pos:
        for s, q in (("+", p), ("-", neg(p))):
            if f is q:
                return s
    for s, q in (("+", neg(p)), ("-", p)):
        # the opposite (or zero) contradicts the conditions
        if lp.contradictory(pos + [q], zer) and lp.contradictory(pos, zer + [p]):
            return s
    return None


def split_logs(x, path, facts=()):
    """log of a product whose factors have signs forced by the path -> sum of logs"""
    memo = {}

    def fa(t):
        if t.op != "log":
            return None
        if t in memo:
            return memo[t]
        memo[t] = None
        u = t.args[0]
        m = u.mono()
        if m is None:
            c, prim = tm.content(u)
            if c.mono() is None or c is ONE:
                return None
            facs = [(prim, ONE)]
            m = c.mono()
        else:
            facs = []
        k = m[0]
        if len(m[1]) + len(facs) < 2 and k in (1, -1) and k == 1:
            return None
        for a, e in m[1]:
            if a is tm.E:
                return None
            facs.append((a.args[0] if a.op == "sum" else tm.atomP(a), e))
        tot = tm.log(num(abs(k)))
        neg_ = k < 0
        for f, e in facs:
            if f.is_const():
                return None
            s = sign_on(f, path, facts)
            if s is None:
                return None
            if s == "-":
                if not (e.is_const() and e.const().denominator == 1):
                    return None
                if e.const() % 2:
                    neg_ = not neg_
                f = neg(f)
            tot = add(tot, mul(e, tm.log(f)))
        if neg_:
            return None
        memo[t] = tot
        return tot
    return ops.Rewriter(fa=fa, pointwise_only=True).any(x)


class Eq:
    def __init__(self, budget=4000, facts=()):
        self.facts = tuple(facts)
        self.budget = budget
        self.fail = []
        self.memo = {}

    # -- equality of arbitrary frozen values
    def same(self, a, b, depth=0):
        if a is b:
            return True
        if isinstance(a, P) and isinstance(b, P):
            return self.sameP(a, b, depth)
        if isinstance(a, C) or isinstance(b, C):
            return self.sameC(a, b, depth)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y, depth) for x, y in zip(a, b))
        if isinstance(a, T) and isinstance(b, T):
            return self.same_atom(a, b, depth)
        if type(a) is not type(b):
            return False
        try:
            return a == b
        except Exception:
            return False

    def same_atom(self, a, b, depth):
        if a is b:
            return True
        if a.op != b.op or len(a.args) != len(b.args) or depth > 8:
            return False
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        sv = self.fail
        self.fail = []
        r = all(self.same(x, y, depth + 1) for x, y in zip(a.args, b.args))
        self.fail = sv
        self.memo[k] = r
        self.memo[(b, a)] = r
        return r

    def sameC(self, a, b, depth):
        if isinstance(a, bool):
            a = TRUE if a else FALSE
        if isinstance(b, bool):
            b = TRUE if b else FALSE
        if isinstance(a, P):
            a = truth(a)
        if isinstance(b, P):
            b = truth(b)
        if not (isinstance(a, C) and isinstance(b, C)):
            return False
        return self.sameP(ind(a), ind(b), depth)

    def sameP(self, a, b, depth=0, path=()):
        k = ("P", a, b)
        if not path and k in self.memo:
            return self.memo[k]
        r = self._sameP(a, b, depth, path)
        if not path:
            self.memo[k] = r
        return r

    def _sameP(self, a, b, depth, path):
        if a is b:
            return True
        self.budget -= 1
        if self.budget < 0:
            raise Blowup("budget")
        conds = pw_conds((a, b))
        # drop conditions inside other conditions first: choose innermost (no nested conds)
        if conds:
            key, kind = self.pick(conds)
            # merge semantically equal tests
            vals = ("-", "0", "+") if kind == "sgn" else (True, False)
            ok = True
            for v in vals:
                if kind == "sgn" and v == "-" and key_nonneg(key):
                    continue
                a2, b2 = assume(a, key, v), assume(b, key, v)
                if a2 is b2:
                    continue
                if kind == "sgn" and infeasible(path + ((key, v),), self.facts):
                    continue
                if not self._sameP(a2, b2, depth, path + ((key, v),)):
                    ok = False
                    if depth > 0 or len(self.fail) > 12:
                        return False
            return ok
        if self.leaf(a, b, depth):
            return True
        if path or self.facts:
            a2, b2 = split_logs((a, b), path, self.facts)
            if (a2 is not a or b2 is not b) and self.leaf(a2, b2, depth):
                return True
            if multiple(sub(a2, b2), [k for k, v in path if v == "0" and isinstance(k, P)]):
                return True
            if impossible(path, self.facts) or self.contradictory(path) or self.witnessed(path):
                return True
        if depth == 0:
            self.fail.append((path, a, b))
        return False

    def witnessed(self, path):
        """the path says that nothing satisfies a test which the present element satisfies"""
        for k, v in path:
            if isinstance(k, T) and v is False and k.op == "any" and isinstance(k.args[0], P):
                e = k.args[0]
                for k2, v2 in path:
                    if k2 is not k:
                        e = assume(e, k2, v2)
                if self.surely_nonzero(e, path, 0):
                    return True
        return False

    def surely_nonzero(self, e, path, n):
        conds = pw_conds((e,))
        if not conds:
            return e.is_const() and not is_zero(e)
        if n > 6:
            return False
        key, kind = self.pick(conds)
        for v in ("-", "0", "+") if kind == "sgn" else (True, False):
            if kind == "sgn" and v == "-" and key_nonneg(key):
                continue
            e2 = assume(e, key, v)
            if self.surely_nonzero(e2, path + ((key, v),), n + 1):
                continue
            p2 = path + ((key, v),)
            if kind == "sgn" and infeasible(p2, self.facts) or impossible(p2, self.facts) or self.contradictory(p2):
                continue
            return False
        return True

    def contradictory(self, path):
        """two tests of one quantity with incompatible outcomes"""
        for i, (k, v) in enumerate(path):
            for k2, v2 in path[:i]:
                if isinstance(k, P) and isinstance(k2, P):
                    for q, w in ((k2, v2), (neg(k2), {"+": "-", "-": "+", "0": "0"}.get(v2))):
                        if v != w and self.same_quietly(k, q):
                            return True
                elif isinstance(k, T) and isinstance(k2, T):
                    if k.op == k2.op and v != v2 and self.same_atom(k, k2, 1):
                        return True
                    if {k.op, k2.op} == {"isnan", "isinf"} and v is True and v2 is True and self.same_quietly(k.args[0], k2.args[0]):
                        return True
        return False

    def same_quietly(self, a, b):
        sv, self.fail = self.fail, []
        try:
            return self.same(a, b, 1)
        finally:
            self.fail = sv

    def pick(self, conds):
        # prefer conditions that contain no other condition
        best = None
        for k, kind in conds.items():
            inner = pw_conds(k)
            inner.pop(k, None)
            n = len(inner)
            r = (n, 0 if k.scalar else 1, k.uid)
            if best is None or r < best[0]:
                best = (r, k, kind)
        return best[1], best[2]

    def leaf(self, a, b, depth):
        d = sub(a, b)
        if is_zero(d):
            return True
        if depth > 6:
            return False
        # congruence: unify atoms with semantically equal arguments
        d2 = self.unify(d, depth)
        if d2 is not d:
            if is_zero(d2):
                return True
            d = d2
        d3 = self.lin_combine(d, depth)
        if d3 is True:
            return True
        return False

    def unify(self, d, depth):
        for _ in range(4):
            atoms = {}
            exps = []
            for m in d.terms:
                for x, e in m:
                    atoms.setdefault(x.op, [])
                    if x not in atoms[x.op]:
                        atoms[x.op].append(x)
                    if not e.is_const() and e not in exps:
                        exps.append(e)
                    if x.op == "sum":
                        for m2 in x.args[0].terms:
                            for y, _ in m2:
                                atoms.setdefault(y.op, [])
                                if y not in atoms[y.op]:
                                    atoms[y.op].append(y)
            mp = {}
            for o, lst in atoms.items():
                if o in ("sym", "num", "E", "pi", "bv", "idx", "inf", "nan", "fmax") or len(lst) > 60:
                    continue
                for i in range(len(lst)):
                    for j in range(i):
                        if lst[j] in mp or lst[i] in mp:
                            continue
                        if self.same_atom(lst[i], lst[j], depth):
                            mp[lst[i]] = atomP(lst[j])
                            break
            emp = {}
            for i in range(len(exps)):
                for j in range(i):
                    if exps[j] in emp:
                        continue
                    if is_zero(sub(exps[i], exps[j])):
                        emp[exps[i]] = exps[j]
                        break
            if not mp and not emp:
                return d
            if mp:
                nd_ = subst_atoms(d, mp)
            else:
                out = ZERO
                for m, c in d.terms.items():
                    m2 = tuple((x, emp.get(e, e)) for x, e in m)
                    out = add(out, _mk({m2: c}))
                nd_ = out
            if nd_ is d:
                return d
            d = nd_
            if is_zero(d):
                return d
        return d

    def lin_combine(self, d, depth):
        """sum_i s_i * L(m_i) == L(sum s_i m_i); zero if every combined body is zero"""
        groups = {}
        rest = ZERO
        for m, c in d.terms.items():
            ls = [(x, e) for x, e in m if x.op in LINEAR and e is ONE]
            if len(ls) != 1:
                rest = add(rest, _mk({m: c}))
                continue
            x = ls[0][0]
            pos = LINEAR[x.op]
            key = (x.op,) + tuple(y for i, y in enumerate(x.args) if i != pos)
            others = tuple((y, e) for y, e in m if y is not x)
            f = _mk({others: c})
            if not f.scalar and x.op not in ("interp",):
                rest = add(rest, _mk({m: c}))
                continue
            groups.setdefault(key, []).append((f, x.args[pos]))
        if not groups or not is_zero(rest):
            return False
        # common non-scalar structure: bodies combined with their scalar factors
        for key, lst in groups.items():
            tot = ZERO
            for f, body in lst:
                tot = add(tot, mul(f, body))
            sv = self.fail
            self.fail = []
            r = self.sameP(tot, ZERO, depth + 1)
            self.fail = sv
            if not r:
                return False
        return True


def key_nonneg(key):
    return isinstance(key, P) and nonneg(key)


def nonneg(p):
    for m, c in p.terms.items():
        if c < 0:
            return False
        for a, e in m:
            if a.pos or a.op == "abs" or a is tm.E:
                continue
            if e.is_const() and e.const().denominator == 1 and e.const() % 2 == 0:
                continue
            return False
    return True


# ----------------------------------------------------------- evaluation
# Valuations of *terms* (never of repository code): used only to confirm that
# two differing normal forms really denote different values before alarming.

class Undef(Exception):
    """no value"""


class Nan(Undef):
    """not a number: a real function applied outside its domain"""


def _h(*xs):
    s = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(s, "big") / 2 ** 64


def _rnd(v):
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return repr(v)
        return f"{v:.7e}" if abs(v) > 1e-9 else "0"
    return repr(v)


class Val:
    def __init__(self, seed, domains=None, setv=None, setb=None):
        self.seed = seed
        self.dom = domains or {}
        self.setv = setv or {}     # atom -> float at inst ()
        self.setb = setb or {}     # batom T -> bool
        self.memo = {}

    def P(self, p, inst=()):
        k = (p, inst)
        if k in self.memo:
            return self.memo[k]
        tot = 0.0
        for m, c in p.terms.items():
            v = float(c)
            for a, e in m:
                if a is tm.E:
                    ev = self.P(e, inst)
                    if ev > 700:
                        raise Undef
                    v *= math.exp(ev)
                    continue
                x = self.atom(a, inst)
                if e is ONE:
                    v *= x
                else:
                    ev = self.P(e, inst)
                    try:
                        if x == 0 and ev < 0:
                            raise Undef
                        y = x ** ev
                    except (OverflowError, ZeroDivisionError, ValueError):
                        raise Undef
                    if isinstance(y, complex):
                        raise Nan
                    v *= y
            tot += v
        if math.isnan(tot) or abs(tot) > 1e250:
            raise Undef
        self.memo[k] = tot
        return tot

    def C(self, c, inst=()):
        if c.kind == "const":
            return c.data
        if c.kind == "sgn":
            v = self.P(c.data[0], inst)
            s = "0" if abs(v) < 1e-9 else ("+" if v > 0 else "-")
            return s in c.data[1]
        if c.kind == "b":
            a = c.data
            if inst == () and a in self.setb:
                return self.setb[a]
            if a.op == "isnan" or a.op == "isinf":
                try:
                    v = self.P(a.args[0], inst)
                    return False
                except Undef:
                    return False
            return _h("b", self.seed, self.key(a, inst)) < 0.5
        if c.kind == "not":
            return not self.C(c.data, inst)
        if c.kind == "and":
            return all(self.C(x, inst) for x in c.data)
        return any(self.C(x, inst) for x in c.data)

    def any(self, x, inst):
        if isinstance(x, P):
            return _rnd(self.P(x, inst))
        if isinstance(x, C):
            return self.C(x, inst)
        if isinstance(x, T):
            return self.key(x, inst)
        if isinstance(x, tuple):
            return tuple(self.any(y, inst) for y in x)
        return repr(x)

    def key(self, a, inst):
        """fingerprint of an uninterpreted application"""
        if a.op == "sym":
            return ("sym", a.args[0]) + (() if a.scalar else inst)
        insts = [inst, inst + ("u",)] if not a.scalar else [inst]
        fp = (a.op,) + tuple(self.any(y, i) for y in a.args for i in insts)
        # a composite built from scalars alone (a list of keys, a tuple of results): its parts are distinct
        return fp + (inst,) if inst and all_scalar(a.args) else fp

    def symval(self, a, inst):
        if a.scalar:
            inst = ()
        if inst == () and a in self.setv:
            return self.setv[a]
        lo, hi = self.dom.get(a.args[0] if a.op == "sym" else a.op, (0.15, 2.6))
        u = _h(self.seed, a.op, a.args if a.op == "sym" else a.uid, inst)
        v = lo + (hi - lo) * u
        if a.integer:
            v = float(round(v)) if (lo, hi) != (0.15, 2.6) else float(3 + int(u * 40))
        return v

    def atom(self, a, inst):
        k = (a, inst)
        if k in self.memo:
            return self.memo[k]
        v = self._atom(a, inst)
        if isinstance(v, float) and math.isnan(v):
            raise Undef
        self.memo[k] = v
        return v

    def _atom(self, a, inst):
        o = a.op
        if o == "sym":
            return self.symval(a, inst)
        if inst == () and a in self.setv:
            return self.setv[a]
        if o == "acc":
            return -2.2 + 4.4 * _h(self.seed, "acc", a.args, inst)
        if o == "pi":
            return math.pi
        if o == "num":
            return float(a.args[0])
        if o == "inf":
            return 1e200
        if o == "fmax":
            return 1.7e190
        if o == "nan":
            raise Undef
        if o == "sum":
            return self.P(a.args[0], inst)
        if o in ("bv", "idx"):
            for t in reversed(inst):
                if isinstance(t, tuple) and t[0] == "bv" and o == "bv" and t[1] == a.args[0]:
                    return float(t[2])
            return 1.0
        if o == "log":
            v = self.P(a.args[0], inst)
            if v < 0:
                raise Nan
            if v == 0:
                raise Undef
            return math.log(v)
        if o == "abs":
            return abs(self.P(a.args[0], inst))
        if o == "where":
            return self.P(a.args[1], inst) if self.C(a.args[0], inst) else self.P(a.args[2], inst)
        f1 = _F1.get(o)
        if f1 is not None:
            try:
                return f1(*[self.P(x, inst) for x in a.args if isinstance(x, P)])
            except (OverflowError, ZeroDivisionError):
                raise Undef
            except ValueError:
                raise Nan if o in ("arcsin", "arccos", "arctanh", "arccosh") else Undef
        if o in ("nan_to_num", "real", "astype", "stopgrad", "expand", "reshape", "transpose"):
            return self.P(a.args[0], inst)
        if o in ("rsum",):
            return sum(self.P(a.args[0], inst + (("ax", k),)) for k in range(3))
        if o == "trapz":
            t = 0.0
            for k in range(3):
                i2 = inst + (("ax", k),)
                t += self.P(a.args[0], i2) * (0.3 + _h("tz", self.any(a.args[1], i2), repr(a.args[2])))
            return t
        if o == "sumover":
            t = 0.0
            for k in range(3):
                t += self.P(a.args[1], inst + (("bv", a.args[2], k),))
            return t
        if o == "einsum":
            t = 0.0
            for k in range(3):
                v = 1.0
                for x in a.args[2]:
                    v *= self.P(x, inst + (("ax", k),))
                t += v
            return t
        if o == "index":
            base, idx = a.args
            if len(idx) == 1 and isinstance(idx[0], C):
                return self.P(base, inst)
            ii = tuple(it for it in (self.any(x, inst) for x in idx))
            if all(x is None or x == ("slice", None, None, None) for x in idx):
                return self.P(base, inst)
            return self.P(base, inst + (("ix", ii),))
        if o == "interp":
            x = self.any(a.args[0], inst)
            t = 0.0
            for k in range(2):
                i2 = ("tab", k)
                t += self.P(a.args[2], (i2,)) * (0.2 + _h("ip", x, self.any(a.args[1], (i2,)), k, repr(a.args[3:])))
            return t
        if o == "map":
            for t in reversed(inst):
                pass
            body = a.args[1]
            kk = int(_h("m", inst) * 7)
            if isinstance(body, P):
                return self.P(body, inst + (("bv", a.args[2], kk),))
        if o == "arr" and inst and isinstance(inst[-1], tuple) and inst[-1][0] == "ax":
            els = a.args[0]
            if all(isinstance(x, P) for x in els) and els:
                return self.P(els[inst[-1][1] % len(els)], inst[:-1])
        if o == "dim" or o == "size" or o == "ndim":
            lo, hi = self.dom.get("@" + o, (4, 60))
            return float(int(lo + (hi - lo) * _h(self.seed, self.key(a, ()))))
        lo, hi = 0.15, 2.6
        return lo + (hi - lo) * _h("F", self.seed if False else 0, self.key(a, inst))


def all_scalar(x):
    if isinstance(x, P):
        return x.scalar
    if isinstance(x, tuple):
        return all(all_scalar(y) for y in x)
    if isinstance(x, T):
        return x.scalar
    return not isinstance(x, C)


def _lbeta(a, b):
    return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)


_F1 = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
    "arctanh": math.atanh, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "erf": math.erf, "erfc": math.erfc,
    "gammaln": math.lgamma, "betaln": _lbeta, "floor": math.floor, "ceil": math.ceil, "arctan2": math.atan2,
    "sign": lambda v: (v > 0) - (v < 0), "max2": max, "min2": min, "arcsinh": math.asinh, "arccosh": math.acosh,
    "int": lambda v: float(int(v)), "floordiv": lambda a, b: float(a // b), "mod": lambda a, b: math.fmod(a, b),
}


def _atoms_in_conds(path):
    out = []
    for k, v in path:
        if isinstance(k, P):
            out.append((k, v))
    return out


def pw_atoms(x, acc=None):
    """atoms reached through pointwise operators, exponents included"""
    if acc is None:
        acc = set()
    if isinstance(x, P):
        for m in x.terms:
            for a, e in m:
                pw_atoms(a, acc)
                if not e.is_const():
                    pw_atoms(e, acc)
    elif isinstance(x, T) and x not in acc:
        acc.add(x)
        if x.op in POINTWISE or x.op in ("log", "abs", "nan_to_num"):
            for y in x.args:
                pw_atoms(y, acc)
    return acc


CLEANSE = ("nan_to_num", "isnan", "isinf", "isfinite")


def erase_cleansing(x):
    fc = lambda c: FALSE if c.kind == "b" and c.data.op in ("isnan", "isinf") else TRUE if c.kind == "b" and c.data.op == "isfinite" else None
    return ops.Rewriter(fa=lambda a: erase_cleansing(a.args[0]) if a.op == "nan_to_num" else None, fc=fc).any(x)


def cleansing_differs(x, y, domains):
    """x and y agree on finite data but treat nan/inf differently"""
    cx = {a for a in all_atoms(x) if a.op in CLEANSE}
    cy = {a for a in all_atoms(y) if a.op in CLEANSE}
    if not cy or (cx == cy and len(cx) == 0):
        return False
    ex, ey = erase_cleansing(x), erase_cleansing(y)
    if ex is not ey:
        try:
            if not Eq().sameP(ex, ey):
                return False
        except (Blowup, RecursionError):
            return False
    if len([a for a in all_atoms(x) if a.op in CLEANSE]) < len(cy):
        return True
    return model.differ(x, y, domains, nonfinite=True) is True


def realise(path, seed, domains):
    """look for a valuation satisfying the sign assignment"""
    rng = random.Random(seed)
    val = Val(seed, domains)
    setb = {}
    for k, v in path:
        if not isinstance(k, P):
            setb[k] = v
    setv = {}
    sg = [(k, v) for k, v in path if isinstance(k, P)] + [(k, "+") for k in domains.get("@facts", ())]
    for rnd in range(30):
        val = Val(seed, domains, dict(setv), setb)
        bad = None
        for k, v in rng.sample(sg, len(sg)) if sg else []:
            try:
                x = val.P(k)
            except Undef:
                return None
            # margins: a sign needs distance from zero, so that a test and a multiple of it cannot disagree numerically
            s = "0" if abs(x) < 1e-12 else ("+" if x > 1e-4 else "-" if x < -1e-4 else "?")
            if s != v:
                bad = (k, v, x)
                break
        if bad is None:
            return val
        k, v, x = bad
        # adjust one free symbol: secant / linear solve
        cands = [a for a in all_atoms(k) if (a.op in ("sym", "dim", "size", "ndim", "acc") or a.op.startswith("call:") or a.op in ("index", "rsum", "interp", "einsum", "rmax", "rmin", "trapz", "attr", "sample")) and True]
        tops = set()
        for m in k.terms:
            for a, e in m:
                tops.add(a)
        tops |= set(ops.roots(k)) | {a for a in pw_atoms(k) if a.op not in POINTWISE}
        cands = sorted((a for a in cands if a.op in ("sym", "acc") or a in tops), key=lambda a: a.uid)
        if not cands:
            return None
        a = rng.choice(cands)
        lo, hi = domains.get(a.args[0], (None, None)) if a.op == "sym" else (None, None)
        try:
            x0 = val.atom(a, ())
        except Undef:
            return None
        ok = False
        target = {"0": 0.0, "+": rng.uniform(0.05, 0.8), "-": -rng.uniform(0.05, 0.8)}[v]
        h = 1e-3 * (1 + abs(x0))
        cur = x0
        try:
            for it in range(25):
                f = Val(seed, domains, {**setv, a: cur}, setb).P(k) - target
                if abs(f) < 1e-12:
                    break
                g = Val(seed, domains, {**setv, a: cur + h}, setb).P(k) - target
                dfd = (g - f) / h
                if dfd == 0:
                    break
                cur = cur - f / dfd
                if not math.isfinite(cur) or abs(cur) > 1e12:
                    break
            if a.integer and math.isfinite(cur):
                cur = float(round(cur))
            if math.isfinite(cur) and abs(cur) < 1e12:
                if a.pos and cur <= 0:
                    continue
                if lo is not None and not (lo <= cur <= hi):
                    # clip inside the declared domain
                    cur = min(max(cur, lo), hi)
                setv[a] = cur
        except (Undef, OverflowError):
            continue
    return None


def sampled(path, domains, tries=1500):
    """valuations drawn at random from the declared domains that satisfy a sign assignment without equalities"""
    sg = [(k, v) for k, v in path if isinstance(k, P)] + [(k, "+") for k in domains.get("@facts", ())]
    if any(v == "0" for k, v in sg):
        return
    setb = {k: v for k, v in path if not isinstance(k, P)}
    for t in range(tries):
        val = Val(50000 + t, domains, {}, setb)
        try:
            if all((x > 1e-4 if v == "+" else x < -1e-4) for k, v in sg for x in (val.P(k),)):
                yield val
        except (Undef, OverflowError):
            continue


def separated(a, b, path, domains, tries=24, need=2):
    """count valuations realising path on which a and b differ"""
    diff_n = eq_n = 0
    wit = None
    import itertools
    more = itertools.islice(sampled(path, domains), 40)
    nan_n, nwit = 0, None
    real_only = isinstance(a, P) and all(t.op in REALOPS or t.op in _F1 for t in all_atoms((a, b)))
    for t in range(tries + 40):
        if t == tries and (diff_n or eq_n >= 8):
            break
        v = realise(path, 1000 + t, domains) if t < tries else next(more, None)
        if v is None:
            continue
        try:
            y = v.C(b) if isinstance(b, C) else v.P(b)
            x = v.C(a) if isinstance(a, C) else v.P(a)
        except Nan:
            if b is not None and not isinstance(b, C) and real_only and defined(v, b):
                nan_n += 1
                nwit = nwit or (v, float("nan"), v.P(b))
            continue
        except (Undef, OverflowError, RecursionError):
            continue
        if isinstance(x, bool) or isinstance(y, bool):
            d = x != y
        else:
            d = abs(x - y) > 1e-7 * (1e-12 + max(abs(x), abs(y))) and abs(x - y) > 1e-13
        if d:
            diff_n += 1
            if wit is None:
                wit = (v, x, y)
        else:
            eq_n += 1
        if diff_n >= need and diff_n > eq_n:
            return diff_n, eq_n, wit
        if eq_n >= 8 and diff_n == 0:
            break
    if nan_n >= 2 and diff_n == 0 and eq_n == 0:
        return nan_n, 0, nwit
    return diff_n, eq_n, wit


REALOPS = {"sym", "pi", "num", "log", "abs", "where", "sum", "E"}


def defined(v, p):
    try:
        v.P(p)
        return True
    except (Undef, OverflowError):
        return False


class Verdict:
    __slots__ = ("status", "why", "got", "want", "path", "witness", "bad")

    def __init__(self, status, why="", got=None, want=None, path=(), witness=None):
        self.status, self.why, self.got, self.want, self.path, self.witness = status, why, got, want, path, witness

    def __repr__(self):
        return f"{self.status}: {self.why}"


def show_path(path):
    out = []
    for k, v in path:
        if isinstance(k, P):
            out.append(f"{show(k, 4)} {({'-': '<0', '0': '==0', '+': '>0'})[v]}")
        else:
            out.append(f"{'' if v else 'not '}{tm.show_atom(k, 4)}")
    return " and ".join(out)


def elementwise(x):
    """constant arrays met at elementwise positions are their constant"""
    if not isinstance(x, P):
        return x

    def fa(t):
        if t.op == "zeros":
            return ZERO
        if t.op == "ones":
            return ONE
        return None if t.op in POINTWISE else tm.atomP(t)
    return ops.Rewriter(fa=fa, pointwise_only=True).P(x)


KINDS = {"float": ("float", "numbers.Number", "numbers.Real"), "int": ("int", "numbers.Number", "numbers.Real"), "array": ("np.ndarray", "jax.Array")}
TYPES = {t for v in KINDS.values() for t in v} | {"bool", "complex", "str", "list", "tuple", "dict", "set"}


def type_cases(x):
    """the consistent answers to the type tests in a term, if all of them are of symbols and of types whose members are known"""
    tests = [a for a in all_atoms(x) if a.op == "isinstance"]
    vals = {}
    for a in tests:
        v, t = a.args[0], getattr(a.args[1], "name", None) or (a.args[1][1] if isinstance(a.args[1], tuple) and a.args[1][:1] == ("ext",) else None)
        s = as_atom(v) if isinstance(v, P) else None
        if s is None or s.op != "sym" or not (s.scalar or s.nd) or t not in TYPES:
            return []
        vals.setdefault(s, []).append((a, t))
    if not 1 <= len(vals) <= 3:
        return []
    out = [{}]
    for s, ts in vals.items():
        kinds = ["array"] if not s.scalar else ["int", "array"] if s.integer else ["float", "array"]
        out = [{**d, **{a: t in KINDS[k] for a, t in ts}} for d in out for k in kinds]
    return out


def compare(got, want, domains=None, allowed_ops=None, known_ops=None):
    """got: value extracted from the repository; want: reference term"""
    cases = type_cases(got) if isinstance(got, (P, C)) and isinstance(want, (P, C)) else []
    last = None
    for d in cases:
        fix = Rewriter(fc=lambda c: (TRUE if d[c.data] else FALSE) if c.kind == "b" and c.data in d else None)
        v = compare_terms(fix.any(got), fix.any(want), domains, allowed_ops, known_ops)
        if v.status == REFUTED:
            return v
        last = v if last is None or v.status == UNDECIDED else last
    return last or compare_terms(got, want, domains, allowed_ops, known_ops)


def compare_terms(got, want, domains=None, allowed_ops=None, known_ops=None):
    domains = domains or {}
    if isinstance(got, bool):
        got = TRUE if got else FALSE
    if isinstance(want, bool):
        want = TRUE if want else FALSE
    if isinstance(got, C) and isinstance(want, P):
        got = ind(got)
    if isinstance(want, C) and isinstance(got, P):
        want = ind(want)
    if got is want:
        return Verdict(PROVED, "identical normal form")
    if isinstance(got, tuple) and isinstance(want, tuple):
        if len(got) != len(want):
            if bad_of(got):
                return Verdict(UNDECIDED, f"uninterpreted construct(s): {sorted(bad_of(got))}", got, want)
            return Verdict(REFUTED, f"structure differs: {show_any(got,3)[:200]} vs {show_any(want,3)[:200]}", got, want)
        worst = Verdict(PROVED, "componentwise")
        for x, y in zip(got, want):
            v = compare(x, y, domains, allowed_ops, known_ops)
            if v.status == REFUTED:
                return v
            if v.status == UNDECIDED:
                worst = v
        return worst
    if not (isinstance(got, (P, C)) and isinstance(want, (P, C))):
        if type(got) is type(want) and got == want:
            return Verdict(PROVED, "identical")
        if bad_of(got):
            return Verdict(UNDECIDED, f"uninterpreted construct(s): {sorted(bad_of(got))}", got, want)
        if isinstance(got, P) or isinstance(want, P):
            u = unknown_ops(got, want, known_ops)
            if u:
                return Verdict(UNDECIDED, f"operators not modelled: {sorted(u)[:5]}", got, want)
        return Verdict(REFUTED, f"{show_any(got,4)[:300]} instead of {show_any(want,4)[:300]}", got, want)
    if isinstance(got, C):
        got, want = ind(got), ind(want)
    facts = tuple(domains.get("@facts", ()))
    g2, w2 = elementwise(got), elementwise(want)
    if g2 is w2:
        return Verdict(PROVED, "identical normal form")
    if not (g2.scalar and not got.scalar and want.scalar is False):
        got, want = g2, w2
    e = Eq(facts=facts)
    why = "normal forms differ"
    try:
        if e.sameP(got, want):
            return Verdict(PROVED, "normal forms coincide under all sign assignments")
        fails = e.fail
    except (Blowup, RecursionError) as ex:
        fails = e.fail or [((), got, want)]
        why = f"comparison budget exceeded ({ex})"
    if not fails:
        fails = [((), got, want)]
    bad = bad_of(got)
    if bad:
        return Verdict(UNDECIDED, f"uninterpreted construct(s): {sorted(bad)[:4]}", got, want, fails[0][0])
    last = None
    for path, x, y in fails[:12]:
        u = unknown_ops((x, tuple(k for k, _ in path)), (y, want), known_ops)
        if u:
            last = Verdict(UNDECIDED, f"operators not modelled: {sorted(u)[:5]}", x, y, path)
            continue
        dn, en, wit = separated(x, y, path, domains)
        if dn >= 2 and dn > en or (dn >= 1 and en == 0) or dn >= 4:
            md = model.differ(x, y, domains, wit[0] if wit else None)
            if md is False and not model.strict(got, want, domains):
                last = Verdict(UNDECIDED, f"{why}; the terms agree in the finite array models", x, y, path)
                continue
            if md is None and any(a.op in model.LINALG for a in all_atoms((x, y))):
                last = Verdict(UNDECIDED, f"{why}; no array model of the matrix operations in them", x, y, path)
                continue
            if md is None and {a.op for a in all_atoms(x)} & STRUCTURAL - {a.op for a in all_atoms(y)}:
                last = Verdict(UNDECIDED, f"{why}; no array model of the rearrangements in them", x, y, path)
                continue
            cf = None
            if path or md is None:
                u = unknown_ops(got, want, known_ops)
                if u:
                    last = Verdict(UNDECIDED, f"operators not modelled: {sorted(u)[:5]}", x, y, path)
                    continue
                cf = model.confirm(got, want, path, domains, (v for v in (realise(path, 1000 + k, domains) for k in range(40)) if v is not None))
                if os.environ.get("GWSTAT_CONFIRM"):
                    print("CONFIRM", cf, "md", md, "path", bool(path))
                if cf is False:
                    last = Verdict(UNDECIDED, f"{why}; the terms agree in concrete array models", x, y, path)
                    continue
            w = ""
            if wit is not None:
                v, gx, gy = wit
                w = f"value {gx:.6g} instead of {gy:.6g}" if not isinstance(gx, bool) else f"{gx} instead of {gy}"
            return Verdict(REFUTED, "values differ" + (f" when {show_path(path)}" if path else ""), x, y, path, w)
        if model.strict(got, want, domains):
            return Verdict(REFUTED, "values differ in finite array models" + (f" when {show_path(path)}" if path else ""), x, y, path)
        if cleansing_differs(x, y, domains):
            return Verdict(REFUTED, "non-finite values are handled differently", x, y, path)
        last = Verdict(UNDECIDED, f"{why}; no separating valuation found (differ {dn}, agree {en})", x, y, path)
    return last


KNOWN_UNINT = set()
# rearrangements of arrays: a free valuation of them separates different spellings of one array
STRUCTURAL = {"index", "map", "expand", "reshape", "store", "fold", "concat", "transpose", "arr", "stack", "moveaxis"}


def unknown_ops(got, want, known=None):
    """operators in got the model knows nothing about and that want does not use"""
    w = {a.op for a in all_atoms(want)}
    out = set()
    for a in all_atoms(got):
        if a.op in w or a.op in POINTWISE or a.op in ops.BUILD or a.op in KNOWN_UNINT or (known and a.op in known):
            continue
        if a.op in ("sym", "num", "E", "pi", "inf", "nan", "fmax", "sum", "bv", "idx", "abs", "log", "where"):
            continue
        if a.op.startswith("unk:") or a.op.startswith("call:") or a.op.startswith("meth:"):
            out.add(a.op)
        elif a.op not in ("map", "arr", "fold", "mapstore"):
            out.add(a.op)
    return out
