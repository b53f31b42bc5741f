"""Value-graph terms in algebraic normal form.

Numbers/arrays are polynomials `P` over interned atoms `T` with symbolic exponents;
`exp`, `log`, powers, sums and products are normalised on construction, so two
expressions of the analysed source that differ only by how they are written get
the same node.  Conditions are `C` formulas over canonical sign tests.
Nothing here ever executes code of the analysed repository.
"""
from fractions import Fraction
import itertools
import math

_uid = itertools.count(1)
_T = {}
_P = {}
_C = {}


class T:
    """interned atom"""
    __slots__ = ("op", "args", "uid", "scalar", "pos", "nd", "meta", "_syms", "bad", "integer", "bvs")

    def __repr__(self):
        return show_atom(self)


POSITIVE = {"cosmo:1+DL2z"}  # scale factors


def _mk_atom(op, args, scalar=False, pos=False, nd=None, integer=False):
    # symbols of one name but another kind are different symbols
    key = (op, args) if op != "sym" else (op, args, scalar, pos, nd, integer)
    a = _T.get(key)
    if a is None:
        a = T()
        a.op, a.args, a.uid = op, args, next(_uid)
        a.scalar, a.pos, a.nd, a.integer = scalar, pos or op in POSITIVE, nd, integer
        a.meta = None
        a._syms = None
        a.bad = _calc_bad(op, args)
        a.bvs = frozenset([a]) if op == "bv" else _calc_bvs(args)
        _T[key] = a
    return a


def _calc_bvs(args):
    out = frozenset()
    for x in args:
        if isinstance(x, T):
            out |= x.bvs
        elif isinstance(x, P):
            out |= P_bvs(x)
        elif isinstance(x, C):
            for l in c_leaves(x):
                if l.kind == "sgn":
                    out |= P_bvs(l.data[0])
                else:
                    out |= l.data.bvs
        elif isinstance(x, tuple):
            out |= _calc_bvs(x)
    return out


def P_bvs(p):
    out = frozenset()
    for m in p.terms:
        for a, e in m:
            out |= a.bvs
            if e.terms and not e.is_const():
                out |= P_bvs(e)
    return out


def _calc_bad(op, args):
    """number-free description of constructs the engine could not interpret"""
    s = frozenset([op]) if op.startswith("unk:") else frozenset()
    for x in args:
        s |= bad_of(x)
    return s


def bad_of(x):
    if isinstance(x, T):
        return x.bad
    if isinstance(x, P):
        return x.bad
    if isinstance(x, C):
        return x.bad
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= bad_of(y)
        return s
    return frozenset()


class P:
    """polynomial: dict mono -> Fraction; mono = tuple((atom, exponent P), ...) sorted by atom uid"""
    __slots__ = ("terms", "uid", "bad", "scalar", "_pos", "key")

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def const(self):
        if not self.terms:
            return Fraction(0)
        return self.terms[()]

    def mono(self):
        """(coef, mono) if single monomial"""
        if len(self.terms) == 1:
            ((m, c),) = self.terms.items()
            return c, m
        return None


def _mk(terms):
    key = frozenset(terms.items())
    p = _P.get(key)
    if p is None:
        p = P()
        p.terms = terms
        p.key = key
        p.uid = next(_uid)
        bad = frozenset()
        scalar = True
        for m in terms:
            for a, e in m:
                bad |= a.bad
                scalar = scalar and a.scalar
                if e.terms and not e.is_const():
                    bad |= e.bad
                    scalar = scalar and e.scalar
        p.bad = bad
        p.scalar = scalar
        p._pos = None
        _P[key] = p
    return p


ZERO = _mk({})


def num(x):
    if isinstance(x, bool):
        x = int(x)
    f = x if isinstance(x, Fraction) else Fraction(x)
    if f == 0:
        return ZERO
    return _mk({(): f})


ONE = num(1)
MONE = num(-1)
HALF = num(Fraction(1, 2))


def fnum(x):
    """float literal -> exact decimal rational"""
    if isinstance(x, int):
        return num(x)
    if math.isinf(x):
        return INF if x > 0 else neg(INF)
    if math.isnan(x):
        return NAN
    return num(Fraction(repr(x)))


def atomP(a, e=ONE):
    return _mk({((a, e),): Fraction(1)})


def as_atom(p):
    """the atom if p is exactly one atom with exponent 1"""
    m = p.mono()
    if m and m[0] == 1 and len(m[1]) == 1 and m[1][0][1] is ONE:
        return m[1][0][0]
    return None


E = _mk_atom("E", (), scalar=True, pos=True)
PI = _mk_atom("pi", (), scalar=True, pos=True)
INF_A = _mk_atom("inf", (), scalar=True, pos=True)
NAN_A = _mk_atom("nan", (), scalar=True)
FMAX_A = _mk_atom("fmax", (), scalar=True, pos=True)
_E1 = atomP(E)
PI_P = atomP(PI)
INF = atomP(INF_A)
NAN = atomP(NAN_A)
FMAX = atomP(FMAX_A)


def sym(name, scalar=False, pos=False, nd=None, integer=False):
    a = _mk_atom("sym", (name,), scalar=scalar, pos=pos, nd=nd, integer=integer)
    return atomP(a)


def bv(i):
    return atomP(_mk_atom("bv", (i,), scalar=True, integer=True, nd=0))


# ---------------------------------------------------------------- arithmetic

def add(*ps):
    if len(ps) == 2:
        if ps[0] is ZERO:
            return ps[1]
        if ps[1] is ZERO:
            return ps[0]
    out = {}
    for p in ps:
        for m, c in p.terms.items():
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                v = v + c
                if v == 0:
                    del out[m]
                else:
                    out[m] = v
    return _mk(out)


def scale(p, f):
    if f == 0:
        return ZERO
    if f == 1:
        return p
    return _mk({m: c * f for m, c in p.terms.items()})


def neg(p):
    return scale(p, -1)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            d[a] = add(d[a], e)
        else:
            d[a] = e
    return d


_MUL_LIMIT = 200000


class Blowup(Exception):
    pass


def _finish_mono(d, c):
    """dict atom->exp (unsorted) times c -> P, normalising expandable pieces"""
    extra = None
    items = []
    for a, e in d.items():
        if e is ZERO:
            continue
        if e.is_const():
            f = e.const()
            if a.op == "sum" and f.denominator == 1 and f > 0:
                q = power_int(a.args[0], int(f))
                extra = q if extra is None else mul(extra, q)
                continue
            if a.op == "num":
                # integer base, fractional exponent: pull the integer part
                k = math.floor(f)
                if k != 0 and f.denominator != 1:
                    c = c * Fraction(a.args[0]) ** k
                    e = num(f - k)
                elif f.denominator == 1:
                    c = c * Fraction(a.args[0]) ** int(f)
                    continue
            if a.op == "abs" and f.denominator == 1 and f % 2 == 0:
                q = power_int(a.args[0], int(f))
                extra = q if extra is None else mul(extra, q)
                continue
            if a.op == "ind" and f > 0:
                e = ONE
        items.append((a, e))
    items.sort(key=lambda t: t[0].uid)
    p = _mk({tuple(items): c}) if c else ZERO
    if extra is not None:
        return mul(p, extra)
    return p


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.is_const():
        return scale(b, a.const())
    if b.is_const():
        return scale(a, b.const())
    if len(a.terms) * len(b.terms) > _MUL_LIMIT:
        raise Blowup("polynomial product too large")
    out = {}
    extra = []
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            d = _mono_mul(m1, m2)
            q = _finish_mono(d, c1 * c2)
            for m, c in q.terms.items():
                v = out.get(m)
                if v is None:
                    out[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del out[m]
                    else:
                        out[m] = v
    return _mk(out)


def prod(*ps):
    r = ONE
    for p in ps:
        r = mul(r, p)
    return r


def inv(p):
    return power(p, MONE)


def div(a, b):
    if a is b and a is not ZERO:
        return ONE
    return mul(a, inv(b))


def power_int(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return power(p, num(n))
    m = p.mono()
    if m:
        c, mm = m
        return _finish_mono({a: scale(e, n) for a, e in mm}, c ** n)
    if len(p.terms) ** n > 5000 or n > 8:
        return _sumpow(p, num(n))
    r = p
    for _ in range(n - 1):
        r = mul(r, p)
    return r


def is_pos(p):
    """certainly > 0 (given declared-positive symbols)"""
    if p._pos is None:
        ok = bool(p.terms)
        for m, c in p.terms.items():
            if c <= 0:
                ok = False
                break
            for a, e in m:
                if not a.pos and not (e.is_const() and e.const().denominator == 1 and e.const() % 2 == 0 and False):
                    ok = False
                    break
            if not ok:
                break
        p._pos = ok
    return p._pos


def content(p, positive_only=True):
    """(content P mono with positive coef, primitive P): p = content * primitive"""
    ms = list(p.terms.items())
    g = None
    for m, c in ms:
        d = {a: e for a, e in m}
        if g is None:
            g = dict(d)
        else:
            for a in list(g):
                if a not in d:
                    # exponent 0 in this monomial
                    e = g[a]
                    if e.is_const() and e.const() < 0:
                        pass
                    else:
                        del g[a]
                        continue
                else:
                    df = sub(d[a], g[a])
                    if df.is_const():
                        if df.const() < 0:
                            g[a] = d[a]
                    else:
                        del g[a]
                        continue
    # negative exponents present in other monomials only
    for m, c in ms:
        for a, e in m:
            if a not in g and e.is_const() and e.const() < 0:
                # min over monomials (missing -> 0)
                mn = Fraction(0)
                ok = True
                for m2, _ in ms:
                    e2 = dict(m2).get(a)
                    if e2 is None:
                        continue
                    if not e2.is_const():
                        ok = False
                        break
                    mn = min(mn, e2.const())
                if ok and mn < 0:
                    g[a] = num(mn)
    gc = None
    for _, c in ms:
        c = abs(c)
        gc = c if gc is None else Fraction(math.gcd(gc.numerator, c.numerator),
                                            gc.denominator * c.denominator // math.gcd(gc.denominator, c.denominator))
    cont = _mk({tuple(sorted(((a, e) for a, e in g.items() if e is not ZERO), key=lambda t: t[0].uid)): gc})
    invc = _mk({tuple((a, neg(e)) for a, e in list(cont.terms)[0]): 1 / gc})
    prim = mul(p, invc)
    return cont, prim


def lead_sign(p):
    """deterministic sign used for orientation: coefficient of the monomial of largest key"""
    best = None
    for m, c in p.terms.items():
        k = (len(m), tuple((a.uid, e.uid) for a, e in m))
        if best is None or k > best[0]:
            best = (k, c)
    return 1 if best[1] > 0 else -1


def _sum_atom(p):
    a = as_atom(p)
    if a is not None:
        return a
    return _mk_atom("sum", (p,), scalar=p.scalar, pos=is_pos(p))


def _sumpow(p, e):
    return _mk({((_sum_atom(p), e),): Fraction(1)})


_primes_cache = {}


def _factor(n):
    if n in _primes_cache:
        return _primes_cache[n]
    m, out, k = n, {}, 2
    while k * k <= m and k < 2000:
        while m % k == 0:
            out[k] = out.get(k, 0) + 1
            m //= k
        k += 1
    if m > 1:
        out[m] = out.get(m, 0) + 1
    _primes_cache[n] = out
    return out


def _num_atom(n):
    return _mk_atom("num", (n,), scalar=True, pos=True)


def num_power(f, e):
    """positive rational to a power P"""
    if e.is_const() and e.const().denominator == 1:
        k = int(e.const())
        if abs(k) < 4000:
            return num(f ** k)
    d = {}
    for pr, k in _factor(f.numerator).items():
        d[_num_atom(pr)] = scale(e, k)
    for pr, k in _factor(f.denominator).items():
        a = _num_atom(pr)
        d[a] = sub(d.get(a, ZERO), scale(e, k))
    return _finish_mono(d, Fraction(1))


def power(p, e):
    if e is ZERO:
        return ONE
    if e is ONE:
        return p
    if p is ONE:
        return ONE
    ec = e.const() if e.is_const() else None
    if p is ZERO:
        if ec is not None and ec > 0:
            return ZERO
        if ec is not None and ec < 0:
            return INF  # division by exact zero
        return op("pow0", (e,), pointwise=True)
    if ec is not None and ec.denominator == 1 and ec > 0:
        return power_int(p, int(ec))
    m = p.mono()
    if m:
        c, mm = m
        if c < 0 and not (ec is not None and ec.denominator == 1):
            if len(mm) == 0:
                # negative constant to a non-integer power
                return _sumpow(p, e) if False else atomP(_mk_atom("negpow", (p, e), scalar=e.scalar))
            return _sumpow(p, e)
        d = {}
        r = ONE
        for a, x in mm:
            ne = mul(x, e)
            if (ec is not None and ec.denominator != 1 and not a.pos and x.is_const()
                    and x.const().denominator == 1 and x.const() % 2 == 0):
                aa = absA(a)
                r = mul(r, power(aa, ne))
                continue
            if a is E:
                r = mul(r, exp(ne))
                continue
            d[a] = ne
        if c < 0:
            cc = num(c ** int(ec))
        else:
            cc = num_power(c, e)
        return mul(mul(_finish_mono(d, Fraction(1)), cc), r)
    cont, prim = content(p)
    if ec is not None and ec.denominator == 1:
        if lead_sign(prim) < 0:
            prim = neg(prim)
            s = -1 if ec % 2 else 1
        else:
            s = 1
        pr = prim.mono()
        if pr:
            return scale(mul(power(cont, e), power(prim, e)), s)
        return scale(mul(power(cont, e), _sumpow(prim, e)), s)
    if cont is ONE:
        return _sumpow(prim, e)
    # fractional/symbolic power: pull only known-positive content
    c, mm = cont.mono()
    posd = {a: x for a, x in mm if a.pos}
    negd = {a: x for a, x in mm if not a.pos}
    posp = _finish_mono(posd, c)
    rest = mul(prim, _finish_mono(negd, Fraction(1))) if negd else prim
    if rest.mono():
        return mul(power(posp, e), power(rest, e))
    return mul(power(posp, e), _sumpow(rest, e))


def sqrt(p):
    return power(p, HALF)


def absA(a):
    if a.pos or a.op == "abs":
        return atomP(a)
    return atomP(_mk_atom("abs", (atomP(a),), scalar=a.scalar))


def absP(p):
    if is_pos(p) or p is ZERO:
        return p
    m = p.mono()
    if m:
        c, mm = m
        r = num(abs(c))
        for a, e in mm:
            if a.pos or a is E:
                r = mul(r, power(atomP(a), e))
            elif e.is_const() and e.const().denominator == 1:
                k = int(e.const())
                if k % 2 == 0:
                    r = mul(r, power(atomP(a), e))
                else:
                    r = mul(r, power(absA(a) if a.op != "sum" else absP(a.args[0]), e))
            else:
                r = mul(r, power(atomP(a), e))  # non-integer power assumed >= 0
        return r
    cont, prim = content(p)
    if lead_sign(prim) < 0:
        prim = neg(prim)
    if prim.mono() is None:
        t = atomP(_mk_atom("abs", (prim,), scalar=prim.scalar))
    else:
        t = absP(prim)
    if cont is ONE:
        return t
    return mul(absP(cont), t)


def exp(p):
    """e**p, pulling u**k out of k*log(u)"""
    rest = {}
    r = ONE
    for m, c in p.terms.items():
        logs = [(a, e) for a, e in m if a.op == "log" and e is ONE]
        if len(logs) == 1:
            la = logs[0][0]
            others = tuple((a, e) for a, e in m if a is not la)
            k = _mk({others: c})
            r = mul(r, power(la.args[0], k))
            continue
        if m and any(a is INF_A for a, _ in m) and len(m) == 1:
            if c < 0:
                return ZERO
            return INF
        rest[m] = c
    if not rest:
        return r
    q = _mk(rest)
    return mul(r, _mk({((E, q),): Fraction(1)}))


def log(p):
    if p is ONE:
        return ZERO
    if p is ZERO:
        return neg(INF)
    m = p.mono()
    if m:
        c, mm = m
        if c < 0:
            return atomP(_mk_atom("log", (p,), scalar=p.scalar))
        out = ZERO
        for pr, k in _factor(c.numerator).items():
            out = add(out, scale(_logatom(_num_atom(pr)), k))
        for pr, k in _factor(c.denominator).items():
            out = sub(out, scale(_logatom(_num_atom(pr)), k))
        for a, e in mm:
            if a is E:
                out = add(out, e)
            elif a.op == "sum":
                out = add(out, mul(e, log(a.args[0]) if a.args[0].mono() is not None and False else _log_sum(a.args[0])))
            else:
                out = add(out, mul(e, _logatom(a)))
        return out
    cont, prim = content(p)
    if cont is ONE:
        return _log_sum(prim)
    if prim.mono():
        return add(log(cont), log(prim))
    return add(log(cont), _log_sum(prim))


def _logatom(a):
    if a is INF_A:
        return INF
    return atomP(_mk_atom("log", (atomP(a),), scalar=a.scalar))


def _log_sum(p):
    return atomP(_mk_atom("log", (p,), scalar=p.scalar))


# ------------------------------------------------------------- conditions

class C:
    """interned boolean formula. kind: 'const','sgn','b','and','or','not'"""
    __slots__ = ("kind", "data", "uid", "bad", "scalar")

    def __repr__(self):
        return show_c(self)


def _mkc(kind, data):
    key = (kind, data)
    c = _C.get(key)
    if c is None:
        c = C()
        c.kind, c.data, c.uid = kind, data, next(_uid)
        if kind == "const":
            c.bad, c.scalar = frozenset(), True
        elif kind == "sgn":
            c.bad, c.scalar = data[0].bad, data[0].scalar
        elif kind == "b":
            c.bad, c.scalar = data.bad, data.scalar
        elif kind == "not":
            c.bad, c.scalar = data.bad, data.scalar
        else:
            c.bad = frozenset().union(*[x.bad for x in data])
            c.scalar = all(x.scalar for x in data)
        _C[key] = c
    return c


TRUE = _mkc("const", True)
FALSE = _mkc("const", False)
_FLIP = {"-": "+", "0": "0", "+": "-"}


def sgn_cond(d, subset):
    """condition sign(d) in subset of '-0+'"""
    subset = frozenset(subset)
    if not subset:
        return FALSE
    if len(subset) == 3:
        return TRUE
    if d.is_const():
        v = d.const()
        s = "0" if v == 0 else ("+" if v > 0 else "-")
        return TRUE if s in subset else FALSE
    # infinities
    m = d.mono()
    infs = [m_ for m_ in d.terms if any(a is INF_A for a, _ in m_)]
    if len(infs) == 1 and len(infs[0]) == 1 and not any(a is NAN_A for mm in d.terms for a, _ in mm):
        s = "+" if d.terms[infs[0]] > 0 else "-"
        return TRUE if s in subset else FALSE
    d, flip = _norm_diff(d)
    if d.is_const():
        v = d.const() * (-1 if flip else 1)
        s = "0" if v == 0 else ("+" if v > 0 else "-")
        return TRUE if s in subset else FALSE
    if flip:
        subset = frozenset(_FLIP[s] for s in subset)
    if is_pos(d):
        return TRUE if "+" in subset else FALSE
    return _mkc("sgn", (d, subset))


def _norm_diff(d):
    """divide by known-positive factors; orient"""
    cont, prim = content(d)
    if cont is not ONE:
        c, mm = cont.mono()
        keep = {a: e for a, e in mm if not a.pos}
        # even powers of unknown-sign denominators are positive (when defined)
        k2 = {}
        for a, e in keep.items():
            if e.is_const() and e.const().denominator == 1 and e.const() < 0:
                # x/a <> 0  has the sign of x*a
                k2[a] = ONE if e.const() % 2 else ZERO
            else:
                k2[a] = e
        d = mul(prim, _finish_mono(k2, Fraction(1))) if k2 else prim
        if k2:
            c2, p2 = content(d)
            if c2.mono()[1] == ():
                d = scale(d, 1 / c2.const())
    m = d.mono()
    if m and len(m[1]) == 1:
        # single atom power a^e with odd e -> a ; log(u) -> u-1 ; E^p -> positive
        a, e = m[1][0]
        if a is E:
            return num(1), m[0] < 0
        if e.is_const() and e.const().denominator == 1 and e.const() % 2 == 1 and a.op == "sum":
            d = scale(a.args[0], 1 if m[0] > 0 else -1)
    if lead_sign(d) < 0:
        return neg(d), True
    return d, False


def lt(a, b):
    return sgn_cond(sub(a, b), "-")


def le(a, b):
    return sgn_cond(sub(a, b), "-0")


def gt(a, b):
    return sgn_cond(sub(a, b), "+")


def ge(a, b):
    return sgn_cond(sub(a, b), "0+")


def eqc(a, b):
    return sgn_cond(sub(a, b), "0")


def ne(a, b):
    return sgn_cond(sub(a, b), "-+")


def batom(a):
    return _mkc("b", a)


def cnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == "not":
        return c.data
    if c.kind == "sgn":
        d, s = c.data
        return _mkc("sgn", (d, frozenset("-0+") - s))
    if c.kind == "and":
        return cor(*[cnot(x) for x in c.data])
    if c.kind == "or":
        return cand(*[cnot(x) for x in c.data])
    return _mkc("not", c)


def _comb(kind, cs):
    unit, zero = (TRUE, FALSE) if kind == "and" else (FALSE, TRUE)
    out = []
    sg = {}
    def rec(c):
        if c is unit:
            return True
        if c is zero:
            return False
        if c.kind == kind:
            for x in c.data:
                if rec(x) is False:
                    return False
            return True
        if c.kind == "sgn":
            d, s = c.data
            if d in sg:
                sg[d] = (sg[d] & s) if kind == "and" else (sg[d] | s)
            else:
                sg[d] = s
            return True
        out.append(c)
        return True
    for c in cs:
        if rec(c) is False:
            return zero
    for d, s in sg.items():
        if kind == "and" and not s:
            return FALSE
        if kind == "or" and len(s) == 3:
            return TRUE
        if len(s) == 3:
            continue
        if not s:
            continue
        out.append(_mkc("sgn", (d, s)))
    s = set(out)
    for c in out:
        if cnot(c) in s:
            return zero
    # absorption
    res = []
    other = "or" if kind == "and" else "and"
    for c in s:
        if c.kind == other and any(x in s for x in c.data):
            continue
        res.append(c)
    if not res:
        return unit
    if len(res) == 1:
        return res[0]
    return _mkc(kind, tuple(sorted(res, key=lambda c: c.uid)))


def cand(*cs):
    return _comb("and", cs)


def cor(*cs):
    return _comb("or", cs)


def cxor(a, b):
    return cor(cand(a, cnot(b)), cand(cnot(a), b))


def c_leaves(c, acc=None):
    if acc is None:
        acc = []
    if c.kind in ("sgn", "b"):
        acc.append(c)
    elif c.kind == "not":
        c_leaves(c.data, acc)
    elif c.kind in ("and", "or"):
        for x in c.data:
            c_leaves(x, acc)
    return acc


def ind(c):
    """indicator 1/0 as where-atom"""
    return where(c, ONE, ZERO)


def where(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.kind == "not":
        c, a, b = c.data, b, a
    # where(c, where(c, x, y), b) -> where(c, x, b)
    aa, ba = as_atom(a), as_atom(b)
    if aa is not None and aa.op == "where" and aa.args[0] is c:
        a = aa.args[1]
    if ba is not None and ba.op == "where" and ba.args[0] is c:
        b = ba.args[2]
    if a is b:
        return a
    return atomP(_mk_atom("where", (c, a, b), scalar=c.scalar and a.scalar and b.scalar,
                          pos=is_pos(a) and is_pos(b)))


# -------------------------------------------------------- generic operators

# op -> positions of pointwise arguments (None = all)
POINTWISE = {}


def op(name, args, pointwise=None, scalar=None, pos=False, nd=None, integer=False):
    """build application of a (un)interpreted operator to frozen args"""
    if pointwise:
        POINTWISE.setdefault(name, None)
    args = tuple(args)
    if scalar is None:
        scalar = name in POINTWISE and all(_scalar_of(x) for x in args)
    return atomP(_mk_atom(name, args, scalar=scalar, pos=pos, nd=nd, integer=integer))


def _scalar_of(x):
    if isinstance(x, (P, C)):
        return x.scalar
    if isinstance(x, tuple):
        return all(_scalar_of(y) for y in x)
    return True


for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctanh", "arcsinh", "arccosh", "tanh", "sinh", "cosh",
           "erf", "erfc", "erfinv", "gammaln", "betaln", "spence", "abs", "log", "nan_to_num", "real", "imag", "floor", "ceil",
           "sign", "where", "sum", "max2", "min2", "negpow", "round", "mod", "floordiv", "arctan2", "expit", "isnan", "isinf",
           "isfinite", "gamma", "betainc", "i0", "ndtr", "ndtri", "astype", "stopgrad", "pow0", "case", "clipop", "logaddexp", "int", "gammainc", "xlogy", "hypot"):
    POINTWISE[_n] = None
POINTWISE["interp"] = (0,)

# ------------------------------------------------------------- printing

def show(p, depth=6):
    if not isinstance(p, P):
        return show_any(p, depth)
    if not p.terms:
        return "0"
    out = []
    for m, c in sorted(p.terms.items(), key=lambda t: tuple(a.uid for a, _ in t[0])):
        fs = []
        for a, e in m:
            s = show_atom(a, depth - 1)
            if e is not ONE:
                es = show(e, depth - 1)
                s = f"{s}^{es}" if e.is_const() and e.const().denominator == 1 and e.const() > 0 else f"{s}^({es})"
            fs.append(s)
        cs = str(c) if c.denominator == 1 or abs(c.denominator) < 10000 else repr(float(c))
        if not fs:
            out.append(cs)
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append(cs + "*" + "*".join(fs))
    s = " + ".join(out).replace("+ -", "- ")
    return s


def show_any(x, depth=6):
    if depth <= 0:
        return "…"
    if isinstance(x, P):
        return show(x, depth)
    if isinstance(x, C):
        return show_c(x, depth)
    if isinstance(x, T):
        return show_atom(x, depth)
    if isinstance(x, tuple):
        return "(" + ", ".join(show_any(y, depth - 1) for y in x) + ")"
    return repr(x)


def show_atom(a, depth=6):
    if depth <= 0:
        return "…"
    if a.op == "sym":
        return str(a.args[0])
    if a.op in ("E", "pi", "inf", "nan"):
        return {"E": "e", "fmax": "FMAX"}.get(a.op, a.op)
    if a.op == "fmax":
        return "FMAX"
    if a.op == "bv":
        return f"i{a.args[0]}"
    if a.op == "num":
        return str(a.args[0])
    if a.op == "sum":
        return "(" + show(a.args[0], depth - 1) + ")"
    return a.op + "(" + ", ".join(show_any(x, depth - 1) for x in a.args) + ")"


_REL = {"-": "<0", "-0": "<=0", "+": ">0", "0+": ">=0", "0": "==0", "-+": "!=0"}


def show_c(c, depth=6):
    if depth <= 0:
        return "…"
    if c.kind == "const":
        return str(c.data)
    if c.kind == "sgn":
        s = "".join(x for x in "-0+" if x in c.data[1])
        return f"[{show(c.data[0], depth-1)} {_REL[s]}]"
    if c.kind == "b":
        return show_atom(c.data, depth - 1)
    if c.kind == "not":
        return "~" + show_c(c.data, depth - 1)
    return "(" + (" & " if c.kind == "and" else " | ").join(show_c(x, depth - 1) for x in c.data) + ")"
