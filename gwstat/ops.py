"""Array operators on terms: linear reductions, indexing, maps, shapes."""
from fractions import Fraction
from .terms import *
from . import terms as tm
from .terms import _mk, _mk_atom, _finish_mono

BUILD = {}


def builder(name):
    def deco(f):
        BUILD[name] = f
        return f
    return deco


# ------------------------------------------------------------------ rewriting

def rebuild(a, args):
    o = a.op
    if o == "log":
        return log(args[0])
    if o == "abs":
        return absP(args[0])
    if o == "sum":
        return args[0]
    if o == "where":
        return where(*args)
    if o in BUILD:
        return BUILD[o](*args)
    na = _mk_atom(o, tuple(args), scalar=a.scalar, pos=a.pos, nd=a.nd, integer=a.integer)
    return atomP(na)


class Rewriter:
    """bottom-up rewriting; fa(atom)->P or None to recurse; fc(cond leaf)->C or None"""

    def __init__(self, fa=None, fc=None, pointwise_only=False, enter=None):
        self.fa, self.fc = fa, fc
        self.pw = pointwise_only
        self.memo = {}
        self.enter = enter

    def any(self, x):
        if isinstance(x, P):
            return self.P(x)
        if isinstance(x, C):
            return self.C(x)
        if isinstance(x, T):
            r = self.atom(x)
            if isinstance(r, P):
                b = as_atom(r)
                return b if b is not None else r
            return r
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        return x

    def atom(self, a):
        k = ("a", a)
        if k in self.memo:
            return self.memo[k]
        r = None
        if self.fa is not None:
            r = self.fa(a)
        if r is None:
            if not a.args:
                r = atomP(a)
            else:
                nargs = []
                ch = False
                pwpos = POINTWISE.get(a.op, ()) if self.pw else None
                for i, x in enumerate(a.args):
                    if self.pw and pwpos is not None and i not in pwpos:
                        y = x if self.enter is None else self.enter.any(x)
                    else:
                        y = self.any(x)
                    ch = ch or (y is not x and y != x)
                    nargs.append(y)
                r = rebuild(a, nargs) if ch else atomP(a)
        self.memo[k] = r
        return r

    def P(self, p):
        k = ("p", p)
        if k in self.memo:
            return self.memo[k]
        out = None
        changed = False
        acc = ZERO
        for m, c in p.terms.items():
            r = num(c)
            mch = False
            parts = []
            for a, e in m:
                na = self.atom(a)
                ne = e if e.is_const() else self.P(e)
                if ne is not e or as_atom(na) is not a:
                    mch = True
                parts.append((a, na, ne))
            if not mch:
                acc = add(acc, _mk({m: c}))
                continue
            changed = True
            for a, na, ne in parts:
                if a is tm.E:
                    r = mul(r, exp(ne))
                else:
                    r = mul(r, power(na, ne))
            acc = add(acc, r)
        if not changed:
            acc = p
        self.memo[k] = acc
        return acc

    def C(self, c):
        k = ("c", c)
        if k in self.memo:
            return self.memo[k]
        r = None
        if c.kind in ("sgn", "b") and self.fc is not None:
            r = self.fc(c)
        if r is None:
            if c.kind == "sgn":
                d = self.P(c.data[0])
                r = c if d is c.data[0] else sgn_cond(d, c.data[1])
            elif c.kind == "b":
                n = self.atom(c.data)
                if isinstance(n, C):
                    r = n
                else:
                    na = as_atom(n)
                    r = c if na is c.data else truth(n)
            elif c.kind == "not":
                r = cnot(self.C(c.data))
            elif c.kind == "and":
                r = cand(*[self.C(x) for x in c.data])
            elif c.kind == "or":
                r = cor(*[self.C(x) for x in c.data])
            else:
                r = c
        self.memo[k] = r
        return r


def truth(p):
    """numeric term used as a condition"""
    if isinstance(p, C):
        return p
    if p.is_const():
        return TRUE if p.const() != 0 else FALSE
    a = as_atom(p)
    if a is not None:
        if a.op == "where":
            c, x, y = a.args
            return cor(cand(c, truth(x)), cand(cnot(c), truth(y)))
        if a.op == "bool2num":
            return a.args[0]
        return batom(a)
    return ne(p, ZERO)


def contains(x, pred, memo=None):
    """does any atom inside x satisfy pred"""
    if memo is None:
        memo = {}
    if isinstance(x, T):
        if x in memo:
            return memo[x]
        memo[x] = False
        r = pred(x) or any(contains(y, pred, memo) for y in x.args)
        memo[x] = r
        return r
    if isinstance(x, P):
        if x in memo:
            return memo[x]
        r = False
        for m in x.terms:
            for a, e in m:
                if contains(a, pred, memo) or (not e.is_const() and contains(e, pred, memo)):
                    r = True
                    break
            if r:
                break
        memo[x] = r
        return r
    if isinstance(x, C):
        return any(contains(l.data[0] if l.kind == "sgn" else l.data, pred, memo) for l in c_leaves(x))
    if isinstance(x, tuple):
        return any(contains(y, pred, memo) for y in x)
    return False


def all_atoms(x, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if isinstance(x, T):
        if x in acc:
            return acc
        acc.add(x)
        for y in x.args:
            all_atoms(y, acc, seen)
    elif isinstance(x, P):
        if x in seen:
            return acc
        seen.add(x)
        for m in x.terms:
            for a, e in m:
                all_atoms(a, acc, seen)
                if not e.is_const():
                    all_atoms(e, acc, seen)
    elif isinstance(x, C):
        for l in c_leaves(x):
            all_atoms(l.data[0] if l.kind == "sgn" else l.data, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            all_atoms(y, acc, seen)
    return acc


def subst_atoms(x, mapping):
    """mapping: T -> P"""
    if not mapping:
        return x
    return Rewriter(fa=lambda a: mapping.get(a)).any(x)


# ------------------------------------------------------------------ ranks

def nd_of(x):
    """rank if known"""
    if isinstance(x, T):
        return _nd_atom(x)
    if isinstance(x, C):
        best = 0
        for l in c_leaves(x):
            n = nd_of(l.data[0] if l.kind == "sgn" else l.data)
            if n is None:
                return None
            best = max(best, n)
        return best
    if not isinstance(x, P):
        return None
    best = 0
    for m in x.terms:
        for a, e in m:
            n = _nd_atom(a)
            if n is None:
                return None
            best = max(best, n)
            if not e.is_const():
                n = nd_of(e)
                if n is None:
                    return None
                best = max(best, n)
    return best


def _nd_atom(a):
    if a.nd is not None:
        return a.nd
    if a.scalar:
        return 0
    pw = POINTWISE.get(a.op, ())
    if a.op in POINTWISE:
        best = 0
        for i, x in enumerate(a.args):
            if pw is None or i in pw:
                if isinstance(x, (P, C)):
                    n = nd_of(x)
                    if n is None:
                        return None
                    best = max(best, n)
        return best
    return None


def roots(x, acc=None):
    """non-scalar atoms in pointwise position"""
    if acc is None:
        acc = []
    if isinstance(x, P):
        for m in x.terms:
            for a, e in m:
                roots(a, acc)
                if not e.is_const():
                    roots(e, acc)
    elif isinstance(x, C):
        for l in c_leaves(x):
            roots(l.data[0] if l.kind == "sgn" else l.data, acc)
    elif isinstance(x, T):
        if x.scalar:
            return acc
        if x.op in POINTWISE:
            pw = POINTWISE[x.op]
            for i, y in enumerate(x.args):
                if pw is None or i in pw:
                    if isinstance(y, (P, C)):
                        roots(y, acc)
        else:
            acc.append(x)
    return acc


@builder("dim")
def dim(x, k):
    """size of axis k (python int)"""
    if isinstance(k, P):
        k = int(k.const())
    if isinstance(x, T):
        x = atomP(x)
    nd = nd_of(x)
    if nd is not None and k < 0:
        k += nd
    a = as_atom(x) if isinstance(x, P) else None
    if a is not None:
        r = _dim_atom(a, k)
        if r is not None:
            return r
    rs = roots(x)
    if rs:
        nds = [(_nd_atom(r)) for r in rs]
        if all(n is not None for n in nds):
            mx = max(nds)
            rs = [r for r, n in zip(rs, nds) if n == mx]
        # expand()ed operands broadcast: ignore size-1 axes
        cands = [r for r in rs if r.op != "expand"]
        if not cands and k >= 0:
            ds = [d for d in (_dim_atom(r, k) for r in rs) if d is not None and d is not ONE]
            if ds:
                return ds[0]
        # arrays combined elementwise have one size: name it after the oldest of the arrays it is a size of
        ds = []
        for r in cands or rs:
            if r is a:
                continue
            d = _dim_atom(r, k)
            d = op("dim", (atomP(r), k), scalar=True, pos=True, nd=0, integer=True) if d is None else d
            da = as_atom(d)
            b = as_atom(da.args[0]) if da is not None and da.op == "dim" and isinstance(da.args[0], P) else None
            ds.append((b.uid if b is not None else r.uid, r.uid, d))
        if ds:
            return min(ds, key=lambda t: t[:2])[2]
    if a is None and isinstance(x, (P, C)) and not rs:
        return op("dim", (x, k), scalar=True, pos=True, nd=0, integer=True)
    return op("dim", (x, k), scalar=True, pos=True, nd=0, integer=True)


LENGTHS = {}  # declared lengths of symbols (columns or rows of one table)


def _dim_atom(a, k):
    o = a.op
    if o == "sym" and (k == 0 or k == -1 and _nd_atom(a) == 1) and a in LENGTHS:
        return LENGTHS[a]
    if o in ("linspace", "logspace", "geomspace") and k in (0, -1):
        return a.args[2]
    if o in ("zeros", "ones", "full", "empty"):
        s = a.args[0]
        if isinstance(s, tuple):
            s = s[1:] if s and s[0] in ("tuple", "list") else s
            try:
                v = s[k]
                return v if isinstance(v, P) else None
            except IndexError:
                return None
        if isinstance(s, P) and k in (0, -1):
            return s
        return None
    if o == "expand" and isinstance(a.args[1], int) and a.args[1] >= 0 and k >= 0:
        j = a.args[1]
        return ONE if k == j else dim(a.args[0], k if k < j else k - 1)
    if o == "map":
        if k == 0:
            return a.args[0]
        if k > 0:
            # rows
            body = a.args[1]
            if isinstance(body, P):
                d = dim(body, k - 1)
                if not contains(d, lambda t: t.op == "bv"):
                    return d
        return None
    if o == "nprand:choice" and k in (0, -1) and len(a.args) == 5 and isinstance(a.args[2], P):
        return a.args[2]
    if o == "meshgrid":
        xs, which = a.args
        # default indexing xy: shape (len(y), len(x))
        return dim(xs[1] if k == 0 else xs[0], 0)
    if o == "diff" and k in (0, -1) and nd_of(a) == 1:
        return sub(dim(a.args[0], 0), a.args[1])
    if o == "rsum" and isinstance(a.args[1], int) and k >= 0:
        return dim(a.args[0], k if k < a.args[1] else k + 1)
    if o == "arange":
        if a.args[2] is ONE:
            return sub(a.args[1], a.args[0])
        return None
    if o in ("cumsum", "flip", "sort", "transposed1"):
        return dim(a.args[0], k)
    if o == "reshape":
        s = a.args[1]
        if isinstance(s, tuple):
            s = s[1:] if s and s[0] in ("tuple", "list") else s
            if -len(s) <= k < len(s) and isinstance(s[k], P) and s[k] is not MONE:
                return s[k]
        return None
    if o == "arr":
        if k == 0:
            return num(len(a.args[0]))
        if k > 0 and a.args[0] and isinstance(a.args[0][0], P):
            return dim(a.args[0][0], k - 1)
        return None
    if o == "concat" and k in (0, -1) and len(a.args) > 1 and a.args[1] in (0, -1):
        tot = ZERO
        for p in a.args[0]:
            tot = add(tot, dim(p, 0))
        return tot
    if o == "index":
        base, idx = a.args
        if len(idx) == 1 and k in (0, -1) and isinstance(idx[0], C) and nd_of(base) == 1:
            return rsum(idx[0])
        if len(idx) == 1 and k in (0, -1) and isinstance(idx[0], P) and nd_of(idx[0]) == 1 and nd_of(base) == 1:
            return dim(idx[0], 0)
        if len(idx) == 1 and k == 0 and isinstance(idx[0], tuple) and idx[0][:1] == ("slice",):
            n = _constlen(base)
            bd = slice_bounds(idx[0], n) if n is not None else None
            return num(len(range(*bd))) if bd is not None else None
        nk = k
        if k >= 0:
            j = 0
            for it in idx:
                if isinstance(it, P) and it.scalar:
                    nk += 1
                    continue
                if it is None:
                    return None
                if it == ("slice", None, None, None):
                    if nk == j + (nk - k):
                        pass
                    continue
                return None
            if all(isinstance(it, P) and it.scalar for it in idx):
                return dim(base, k + len(idx))
        return None
    if o == "store":
        return dim(a.args[0], k)
    return None


def ndim(x):
    n = nd_of(x)
    if n is not None:
        return num(n)
    if isinstance(x, T):
        x = atomP(x)
    a = as_atom(x) if isinstance(x, P) else None
    rs = roots(x)
    if rs:
        r = min(rs, key=lambda r: r.uid)
        if r is not a:
            x = atomP(r)
    return op("ndim", (x,), scalar=True, nd=0, integer=True)


def size(x):
    n = nd_of(x)
    if n is not None:
        r = ONE
        for k in range(n):
            r = mul(r, dim(x, k))
        return r
    rs = roots(x)
    if rs:
        x = atomP(min(rs, key=lambda r: r.uid))
    return op("size", (x,), scalar=True, pos=True, nd=0, integer=True)


BUILD["size"] = size
BUILD["ndim"] = ndim

# ---------------------------------------------------------- linear operators


def lin_split(p):
    """yield (scalar factor P, array factor P(coef 1)) per monomial"""
    for m, c in p.terms.items():
        sc, ar = [], []
        for a, e in m:
            if a.scalar and (e.is_const() or e.scalar):
                sc.append((a, e))
            else:
                ar.append((a, e))
        yield _mk({tuple(sc): c}), _mk({tuple(ar): Fraction(1)})


def norm_axis(p, axis):
    nd = nd_of(p)
    if axis is None:
        return None
    if isinstance(axis, P) and axis.is_const():
        axis = int(axis.const())
    if isinstance(axis, tuple):
        if axis and axis[0] in ("tuple", "list"):
            axis = axis[1:]
        ax = tuple(sorted(int(x.const()) if isinstance(x, P) else x for x in axis))
        if nd is not None:
            ax = tuple(sorted(x % nd for x in ax))
            if len(ax) == nd:
                return None
        return ax if len(ax) != 1 else ax[0]
    if nd is not None and isinstance(axis, int):
        if nd == 1:
            return None
        if axis < 0:
            axis += nd
    return axis


def rsum(p, axis=None):
    if isinstance(p, C):
        p = ind(p)
    a = as_atom(p)
    if a is not None and a.op == "map" and axis in (0, None):
        body = a.args[1]
        if isinstance(body, P):
            if axis == 0 or (nd_of(body) == 0) or body.scalar:
                return sumover(a.args[0], body, a.args[2])
    if a is not None and a.op == "arr" and (axis == 0 or (axis is None and all(isinstance(x, P) and nd_of(x) == 0 for x in a.args[0]))):
        if all(isinstance(x, P) for x in a.args[0]):
            return add(ZERO, *a.args[0])
    if a is not None and a.op == "sumover" and axis is None and isinstance(a.args[1], P) and not a.scalar:
        return sumover(a.args[0], rsum(a.args[1], None), a.args[2])
    ax = norm_axis(p, axis)
    nd = nd_of(p)
    out = ZERO
    for s, ar in lin_split(p):
        if ar is ONE:
            n = size(p) if ax is None else (dim(p, ax) if isinstance(ax, int) else op("sizeax", (p, ax), scalar=True, pos=True))
            if p.is_const():
                n = ONE
            out = add(out, mul(s, n))
        else:
            rnd = None
            if ax is None:
                rnd = 0
            elif nd is not None and isinstance(ax, int):
                rnd = nd - 1
            out = add(out, mul(s, op("rsum", (ar, ax), scalar=(ax is None), nd=rnd, pos=is_pos(ar))))
    return out


BUILD["rsum"] = rsum


def rmean(p, axis=None):
    ax = norm_axis(p, axis)
    n = size(p) if ax is None else dim(p, ax)
    return div(rsum(p, axis), n)


def trapz(y, x, axis=-1):
    if isinstance(y, C):
        y = ind(y)
    nd = nd_of(y)
    if isinstance(axis, P):
        axis = int(axis.const())
    if nd is not None and axis >= 0 and nd > 0:
        axis -= nd
    out = ZERO
    for s, ar in lin_split(y):
        sc = (nd == 1) or (ar is ONE)
        out = add(out, mul(s, op("trapz", (ar, x, axis), scalar=sc, nd=(nd - 1 if nd else None), pos=is_pos(ar))))
    return out


BUILD["trapz"] = trapz


def mk_linear(name, argpos=0, nd_fn=None):
    def build(*args):
        y = args[argpos]
        if isinstance(y, C):
            y = ind(y)
        out = ZERO
        for s, ar in lin_split(y):
            na = list(args)
            na[argpos] = ar
            out = add(out, mul(s, op(name, tuple(na), nd=nd_fn(*na) if nd_fn else None)))
        return out
    BUILD[name] = build
    return build


cumsum = mk_linear("cumsum", 0, lambda p, ax: nd_of(p))


@builder("diff")
def diff(p, n=ONE):
    if n is ZERO:
        return p
    out = ZERO
    for s, ar in lin_split(p):
        if ar is ONE:
            continue
        if n.is_const() and n.const() > 1 and False:
            pass
        # diff(diff(x,a),b) -> diff(x,a+b)
        aa = as_atom(ar)
        if aa is not None and aa.op == "diff":
            out = add(out, mul(s, op("diff", (aa.args[0], add(aa.args[1], n)), nd=nd_of(aa))))
        else:
            out = add(out, mul(s, op("diff", (ar, n), nd=nd_of(ar))))
    return out


@builder("interp")
def interp(x, xp, fp, *rest):
    if isinstance(x, C):
        x = ind(x)
    out = ZERO
    if rest:
        return op("interp", (x, xp, fp) + rest, scalar=x.scalar, nd=nd_of(x))
    for s, ar in lin_split(fp):
        out = add(out, mul(s, op("interp", (x, xp, ar), scalar=x.scalar, nd=nd_of(x))))
    return out


def einsum(spec, *ops_):
    spec = spec.replace(" ", "")
    if "->" not in spec:
        ins_ = spec.split(",")
        cnt = {}
        for s in ins_:
            for ch in s.replace("...", ""):
                cnt[ch] = cnt.get(ch, 0) + 1
        outp = "".join(sorted(ch for ch, k in cnt.items() if k == 1))
        if any("..." in s for s in ins_):
            outp = "..." + outp
        spec = spec + "->" + outp
    ins, outp = spec.split("->")
    return einsum_n(ins, outp, tuple(ops_))


@builder("einsum")
def einsum_n(ins, outp, ops_):
    subs = ins.split(",")
    items = list(zip(subs, ops_))
    sc = ONE
    # bilinear: expand sums only over scalars factors of single monomials
    new = []
    for s, o in items:
        if isinstance(o, C):
            o = ind(o)
        m = o.mono()
        if m:
            parts = list(lin_split(o))
            f, ar = parts[0]
            sc = mul(sc, f)
            o = ar
        else:
            cont, prim = content(o)
            c, mm = cont.mono()
            scm = tuple((a, e) for a, e in mm if a.scalar)
            if scm or c != 1:
                f = _mk({scm: c})
                sc = mul(sc, f)
                o = mul(o, inv(f))
        new.append((s, o))
    if outp == "" and len(set(s for s, _ in new)) == 1 and "..." not in new[0][0]:
        pr = ONE
        for _, o in new:
            pr = mul(pr, o)
        return mul(sc, rsum(pr, None))
    # letter summed that appears in one operand only etc: leave to the operator
    best = None
    import itertools as it
    new.sort(key=lambda t: (t[1].uid, t[0]))
    ren = {}
    def rn(s):
        out, i = "", 0
        while i < len(s):
            if s[i] == ".":
                out += "."
            else:
                if s[i] not in ren:
                    ren[s[i]] = chr(97 + len(ren))
                out += ren[s[i]]
            i += 1
        return out
    nins = ",".join(rn(s) for s, _ in new)
    nout = rn(outp)
    nd = None
    if "..." not in nout:
        nd = len(nout)
    else:
        # ellipsis rank from an operand of known rank
        for s, o in new:
            if "..." in s and nd_of(o) is not None:
                nd = len(nout) - 3 + nd_of(o) - (len(s) - 3)
    return mul(sc, op("einsum", (nins, nout, tuple(o for _, o in new)), nd=nd, scalar=(nd == 0)))


# ---------------------------------------------------------------- indexing

FULL = ("slice", None, None, None)


def is_full(it):
    return it == FULL


def _constlen(x):
    d = dim(x, 0)
    return int(d.const()) if isinstance(d, P) and d.is_const() and d.const().denominator == 1 else None


def slice_bounds(sl, n):
    """python (start, stop, step) of a constant slice over n elements"""
    v = []
    for y in sl[1:]:
        if y is None:
            v.append(None)
        elif isinstance(y, P) and y.is_const() and y.const().denominator == 1:
            v.append(int(y.const()))
        else:
            return None
    if v[2] == 0:
        return None
    return slice(*v).indices(n)


def idx_nonneg(p, conds=()):
    """index provably not negative (so that it does not wrap around)"""
    if not isinstance(p, P):
        return False
    a = as_atom(p)
    if a is not None and a.op == "where":
        return idx_nonneg(a.args[1], conds + (a.args[0],)) and idx_nonneg(a.args[2], conds + (cnot(a.args[0]),))
    if p.is_const():
        return p.const() >= 0
    for c in conds:
        for l in (c.data if c.kind == "and" else (c,)):
            if isinstance(l, C) and l.kind == "sgn":
                d, sg = l.data
                if (d is p and "-" not in sg) or (d is neg(p) and "+" not in sg):
                    return True
    ok = True
    for m, k in p.terms.items():
        if m == ():
            continue
        if not (k > 0 and len(m) == 1 and (m[0][0].op in ("dim", "size", "bv", "idx") or m[0][0].pos)):
            ok = False
    return ok and (p.terms.get((), 0) >= 0 or all(m == () or m[0][0].op in ("dim", "size") for m in p.terms))


def _const_elem(a, k, rest):
    """element k of a composite array whose layout is known"""
    if a.op == "concat" and a.args[1] == 0:
        parts = a.args[0]
        if k >= 0:
            for p in parts:
                n = _constlen(p)
                if n is None:
                    return None
                if k < n:
                    return index(p, (num(k),) + tuple(rest))
                k -= n
        else:
            for p in reversed(parts):
                n = _constlen(p)
                if n is None:
                    return None
                if -k <= n:
                    return index(p, (num(k),) + tuple(rest))
                k += n
        return None
    if a.op == "index" and len(a.args[1]) == 1 and isinstance(a.args[1][0], tuple) and a.args[1][0][:1] == ("slice",):
        b, (sl,) = a.args
        n = _constlen(b)
        if n is not None:
            bd = slice_bounds(sl, n)
            if bd is None:
                return None
            r = range(*bd)
            return index(b, (num(r[k]),) + tuple(rest)) if -len(r) <= k < len(r) else None
        _, lo, hi, st = sl
        c = lambda y: isinstance(y, P) and y.is_const() and y.const().denominator == 1
        if (st is None or st is ONE) and k >= 0 and (lo is None or c(lo) and lo.const() >= 0):
            return index(b, (num((0 if lo is None else int(lo.const())) + k),) + tuple(rest))
        if (st is None or st is ONE) and k < 0 and (hi is None or c(hi) and hi.const() < 0):
            return index(b, (num((0 if hi is None else int(hi.const())) + k),) + tuple(rest))
        if st is MONE and lo is None and hi is None:
            return index(b, (num(-1 - k),) + tuple(rest))
        return None
    if a.op == "diag" and len(rest) == 1 and isinstance(rest[0], P) and rest[0].is_const() and k >= 0 and rest[0].const() >= 0:
        o = a.args[1]
        if isinstance(o, P) and o.is_const():
            o, j = int(o.const()), int(rest[0].const())
            return index(atomP(a.args[0]) if isinstance(a.args[0], T) else a.args[0], (num(min(k, j)),)) if j - k == o else ZERO
        return None
    return None


@builder("index")
def index(x, idx):
    """idx: tuple of P scalars / ('slice',a,b,c) / None / Ellipsis / C mask / other"""
    if not isinstance(idx, tuple) or (idx and isinstance(idx[0], str) and idx[0] in ("slice", "list", "tuple")):
        idx = (idx,)
    idx = list(idx)
    # drop trailing full slices / ellipsis (semantically identity)
    while idx and (is_full(idx[-1]) or idx[-1] is Ellipsis):
        idx.pop()
    if not idx:
        return x
    if isinstance(x, C):
        x = ind(x)
    a = as_atom(x)
    idx = [Ellipsis if i is Ellipsis else i for i in idx]
    nd = nd_of(x)
    # negative constant indices against known sizes are kept as they are
    if x.is_const():
        return x
    if all(isinstance(i, P) and i.is_const() for i in idx) and nd == 0 and a is None:
        pass
    if a is not None:
        if a.op == "map" and isinstance(idx[0], P) and idx[0].scalar and not (idx[0].is_const() and idx[0].const() < 0):
            body = inst_bv(a.args[1], a.meta_level if False else map_level(a), idx[0])
            return index(body, tuple(idx[1:])) if len(idx) > 1 else body
        if a.op == "arr" and isinstance(idx[0], P) and idx[0].is_const():
            k = int(idx[0].const())
            els = a.args[0]
            if -len(els) <= k < len(els):
                e = els[k]
                if isinstance(e, P):
                    return index(e, tuple(idx[1:])) if len(idx) > 1 else e
        if a.op == "index":
            b, i0 = a.args
            if all(isinstance(i, P) and i.scalar for i in i0):
                return index(b, tuple(i0) + tuple(idx))
            # x[:, i][j]
        if a.op == "expand" and isinstance(a.args[1], int) and a.args[1] >= 0 and all(isinstance(i, P) and i.scalar for i in idx):
            b, k0 = a.args
            if len(idx) <= k0:
                return expand(index(b, tuple(idx)), k0 - len(idx))
            rest = tuple(idx[:k0]) + tuple(idx[k0 + 1:])
            return index(b, rest) if rest else b
        if a.op == "store":
            b, i0, v = a.args
            if tuple(i0) == tuple(idx):
                return v
            if len(i0) == 1 and len(idx) == 1 and isinstance(i0[0], P) and isinstance(idx[0], P) and idx[0].scalar and i0[0].scalar:
                df = sub(i0[0], idx[0])
                if df.is_const() and df.const() != 0:
                    return index(b, tuple(idx))
        if a.op in ("zeros", "ones") and all(isinstance(i, P) or (isinstance(i, tuple)) for i in idx):
            if all(isinstance(i, P) and i.scalar for i in idx):
                nsh = a.args[0][1:] if isinstance(a.args[0], tuple) else (a.args[0],)
                if len(idx) == len(nsh):
                    return ZERO if a.op == "zeros" else ONE
        if isinstance(idx[0], P) and idx[0].is_const() and idx[0].const().denominator == 1:
            r = _const_elem(a, int(idx[0].const()), idx[1:])
            if r is not None:
                return r
        if a.op == "index" and len(idx) == 1 and isinstance(idx[0], P) and not idx[0].is_const() and len(a.args[1]) == 1 and isinstance(a.args[1][0], tuple) \
                and a.args[1][0][:1] == ("slice",) and idx_nonneg(idx[0]):
            _, lo_, hi_, st_ = a.args[1][0]
            if (st_ is None or st_ is ONE) and (lo_ is None or isinstance(lo_, P) and lo_.is_const() and lo_.const() >= 0):
                return index(a.args[0], (idx[0] if lo_ is None else add(lo_, idx[0]),))
        if a.op == "linspace" and len(idx) == 1 and len(a.args) == 3 and isinstance(idx[0], P) and idx[0].scalar and all(isinstance(y, P) and y.scalar for y in a.args):
            lo_, hi_, n_ = a.args
            i_ = idx[0]
            if i_.is_const() and i_.const() < 0:
                i_ = add(n_, i_)
            if not (n_.is_const() and n_.const() < 2):
                return lo_ if i_ is ZERO else hi_ if i_ is sub(n_, ONE) else add(lo_, mul(i_, div(sub(hi_, lo_), sub(n_, ONE))))
        if a.op == "arange" and len(idx) == 1 and isinstance(idx[0], P) and idx[0].scalar and not (idx[0].is_const() and idx[0].const() < 0):
            return add(a.args[0], mul(idx[0], a.args[2]))
    rnd = None
    if nd is not None:
        nint = sum(1 for i in idx if isinstance(i, P) and i.scalar)
        nnew = sum(1 for i in idx if i is None)
        nmask = sum(1 for i in idx if isinstance(i, C))
        narr = sum(1 for i in idx if isinstance(i, P) and not i.scalar)
        if nmask == 0 and narr == 0:
            rnd = nd - nint + nnew
        elif narr == 1 and nmask == 0 and len(idx) == 1:
            ni = nd_of(idx[0])
            rnd = None if ni is None else nd - 1 + ni
        elif nmask == 1 and len(idx) == 1:
            mn = nd_of(idx[0])
            rnd = None if mn is None else nd - mn + 1
    # pointwise distribution over equal-rank operands for scalar indices
    if (a is None or a.op in POINTWISE) and all(isinstance(i, P) and i.scalar for i in idx):
        rs = roots(x)
        ranks = [(_nd_atom(r)) for r in rs]
        top = max(ranks) if rs and all(r is not None for r in ranks) else None
        # operands of full rank are indexed; leading indices do not reach those broadcast along trailing axes
        if top is not None and all(r == top or r <= top - len(idx) for r in ranks):
            def fa(t):
                if t.scalar:
                    return atomP(t)
                if t.op in POINTWISE:
                    return None
                return index(atomP(t), tuple(idx)) if _nd_atom(t) == top else atomP(t)
            return Rewriter(fa=fa, pointwise_only=True).P(x)
    if (a is None or a.op in POINTWISE) and len(idx) == 1 and isinstance(idx[0], P) and not idx[0].scalar:
        rs = roots(x)
        if rs and all(_nd_atom(r) == 1 for r in rs):
            def fb(t):
                if t.scalar:
                    return atomP(t)
                if t.op in POINTWISE:
                    return None
                return index(atomP(t), tuple(idx))
            return Rewriter(fa=fb, pointwise_only=True).P(x)
    sc = rnd == 0
    # scalar factors commute with indexing
    m = x.mono()
    if m and a is None:
        (s, ar), = list(lin_split(x))
        if s is not ONE:
            return mul(s, index(ar, tuple(idx)))
    if len(idx) == 1 and isinstance(idx[0], C):
        rs = roots(x)
        if rs and (len(rs) > 1 or a is None) and all(r.op in ("index", "sym") or True for r in rs):
            # mask selection distributes over pointwise operators
            def fa(t):
                if t.scalar:
                    return atomP(t)
                if t.op in POINTWISE:
                    return None
                return index(atomP(t), tuple(idx))
            return Rewriter(fa=fa, fc=lambda c: c if c.scalar else None, pointwise_only=True).P(x)
        if a is not None and a.op in POINTWISE:
            def fa2(t):
                if t.scalar:
                    return atomP(t)
                if t.op in POINTWISE:
                    return None
                return index(atomP(t), tuple(idx))
            return Rewriter(fa=fa2, pointwise_only=True).P(x)
    return op("index", (x, tuple(idx)), scalar=sc, nd=rnd, pos=a is not None and a.op in ("linspace", "meshgrid") and is_pos(x))


def map_level(a):
    return a.args[2]


# ------------------------------------------------------------------- maps

_idx_uid = [0]


def fresh_idx():
    _idx_uid[0] += 1
    return atomP(_mk_atom("idx", (_idx_uid[0],), scalar=True, nd=0, integer=True))


def max_bv(x):
    mx = 0
    for a in all_atoms(x):
        if a.op == "bv":
            mx = max(mx, a.args[0])
    return mx


def inst_bv(body, level, val):
    t = _mk_atom("bv", (level,), scalar=True, nd=0, integer=True)
    return subst_atoms(body, {t: val})


def contains_atom(x, a):
    return contains(x, lambda t: t is a)


def mk_map(n, i, body):
    """array [body(i) for i in range(n)]; i: idx P"""
    ia = as_atom(i)
    if isinstance(body, (bool,)):
        body = num(int(body))
    if isinstance(body, C):
        body = ind(body)
    if not isinstance(body, P):
        lvl = max_bv(body) + 1
        b = subst_atoms(body, {ia: bv(lvl)})
        return op("map", (n, b, lvl))
    r = eta(n, ia, body)
    if r is not None:
        return r
    lvl = max_bv(body) + 1
    b = subst_atoms(body, {ia: bv(lvl)})
    nd = nd_of(body)
    return op("map", (n, b, lvl), nd=(nd + 1 if nd is not None else None))


def eta(n, ia, body):
    """map(i. f(x[i], y[i])) == f(x, y) when every i is a leading index of arrays of length n"""
    ok = [True]
    found = [False]
    ip = atomP(ia)

    def fa(t):
        if not ok[0]:
            return atomP(t)
        if t is ia:
            ok[0] = False
            return atomP(t)
        if t.op == "index" and isinstance(t.args[1][0], P) and t.args[1][0] is ip:
            base, idx = t.args
            if contains_atom(base, ia) or contains_atom(tuple(idx[1:]), ia):
                ok[0] = False
                return atomP(t)
            d0 = dim(base, 0)
            if d0 is not n:
                ok[0] = False
                return atomP(t)
            found[0] = True
            if len(idx) == 1:
                return base
            return index(base, (FULL,) + tuple(idx[1:]))
        if not contains_atom(t, ia):
            if not t.scalar:
                # an un-indexed array inside a row: row broadcasting, keep the map
                ok[0] = False
            return atomP(t)
        if t.op in POINTWISE and (POINTWISE[t.op] is None or not any(contains_atom(x, ia) for k, x in enumerate(t.args) if k not in POINTWISE[t.op])):
            return None
        ok[0] = False
        return atomP(t)

    r = Rewriter(fa=fa, pointwise_only=True).P(body)
    if ok[0] and found[0]:
        return r
    return None


@builder("map")
def _map_build(n, body, lvl):
    i = fresh_idx()
    if isinstance(body, P):
        b = inst_bv(body, lvl, i)
        return mk_map(n, i, b)
    b = inst_bv(body, lvl, i)
    return mk_map(n, i, b)


@builder("sumover")
def sumover(n, body, lvl=None):
    """sum_{bv} body; body already abstracted at level max"""
    if lvl is None:
        lvl = None
    i = fresh_idx()
    # find outermost level: body built by mk_map has level = max
    return _sumover_abs(n, body, lvl)


def _sumover_abs(n, body, lvl):
    if lvl is None:
        lvl = max_bv(body)
        if lvl == 0:
            return mul(n, body)
    t = _mk_atom("bv", (lvl,), scalar=True, nd=0, integer=True)
    out = ZERO
    for m, c in body.terms.items():
        dep, ind_ = [], []
        for a, e in m:
            if contains_atom(a, t) or (not e.is_const() and contains_atom(e, t)):
                dep.append((a, e))
            else:
                ind_.append((a, e))
        f = _mk({tuple(ind_): c})
        g = _mk({tuple(dep): Fraction(1)})
        if g is ONE:
            out = add(out, mul(f, n))
        else:
            nd = nd_of(g)
            out = add(out, mul(f, op("sumover", (n, g, lvl), nd=nd, scalar=(nd == 0))))
    return out


def mk_sum(n, i, body):
    m = mk_map(n, i, body)
    a = as_atom(m)
    if a is not None and a.op == "map":
        return _sumover_abs(a.args[0], a.args[1], a.args[2])
    if n is not None and not contains_atom(body, as_atom(i)):
        return mul(n, body)
    return rsum(m, 0)


# ------------------------------------------------------------------- stores

def store(x, idx, v):
    """functional update x[idx] = v"""
    if not isinstance(idx, tuple) or (idx and isinstance(idx[0], str)):
        idx = (idx,)
    idx = list(idx)
    while idx and (is_full(idx[-1]) or idx[-1] is Ellipsis):
        idx.pop()
    if isinstance(v, C):
        v = ind(v)
    if isinstance(x, C):
        x = ind(x)
    if not idx:
        return v  # x[:] = v (broadcast)
    if len(idx) == 1 and isinstance(idx[0], C) and isinstance(v, P):
        c = idx[0]
        return where(c, unindex(v, c), x)
    if isinstance(v, P):
        a = as_atom(x)
        if a is not None and len(idx) == 1 and isinstance(idx[0], P) and idx[0].is_const() and nd_of(v) == 0:
            els = const_elems(a)
            k = idx[0].const()
            if els is not None and k.denominator == 1 and -len(els) <= k < len(els):
                els = list(els)
                els[int(k)] = v
                return op("arr", (tuple(els),), nd=1)
        # x[i][j] = w writes one element
        b = as_atom(v)
        if b is not None and b.op == "store" and all(isinstance(y, P) and y.scalar for y in tuple(idx) + tuple(b.args[1])) and b.args[0] is index(x, tuple(idx)):
            return store(x, tuple(idx) + tuple(b.args[1]), b.args[2])
        # last write wins on the identical index
        if a is not None and a.op == "store" and tuple(a.args[1]) == tuple(idx):
            x = a.args[0]
    return op("store", (x, tuple(idx), v), nd=nd_of(x))


def const_elems(a):
    """elements of a one-dimensional array of known small length"""
    if a.op == "arr" and all(isinstance(e, P) and nd_of(e) == 0 for e in a.args[0]):
        return a.args[0]
    if a.op in ("zeros", "ones"):
        s = a.args[0]
        s = s[1] if isinstance(s, tuple) and len(s) == 2 and s[0] in ("tuple", "list") else s[0] if isinstance(s, tuple) and len(s) == 1 else s
        if isinstance(s, P) and s.is_const() and s.const().denominator == 1 and 0 < s.const() <= 32:
            return (ZERO if a.op == "zeros" else ONE,) * int(s.const())
    return None


@builder("store")
def _store_b(x, idx, v):
    return store(x, idx, v)


def unindex(v, c):
    """inside x[c] = v, replace y[c] by y"""
    def fa(t):
        if t.op == "index" and len(t.args[1]) == 1 and t.args[1][0] is c:
            return t.args[0]
        return None
    if len(MASKED) < 200:
        MASKED.append((v, c))
    return Rewriter(fa=fa).P(v)


MASKED = []  # values stored under a mask, as written (selected elements still selected)

# -------------------------------------------------------------- misc rules

def _odd(name):
    def b(x):
        if x is ZERO:
            return ZERO
        m = x.mono()
        if (m and m[0] < 0) or (not m and x.terms and lead_sign(x) < 0):
            return neg(op(name, (neg(x),), scalar=x.scalar, nd=nd_of(x)))
        return op(name, (x,), scalar=x.scalar, nd=nd_of(x))
    return b


def _even(name):
    def b(x):
        m = x.mono()
        if (m and m[0] < 0) or (not m and x.terms and lead_sign(x) < 0):
            x = neg(x)
        return op(name, (x,), scalar=x.scalar, nd=nd_of(x))
    return b


for _n in ("sin", "tan", "arctan", "arctanh", "arcsinh", "tanh", "sinh", "erf", "arcsin", "sign", "erfinv"):
    BUILD[_n] = _odd(_n)
for _n in ("cos", "cosh"):
    BUILD[_n] = _even(_n)


def cosf(x):
    a = as_atom(x)
    if x is ZERO:
        return ONE
    if a is not None and a.op == "arccos":
        return a.args[0]
    if x is PI_P:
        return MONE
    return BUILD["cos"](x)


def sinf(x):
    a = as_atom(x)
    if x is ZERO or x is PI_P:
        return ZERO
    if a is not None and a.op == "arcsin":
        return a.args[0]
    if x is scale(PI_P, Fraction(1, 2)):
        return ONE
    if x is scale(PI_P, Fraction(-1, 2)):
        return MONE
    return BUILD["sin"](x)


INFA = as_atom(INF)


@builder("nan_to_num")
def nan_to_num(x, nan=ZERO, posinf=None, neginf=None):
    if isinstance(x, C):
        return ind(x)
    if x.is_const() and True:
        return x
    if x is INF:
        return FMAX if posinf is None else posinf
    if x is neg(INF):
        return neg(FMAX) if neginf is None else neginf
    if x is NAN:
        return nan
    mm = x.mono()
    if mm and any(a is INFA for a, e in x.terms and next(iter(x.terms))) and all(a is INFA or a.pos for a, e in next(iter(x.terms))):
        c = next(iter(x.terms.values()))
        return nan_to_num(INF if c > 0 else neg(INF), nan, posinf, neginf)
    if x is FMAX or x is neg(FMAX):
        return x
    a = as_atom(x)
    if a is not None and a.op == "where":
        return where(a.args[0], nan_to_num(a.args[1], nan, posinf, neginf), nan_to_num(a.args[2], nan, posinf, neginf))
    if a is not None and a.op == "nan_to_num" and a.args[1:] == (nan, posinf, neginf):
        return x
    if nan is not ZERO and isinstance(nan, P):
        return where(isnan(x), nan, nan_to_num(x, ZERO, posinf, neginf))
    return op("nan_to_num", (x, nan, posinf, neginf), scalar=x.scalar, nd=nd_of(x))


POINTWISE["nan_to_num"] = (0,)


def isnan(x):
    if isinstance(x, C) or x.is_const() or x is INF or x is neg(INF) or x is FMAX or x is neg(FMAX):
        return FALSE
    if x is NAN:
        return TRUE
    a = as_atom(x)
    if a is not None and a.op == "where":
        return cor(cand(a.args[0], isnan(a.args[1])), cand(cnot(a.args[0]), isnan(a.args[2])))
    return batom(_mk_atom("isnan", (x,), scalar=x.scalar, nd=nd_of(x)))


def isinf(x):
    if isinstance(x, C) or x.is_const() or x is FMAX or x is neg(FMAX) or x is NAN:
        return FALSE
    if x is INF or x is neg(INF):
        return TRUE
    a = as_atom(x)
    if a is not None and a.op == "where":
        return cor(cand(a.args[0], isinf(a.args[1])), cand(cnot(a.args[0]), isinf(a.args[2])))
    m = x.mono()
    if m and m[0] < 0:
        x = neg(x)
    return batom(_mk_atom("isinf", (x,), scalar=x.scalar, nd=nd_of(x)))


BUILD["isnan"] = lambda x: isnan(x)
BUILD["isinf"] = lambda x: isinf(x)


def maximum(a, b):
    if a is b:
        return a
    return where(ge(a, b), a, b)


def minimum(a, b):
    if a is b:
        return a
    return where(le(a, b), a, b)


@builder("expand")
def expand(x, k):
    if isinstance(x, P) and (x.scalar):
        return x
    nd = nd_of(x)
    if nd is not None and k < 0:
        k = nd + 1 + k
    return op("expand", (x, k), nd=(nd + 1) if nd is not None else None)


@builder("reshape")
def reshape(x, shape):
    a = as_atom(x)
    n = None
    if isinstance(shape, tuple):
        s = shape[1:] if shape and shape[0] in ("tuple", "list") else shape
        n = len(s)
        if any(not isinstance(q, P) for q in s):
            n = None
    return op("reshape", (x, shape), nd=n)


@builder("transpose")
def transpose(x):
    nd = nd_of(x)
    if nd is not None and nd <= 1:
        return x
    a = as_atom(x)
    if a is not None and a.op == "transpose":
        return a.args[0]
    return op("transpose", (x,), nd=nd)
