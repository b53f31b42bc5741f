"""Model of the external libraries (numpy / jax / numpyro / builtins) over value-graph terms.

Functions that are not modelled become uninterpreted nodes `call:<name>`; they
compare equal only to themselves and never lead to an alarm on their own.
"""
import builtins as _b
from fractions import Fraction
from .terms import *
from . import terms as tm
from .terms import _mk_atom
from .ops import *
from . import ops
from .interp import *
from .interp import UNDEF
from . import eq as _eq

PREFIX = [
    ("jax.numpy.linalg", "np.linalg"), ("numpy.linalg", "np.linalg"), ("jax.numpy", "np"), ("numpy", "np"),
    ("jax.scipy.special", "sp"), ("scipy.special", "sp"), ("jax.scipy.integrate", "integ"), ("scipy.integrate", "integ"),
    ("jax.lax", "lax"), ("jax.random", "jr"), ("jax.nn", "nn"), ("jax.scipy.stats", "stats"), ("scipy.stats", "stats"),
    ("numpyro.distributions", "dist"), ("xarray", "xr"), ("arviz", "az"), ("jax.scipy.linalg", "np.linalg"), ("scipy.linalg", "np.linalg"),
    ("jax.scipy.interpolate", "scinterp"), ("numpyro.primitives", "numpyro"),
]

DISTARGS = {
    "Normal": (("loc", ZERO), ("scale", ONE)), "Gamma": (("concentration", None), ("rate", ONE)), "Uniform": (("low", ZERO), ("high", ONE)),
    "HalfNormal": (("scale", ONE),), "Beta": (("concentration1", None), ("concentration0", None)), "Exponential": (("rate", ONE),),
    "Categorical": (("probs", None), ("logits", None)), "CategoricalProbs": (("probs", None),), "Dirichlet": (("concentration", None),),
    "TruncatedNormal": (("loc", ZERO), ("scale", ONE)), "LogNormal": (("loc", ZERO), ("scale", ONE)), "HalfCauchy": (("scale", ONE),),
    "Poisson": (("rate", None),), "Bernoulli": (("probs", None), ("logits", None)), "InverseGamma": (("concentration", None), ("rate", ONE)),
    "LogUniform": (("low", None), ("high", None)), "MixtureGeneral": (("mixing_distribution", None), ("component_distributions", None)),
}
UNIVARIATE = {"Normal", "Gamma", "Uniform", "HalfNormal", "Beta", "Exponential", "TruncatedNormal", "LogNormal", "HalfCauchy", "Poisson", "InverseGamma", "LogUniform"}

EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}


class Tied:
    """part of a sort key whose order is not known"""
    def __lt__(self, o):
        raise TypeError

    __gt__ = __lt__


def plain_key(x):
    """a Python value that orders as x does, or None"""
    if isinstance(x, str):
        return x
    if isinstance(x, P) and x.is_const():
        return x.const()
    if isinstance(x, bool):
        return int(x)
    if type(x) is tuple and x and x[0] != "slice":
        ks = [plain_key(v) for v in x]
        return tuple(Tied() if v is None else v for v in ks)
    return None


def arr_elems(x):
    a = as_atom(x) if isinstance(x, P) else None
    if a is not None and a.op == "arr" and all(isinstance(e, P) for e in a.args[0]):
        return a.args[0]
    return None


def mk_arr(els):
    nds = [nd_of(e) if isinstance(e, (P, C)) else None for e in els]
    nd = None
    if nds and all(n is not None for n in nds):
        nd = 1 + max(nds)
    els = tuple(ind(e) if isinstance(e, C) else e for e in els)
    return op("arr", (els,), nd=nd)


def pw1(f, x):
    if isinstance(x, C):
        x = ind(x)
    e = arr_elems(x)
    if e is not None:
        return mk_arr([pw1(f, y) for y in e])
    return f(x)


class Finfo(ModelV):
    def m_freeze(self):
        return ("finfo",)

    def m_getattr(self, it, name):
        if name == "max":
            return FMAX
        if name == "min":
            return neg(FMAX)
        if name in ("eps", "tiny", "smallest_normal"):
            return op("finfo:" + name, (), scalar=True, pos=True)
        raise Unsupported("finfo." + name)


def concat(parts, axis=0):
    flat = []
    for p in parts:
        a = as_atom(p) if isinstance(p, P) else None
        if a is not None and a.op == "concat" and a.args[1] == axis:
            flat.extend(a.args[0])
        else:
            flat.append(p)
    # join adjacent literal pieces
    out = []
    for p in flat:
        e = arr_elems(p)
        pa = as_atom(p) if isinstance(p, P) else None
        if pa is not None and pa.op in ("zeros", "ones") and axis == 0:
            s = pa.args[0]
            s = s[1:] if isinstance(s, tuple) and s and s[0] in ("tuple", "list") else (s if isinstance(s, tuple) else (s,))
            if len(s) == 1 and isinstance(s[0], P) and s[0].is_const() and 0 <= s[0].const() <= 8:
                e = tuple([ZERO if pa.op == "zeros" else ONE] * int(s[0].const()))
        if e is not None and axis == 0 and all(nd_of(x) == 0 for x in e):
            if out and isinstance(out[-1], list):
                out[-1].extend(e)
            else:
                out.append(list(e))
        else:
            out.append(p)
    out = [mk_arr(p) if isinstance(p, list) else p for p in out]
    out = [p for p in out if not (arr_elems(p) == ())]
    if len(out) == 1:
        return out[0]
    nds = [nd_of(p) for p in out]
    nd = nds[0] if nds and all(n is not None and n == nds[0] for n in nds) else None
    return op("concat", (tuple(out), axis), nd=nd)


ops.BUILD["concat"] = lambda parts, axis: concat(parts, axis)
ops.BUILD["arr"] = lambda els: mk_arr(els)

_einsum0 = ops.einsum


def einsum(spec, *os_):
    """expand ellipses where ranks are known and undo transposes"""
    spec = spec.replace(" ", "")
    if "->" not in spec and "..." not in spec:
        letters = spec.replace(",", "")
        spec += "->" + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    if "..." in spec:
        if "->" not in spec:
            return _einsum0(spec, *os_)
        ins, outp = spec.split("->")
        subs = ins.split(",")
        ranks = []
        for s, o in zip(subs, os_):
            if "..." in s:
                n = nd_of(o)
                ranks.append(None if n is None else n - (len(s) - 3))
        if ranks and all(r is not None and r >= 0 for r in ranks):
            m = max(ranks)
            used = set(spec)
            pool = [c for c in "ABCDEFGHIJKLMNOP" if c not in used][:m]
            ns = []
            for s, o in zip(subs, os_):
                if "..." in s:
                    r = nd_of(o) - (len(s) - 3)
                    s = s.replace("...", "".join(pool[m - r:]))
                ns.append(s)
            spec = ",".join(ns) + "->" + outp.replace("...", "".join(pool))
    if "->" in spec:
        ins, outp = spec.split("->")
        subs, nos = ins.split(","), list(os_)
        for j, (s, o) in enumerate(zip(subs, nos)):
            a = as_atom(o) if isinstance(o, P) else None
            if a is not None and a.op == "transpose" and len(s) == 2 and "." not in s:
                subs[j] = s[::-1]
                nos[j] = a.args[0]
        spec = ",".join(subs) + "->" + outp
        os_ = nos
        # sum of an elementwise product
        if len(subs) == 2 and subs[0] == subs[1] and outp == "" and "." not in subs[0]:
            return rsum(mul(nos[0], nos[1]), None)
        if len(subs) == 2 and subs[0] == subs[1] and "." not in subs[0] and len(set(subs[0])) == len(subs[0]) == len(outp) + 1 and all(nd_of(o) == len(subs[0]) for o in nos):
            lost = [c for c in subs[0] if c not in outp]
            if len(lost) == 1 and subs[0].replace(lost[0], "") == outp:
                return rsum(mul(nos[0], nos[1]), subs[0].index(lost[0]))
    return _einsum0(spec, *os_)


def matmul(a, b):
    na, nb = nd_of(a), nd_of(b)
    aa = as_atom(a)
    if aa is not None and aa.op == "linv":
        return op("lsolve", (aa.args[0], b), nd=nb)
    if na == 1 and nb == 1:
        return rsum(mul(a, b), None)
    if na == 2 and nb == 1:
        return einsum("ij,j->i", a, b)
    if na == 1 and nb == 2:
        return einsum("i,ij->j", a, b)
    if na == 2 and nb == 2:
        return einsum("ij,jk->ik", a, b)
    if na == 0 or nb == 0:
        return mul(a, b)
    return op("matmul", (a, b))


def tensordot(a, b, axes):
    na, nb = nd_of(a), nd_of(b)
    ax = axes
    if isinstance(ax, P) and ax.is_const():
        k = int(ax.const())
        if k == 1 and na is not None and nb is not None:
            L = "abcdefgh"[:na]
            R = L[-1] + "mnopqrst"[: nb - 1]
            return einsum(f"{L},{R}->{L[:-1]}{R[1:]}", a, b)
        if k == 1 and na == 1:
            return einsum("i,i...->...", a, b)
    def ints(v):
        if isinstance(v, P) and v.is_const():
            return [int(v.const())]
        if isinstance(v, (tuple, ListV)):
            it = list(v.items) if isinstance(v, ListV) else list(v)
            if all(isinstance(x, P) and x.is_const() for x in it):
                return [int(x.const()) for x in it]
        return None
    if isinstance(ax, (tuple, ListV)):
        it = list(ax.items) if isinstance(ax, ListV) else list(ax)
        if len(it) == 2:
            i, j = ints(it[0]), ints(it[1])
            if i is not None and j is not None and len(i) == len(j) == 1:
                if na == 1 and j[0] == 0:
                    return einsum("i,i...->...", a, b)
                if nb == 1 and i[0] == 0:
                    return einsum("i...,i->...", a, b)
                if na is not None and nb is not None:
                    L = list("abcdefgh"[:na])
                    R = list("mnopqrst"[:nb])
                    R[j[0] % nb] = L[i[0] % na]
                    out = [c for c in L + R if (L + R).count(c) == 1]
                    return einsum("".join(L) + "," + "".join(R) + "->" + "".join(out), a, b)
    return op("tensordot", (a, b, freeze(axes)))


def rmaxmin(which, x, axis, interp):
    e = arr_elems(x)
    if e is not None and e and all(nd_of(y) == 0 or y.scalar for y in e):
        r = e[0]
        for y in e[1:]:
            r = maximum(r, y) if which == "rmax" else minimum(r, y)
        return r
    if isinstance(x, P) and (x.is_const() or x.scalar and nd_of(x) == 0):
        return x
    ax = norm_axis(x, axis)
    nd = nd_of(x)
    # increasing functions commute
    if isinstance(x, P) and len(x.terms) == 1:
        (m, c), = x.terms.items()
        if c == 1 and len(m) == 1 and m[0][0].op == "E":
            inner = m[0][1]
            if not inner.is_const():
                return exp(rmaxmin(which, inner, axis, interp))
    return op(which, (x, ax), scalar=(ax is None), nd=(0 if ax is None else (nd - 1 if nd is not None else None)), pos=is_pos(x))


for _n in ("rmax", "rmin"):
    ops.BUILD[_n] = (lambda w: lambda x, ax: rmaxmin(w, x, ax, None))(_n)


class Ext:
    def __init__(self):
        self.counter = 0
        names = [n for n in dir(_b) if not n.startswith("_")]
        self.BUILTINS = set(names) | {"__name__", "__file__", "__import__"}
        self.H = {}
        self.build_table()

    # ------------------------------------------------------------ naming
    def canon(self, name):
        for p, r in PREFIX:
            if name == p:
                return r
            if name.startswith(p + "."):
                return r + name[len(p):]
        return name

    CONST = {"np.pi": PI_P, "np.inf": INF, "np.nan": NAN, "np.Inf": INF, "np.NaN": NAN, "math.pi": PI_P, "math.inf": INF, "math.nan": NAN,
             "np.newaxis": None, "np.e": None}

    def getattr(self, it, name, attr):
        full = self.canon(name + "." + attr)
        if full == "np.e" or full == "math.e":
            return exp(ONE)
        if full in self.CONST:
            return self.CONST[full]
        return ExtV(full)

    # ------------------------------------------------------------ arrays
    def asarray(self, it, v):
        if isinstance(v, bool):
            return to_term(v)
        if isinstance(v, (P, C)):
            return v
        if isinstance(v, RangeV):
            if v.concrete():
                return mk_arr(it.as_iter(v))
            return op("arange", (v.a, v.b, v.c), nd=1)
        if isinstance(v, (int, float, Fraction)):
            return to_term(v)
        if isinstance(v, T):
            return atomP(v)
        if isinstance(v, tuple) and v and v[0] == "slice" and len(v) == 4 and isinstance(v[0], str):
            return v
        if isinstance(v, (ListV, tuple)):
            items = list(v.items) if isinstance(v, ListV) else list(v)
            if len(items) == 1 and isinstance(items[0], Seg):
                a = items[0].arr
                if isinstance(a, P):
                    return a
                if isinstance(a, T):
                    return atomP(a)
                return op("arrseg", (items[0].n, freeze(a)))
            els = []
            for x in items:
                if isinstance(x, Seg) or (isinstance(x, GammaV)):
                    return op("arrmix", (freeze(ListV(items)),))
                x = self.asarray(it, x)
                if isinstance(x, C):
                    x = ind(x)
                if not isinstance(x, P):
                    x = freeze(x)
                els.append(x)
            return mk_arr(els)
        if isinstance(v, GammaV):
            return it.lift_gamma(v, lambda g: self.asarray(it, g))
        if isinstance(v, SymIter):
            i = fresh_idx()
            e = v.elem(i)
            if is_term(e):
                return mk_map(v.n, i, to_term(e))
            return op("arrseg", (v.n, as_atom(mk_map(v.n, i, freeze(e)))))
        if v is None:
            return op("arrobj", (None,))
        return op("arrobj", (freeze(v),))

    def A(self, it, v):
        """as P"""
        r = self.asarray(it, v)
        if isinstance(r, C):
            return ind(r)
        if not isinstance(r, P):
            return op("arrobj", (freeze(r),))
        return r

    # ------------------------------------------------------------ opaque repo functions
    def opaque_result(self, it, f, b):
        names = it.sig(f)
        fr = []
        for n in names:
            fr.append((n, freeze(b[n])))
        for k in b:
            if k not in names:
                if isinstance(b[k], DictV):
                    fr += [(kk, freeze(vv)) for kk, vv in sorted(b[k].d.items(), key=lambda t: str(t[0]))]
                else:
                    fr.append((k, freeze(b[k])))
        nd = it.opaque_nd.get(f.qual)
        if nd is None and f.qual in it.elementwise:
            ns = [nd_of(v) for _, v in fr if isinstance(v, P)]
            nd = None if None in ns or not ns else max(ns)
        r = op("call:" + f.qual, tuple(fr), nd=nd)
        it.effect("opaque", f.qual, r, tuple(fr))
        return r

    def ext_base_init(self, it, inst, args, kwargs):
        if any(isinstance(c, ExtV) and c.name == "dist.Distribution" for c in inst.cls.mro()):
            names = ["batch_shape", "event_shape"]
            vals = {"batch_shape": (), "event_shape": (), "validate_args": None}
            for n, v in zip(names, args):
                vals[n] = v
            vals.update(kwargs)
            it.touch(inst)
            inst.attrs["batch_shape"] = vals["batch_shape"]
            inst.attrs["event_shape"] = vals["event_shape"]
            inst.attrs["_batch_shape"] = vals["batch_shape"]
            inst.attrs["_event_shape"] = vals["event_shape"]
            inst.attrs["_validate_args"] = vals["validate_args"]
            return None
        if args or kwargs:
            it.touch(inst)
            inst.attrs["@extinit"] = freeze((tuple(args), DictV(kwargs)))
        return None

    # ------------------------------------------------------------ attributes of terms
    def shape_of(self, it, x):
        if isinstance(x, (ListV, tuple)):
            x = self.A(it, x)
        n = nd_of(x)
        if n is not None:
            return tuple(dim(x, k) for k in range(n))
        rs = roots(x)
        a = as_atom(x) if isinstance(x, P) else None
        if rs:
            r = min(rs, key=lambda r: r.uid)
            if r is not a:
                x = atomP(r)
        return op("shape", (x,))

    METHODS = {"sum", "mean", "max", "min", "reshape", "flatten", "ravel", "astype", "copy", "dot", "item", "any", "all", "cumsum", "squeeze",
               "transpose", "std", "var", "prod", "argmax", "argmin", "round", "clip", "tolist", "to_numpy", "swapaxes", "conj", "argsort", "repeat", "cumprod", "sort", "block_until_ready"}

    def term_attr(self, it, o, name):
        o = to_P(o) if not isinstance(o, C) else o
        x = ind(o) if isinstance(o, C) else o
        a = as_atom(x)
        if a is not None and a.op.startswith("new:"):
            cls = it.get(a.op[4:])
            if isinstance(cls, ClassV):
                m, _ = cls.lookup(name)
                if isinstance(m, FuncV) and m.kind == "property":
                    return op("attr", (x, name))
                if m is not None:
                    return NatV(lambda it2, ar, kw: it2.call_opaque_method(a, name, ar, kw), "meth:" + name)
                # instance attribute: constructor argument stored under the same name is still opaque
                return op("attr", (x, name))
        if name == "shape":
            return self.shape_of(it, x)
        if name == "ndim":
            return ndim(x)
        if name == "size":
            return size(x)
        if name == "T":
            return transpose(x)
        if name == "at":
            return AtV(x)
        if name == "real" and not (a is not None and a.op.startswith("call:")):
            return op("real", (x,), nd=nd_of(x))
        if name in ("dtype", "attrs", "values", "data", "columns", "names", "coords", "dims"):
            return op("attr", (x, name))
        if name in self.METHODS and not (a is not None and (a.op.startswith("call:") or a.op.startswith("new:")) and name in ("copy", "item", "sort")):
            return NatV(lambda it2, ar, kw: self.term_method(it2, o, name, ar, kw), "meth:" + name)
        return op("attr", (x, name))

    def term_method(self, it, o, name, args, kwargs):
        x = ind(o) if isinstance(o, C) else o
        if name in ("copy", "to_numpy", "item", "conj", "tolist", "block_until_ready"):
            return o
        if name == "astype":
            t = args[0] if args else kwargs.get("dtype")
            return self.cast(o, t)
        if name == "reshape":
            sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, ListV)) else tuple(args)
            if len(args) == 1 and isinstance(args[0], P):
                sh = (args[0],) if not _is_shape(args[0]) else args[0]
            if not args and "shape" in kwargs:
                sh = kwargs["shape"]
            return self.reshape(it, x, sh)
        if name in ("flatten", "ravel"):
            return self.flatten(x)
        if name == "transpose":
            if args:
                return op("transposeax", (x, freeze(tuple(args))))
            return transpose(x)
        if name == "any" or name == "all":
            return self.call(it, "np." + name, [o] + args, kwargs)
        if name == "repeat":
            return op("repeat", (x, freeze(tuple(args)), freeze(DictV(kwargs))))
        return self.call(it, "np." + name, [x] + list(args), kwargs)

    def cast(self, o, t):
        n = t.name if isinstance(t, ExtV) else (t if isinstance(t, str) else "")
        if n in ("int", "np.int32", "np.int64", "int32", "int64"):
            x = ind(o) if isinstance(o, C) else o
            if isinstance(x, P) and x.is_const():
                return num(int(x.const()))
            if isinstance(x, P) and isinstance(o, C):
                return x
            return op("int", (x,), nd=nd_of(x))
        if n in ("bool", "np.bool_"):
            return truth(o) if isinstance(o, P) else o
        if n in ("float", "np.float64", "np.float32") and isinstance(o, C):
            return ind(o)
        return o

    def flatten(self, x):
        n = nd_of(x)
        if n is not None and n <= 1:
            return x
        return op("flatten", (x,), nd=1)

    def reshape(self, it, x, sh):
        s = sh
        if isinstance(s, ListV):
            s = tuple(s.items)
        if isinstance(s, P) and not _is_shape(s):
            s = (s,)
        if isinstance(s, tuple):
            a = as_atom(x)
            if len(s) == 1 and (s[0] is MONE):
                return self.flatten(x)
            # splitting a concatenation back into its equally shaped pieces = stacking
            if a is not None and a.op == "concat" and a.args[1] == 0 and isinstance(s[0], P) and s[0].is_const() and int(s[0].const()) == len(a.args[0]):
                base = a.args[0][0]
                rest = s[1:]
                nb = nd_of(base)
                if (nb is not None and len(rest) == nb) or (len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][:1] == ("star",)):
                    if all(nd_of(p) == nb for p in a.args[0]):
                        if not isinstance(rest[0], tuple) if rest else False:
                            if all(dim(base, k) is rest[k] for k in range(nb)):
                                return mk_arr(a.args[0])
                        else:
                            return mk_arr(a.args[0])
            if a is not None and a.op == "concatseg":
                n, seg = a.args[:2]
                if s and s[0] is n:
                    return seg if isinstance(seg, P) else atomP(seg)
            n = nd_of(x)
            if n is not None and len(s) == n and all(isinstance(q, P) and dim(x, k) is q for k, q in enumerate(s)):
                return x
            fs = ("tuple",) + tuple(freeze(q) for q in s)
            return ops.reshape(x, fs)
        return op("reshape", (x, freeze(s)))

    # ------------------------------------------------------------ indexing of terms
    def term_getitem(self, it, x, idx):
        a = as_atom(x)
        if a is not None and a.op == "shape":
            k = const_int(idx)
            if k is not None:
                return dim(a.args[0], k)
        if isinstance(idx, tuple) and idx == ():
            return x
        if isinstance(idx, (str, StrV)):
            return index(x, (idx,))
        ni = it.norm_idx(idx)
        if len(ni) == 1 and (ni[0] is Ellipsis or ni[0] == ()):
            return x
        # Ellipsis followed by newaxis / newaxis insertion as expand
        if all(q is None or is_full(q) or q is Ellipsis for q in ni):
            if Ellipsis in ni:
                n = nd_of(x)
                if n is not None:
                    k = list(ni).index(Ellipsis)
                    used = sum(1 for q in ni if is_full(q))
                    ni = tuple(ni[:k]) + (FULL,) * (n - used) + tuple(ni[k + 1:])
                else:
                    return op("index", (x, ni))
            r = x
            pos = 0
            for q in ni:
                if q is None:
                    r = expand(r, pos)
                pos += 1
            return r
        if Ellipsis in [q for q in ni if q is Ellipsis]:
            n = nd_of(x)
            k = [j for j, q in enumerate(ni) if q is Ellipsis][0]
            used = sum(1 for q in ni if q is not None and q is not Ellipsis)
            if n is not None and n >= used:
                ni = tuple(ni[:k]) + (FULL,) * (n - used) + tuple(ni[k + 1:])
        return index(x, ni)

    def at_method(self, it, o, name):
        x = o.base

        def fn(it2, args, kwargs):
            idx = it2.norm_idx(o.idx)
            if name == "get":
                return self.term_getitem(it2, x, o.idx)
            v = self.A(it2, args[0])
            if name == "set":
                xa = as_atom(x) if isinstance(x, P) else None
                return store(x if xa is not None and const_elems(xa) is not None else unzero(x), idx, v)
            cur = self.term_getitem(it2, x, o.idx)
            if name == "add":
                return store(x, idx, add(cur, v))
            if name in ("multiply", "mul"):
                return store(x, idx, mul(cur, v))
            if name == "divide":
                return store(x, idx, div(cur, v))
            if name == "max":
                return store(x, idx, maximum(cur, v))
            if name == "min":
                return store(x, idx, minimum(cur, v))
            return op("at:" + name, (x, idx, v), nd=nd_of(x))
        return NatV(fn, "at." + name)

    # ------------------------------------------------------------ containers
    def container_attr(self, it, o, name):
        if isinstance(o, (str, bytes)):
            if hasattr(o, name):
                return NatV(lambda i2, a, k: self.str_method(i2, o, name, a, k), "str." + name)
            raise PyRaise("AttributeError", f"str has no attribute {name}", it.node)
        if isinstance(o, StrV):
            return NatV(lambda i2, a, k: self.strv_method(i2, o, name, a, k), "str." + name)
        if isinstance(o, DictV):
            if name in ("items", "keys", "values", "get", "pop", "update", "setdefault", "copy", "clear", "popitem"):
                return NatV(lambda i2, a, k: self.dict_method(i2, o, name, a, k), "dict." + name)
            raise PyRaise("AttributeError", f"dict has no attribute {name}", it.node)
        if isinstance(o, (ListV, tuple)):
            if name in ("append", "extend", "insert", "pop", "remove", "index", "count", "copy", "sort", "reverse", "add", "clear", "union", "discard", "update", "difference", "intersection"):
                return NatV(lambda i2, a, k: self.list_method(i2, o, name, a, k), "list." + name)
            if name == "shape":
                raise PyRaise("AttributeError", f"list has no attribute {name}", it.node)
            raise PyRaise("AttributeError", f"{type(o).__name__} has no attribute {name}", it.node)
        raise Unsupported("container attribute")

    def str_method(self, it, s, name, a, k):
        py = []
        for x in a:
            if isinstance(x, (str, bytes)):
                py.append(x)
            elif const_int(x) is not None and isinstance(x, P):
                py.append(const_int(x))
            elif name == "join":
                items = it.iter_items(x)
                out = []
                for j, y in enumerate(items):
                    if isinstance(y, (Seg, GammaV)):
                        return op("strjoin", (s, freeze(x)))
                    if j:
                        out.append(s)
                    out.append(it.strpart(y))
                return mkstr(out)
            elif isinstance(x, tuple) and all(isinstance(y, str) for y in x):
                py.append(x)
            else:
                if name == "format":
                    return self.fmt(it, s, a, k)
                return op("meth:" + name, (s, freeze(tuple(a))))
        if name == "format":
            return self.fmt(it, s, a, k)
        r = getattr(s, name)(*py)
        if isinstance(r, bool):
            return r
        if isinstance(r, int):
            return num(r)
        if isinstance(r, list):
            return ListV(r)
        return r

    def fmt(self, it, s, a, k):
        import string
        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                out.append(lit)
                if field is None:
                    continue
                if field == "":
                    v = a[auto]
                    auto += 1
                elif field.isdigit():
                    v = a[int(field)]
                else:
                    v = k[field]
                out.append(it.strpart(v))
        except (KeyError, IndexError, ValueError):
            return op("strformat", (s, freeze(tuple(a)), freeze(DictV(k))))
        return mkstr(out)

    def strv_method(self, it, s, name, a, k):
        if name in ("lower", "upper", "strip"):
            return mkstr([getattr(p, name)() if isinstance(p, str) and name != "strip" else p for p in s.parts])
        if name in ("startswith", "endswith"):
            p = s.parts[0] if name == "startswith" else s.parts[-1]
            if isinstance(p, str) and isinstance(a[0], str) and len(p) >= len(a[0]):
                return getattr(p, name)(a[0])
        return op("meth:" + name, (freeze(s), freeze(tuple(a))))

    def dict_method(self, it, o, name, a, k):
        if name in ("items", "keys", "values"):
            if o.open is not None:
                if not o.d:
                    return op("meth:" + name, (o.open if isinstance(o.open, P) else op("opn", (o.open,)),))
                return op("meth:" + name, (op("dictobj", (freeze(o),)),))
            def val(v):
                return v
            if name == "items":
                return ListV([(kk, vv) for kk, vv in o.d.items()])
            if name == "keys":
                return ListV(list(o.d.keys()))
            return ListV([v for v in o.d.values()])
        if name in ("get", "pop"):
            key = it.key(a[0])
            dflt = a[1] if len(a) > 1 else None
            if key in o.d:
                v = o.d[key]
                if name == "pop":
                    it.touch(o)
                    del o.d[key]
                if isinstance(v, GammaV) and v.a is UNDEF:
                    return it.merge(v.c, dflt, v.b)
                if isinstance(v, GammaV) and v.b is UNDEF:
                    return it.merge(v.c, v.a, dflt)
                return v
            if o.open is not None:
                base = o.open if isinstance(o.open, P) else op("opn", (o.open,))
                v = index(base, (freeze(key),))
                if len(a) > 1 or name == "get":
                    return it.merge(batom(_mk_atom("in", (freeze(key), base))), v, dflt)
                return v
            if name == "pop" and len(a) < 2:
                raise PyRaise("KeyError", str(key), it.node)
            if not isinstance(key, str):
                return op("meth:get", (freeze(o), freeze(key), freeze(dflt)))
            return dflt
        if name == "update":
            it.touch(o)
            if a:
                it.dict_update(o, a[0])
            for kk, vv in k.items():
                o.d[kk] = vv
            return None
        if name == "setdefault":
            key = it.key(a[0])
            if key not in o.d:
                it.touch(o)
                o.d[key] = a[1] if len(a) > 1 else None
            return o.d[key]
        if name == "copy":
            return DictV(o.d, o.open)
        if name == "clear":
            it.touch(o)
            o.d.clear()
            o.open = None
            return None
        raise Unsupported("dict." + name)

    def list_method(self, it, o, name, a, k):
        items = o.items if isinstance(o, ListV) else list(o)
        if name in ("append", "add"):
            it.touch(o)
            if name == "add" and any(x is a[0] or (isinstance(x, str) and x == a[0]) for x in o.items):
                return None
            o.items.append(a[0])
            return None
        if name in ("extend", "update"):
            it.touch(o)
            v = a[0]
            o.items.extend(list(v.items) if isinstance(v, ListV) else it.iter_items(v))
            return None
        if name == "insert":
            it.touch(o)
            o.items.insert(const_int(a[0]), a[1])
            return None
        if name == "pop":
            it.touch(o)
            try:
                return o.items.pop(const_int(a[0]) if a else -1)
            except IndexError:
                raise PyRaise("IndexError", "pop", it.node)
        if name in ("remove", "discard"):
            for j, x in enumerate(items):
                c = it.cond(it.compare(__import__("ast").Eq(), x, a[0]))
                if c is TRUE:
                    it.touch(o)
                    del o.items[j]
                    return None
                if c is not FALSE:
                    raise Unsupported("symbolic remove")
            if name == "remove":
                raise PyRaise("ValueError", "remove", it.node)
            return None
        if name == "index":
            for j, x in enumerate(items):
                c = it.cond(it.compare(__import__("ast").Eq(), x, a[0]))
                if c is TRUE:
                    return num(j)
                if c is not FALSE:
                    return op("listindex", (freeze(o), freeze(a[0])))
            raise PyRaise("ValueError", "index", it.node)
        if name == "count":
            return op("listcount", (freeze(o), freeze(a[0])))
        if name == "copy":
            return ListV(items, o.kind)
        if name == "reverse":
            it.touch(o)
            o.items.reverse()
            return None
        if name == "sort":
            if all(isinstance(x, str) for x in items):
                it.touch(o)
                o.items.sort()
                return None
        if name == "clear":
            it.touch(o)
            o.items = []
            return None
        raise Unsupported("list." + name)

    def matmul(self, it, a, b):
        return matmul(a, b)

    # ------------------------------------------------------------ calls
    def call(self, it, name, args, kwargs):
        h = it.natives.get(name)
        if h is not None:
            return h(it, args, kwargs)
        if it.masks and name.startswith("np."):
            r = it.masks(it, name, args, kwargs)
            if r is not NotImplemented:
                return r
        if args and isinstance(args[0], ModelV):
            if name in ("np.asarray", "np.array", "np.copy", "copy.deepcopy", "copy.copy"):
                v = args[0]
                return v.values(it) if hasattr(v, "values") and name.startswith("np.") else v.m_getattr(it, "copy") and v
            if name in ("list", "tuple", "sorted"):
                xs = args[0].m_iter(it)
                if isinstance(xs, list):
                    args = [ListV(xs)] + list(args[1:])
            if name == "len":
                return args[0].m_len(it)
        if name in NAMEFN and args and all(isinstance(a, (ListV, tuple)) and all(isinstance(x, str) for x in it._li(a)) for a in args) and it._li(args[0]):
            xs = [list(it._li(a)) for a in args]
            r = NAMEFN[name](*xs)
            return ListV(r)
        if name == "importlib.import_module" and len(args) == 1 and isinstance(args[0], str) and not kwargs:
            return it.import_module(args[0])
        h = self.H.get(name)
        if h is not None:
            # lift gates through modelled functions
            for j, a in enumerate(args):
                if isinstance(a, GammaV) and name not in ("isinstance", "print", "len", "list", "numpyro.deterministic", "numpyro.factor", "numpyro.sample"):
                    return it.lift_gamma(a, lambda g: self.call(it, name, args[:j] + [g] + args[j + 1:], kwargs))
            r = h(it, args, kwargs)
            if it.py is not None and name.startswith(("np.", "jnp.", "jax.", "lax.")):
                r = it.py.array(r)
            return r
        if name in EXC:
            return op("exc:" + name, ())
        if name.startswith("dist.") and name.count(".") == 1 and name[5:6].isupper():
            return self.mk_dist(it, name[5:], args, kwargs)
        if name.startswith("jr."):
            return self.rand(it, name[3:], args, kwargs)
        if name.startswith("np.random."):
            self.counter += 1
            it.effect("nprandom", name, None)
            if name == "np.random.choice":
                b = dict(zip(("a", "size", "replace", "p"), args))
                b.update(kwargs)
                n = b.get("size")
                if isinstance(n, P) and (n.scalar or nd_of(n) == 0) or n is None:
                    return op("nprand:choice", (self.counter, freeze(b.get("a")), n, freeze(b.get("replace", True)), freeze(b.get("p"))), nd=0 if n is None else 1, scalar=n is None)
            return op("nprand:" + name[10:], (self.counter, freeze(tuple(args)), freeze(DictV(kwargs))))
        if name.startswith(("matplotlib.", "logging.", "warnings.")):
            return None
        if name in ("np.float64", "np.float32", "np.int64", "np.int32", "np.bool_"):
            return self.cast(args[0], ExtV(name))
        fr = tuple(freeze(a) for a in args)
        kw = tuple(sorted((k, freeze(v)) for k, v in kwargs.items()))
        r = op("call:" + name, fr + ((("kw",) + kw,) if kw else ()))
        it.effect("extcall", name, r, (fr, kw))
        return r

    def mk_dist(self, it, name, args, kwargs):
        spec = DISTARGS.get(name)
        if spec is None:
            fr = tuple(freeze(a) for a in args)
            kw = tuple(sorted((k, freeze(v)) for k, v in kwargs.items() if k != "validate_args"))
            return op("dist:" + name, fr + ((("kw",) + kw,) if kw else ()))
        vals = {}
        for (n, d), a in zip(spec, args):
            vals[n] = freeze(a)
        for k, v in kwargs.items():
            if k == "validate_args":
                continue
            vals[k] = freeze(v)
        for n, d in spec:
            vals.setdefault(n, d)
        return op("dist:" + name, tuple(sorted(vals.items(), key=lambda t: t[0])))

    def rand(self, it, name, args, kwargs):
        it.effect("jr", name, freeze(tuple(args)), freeze(DictV(kwargs)))
        if name in ("PRNGKey", "key"):
            return op("PRNGKey", (self.A(it, args[0]),))
        if name == "split":
            n = args[1] if len(args) > 1 else kwargs.get("num", num(2))
            return op("split", (self.A(it, args[0]), freeze(n)))
        if name == "fold_in":
            return op("foldin", (self.A(it, args[0]), self.A(it, args[1])))
        sig = {"uniform": ("key", "shape", "dtype", "minval", "maxval"), "normal": ("key", "shape", "dtype"),
               "choice": ("key", "a", "shape", "replace", "p", "axis"), "randint": ("key", "shape", "minval", "maxval"),
               "categorical": ("key", "logits", "axis", "shape"), "permutation": ("key", "x")}.get(name)
        if sig is None:
            return op("jr:" + name, (freeze(tuple(args)), freeze(DictV(kwargs))))
        v = dict(zip(sig, args))
        v.update(kwargs)
        defaults = {"choice": {"shape": (), "replace": True, "p": None, "axis": ZERO}, "uniform": {"shape": (), "minval": ZERO, "maxval": ONE}, "normal": {"shape": ()}}.get(name, {})
        for k, d in defaults.items():
            v.setdefault(k, d)
        v.pop("dtype", None)
        shp = v.get("shape")
        if isinstance(shp, ListV):
            v["shape"] = tuple(shp.items)
            shp = v["shape"]
        sc = shp == ()
        return op("jr:" + name, tuple(sorted(((k, freeze(x)) for k, x in v.items()), key=lambda t: t[0])), scalar=sc, nd=(len(shp) if isinstance(shp, tuple) else None),
                  integer=(name in ("choice", "randint", "categorical") and sc))

    # ------------------------------------------------------------ table
    def build_table(self):
        H = self.H
        A = self.A

        def reg(*names):
            def deco(f):
                for n in names:
                    H[n] = f
                return f
            return deco

        def np_(*names):
            return reg(*["np." + n for n in names])

        def kwget(args, kwargs, i, name, default=None):
            if len(args) > i:
                return args[i]
            return kwargs.get(name, default)

        def un(names, f):
            def h(it, a, k):
                return pw1(f, A(it, a[0]))
            for n in names:
                H[n] = h

        un(["np.exp", "math.exp", "lax.exp"], exp)
        un(["np.log", "math.log", "lax.log"], log)
        un(["np.sqrt", "math.sqrt", "lax.sqrt"], sqrt)
        un(["np.square", "lax.square"], lambda x: power(x, num(2)))
        un(["np.reciprocal"], inv)
        un(["np.negative"], neg)
        un(["np.positive"], lambda x: x)
        un(["np.abs", "np.absolute", "np.fabs", "abs", "math.fabs"], absP)
        un(["np.log1p", "math.log1p"], lambda x: log(add(ONE, x)))
        un(["np.expm1", "math.expm1"], lambda x: sub(exp(x), ONE))
        un(["np.log10", "math.log10"], lambda x: div(log(x), log(num(10))))
        un(["np.log2", "math.log2"], lambda x: div(log(x), log(num(2))))
        un(["np.exp2"], lambda x: power(num(2), x))
        un(["np.cbrt"], lambda x: power(x, num(Fraction(1, 3))))
        un(["np.cos", "math.cos"], cosf)
        un(["np.sin", "math.sin"], sinf)
        un(["np.tan", "math.tan"], lambda x: div(sinf(x), cosf(x)))
        un(["np.deg2rad", "np.radians"], lambda x: mul(x, scale(PI_P, Fraction(1, 180))))
        un(["np.rad2deg", "np.degrees"], lambda x: div(mul(x, num(180)), PI_P))

        def arct(x):
            return scale(sub(log(add(ONE, x)), log(sub(ONE, x))), Fraction(1, 2))
        for n in ("arcsin", "arccos", "arctan", "arctanh", "arcsinh", "arccosh", "tanh", "sinh", "cosh", "floor", "ceil", "sign", "round", "rint", "trunc"):
            nm = {"rint": "round"}.get(n, n)
            def f1(x, nm=nm):
                if nm in ops.BUILD:
                    return ops.BUILD[nm](x)
                return op(nm, (x,), nd=nd_of(x))
            un(["np." + n, "math." + n.replace("arc", "a")], f1)
        H["round"] = H["np.round"]
        H["np.around"] = H["np.round"]
        for n in ("erf", "erfc", "erfinv", "gammaln", "spence", "expit", "gamma", "ndtr", "ndtri", "i0", "i1", "digamma"):
            def f2(x, n=n):
                if n == "erfc":
                    return sub(ONE, ops.BUILD["erf"](x))
                if n == "ndtr":
                    return scale(add(ONE, ops.BUILD["erf"](mul(x, power(num(2), num(Fraction(-1, 2)))))), Fraction(1, 2))
                if n == "expit":
                    return inv(add(ONE, exp(neg(x))))
                if n in ops.BUILD:
                    return ops.BUILD[n](x)
                return op(n, (x,), nd=nd_of(x))
            un(["sp." + n], f2)
        H["sp.gammaln"] = H["sp.gammaln"]
        H["math.lgamma"] = H["sp.gammaln"]
        H["math.erf"] = H["sp.erf"]
        H["nn.sigmoid"] = H["sp.expit"]
        un(["nn.softplus"], lambda x: log(add(ONE, exp(x))))
        un(["nn.log_sigmoid", "sp.log_expit"], lambda x: neg(log(add(ONE, exp(neg(x))))))
        un(["nn.relu"], lambda x: maximum(x, ZERO))
        un(["sp.logit"], lambda x: sub(log(x), log(sub(ONE, x))))
        un(["lax.stop_gradient"], lambda x: x)
        un(["np.conj"], lambda x: x)
        un(["np.real"], lambda x: op("real", (x,), nd=nd_of(x)))
        un(["np.imag"], lambda x: op("imag", (x,), nd=nd_of(x)))

        @reg("sp.betaln")
        def _(it, a, k):
            x, y = A(it, a[0]), A(it, a[1])
            return sub(add(op("gammaln", (x,), nd=nd_of(x)), op("gammaln", (y,), nd=nd_of(y))), op("gammaln", (add(x, y),), nd=nd_of(add(x, y))))

        @reg("sp.beta")
        def _(it, a, k):
            return exp(H["sp.betaln"](it, a, k))

        @reg("sp.xlogy")
        def _(it, a, k):
            x, y = A(it, a[0]), A(it, a[1])
            return mul(x, log(y))

        @reg("sp.xlog1py")
        def _(it, a, k):
            x, y = A(it, a[0]), A(it, a[1])
            return mul(x, log(add(ONE, y)))

        def bi(names, f):
            def h(it, a, k):
                x = A(it, a[0])
                y = A(it, a[1])
                return f(x, y)
            for n in names:
                H[n] = h
        bi(["np.add", "lax.add"], add)
        bi(["np.subtract", "lax.sub"], sub)
        bi(["np.multiply", "lax.mul"], mul)
        bi(["np.divide", "np.true_divide", "lax.div"], lambda x, y: op("unk:division by zero", ()) if y is ZERO else div(x, y))
        bi(["np.power", "np.float_power", "math.pow", "lax.pow", "pow"], power)
        bi(["np.maximum", "np.fmax", "lax.max"], maximum)
        bi(["np.minimum", "np.fmin", "lax.min"], minimum)
        bi(["np.hypot", "math.hypot"], lambda x, y: sqrt(add(power(x, num(2)), power(y, num(2)))))
        bi(["np.logaddexp"], lambda x, y: log(add(exp(x), exp(y))))
        bi(["np.arctan2", "math.atan2"], lambda x, y: op("arctan2", (x, y)))
        bi(["np.mod", "np.remainder"], lambda x, y: op("mod", (x, y)))
        bi(["np.floor_divide"], lambda x, y: op("floordiv", (x, y)))
        bi(["np.heaviside"], lambda x, y: where(gt(x, ZERO), ONE, where(lt(x, ZERO), ZERO, y)))

        def cmp_(names, f):
            def h(it, a, k):
                x, y = A(it, a[0]), A(it, a[1])
                return it.simp(f(x, y))
            for n in names:
                H[n] = h
        cmp_(["np.less", "lax.lt"], lt)
        cmp_(["np.less_equal", "lax.le"], le)
        cmp_(["np.greater", "lax.gt"], gt)
        cmp_(["np.greater_equal", "lax.ge"], ge)
        cmp_(["np.equal", "lax.eq"], eqc)
        cmp_(["np.not_equal", "lax.ne"], ne)

        def logic(names, f):
            def h(it, a, k):
                cs = [it.cond(x) if not isinstance(x, (ListV, tuple)) else truth(A(it, x)) for x in a]
                return it.simp(f(*cs))
            for n in names:
                H[n] = h
        logic(["np.logical_and", "np.bitwise_and"], cand)
        logic(["np.logical_or", "np.bitwise_or"], cor)
        logic(["np.logical_not", "np.invert", "np.bitwise_not"], cnot)
        logic(["np.logical_xor"], cxor)
        H["operator.and_"] = H["np.logical_and"]
        H["operator.or_"] = H["np.logical_or"]

        @np_("isnan")
        def _(it, a, k):
            x = A(it, a[0])
            return it.simp(isnan(x))

        @np_("isinf")
        def _(it, a, k):
            return it.simp(isinf(A(it, a[0])))

        @np_("isfinite")
        def _(it, a, k):
            x = A(it, a[0])
            return it.simp(cand(cnot(isnan(x)), cnot(isinf(x))))
        H["math.isnan"], H["math.isinf"], H["math.isfinite"] = H["np.isnan"], H["np.isinf"], H["np.isfinite"]

        @np_("isneginf")
        def _(it, a, k):
            x = A(it, a[0])
            return it.simp(cand(isinf(x), lt(x, ZERO)))

        @np_("isposinf")
        def _(it, a, k):
            x = A(it, a[0])
            return it.simp(cand(isinf(x), gt(x, ZERO)))

        @np_("where")
        def _(it, a, k):
            if len(a) == 1:
                c = it.cond(a[0]) if not isinstance(a[0], (ListV, tuple)) else truth(A(it, a[0]))
                return (op("maskpos", (c,)),)
            c = a[0]
            c = truth(A(it, c)) if isinstance(c, (ListV, tuple)) else it.cond(c)
            x, y = a[1], a[2]
            if isinstance(x, C) and isinstance(y, (C, bool)) or isinstance(y, C) and isinstance(x, bool):
                return it.merge(c, x, y)
            return where(c, unzero(A(it, x)), unzero(A(it, y)))
        H["lax.select"] = H["np.where"]
        H["xr.where"] = H["np.where"]

        @np_("nonzero", "flatnonzero", "argwhere")
        def _(it, a, k):
            c = truth(A(it, a[0]))
            r = op("maskpos", (c,))
            return r

        H["np.nonzero"] = lambda it, a, k: (op("maskpos", (truth(A(it, a[0])),)),)

        @np_("select")
        def _(it, a, k):
            cs, vs = it.iter_items(a[0]), it.iter_items(a[1])
            d = A(it, kwget(a, k, 2, "default", ZERO))
            r = unzero(d)
            for c, v in reversed(list(zip(cs, vs))):
                r = where(it.cond(c), unzero(A(it, v)), r)
            return r

        @np_("piecewise")
        def _(it, a, k):
            x = A(it, a[0])
            cs, fs = it.iter_items(a[1]), it.iter_items(a[2])
            r = ZERO
            if len(fs) == len(cs) + 1:
                f = fs[-1]
                r = A(it, f if is_term(f) else it.call(f, [x], {}))
            for c, f in zip(cs, fs):
                r = where(it.cond(c), A(it, f if is_term(f) else it.call(f, [x], {})), r)
            return r

        @np_("clip")
        def _(it, a, k):
            x = A(it, a[0])
            lo = kwget(a, k, 1, "a_min", k.get("min"))
            hi = kwget(a, k, 2, "a_max", k.get("max"))
            if lo is not None:
                x = maximum(x, A(it, lo))
            if hi is not None:
                x = minimum(x, A(it, hi))
            return x
        H["lax.clamp"] = lambda it, a, k: minimum(maximum(A(it, a[1]), A(it, a[0])), A(it, a[2]))

        @np_("nan_to_num")
        def _(it, a, k):
            x = A(it, a[0])
            g = lambda n, d: A(it, k[n]) if n in k and k[n] is not None else d
            nan = g("nan", ZERO)
            pi, ni = g("posinf", None), g("neginf", None)
            return pw1(lambda y: nan_to_num(y, nan, pi, ni), x)

        # ---- reductions
        def axof(it, a, k, i=1):
            ax = kwget(a, k, i, "axis", None)
            if isinstance(ax, (ListV,)):
                ax = tuple(ax.items)
            if isinstance(ax, tuple):
                return ("tuple",) + tuple(int(x.const()) if isinstance(x, P) and x.is_const() else x for x in ax)
            if isinstance(ax, P) and ax.is_const():
                return int(ax.const())
            return ax

        def keep(it, a, k, r, ax):
            kd = k.get("keepdims")
            if kd is True:
                if isinstance(ax, int) and isinstance(r, P):
                    return expand(r, ax)
                if ax is None:
                    return r
                return op("unk:keepdims", ())
            return r

        @np_("sum", "nansum")
        def _(it, a, k):
            x = A(it, a[0])
            ax = axof(it, a, k)
            if "where" in k:
                x = where(it.cond(k["where"]), x, ZERO)
            return keep(it, a, k, rsum(x, ax), ax)

        @np_("mean", "average", "nanmean")
        def _(it, a, k):
            x = A(it, a[0])
            ax = axof(it, a, k)
            w = k.get("weights")
            if w is not None:
                w = A(it, w)
                return div(rsum(mul(x, w), ax), rsum(w, ax))
            return keep(it, a, k, rmean(x, ax), ax)

        @np_("var")
        def _(it, a, k):
            x = A(it, a[0])
            ax = axof(it, a, k)
            m = rmean(x, ax)
            v = sub(rmean(mul(x, x), ax), mul(m, m))
            dd = k.get("ddof")
            if dd is not None and dd is not ZERO:
                n = size(x) if norm_axis(x, ax) is None else dim(x, norm_axis(x, ax))
                v = div(mul(v, n), sub(n, A(it, dd)))
            return v

        @np_("std")
        def _(it, a, k):
            return sqrt(H["np.var"](it, a, k))

        @np_("prod")
        def _(it, a, k):
            x = A(it, a[0])
            ax = axof(it, a, k)
            e = arr_elems(x)
            if e is not None and (ax in (0, None)):
                r = ONE
                for y in e:
                    r = mul(r, y)
                return r
            return op("rprod", (x, norm_axis(x, ax)), scalar=norm_axis(x, ax) is None, nd=(0 if norm_axis(x, ax) is None else None))
        H["math.prod"] = H["np.prod"]

        def mm(which):
            def h(it, a, k):
                x = A(it, a[0])
                ax = axof(it, a, k)
                return keep(it, a, k, rmaxmin(which, x, ax, it), ax)
            return h
        for n in ("max", "amax", "nanmax"):
            H["np." + n] = mm("rmax")
        for n in ("min", "amin", "nanmin"):
            H["np." + n] = mm("rmin")

        def disjuncts(c):
            if c.kind == "or":
                return [y for x in c.data for y in disjuncts(x)]
            if c.kind == "sgn" and "+" in c.data[1] and "-" not in c.data[1]:
                d = c.data[0]
                ab = [(m, k) for m, k in d.terms.items() if m != ()]
                if len(ab) == 1 and ab[0][1] > 0 and len(ab[0][0]) == 1 and ab[0][0][0][0].op == "abs" and ab[0][0][0][1] is ONE:
                    (a, _), k, c0 = ab[0][0][0], ab[0][1], d.terms.get((), 0)
                    if c0 < 0:
                        x = a.args[0]
                        return [sgn_cond(add(scale(s, k), num(c0)), c.data[1]) for s in (x, neg(x))]
            return [c]

        def anyall(isany):
            def h(it, a, k):
                v = a[0]
                ax = axof(it, a, k)
                if isinstance(v, (ListV, tuple)) and (ax in (0, None)):
                    its = it.iter_items(v)
                    if not any(isinstance(x, (Seg, GammaV)) for x in its):
                        cs = [it.cond(x) for x in its]
                        r = (cor if isany else cand)(*cs) if cs else (FALSE if isany else TRUE)
                        if ax == 0 or all(c.scalar for c in cs):
                            return it.simp(r)
                        v = r
                c = v if isinstance(v, C) else truth(A(it, v))
                if c.kind == "const" or c.scalar:
                    return it.simp(c)
                ax = norm_axis(ind(c), ax)
                cc = c if isany else cnot(c)
                # some element fulfils one of several conditions: one of them is fulfilled by some element
                parts = [d if d.scalar else batom(_mk_atom("any", (ind(d), ax), scalar=ax is None, nd=0 if ax is None else None)) for d in disjuncts(cc)]
                r = cor(*parts)
                return it.simp(r if isany else cnot(r))
            return h
        H["np.any"], H["np.all"] = anyall(True), anyall(False)

        @reg("sp.logsumexp", "nn.logsumexp")
        def _(it, a, k):
            x = A(it, a[0])
            ax = axof(it, a, k)
            b = k.get("b", a[2] if len(a) > 2 else None)
            e = exp(x)
            if b is not None:
                e = mul(e, A(it, b))
            return keep(it, a, k, log(rsum(e, ax)), ax)

        @reg("integ.trapezoid", "np.trapz", "np.trapezoid", "integ.trapz")
        def _(it, a, k):
            y = A(it, kwget(a, k, 0, "y"))
            x = kwget(a, k, 1, "x")
            dx = kwget(a, k, 2, "dx", ONE)
            ax = kwget(a, k, 3, "axis", num(-1))
            x = A(it, x) if x is not None else op("dxgrid", (freeze(dx),), nd=1)
            return trapz(y, x, ax)

        @np_("interp")
        def _(it, a, k):
            x, xp, fp = A(it, kwget(a, k, 0, "x")), A(it, kwget(a, k, 1, "xp")), A(it, kwget(a, k, 2, "fp"))
            l, r = kwget(a, k, 3, "left"), kwget(a, k, 4, "right")
            if k.get("period") is not None:
                return op("interp_period", (x, xp, fp, freeze(k["period"])))
            if l is None and r is None:
                return interp(x, xp, fp)
            return interp(x, xp, fp, freeze(l), freeze(r))

        @np_("cumsum")
        def _(it, a, k):
            x = A(it, a[0])
            ax = axof(it, a, k)
            return cumsum(x, norm_axis(x, ax))

        @np_("diff")
        def _(it, a, k):
            x = A(it, a[0])
            n = A(it, kwget(a, k, 1, "n", ONE))
            ax = kwget(a, k, 2, "axis", None)
            if ax is not None and not (const_int(ax) == -1 or nd_of(x) == 1):
                return op("diffax", (x, n, freeze(ax)))
            return diff_n(x, n)

        @np_("einsum")
        def _(it, a, k):
            if not isinstance(a[0], str):
                return op("call:np.einsum", tuple(freeze(x) for x in a))
            return einsum(a[0], *[A(it, x) for x in a[1:]])

        @np_("dot", "matmul", "inner")
        def _(it, a, k):
            return matmul(A(it, a[0]), A(it, a[1]))

        @np_("vdot")
        def _(it, a, k):
            return rsum(mul(A(it, a[0]), A(it, a[1])), None)

        @np_("outer")
        def _(it, a, k):
            x, y = A(it, a[0]), A(it, a[1])
            return mul(expand(x, 1), expand(y, 0))

        @np_("tensordot")
        def _(it, a, k):
            return tensordot(A(it, a[0]), A(it, a[1]), kwget(a, k, 2, "axes", num(2)))

        @np_("linalg.solve")
        def _(it, a, k):
            b = A(it, a[1])
            return op("lsolve", (A(it, a[0]), b), nd=nd_of(b))

        @np_("linalg.inv")
        def _(it, a, k):
            return op("linv", (A(it, a[0]),), nd=2)

        @np_("linalg.norm")
        def _(it, a, k):
            if len(a) == 1 and not k:
                x = A(it, a[0])
                return sqrt(rsum(mul(x, x), None))
            if set(k) <= {"axis"} and len(a) == 1:
                x = A(it, a[0])
                return sqrt(rsum(mul(x, x), axof(it, a, k)))
            return op("call:np.linalg.norm", tuple(freeze(x) for x in a) + (freeze(DictV(k)),))

        # ---- construction
        @np_("array", "asarray", "ascontiguousarray", "asanyarray", "copy")
        def _(it, a, k):
            v = self.asarray(it, a[0])
            t = kwget(a, k, 1, "dtype")
            if t is not None and not isinstance(v, tuple):
                return self.cast(v, t)
            return v

        @np_("atleast_1d")
        def _(it, a, k):
            return self.asarray(it, a[0])

        @np_("atleast_2d")
        def _(it, a, k):
            x = A(it, a[0])
            n = nd_of(x)
            if n is not None and n >= 2:
                return x
            if n == 1:
                return expand(x, 0)
            return op("atleast2d", (x,))

        def shp(it, v):
            if isinstance(v, ListV):
                v = tuple(v.items)
            if isinstance(v, P) and not _is_shape(v):
                v = (v,)
            return v

        def filled(kind):
            def h(it, a, k):
                s = shp(it, kwget(a, k, 0, "shape"))
                t = kwget(a, k, 1, "dtype")
                if s == ():
                    return ZERO if kind == "zeros" else ONE
                if isinstance(t, ExtV) and t.name in ("bool", "np.bool_"):
                    return FALSE if kind == "zeros" else TRUE
                nd = len(s) if isinstance(s, tuple) and not any(isinstance(q, tuple) for q in s) else None
                return op(kind, (freeze(s),), nd=nd)
            return h
        H["np.zeros"], H["np.ones"], H["np.empty"] = filled("zeros"), filled("ones"), filled("zeros")

        def like(kind):
            def h(it, a, k):
                t = kwget(a, k, 1, "dtype")
                if isinstance(t, ExtV) and t.name in ("bool", "np.bool_"):
                    return FALSE if kind == "zeros" else TRUE
                x = A(it, a[0])
                s = self.shape_of(it, x)
                if s == ():
                    return ZERO if kind == "zeros" else ONE
                r = op(kind, (freeze(s),), nd=nd_of(x))
                if t is None and x in it.ints or isinstance(t, ExtV) and t.name in ("int", "np.int32", "np.int64"):
                    it.int_like = r
                return r
            return h
        H["np.zeros_like"], H["np.ones_like"], H["np.empty_like"] = like("zeros"), like("ones"), like("zeros")

        @np_("full")
        def _(it, a, k):
            v = A(it, kwget(a, k, 1, "fill_value"))
            s = shp(it, kwget(a, k, 0, "shape"))
            return mul(v, op("ones", (freeze(s),), nd=len(s) if isinstance(s, tuple) else None))

        @np_("full_like")
        def _(it, a, k):
            x, v = A(it, a[0]), A(it, kwget(a, k, 1, "fill_value"))
            s = self.shape_of(it, x)
            return mul(v, op("ones", (freeze(s),), nd=nd_of(x)))

        @np_("arange")
        def _(it, a, k):
            v = [A(it, x) for x in a]
            if "step" in k:
                st = A(it, k["step"])
            else:
                st = v[2] if len(v) > 2 else ONE
            lo, hi = (ZERO, v[0]) if len(v) == 1 else (v[0], v[1])
            if all(x.is_const() for x in (lo, hi, st)) and st.const() != 0 and abs((hi.const() - lo.const()) / st.const()) <= 64 and all(x.const().denominator == 1 for x in (lo, hi, st)):
                return mk_arr([num(x) for x in range(int(lo.const()), int(hi.const()), int(st.const()))])
            return op("arange", (lo, hi, st), nd=1)

        @np_("linspace")
        def _(it, a, k):
            lo, hi = A(it, kwget(a, k, 0, "start")), A(it, kwget(a, k, 1, "stop"))
            n = A(it, kwget(a, k, 2, "num", num(50)))
            r = op("linspace", (lo, hi, n) + ((("ep", freeze(k["endpoint"])),) if "endpoint" in k and k["endpoint"] is not True else ()), nd=1, pos=is_pos(lo) and is_pos(hi))
            if k.get("retstep") is True:
                return (r, div(sub(hi, lo), sub(n, ONE)))
            return r

        @np_("logspace", "geomspace")
        def _(it, a, k):
            return op("call:np.geomspace", tuple(freeze(x) for x in a) + (freeze(DictV(k)),), nd=1)
        H["np.geomspace"] = lambda it, a, k: op("geomspace", (A(it, a[0]), A(it, a[1]), A(it, kwget(a, k, 2, "num", num(50)))), nd=1)
        H["np.logspace"] = lambda it, a, k: op("logspace", (A(it, a[0]), A(it, a[1]), A(it, kwget(a, k, 2, "num", num(50)))), nd=1)

        @np_("meshgrid")
        def _(it, a, k):
            xs = tuple(A(it, x) for x in a)
            ij = k.get("indexing") == "ij"
            if len(xs) == 2:
                if ij:
                    # ij grids are the transposed xy grids
                    return tuple(transpose(op("meshgrid", (xs, j), nd=2)) for j in range(2))
                return tuple(op("meshgrid", (xs, j), nd=2, pos=is_pos(xs[j])) for j in range(2))
            return tuple(op("meshgrid" + ("_ij" if ij else ""), (xs, j), nd=len(xs)) for j in range(len(xs)))

        @np_("concatenate", "append", "hstack")
        def _(it, a, k):
            v = a[0]
            ax = const_int(kwget(a, k, 1, "axis", ZERO) or ZERO)
            if isinstance(v, P):
                av = as_atom(v)
                if av is not None and av.op == "arr":
                    items = list(av.args[0])
                else:
                    return op("concatseg", (dim(v, 0), v))
            else:
                items = it._li(v)
            if len(items) == 1 and isinstance(items[0], Seg):
                s = items[0]
                return op("concatseg", (s.n, s.arr if isinstance(s.arr, P) else freeze(s.arr)))
            if any(isinstance(x, Seg) for x in items):
                return op("concatmix", (freeze(v),))
            return concat([A(it, x) for x in items], ax)
        @reg("np.result_type")
        def _(it, a, k):
            return ExtV("np.default_float")

        @reg("np.finfo")
        def _(it, a, k):
            t = a[0]
            # the largest number of the default precision, or of an array's own
            if isinstance(t, ExtV) and t.name in ("np.default_float", "np.float32") or isinstance(t, P) or isinstance(t, ExtV) and t.name.endswith(".dtype"):
                return Finfo()
            raise Unsupported("finfo of a fixed precision")

        @reg("np.pad")
        def _(it, a, k):
            x = A(it, a[0])
            w = kwget(a, k, 1, "pad_width")
            if kwget(a, k, 2, "mode", "constant") != "constant" or nd_of(x) != 1:
                raise Unsupported("np.pad")
            v = k.get("constant_values", ZERO)
            def pair(w):
                w = list(it.iter_items(w)) if not isinstance(w, P) else [w, w]
                if len(w) == 1:
                    return pair(w[0])
                if len(w) != 2:
                    raise Unsupported("np.pad")
                return [c.const() if isinstance(c, P) and c.is_const() else c for c in w]
            lo, hi = pair(w)
            if not all(isinstance(c, (int, Fraction)) and 0 <= c < 50 for c in (lo, hi)):
                raise Unsupported("np.pad")
            vl, vh = (v, v) if isinstance(v, P) else pair(v)
            vl, vh = (to_P(c) for c in (vl, vh))
            parts = ([mk_arr([vl] * int(lo))] if lo else []) + [x] + ([mk_arr([vh] * int(hi))] if hi else [])
            return concat(parts, 0) if len(parts) > 1 else x

        H["np.append"] = lambda it, a, k: concat([A(it, a[0]), (lambda y: mk_arr([y]) if nd_of(y) == 0 else y)(A(it, a[1]))], 0)

        @np_("stack", "vstack", "row_stack")
        def _(it, a, k):
            ax = const_int(kwget(a, k, 1, "axis", ZERO) or ZERO)
            r = self.asarray(it, a[0])
            if ax == 0:
                return r
            if ax in (-1, 1) and nd_of(r) == 2:
                return transpose(r)
            return op("stack", (r, ax))
        H["np.column_stack"] = lambda it, a, k: transpose(A(it, a[0]))

        @np_("diag")
        def _(it, a, k):
            x = A(it, a[0])
            kk = A(it, kwget(a, k, 1, "k", ZERO))
            out = ZERO
            for s, ar in lin_split(x):
                out = add(out, mul(s, op("diag", (ar, kk), nd=2)))
            return out

        @np_("eye", "identity")
        def _(it, a, k):
            return op("eye", tuple(freeze(x) for x in a), nd=2)

        @np_("expand_dims")
        def _(it, a, k):
            return expand(A(it, a[0]), const_int(kwget(a, k, 1, "axis")))

        @np_("squeeze")
        def _(it, a, k):
            x = A(it, a[0])
            at = as_atom(x)
            if at is not None and at.op == "expand":
                return at.args[0]
            n = nd_of(x)
            if n == 0:
                return x
            return op("squeeze", (x,))

        @np_("transpose")
        def _(it, a, k):
            x = A(it, a[0])
            if len(a) > 1 or k:
                return op("transposeax", (x, freeze(tuple(a[1:]))))
            return transpose(x)

        @np_("swapaxes", "moveaxis")
        def _(it, a, k):
            x = A(it, a[0])
            if nd_of(x) == 2:
                p, q = const_int(a[1]), const_int(a[2])
                if p is not None and q is not None:
                    return transpose(x) if p % 2 != q % 2 else x
            return op("transposeax", (x, freeze(tuple(a[1:]))))

        @np_("reshape")
        def _(it, a, k):
            s = kwget(a, k, 1, "shape", k.get("newshape"))
            return self.reshape(it, A(it, a[0]), s)

        @np_("ravel")
        def _(it, a, k):
            return self.flatten(A(it, a[0]))

        @np_("shape")
        def _(it, a, k):
            return self.shape_of(it, a[0] if is_term(a[0]) else A(it, a[0]))

        @np_("ndim")
        def _(it, a, k):
            return ndim(A(it, a[0]))

        @np_("size")
        def _(it, a, k):
            return size(A(it, a[0]))

        @np_("broadcast_to")
        def _(it, a, k):
            x = A(it, a[0])
            return op("broadcast", (x, freeze(shp(it, a[1]))))

        @np_("broadcast_arrays")
        def _(it, a, k):
            return ListV([A(it, x) for x in a])

        @np_("digitize")
        def _(it, a, k):
            x = A(it, a[0])
            return op("digitize", (x, A(it, a[1]), bool(kwget(a, k, 2, "right", False) is True)), nd=nd_of(x), scalar=x.scalar, integer=True)

        @np_("searchsorted")
        def _(it, a, k):
            x = A(it, a[1])
            side = kwget(a, k, 2, "side", "left")
            return op("digitize", (x, A(it, a[0]), side == "left"), nd=nd_of(x), scalar=x.scalar, integer=True)

        @np_("isclose", "allclose", "array_equal")
        def _(it, a, k):
            return batom(_mk_atom("isclose", tuple(freeze(x) for x in a) + (freeze(DictV(k)),)))

        @np_("errstate")
        def _(it, a, k):
            return op("ctx", ())

        @np_("vectorize")
        def _(it, a, k):
            f = a[0]
            return NatV(lambda i2, ar, kw: op("vec", (freeze(f), freeze(tuple(ar)), freeze(DictV(kw)))), "vectorized")

        @np_("flip", "flipud", "fliplr", "sort", "argsort", "roll", "unique", "median", "percentile", "quantile", "argmax", "argmin", "cumprod",
             "tile", "repeat", "gradient", "histogram", "ptp", "nanmedian", "nanpercentile", "take", "delete", "insert", "bincount", "setxor1d", "isin", "in1d", "union1d", "intersect1d", "setdiff1d", "tril", "triu", "convolve", "polyval", "count_nonzero")
        def _placeholder(it, a, k):
            raise Unsupported("np")
        for n in ("flip", "flipud", "fliplr", "sort", "argsort", "roll", "unique", "median", "percentile", "quantile", "argmax", "argmin", "cumprod",
                  "tile", "repeat", "gradient", "histogram", "ptp", "nanmedian", "nanpercentile", "take", "delete", "insert", "bincount", "setxor1d", "isin", "in1d", "union1d", "intersect1d", "setdiff1d", "tril", "triu", "convolve", "polyval", "count_nonzero"):
            def g(it, a, k, n=n):
                kw = tuple(sorted((kk, freeze(v)) for kk, v in k.items()))
                xs = tuple(freeze(x) for x in a)
                nd = None
                if xs and isinstance(xs[0], P) and n in ("flip", "sort", "roll", "argsort", "cumprod"):
                    nd = nd_of(xs[0])
                sc = n in ("median", "argmax", "argmin", "ptp", "count_nonzero") and "axis" not in k and len(a) == 1
                return op("np:" + n, xs + ((("kw",) + kw,) if kw else ()), nd=0 if sc else nd, scalar=sc)
            H["np." + n] = g
            _eq.KNOWN_UNINT.add("np:" + n)

        # ---- jax control
        @reg("jax.jit", "jax.checkpoint", "numba.njit", "numba.jit")
        def _(it, a, k):
            if not a:
                return PartialV(ExtV("jax.jit"), [], k)
            return a[0]

        @reg("functools.partial")
        def _(it, a, k):
            return PartialV(a[0], list(a[1:]), dict(k))

        @reg("jax.vmap")
        def _(it, a, k):
            f = a[0]
            ia = kwget(a, k, 1, "in_axes", ZERO)
            oa = kwget(a, k, 2, "out_axes", ZERO)

            def run(i2, ar, kw):
                axes = [ia] * len(ar) if not isinstance(ia, (tuple, ListV)) else list(i2._li(ia))
                if oa is not ZERO or any(not (x is None or x is ZERO) for x in axes):
                    return op("vmapx", (freeze(f), freeze(tuple(ar)), freeze(ia), freeze(oa)))
                arr = [A(i2, x) if ax is not None and not isinstance(x, (DictV, InstV)) else x for x, ax in zip(ar, axes)]
                ns = [dim(x, 0) for x, ax in zip(arr, axes) if ax is not None]
                n = ns[0]
                i = fresh_idx()
                row = [index(x, (i,)) if ax is not None else x for x, ax in zip(arr, axes)]
                i2.binders.append((as_atom(i), n))
                try:
                    r = i2.call(f, row, kw)
                finally:
                    i2.binders.pop()
                if isinstance(r, tuple):
                    return tuple(i2.map_val(n, i, y) for y in r)
                return i2.map_val(n, i, r)
            return NatV(run, "vmapped")

        @reg("lax.fori_loop")
        def _(it, a, k):
            lo, hi = A(it, a[0]), A(it, a[1])
            f, init = a[2], a[3]
            if lo.is_const() and hi.is_const() and hi.const() - lo.const() <= 32:
                st = init
                for j in range(int(lo.const()), int(hi.const())):
                    st = it.call(f, [num(j), st], {})
                return st
            return self.fori(it, lo, hi, f, init)

        @reg("lax.cond")
        def _(it, a, k):
            c = it.cond(a[0])
            ops_ = list(a[3:])
            x = it._gbranch(c, lambda: it.call(a[1], ops_, {})) if c is not FALSE else UNDEF
            y = it._gbranch(cnot(c), lambda: it.call(a[2], ops_, {})) if c is not TRUE else UNDEF
            return it.merge(c, x, y)

        @reg("lax.scan", "lax.while_loop", "lax.map", "jax.grad", "jax.value_and_grad", "jax.hessian", "jax.jacfwd", "jax.pmap", "lax.switch")
        def _(it, a, k):
            raise Unsupported("jax control primitive")

        @reg("lax.map")
        def _(it, a, k):
            return H["jax.vmap"](it, [a[0]], {}).fn(it, [a[1]], {})

        @reg("jax.device_put", "jax.block_until_ready", "jax.device_get")
        def _(it, a, k):
            return a[0]

        @reg("lax.broadcast_shapes", "np.broadcast_shapes")
        def _(it, a, k):
            fs = [x for x in a if x != ()]
            if not fs:
                return ()
            if all(x is fs[0] or (isinstance(x, tuple) and isinstance(fs[0], tuple) and x == fs[0]) for x in fs):
                return fs[0]
            return op("bshape", (frozenset_sorted(freeze(x) for x in fs),))

        @reg("dist.constraints.interval")
        def _(it, a, k):
            lo, hi = kwget(a, k, 0, "lower_bound"), kwget(a, k, 1, "upper_bound")
            return op("call:dist.constraints.interval", (freeze(lo), freeze(hi)))

        @reg("dist.util.promote_shapes")
        def _(it, a, k):
            return tuple(a)

        @reg("dist.util.is_prng_key")
        def _(it, a, k):
            return True

        @reg("dist.util.validate_sample")
        def _(it, a, k):
            return a[0]

        # ---- numpyro primitives
        @reg("numpyro.sample")
        def _(it, a, k):
            nm = kwget(a, k, 0, "name")
            d = kwget(a, k, 1, "fn")
            ss = k.get("sample_shape", ())
            if isinstance(ss, ListV):
                ss = tuple(ss.items)
            if isinstance(ss, tuple) and isinstance(d, P):
                d, more = unbatch(d)
                ss = ss + more
            extra = {"dist": d, "sample_shape": ss, "obs": k.get("obs"), "rng_key": k.get("rng_key")}
            nd = None
            da = as_atom(d) if isinstance(d, P) else None
            if da is not None and da.op.startswith("dist:") and da.op[5:] in UNIVARIATE and isinstance(ss, tuple):
                if all(_scalarish(v) for _, v in da.args if isinstance(_, str)):
                    nd = len(ss)
            v = op("sample", (freeze(nm), freeze(d), freeze(ss), freeze(k.get("obs"))), nd=nd, scalar=(nd == 0))
            if k.get("obs") is not None:
                v = k["obs"]
            it.effect("sample", nm, v, extra)
            return v

        @reg("numpyro.deterministic")
        def _(it, a, k):
            nm, v = kwget(a, k, 0, "name"), kwget(a, k, 1, "value")
            it.effect("deterministic", nm, v)
            return v

        @reg("numpyro.factor")
        def _(it, a, k):
            nm, v = kwget(a, k, 0, "name"), kwget(a, k, 1, "log_factor")
            it.effect("factor", nm, v)
            return None

        @reg("numpyro.plate")
        def _(it, a, k):
            nm, n = kwget(a, k, 0, "name"), kwget(a, k, 1, "size")
            return op("call:numpyro.plate", (freeze(nm), freeze(n)))

        # ---- builtins
        @reg("len")
        def _(it, a, k):
            v = a[0]
            if isinstance(v, (ListV, tuple)):
                items = it._li(v)
                n = ZERO
                for x in items:
                    if isinstance(x, Seg):
                        n = add(n, x.n)
                    elif isinstance(x, GammaV) and isinstance(x.a, ListV):
                        n = add(n, where(x.c, num(len(x.a.items)), num(len(x.b.items))))
                    else:
                        n = add(n, ONE)
                return n
            if isinstance(v, DictV):
                if v.open is None:
                    return num(len(v.d))
                return op("len", (freeze(v),), scalar=True, integer=True)
            if isinstance(v, str):
                return num(len(v))
            if isinstance(v, RangeV):
                return v.length()
            if isinstance(v, SymIter):
                return v.n
            if isinstance(v, (P, C)):
                x = to_P(v)
                a_ = as_atom(x)
                if a_ is not None and a_.op == "shape":
                    return ndim(a_.args[0])
                if nd_of(x) == 0:
                    raise PyRaise("TypeError", "len of unsized object", it.node)
                return dim(x, 0)
            if isinstance(v, InstV):
                f, _ = v.cls.lookup("__len__")
                if f is not None:
                    return it.call(BoundV(f, v), [], {})
            return op("len", (freeze(v),), scalar=True, integer=True)

        @reg("range", "tqdm.trange", "trange")
        def _(it, a, k):
            v = [A(it, x) for x in a]
            if len(v) == 1:
                return RangeV(ZERO, v[0], ONE)
            return RangeV(v[0], v[1], v[2] if len(v) > 2 else ONE)

        @reg("tqdm.tqdm", "iter")
        def _(it, a, k):
            return a[0]

        @reg("enumerate")
        def _(it, a, k):
            s = A(it, kwget(a, k, 1, "start", ZERO))
            v = it.as_iter(a[0])
            if isinstance(v, list):
                if any(isinstance(x, Seg) for x in v):
                    raise Unsupported("enumerate over mixed list")
                return ListV([(add(s, num(j)), x) for j, x in enumerate(v)])
            return SymIter(v.n, lambda i: (add(s, i), v.elem(i)))

        @reg("zip")
        def _(it, a, k):
            vs = [it.as_iter(x) for x in a]
            if all(isinstance(v, list) for v in vs):
                return ListV(list(zip(*vs)))
            fixed = [len(v) for v in vs if isinstance(v, list)]
            if fixed:
                n = min(fixed)
                return ListV([tuple(v[j] if isinstance(v, list) else v.elem(num(j)) for v in vs) for j in range(n)])
            return SymIter(vs[0].n, lambda i: tuple(v.elem(i) for v in vs))

        @reg("reversed")
        def _(it, a, k):
            if isinstance(a[0], RangeV) and not a[0].concrete():
                r = a[0]
                return RangeV(add(r.a, mul(sub(r.length(), ONE), r.c)), sub(r.a, r.c), neg(r.c))
            return ListV(list(reversed(it.iter_items(a[0]))))

        @reg("map")
        def _(it, a, k):
            its = [it.as_iter(v) for v in a[1:]]
            if all(isinstance(v, list) for v in its):
                return ListV([it.call(a[0], list(xs), {}) for xs in zip(*its)])
            if len(its) == 1:
                return SymIter(its[0].n, lambda i: it.call(a[0], [its[0].elem(i)], {}))
            fixed = [len(v) for v in its if isinstance(v, list)]
            if fixed:
                return ListV([it.call(a[0], [v[j] if isinstance(v, list) else v.elem(num(j)) for v in its], {}) for j in range(min(fixed))])
            return SymIter(its[0].n, lambda i: it.call(a[0], [v.elem(i) for v in its], {}))

        @reg("filter")
        def _(it, a, k):
            its = it.as_iter(a[1])
            if not isinstance(its, list) or any(isinstance(x, (Seg, GammaV)) for x in its):
                raise Unsupported("filter over symbolic list")
            res = []
            for x in its:
                c = it.cond(x if a[0] is None else it.call(a[0], [x], {}))
                if c is TRUE:
                    res.append(x)
                elif c is not FALSE:
                    res.append(GammaV(c, ListV([x]), ListV([])))
            return ListV(res)

        @reg("functools.cache", "functools.lru_cache")
        def _(it, a, k):
            if a and len(a) == 1 and not k and not is_term(a[0]):
                return a[0]
            raise Unsupported("decorator")

        @reg("itertools.chain")
        def _(it, a, k):
            return ListV([x for v in a for x in it.iter_items(v)])

        @reg("itertools.product")
        def _(it, a, k):
            if k:
                raise Unsupported("product with repeat")
            r = [()]
            for v in a:
                xs = it.iter_items(v)
                r = [p + (x,) for p in r for x in xs]
            return ListV(r)

        @reg("list", "tuple", "set", "frozenset", "sorted")
        def _(it, a, k):
            raise Unsupported("seq")

        def seq(kind):
            def h(it, a, k):
                if not a:
                    return () if kind == "tuple" else ListV([], "set" if kind == "set" else "list")
                v = a[0]
                if isinstance(v, DictV) and v.open is not None:
                    return op("keys", (freeze(v),))
                r = it.as_iter(v)
                if isinstance(r, SymIter):
                    if isinstance(v, P):
                        return v if kind != "sorted" else op("np:sort", (v,), nd=nd_of(v))
                    i = fresh_idx()
                    e = r.elem(i)
                    return ListV([Seg(r.n, it.map_val(r.n, i, e))])
                if kind == "tuple":
                    return tuple(r)
                if kind in ("sorted",):
                    f, down = k.get("key"), k.get("reverse", False)
                    keys = [x if f is None else it.call(f, [x], {}) for x in r]
                    keys = [plain_key(x) for x in keys]
                    if set(k) <= {"key", "reverse"} and isinstance(down, bool) and None not in keys:
                        try:
                            return ListV([r[j] for j in sorted(range(len(r)), key=keys.__getitem__, reverse=down)])
                        except TypeError:
                            pass
                    return op("sorted", (freeze(v), freeze(DictV(k))) if k else (freeze(v),))
                if kind == "set":
                    out = []
                    for x in r:
                        if not any(x is y or (isinstance(x, str) and x == y) for y in out):
                            out.append(x)
                    return ListV(out, "set")
                return ListV(r)
            return h
        for n in ("list", "tuple", "set", "sorted"):
            H[n] = seq(n)
        H["frozenset"] = H["set"]

        @reg("dict", "collections.OrderedDict")
        def _(it, a, k):
            d = DictV()
            if a:
                it.dict_update(d, a[0])
                if isinstance(a[0], P):
                    d.open = a[0]
            for kk, v in k.items():
                if kk == "**":
                    d.open = v
                else:
                    d.d[kk] = v
            return d

        @reg("sum")
        def _(it, a, k):
            v = a[0]
            st = A(it, kwget(a, k, 1, "start", ZERO))
            if isinstance(v, (P, C)):
                return add(st, rsum(to_P(v), 0 if nd_of(v) != 1 else None))
            its = it.as_iter(v)
            if isinstance(its, SymIter):
                i = fresh_idx()
                return add(st, mk_sum(its.n, i, A(it, its.elem(i))))
            tot = st
            for x in its:
                if isinstance(x, Seg):
                    tot = add(tot, rsum(x.arr, 0)) if isinstance(x.arr, P) else op("unk:sum", ())
                else:
                    tot = it.binop(__import__("ast").Add(), tot, x)
            return tot

        def bmm(which):
            def h(it, a, k):
                if len(a) == 1:
                    v = a[0]
                    if isinstance(v, (P, C)):
                        return rmaxmin("rmax" if which == "max" else "rmin", to_P(v), None, it)
                    xs = it.iter_items(v)
                else:
                    xs = a
                if k or not all(is_term(x) for x in xs) or not xs:
                    return op("call:" + which, (freeze(tuple(xs)), freeze(DictV(k))))
                r = to_P(xs[0])
                for y in xs[1:]:
                    r = maximum(r, to_P(y)) if which == "max" else minimum(r, to_P(y))
                return r
            return h
        H["max"], H["min"] = bmm("max"), bmm("min")

        def banyall(isany):
            def h(it, a, k):
                its = it.as_iter(a[0])
                if isinstance(its, SymIter):
                    i = fresh_idx()
                    c = it.cond(its.elem(i))
                    r = it.anyover(its.n, i, c if isany else cnot(c))
                    return it.simp(r if isany else cnot(r))
                if any(isinstance(x, Seg) for x in its):
                    raise Unsupported("any/all over symbolic list")
                cs = [it.cond(x) for x in its]
                return it.simp((cor if isany else cand)(*cs) if cs else (FALSE if isany else TRUE))
            return h
        H["any"], H["all"] = banyall(True), banyall(False)

        @reg("int")
        def _(it, a, k):
            if not a:
                return ZERO
            v = a[0]
            if isinstance(v, str):
                try:
                    return num(int(v))
                except ValueError:
                    raise PyRaise("ValueError", "int()", it.node)
            if not is_term(v):
                return op("call:int", (freeze(v),))
            x = to_P(v)
            if x.is_const():
                return num(int(x.const()))
            if x.scalar and all(a_.integer and e.is_const() for m in x.terms for a_, e in m) and all(c.denominator == 1 for c in x.terms.values()):
                return x
            return op("int", (x,), nd=nd_of(x), integer=True, scalar=x.scalar)

        @reg("float")
        def _(it, a, k):
            v = a[0] if a else ZERO
            if isinstance(v, str):
                try:
                    return fnum(float(v))
                except (ValueError, OverflowError):
                    return op("call:float", (v,))
            return to_P(v) if is_term(v) else op("call:float", (freeze(v),))

        @reg("complex")
        def _(it, a, k):
            return A(it, a[0])

        @reg("bool")
        def _(it, a, k):
            return it.simp(it.cond(a[0])) if a else False

        @reg("str", "repr")
        def _(it, a, k):
            if not a:
                return ""
            return mkstr([it.strpart(a[0])])

        @reg("print", "jax.debug.print", "warnings.warn", "sys.stdout.write", "gc.collect")
        def _(it, a, k):
            return None

        @reg("isinstance")
        def _(it, a, k):
            return isinst(it, a[0], a[1])

        def isinst(it, v, t):
            if isinstance(t, (tuple, ListV)):
                cs = [it.cond(isinst(it, v, x)) for x in it._li(t)]
                return it.simp(cor(*cs))
            if isinstance(v, GammaV):
                return it.lift_gamma(v, lambda g: isinst(it, g, t))
            if isinstance(t, ClassV):
                if isinstance(v, InstV):
                    return t in v.cls.mro()
                if isinstance(v, P):
                    a_ = as_atom(v)
                    if a_ is not None and a_.op.startswith("new:"):
                        c = it.get(a_.op[4:])
                        if isinstance(c, ClassV):
                            return t in c.mro()
                    if is_number(v):
                        return False
                    return batom(_mk_atom("isinstance", (v, t.qual)))
                return False
            if isinstance(t, ExtV):
                n = t.name
                if n in ("list",) and isinstance(v, ListV):
                    return v.kind == "list"
                if n == "set" and isinstance(v, ListV):
                    return v.kind == "set"
                if isinstance(v, (ListV,)):
                    return False
                if isinstance(v, tuple):
                    return n == "tuple"
                if isinstance(v, DictV):
                    return n == "dict"
                if isinstance(v, (str, StrV)):
                    return n == "str"
                if v is None or isinstance(v, (FuncV, ClassV, InstV)):
                    if isinstance(v, InstV):
                        return any(isinstance(c, ExtV) and c.name == n for c in v.cls.mro())
                    return False
                if isinstance(v, bool):
                    return n in ("bool", "int")
                if isinstance(v, P) and is_number(v) and n in ("list", "tuple", "dict", "str", "set"):
                    return False
                if isinstance(v, P) and v.is_const():
                    if n in ("int", "float"):
                        return (v.const().denominator == 1) == (n == "int")
                if isinstance(v, (P, C)) and n in ("list", "tuple", "dict", "str"):
                    a_ = as_atom(to_P(v))
                    if a_ is not None and a_.op == "sym":
                        return False
            return batom(_mk_atom("isinstance", (freeze(v), freeze(t))))

        @reg("type")
        def _(it, a, k):
            v = a[0]
            if isinstance(v, InstV):
                return v.cls
            for t, n in ((DictV, "dict"), (tuple, "tuple"), (str, "str"), (StrV, "str"), (bool, "bool")):
                if isinstance(v, t):
                    return ExtV(n)
            if isinstance(v, ListV):
                return ExtV(v.kind)
            if isinstance(v, P) and v.is_const():
                return ExtV("int" if v.const().denominator == 1 else "float")
            return op("type", (freeze(v),))

        @reg("getattr")
        def _(it, a, k):
            if isinstance(a[1], str):
                try:
                    return it.getattr(a[0], a[1])
                except PyRaise as ex:
                    if len(a) > 2 and ex.typ == "AttributeError":
                        return a[2]
                    raise
            return op("getattr", (freeze(a[0]), freeze(a[1])))

        @reg("hasattr")
        def _(it, a, k):
            if isinstance(a[0], InstV) and isinstance(a[1], str):
                return a[1] in a[0].attrs or a[0].cls.lookup(a[1])[1] is not None
            if isinstance(a[0], ClassV) and isinstance(a[1], str) and (a[0].lookup(a[1])[1] is not None or not a[0].has_ext_base()):
                return a[0].lookup(a[1])[1] is not None
            if isinstance(a[0], FuncV) and isinstance(a[1], str) and not a[1].startswith("__"):
                return a[1] in a[0].ns
            return batom(_mk_atom("hasattr", (freeze(a[0]), freeze(a[1]))))

        @reg("setattr")
        def _(it, a, k):
            it.setattr(a[0], a[1], a[2])
            return None

        @reg("callable")
        def _(it, a, k):
            return isinstance(a[0], (FuncV, BoundV, ClassV, NatV, PartialV, ExtV))

        @reg("object")
        def _(it, a, k):
            return op("object", ())

        @reg("slice")
        def _(it, a, k):
            if len(a) == 1:
                return ("slice", None, a[0], None)
            return ("slice", a[0], a[1], a[2] if len(a) > 2 else None)

        @reg("open")
        def _(it, a, k):
            r = op("call:open", tuple(freeze(x) for x in a))
            it.effect("extcall", "open", r, (tuple(freeze(x) for x in a), ()))
            return r

        @reg("functools.reduce")
        def _(it, a, k):
            its = it.iter_items(a[1])
            r = a[2] if len(a) > 2 else its[0]
            for x in (its if len(a) > 2 else its[1:]):
                r = it.call(a[0], [r, x], {})
            return r

        import operator as _o
        for nm, f in (("mul", mul), ("add", add), ("sub", sub), ("truediv", div)):
            H["operator." + nm] = (lambda f: lambda it, a, k: f(A(it, a[0]), A(it, a[1])))(f)

        @reg("copy.copy", "copy.deepcopy")
        def _(it, a, k):
            v = a[0]
            if isinstance(v, DictV):
                return DictV(v.d, v.open)
            if isinstance(v, ListV):
                return ListV(v.items, v.kind)
            if isinstance(v, InstV):
                return InstV(v.cls, dict(v.attrs))
            return v

        for n in ("rmax", "rmin", "any", "digitize", "lsolve", "linv", "linspace", "arange", "concat", "zeros", "ones", "diag", "meshgrid", "rprod",
                  "geomspace", "logspace", "repeat", "flatten", "squeeze", "transposeax", "broadcast", "shape", "matmul", "prodover", "anyover", "cumsum", "eye", "hstack",
                  "interp_period", "diffax", "bool2num", "map", "store", "prefix", "in", "isnone", "dxgrid"):
            _eq.KNOWN_UNINT.add(n)

    # ------------------------------------------------------------ fori_loop
    def fori(self, it, lo, hi, f, init):
        n = sub(hi, lo)
        comps, rebuildf = self.split_state(it, init)
        if comps is None:
            raise Unsupported("fori state")
        i = fresh_idx()
        phs = [it.placeholder(c) for c in comps]
        ne = len(it.effects)
        it.binders.append((as_atom(i), n))
        try:
            new = it.call(f, [add(lo, i), rebuildf(phs)], {})
        finally:
            it.binders.pop()
        ncomps, _ = self.split_state(it, new)
        if ncomps is None or len(ncomps) != len(comps):
            raise Unsupported("fori state shape")
        allphi = {it.ph_atom(p) for p in phs}
        group = list(zip(comps, ncomps, phs))
        out = [None] * len(comps)
        solved = {}
        progress = True
        ia = as_atom(i)
        while progress and any(o is None for o in out):
            progress = False
            for j, (pre, nw, ph) in enumerate(group):
                if out[j] is not None:
                    continue
                nw2 = subst_state(nw, solved)
                rest = {a for a in allphi if a is not it.ph_atom(ph) and a not in solved}
                if contains(nw2, lambda t: t in rest):
                    continue
                r = self.solve_one(it, n, lo, i, pre, nw2, ph)
                if r is not None:
                    out[j] = r
                    solved[it.ph_atom(ph)] = r
                    progress = True
        for j in range(len(out)):
            if out[j] is None:
                out[j] = it.fold(n, i, comps[j], ncomps[j], phs[j], allphi, group)
        return rebuildf(out)

    def solve_one(self, it, n, lo, i, pre, new, ph):
        pa = it.ph_atom(ph)
        if new is ph:
            return pre
        a = as_atom(new)
        if a is not None and a.op == "store" and a.args[0] is ph and len(a.args[1]) == 1:
            ix, v = a.args[1][0], a.args[2]
            if isinstance(ix, P) and isinstance(v, P) and ix is add(lo, i, ONE):
                cur = index(ph, (add(lo, i),))
                d = sub(v, cur)
                if not contains_atom(d, pa):
                    # x[k+1] = x[k] + g(k): running sum from the initial value at lo
                    return op("prefix", (index(pre, (lo,)), n, lo, mk_map(n, i, d)), nd=1)
        return None

    def split_state(self, it, v):
        if isinstance(v, P):
            e = arr_elems(v)
            if e is not None and len(e) <= 8:
                return list(e), lambda xs: mk_arr(xs)
            return [v], lambda xs: xs[0]
        if isinstance(v, (tuple, ListV)):
            items = it._li(v)
            if all(is_term(x) for x in items):
                k = isinstance(v, tuple)
                return [to_P(x) for x in items], (lambda xs: tuple(xs) if k else ListV(xs))
        return None, None


def subst_state(x, solved):
    return subst_atoms(x, {a: v for a, v in solved.items()}) if solved else x


def diff_n(x, n):
    """finite differences; concrete orders expand into shifted slices"""
    if n.is_const() and n.const().denominator == 1 and 0 < n.const() <= 4 and (nd_of(x) == 1):
        k = int(n.const())
        out = ZERO
        c = 1
        for j in range(k + 1):
            # sum_j (-1)^(k-j) C(k,j) x[j : len-(k-j)]
            lo = None if j == 0 else num(j)
            hi = None if j == k else num(-(k - j))
            out = add(out, scale(index(x, (("slice", lo, hi, None),)), Fraction((-1) ** (k - j) * _comb(k, j))))
        return out
    return diff(x, n)


def _comb(n, k):
    import math
    return math.comb(n, k)


def unzero(x):
    """zeros/ones arrays in a broadcasting position denote the constant"""
    a = as_atom(x) if isinstance(x, P) else None
    if a is not None and a.op == "zeros":
        return ZERO
    if a is not None and a.op == "ones":
        return ONE
    return x


def _is_shape(p):
    a = as_atom(p)
    return a is not None and (a.op in ("shape", "tupcat", "bshape") or a.op.startswith("attr"))


def _scalarish(v):
    if isinstance(v, (P, C)):
        return v.scalar
    return v is None or isinstance(v, bool)


# numpy functions on arrays of names
def unbatch(d):
    """distribution of independent copies of a scalar one: (the scalar one, shape of the copies)"""
    a = as_atom(d)
    if a is None:
        return d, ()
    if a.op == "meth:to_event" and len(a.args) <= 2:
        b, s = unbatch(a.args[0]) if isinstance(a.args[0], P) else (None, ())
        return (b, s) if s else (d, ())
    if a.op in ("meth:expand", "meth:expand_by") and len(a.args) == 2 and isinstance(a.args[0], P):
        s = a.args[1]
        if isinstance(s, tuple) and s[:1] in (("tuple",), ("list",)) and all(isinstance(x, P) for x in s[1:]):
            b = as_atom(a.args[0])
            if b is not None and b.op.startswith("dist:") and b.op[5:] in UNIVARIATE and all(_scalarish(v) for n, v in b.args if isinstance(n, str)):
                return a.args[0], tuple(s[1:])
        return d, ()
    if a.op.startswith("dist:") and a.op[5:] in UNIVARIATE and all(isinstance(x, tuple) and len(x) == 2 for x in a.args):
        ls = set()

        def fa(t):
            if t.op in ("ones", "zeros") and nd_of(atomP(t)) == 1:
                ls.add(dim(atomP(t), 0))
                return ONE if t.op == "ones" else ZERO
            return None
        vals = tuple((n, ops.Rewriter(fa=fa).P(v) if isinstance(v, P) else v) for n, v in a.args)
        if len(ls) == 1 and all(_scalarish(v) for n, v in vals):
            return op(a.op, vals), (next(iter(ls)),)
    return d, ()


NAMEFN = {
    "np.array": lambda a: list(a), "np.asarray": lambda a: list(a), "np.unique": lambda a: sorted(set(a)), "np.sort": lambda a: sorted(a),
    "np.setxor1d": lambda a, b: sorted(set(a) ^ set(b)), "np.setdiff1d": lambda a, b: sorted(set(a) - set(b)),
    "np.intersect1d": lambda a, b: sorted(set(a) & set(b)), "np.union1d": lambda a, b: sorted(set(a) | set(b)),
}


def frozenset_sorted(xs):
    return tuple(sorted(set(xs), key=repr))
