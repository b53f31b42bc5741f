"""Finite array models of terms.

Terms (normal forms extracted from source, never repository code) are given a
value in a structure whose elements are small numpy arrays: symbols denote
random arrays, the array operators have their usual meaning and uninterpreted
operators are hashes of their arguments.  Two terms are only reported as
different when they differ in such a structure, so that two spellings of one
array computation which the normaliser does not identify raise no alarm."""
import hashlib
import math

import numpy as np

from . import ops
from . import terms as tm
from .terms import C, ONE, P, T

SHAPES = {0: (), 1: (5,), 2: (3, 5), 3: (2, 3, 5), 4: (2, 2, 3, 5)}


# operators with algebraic laws (symmetry, associativity, inverses) that a hash of the operands would not respect
LINALG = {"linv", "lsolve", "matmul", "transpose", "det", "cholesky"}


class NoValue(Exception):
    pass


def _hash01(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big") / 2 ** 64


def as_op(x):
    a = ops.as_atom(x) if isinstance(x, P) else x
    return a.op if isinstance(a, T) else None


def fp(v):
    if isinstance(v, np.ndarray) or isinstance(v, (float, np.floating, int, np.integer, np.bool_)) and not isinstance(v, bool):
        a = np.asarray(v, dtype=float)
        if a.size > 200:
            s = a.ravel()[:: a.size // 37]
            return (a.shape, tuple("0" if abs(x) < 1e-9 else f"{x:.6e}" for x in s.tolist()))
        return (a.shape, tuple("0" if abs(x) < 1e-9 else f"{x:.6e}" for x in a.ravel().tolist()))
    if isinstance(v, tuple):
        return tuple(fp(x) for x in v)
    return repr(v)


_erf = np.vectorize(math.erf, otypes=[float])
_erfc = np.vectorize(math.erfc, otypes=[float])


def _lg(x):
    try:
        return math.lgamma(x)
    except (ValueError, OverflowError):
        return float("nan")


_lgam = np.vectorize(_lg, otypes=[float])

F = {
    "sin": np.sin, "cos": np.cos, "tan": np.tan, "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan, "arctanh": np.arctanh,
    "tanh": np.tanh, "sinh": np.sinh, "cosh": np.cosh, "arcsinh": np.arcsinh, "arccosh": np.arccosh, "erf": _erf, "erfc": _erfc, "gammaln": _lgam,
    "floor": np.floor, "ceil": np.ceil, "sign": np.sign, "arctan2": np.arctan2, "max2": np.maximum, "min2": np.minimum, "abs": np.abs, "log": np.log,
    "int": np.trunc, "trunc": np.trunc, "round": np.round, "rint": np.rint, "floordiv": np.floor_divide, "mod": np.mod,
    "expit": lambda x: 1 / (1 + np.exp(-x)), "logaddexp": np.logaddexp, "hypot": np.hypot, "real": np.real, "stopgrad": lambda x: x, "astype": lambda x, *a: x,
    "betaln": lambda a, b: _lgam(a) + _lgam(b) - _lgam(a + b),
}
NPF = {"flip", "flipud", "fliplr", "sort", "argsort", "median", "argmax", "argmin", "cumprod", "ptp", "unique", "tril", "triu", "count_nonzero"}


class Model:
    def __init__(self, seed, domains=None, setv=None, setb=None):
        self.seed = seed
        self.dom = domains or {}
        self.shapes = self.dom.get("@shapes", {})
        self.setv = setv or {}
        self.setb = setb or {}
        self.memo = {}
        self.hashed = set()
        self.nonfinite = False
        self.smooth = False
        self.vary = False
        self.plate = None

    # ------------------------------------------------------------
    def P(self, p, env):
        bvs = tm.P_bvs(p)
        k = (p, tuple(sorted((a.args[0], env.get(a.args[0])) for a in bvs))) if bvs else (p, ())
        if k in self.memo:
            return self.memo[k]
        tot = None
        for m, c in p.terms.items():
            v = float(c)
            for a, e in m:
                if a is tm.E:
                    v = v * np.exp(self.P(e, env))
                    continue
                x = self.atom(a, env)
                if e is ONE:
                    v = v * x
                else:
                    v = v * np.power(np.asarray(x, dtype=float), self.P(e, env))
            tot = v if tot is None else tot + v
        if tot is None:
            tot = 0.0
        self.memo[k] = tot
        return tot

    def C(self, c, env):
        if c.kind == "const":
            return np.bool_(c.data)
        if c.kind == "sgn":
            v = self.P(c.data[0], env)
            r = np.zeros(np.shape(v), dtype=bool)
            for s in c.data[1]:
                r = r | (np.abs(v) < 1e-11 if s == "0" else (v >= 1e-11 if s == "+" else v <= -1e-11))
            return r
        if c.kind == "b":
            a = c.data
            if a in self.setb and not a.bvs:
                return np.bool_(self.setb[a])
            if a.op in ("isnan", "isinf", "isfinite"):
                return getattr(np, a.op)(self.P(a.args[0], env))
            if a.op == "any" and (a.args[1] is None or isinstance(a.args[1], int)):
                return np.any(np.asarray(self.any(a.args[0], env)) != 0, axis=a.args[1])
            return np.bool_(_hash01("b", self.seed, a.op, self.fps(a.args, env)) < 0.5)
        if c.kind == "not":
            return ~np.asarray(self.C(c.data, env))
        r = None
        for x in c.data:
            v = self.C(x, env)
            r = v if r is None else (r & v if c.kind == "and" else r | v)
        return r

    def any(self, x, env):
        if isinstance(x, P):
            return self.P(x, env)
        if isinstance(x, C):
            return self.C(x, env)
        if isinstance(x, T):
            return self.atom(x, env)
        if isinstance(x, tuple):
            return tuple(self.any(y, env) for y in x)
        return x

    def fps(self, args, env):
        return tuple(fp(self.any(x, env)) for x in args)

    def symval(self, a):
        name = a.args[0]
        if a in self.setv and (a.scalar or not self.vary):
            return np.float64(self.setv[a])
        sh = self.shapes.get(name)
        if sh is None and a in ops.LENGTHS and not a.scalar and a.nd:
            sh = (int(round(float(self.P(ops.LENGTHS[a], {})))),) + SHAPES[a.nd][1:]
        if sh is None:
            sh = () if a.scalar else SHAPES.get(a.nd, ())
        lo, hi = self.dom.get(name, (0.15, 2.6))
        rng = np.random.default_rng(int(_hash01(self.seed, name) * 2 ** 53))
        if isinstance(lo, (tuple, list, np.ndarray)):
            raise NoValue
        v = lo + (hi - lo) * rng.random(sh)
        if self.vary and name not in self.dom and not a.integer:
            v = v * (1, 1, 1, 1, 4, 0.2, 30, 0.02)[int(8 * rng.random())]
            if not a.pos and rng.random() < 0.3:
                v = -v if rng.random() < 0.5 else v - np.mean(v)
        if a.integer and self.vary and name not in self.dom and rng.random() < 0.4:
            v = np.floor(2 + 50 * rng.random(sh) ** 3)
        elif a.integer:
            v = np.round(v) if name in self.dom else np.floor(2 + 4 * rng.random(sh))
        if sh and a in self.setv:
            v.flat[0] = self.setv[a]
        if sh and self.nonfinite and not a.integer:
            v.flat[rng.integers(v.size)] = (np.nan, np.inf, -np.inf)[self.seed % 3]
        return v if sh else np.float64(v)

    def atom(self, a, env):
        if a.op == "sym":
            k = (a, ())
        else:
            k = (a, tuple(sorted((b.args[0], env.get(b.args[0])) for b in a.bvs))) if a.bvs else (a, ())
        if k in self.memo:
            return self.memo[k]
        v = None
        try:
            v = self._atom(a, env)
        except (ValueError, IndexError, TypeError, np.linalg.LinAlgError, KeyError, ZeroDivisionError, OverflowError):
            v = None
        if v is None:
            v = self.hash(a, env)
        self.memo[k] = v
        return v

    def hash(self, a, env):
        self.hashed.add(a.op)
        if self.smooth and (a.op in ops.POINTWISE or a.op.startswith(("meth:", "call:"))):
            return self.free(a, env)
        u = _hash01("F", a.op, self.fps(a.args, env))
        if a.integer:
            return np.float64(3 + int(u * 4))
        return np.float64(0.15 + 2.45 * u)

    def free(self, a, env):
        """an unknown function: smooth in its arguments, elementwise in the arrays (methods: in the first one)"""
        t = 6.0 * _hash01("phase", self.seed, a.op)
        first = True
        for k, x in enumerate(a.args):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                x = x[1]
            v = self.any(x, env)
            c = 0.7 + 2 * _hash01("c", self.seed, a.op, k)
            if isinstance(v, (np.ndarray, float, np.floating, np.bool_)) and not (a.op.startswith("meth:") and np.ndim(v) and not first):
                first = first and not np.ndim(v)
                t = t + c * np.asarray(v, dtype=float)
            elif isinstance(v, np.ndarray):
                w = np.asarray(v, dtype=float).ravel()
                t = t + c * float(np.sum(w * np.cos(np.arange(w.size) * 1.7 + k)))
            else:
                t = t + 6.0 * _hash01("arg", self.seed, a.op, k, fp(v))
        return 1.375 + 1.2 * np.sin(t)

    # ------------------------------------------------------------
    def arr(self, x, env):
        """evaluated operand of a structural operator; unknown shape -> not interpretable"""
        v = self.any(x, env)
        if isinstance(v, tuple) or not np.ndim(v):
            raise ValueError
        return np.asarray(v, dtype=float)

    def idx1(self, q, env):
        if q is None or q is Ellipsis:
            return q
        if isinstance(q, C):
            return np.asarray(self.C(q, env))
        if isinstance(q, tuple) and q and q[0] == "slice":
            return slice(*[None if y is None else int(round(float(self.any(y, env)))) for y in q[1:4]])
        if isinstance(q, tuple) and q and q[0] == "list":
            return [int(round(float(self.any(y, env)))) for y in q[1:]]
        v = self.any(q, env)
        if isinstance(v, tuple) or isinstance(v, str):
            raise ValueError
        return np.round(np.asarray(v)).astype(int) if np.ndim(v) else int(round(float(v)))

    def ints(self, s, env):
        if isinstance(s, tuple):
            s = s[1:] if s and s[0] in ("tuple", "list") else s
            out = []
            for y in s:
                if isinstance(y, tuple):
                    raise ValueError
                out.append(int(round(float(self.any(y, env)))))
            return tuple(out)
        return (int(round(float(self.any(s, env)))),)

    def _atom(self, a, env):
        o, A = a.op, a.args
        if o == "sym":
            return self.symval(a)
        if a in self.setv and not a.bvs:
            return np.float64(self.setv[a])
        if self.vary:
            # random keys, draws and the plate of the observations, in the models that confirm a difference
            if o in ("PRNGKey", "split") or o == "index" and as_op(A[0]) == "split":
                return np.float64(_hash01("key", o, self.fps(A, env)))
            if o == "plateidx":
                return np.arange(int(round(float(self.any(A[0][1], env)))), dtype=float)
            if o == "jr:choice":
                d = {x[0]: x[1] for x in A}
                n = self.any(d.get("a"), env)
                if np.ndim(n) or d.get("shape") not in ((), ("tuple",)):
                    raise ValueError
                return np.float64(int(_hash01(o, self.fps(A, env)) * n))
            if o == "sample" and as_op(A[1]) == "dist:Categorical" and self.plate is not None and A[3] is None:
                n = self.any(self.plate, env)
                return np.array([int(2 * _hash01(o, self.seed, fp(A[0]) if not isinstance(A[0], tuple) else 0, i)) for i in range(int(round(float(n))))], dtype=float)
        if o == "pi":
            return math.pi
        if o == "num":
            return float(A[0])
        if o == "inf":
            return np.inf
        if o == "nan":
            return np.nan
        if o == "fmax":
            return 1.7e308
        if o == "sum":
            return self.P(A[0], env)
        if o == "bv":
            if A[0] in env:
                return np.float64(env[A[0]])
            raise NoValue
        if o == "idx":
            return np.float64(1)
        if o == "where":
            return np.where(self.C(A[0], env), self.P(A[1], env), self.P(A[2], env))
        if o in F:
            return F[o](*[self.P(x, env) for x in A if isinstance(x, P)])
        if o == "nan_to_num":
            x = self.P(A[0], env)
            na, pi, ni = [self.any(y, env) if isinstance(y, P) else None for y in (tuple(A[1:]) + (None,) * 3)[:3]]
            x = np.where(np.isnan(x), 0.0 if na is None else na, x)
            x = np.where(x == np.inf, 1.7e308 if pi is None else pi, x)
            return np.where(x == -np.inf, -1.7e308 if ni is None else ni, x)
        if o in ("rsum", "rmax", "rmin", "rprod"):
            x = self.arr(A[0], env)
            f = {"rsum": np.sum, "rmax": np.max, "rmin": np.min, "rprod": np.prod}[o]
            return f(x, axis=A[1])
        if o == "trapz":
            y = self.any(A[0], env)
            x = self.arr(A[1], env)
            if not np.ndim(y):
                if tm.P_bvs(A[0]) or A[0].scalar or A[0] is ONE:
                    y = np.full(x.shape, y)
                else:
                    raise ValueError
            return np.trapezoid(np.asarray(y, dtype=float), x, axis=A[2])
        if o == "cumsum":
            return np.cumsum(self.arr(A[0], env), axis=A[1] if len(A) > 1 and isinstance(A[1], int) else None)
        if o == "diff":
            return np.diff(self.arr(A[0], env), n=int(self.any(A[1], env)))
        if o == "interp":
            if len(A) > 3:
                return None
            xp, fpv = self.arr(A[1], env), self.any(A[2], env)
            if not np.ndim(fpv):
                if A[2].scalar:
                    return np.full(np.shape(self.P(A[0], env)), fpv)
                raise ValueError
            s = np.argsort(xp)
            return np.interp(self.P(A[0], env), xp[s], fpv[s])
        if o == "einsum":
            xs = [self.arr(x, env) for x in A[2]]
            return np.einsum(A[0] + "->" + A[1], *xs)
        if o == "index":
            b = self.arr(A[0], env)
            ii = tuple(self.idx1(q, env) for q in A[1])
            cl = []
            ax = 0
            for q in ii:
                if isinstance(q, (int, np.ndarray)) and not (isinstance(q, np.ndarray) and q.dtype == bool):
                    # jax semantics: out-of-range reads are clamped
                    q = np.clip(q, -b.shape[ax], b.shape[ax] - 1) if ax < b.ndim else q
                cl.append(q)
                if q is not None:
                    ax += 1
            r = b[tuple(cl)]
            return np.float64(r) if not np.ndim(r) else r
        if o == "store":
            b = self.arr(A[0], env).copy()
            b[tuple(self.idx1(q, env) for q in A[1])] = self.any(A[2], env)
            return b
        if o == "mapstore" and len(A) == 4 and isinstance(A[2], P):
            b, v, k = self.arr(A[0], env).copy(), self.arr(A[2], env), int(round(float(self.P(A[3], env))))
            b[k:k + len(v)] = v[:len(b[k:])]
            return b
        if o in ("map", "sumover", "prodover"):
            if o == "map" and not isinstance(A[1], P):
                return None
            n = int(round(float(self.P(A[0], env))))
            if n < 0 or n > 40:
                return None
            lvl = A[2] if len(A) > 2 else None
            if lvl is None:
                return None
            vals = []
            for k in range(n):
                e2 = dict(env)
                e2[lvl] = k
                vals.append(self.P(A[1], e2))
            if o == "sumover":
                return sum(vals) if vals else 0.0
            if o == "prodover":
                return np.prod(vals, axis=0)
            sh = {np.shape(v) for v in vals}
            if len(sh) > 1:
                vals = list(np.broadcast_arrays(*vals))
            return np.array(vals, dtype=float)
        if o == "arr":
            vals = [self.any(x, env) for x in A[0]]
            if any(isinstance(v, tuple) for v in vals):
                return None
            if len({np.shape(v) for v in vals}) > 1:
                vals = list(np.broadcast_arrays(*vals))
            return np.array(vals, dtype=float)
        if o == "concat":
            return np.concatenate([np.atleast_1d(self.any(x, env)) for x in A[0]], axis=A[1])
        if o == "concatseg":
            x = self.arr(A[1], env)
            return x.reshape((-1,) + x.shape[2:])
        if o == "linspace":
            if len(A) > 3:
                return None
            n = int(round(float(self.any(A[2], env))))
            return np.linspace(self.P(A[0], env), self.P(A[1], env), n) if n <= 4000 else None
        if o == "arange":
            v = [float(self.any(x, env)) for x in A]
            return np.arange(*v) if (v[1] - v[0]) / v[2] < 4000 else None
        if o in ("zeros", "ones"):
            sh = self.ints(A[0], env)
            return (np.zeros if o == "zeros" else np.ones)(sh) if int(np.prod(sh)) < 2000000 else None
        if o == "eye":
            return np.eye(*[int(float(self.any(x, env))) for x in A])
        if o == "diag":
            return np.diag(self.arr(A[0], env), int(self.any(A[1], env)))
        if o == "meshgrid":
            return np.meshgrid(*[self.arr(x, env) for x in A[0]])[A[1]]
        if o == "meshgrid_ij":
            return np.meshgrid(*[self.arr(x, env) for x in A[0]], indexing="ij")[A[1]]
        if o == "reshape":
            return self.arr(A[0], env).reshape(self.ints(A[1], env))
        if o == "flatten":
            return self.arr(A[0], env).ravel()
        if o == "transpose":
            return self.arr(A[0], env).T
        if o == "transposeax":
            return None
        if o == "expand":
            x = self.any(A[0], env)
            if not np.ndim(x) and not A[0].scalar:
                return x
            return np.expand_dims(x, int(A[1]) if not isinstance(A[1], P) else int(A[1].const()))
        if o == "matmul":
            return np.matmul(self.arr(A[0], env), self.arr(A[1], env))
        if o == "lsolve":
            return np.linalg.solve(self.arr(A[0], env), self.arr(A[1], env))
        if o == "linv":
            return np.linalg.inv(self.arr(A[0], env))
        if o == "digitize":
            b = np.sort(self.arr(A[1], env))
            return np.digitize(self.P(A[0], env), b, right=bool(A[2])).astype(float)
        if o == "broadcast":
            return np.broadcast_to(self.any(A[0], env), self.ints(A[1], env))
        if o == "squeeze":
            return np.squeeze(self.arr(A[0], env))
        if o == "dim":
            x = self.any(A[0], env)
            if isinstance(x, tuple) or not np.ndim(x):
                return None
            return np.float64(np.shape(x)[A[1]])
        if o == "size":
            x = self.any(A[0], env)
            return np.float64(np.size(x)) if not isinstance(x, tuple) and np.ndim(x) else None
        if o == "ndim":
            return None
        if o.startswith("np:") and o[3:] in NPF and len(A) == 1:
            return np.asarray(getattr(np, o[3:])(self.arr(A[0], env)), dtype=float)
        return None


def plain(x):
    return isinstance(x, tm.P) and len(x.terms) <= 1 and all(a.op in ("sym", "pi", "num") for m in x.terms for a, e in m)


def differ(x, y, domains=None, wit=None, tries=5, nonfinite=False):
    """True: differ in every usable model; False: agree in one or more; None: no usable model"""
    dn = en = 0
    for t in range(tries):
        setv, setb = {}, {}
        if wit is not None and t == 0:
            setv = {a: v for a, v in wit.setv.items() if a.op == "sym" and a.scalar}
            setb = dict(wit.setb)
        m = Model(4000 + t, domains, setv, setb)
        m.nonfinite = nonfinite
        try:
            with np.errstate(all="ignore"):
                a = m.C(x, {}) if isinstance(x, C) else m.P(x, {})
                b = m.C(y, {}) if isinstance(y, C) else m.P(y, {})
        except (NoValue, RecursionError, ValueError, TypeError, MemoryError, OverflowError):
            continue
        if m.hashed & LINALG:
            continue
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        try:
            a2, b2 = np.broadcast_arrays(a, b)
        except ValueError:
            dn += 1
            continue
        if nonfinite:
            a2, b2 = np.clip(a2, -1e300, 1e300), np.clip(b2, -1e300, 1e300)
            both = np.isnan(a2) & np.isnan(b2)
            if np.all(both | np.isclose(a2, b2, rtol=1e-6)):
                en += 1
            else:
                dn += 1
            continue
        ok = np.isfinite(a2) & np.isfinite(b2)
        if not ok.any():
            continue
        d = np.abs(a2 - b2)[ok]
        s = np.maximum(np.abs(a2), np.abs(b2))[ok]
        # monomials of plain symbols cannot cancel, however small
        tiny = 1e-10 * min(1.0, float(s.max())) if plain(x) and plain(y) else 1e-10
        if np.any((d > 1e-6 * s) & (d > tiny)):
            dn += 1
        else:
            en += 1
    if not dn and not en:
        return None
    if nonfinite:
        return dn > 0
    return dn > 0 and (en == 0 or dn >= 2 * en)


# operators an interpretation as free functions of their operands would not respect
FREE = ("meth:", "new:", "call:", "gw:", "fn:")


def strict(x, y, domains=None, tries=12):
    """x and y differ in most usable models in which only opaque functions are free"""
    facts = (domains or {}).get("@facts", ())
    dn = en = bad = 0
    for t in range(tries):
        m = Model(7000 + t, domains)
        m.smooth = True
        try:
            with np.errstate(all="ignore"):
                if not all(m.P(f, {}) > 0 for f in facts):
                    continue
                a, b = (np.asarray(m.C(q, {}) if isinstance(q, C) else m.P(q, {}), dtype=float) for q in (x, y))
            a, b = np.broadcast_arrays(a, b)
        except (NoValue, RecursionError, ValueError, TypeError, MemoryError, OverflowError) as ex:
            if DEBUG:
                print("strict", t, repr(ex))
            continue
        if DEBUG:
            print("strict", t, m.hashed, a.ravel()[:3], b.ravel()[:3])
        if any(not (o.startswith(FREE) or o in OPAQUE) for o in m.hashed):
            continue
        if np.isfinite(b).all() and not np.isfinite(a).any():
            bad += 1
        ok = np.isfinite(a) & np.isfinite(b)
        if not ok.any():
            continue
        d, s = np.abs(a[ok] - b[ok]), np.maximum(np.abs(a), np.abs(b))[ok]
        if np.any((d > 1e-4 * s) & (d > 1e-9)):
            dn += 1
        else:
            en += 1
    return dn >= 3 and 3 * dn >= en or bad >= 8


def first(v):
    a = np.asarray(v, dtype=float)
    return float(a.ravel()[0])


def realise(path, seed, domains, vary, deadline):
    """settings of symbols (of the first element of arrays) under which the sign assignment holds in the model of that seed"""
    import random
    import time
    rng = random.Random(seed)
    sg = [(k, v) for k, v in path if isinstance(k, P)] + [(k, "+") for k in (domains or {}).get("@facts", ())]
    setv = {}

    def ev(k, sv):
        m = Model(seed, domains, sv)
        m.smooth, m.vary = True, vary
        return first(m.P(k, {}))
    for rnd in range(12):
        if time.time() > deadline:
            return None
        bad = None
        for k, v in rng.sample(sg, len(sg)):
            x = ev(k, setv)
            if not math.isfinite(x):
                return None
            s = "0" if abs(x) < 1e-11 else ("+" if x > 1e-4 else "-" if x < -1e-4 else "?")
            if s != v:
                bad = (k, v)
                break
        if bad is None:
            return setv
        k, v = bad
        cands = sorted((a for a in ops.all_atoms(k) if a.op == "sym" and a not in setv or a.op == "sym" and rng.random() < 0.5), key=lambda a: (not a.scalar, a.uid))
        if not cands:
            return None
        sc = [a for a in cands if a.scalar]
        a = rng.choice(sc if sc and rng.random() < 0.8 else cands)
        target = {"0": 0.0, "+": rng.uniform(0.05, 0.8), "-": -rng.uniform(0.05, 0.8)}[v]
        cur = setv.get(a)
        if cur is None:
            m = Model(seed, domains)
            m.vary = vary
            cur = first(m.symval(a))
        ok = False
        for it in range(25):
            f = ev(k, {**setv, a: cur}) - target
            if abs(f) < 1e-12:
                ok = True
                break
            h = 1e-4 * (1 + abs(cur))
            g = ev(k, {**setv, a: cur + h}) - target
            df = (g - f) / h
            if not math.isfinite(df) or df == 0:
                break
            cur = cur - f / df
            if not math.isfinite(cur) or abs(cur) > 1e9:
                break
        if not math.isfinite(cur) or abs(cur) > 1e9 or a.pos and cur <= 0:
            continue
        lo, hi = (domains or {}).get(a.args[0], (None, None))
        if lo is not None and not isinstance(lo, (tuple, list)) and not lo <= cur <= hi:
            cur = min(max(cur, lo), hi)
        if a.integer and v != "0":
            cur = float(round(cur))
        setv[a] = cur
    return None


CONFIRM_SECONDS = 200  # of search without a confirmation in one run; what is left unconfirmed after that is undecided
SPENT = 0.0


def confirm(x, y, path=(), domains=None, witnesses=(), tries=200, seconds=12):
    """x and y (whole values, gates included) differ in concrete array models: True, False (none found), None (no usable model)"""
    import time
    global SPENT
    facts = (domains or {}).get("@facts", ())
    if SPENT > CONFIRM_SECONDS:
        return False
    t0, usable, dn, nf = time.time(), 0, 0, 0
    plates = {a.args[0][1] for a in ops.all_atoms((x, y)) if a.op == "plateidx" and isinstance(a.args[0], tuple) and len(a.args[0]) > 1}
    bound = tm.P_bvs(x) | tm.P_bvs(y) if isinstance(x, P) and isinstance(y, P) else ()
    wit = iter(witnesses)
    for t in range(tries):
        if time.time() - t0 > seconds:
            break
        vary = t % 5 != 0
        setv = {}
        try:
            with np.errstate(all="ignore"):
                if t % 3 == 2:
                    w = next(wit, None)
                    setv = {a: v for a, v in w.setv.items() if a.op == "sym"} if w is not None else {}
                elif path:
                    setv = realise(path, 11000 + t, domains, vary, t0 + seconds) or {}
                m = Model(11000 + t, domains, setv)
                m.smooth, m.vary = True, vary
                m.plate = next(iter(plates)) if len(plates) == 1 else None
                env = {b.args[0]: t % 2 for b in bound}
                if not all(np.all(m.P(f, {}) > 0) for f in facts):
                    continue
                a, b = (np.asarray(m.C(q, env) if isinstance(q, C) else m.P(q, env), dtype=float) for q in (x, y))
            a, b = np.broadcast_arrays(a, b)
        except (NoValue, RecursionError, ValueError, TypeError, MemoryError, OverflowError, IndexError) as ex:
            if DEBUG:
                import traceback
                print("confirm", t, repr(ex), "".join(traceback.format_exc().splitlines(True)[-3:]))
            continue
        if any(not (o.startswith(FREE) or o in OPAQUE) for o in m.hashed):
            if DEBUG:
                print("confirm", t, "hashed", m.hashed)
            continue
        usable += 1
        ok = np.isfinite(a) & np.isfinite(b)
        d, s = np.abs(a[ok] - b[ok]), np.maximum(np.abs(a), np.abs(b))[ok]
        if ok.any() and np.any((d > 1e-5 * s) & (d > 1e-9 * min(1.0, float(s.max())))):
            dn += 1
        elif np.any(np.isfinite(a) != np.isfinite(b)) or np.any(np.isnan(a) != np.isnan(b)):
            nf += 1
        if DEBUG:
            print("confirm", t, bool(setv), a.ravel()[:3], b.ravel()[:3])
        if dn >= 2 or nf >= 4:
            return True
    SPENT += time.time() - t0
    return False if usable >= 5 else None


OPAQUE = set()
import os
DEBUG = bool(os.environ.get("GWSTAT_DEBUG"))
