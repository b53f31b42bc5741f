"""Models of labelled arrays (xarray), HDF5 files (h5py) and structured arrays.

A labelled array is kept as nested lists along its leading dimensions whose coordinates are concrete names; the cells are terms.
"""
import ast

from .terms import *
from .terms import sym
from . import terms as tm, ops
from .interp import DictV, GammaV, ListV, ModelV, NatV, PyRaise, Unsupported, const_int, freeze


def nat(fn, name):
    return NatV(lambda it, a, k: fn(it, *a, **k), name)


def strs(v):
    """list of names, or None"""
    if isinstance(v, DA):
        v = v.coordvals()
    if isinstance(v, (ListV, tuple)):
        xs = list(v.items) if isinstance(v, ListV) else list(v)
        if all(isinstance(x, str) for x in xs):
            return xs
    if isinstance(v, str):
        return [v]
    return None


def positions(it, w):
    """concrete list of positions, or None"""
    if isinstance(w, tuple) and w[:1] == ("slice",):
        return None
    if isinstance(w, P):
        a = as_atom(w)
        w = list(a.args[0]) if a is not None and a.op == "arr" else None
    elif isinstance(w, (ListV, tuple)):
        w = list(it._li(w))
    if w is None or not all(isinstance(x, P) and const_int(x) is not None for x in w):
        return None
    return [const_int(x) for x in w]


def walk(cells, depth, fn):
    return fn(cells) if depth == 0 else [walk(c, depth - 1, fn) for c in cells]


def flat(cells, depth):
    return [cells] if depth == 0 else [y for c in cells for y in flat(c, depth - 1)]


def unreshape(it, data, dims, nlab, sizes):
    """cells of data along its labelled leading dimensions"""
    a = as_atom(data) if isinstance(data, P) else None
    if a is not None and a.op == "reshape":
        base, shp = a.args[0], a.args[1]
        shp = list(shp[1:]) if isinstance(shp, tuple) and shp[:1] in (("tuple",), ("list",)) else list(shp) if isinstance(shp, tuple) else None
        if shp is not None and len(shp) == len(dims) and all(isinstance(x, P) for x in shp):
            nd = ops.nd_of(base)
            sa = as_atom(base)
            if sa is not None and sa.op == "store":
                ones = [k for k, x in enumerate(shp) if k < nlab and x is ONE]
                kept = [k for k in range(len(dims)) if k not in ones]
                if all(same_dim(shp[k], base, j) for j, k in enumerate(kept)):
                    inner = stored_cells(it, base, len(kept), nlab - len(ones), [sizes[k] for k in kept if k < nlab])

                    def ins(v, k):
                        if k == nlab:
                            return v
                        return [ins(v, k + 1)] if k in ones else [ins(x, k + 1) for x in v]
                    return ins(inner, 0)
            ones = [k for k, x in enumerate(shp) if k < nlab and x is ONE]
            if nd is not None and nd + len(ones) == len(dims):
                # the inserted axes have length one, the others keep the order of the array
                kept = [k for k in range(len(dims)) if k not in ones]
                ok = all(same_dim(shp[k], base, j) for j, k in enumerate(kept))
                if ok:
                    def rec(v, k):
                        if k == nlab:
                            return v
                        if k in ones:
                            return [rec(v, k + 1)]
                        return [rec(it.getitem(v, num(i)), k + 1) for i in range(sizes[k])]
                    return rec(base, 0)
        raise Unsupported(f"reshaped data of a labelled array: {tm.show_any(a.args, 4)[:700]} nd={ops.nd_of(base)}")

    if a is not None and a.op == "store":
        return stored_cells(it, data, len(dims), nlab, sizes)

    def rec(v, k):
        if k == nlab:
            return v
        return [rec(it.getitem(v, num(i)), k + 1) for i in range(sizes[k])]
    return rec(data, 0)


def stored_cells(it, data, nd, nlab, sizes):
    """cells of an array filled row by row"""
    stores, b = [], data
    while True:
        a = as_atom(b) if isinstance(b, P) else None
        if a is None or a.op != "store":
            break
        stores.append((a.args[1], a.args[2]))
        b = a.args[0]

    def const(v, k):
        return v if k == nlab else [const(v, k + 1) for _ in range(sizes[k])]

    def spread(v, k):
        """v along the dimensions from k on, with the broadcasting of an assignment"""
        if k == nlab:
            return v
        n = ops.nd_of(v)
        if n is None or n > nd - k:
            raise Unsupported("row of unknown rank")
        if n < nd - k:
            c = spread(v, k + 1)
            return [c for _ in range(sizes[k])]
        return [spread(it.getitem(v, num(i)), k + 1) for i in range(sizes[k])]
    if b.is_const():
        cells = const(b, 0)
    else:
        cells = spread(b, 0)

    def put(cells, k, idx, v):
        if not idx:
            return spread(v, k)
        if k >= nlab:
            raise Unsupported("store below the labelled dimensions")
        j = idx[0]
        if isinstance(j, tuple) and j[:1] == ("slice",) and all(x is None for x in j[1:]):
            if ops.nd_of(v) is not None and ops.nd_of(v) >= nd - k - len([x for x in idx if isinstance(x, P)]):
                raise Unsupported("store of many rows")
            return [put(c, k + 1, idx[1:], v) for c in cells]
        i = const_int(j) if isinstance(j, P) else None
        if i is None or not -sizes[k] <= i < sizes[k]:
            raise Unsupported("store at an unknown row")
        return [put(c, k + 1, idx[1:], v) if m == i % sizes[k] else c for m, c in enumerate(cells)]
    for idx, v in reversed(stores):
        cells = put(cells, 0, list(idx), v)
    return cells


def same_dim(n, base, j):
    if n is ops.dim(base, j):
        return True
    # dimension of an array elementwise over the same data
    a = as_atom(n)
    return a is not None and a.op == "dim" and const_int(a.args[1]) == j and n is ops.dim(a.args[0], j) and set(ops.roots(a.args[0])) <= set(ops.roots(base))


class NameArr(ListV):
    """array of concrete names"""

    def m_compare(self, it, t, other):
        if t not in (ast.Eq, ast.NotEq):
            raise Unsupported("order of names")
        if isinstance(other, str):
            r = [x == other for x in self.items]
        else:
            ys = strs(other)
            if ys is None or len(ys) != len(self.items):
                raise Unsupported("comparison of names")
            r = [x == y for x, y in zip(self.items, ys)]
        return Mask([b == (t is ast.Eq) for b in r])


    def m_getattr(self, it, name):
        if name == "shape":
            return (num(len(self.items)),)
        if name == "size":
            return num(len(self.items))
        if name in ("values", "flat", "T"):
            return self
        if name == "tolist":
            return nat(lambda it: ListV(list(self.items)), name)
        if name in ("astype", "copy", "ravel", "flatten"):
            return nat(lambda it, *a, **k: NameArr(list(self.items)), name)
        return it.ext.container_attr(it, self, name)


class Mask(ModelV):
    """array of concrete booleans"""

    def __init__(self, items):
        self.items = list(items)

    def state(self):
        return list(self.items)

    def load(self, s):
        self.items = list(s)

    def m_freeze(self):
        return ("mask", tuple(self.items))

    def positions(self):
        return [k for k, b in enumerate(self.items) if b]

    def m_index(self, it, o):
        n = len(self.items)
        if isinstance(o, DA):
            lab = o.labels(o.dims[0])
            if lab is None or len(lab) != n:
                raise Unsupported("mask on an unlabelled dimension")
            if o.cells is None:
                return DA(None, o.dims, {o.dims[0]: ListV([lab[k] for k in self.positions()])})
            return o._sel1(it, o.dims[0], ListV([lab[k] for k in self.positions()]))
        if isinstance(o, Mask):
            return Mask([o.items[k] for k in self.positions()])
        if isinstance(o, NameArr):
            return NameArr([o.items[k] for k in self.positions()])
        if isinstance(o, ListV):
            raise PyRaise("TypeError", "list indices must be integers or slices", it.node)
        if isinstance(o, P):
            d = ops.dim(o, 0)
            if const_int(d) is not None and const_int(d) != n:
                raise PyRaise("IndexError", "boolean index did not match", it.node)
            return it.ext.call(it, "np.array", [ListV([it.getitem(o, num(k)) for k in self.positions()])], {})
        raise Unsupported("mask of " + type(o).__name__)

    def m_getitem(self, it, idx):
        k = const_int(idx) if isinstance(idx, P) else None
        if k is not None:
            return self.items[k]
        raise Unsupported("item of a mask")

    def m_setitem(self, it, idx, v):
        k = const_int(idx) if isinstance(idx, P) else None
        if isinstance(idx, Mask) and isinstance(v, bool):
            self.items = [v if m else x for x, m in zip(self.items, idx.items)]
        elif k is not None and isinstance(v, bool) and -len(self.items) <= k < len(self.items):
            self.items[k] = v
        else:
            raise Unsupported("store into a mask")

    def m_iter(self, it):
        return list(self.items)

    def m_len(self, it):
        return num(len(self.items))

    def m_contains(self, it, x):
        return x in self.items

    def m_unop(self, it, t):
        if t is ast.Invert:
            return Mask([not b for b in self.items])
        raise PyRaise("TypeError", "operator on a boolean array", it.node)

    def other(self, it, o):
        if isinstance(o, bool):
            return [o] * len(self.items)
        if isinstance(o, Mask) and len(o.items) == len(self.items):
            return o.items
        if isinstance(o, (ListV, tuple)):
            xs = list(it._li(o))
            if len(xs) == len(self.items) and all(isinstance(x, bool) for x in xs):
                return xs
        if isinstance(o, DA):
            return self.other(it, o.values(it))
        raise Unsupported("operand of a mask")

    def m_binop(self, it, t, o, swap):
        f = {ast.BitOr: lambda x, y: x or y, ast.Add: lambda x, y: x or y, ast.BitAnd: lambda x, y: x and y, ast.Mult: lambda x, y: x and y, ast.BitXor: lambda x, y: x != y}.get(t)
        if f is None:
            raise Unsupported("operator on a mask")
        return Mask([f(x, y) for x, y in zip(self.items, self.other(it, o))])

    def m_compare(self, it, t, o):
        if t not in (ast.Eq, ast.NotEq):
            raise Unsupported("order of a mask")
        return Mask([(x == y) == (t is ast.Eq) for x, y in zip(self.items, self.other(it, o))])

    def m_getattr(self, it, name):
        if name == "values":
            return self
        if name == "shape":
            return (num(len(self.items)),)
        if name == "size":
            return num(len(self.items))
        if name == "sum":
            return nat(lambda it, **k: num(sum(self.items)), name)
        if name in ("any", "all"):
            return nat(lambda it, **k: (any if name == "any" else all)(self.items), name)
        if name == "nonzero":
            return nat(lambda it: (it.ext.call(it, "np.array", [ListV([num(k) for k in self.positions()])], {}),), name)
        if name in ("copy", "astype", "to_numpy", "ravel"):
            return nat(lambda it, *a, **k: Mask(self.items), name)
        if name == "tolist":
            return nat(lambda it: ListV(self.items), name)
        raise Unsupported("mask." + name)


def mask_calls(it, name, args, kwargs):
    """numpy functions of concrete booleans and names"""
    nm = name[3:]
    if nm in ("isin", "in1d") and len(args) >= 2:
        xs, ys = strs(args[0]), strs(args[1])
        if isinstance(args[1], ListV) and not args[1].items:
            ys = []
        if xs is not None and ys is not None and not isinstance(args[0], str):
            inv = kwargs.get("invert", False)
            return Mask([(x in ys) != (inv is True) for x in xs])
    if nm in ("zeros", "ones", "full") and args:
        t = kwargs.get("dtype", args[2 if nm == "full" else 1] if len(args) > (2 if nm == "full" else 1) else None)
        n = args[0]
        n = n[0] if isinstance(n, tuple) and len(n) == 1 else n
        k = const_int(n) if isinstance(n, P) else None
        if k is not None and nm == "full" and isinstance(args[1], bool):
            return Mask([args[1]] * k)
        if k is not None and getattr(t, "name", None) in ("bool", "np.bool_") and nm != "full":
            return Mask([nm == "ones"] * k)
    if nm in ("zeros_like", "ones_like") and args and isinstance(args[0], (Mask, NameArr)):
        if getattr(kwargs.get("dtype"), "name", None) in ("bool", "np.bool_") or isinstance(args[0], Mask) and not kwargs:
            return Mask([nm == "ones_like"] * len(args[0].items))
    if nm in ("array", "asarray") and args and isinstance(args[0], (ListV, tuple)):
        xs = list(it._li(args[0]))
        if xs and all(isinstance(x, bool) for x in xs):
            return Mask(xs)
        if xs and all(isinstance(x, str) for x in xs):
            return NameArr(xs)
    if not args or not any(isinstance(a, Mask) for a in args):
        return NotImplemented
    m = next(a for a in args if isinstance(a, Mask))
    if nm in ("array", "asarray", "copy"):
        return Mask(m.items)
    if nm in ("logical_not", "invert", "bitwise_not"):
        return m.m_unop(it, ast.Invert)
    if nm in ("logical_or", "logical_and", "logical_xor", "bitwise_or", "bitwise_and") and len(args) == 2:
        o = args[1] if args[0] is m else args[0]
        return m.m_binop(it, {"or": ast.BitOr, "nd": ast.BitAnd, "xo": ast.BitXor}[{"logical_or": "or", "bitwise_or": "or", "logical_xor": "xo"}.get(nm, "nd")], o, False)
    if nm in ("sum", "count_nonzero"):
        return num(sum(m.items))
    if nm in ("any", "all"):
        return (any if nm == "any" else all)(m.items)
    if nm in ("flatnonzero", "nonzero", "where", "argwhere") and len(args) == 1:
        r = it.ext.call(it, "np.array", [ListV([num(k) for k in m.positions()])], {})
        if nm == "argwhere":
            raise Unsupported("argwhere")
        return r if nm == "flatnonzero" else (r,)
    raise Unsupported("np." + nm + " of a mask")


class DA(ModelV):
    def __init__(self, cells, dims, coords, attrs=None, name=None):
        self.cells, self.dims, self.coords, self.attrs, self.name = cells, list(dims), dict(coords), attrs or DictV(), name

    @property
    def nlab(self):
        n = 0
        for d in self.dims:
            if strs(self.coords.get(d)) is None:
                break
            n += 1
        return n

    def labels(self, d):
        return strs(self.coords.get(d))

    def coordvals(self):
        return self.coords.get(self.dims[0])

    def m_freeze(self):
        fl = lambda c: ("cells",) + tuple(fl(x) for x in c) if isinstance(c, list) else freeze(c)
        return ("dataarray", tuple(self.dims), tuple((d, freeze(self.coords.get(d))) for d in self.dims), fl(self.cells), freeze(self.attrs))

    def values(self, it):
        if self.cells is None:
            v = self.coordvals()
            return NameArr(list(v.items)) if isinstance(v, ListV) else v
        build = lambda c: ListV([build(x) for x in c]) if isinstance(c, list) else c
        v = build(self.cells)
        return it.ext.call(it, "np.array", [v], {}) if isinstance(v, ListV) else v

    def at(self, *labels):
        c = self.cells
        for d, l in zip(self.dims, labels):
            c = c[self.labels(d).index(l)]
        return c

    def sel(self, it, indexers):
        r = self
        for d, w in indexers.items():
            r = r._sel1(it, d, w)
        return r

    def _sel1(self, it, d, w):
        if d not in self.dims:
            raise PyRaise("KeyError", f"no dimension {d}", it.node)
        k = self.dims.index(d)
        lab = self.labels(d)
        if lab is not None:
            if k >= self.nlab:
                raise Unsupported("labelled dimension after an unlabelled one")
            one = isinstance(w, str)
            ws = [w] if one else strs(w)
            if ws is None:
                raise Unsupported("selection by unknown labels")
            for x in ws:
                if x not in lab:
                    raise PyRaise("KeyError", x, it.node)
            pick = (lambda c: c[lab.index(ws[0])]) if one else (lambda c: [c[lab.index(x)] for x in ws])
            cells = walk(self.cells, k, pick)
            dims = self.dims[:k] + self.dims[k + 1:] if one else self.dims
            co = {x: v for x, v in self.coords.items() if x != d} if one else {**self.coords, d: ListV(ws)}
            return DA(cells, dims, co, self.attrs, self.name)
        # labels of an unlabelled dimension are positions when its coordinate counts from zero
        n = self.nlab
        if k != n:
            raise Unsupported("selection on an inner dimension")
        c = self.coords.get(d)
        a = as_atom(c) if isinstance(c, P) else None
        if a is None or not counting(c):
            raise Unsupported("selection by coordinate values")
        f = lambda leaf: it.getitem(leaf, w)
        return DA(walk(self.cells, n, f), self.dims, {**self.coords, d: it.getitem(c, w)}, self.attrs, self.name)

    def drop(self, it, d, names):
        names = strs(names)
        lab = self.labels(d)
        if names is None or lab is None:
            raise Unsupported("drop_sel")
        for x in names:
            if x not in lab:
                raise PyRaise("KeyError", x, it.node)
        return self._sel1(it, d, ListV([x for x in lab if x not in names]))

    def m_getattr(self, it, name):
        if name == "values" or name == "data":
            return self.values(it)
        if name == "attrs":
            return self.attrs
        if name == "dims":
            return tuple(self.dims)
        if name == "coords":
            return DictV({d: self.coord(d) for d in self.coords})
        if name == "name":
            return self.name
        if name == "shape":
            return tuple(self.size(it, k) for k in range(len(self.dims)))
        if name == "size" and len(self.dims) == 1:
            return self.size(it, 0)
        if name == "sizes":
            return DictV({d: self.size(it, k) for k, d in enumerate(self.dims)})
        if name == "sel":
            return nat(lambda it, ix=None, **k: self.sel(it, {**({} if ix is None else ix.d), **{a: b for a, b in k.items() if a not in ("method", "drop")}}), name)
        if name == "isel":
            def isel(it, ix=None, **k):
                r = self
                for d, w in {**({} if ix is None else ix.d), **k}.items():
                    lab = r.labels(d)
                    i = const_int(w) if isinstance(w, P) else None
                    ks = w.positions() if isinstance(w, Mask) else positions(it, w)
                    if lab is not None and i is not None:
                        r = r._sel1(it, d, lab[i])
                    elif lab is not None and ks is not None:
                        r = r._sel1(it, d, ListV([lab[j] for j in ks]))
                    elif lab is None and r.dims.index(d) == r.nlab:
                        c = r.coords.get(d)
                        r = DA(walk(r.cells, r.nlab, lambda leaf: it.getitem(leaf, w)), r.dims, {**r.coords, d: it.getitem(c, w)} if c is not None else r.coords, r.attrs, r.name)
                    else:
                        raise Unsupported("isel")
                return r
            return nat(isel, name)
        if name == "drop_sel":
            def drop(it, ix=None, **k):
                r = self
                for d, w in {**({} if ix is None else ix.d), **k}.items():
                    r = r.drop(it, d, w)
                return r
            return nat(drop, name)
        if name == "assign_coords":
            return nat(lambda it, c=None, **k: DA(self.cells, self.dims, {**self.coords, **({} if c is None else c.d), **k}, self.attrs, self.name), name)
        if name in ("max", "min"):
            def red(it, **k):
                v = [it.ext.call(it, "np." + name, [x], {}) for x in flat(self.cells, self.nlab)]
                r = v[0]
                for x in v[1:]:
                    r = it.ext.call(it, "np.maximum" if name == "max" else "np.minimum", [r, x], {})
                return DA(r, [], {}, DictV(), self.name)
            return nat(red, name)
        if name == "to_dataset":
            def to_ds(it, dim=None, name=None, promote_attrs=False):
                if dim is not None:
                    raise Unsupported("to_dataset(dim)")
                at = DictV(dict(self.attrs.d)) if promote_attrs is True else DictV()
                return DS({name: DA(self.cells, self.dims, self.coords, self.attrs, name)}, dict(self.coords), at)
            return nat(to_ds, name)
        if name in ("copy", "compute", "load"):
            return nat(lambda it, **k: DA(self.cells, self.dims, self.coords, DictV(dict(self.attrs.d)), self.name), name)
        if name == "isin" and self.cells is None:
            return nat(lambda it, ys: mask_calls(it, "np.isin", [self.values(it), ys], {}), name)
        if name in ("to_numpy", "tolist") and (name == "to_numpy" or self.cells is None):
            return nat(lambda it: self.values(it) if name == "to_numpy" else ListV(list(self.values(it).items)), name)
        if name == "item" and not self.dims:
            return nat(lambda it: self.cells, name)
        if name == "transpose":
            def tr(it, *d):
                if list(d) == self.dims:
                    return self
                raise Unsupported("transpose of a labelled array")
            return nat(tr, name)
        if name in self.coords:
            return self.coord(name)
        raise Unsupported(f"DataArray.{name}")

    def coord(self, d):
        return DA(None, [d], {d: self.coords[d]})

    def size(self, it, k):
        d = self.dims[k]
        lab = self.labels(d)
        if lab is not None:
            return num(len(lab))
        c = self.coords.get(d)
        if self.cells is None:
            return it.ext.call(it, "len", [c], {})
        leaf = flat(self.cells, self.nlab)[0]
        return ops.dim(leaf, k - self.nlab)

    def m_getitem(self, it, idx):
        if isinstance(idx, str):
            return self.m_getattr(it, idx)
        return it.getitem(self.values(it), idx)

    def m_iter(self, it):
        return it.as_iter(self.values(it))

    def m_binop(self, it, o, other, swap):
        if isinstance(other, Mask):
            return other.m_binop(it, o, self, not swap)
        raise Unsupported("arithmetic on labelled arrays")

    def m_compare(self, it, t, other):
        if self.cells is None and isinstance(self.values(it), NameArr):
            return self.values(it).m_compare(it, t, other.values(it) if isinstance(other, DA) else other)
        raise Unsupported("comparison of labelled arrays")

    def m_len(self, it):
        return self.size(it, 0)

    def m_contains(self, it, x):
        lab = self.labels(self.dims[0]) if self.cells is None and self.dims else None
        if lab is None or not isinstance(x, str):
            raise Unsupported("membership in a labelled array")
        return x in lab


def counting(c):
    """coordinate 0, 1, 2, ..."""
    a = as_atom(c) if isinstance(c, P) else None
    if a is None:
        return False
    if a.op in ("np:arange", "arange"):
        xs = [x for x in a.args if isinstance(x, P)]
        return len(xs) == 1 or xs[0] is ZERO and (len(xs) == 2 or xs[2] is ONE)
    return False


class DS(ModelV):
    def __init__(self, vars, coords, attrs=None):
        self.vars, self.coords, self.attrs = dict(vars), dict(coords), attrs or DictV()

    def m_freeze(self):
        return ("dataset", tuple((k, freeze(v)) for k, v in self.vars.items()), freeze(self.attrs))

    def map(self, it, meth, *a, **k):
        return DS({n: it.call(v.m_getattr(it, meth), list(a), k) for n, v in self.vars.items()}, self.coords, self.attrs)

    def m_getattr(self, it, name):
        if name == "data_vars":
            return DictV(dict(self.vars))
        if name == "attrs":
            return self.attrs
        if name == "coords":
            return DictV({d: DA(None, [d], {d: v}) for d, v in self.coords.items()})
        if name in ("sel", "isel", "drop_sel", "max", "min"):
            def f(it, *a, **k):
                r = self.map(it, name, *a, **k)
                co = dict(self.coords)
                for v in r.vars.values():
                    co = {d: v.coords.get(d, c) for d, c in co.items() if d in v.dims}
                return DS(r.vars, co, self.attrs)
            return nat(f, name)
        if name == "to_array":
            def ta(it, dim="variable", name=None):
                vs = list(self.vars.values())
                if any(v.dims != vs[0].dims for v in vs):
                    raise Unsupported("to_array of different dimensions")
                return DA([v.cells for v in vs], [dim] + vs[0].dims, {**vs[0].coords, dim: ListV(list(self.vars))}, self.attrs, name)
            return nat(ta, name)
        if name == "keys":
            return nat(lambda it: ListV(list(self.vars)), name)
        if name == "items":
            return nat(lambda it: ListV([(k, v) for k, v in self.vars.items()]), name)
        if name in ("sizes", "dims"):
            out = {}
            for v in self.vars.values():
                for k, d in enumerate(v.dims):
                    out.setdefault(d, v.size(it, k))
            return DictV(out)
        if name in self.vars:
            return self.vars[name]
        if name in self.coords:
            return DA(None, [name], {name: self.coords[name]})
        raise Unsupported(f"Dataset.{name}")

    def m_getitem(self, it, idx):
        if isinstance(idx, str):
            if idx in self.vars:
                return self.vars[idx]
            if idx in self.coords:
                return DA(None, [idx], {idx: self.coords[idx]})
            raise PyRaise("KeyError", idx, it.node)
        raise Unsupported("Dataset item")

    def m_iter(self, it):
        return list(self.vars)

    def m_contains(self, it, x):
        return x in self.vars or x in self.coords


def data_array(it, data=None, coords=None, dims=None, name=None, attrs=None, **k):
    if isinstance(data, DA):
        return data
    co = dict(coords.d) if isinstance(coords, DictV) else {}
    co = {d: (v.coordvals() if isinstance(v, DA) else v) for d, v in co.items()}
    if dims is None:
        dims = ListV(list(co))
    ds = strs(dims)
    if ds is None:
        raise Unsupported("DataArray dims")
    co = {d: (v.items[0] if False else v) for d, v in co.items()}
    nlab = 0
    for d in ds:
        if strs(co.get(d)) is None:
            break
        nlab += 1
    if any(strs(co.get(d)) is not None for d in ds[nlab:]):
        raise Unsupported("labelled dimension after an unlabelled one")
    sizes = [len(strs(co[d])) for d in ds[:nlab]]
    for k_, d in enumerate(ds[:nlab]):
        co[d] = ListV(strs(co[d]))
    # a literal with another number of rows is rejected by the constructor
    a = as_atom(data) if isinstance(data, P) else None
    rows = len(a.args[0]) if a is not None and a.op == "arr" else len(data.items) if isinstance(data, ListV) else None
    if nlab and rows is not None and rows != sizes[0]:
        raise PyRaise("ValueError", f"conflicting sizes for dimension {ds[0]}: {rows} rows, {sizes[0]} names", it.node)
    nd = ops.nd_of(data) if isinstance(data, P) else None
    if nd is not None and nd != len(ds) and not (a is not None and a.op == "store"):
        raise PyRaise("ValueError", f"different number of dimensions on data and dims: {nd} vs {len(ds)}", it.node)
    return DA(unreshape(it, data, ds, nlab, sizes), ds, co, attrs if isinstance(attrs, DictV) else DictV(), name)


def coord_of(d, v):
    if isinstance(v, DA):
        return v.coordvals()
    if isinstance(v, tuple) and len(v) in (2, 3):
        ds = strs(v[0])
        if ds != [d]:
            raise Unsupported("coordinate of another dimension")
        return v[1]
    return v


def dataset(it, data_vars=None, coords=None, attrs=None):
    vs = {}
    co = {d: coord_of(d, v) for d, v in (coords.d.items() if isinstance(coords, DictV) else ())}
    for n, v in (data_vars.d.items() if isinstance(data_vars, DictV) else ()):
        if isinstance(v, tuple) and len(v) in (2, 3):
            dims = ListV([v[0]]) if isinstance(v[0], str) else v[0]
            v = data_array(it, v[1], coords=DictV({d: co[d] for d in strs(dims) if d in co}), dims=dims, attrs=v[2] if len(v) == 3 else None)
        if not isinstance(v, DA):
            raise Unsupported("Dataset variable")
        vs[n] = DA(v.cells, v.dims, v.coords, v.attrs, n)
        for d in v.dims:
            if d in v.coords:
                co.setdefault(d, v.coords[d])
    return DS(vs, co, attrs if isinstance(attrs, DictV) else DictV())


def from_dict(it, d):
    if not isinstance(d, DictV):
        raise Unsupported("Dataset.from_dict")
    co, vs, at = DictV(), d, None
    if "data_vars" in d.d and "coords" in d.d:
        co, vs, at = d.d["coords"], d.d["data_vars"], d.d.get("attrs")
    def cell(x):
        if not isinstance(x, DictV) or "dims" not in x.d or "data" not in x.d:
            raise PyRaise("ValueError", "cannot convert dict without the key dims or data", it.node)
        return (x.d["dims"], x.d["data"]) + ((x.d["attrs"],) if "attrs" in x.d else ())
    return dataset(it, DictV({k: cell(x) for k, x in vs.d.items()}), coords=DictV({k: cell(x) for k, x in co.d.items()}), attrs=at)


def concat(it, objs, dim=None, **k):
    xs = it.iter_items(objs)
    if not all(isinstance(x, DA) for x in xs) or not isinstance(dim, str):
        raise Unsupported("xr.concat")
    a = xs[0]
    if any(x.dims != a.dims for x in xs):
        raise Unsupported("concatenation of different dimensions")
    if dim not in a.dims or a.labels(dim) is None:
        raise Unsupported("concatenation along an unlabelled dimension")
    kk = a.dims.index(dim)
    for x in xs[1:]:
        for d in a.dims:
            if d != dim and a.labels(d) is not None and a.labels(d) != x.labels(d):
                raise Unsupported("concatenation joins different labels")

    def rec(cs, depth):
        if depth == 0:
            return [y for c in cs for y in c]
        return [rec([c[i] for c in cs], depth - 1) for i in range(len(cs[0]))]
    return DA(rec([x.cells for x in xs], kk), a.dims, {**a.coords, dim: ListV([l for x in xs for l in x.labels(dim)])}, a.attrs, a.name)


# ------------------------------------------------------------------ files

class Table(ModelV):
    """structured array: named columns of one length"""

    def __init__(self, cols, mask=None):
        self.cols, self.mask = cols, mask

    def m_freeze(self):
        return ("table", tuple(self.cols), freeze(self.mask))

    def m_getitem(self, it, idx):
        if isinstance(idx, str):
            if idx not in self.cols:
                raise PyRaise("KeyError" if self.mask is None else "ValueError", f"no field of name {idx}", it.node)
            v = self.cols[idx]
            return v if self.mask is None else it.getitem(v, self.mask)
        if idx == () or isinstance(idx, tuple) and idx[:1] == ("slice",) and all(x is None for x in idx[1:]) or idx is Ellipsis:
            return self
        if isinstance(idx, (P, C)) and self.mask is None:
            return Table(self.cols, idx)
        raise Unsupported("structured array index")

    def m_getattr(self, it, name):
        if name == "dtype":
            return Names(tuple(self.cols))
        if name in ("size", "shape"):
            n = ops.dim(next(iter(self.cols.values())), 0)
            return n if name == "size" else (n,)
        if name == "copy":
            return nat(lambda it: self, name)
        raise Unsupported(f"structured array .{name}")

    def m_len(self, it):
        return ops.dim(next(iter(self.cols.values())), 0)


class Names(ModelV):
    def __init__(self, names):
        self.names = names

    def m_getattr(self, it, name):
        if name == "names":
            return self.names
        if name == "fields":
            return DictV({n: None for n in self.names})
        raise Unsupported("dtype." + name)


class Col(ModelV):
    """dataset of a file: read with [()] or [:]"""

    def __init__(self, v):
        self.v = v

    def m_freeze(self):
        return ("col", freeze(self.v))

    def m_getitem(self, it, idx):
        if idx == () or idx is Ellipsis or isinstance(idx, tuple) and idx[:1] == ("slice",) and all(x is None for x in idx[1:]):
            return self.v
        return it.getitem(self.v, idx)

    def m_getattr(self, it, name):
        if name in ("shape", "size"):
            return it.getattr(self.v, name)
        raise Unsupported("dataset." + name)

    def m_len(self, it):
        return ops.dim(self.v, 0)


class IData(ModelV):
    """arviz InferenceData: named groups"""

    def __init__(self, groups):
        self.groups = dict(groups)

    def m_freeze(self):
        return ("idata", tuple((k, freeze(v)) for k, v in self.groups.items()))

    def m_getattr(self, it, name):
        if name in self.groups:
            return self.groups[name]
        if name == "groups":
            return nat(lambda it: ListV(list(self.groups)), name)
        if name in ("to_netcdf", "to_zarr"):
            return nat(lambda it, path=None, **k: it.effect("save", path, self, {"how": name}), name)
        raise PyRaise("AttributeError", f"InferenceData has no group {name}", it.node)

    def m_getitem(self, it, idx):
        if isinstance(idx, str) and idx in self.groups:
            return self.groups[idx]
        raise PyRaise("KeyError", str(idx), it.node)

    def m_contains(self, it, x):
        return x in self.groups

    def m_iter(self, it):
        return list(self.groups)


class Group(ModelV):
    def __init__(self, items, attrs=None):
        self.items, self.attrs = dict(items), DictV(attrs or {})

    def m_freeze(self):
        return ("group", tuple(self.items))

    def m_getitem(self, it, idx):
        if isinstance(idx, str):
            idx = idx.strip("/")
            if idx not in self.items and "/" in idx:
                head, rest = idx.split("/", 1)
                return it.getitem(self.m_getitem(it, head), rest)
            if idx not in self.items:
                raise PyRaise("KeyError", idx, it.node)
            return self.items[idx]
        raise Unsupported("group item")

    def m_iter(self, it):
        return list(self.items)

    def m_contains(self, it, x):
        return x in self.items

    def m_len(self, it):
        return num(len(self.items))

    def m_getattr(self, it, name):
        if name == "attrs":
            return self.attrs
        if name == "keys":
            return nat(lambda it: ListV(list(self.items)), name)
        if name == "get":
            return nat(lambda it, k, d=None: self.items.get(k, d), name)
        if name == "items":
            return nat(lambda it: ListV([(k, v) for k, v in self.items.items()]), name)
        if name == "values":
            return nat(lambda it: ListV(list(self.items.values())), name)
        if name == "close":
            return nat(lambda it: None, name)
        raise Unsupported("group." + name)


def install(it, files=None):
    """make the models known to an interpreter; files: path -> Group"""
    def h5file(it, path=None, mode="r", **k):
        if not isinstance(path, str) and path is not None:
            raise Unsupported("file of unknown name")
        if path not in files:
            raise PyRaise("FileNotFoundError", str(path), it.node)
        if mode != "r":
            it.event("file_mode", (path, mode))
        return files[path]
    def idata_file(it, path=None, **k):
        if not isinstance(path, str) and path is not None:
            raise Unsupported("file of unknown name")
        if not isinstance((files or {}).get(path), IData):
            raise PyRaise("FileNotFoundError", str(path), it.node)
        return files[path]
    it.masks = mask_calls
    it.natives.update({
        "az.InferenceData": lambda it, a, k: IData(k) if not a else (_ for _ in ()).throw(Unsupported("InferenceData arguments")),
        "az.from_netcdf": lambda it, a, k: idata_file(it, *a, **k),
        "az.InferenceData.from_netcdf": lambda it, a, k: idata_file(it, *a, **k),
        "xr.Dataset.from_dict": lambda it, a, k: from_dict(it, *a, **k),
        "xr.DataArray": lambda it, a, k: data_array(it, *a, **k),
        "xr.Dataset": lambda it, a, k: dataset(it, *a, **k),
        "xr.concat": lambda it, a, k: concat(it, *a, **k),
        "tqdm.trange": lambda it, a, k: it.ext.call(it, "range", a, {}),
        "tqdm.tqdm": lambda it, a, k: a[0],
    })
    if files is not None:
        it.natives["h5py.File"] = lambda it, a, k: h5file(it, *a, **k)
    return it
