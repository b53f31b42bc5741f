"""Abstract interpreter over the repository's syntax trees.

Evaluates functions over symbolic value-graph terms (gated SSA): branches on
unknown conditions are evaluated on both sides and joined with gating nodes,
loops over unknown ranges are summarised.  No repository code is executed or
imported; only `ast` is used.
"""
import ast
import builtins
import itertools
import re
import os
import warnings
from fractions import Fraction
from .terms import *
from . import terms as tm
from .terms import _mk_atom
from .ops import *
from . import ops


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    """the interpreted program definitely raises"""

    def __init__(self, typ, msg=None, node=None, val=None):
        self.typ, self.msg, self.node, self.val = typ, msg, node, val
        self.site = None
        super().__init__(f"{typ}: {msg}")


UNDEF = type("UNDEF", (), {"__repr__": lambda s: "UNDEF"})()


class StrV:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return isinstance(o, StrV) and self.parts == o.parts

    def __hash__(self):
        return hash(("StrV", self.parts))

    def __repr__(self):
        return "f'" + "".join(p if isinstance(p, str) else "{" + show_any(p, 4) + "}" for p in self.parts) + "'"


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, StrV):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        elif isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrV(tuple(out))


_births = itertools.count()


class Obj:
    tag = None

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.birth = next(_births)
        return o


class NsV(Obj):
    """the names of a module, class, function or enclosing scope, as an object whose changes are journaled"""
    def __init__(self, d):
        self.d = d
        self.birth = -1

    def state(self):
        return dict(self.d)

    def load(self, s):
        self.d.clear()
        self.d.update(s)


ARRAY_ATTRS = {
    "T", "all", "any", "argmax", "argmin", "argpartition", "argsort", "astype", "base", "byteswap", "choose", "clip", "compress", "conj", "conjugate", "copy", "ctypes", "cumprod", "cumsum", "data", "device", "diagonal", "dot",
    "dtype", "dump", "dumps", "fill", "flags", "flat", "flatten", "getfield", "imag", "item", "itemset", "itemsize", "mT", "max", "mean", "min", "nbytes", "ndim", "newbyteorder", "nonzero", "partition", "prod", "ptp", "put", "ravel",
    "real", "repeat", "reshape", "resize", "round", "searchsorted", "setfield", "setflags", "shape", "size", "sort", "squeeze", "std", "strides", "sum", "swapaxes", "take", "to_device", "tobytes", "tofile", "tolist", "trace",
    "transpose", "var", "view", "at", "aval", "block_until_ready", "is_integer", "as_integer_ratio", "hex", "numerator", "denominator", "bit_length", "bit_count", "weak_type", "sharding", "addressable_shards", "values", "value",
    "add", "multiply", "set", "get", "log_prob"}


def is_number(o):
    """certainly a plain number or an array (symbols may stand for other objects unless their rank is declared)"""
    if o is TRUE or o is FALSE or isinstance(o, P) and o.is_const():
        return True
    a = as_atom(o) if isinstance(o, P) else None
    return a is not None and (a.op == "arr" or a.op == "sym" and (a.scalar or a.nd is not None))


class ListV(Obj):
    def __init__(self, items, kind="list"):
        self.items = list(items)
        self.kind = kind

    def state(self):
        return list(self.items)

    def load(self, s):
        self.items = list(s)

    def __repr__(self):
        return f"ListV({self.items!r})"


class Seg:
    """symbolic segment of a list: [body(bv lvl) for bv < n]"""
    __slots__ = ("n", "arr")

    def __init__(self, n, arr):
        self.n, self.arr = n, arr

    def __repr__(self):
        return f"Seg({self.n},{self.arr})"

    def __eq__(self, o):
        return isinstance(o, Seg) and self.n is o.n and self.arr == o.arr

    def __hash__(self):
        return hash((self.n, self.arr))


class DictV(Obj):
    def __init__(self, d=None, open_=None):
        self.d = dict(d or {})
        self.open = open_   # None or opaque P: unknown further contents

    def state(self):
        return (dict(self.d), self.open)

    def load(self, s):
        self.d = dict(s[0])
        self.open = s[1]

    def __repr__(self):
        return f"DictV({self.d!r})"


class InstV(Obj):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs or {}

    def state(self):
        return dict(self.attrs)

    def load(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return f"<{self.cls.name}>"


class FuncV:
    def __init__(self, node, scope, module, qual, defaults=(), kwdefaults=None, cls=None):
        self.node, self.scope, self.module, self.qual = node, scope, module, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.cls = cls
        self.kind = "function"   # function / property / classmethod / staticmethod
        self.wraps = ()          # transparent decorators recorded by name
        self.ns = {}

    @property
    def name(self):
        return self.qual.split(".")[-1]

    def __repr__(self):
        return f"<func {self.qual}>"


class ClassV:
    def __init__(self, name, qual, bases, ns, module, node):
        self.name, self.qual, self.bases, self.ns, self.module, self.node = name, qual, bases, ns, module, node

    def mro(self):
        out, seen = [], set()

        def rec(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            out.append(c)
            if isinstance(c, ClassV):
                for b in c.bases:
                    rec(b)
        rec(self)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name], c
        return None, None

    def has_ext_base(self):
        return any(isinstance(c, ExtV) and c.name not in ("object",) for c in self.mro())

    def __repr__(self):
        return f"<class {self.qual}>"


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ShapeV:
    """numpyro.distributions.Distribution.shape of an instance"""
    def __init__(self, o):
        self.o = o

    def m_call(self, it, args, kw):
        ss = args[0] if args else kw.get("sample_shape", ())
        return it.binop(ast.Add(), it.binop(ast.Add(), ss, self.o.attrs["batch_shape"]), self.o.attrs["event_shape"])


class ExtV:
    lib = None      # the package it was imported from (the names of numpy and jax.numpy are the same)

    def __init__(self, name, lib=None):
        self.name = name
        if lib:
            self.lib = lib

    def __repr__(self):
        return f"<ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))


def module_binds(tree, name):
    """may the name be bound at module level (whether or not that statement was interpreted)"""
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if n.name == name or any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(n)):
                return True
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)) and any(a.name == "*" or (a.asname or a.name.split(".")[0]) == name for a in n.names):
            return True
        if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load):
            return True
        if isinstance(n, ast.Name) and n.id in ("globals", "exec", "setattr"):
            return True
        if isinstance(n, ast.ExceptHandler) and n.name == name:
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False


class ModV:
    def __init__(self, name, path, ns):
        self.name, self.path, self.ns = name, path, ns
        self.tree = None
        self.state = "new"

    def __repr__(self):
        return f"<mod {self.name}>"


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class NatV:
    """native helper: python callable fn(interp, args, kwargs)"""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class ModelV(Obj):
    """value of a modelled library class: subclasses implement m_getattr, m_getitem, m_iter, m_contains, m_len"""

    def state(self):
        return None

    def load(self, s):
        pass

    def m_freeze(self):
        return (type(self).__name__, id(self))


class RangeV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def concrete(self):
        return all(x.is_const() for x in (self.a, self.b, self.c))

    def length(self):
        if self.c is ONE:
            return sub(self.b, self.a)
        return op("rangelen", (self.a, self.b, self.c), scalar=True, integer=True)


class SymIter:
    """iterable of unknown length: n, elem(i)"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


class GammaV:
    """gated choice between non-numeric values"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Gamma({self.c},{self.a!r},{self.b!r})"


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class AtV:
    def __init__(self, base, idx=None):
        self.base, self.idx = base, idx


class Scope:
    __slots__ = ("vars", "parent", "func", "globals_", "outer")

    def __init__(self, parent=None, func=None, globals_=None):
        self.vars = {}
        self.parent = parent
        self.func = func
        self.globals_ = globals_
        self.outer = None


class Flow:
    """abrupt exits [(guard C, kind, value, heapdiff, vars)], and whether some path falls through"""
    __slots__ = ("exits", "cont")

    def __init__(self, exits=None, cont=True):
        self.exits = exits or []
        self.cont = cont


class Effect:
    __slots__ = ("kind", "name", "guard", "value", "extra", "file", "line", "func", "binders")

    def __init__(self, kind, name, guard, value, extra, file, line, func, binders):
        self.kind, self.name, self.guard, self.value, self.extra = kind, name, guard, value, extra
        self.file, self.line, self.func, self.binders = file, line, func, binders

    def __repr__(self):
        return f"Effect({self.kind},{self.name},{self.guard},{self.value})@{self.line}"


def is_term(v):
    return isinstance(v, (P, C, bool, int, float, Fraction))


def to_term(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        return fnum(v)
    return v


def to_P(v):
    v = to_term(v)
    if isinstance(v, C):
        return ind(v)
    return v


def const_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, P) and v.is_const() and v.const().denominator == 1:
        return int(v.const())
    return None


def freeze(v, depth=0):
    if isinstance(v, ModelV):
        return v.m_freeze()
    if v is None or isinstance(v, (P, str, bytes)) or v is Ellipsis:
        return v
    if isinstance(v, StrV):
        return ("fstr",) + tuple(freeze(x, depth + 1) for x in v.parts)
    if isinstance(v, C):
        return v
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float, Fraction)):
        return to_term(v)
    if depth > 8:
        return ("deep",)
    if isinstance(v, tuple):
        if v and v[0] == "slice" and len(v) == 4:
            return ("slice",) + tuple(freeze(x, depth + 1) for x in v[1:])
        return ("tuple",) + tuple(freeze(x, depth + 1) for x in v)
    if isinstance(v, ListV):
        return (v.kind,) + tuple(freeze(x, depth + 1) for x in v.items)
    if isinstance(v, Seg):
        return ("seg", v.n, freeze(v.arr, depth + 1))
    if isinstance(v, DictV):
        it = [(freeze(k, depth + 1), freeze(x, depth + 1)) for k, x in v.d.items()]
        it.sort(key=lambda t: repr(t[0]))
        return ("dict",) + tuple(it) + ((("open", v.open),) if v.open is not None else ())
    if isinstance(v, InstV):
        it = sorted((k, freeze(x, depth + 1)) for k, x in v.attrs.items() if not isinstance(x, (FuncV, BoundV)))
        return ("inst", v.cls.qual, tuple(it))
    if isinstance(v, FuncV):
        return ("func", v.qual)
    if isinstance(v, ClassV):
        return ("class", v.qual)
    if isinstance(v, ExtV):
        return ("ext", v.name)
    if isinstance(v, ModV):
        return ("mod", v.name)
    if isinstance(v, BoundV):
        return ("bound", freeze(v.func, depth + 1), freeze(v.self_, depth + 1))
    if isinstance(v, RangeV):
        return ("range", v.a, v.b, v.c)
    if isinstance(v, GammaV):
        return ("gamma", v.c, freeze(v.a, depth + 1), freeze(v.b, depth + 1))
    if isinstance(v, PartialV):
        return ("partial", freeze(v.func, depth + 1), freeze(v.args, depth + 1), freeze(DictV(v.kwargs), depth + 1))
    if isinstance(v, NatV):
        return ("nat", v.name)
    if isinstance(v, SymIter):
        i = fresh_idx()
        e = v.elem(i)
        fe = freeze(e, depth + 1)
        return ("iter", v.n, as_atom(mk_map(v.n, i, fe)))
    if v is UNDEF:
        return ("undef",)
    return ("obj", type(v).__name__)


class Repo:
    """loads modules of the analysed tree (syntax only)"""

    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.src = {}

    def path_of(self, name):
        parts = name.split(".")
        root = self.root
        if parts[0] == "vspec":
            root, parts = os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ["specs"] + parts[1:]
        p = os.path.join(root, *parts)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None


TRANSPARENT = {"jax.jit", "functools.wraps", "functools.lru_cache", "functools.cache", "jax.tree_util.register_pytree_node_class",
               "numpyro.distributions.util.validate_sample", "dist.util.validate_sample", "staticmethod", "jax.checkpoint", "numba.njit", "numba.jit",
               "jax.named_call", "contextlib.nullcontext"}


class PyNumbers:
    """symbols standing for plain Python numbers: arithmetic among them follows Python (a zero divisor raises), values that went
    through a numpy/jax call are arrays.  value: symbol atom -> P, the numbers for which a zero divisor is looked for"""

    def __init__(self, value):
        self.value = value
        self.names = {a: sym(str(a.args[0]) + "@arr", scalar=True) for a in value}
        self.hits = []

    def array(self, r):
        return subst_atoms(r, self.names) if isinstance(r, (P, C)) else r

    def is_py(self, p):
        return all((a in self.value) and (e.is_const() or self.is_py(e)) for m in p.terms for a, e in m)

    def division(self, it, a, b):
        if self.is_py(a) and self.is_py(b) and subst_atoms(b, self.value) is ZERO:
            self.hits.append((it.mod.path if it.mod else "?", getattr(it.node, "lineno", 0), list(it.guards)))


def same_state(a, b):
    if isinstance(a, tuple):
        return same_state(a[0], b[0]) and a[1] is b[1]
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(a[k] is b[k] for k in a)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b)) if isinstance(a, list) else a is b


def copied(x):
    if isinstance(x, ListV):
        return ListV([copied(v) for v in x.items], x.kind)
    if isinstance(x, DictV):
        return DictV({k: copied(v) for k, v in x.d.items()}, x.open)
    return tuple(copied(v) for v in x) if type(x) is tuple else x


def varied(x, shaped=False):
    """a different value of the same kind; shaped: arrays keep their shape"""
    if isinstance(x, bool):
        return not x
    if x is TRUE or x is FALSE:
        return FALSE if x is TRUE else TRUE
    if isinstance(x, P):
        if x.is_const():
            return add(x, ONE)

        def fresh(a):
            if shaped and a.op == "sym" and isinstance(a.args[0], str) and not a.scalar and a.nd:
                return mul(sym("(earlier call)", scalar=True, pos=True), atomP(a))
            if a.op == "sym" and isinstance(a.args[0], str):
                return atomP(_mk_atom("sym", (a.args[0] + " (earlier call)",), scalar=a.scalar, pos=a.pos, nd=a.nd, integer=a.integer))
        return ops.Rewriter(fa=fresh).any(x)
    if isinstance(x, ListV):
        return ListV([varied(v, shaped) for v in x.items], x.kind)
    if isinstance(x, DictV):
        return DictV({k: varied(v, shaped) for k, v in x.d.items()}, x.open)
    return tuple(varied(v, shaped) for v in x) if type(x) is tuple and x[:1] != ("slice",) else x


def differs(a, b):
    if isinstance(a, (ListV, tuple)) and type(a) is type(b):
        return any(differs(x, y) for x, y in zip(*(v.items if isinstance(v, ListV) else v for v in (a, b))))
    if isinstance(a, DictV):
        return any(differs(v, b.d[k]) for k, v in a.d.items())
    return a is not b and not (isinstance(a, P) and a == b)


def variations(args, kwargs):
    out, allv = [], (list(args), dict(kwargs))
    for i, v in enumerate(args):
        w = varied(v)
        if differs(v, w):
            out.append(([copied(x) for x in args[:i]] + [w] + [copied(x) for x in args[i + 1:]], {k: copied(x) for k, x in kwargs.items()}))
            allv[0][i] = varied(v)
    for k, v in kwargs.items():
        w = varied(v)
        if differs(v, w):
            out.append(([copied(x) for x in args], {**{q: copied(x) for q, x in kwargs.items()}, k: w}))
            allv[1][k] = varied(v)
    same = [varied(v, True) for v in args], {k: varied(v, True) for k, v in kwargs.items()}
    more = [same] if any(differs(x, y) for x, y in zip(list(allv[0]) + list(allv[1].values()), list(same[0]) + list(same[1].values()))) else []
    return ([allv] if len(out) > 1 else []) + out[:8] + more


class Interp:
    def __init__(self, repo, ext, opaque=(), maxdepth=60):
        self.repo = repo
        self.ext = ext
        self.opaque = set(opaque)
        self.reclimit = {}
        self.override = {}     # functions of the repository replaced by a summary proved elsewhere: qual -> fn(it, bound arguments)
        self.opaque_nd = {}    # rank of the result of an opaque function
        self.elementwise = set()   # opaque functions whose result has the rank of their highest-rank argument
        self.method_rank = {}  # rank of the result of a method of an opaque object, relative to its first argument
        self.natives = {}      # modelled external functions: name -> fn(interp, args, kwargs)
        self.masks = None
        self.effects = []
        self.events = []
        self.journal = []
        self.guards = []
        self.traced = None    # tracker of values that depend on sampled parameters (trace.Traced), if any
        self.ints, self.int_vars, self.int_like = set(), set(), None  # arguments of integer type; variables holding arrays made like them
        self.binders = []
        self.depth = 0
        self.maxdepth = maxdepth
        self.mod = None
        self.node = None
        self.callstack = []
        self.visited = {}
        self.steps = 0
        self.seeds = 0
        self.known_true = []
        self.nsobjs = {}
        self.history = True   # calls from the checks that leave state behind are judged after earlier calls with other arguments
        self.in_history = False
        self.histories = 0
        self.py = None        # tracker of plain Python numbers (PyNumbers), if any

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.repo.mods.get(name)
        if m is not None:
            return m
        path = self.repo.path_of(name)
        if path is None:
            return None
        m = ModV(name, path, {})
        self.repo.mods[name] = m
        with open(path, encoding="utf-8") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.tree = ast.parse(src, path)
        m.state = "loading"
        sc = Scope()
        sc.vars = m.ns
        sc.globals_ = m.ns
        m.ns["__name__"] = name
        saved = (self.mod, self.node, self.guards, self.effects, self.journal, self.callstack)
        self.mod = m
        self.guards = []
        self.effects = []
        self.journal = []
        self.callstack = []
        try:
            for st in m.tree.body:
                try:
                    self.exec_stmt(st, sc)
                except (Unsupported, PyRaise, RecursionError) as ex:
                    self.define_unknown(st, sc, str(ex))
        finally:
            self.mod, self.node, self.guards, self.effects, self.journal, self.callstack = saved
        m.state = "done"
        return m

    def define_unknown(self, st, sc, why):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                sc.vars.setdefault(n.id, op("unk:" + why[:40], (n.id,)))

    def get(self, dotted):
        """public entity by dotted name (module.attr[.attr])"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = None
            name = ".".join(parts[:i])
            if self.repo.path_of(name):
                m = self.load(name)
            if m is not None:
                v = m
                ok = True
                for p in parts[i:]:
                    if isinstance(v, ModV):
                        if p not in v.ns:
                            ok = False
                            break
                        v = v.ns[p]
                    elif isinstance(v, ClassV):
                        r, _ = v.lookup(p)
                        if r is None:
                            ok = False
                            break
                        v = r
                    else:
                        ok = False
                        break
                if ok:
                    return v
                return None
        return None

    # ------------------------------------------------------------ effects
    def guard(self):
        return cand(*self.guards) if self.guards else TRUE

    def where_am_i(self):
        f = self.mod.path if self.mod else "?"
        return f, getattr(self.node, "lineno", 0), (self.callstack[-1] if self.callstack else "<module>")

    def effect(self, kind, name, value, extra=None):
        f, l, fn = self.where_am_i()
        self.effects.append(Effect(kind, name, self.guard(), value, extra, f, l, fn, tuple(self.binders)))

    def crash(self, typ, msg):
        """an error of the interpreted program that no modelling choice can explain"""
        r = PyRaise(typ, msg, self.node)
        f, l, fn = self.where_am_i()
        if f and "/specs/" not in str(f):
            r.site = (f, l, fn)
        return r

    def event(self, kind, data):
        f, l, fn = self.where_am_i()
        self.events.append((kind, f, l, fn, data))

    def unk(self, why):
        return op("unk:" + why, ())

    # ------------------------------------------------------------ heap
    def touch(self, o):
        if self.journal:
            j = self.journal[-1]
            if id(o) not in j:
                j[id(o)] = (o, o.state())
        if o.tag is not None:
            self.event("mutate", o.tag)

    def ns(self, d):
        o = self.nsobjs.get(id(d))
        if o is None:
            o = self.nsobjs[id(d)] = NsV(d)
        return o

    def push_journal(self):
        self.journal.append({})

    def pop_journal(self, undo):
        """returns {id: (obj, old, new)}"""
        j = self.journal.pop()
        out = {}
        for k, (o, old) in j.items():
            out[k] = (o, old, o.state())
            if self.journal and k not in self.journal[-1]:
                self.journal[-1][k] = (o, old)
            if undo:
                o.load(old)
        return out

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if is_term(a) and is_term(b):
            ta, tb = to_term(a), to_term(b)
            if isinstance(ta, C) and isinstance(tb, C):
                return self.simp(cor(cand(c, ta), cand(cnot(c), tb)))
            return where(c, to_P(ta), to_P(tb))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, StrV) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
            return ListV([self.merge(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, DictV) and isinstance(b, DictV) and list(a.d) == list(b.d):
            return DictV({k: self.merge(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, InstV) and isinstance(b, InstV) and a.cls is b.cls and set(a.attrs) == set(b.attrs):
            return InstV(a.cls, {k: self.merge(c, a.attrs[k], b.attrs[k]) for k in a.attrs})
        if isinstance(a, ExtV) and a == b:
            return a
        if isinstance(a, GammaV) and a.c is c:
            return self.merge(c, a.a, b)
        if isinstance(b, GammaV) and b.c is c:
            return self.merge(c, a, b.b)
        return GammaV(c, a, b)

    def simp(self, c):
        if isinstance(c, C) and c.kind == "const":
            return c.data
        return c

    def merge_state(self, o, c, s1, s2):
        if isinstance(o, ListV):
            if len(s1) == len(s2):
                return [self.merge(c, x, y) for x, y in zip(s1, s2)]
            k = 0
            while k < len(s1) and k < len(s2) and s1[k] is s2[k]:
                k += 1
            # conditional append
            return list(s1[:k]) + [GammaV(c, ListV(s1[k:]), ListV(s2[k:]))]
        if isinstance(o, DictV):
            d1, d2 = s1[0], s2[0]
            out = {}
            for k in list(d1) + [k for k in d2 if k not in d1]:
                if k in d1 and k in d2:
                    out[k] = self.merge(c, d1[k], d2[k])
                elif k in d1:
                    out[k] = GammaV(c, d1[k], UNDEF)
                else:
                    out[k] = GammaV(c, UNDEF, d2[k])
            return (out, s1[1] if s1[1] is not None else s2[1])
        out = {}
        for k in list(s1) + [k for k in s2 if k not in s1]:
            out[k] = self.merge(c, s1.get(k, UNDEF), s2.get(k, UNDEF))
        return out

    def apply_diffs(self, c, d1, d2):
        """heap diffs of the two branches of condition c (both undone) -> merged heap"""
        for k in list(d1) + [k for k in d2 if k not in d1]:
            if k in d1:
                o, old, n1 = d1[k]
            else:
                o, old, _ = d2[k]
                n1 = old
            n2 = d2[k][2] if k in d2 else old
            tag, o.tag = o.tag, None
            self.touch(o)
            o.tag = tag
            o.load(self.merge_state(o, c, n1, n2))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, sc):
        """returns Flow; on symbolic early exits the remaining statements run under the negated guard"""
        exits = []
        npush = 0
        try:
            for st in stmts:
                fl = self.exec_stmt(st, sc)
                if fl is None:
                    continue
                exits.extend(fl.exits)
                if not fl.cont:
                    return Flow(exits, False)
                for g, kind, *_ in fl.exits:
                    ng = cnot(g)
                    if ng is FALSE:
                        return Flow(exits, False)
                    self.guards.append(ng)
                    npush += 1
            return Flow(exits, True)
        finally:
            for _ in range(npush):
                self.guards.pop()

    def exec_stmt(self, st, sc):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported("step budget")
        self.node = st
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        return m(st, sc)

    def s_Expr(self, st, sc):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, sc)

    def s_Pass(self, st, sc):
        return None

    def s_Import(self, st, sc):
        for al in st.names:
            v = self.import_module(al.name)
            if al.asname:
                sc.vars[al.asname] = v
            else:
                sc.vars[al.name.split(".")[0]] = self.import_module(al.name.split(".")[0])

    def import_module(self, name):
        if self.repo.path_of(name):
            m = self.load(name)
            if "." in name:
                par, ch = name.rsplit(".", 1)
                pm = self.load(par) if self.repo.path_of(par) else None
                if pm is not None:
                    pm.ns.setdefault(ch, m)
            return m
        return ExtV(self.ext.canon(name), name.split(".")[0])

    def s_ImportFrom(self, st, sc):
        base = st.module or ""
        if st.level:
            pk = self.mod.name.split(".")
            if not self.mod.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[: len(pk) - (st.level - 1)]
            base = ".".join(pk + ([st.module] if st.module else []))
        inrepo = self.repo.path_of(base) is not None
        for al in st.names:
            nm = al.asname or al.name
            if inrepo:
                m = self.load(base)
                if al.name == "*":
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            sc.vars[k] = v
                    continue
                if al.name in m.ns:
                    sc.vars[nm] = m.ns[al.name]
                elif self.repo.path_of(base + "." + al.name):
                    sc.vars[nm] = self.load(base + "." + al.name)
                else:
                    self.event("import_missing", (base, al.name))
                    sc.vars[nm] = op("unk:missing " + base + "." + al.name, ())
            else:
                full = (base + "." if base else "") + al.name
                sc.vars[nm] = ExtV(self.ext.canon(full), full.split(".")[0])

    def s_FunctionDef(self, st, sc):
        sc.vars[st.name] = self.make_func(st, sc)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, st, sc, cls=None):
        a = st.args
        defaults = tuple(self.eval(d, sc) for d in a.defaults)
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.eval(d, sc)
        qual = (cls + "." if cls else (self.mod.name + "." if not self.callstack else self.callstack[-1] + ".<locals>.")) + getattr(st, "name", "<lambda>")
        f = FuncV(st, sc, self.mod, qual, defaults, kwd)
        v = f
        for d in reversed(getattr(st, "decorator_list", [])):
            v = self.decorate(d, v, sc)
        return v

    def decorate(self, d, f, sc):
        if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
            if isinstance(f, FuncV):
                f.kind = d.id
                return f
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            return f
        dv = self.eval(d, sc)
        return self.apply_decorator(dv, f)

    def apply_decorator(self, dv, f):
        if isinstance(dv, ExtV):
            n = dv.name
            if n in TRANSPARENT or n.endswith(".jit"):
                if isinstance(f, FuncV):
                    f.wraps = f.wraps + (n,)
                return f
            if n == "functools.cached_property" or n == "property":
                f.kind = "property"
                return f
            if n == "classmethod" or n == "staticmethod":
                f.kind = n
                return f
        if isinstance(dv, PartialV) and isinstance(dv.func, ExtV) and (dv.func.name in TRANSPARENT or dv.func.name.endswith(".jit")):
            if isinstance(f, FuncV):
                f.wraps = f.wraps + (dv.func.name,)
            return f
        if isinstance(dv, P):
            a = as_atom(dv)
            if a is not None and a.op.startswith("call:"):
                n = a.op[5:]
                if n.endswith("dependent_property"):
                    f.kind = "property"
                    return f
                if n in TRANSPARENT or n.endswith(".jit") or n.endswith("lru_cache"):
                    return f
        if isinstance(dv, (FuncV, NatV)):
            return self.call(dv, [f], {})
        self.event("decorator", freeze(dv))
        return op("unk:decorated " + getattr(f, "qual", "?"), ())

    def s_ClassDef(self, st, sc):
        bases = []
        for b in st.bases:
            v = self.eval(b, sc)
            bases.append(v if isinstance(v, (ClassV, ExtV)) else ExtV("?"))
        qual = (self.mod.name + "." if not self.callstack else self.callstack[-1] + ".<locals>.") + st.name
        cs = Scope(parent=sc, globals_=sc.globals_)
        c = ClassV(st.name, qual, bases, cs.vars, self.mod, st)
        for s in st.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.make_func(s, sc, cls=qual)
                if isinstance(f, FuncV):
                    f.cls = c
                cs.vars[s.name] = f
            else:
                try:
                    self.exec_stmt(s, cs)
                except (Unsupported, PyRaise) as ex:
                    self.define_unknown(s, cs, str(ex))
        v = c
        for d in reversed(st.decorator_list):
            dv = self.eval(d, sc)
            if isinstance(dv, ExtV):
                continue
            v = c
        sc.vars[st.name] = v

    def s_Return(self, st, sc):
        v = None if st.value is None else self.eval(st.value, sc)
        return Flow([(TRUE, "return", v, None, None)], False)

    def s_Break(self, st, sc):
        return Flow([(TRUE, "break", None, None, None)], False)

    def s_Continue(self, st, sc):
        return Flow([(TRUE, "continue", None, None, None)], False)

    def s_Raise(self, st, sc):
        name, val = "Exception", None
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        raise PyRaise(name, "raise", st)

    def s_Assert(self, st, sc):
        c = self.test(self.eval(st.test, sc))
        if c is TRUE:
            return None
        if c is FALSE:
            raise PyRaise("AssertionError", "assert", st)
        self.effect("raise", "AssertionError", None, cnot(c))
        return None

    def s_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                k = self.eval(t.slice, sc)
                if isinstance(o, DictV):
                    self.touch(o)
                    o.d.pop(self.key(k), None)
                elif isinstance(o, ListV) and const_int(k) is not None:
                    self.touch(o)
                    del o.items[const_int(k)]
                else:
                    self.event("mutate_term", freeze(o))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                if isinstance(o, InstV):
                    self.touch(o)
                    o.attrs.pop(t.attr, None)

    def s_Global(self, st, sc):
        for n in st.names:
            sc.vars.pop(n, None)
            sc.outer = {**(sc.outer or {}), n: sc.globals_}

    def s_Nonlocal(self, st, sc):
        for n in st.names:
            q = sc.parent
            while q is not None and n not in q.vars:
                q = q.parent
            if q is None:
                raise Unsupported("nonlocal statement")
            sc.outer = {**(sc.outer or {}), n: q.vars}

    def s_Assign(self, st, sc):
        self.int_like = None
        v = self.eval(st.value, sc)
        for t in st.targets:
            self.assign(t, v, sc)
            if self.ints and isinstance(t, ast.Name):
                # an array made like an integer one holds whole numbers only
                (self.int_vars.add if self.int_like is v and isinstance(st.value, ast.Call) else self.int_vars.discard)((id(sc), t.id))

    def s_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, sc), sc)

    def s_AugAssign(self, st, sc):
        t = st.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.eval(load, sc)
        rhs = self.eval(st.value, sc)
        if isinstance(cur, ListV) and isinstance(st.op, ast.Add):
            self.touch(cur)
            cur.items.extend(self.iter_items(rhs) if not isinstance(rhs, ListV) else rhs.items)
            return
        if isinstance(cur, DictV) and isinstance(st.op, ast.BitOr):
            self.touch(cur)
            self.dict_update(cur, rhs)
            return
        if isinstance(t, ast.Name) and isinstance(cur, P):
            self.note_inplace(cur)
        v = self.binop(st.op, cur, rhs)
        self.assign(t, v, sc, aug=True)

    def note_inplace(self, cur):
        """an in-place operator applied to a value that is (a view of) a caller's array"""
        a = as_atom(cur)
        seen = 0
        while a is not None and seen < 20:
            seen += 1
            if a.op == "sym":
                if not a.scalar:
                    self.event("mutate_term", atomP(a))
                return
            if a.op == "index":
                b, idx = a.args
                # views only for basic indexing / key lookups
                if all(i is None or isinstance(i, (str, StrV)) or (isinstance(i, tuple) and i and i[0] == "slice") or (isinstance(i, P) and i.scalar) for i in idx):
                    if a.scalar:
                        return
                    a = as_atom(b)
                    continue
                return
            if a.op in ("transpose", "expand", "reshape"):
                a = as_atom(a.args[0])
                continue
            if a.op == "attr":
                a = as_atom(a.args[0]) if isinstance(a.args[0], P) else None
                continue
            return

    def assign(self, t, v, sc, aug=False):
        if isinstance(t, ast.Name):
            if sc.outer and t.id in sc.outer:
                d = sc.outer[t.id]
                self.touch(self.ns(d))
                d[t.id] = v
                return
            sc.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.iter_items(v)
                k = star[0]
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, sc)
                self.assign(t.elts[k].value, ListV(items[k:len(items) - after]), sc)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, sc)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            idx = self.eval_index(t.slice, sc)
            self.setitem(t.value, o, idx, v, sc)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, InstV):
            self.touch(o)
            o.attrs[name] = v
        elif isinstance(o, GammaV):
            raise Unsupported("attribute store on gated object")
        elif isinstance(o, (ClassV, ModV, FuncV)):
            self.touch(self.ns(o.ns))
            o.ns[name] = v
        elif isinstance(o, (tuple, str, StrV, ListV, DictV)) or o is None or isinstance(o, P) and o.is_const():
            raise self.crash("AttributeError", f"attribute {name} set on a plain value")
        else:
            self.effect("setattr", name, freeze(v), freeze(o))

    def setitem(self, tnode, o, idx, v, sc):
        if isinstance(o, DictV):
            self.touch(o)
            o.d[self.key(idx)] = v
            return
        if isinstance(o, ListV):
            k = const_int(idx)
            if k is not None:
                self.touch(o)
                try:
                    o.items[k] = v
                except IndexError:
                    raise PyRaise("IndexError")
                return
            if isinstance(idx, tuple) and idx[:1] == ("slice",):
                raise Unsupported("list slice store")
            raise Unsupported("list store at symbolic index")
        if hasattr(o, "m_setitem"):
            self.touch(o)
            o.m_setitem(self, idx, v)
            return
        if isinstance(o, (P, C)):
            self.note_inplace(to_P(o))
            if isinstance(v, (ListV, tuple)) and not (isinstance(v, tuple) and v[:1] == ("slice",)):
                v = self.ext.asarray(self, v)
            if self.int_vars and isinstance(tnode, ast.Name) and (id(sc), tnode.id) in self.int_vars and is_term(v):
                v = self.ext.cast(v, "int")
            nv = store(to_P(o), self.norm_idx(idx), to_P(v) if is_term(v) else freeze(v))
            # rebind the storage location holding the array
            self.rebind(tnode, nv, sc)
            return
        if isinstance(o, GammaV):
            raise Unsupported("store into gated object")
        self.effect("setitem", freeze(idx), freeze(v), freeze(o))

    def rebind(self, tnode, nv, sc):
        if isinstance(tnode, ast.Name):
            s = sc
            while s is not None:
                if tnode.id in s.vars:
                    s.vars[tnode.id] = nv
                    return
                s = s.parent
            sc.vars[tnode.id] = nv
        elif isinstance(tnode, ast.Attribute):
            self.setattr(self.eval(tnode.value, sc), tnode.attr, nv)
        elif isinstance(tnode, ast.Subscript):
            o = self.eval(tnode.value, sc)
            self.setitem(tnode.value, o, self.eval_index(tnode.slice, sc), nv, sc)
        else:
            raise Unsupported("store target")

    def s_If(self, st, sc):
        c = self.test(self.eval(st.test, sc))
        if c is TRUE:
            return self.exec_block(st.body, sc)
        if c is FALSE:
            return self.exec_block(st.orelse, sc)
        k = self.implied(c)
        if k is True:
            return self.exec_block(st.body, sc)
        if k is False:
            return self.exec_block(st.orelse, sc)
        self.event("branch", c)
        return self.sym_if(c, lambda: self.exec_block(st.body, sc), lambda: self.exec_block(st.orelse, sc), sc)

    def implied(self, c):
        for g in self.guards:
            if g is c:
                return True
            if g is cnot(c):
                return False
            if g.kind == "and":
                if c in g.data:
                    return True
                if cnot(c) in g.data:
                    return False
        return None

    def run_guarded(self, c, fn, sc):
        """run fn under guard c; returns (flow or PyRaise, vars, diff)"""
        saved = dict(sc.vars)
        self.push_journal()
        self.guards.append(c)
        try:
            try:
                fl = fn()
                if fl is None:
                    fl = Flow()
            except PyRaise as ex:
                self.effect("raise", ex.typ, None, TRUE)
                fl = Flow([(TRUE, "raise", ex.typ, None, None)], False)
        finally:
            self.guards.pop()
            diff = self.pop_journal(undo=True)
        new = dict(sc.vars)
        sc.vars.clear()
        sc.vars.update(saved)
        return fl, new, diff

    def sym_if(self, c, f1, f2, sc):
        fl1, v1, d1 = self.run_guarded(c, f1, sc)
        fl2, v2, d2 = self.run_guarded(cnot(c), f2, sc)
        exits = []
        for g, kind, val, hd, vs in fl1.exits:
            exits.append((cand(c, g), kind, val, hd if hd is not None else d1, vs if vs is not None else v1))
        for g, kind, val, hd, vs in fl2.exits:
            exits.append((cand(cnot(c), g), kind, val, hd if hd is not None else d2, vs if vs is not None else v2))
        if fl1.cont and fl2.cont:
            self.set_vars(sc, {k: self.merge(c, v1.get(k, UNDEF), v2.get(k, UNDEF)) for k in list(v1) + [k for k in v2 if k not in v1]})
            self.apply_diffs(c, d1, d2)
            return Flow(exits, True)
        if fl1.cont or fl2.cont:
            v, d = (v1, d1) if fl1.cont else (v2, d2)
            self.set_vars(sc, v)
            for k, (o, old, n) in d.items():
                tag, o.tag = o.tag, None
                self.touch(o)
                o.tag = tag
                o.load(n)
            return Flow(exits, True)
        return Flow(exits, False)

    def set_vars(self, sc, vs):
        sc.vars.clear()
        sc.vars.update(vs)

    # ------------------------------------------------------------ loops
    def s_For(self, st, sc):
        it = self.eval(st.iter, sc)
        it = self.as_iter(it)
        if isinstance(it, list):
            exits = []
            npush = 0
            try:
                for x in it:
                    if isinstance(x, Seg):
                        raise Unsupported("iteration over partly symbolic list")
                    self.assign(st.target, x, sc)
                    fl = self.exec_block(st.body, sc)
                    brk = False
                    for g, kind, val, hd, vs in fl.exits:
                        if kind == "continue":
                            if g is TRUE:
                                continue
                            # a guarded continue: join its state with the fall-through state
                            if fl.cont and vs is not None:
                                self.set_vars(sc, {k: self.merge(g, vs.get(k, UNDEF), sc.vars.get(k, UNDEF)) for k in list(sc.vars) + [k for k in vs if k not in sc.vars]})
                                self.apply_diffs(g, hd or {}, {})if False else self.join_exit_heap(g, hd)
                            elif vs is not None:
                                self.set_vars(sc, vs)
                                self.join_exit_heap(TRUE, hd)
                            continue
                        if kind == "break":
                            if g is TRUE:
                                brk = True
                            else:
                                raise Unsupported("guarded break")
                        else:
                            exits.append((g, kind, val, hd, vs))
                            if g is TRUE:
                                return Flow(exits, False)
                            self.guards.append(cnot(g))
                            npush += 1
                    if brk:
                        break
                    if not fl.cont and not any(k == "continue" for _, k, *_ in fl.exits):
                        return Flow(exits, False)
                else:
                    if st.orelse:
                        self.exec_block(st.orelse, sc)
                return Flow(exits, True)
            finally:
                for _ in range(npush):
                    self.guards.pop()
        return self.sym_loop(st, it, sc)

    def join_exit_heap(self, g, hd):
        if not hd:
            return
        for k, (o, old, new) in hd.items():
            tag, o.tag = o.tag, None
            self.touch(o)
            o.tag = tag
            o.load(self.merge_state(o, g, new, o.state()))

    def sym_loop(self, st, it, sc):
        n, elem = it.n, it.elem
        i = fresh_idx()

        def body():
            self.assign(st.target, elem(i), sc)
            return self.exec_block(st.body, sc)
        self.summarise(n, i, body, sc, st)
        return None

    def summarise(self, n, i, body, sc, st):
        ia = as_atom(i)
        # pass 1: what is written
        saved = dict(sc.vars)
        ne, nev = len(self.effects), len(self.events)
        self.push_journal()
        self.binders.append((ia, n))
        try:
            fl = body()
        except PyRaise as ex:
            fl = Flow([(TRUE, "raise", ex.typ, None, None)], False)
        finally:
            self.binders.pop()
            d = self.pop_journal(undo=True)
        v1 = dict(sc.vars)
        self.set_vars(sc, dict(saved))
        del self.effects[ne:]
        del self.events[nev:]
        if fl is not None and any(k in ("return", "break") for _, k, *_ in fl.exits):
            raise Unsupported("early exit from a loop of unknown length")
        mod = [k for k in v1 if k not in saved or v1[k] is not saved[k]]
        targets = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} if hasattr(st, "target") else set()
        # pass 2 with placeholders
        phi = {}
        for k in mod:
            if k in saved and k not in targets:
                ph = self.placeholder(saved[k])
                if ph is not None:
                    phi[k] = ph
                    sc.vars[k] = ph
        hphi = {}
        self.push_journal()
        for oid, (o, old, new) in d.items():
            if isinstance(o, ListV):
                self.touch_quiet(o)
                o.items = []
            elif isinstance(o, DictV):
                self.touch_quiet(o)
                for k in new[0]:
                    if k in old[0] and old[0][k] is not new[0][k]:
                        ph = self.placeholder(old[0][k])
                        if ph is not None:
                            hphi[(oid, k)] = ph
                            o.d[k] = ph
            elif isinstance(o, InstV):
                self.touch_quiet(o)
                for k in new:
                    if k in old and old[k] is not new[k]:
                        ph = self.placeholder(old[k])
                        if ph is not None:
                            hphi[(oid, k)] = ph
                            o.attrs[k] = ph
        self.binders.append((ia, n))
        try:
            fl = body()
        finally:
            self.binders.pop()
            d2 = self.pop_journal(undo=True)
        v2 = dict(sc.vars)
        self.set_vars(sc, dict(saved))
        allphi = set()
        for ph in list(phi.values()) + list(hphi.values()):
            a = self.ph_atom(ph)
            if a is not None:
                allphi.add(a)
        # order for canonical naming of mutually dependent folds
        names = [k for k in v2 if k in phi] + []
        group = []
        for k in names:
            group.append((saved[k], v2[k], phi[k]))
        for (oid, k), ph in hphi.items():
            o, old, new = d2[oid]
            group.append((old[0][k] if isinstance(o, DictV) else old[k], (new[0] if isinstance(o, DictV) else new)[k], ph))
        for k in mod:
            if k in targets:
                sc.vars[k] = self.at_last(v2.get(k), ia, n)
                continue
            if k in phi:
                sc.vars[k] = self.fold(n, i, saved[k], v2[k], phi[k], allphi, group)
            elif k in v2:
                sc.vars[k] = self.at_last(v2[k], ia, n)
        for oid, (o, old, new) in d2.items():
            if oid not in d:
                continue
            tag, o.tag = o.tag, None
            self.touch(o)
            o.tag = tag
            if isinstance(o, ListV):
                segs = []
                for x in new:
                    if any(contains_atom(freeze(x), a) for a in allphi):
                        segs.append(self.unk("loop-carried list"))
                    else:
                        segs.append(Seg(n, self.map_val(n, i, x)))
                o.items = list(old) + segs
            elif isinstance(o, DictV):
                nd_ = dict(old[0])
                opn = old[1]
                for k, x in new[0].items():
                    if k in old[0]:
                        if (oid, k) in hphi:
                            nd_[k] = self.fold(n, i, old[0][k], x, hphi[(oid, k)], allphi, group)
                        elif old[0][k] is not x:
                            nd_[k] = self.at_last(x, ia, n)
                    else:
                        fk = freeze(k)
                        if contains_atom(fk if not isinstance(fk, StrV) else tuple(fk.parts), ia):
                            # one entry per iteration
                            opn = op("dictmap", (opn, n, as_atom(mk_map(n, i, ("kv", fk if not isinstance(fk, StrV) else ("str",) + fk.parts, freeze(x))))))
                        else:
                            nd_[k] = self.at_last(x, ia, n)
                o.d, o.open = nd_, opn
            else:
                at = dict(old)
                for k, x in new.items():
                    if (oid, k) in hphi:
                        at[k] = self.fold(n, i, old[k], x, hphi[(oid, k)], allphi, group)
                    elif k not in old or old[k] is not x:
                        at[k] = self.at_last(x, ia, n)
                o.attrs = at

    def touch_quiet(self, o):
        tag, o.tag = o.tag, None
        self.touch(o)
        o.tag = tag

    def placeholder(self, v):
        self.seeds += 1
        if isinstance(v, bool):
            v = to_term(v)
        if isinstance(v, P):
            a = _mk_atom("phi", (self.seeds,), scalar=False, nd=nd_of(v))
            return atomP(a)
        if isinstance(v, C):
            return batom(_mk_atom("phi", (self.seeds,), scalar=False))
        return None

    def ph_atom(self, ph):
        if isinstance(ph, P):
            return as_atom(ph)
        if isinstance(ph, C):
            return ph.data
        return None

    def map_val(self, n, i, x):
        if is_term(x):
            return mk_map(n, i, to_term(x))
        if isinstance(x, tuple) and not (x and x[0] == "slice"):
            return tuple(self.map_val(n, i, y) for y in x)
        return as_atom(mk_map(n, i, freeze(x)))

    def at_last(self, v, ia, n):
        last = sub(n, ONE)
        return self.subst_val(v, {ia: last})

    def subst_val(self, v, mp):
        if is_term(v):
            return subst_atoms(to_term(v), mp)
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, mp) for x in v)
        if isinstance(v, ListV):
            return ListV([self.subst_val(x, mp) for x in v.items], v.kind)
        if isinstance(v, StrV):
            return mkstr([p if isinstance(p, str) else self.subst_val(p, mp) for p in v.parts])
        return v

    def fold(self, n, i, pre, new, ph, allphi, group):
        ia = as_atom(i)
        pa = self.ph_atom(ph)

        def has_phi(x):
            return contains(x, lambda t: t in allphi)
        if isinstance(new, bool):
            new = to_term(new)
        if isinstance(ph, C) and isinstance(new, P):
            new = truth(new)
        if isinstance(ph, C) and isinstance(new, C):
            if new.kind == "or" and ph in new.data:
                rest = cor(*[x for x in new.data if x is not ph])
                if not has_phi(rest):
                    return cor(to_term(pre), self.anyover(n, i, rest))
            if new.kind == "and" and ph in new.data:
                rest = cand(*[x for x in new.data if x is not ph])
                if not has_phi(rest):
                    return cand(to_term(pre), cnot(self.anyover(n, i, cnot(rest))))
            if not has_phi(new):
                return self.at_last(new, ia, n)
        if isinstance(ph, P) and is_term(new):
            new = to_P(new)
            pre = to_P(pre)
            if new is ph:
                return pre
            if not has_phi(new):
                return self.at_last(new, ia, n)
            d = sub(new, ph)
            if not has_phi(d):
                return add(pre, mk_sum(n, i, d))
            q = mul(new, inv(ph))
            if not has_phi(q):
                b = mk_map(n, i, q)
                return mul(pre, op("prodover", (n, b)))
            a = as_atom(new)
            if a is not None and a.op == "store" and a.args[0] is ph:
                idx, v = a.args[1], a.args[2]
                if not has_phi((idx, v)) and isinstance(idx[0], P) and idx[0] is i and not contains_atom(tuple(idx[1:]), ia):
                    if len(idx) == 1 and isinstance(v, P):
                        if dim(pre, 0) is n:
                            pn = nd_of(pre)
                            return mk_map(n, i, v)
                        return op("mapstore", (pre, n, mk_map(n, i, v), ZERO), nd=nd_of(pre))
                    if len(idx) > 1 and not has_phi((idx, v)):
                        return op("mapstore", (pre, n, tuple(idx[1:]), as_atom(mk_map(n, i, ("v", v)))))
                if len(idx) == 1 and not has_phi((idx, v)) and isinstance(idx[0], P) and isinstance(v, P):
                    off = sub(idx[0], i)
                    if off.is_const() and off.const() > 0:
                        return op("mapstore", (pre, n, mk_map(n, i, v), off), nd=nd_of(pre))
                # x[r][i] = v(i) for every i of one row
                if len(idx) > 1 and idx[-1] is i and isinstance(v, P) and nd_of(v) == 0 and not has_phi((idx, v)) and not contains_atom(tuple(idx[:-1]), ia) \
                        and all(isinstance(x, P) and x.scalar for x in idx) and dim(pre, len(idx) - 1) is n:
                    return store(pre, tuple(idx[:-1]), mk_map(n, i, v))
        # general fold, mutually dependent state
        phs = []
        for p_, nw, h in group:
            a = self.ph_atom(h)
            phs.append(a)
        mp = {a: atomP(_mk_atom("acc", (k,))) for k, a in enumerate(phs)}
        sysm = []
        used = self.closure(pa, group)
        for k, (p_, nw, h) in enumerate(group):
            if self.ph_atom(h) in used:
                body = subst_atoms(freeze(nw), mp)
                sysm.append((freeze(p_), as_atom(mk_map(n, i, ("b", body))), k))
        which = phs.index(pa) if pa in phs else -1
        r = op("fold", (n, tuple(sysm), which))
        if isinstance(ph, C):
            return batom(as_atom(r))
        return r

    def closure(self, pa, group):
        used = {pa}
        ch = True
        while ch:
            ch = False
            for p_, nw, h in group:
                a = self.ph_atom(h)
                if a in used:
                    for p2, n2, h2 in group:
                        b = self.ph_atom(h2)
                        if b not in used and contains_atom(freeze(nw), b):
                            used.add(b)
                            ch = True
        return used

    def anyover(self, n, i, c):
        if not contains_atom(c, as_atom(i)):
            return c
        m = mk_map(n, i, ind(c))
        return batom(_mk_atom("anyover", (m,)))

    def s_While(self, st, sc):
        for _ in range(300):
            c = self.test(self.eval(st.test, sc))
            if c is FALSE:
                return None
            if c is not TRUE:
                break
            fl = self.exec_block(st.body, sc)
            if any(g is TRUE and k == "break" for g, k, *_ in fl.exits):
                return None
            if not fl.cont:
                return fl
        else:
            raise Unsupported("while bound")
        # unknown condition: summarise
        i = fresh_idx()
        self.seeds += 1
        n = op("whilecount", (self.seeds,), scalar=True, integer=True)
        conds = []

        def body():
            conds.append(self.test(self.eval(st.test, sc)))
            return self.exec_block(st.body, sc)
        class _S:
            pass
        s = _S()
        before = dict(sc.vars)
        self.summarise_while(st, sc)
        return None

    def summarise_while(self, st, sc):
        """every variable written in the loop becomes a while-node over (condition, bodies)"""
        saved = dict(sc.vars)
        ne, nev = len(self.effects), len(self.events)
        self.push_journal()
        try:
            fl = self.exec_block(st.body, sc)
        finally:
            d = self.pop_journal(undo=True)
        v1 = dict(sc.vars)
        self.set_vars(sc, dict(saved))
        del self.effects[ne:]
        del self.events[nev:]
        if d or (fl is not None and fl.exits):
            raise Unsupported("while loop with heap effects")
        mod = [k for k in v1 if k in saved and v1[k] is not saved[k]]
        phi = {}
        for k in mod:
            ph = self.placeholder(saved[k])
            if ph is None:
                raise Unsupported("while over non-terms")
            phi[k] = ph
            sc.vars[k] = ph
        c = self.test(self.eval(st.test, sc))
        fl = self.exec_block(st.body, sc)
        v2 = dict(sc.vars)
        self.set_vars(sc, dict(saved))
        order = [k for k in v2 if k in phi]
        mp = {self.ph_atom(phi[k]): atomP(_mk_atom("acc", (j,))) for j, k in enumerate(order)}
        sysm = (subst_atoms(c, mp),) + tuple((freeze(saved[k]), subst_atoms(freeze(v2[k]), mp)) for k in order)
        for j, k in enumerate(order):
            sc.vars[k] = op("while", (sysm, j), nd=nd_of(to_P(saved[k])) if is_term(saved[k]) else None)
        for k in v1:
            if k not in saved:
                sc.vars[k] = self.unk("while-local")

    def s_With(self, st, sc):
        n = 0
        for it in st.items:
            v = self.eval(it.context_expr, sc)
            r = v
            a = as_atom(v) if isinstance(v, P) else None
            if a is not None and a.op == "call:numpyro.plate":
                self.effect("plate", a.args[0] if a.args else None, v)
                r = op("plateidx", (a.args,), nd=1)
            elif isinstance(v, InstV):
                f, _ = v.cls.lookup("__enter__")
                if f is not None:
                    r = self.call(BoundV(f, v), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, sc)
        return self.exec_block(st.body, sc)

    def s_Try(self, st, sc):
        saved = dict(sc.vars)
        self.push_journal()
        ne = len(self.effects)
        fl = None
        try:
            fl = self.exec_block(st.body, sc)
            self.pop_journal(undo=False)
        except PyRaise as ex:
            self.pop_journal(undo=False)
            h = self.find_handler(st.handlers, ex)
            if h is None:
                if st.finalbody:
                    self.exec_block(st.finalbody, sc)
                raise
            if h.name:
                sc.vars[h.name] = self.unk("exception value")
            fl = self.exec_block(h.body, sc)
        else:
            if st.orelse and fl.cont:
                fl2 = self.exec_block(st.orelse, sc)
                fl = Flow(fl.exits + fl2.exits, fl2.cont)
        if st.finalbody:
            f3 = self.exec_block(st.finalbody, sc)
            if not f3.cont:
                return f3
        return fl

    def find_handler(self, handlers, ex):
        for h in handlers:
            if h.type is None:
                return h
            names = [n.id if isinstance(n, ast.Name) else getattr(n, "attr", "") for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if ex.typ in names or "Exception" in names or "BaseException" in names or (ex.typ in ("KeyError", "IndexError") and "LookupError" in names):
                return h
        return None

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if self.history and not self.in_history and not self.callstack and self.of_repository(f):
            return self.after_history(f, args, kwargs)
        return self.call_now(f, args, kwargs)

    def of_repository(self, f):
        while isinstance(f, (BoundV, PartialV)):
            f = f.func
        if isinstance(f, InstV):
            f = f.cls
        m = f.module if isinstance(f, (FuncV, ClassV)) else None
        return m is not None and str(m.path).startswith(str(self.repo.root).rstrip("/") + "/")

    def after_history(self, f, args, kwargs):
        """the call; when it changes anything that existed before (module, class, function or instance state), the value of the call made after
        earlier calls that differ in each argument in turn: a function may keep state, but what it returns must not depend on it"""
        start = next(_births)
        self.in_history = True
        keep = (self.mod, self.node, list(self.guards), list(self.binders), list(self.journal), list(self.callstack), self.depth)

        def restore(extra):
            self.mod, self.node = keep[0], keep[1]
            self.guards[:], self.binders[:], self.callstack[:] = keep[2], keep[3], keep[5]
            self.depth = keep[6]
            while len(self.journal) > len(keep[4]) + extra:
                self.pop_journal(undo=False)

        def kept(d):
            me = getattr(f, "self_", None) if self.history == "shared" else None      # "shared": the receiver's own state has obligations of its own
            return [x for x in d.values() if x[0].birth < start and x[0] is not me and not same_state(x[1], x[2])]
        try:
            args, kwargs = list(args), dict(kwargs)
            given = [copied(a) for a in args], {k: copied(v) for k, v in kwargs.items()}     # before the call can change them
            ne, nev = len(self.effects), len(self.events)
            self.push_journal()
            r = ex = None
            try:
                r = self.call_now(f, args, kwargs)
            except PyRaise as e:
                ex = e
            d = self.pop_journal(undo=False)
            variants = variations(*given) if kept(d) else []
            if not variants:
                if ex:
                    raise ex
                return r
            self.histories += 1
            after = (list(self.effects), list(self.events))
            final = [(o, new) for o, old, new in d.values()]
            seen = None if ex else self.outcome(r)
            for a, k in variants:
                for o, old, new in d.values():
                    o.load(old)
                del self.effects[ne:], self.events[nev:]
                self.push_journal()
                try:
                    try:
                        self.call_now(f, a, k)
                    except PyRaise:
                        restore(1)
                    del self.effects[ne:], self.events[nev:]
                    try:
                        r2, ex2 = self.call_now(f, [copied(x) for x in given[0]], {q: copied(x) for q, x in given[1].items()}), None
                    except PyRaise as e:
                        r2, ex2 = None, e
                    if (ex is None) != (ex2 is None) or not ex and self.outcome(r2) != seen:
                        if ex2:
                            raise ex2
                        return r2
                except Unsupported:
                    pass
                restore(1)
                self.pop_journal(undo=True)
            restore(0)
            self.effects[:], self.events[:] = after
            for o, new in final:
                o.load(new)
            if ex:
                raise ex
            return r
        finally:
            restore(0)
            self.in_history = False

    def outcome(self, r):
        try:
            return freeze(r)
        except (Unsupported, RecursionError):
            return None

    def call_now(self, f, args, kwargs):
        if isinstance(f, GammaV):
            return self.lift_gamma(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self_] + list(args), kwargs) if isinstance(f.func, FuncV) else self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtV):
            if self.traced:
                self.traced.call(self, f, args, kwargs)
            return self.ext.call(self, f.name, list(args), dict(kwargs))
        if isinstance(f, ShapeV):
            return f.m_call(self, args, kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, NatV):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, InstV):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs)
            if f.cls.has_ext_base():
                return op("callinst", (freeze(f), freeze(tuple(args)), freeze(DictV(kwargs))))
            raise PyRaise("TypeError", "not callable")
        if isinstance(f, P):
            if f.is_const() or is_number(f):
                raise self.crash("TypeError", "a number or array is called")
            a = as_atom(f)
            if a is not None and a.op.startswith("new:"):
                return self.call_opaque_method(a, "__call__", args, kwargs)
            if a is not None and a.op == "attr" and isinstance(a.args[1], str):
                kw = () if not kwargs else (freeze(DictV(kwargs)),)
                return op("meth:" + a.args[1], (a.args[0],) + tuple(freeze(x) for x in args) + kw)
            fa = freeze(tuple(args))
            kw = freeze(DictV(kwargs))
            return op("apply", (f, fa, kw))
        if f is None or isinstance(f, (str, bool, tuple, ListV, DictV)):
            raise PyRaise("TypeError", "not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def lift_gamma(self, g, fn):
        a = self._gbranch(g.c, lambda: fn(g.a)) if g.a is not UNDEF else UNDEF
        b = self._gbranch(cnot(g.c), lambda: fn(g.b)) if g.b is not UNDEF else UNDEF
        return self.merge(g.c, a, b)

    def _gbranch(self, c, fn):
        self.guards.append(c)
        try:
            return fn()
        except PyRaise as ex:
            self.effect("raise", ex.typ, None, TRUE)
            return UNDEF
        finally:
            self.guards.pop()

    def sig(self, f):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            self.event("bind_error", (f.qual, "too many positional arguments"))
            raise PyRaise("TypeError", f"{f.qual}: too many positional arguments", self.node)
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kwargs)
        star = kw.pop("**", None)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.event("bind_error", (f.qual, f"multiple values for {k}"))
                    raise PyRaise("TypeError", f"{f.qual}: multiple values for {k}", self.node)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.event("bind_error", (f.qual, f"unexpected keyword {k}"))
                raise PyRaise("TypeError", f"{f.qual}: unexpected keyword argument {k}", self.node)
        nd_ = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd_)
                if j >= 0:
                    out[n] = f.defaults[j]
                elif star is not None:
                    out[n] = index(star, (n,))
                else:
                    self.event("bind_error", (f.qual, f"missing argument {n}"))
                    raise PyRaise("TypeError", f"{f.qual}: missing argument {n}", self.node)
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in f.kwdefaults:
                    out[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.event("bind_error", (f.qual, f"missing argument {x.arg}"))
                    raise PyRaise("TypeError", f"{f.qual}: missing keyword argument {x.arg}", self.node)
        if a.kwarg is not None:
            d = DictV(extra)
            if star is not None:
                d.open = star
            out[a.kwarg.arg] = d
        return out

    def call_func(self, f, args, kwargs):
        if f.qual in self.override:
            self.visited.setdefault(f.qual, 0)
            return self.override[f.qual](self, self.bind(f, args, kwargs))
        if f.qual in self.opaque or self.reclimit and self.callstack.count(f.qual) >= self.reclimit.get(f.qual, 1 << 30):
            b = self.bind(f, args, kwargs)
            self.visited.setdefault(f.qual, 0)
            return self.ext.opaque_result(self, f, b)
        if self.depth > self.maxdepth:
            raise Unsupported("call depth")
        b = self.bind(f, args, kwargs)
        sc = Scope(parent=f.scope, func=f, globals_=f.module.ns)
        sc.vars.update(b)
        if f.cls is not None:
            sc.vars.setdefault("__class__", f.cls)
        saved = (self.mod, self.node)
        self.mod = f.module
        self.depth += 1
        self.callstack.append(f.qual)
        self.visited[f.qual] = (os.path.relpath(f.module.path, self.repo.root), f.node.lineno)
        jl = len(self.journal)
        self.push_journal()
        try:
            if isinstance(f.node, ast.Lambda):
                self.node = f.node.body
                r = self.eval(f.node.body, sc)
                self.pop_journal(undo=False)
                return r
            isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(f.node))
            if isgen:
                raise Unsupported("generator function")
            fl = self.exec_block(f.node.body, sc)
            return self.finish(fl)
        finally:
            while len(self.journal) > jl:
                j = self.journal.pop()
                if self.journal:
                    for k, (o, old) in j.items():
                        self.journal[-1].setdefault(k, (o, old))
            self.callstack.pop()
            self.depth -= 1
            self.mod, self.node = saved

    def finish(self, fl):
        """join the exits of a function body"""
        diff = self.pop_journal(undo=False)
        exits = [e for e in fl.exits if e[1] in ("return",)]
        raises = [e for e in fl.exits if e[1] == "raise"]
        if not fl.cont and not exits:
            if raises:
                raise PyRaise(raises[0][2], "all paths raise", self.node)
            return None
        if fl.cont:
            val = None
        else:
            g, _, val, hd, vs = exits[-1]
            if hd:
                self.join_exit_heap(TRUE, hd)
            exits = exits[:-1]
        for g, kind, v, hd, vs in reversed(exits):
            val = self.merge(g, v, val)
            if hd:
                self.join_exit_heap(g, hd)
        return val

    def instantiate(self, cls, args, kwargs):
        if cls.qual in self.opaque:
            init, _ = cls.lookup("__init__")
            if isinstance(init, FuncV):
                b = self.bind(init, [None] + list(args), kwargs)
                names = [n for n in self.sig(init)[1:]]
                extra = [k for k in b if k not in names and k != self.sig(init)[0]]
                fr = tuple((n, freeze(b[n])) for n in names)
                ex = []
                for k in extra:
                    if isinstance(b[k], DictV):
                        ex += [(kk, freeze(vv)) for kk, vv in b[k].d.items()]
                    elif b[k] != ():
                        ex.append((k, freeze(b[k])))
                fr = fr + tuple(sorted(ex, key=lambda t: str(t[0])))
                return op("new:" + cls.qual, fr)
            return op("new:" + cls.qual, (freeze(tuple(args)),))
        o = InstV(cls)
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(BoundV(init, o), args, kwargs)
        elif cls.has_ext_base():
            o.attrs["@extinit"] = freeze((tuple(args), DictV(kwargs)))
        elif args or kwargs:
            raise PyRaise("TypeError", f"{cls.qual}() takes no arguments", self.node)
        return o

    def call_opaque_method(self, a, name, args, kwargs):
        cls = self.get(a.op[4:])
        m = None
        if isinstance(cls, ClassV):
            m, _ = cls.lookup(name)
            if m is None and not cls.has_ext_base():
                raise PyRaise("AttributeError", f"{cls.qual} has no attribute {name}", self.node)
        if isinstance(m, FuncV):
            b = self.bind(m, [None] + list(args), kwargs)
            names = self.sig(m)[1:]
            fr = tuple((n, freeze(b[n])) for n in names)
            nd = None
            rk = self.method_rank.get(name)
            if rk is not None and isinstance(b[names[0]], P):
                nd = nd_of(b[names[0]])
                nd = None if nd is None else nd + rk
            return op("meth:" + name, (atomP(a),) + fr, nd=nd)
        return op("meth:" + name, (atomP(a), freeze(tuple(args)), freeze(DictV(kwargs))))

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        if hasattr(e, "lineno"):
            self.node = e
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            return fnum(v)
        if isinstance(v, complex):
            if v == 0:
                return ZERO
            return mul(fnum(v.imag), op("I", (), scalar=True))
        raise Unsupported("constant")

    def e_Name(self, e, sc):
        s = sc
        while s is not None:
            if e.id in s.vars:
                v = s.vars[e.id]
                if v is UNDEF:
                    raise self.crash("UnboundLocalError", e.id)
                return v
            s = s.parent
        g = sc.globals_
        if g is not None and e.id in g:
            return g[e.id]
        if self.mod and e.id in self.mod.ns:
            return self.mod.ns[e.id]
        if e.id in self.ext.BUILTINS:
            return ExtV(e.id)
        self.event("name_error", e.id)
        if e.id in dir(builtins) or e.id.startswith("__") or self.mod is None or self.mod.tree is None or module_binds(self.mod.tree, e.id):
            raise Unsupported("name " + e.id)
        raise self.crash("NameError", e.id)

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return ListV(self.elts(e.elts, sc))

    def e_Set(self, e, sc):
        return ListV(self.elts(e.elts, sc), "set")

    def elts(self, els, sc):
        out = []
        for x in els:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, sc)
                out.extend(self.iter_items(v))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, sc))
            else:
                kk = self.key(self.eval(k, sc))
                d.d[kk] = self.eval(v, sc)
        return d

    def dict_update(self, d, o):
        if isinstance(o, DictV):
            d.d.update(o.d)
            if o.open is not None:
                d.open = o.open
        elif isinstance(o, ListV) or isinstance(o, tuple):
            for it in self.iter_items(o):
                k, v = self.unpack(it, 2)
                d.d[self.key(k)] = v
        else:
            d.open = op("dictupd", (d.open, freeze(o)))

    def key(self, k):
        if isinstance(k, P) and k.is_const():
            return k
        if isinstance(k, (P, C, str, bytes, StrV, bool, tuple)) or k is None:
            return k
        if isinstance(k, (FuncV, ClassV, ExtV)):
            return k
        raise Unsupported("dict key")

    def e_JoinedStr(self, e, sc):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                parts.append(self.e_FormattedValue(v, sc))
        return mkstr(parts)

    def percent(self, s, x):
        """s % x for plain %s and %d"""
        xs = list(x) if isinstance(x, tuple) else [x]
        parts, used = [], 0
        for tok in re.split(r"(%[a-zA-Z%]|%[^a-zA-Z%][^a-zA-Z]*[a-zA-Z])", s):
            if tok == "%%":
                parts.append("%")
            elif tok[:1] == "%":
                if tok not in ("%s", "%d", "%i") or used >= len(xs):
                    return None
                parts.append(self.strpart(xs[used]))
                used += 1
            elif tok:
                parts.append(tok)
        return mkstr(parts) if used == len(xs) else None

    def strpart(self, x):
        if isinstance(x, (str, StrV)):
            return x
        if isinstance(x, bool) or x is None:
            return str(x)
        if isinstance(x, P):
            if x.is_const():
                c = x.const()
                return str(c.numerator) if c.denominator == 1 else str(float(c))
            return x
        return op("str", (freeze(x),))

    def e_FormattedValue(self, e, sc):
        x = self.eval(e.value, sc)
        if e.format_spec is not None:
            spec = self.eval(e.format_spec, sc)
            if isinstance(spec, str) and spec not in ("", "s", "d"):
                if isinstance(x, str):
                    return format(x, spec)
                if isinstance(x, P) and x.is_const():
                    c = x.const()
                    try:
                        return format(int(c) if c.denominator == 1 and spec[-1] not in "eEfFgG%" else float(c), spec)
                    except ValueError:
                        raise Unsupported("format " + spec)
                return mkstr([op("strspec", (freeze(x), spec))])
        if e.conversion == 114 and isinstance(x, str):
            return repr(x)
        return mkstr([self.strpart(x)])

    def e_Attribute(self, e, sc):
        o = self.eval(e.value, sc)
        self.node = e
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        if isinstance(o, GammaV):
            return self.lift_gamma(o, lambda g: self.getattr(g, name))
        if hasattr(o, "m_getattr"):
            return o.m_getattr(self, name)
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            if self.repo.path_of(o.name + "." + name):
                return self.load(o.name + "." + name)
            self.event("attr_missing", (o.name, name))
            raise PyRaise("AttributeError", f"module {o.name} has no attribute {name}", self.node)
        if isinstance(o, ExtV):
            v = self.ext.getattr(self, o.name, name)
            return ExtV(v.name, o.lib) if o.lib and isinstance(v, ExtV) else v
        if isinstance(o, InstV):
            if name in o.attrs:
                v = o.attrs[name]
                if v is UNDEF:
                    raise PyRaise("AttributeError", name, self.node)
                return v
            f, owner = o.cls.lookup(name)
            if owner is not None:
                if isinstance(f, FuncV):
                    if f.kind == "property":
                        return self.call_func(f, [o], {})
                    if f.kind == "staticmethod":
                        return f
                    if f.kind == "classmethod":
                        return BoundV(f, o.cls)
                    return BoundV(f, o)
                return f
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return DictV(o.attrs)
            if name == "shape" and "batch_shape" in o.attrs and "event_shape" in o.attrs:
                return ShapeV(o)
            if o.cls.has_ext_base() and not o.attrs.get("@closed"):
                return op("instattr", (o.cls.qual, name, freeze(o)))
            self.event("attr_missing", (o.cls.qual, name))
            raise PyRaise("AttributeError", f"{o.cls.qual} has no attribute {name}", self.node)
        if isinstance(o, ClassV):
            f, owner = o.lookup(name)
            if owner is not None:
                if isinstance(f, FuncV) and f.kind == "classmethod":
                    return BoundV(f, o)
                return f
            if name == "__name__":
                return o.name
            if o.has_ext_base():
                return op("clsattr", (o.qual, name))
            self.event("attr_missing", (o.qual, name))
            raise PyRaise("AttributeError", f"{o.qual} has no attribute {name}", self.node)
        if isinstance(o, SuperV):
            mro = o.self_.cls.mro() if isinstance(o.self_, InstV) else o.cls.mro()
            try:
                k = [id(c) for c in mro].index(id(o.cls))
            except ValueError:
                k = 0
            for c in mro[k + 1:]:
                if isinstance(c, ClassV) and name in c.ns:
                    f = c.ns[name]
                    if isinstance(f, FuncV):
                        if f.kind == "property":
                            return self.call_func(f, [o.self_], {})
                        return BoundV(f, o.self_)
                    return f
            if name == "__init__":
                inst = o.self_
                return NatV(lambda it, a, k: it.ext.ext_base_init(it, inst, a, k), "extinit")
            return op("superattr", (name, freeze(o.self_)))
        if isinstance(o, (P, C)):
            if name not in ARRAY_ATTRS and is_number(o):
                raise PyRaise("AttributeError", f"a number or array has no attribute {name}", self.node)
            return self.ext.term_attr(self, o, name)
        if isinstance(o, (ListV, DictV, str, StrV, tuple, bytes)):
            return self.ext.container_attr(self, o, name)
        if isinstance(o, FuncV):
            if name in ("__name__", "__doc__", "__qualname__"):
                return o.name
            if name in o.ns:
                return o.ns[name]
            if not name.startswith("__") and not o.node.decorator_list if hasattr(o.node, "decorator_list") else False:
                raise PyRaise("AttributeError", f"function {o.name} has no attribute {name}", self.node)
            return op("funcattr", (o.qual, name))
        if isinstance(o, AtV):
            return self.ext.at_method(self, o, name)
        if isinstance(o, PartialV) or isinstance(o, (NatV, BoundV)):
            return op("funcattr", (freeze(o), name))
        if o is None or isinstance(o, bool):
            raise PyRaise("AttributeError", f"{o!r} has no attribute {name}", self.node)
        if isinstance(o, SymIter):
            raise Unsupported("attribute of iterator")
        raise Unsupported(f"attribute of {type(o).__name__}")

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        idx = self.eval_index(e.slice, sc)
        self.node = e
        return self.getitem(o, idx)

    def eval_index(self, s, sc):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iter_items(self.eval(x.value, sc)))
                else:
                    out.append(self.eval(x, sc))
            return tuple(out)
        return self.eval(s, sc)

    def e_Slice(self, e, sc):
        f = lambda x: None if x is None else self.eval(x, sc)
        return ("slice", f(e.lower), f(e.upper), f(e.step))

    def norm_idx(self, idx):
        if isinstance(idx, tuple) and idx and idx[0] == "slice":
            items = [idx]
        elif isinstance(idx, tuple):
            items = list(idx)
        else:
            items = [idx]
        out = []
        for x in items:
            if isinstance(x, bool):
                x = to_term(x)
            if isinstance(x, P):
                a = as_atom(x)
                if a is not None and a.op == "maskpos":
                    x = a.args[0]
                elif a is not None and a.op == "where" and a.args[1] is ONE and a.args[2] is ZERO:
                    x = a.args[0]
            if isinstance(x, tuple) and x and x[0] == "slice":
                s = [freeze(q) for q in x[1:]]
                if s[0] is ZERO:
                    s[0] = None
                if s[2] is ONE:
                    s[2] = None
                x = ("slice",) + tuple(s)
            elif isinstance(x, (ListV, tuple)):
                arr = self.ext.asarray(self, x)
                x = arr
            elif isinstance(x, (P, C, str, StrV)) or x is None or x is Ellipsis:
                pass
            else:
                x = freeze(x)
            out.append(x)
        return tuple(out)

    def getitem(self, o, idx):
        if isinstance(o, GammaV):
            return self.lift_gamma(o, lambda g: self.getitem(g, idx))
        if isinstance(idx, GammaV):
            return self.lift_gamma(idx, lambda g: self.getitem(o, g))
        if hasattr(idx, "m_index"):
            return idx.m_index(self, o)
        if isinstance(o, AtV):
            return AtV(o.base, idx)
        if isinstance(o, DictV):
            k = self.key(idx)
            if k in o.d:
                v = o.d[k]
                if isinstance(v, GammaV) and (v.a is UNDEF or v.b is UNDEF):
                    return v.a if v.b is UNDEF else v.b
                return v
            if o.open is not None:
                return index(o.open if isinstance(o.open, P) else op("opn", (o.open,)), (freeze(k),))
            if isinstance(k, (str, bytes)) and all(isinstance(q, (str, bytes)) for q in o.d):
                raise PyRaise("KeyError", k, self.node)
            if isinstance(k, (StrV, P)):
                return op("dictget", (freeze(o), freeze(k)))
            raise PyRaise("KeyError", repr(k), self.node)
        if isinstance(o, (ListV, tuple)):
            items = list(o.items if isinstance(o, ListV) else o)
            k = const_int(idx)
            if k is not None:
                if any(isinstance(x, (Seg,)) for x in items):
                    return self.seg_index(items, num(k))
                if any(isinstance(x, GammaV) and isinstance(x.a, ListV) and isinstance(x.b, ListV) for x in items):
                    return op("listget", (freeze(o), num(k)))
                try:
                    return items[k]
                except IndexError:
                    raise PyRaise("IndexError", str(k), self.node)
            if isinstance(idx, tuple) and idx[:1] == ("slice",):
                s = [None if x is None else const_int(x) for x in idx[1:]]
                if all(a is None or b is not None for a, b in zip(idx[1:], s)) and not any(isinstance(x, Seg) for x in items):
                    r = items[slice(*s)]
                    return ListV(r, o.kind) if isinstance(o, ListV) else tuple(r)
                return op("listslice", (freeze(o), freeze(idx)))
            if isinstance(idx, P):
                if len(items) == 1 and isinstance(items[0], Seg):
                    return self.seg_index(items, idx)
                # symbolic position among finitely many: gate
                if items and not any(isinstance(x, Seg) for x in items) and len(items) <= 8:
                    r = items[-1]
                    for j in range(len(items) - 2, -1, -1):
                        r = self.merge(eqc(idx, num(j)), items[j], r)
                    return r
                return op("listget", (freeze(o), idx))
            if isinstance(idx, (bool, C)):
                return self.getitem(o, to_P(idx))
            raise Unsupported("list index")
        if isinstance(o, ModelV):
            if isinstance(idx, GammaV):
                return self.lift_gamma(idx, lambda g: o.m_getitem(self, g))
            return o.m_getitem(self, idx)
        if isinstance(o, (P, C)):
            return self.ext.term_getitem(self, to_P(o), idx)
        if isinstance(o, str):
            k = const_int(idx)
            if k is not None:
                return o[k]
            if isinstance(idx, tuple) and idx[:1] == ("slice",):
                s = [None if x is None else const_int(x) for x in idx[1:]]
                return o[slice(*s)]
            raise Unsupported("str index")
        if isinstance(o, InstV):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(BoundV(f, o), [idx], {})
            return op("institem", (freeze(o), freeze(idx)))
        if isinstance(o, ExtV):
            return op("extitem", (o.name, freeze(idx)))
        if isinstance(o, (ClassV,)):
            return o
        if isinstance(o, StrV):
            return op("stritem", (freeze(o), freeze(idx)))
        if isinstance(o, T):
            return self.ext.term_getitem(self, atomP(o), idx)
        if o is None:
            raise PyRaise("TypeError", "None is not subscriptable", self.node)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def seg_index(self, items, k):
        off = ZERO
        for x in items:
            if isinstance(x, Seg):
                if len(items) == 1:
                    return self.elem_of(x.arr, k)
                return op("listget", (freeze(ListV(items)), k))
        return op("listget", (freeze(ListV(items)), k))

    def elem_of(self, arr, k):
        if isinstance(arr, tuple):
            return tuple(self.elem_of(x, k) for x in arr)
        if isinstance(arr, P):
            return index(arr, (k,))
        if isinstance(arr, T):
            return index(atomP(arr), (k,))
        return op("elem", (freeze(arr), k))

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        self.node = e
        return self.binop(e.op, a, b)

    def binop(self, o, a, b):
        if isinstance(a, GammaV):
            return self.lift_gamma(a, lambda g: self.binop(o, g, b))
        if isinstance(b, GammaV):
            return self.lift_gamma(b, lambda g: self.binop(o, a, g))
        t = type(o)
        if isinstance(a, ModelV) or isinstance(b, ModelV):
            m = a if isinstance(a, ModelV) else b
            if not hasattr(m, "m_binop"):
                raise Unsupported("operator on " + type(m).__name__)
            return m.m_binop(self, t, b if m is a else a, m is not a)
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if t is ast.Add:
                return mkstr([self.strpart(a), self.strpart(b)])
            if t is ast.Mod:
                r = self.percent(a, b) if isinstance(a, str) else None
                return op("strfmt", (freeze(a), freeze(b))) if r is None else r
            if t is ast.Mult and isinstance(a, str) and const_int(b) is not None:
                return a * const_int(b)
            if t in (ast.Sub, ast.Pow, ast.FloorDiv, ast.MatMult, ast.Div, ast.Mult) and all(isinstance(x, (str, StrV, tuple, ListV, DictV)) or x is None for x in (a, b)):
                raise self.crash("TypeError", "operator on text")
            raise Unsupported("string operator")
        if isinstance(a, (ListV, tuple)) and isinstance(b, (ListV, tuple)) and t is ast.Add:
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return ListV(list(self._li(a)) + list(self._li(b)))
        if isinstance(a, tuple) and isinstance(b, P) and t is ast.Add:
            return op("tupcat", (freeze(a), b))
        if isinstance(b, tuple) and isinstance(a, P) and t is ast.Add:
            if not a.is_const():
                return op("tupcat", (a, freeze(b)))
        if isinstance(a, (ListV, tuple)) and t is ast.Mult and const_int(b) is not None:
            r = list(self._li(a)) * const_int(b)
            return ListV(r) if isinstance(a, ListV) else tuple(r)
        if isinstance(a, (ListV, tuple)) and t is ast.Mult and isinstance(b, P):
            it = self._li(a)
            if len(it) == 1 and is_term(it[0]):
                return ListV([Seg(b, mk_map(b, fresh_idx(), to_term(it[0])))])
        if isinstance(a, DictV) and isinstance(b, DictV) and t is ast.BitOr:
            d = DictV(a.d, a.open)
            self.dict_update(d, b)
            return d
        if isinstance(a, DictV) and t is ast.BitOr or isinstance(b, DictV) and t is ast.BitOr:
            d = DictV(a.d, a.open) if isinstance(a, DictV) else DictV()
            self.dict_update(d, b)
            return d
        if isinstance(a, InstV) or isinstance(b, InstV):
            nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv"}.get(t)
            if isinstance(a, InstV) and nm:
                f, _ = a.cls.lookup(f"__{nm}__")
                if f is not None:
                    return self.call(BoundV(f, a), [b], {})
            return op("binop:" + t.__name__, (freeze(a), freeze(b)))
        if isinstance(a, (ListV, tuple)) and isinstance(b, (P, C)):
            a = self.ext.asarray(self, a)
        if isinstance(b, (ListV, tuple)) and isinstance(a, (P, C)):
            b = self.ext.asarray(self, b)
        if a is None or b is None:
            raise PyRaise("TypeError", "operand None", self.node)
        if not (is_term(a) and is_term(b)):
            return op("binop:" + t.__name__, (freeze(a), freeze(b)))
        a, b = to_term(a), to_term(b)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if isinstance(a, P) and a.is_const() and isinstance(b, P) and b.is_const():
                x, y = int(a.const()), int(b.const())
                return num({ast.BitAnd: x & y, ast.BitOr: x | y, ast.BitXor: x ^ y}[t])
            ca, cb = truth(a), truth(b)
            r = {ast.BitAnd: cand, ast.BitOr: cor, ast.BitXor: cxor}[t](ca, cb)
            return self.simp(r)
        if t is ast.Mult and isinstance(a, C) and isinstance(b, C):
            return self.simp(cand(a, b))
        if t is ast.Add and isinstance(a, C) and isinstance(b, C):
            # numpy boolean addition is logical or; python bool addition counts
            return self.simp(cor(a, b)) if not (a.kind == "const" and b.kind == "const") else add(ind(a), ind(b))
        if t is ast.Mult and isinstance(a, C):
            return where(a, b, ZERO)
        if t is ast.Mult and isinstance(b, C):
            return where(b, a, ZERO)
        a, b = to_P(a), to_P(b)
        if t is ast.Add:
            return add(a, b)
        if t is ast.Sub:
            return sub(a, b)
        if t is ast.Mult:
            return mul(a, b)
        if t is ast.Div:
            if self.py is not None:
                self.py.division(self, a, b)
            if b is ZERO:
                return self.unk("division by zero")
            return div(a, b)
        if t is ast.Pow:
            return power(a, b)
        if t is ast.FloorDiv:
            if a.is_const() and b.is_const() and b.const() != 0:
                return num(a.const() // b.const())
            return op("floordiv", (a, b), nd=None)
        if t is ast.Mod:
            if a.is_const() and b.is_const() and b.const() != 0:
                return num(a.const() % b.const())
            return op("mod", (a, b))
        if t is ast.MatMult:
            return self.ext.matmul(self, a, b)
        if t in (ast.LShift, ast.RShift) and a.is_const() and b.is_const():
            return num(int(a.const()) << int(b.const()) if t is ast.LShift else int(a.const()) >> int(b.const()))
        raise Unsupported("operator " + t.__name__)

    def _li(self, a):
        return a.items if isinstance(a, ListV) else list(a)

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        return self.unop(e.op, v)

    def unop(self, o, v):
        if isinstance(v, GammaV):
            return self.lift_gamma(v, lambda g: self.unop(o, g))
        if isinstance(o, ast.Not):
            return self.simp(cnot(self.test(v)))
        if isinstance(v, ModelV) and hasattr(v, "m_unop"):
            return v.m_unop(self, type(o))
        if isinstance(v, (ListV, tuple)):
            v = self.ext.asarray(self, v)
        if not is_term(v):
            return op("unop:" + type(o).__name__, (freeze(v),))
        v = to_term(v)
        if isinstance(o, ast.Invert):
            if isinstance(v, C):
                return self.simp(cnot(v))
            if v.is_const():
                return num(~int(v.const()))
            return self.simp(cnot(truth(v)))
        v = to_P(v)
        if isinstance(o, ast.USub):
            return neg(v)
        return v

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        acc = None
        pushed = 0
        vals = []
        try:
            for x in e.values:
                v = self.eval(x, sc)
                c = self.test(v) if x is not e.values[-1] else self.cond(v)
                vals.append((v, c))
                if isand and c is FALSE or (not isand and c is TRUE):
                    if len(vals) == 1:
                        return v
                    break
                if c.kind != "const":
                    self.guards.append(c if isand else cnot(c))
                    pushed += 1
        finally:
            for _ in range(pushed):
                self.guards.pop()
        if all(c.kind == "const" for _, c in vals):
            return vals[-1][0]
        nontriv = [(v, c) for v, c in vals if c.kind != "const" or (c is FALSE) == isand]
        if all(isinstance(v, (bool, C)) or (isinstance(v, P)) for v, _ in vals):
            r = cand(*[c for _, c in vals]) if isand else cor(*[c for _, c in vals])
            return self.simp(r)
        v = vals[-1][0]
        for x, c in reversed(vals[:-1]):
            v = self.merge(c, v, x) if isand else self.merge(c, x, v)
        return v

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = []
        for o, r in zip(e.ops, e.comparators):
            right = self.eval(r, sc)
            self.node = e
            res.append(self.compare(o, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        return self.simp(cand(*([self.test(x) for x in res[:-1]] + [self.cond(res[-1])])))

    def compare(self, o, a, b):
        if isinstance(a, GammaV):
            return self.lift_gamma(a, lambda g: self.compare(o, g, b))
        if isinstance(b, GammaV):
            return self.lift_gamma(b, lambda g: self.compare(o, a, g))
        t = type(o)
        if t in (ast.Is, ast.IsNot):
            r = self.identical(a, b)
            return (r if t is ast.Is else self.simp(cnot(to_term(r))) if not isinstance(r, bool) else not r)
        if t in (ast.In, ast.NotIn):
            r = self.contains(a, b)
            if isinstance(r, bool):
                return r if t is ast.In else not r
            return self.simp(r if t is ast.In else cnot(r))
        for x, y in ((a, b), (b, a)):
            if hasattr(x, "m_compare"):
                return x.m_compare(self, t if x is a else {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(t, t), y)
        if is_term(a) and is_term(b):
            a, b = to_term(a), to_term(b)
            if isinstance(a, C) and isinstance(b, C) and t in (ast.Eq, ast.NotEq):
                x = cxor(a, b)
                return self.simp(cnot(x) if t is ast.Eq else x)
            a, b = to_P(a), to_P(b)
            f = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge, ast.Eq: eqc, ast.NotEq: ne}[t]
            return self.simp(f(a, b))
        if t in (ast.Eq, ast.NotEq):
            r = self.equal(a, b)
            if r is None:
                nds = [ops.nd_of(x) if isinstance(x, (P, C)) else 0 for x in (a, b)]
                c = batom(_mk_atom("eq", tuple(sorted((freeze(a), freeze(b)), key=lambda x: repr(x))), nd=None if None in nds else max(nds)))
                return self.simp(c if t is ast.Eq else cnot(c))
            if isinstance(r, C):
                return self.simp(r if t is ast.Eq else cnot(r))
            return r if t is ast.Eq else not r
        c = batom(_mk_atom("cmp:" + t.__name__, (freeze(a), freeze(b))))
        return c

    def identical(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if x is None:
                if isinstance(y, P):
                    at = as_atom(y)
                    if at is not None and at.op == "maybe":
                        return batom(_mk_atom("isnone", (y,)))
                    if at is not None and at.op in ("meth:get",):
                        return batom(_mk_atom("isnone", (y,)))
                return False
            if isinstance(x, bool):
                if isinstance(y, C):
                    return self.simp(y if x else cnot(y))
                return False
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a == b
        if isinstance(a, P) or isinstance(b, P):
            fa, fb = freeze(a), freeze(b)
            if fa is fb or fa == fb:
                return True
            return batom(_mk_atom("is", (fa, fb)))
        return False

    def equal(self, a, b):
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, StrV) and isinstance(b, StrV):
            return True if a == b else None
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
            ia, ib = self._li(a), self._li(b)
            if any(isinstance(x, Seg) for x in ia + ib):
                return None
            if len(ia) != len(ib):
                return False
            cs = []
            for x, y in zip(ia, ib):
                r = self.compare(ast.Eq(), x, y)
                cs.append(self.cond(r))
            return cand(*cs)
        if isinstance(a, (ClassV, FuncV)) or isinstance(b, (ClassV, FuncV)):
            return a is b
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a == b
        return None

    def contains(self, a, b):
        if isinstance(b, ModelV):
            return b.m_contains(self, a)
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, DictV):
            k = self.key(a)
            if k in b.d:
                v = b.d[k]
                if isinstance(v, GammaV) and v.a is UNDEF:
                    return cnot(v.c)
                if isinstance(v, GammaV) and v.b is UNDEF:
                    return v.c
                return True
            if b.open is None and isinstance(k, str) and all(isinstance(x, str) for x in b.d):
                return False
            if b.open is None and not b.d:
                return False
            return batom(_mk_atom("in", (freeze(a), freeze(b))))
        if isinstance(b, (ListV, tuple)):
            its = self._li(b)
            if any(isinstance(x, (Seg, GammaV)) for x in its):
                return batom(_mk_atom("in", (freeze(a), freeze(b))))
            cs = [self.cond(self.compare(ast.Eq(), a, x)) for x in its]
            return cor(*cs)
        return batom(_mk_atom("in", (freeze(a), freeze(b))))

    def test(self, v):
        """truth value that Python itself asks for"""
        if self.traced:
            self.traced.branch(self, v)
        return self.cond(v)

    def cond(self, v):
        """truth value as C"""
        if isinstance(v, C):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, P):
            return truth(v)
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, (tuple,)):
            return TRUE if v else FALSE
        if isinstance(v, ListV):
            if any(isinstance(x, Seg) for x in v.items):
                return batom(_mk_atom("nonempty", (freeze(v),)))
            return TRUE if v.items else FALSE
        if isinstance(v, DictV):
            if v.open is not None:
                return batom(_mk_atom("nonempty", (freeze(v),)))
            return TRUE if v.d else FALSE
        if isinstance(v, GammaV):
            a, b = self.cond(v.a), self.cond(v.b)
            return cor(cand(v.c, a), cand(cnot(v.c), b))
        if isinstance(v, StrV):
            return TRUE
        if v is UNDEF:
            return FALSE
        return TRUE

    def e_IfExp(self, e, sc):
        c = self.test(self.eval(e.test, sc))
        if c.kind != "const":
            k = self.implied(c)
            if k is not None:
                c = TRUE if k else FALSE
        if c is TRUE:
            return self.eval(e.body, sc)
        if c is FALSE:
            return self.eval(e.orelse, sc)
        self.event("branch", c)
        res = {}

        def run(tag, ex):
            def f():
                res[tag] = self.eval(ex, sc)
                return Flow()
            return f
        fl1, v1, d1 = self.run_guarded(c, run("a", e.body), sc)
        fl2, v2, d2 = self.run_guarded(cnot(c), run("b", e.orelse), sc)
        self.apply_diffs(c, d1, d2)
        if "a" not in res and "b" not in res:
            raise PyRaise("Exception", "both arms raise", e)
        return self.merge(c, res.get("a", UNDEF), res.get("b", UNDEF))

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc)

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_Starred(self, e, sc):
        raise Unsupported("starred")

    def e_Await(self, e, sc):
        raise Unsupported("await")

    # comprehensions
    def e_ListComp(self, e, sc):
        return ListV(self.comp(e.generators, lambda s: self.eval(e.elt, s), sc))

    def e_SetComp(self, e, sc):
        return ListV(self.comp(e.generators, lambda s: self.eval(e.elt, s), sc), "set")

    def e_GeneratorExp(self, e, sc):
        return ListV(self.comp(e.generators, lambda s: self.eval(e.elt, s), sc))

    def e_DictComp(self, e, sc):
        items = self.comp(e.generators, lambda s: (self.eval(e.key, s), self.eval(e.value, s)), sc)
        d = DictV()
        for it in items:
            if isinstance(it, Seg):
                d.open = op("dictmap", (d.open, it.n, freeze(it.arr)))
            elif isinstance(it, GammaV):
                raise Unsupported("conditional dict comprehension")
            else:
                d.d[self.key(it[0])] = it[1]
        return d

    def comp(self, gens, fn, sc):
        s = Scope(parent=sc, func=sc.func, globals_=sc.globals_)
        out = []

        def rec(k):
            if k == len(gens):
                return [fn(s)]
            g = gens[k]
            it = self.as_iter(self.eval(g.iter, s))
            res = []
            if isinstance(it, list):
                for x in it:
                    if isinstance(x, Seg):
                        i = fresh_idx()
                        self.assign(g.target, self.elem_of(x.arr, i), s)
                        if g.ifs:
                            raise Unsupported("filter over symbolic list")
                        sub_ = rec(k + 1)
                        for y in sub_:
                            res.append(Seg(x.n, self.map_val(x.n, i, y)))
                        continue
                    self.assign(g.target, x, s)
                    cs = [self.test(self.eval(t, s)) for t in g.ifs]
                    c = cand(*cs) if cs else TRUE
                    if c is FALSE:
                        continue
                    sub_ = rec(k + 1)
                    if c is TRUE:
                        res.extend(sub_)
                    else:
                        res.append(GammaV(c, ListV(sub_), ListV([])))
                return res
            i = fresh_idx()
            n = it.n
            self.binders.append((as_atom(i), n))
            try:
                self.assign(g.target, it.elem(i), s)
                cs = [self.test(self.eval(t, s)) for t in g.ifs]
                sub_ = rec(k + 1)
            finally:
                self.binders.pop()
            if cs:
                c = cand(*cs)
                if c is TRUE:
                    pass
                elif c is FALSE:
                    return []
                else:
                    return [Seg(op("filtlen", (n, mk_map(n, i, ind(c))), scalar=True, integer=True), as_atom(mk_map(n, i, ("filter", c, freeze(tuple(sub_))))))]
            if len(sub_) == 1:
                if isinstance(sub_[0], Seg):
                    return [Seg(mul(n, sub_[0].n), as_atom(mk_map(n, i, ("nest", freeze(sub_[0])))))]
                return [Seg(n, self.map_val(n, i, sub_[0]))]
            return [Seg(n, as_atom(mk_map(n, i, freeze(tuple(sub_)))))]
        return rec(0)

    # ------------------------------------------------------------ iteration
    def as_iter(self, v):
        """python list of values, or SymIter"""
        if isinstance(v, list):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            if len(v.items) == 1 and isinstance(v.items[0], Seg):
                s = v.items[0]
                return SymIter(s.n, lambda i: self.elem_of(s.arr, i))
            if any(isinstance(x, Seg) for x in v.items):
                return list(v.items)
            return list(v.items)
        if isinstance(v, DictV):
            if v.open is not None:
                raise Unsupported("iteration over open dict")
            return list(v.d.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeV):
            if v.concrete():
                return [num(k) for k in range(int(v.a.const()), int(v.b.const()), int(v.c.const()))]
            return SymIter(v.length(), lambda i: add(v.a, mul(i, v.c)))
        if isinstance(v, SymIter):
            return v
        if isinstance(v, (P, C)):
            v = to_P(v)
            a = as_atom(v)
            if a is not None and a.op == "arr":
                return list(a.args[0])
            if a is not None and a.op in ("meth:items",):
                base = a.args[0]
                n = op("len", (base,), scalar=True, integer=True)
                return SymIter(n, lambda i: (op("keyat", (base, i)), op("valat", (base, i))))
            if a is not None and a.op in ("meth:keys",):
                base = a.args[0]
                n = op("len", (base,), scalar=True, integer=True)
                return SymIter(n, lambda i: op("keyat", (base, i)))
            if a is not None and a.op in ("meth:values",):
                base = a.args[0]
                n = op("len", (base,), scalar=True, integer=True)
                return SymIter(n, lambda i: op("valat", (base, i)))
            if a is not None and a.op == "dim":
                raise PyRaise("TypeError", "int is not iterable")
            n = dim(v, 0)
            return SymIter(n, lambda i: index(v, (i,)))
        if isinstance(v, GammaV):
            if isinstance(v.a, (ListV, tuple)) and isinstance(v.b, (ListV, tuple)) and len(self._li(v.a)) == len(self._li(v.b)):
                return [self.merge(v.c, x, y) for x, y in zip(self._li(v.a), self._li(v.b))]
            raise Unsupported("iteration over gated value")
        if v is None:
            raise PyRaise("TypeError", "None is not iterable", self.node)
        if isinstance(v, ModelV):
            return v.m_iter(self)
        if isinstance(v, InstV):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.as_iter(self.call(BoundV(f, v), [], {}))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def iter_items(self, v):
        it = self.as_iter(v)
        if isinstance(it, list):
            return it
        raise Unsupported("symbolic unpacking")

    def unpack(self, v, k):
        if isinstance(v, GammaV):
            xs, ys = self.unpack(v.a, k) if v.a is not UNDEF else [UNDEF] * k, self.unpack(v.b, k) if v.b is not UNDEF else [UNDEF] * k
            return [self.merge(v.c, x, y) for x, y in zip(xs, ys)]
        if isinstance(v, P):
            a = as_atom(v)
            if a is not None and a.op == "where":
                pass
            if a is not None and a.op == "shape":
                return [dim(a.args[0], j) for j in range(k)]
            return [self.ext.term_getitem(self, v, num(j)) for j in range(k)]
        items = self.as_iter(v)
        if isinstance(items, SymIter):
            return [items.elem(num(j)) for j in range(k)]
        if len(items) != k:
            if any(isinstance(x, Seg) for x in items):
                return [self.unk("unpack") for _ in range(k)]
            raise PyRaise("ValueError", f"cannot unpack {len(items)} values into {k}", self.node)
        return items

    # calls
    def e_Call(self, e, sc):
        f = self.eval_callee(e.func, sc)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, sc)
                try:
                    args.extend(self.iter_items(v))
                except Unsupported:
                    args.append(("star", freeze(v)))
            else:
                args.append(self.eval(a, sc))
        for k in e.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                if isinstance(v, DictV):
                    for kk, vv in v.d.items():
                        if isinstance(kk, str):
                            if kk in kwargs:
                                raise PyRaise("TypeError", f"multiple values for keyword {kk}", e)
                            if isinstance(vv, GammaV) and (vv.a is UNDEF or vv.b is UNDEF):
                                raise Unsupported("conditionally present keyword")
                            kwargs[kk] = vv
                        else:
                            kwargs["**"] = op("kwsym", (freeze(v),))
                    if v.open is not None:
                        kwargs["**"] = v.open
                elif isinstance(v, P):
                    kwargs["**"] = v
                elif isinstance(v, GammaV):
                    return self.lift_gamma(v, lambda g: self._call_kw(f, args, kwargs, g, e))
                else:
                    raise Unsupported("** argument")
            else:
                if k.arg in kwargs:
                    raise PyRaise("TypeError", f"multiple values for keyword {k.arg}", e)
                kwargs[k.arg] = v
        self.node = e
        if isinstance(f, ExtV) and f.name == "super":
            return self.do_super(args, sc)
        if isinstance(f, ExtV) and f.name in ("locals", "globals", "vars", "eval", "exec"):
            raise Unsupported(f.name + "()")
        return self.call(f, args, kwargs)

    def _call_kw(self, f, args, kwargs, g, e):
        kw = dict(kwargs)
        if isinstance(g, DictV):
            kw.update(g.d)
            return self.call(f, args, kw)
        raise Unsupported("gated ** argument")

    def eval_callee(self, fn, sc):
        return self.eval(fn, sc)

    def do_super(self, args, sc):
        if args:
            return SuperV(args[0], args[1])
        s = sc
        while s is not None:
            if s.func is not None and s.func.cls is not None:
                names = self.sig(s.func)
                if names and names[0] in s.vars:
                    return SuperV(s.func.cls, s.vars[names[0]])
            s = s.parent
        raise Unsupported("super()")


def _own_nodes(fn):
    """nodes of a function body excluding nested functions"""
    st = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    raise Unsupported("augmented target")
