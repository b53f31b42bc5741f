"""Values that JAX traces: which operations of the interpreted program need the number behind one."""
from .interp import C, ListV, P
from .terms import T

SHAPE = {"dim", "shape", "ndim", "size", "len", "isinstance", "hasattr", "callable"}
# numpy functions that turn their arguments into numpy arrays (those that only call a method of the argument are left out)
UFUNCS = {"log", "log10", "log2", "log1p", "exp", "expm1", "sqrt", "power", "add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum",
          "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "abs", "absolute", "sin", "cos", "tan", "arctan", "arctan2", "arcsin", "arccos",
          "tanh", "sinh", "cosh", "square", "sign", "isnan", "isinf", "isfinite", "logical_and", "logical_or", "logical_not", "floor", "ceil", "logaddexp", "hypot"}
ARRAYS = {"array", "asarray", "where", "select", "piecewise", "nan_to_num", "einsum", "dot", "interp", "concatenate", "stack", "hstack", "vstack", "full_like",
          "zeros_like", "ones_like", "isclose", "allclose", "trapz", "trapezoid", "outer", "matmul", "atleast_1d", "linspace", "digitize", "float64", "float32"}
NUMPY = {"np." + n for n in UFUNCS | ARRAYS}


class Traced:
    """syms: does a symbol stand for a traced value?  hits: operations that cannot be traced; seen: calls given a traced value"""

    def __init__(self, syms):
        self.syms = syms
        self.memo = {}
        self.hits, self.seen = {}, set()

    def dep(self, x):
        if isinstance(x, (P, C, T)):
            if x not in self.memo:
                self.memo[x] = False
                self.memo[x] = self.dep_term(x)
            return self.memo[x]
        if isinstance(x, (tuple, list)):
            return any(self.dep(y) for y in x)
        if isinstance(x, ListV):
            return any(self.dep(y) for y in x.items)
        return False

    def dep_term(self, x):
        if isinstance(x, P):
            return any(self.dep(a) or self.dep(e) for m in x.terms for a, e in m)
        if isinstance(x, C):
            if x.kind == "const":
                return False
            return any(self.dep(y) for y in (x.data if isinstance(x.data, tuple) else (x.data,)))
        if x.op in SHAPE:
            return False
        if x.op == "sym":
            return bool(self.syms(x.args[0]))
        if x.op == "sample":
            return True
        return any(self.dep(y) for y in x.args)

    def site(self, it):
        return it.where_am_i()

    def hit(self, it, what):
        f, l, fn = self.site(it)
        if f and "/specs/" not in str(f):
            self.hits.setdefault((f, l, fn, what))

    def call(self, it, f, args, kwargs):
        if it.py is not None or not self.dep(list(args) + list(kwargs.values())):
            return
        f_, l, fn = self.site(it)
        if not f_ or "/specs/" in str(f_):
            return
        self.seen.add((f_, l, fn, f.name))
        if f.lib == "numpy" and f.name in NUMPY:
            self.hit(it, "numpy." + f.name[3:])
        elif f.lib == "math":
            self.hit(it, "math." + f.name.split(".")[-1])
        elif f.lib == "scipy":
            self.hit(it, "scipy's " + f.name)
        elif f.lib is None and f.name in ("float", "int", "bool", "complex") and self.dep(args[:1]):
            self.hit(it, f.name + "()")
        elif f.lib is None and f.name in ("max", "min") and len(args) > 1:
            self.hit(it, "the built-in " + f.name)

    def branch(self, it, v):
        if it.py is None and isinstance(v, (P, C)) and self.dep(v):
            self.hit(it, "a Python decision")
