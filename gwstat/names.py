"""Name, signature and attribute resolution over a set of Python files (syntax only; nothing is imported or run).

Every answer is three-valued: an entity is resolved only when one binding can reach the use; everything else is left alone.
"""
import ast
import builtins
import os
import symtable
import warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)

TRANSPARENT = {"jit", "njit", "partial", "staticmethod", "classmethod", "property", "abstractmethod", "lru_cache", "cached_property", "wraps", "cache", "contextmanager"}
OBJ = set(dir(object)) | {"__dict__", "__name__", "__module__", "__qualname__", "__bases__", "__mro__", "__annotations__", "__weakref__"}
IMPLICIT = {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__"}


class Ent:
    def __init__(self, kind, mod=None, node=None, name=None, cls=None):
        self.kind, self.mod, self.node, self.name, self.cls = kind, mod, node, name, cls

    def same(self, o):
        return o is not None and (self.kind, self.mod, self.node, self.name) == (o.kind, o.mod, o.node, o.name)


UNKNOWN, EXT, MISSING = Ent("unknown"), Ent("ext"), Ent("missing")


class Mod:
    def __init__(self, name, path, rel, src, pkg):
        self.name, self.path, self.rel, self.pkg = name, path, rel, pkg
        self.tree = ast.parse(src)
        self.src = src
        self.ns, self.stars, self.dynamic = {}, [], False
        self.gather(self.tree.body)

    def add(self, name, b):
        self.ns.setdefault(name, []).append(b)

    def gather(self, body):
        gather(body, self.add, self.stars)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.add(x, ("var", None))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec"):
                self.dynamic = True
        if "__getattr__" in self.ns:
            self.dynamic = True

    def package(self):
        return self.name if self.pkg else self.name.rpartition(".")[0]

    def absolute(self, module, level):
        if not level:
            return module
        base = self.package().split(".")
        if level > 1:
            base = base[: -(level - 1)]
        return ".".join(base + ([module] if module else []))


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def gather(body, add, stars):
    """bindings made by the statements of one scope (nested scopes excluded)"""
    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            add(st.name, ("func", st))
        elif isinstance(st, ast.ClassDef):
            add(st.name, ("class", st))
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    add(a.asname, ("module", a.name))
                else:
                    add(a.name.split(".")[0], ("module", a.name.split(".")[0]))
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if a.name == "*":
                    stars.append((st.module, st.level))
                else:
                    add(a.asname or a.name, ("from", st.module, st.level, a.name))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    add(t.id, ("var", st.value))
                else:
                    for n in targets(t):
                        add(n, ("var", None))
        elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
            for n in targets(st.target):
                add(n, ("var", st.value if isinstance(st, ast.AnnAssign) else None))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            for n in targets(st.target):
                add(n, ("var", None))
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for w in st.items:
                if w.optional_vars is not None:
                    for n in targets(w.optional_vars):
                        add(n, ("var", None))
        for f in ("body", "orelse", "finalbody"):
            if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                gather(getattr(st, f, None) or [], add, stars)
        for h in getattr(st, "handlers", None) or []:
            if h.name:
                add(h.name, ("var", None))
            gather(h.body, add, stars)
        if isinstance(st, ast.Match):
            for cs in st.cases:
                for n in ast.walk(cs.pattern):
                    for x in (getattr(n, "name", None), getattr(n, "rest", None)):
                        if isinstance(x, str):
                            add(x, ("var", None))
                gather(cs.body, add, stars)
        # walrus targets
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                for n in ast.walk(e):
                    if isinstance(n, ast.NamedExpr):
                        add(n.target.id, ("var", None))


class World:
    def __init__(self, root, package, dirs):
        """package: importable package directory; dirs: directories of scripts (each script sees its own directory)"""
        self.root, self.mods, self.pkgname = root, {}, package
        self.scripts = {}
        for base, _, fs in sorted(os.walk(os.path.join(root, package))):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, root)
                    parts = rel[:-3].split(os.sep)
                    pkg = parts[-1] == "__init__"
                    if pkg:
                        parts = parts[:-1]
                    self.mods[".".join(parts)] = Mod(".".join(parts), p, rel, open(p).read(), pkg)
        for d in dirs:
            for base, _, fs in sorted(os.walk(os.path.join(root, d))):
                for f in sorted(fs):
                    if f.endswith(".py"):
                        p = os.path.join(base, f)
                        rel = os.path.relpath(p, root)
                        m = Mod("@" + rel[:-3].replace(os.sep, "."), p, rel, open(p).read(), False)
                        self.mods[m.name] = m
                        self.scripts.setdefault(os.path.dirname(p), {})[f[:-3]] = m

    def module(self, mod, dotted):
        """module of the given name as seen from mod: Mod, EXT, or MISSING (a module the package should have and has not)"""
        if dotted in self.mods:
            return self.mods[dotted]
        top = dotted.split(".")[0]
        if top == self.pkgname:
            return MISSING
        if mod is not None and mod.name.startswith("@"):
            sib = self.scripts.get(os.path.dirname(mod.path), {})
            if dotted in sib:
                return sib[dotted]
        return EXT

    def member(self, mod, m, name, seen=()):
        """entity called name in module m"""
        if (m.name, name) in seen:
            return UNKNOWN
        seen = seen + ((m.name, name),)
        bs = m.ns.get(name)
        if not bs:
            if m.pkg and m.name + "." + name in self.mods:
                return Ent("module", self.mods[m.name + "." + name])
            for sm, lv in m.stars:
                t = self.module(m, m.absolute(sm, lv))
                if not isinstance(t, Mod):
                    return UNKNOWN
                r = self.member(m, t, name, seen)
                if r is not MISSING:
                    return r
            if m.dynamic or name in IMPLICIT:
                return UNKNOWN
            return MISSING
        if len(bs) > 1:
            es = [self.binding(m, b, seen) for b in bs]
            return es[0] if all(e.same(es[0]) for e in es) else UNKNOWN
        return self.binding(m, bs[0], seen)

    def binding(self, m, b, seen=(), scope=None):
        if b[0] == "func":
            return Ent("func", m, b[1], b[1].name) if all(transparent(d) for d in b[1].decorator_list) else UNKNOWN
        if b[0] == "class":
            return Ent("class", m, b[1], b[1].name) if not b[1].decorator_list else UNKNOWN
        if b[0] == "module":
            t = self.module(m, b[1])
            return Ent("module", t) if isinstance(t, Mod) else t
        if b[0] == "from":
            t = self.module(m, m.absolute(b[1], b[2]))
            if not isinstance(t, Mod):
                return t if t is EXT else UNKNOWN
            sub = self.module(m, t.name + "." + b[3])
            r = self.member(m, t, b[3], seen)
            if r is MISSING and isinstance(sub, Mod):
                return Ent("module", sub)
            return r
        if b[0] == "var" and isinstance(b[1], (ast.Name, ast.Attribute)) and scope is None:
            return self.expr(m, b[1], None, seen)
        return UNKNOWN

    # -- expressions in a scope chain: list of Scope, innermost last
    def expr(self, m, e, scopes=None, seen=()):
        if isinstance(e, ast.Name):
            for s in reversed(scopes or []):
                bs = s.ns.get(e.id)
                if bs is not None:
                    if len(bs) == 1 and bs[0][0] != "param":
                        r = self.binding(m, bs[0], seen, scope=s)
                        return r
                    return UNKNOWN
            if e.id in m.ns or m.stars:
                return self.member(m, m, e.id, seen)
            return UNKNOWN
        if isinstance(e, ast.Attribute):
            b = self.expr(m, e.value, scopes, seen)
            if b.kind == "module":
                return self.member(m, b.mod, e.attr, seen)
            if b.kind == "class":
                f = self.lookup(b, e.attr)
                if f is not None and f.kind == "func":
                    return Ent("func", f.mod, f.node, f.name, cls=f.cls) if not is_static(f.node) else UNKNOWN
                return UNKNOWN
            return EXT if b is EXT else UNKNOWN
        return UNKNOWN

    def mro(self, c, depth=0):
        """classes of the package in lookup order; ends with None when an external class is reached (single inheritance order is enough: with
        several package bases the depth-first order is only used to find a name, and only when it is unambiguous)"""
        out = [c]
        if depth > 20:
            return out + [None]
        for b in c.node.bases:
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            e = self.expr(c.mod, b, getattr(c, "scopes", None))
            if e.kind != "class":
                if isinstance(b, (ast.Name, ast.Attribute)) and (getattr(b, "id", None) or b.attr) in ("ABC", "Generic", "Protocol"):
                    continue
                out.append(None)
                continue
            out.extend(x for x in self.mro(e, depth + 1))
        if any(k.arg == "metaclass" and not (isinstance(k.value, (ast.Name, ast.Attribute)) and (getattr(k.value, "id", None) or k.value.attr) == "ABCMeta") for k in c.node.keywords):
            out.append(None)
        return out

    def lookup(self, c, name, after=None):
        """method or class attribute: Ent func with .cls, Ent('attr'), UNKNOWN when an external base may define it, None when nothing does"""
        chain = self.mro(c)
        if after is not None:
            k = next((i for i, x in enumerate(chain) if x is not None and x.node is after.node), None)
            if k is None:
                return UNKNOWN
            chain = chain[k + 1:]
        bases = sum(len(x.node.bases) > 1 for x in self.mro(c) if x is not None)
        hits = []
        for x in chain:
            if x is None:
                if not hits or bases:
                    return UNKNOWN
                break
            bs = class_ns(x.node).get(name)
            if bs:
                if len(bs) > 1:
                    # property with setter, overloads: attribute of some kind
                    hits.append(Ent("attr"))
                elif bs[0][0] == "func":
                    ok = all(transparent(d) for d in bs[0][1].decorator_list)
                    hits.append(Ent("func" if ok else "attr", x.mod, bs[0][1], name, cls=x))
                else:
                    hits.append(Ent("attr"))
                if not bases:
                    break
        if not hits:
            return None
        if bases and len({id(h.node) for h in hits}) > 1:
            return Ent("attr")
        return hits[0]


def class_ns(node):
    ns = {}
    gather(node.body, lambda n, b: ns.setdefault(n, []).append(b), [])
    return ns


def transparent(d):
    if isinstance(d, ast.Call):
        d = d.func
    n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
    return n in TRANSPARENT


def deco(node, name):
    return any((d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None) == name for d in node.decorator_list)


def is_static(node):
    return deco(node, "staticmethod")


def is_property(node):
    return any(deco(node, x) for x in ("property", "cached_property"))


class Scope:
    def __init__(self, node):
        self.node = node
        self.ns = {}
        add = lambda n, b: self.ns.setdefault(n, []).append(b)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                add(x.arg, ("param",))
            if not isinstance(node, ast.Lambda):
                self.stars = []
                gather(node.body, add, self.stars)
                for n in ast.walk(node):
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        for x in n.names:
                            self.ns.pop(x, None)
        else:
            for g in node.generators:
                for n in targets(g.target):
                    add(n, ("var", None))


def bind(fn, call, bound):
    """None when the call fits the signature, else why not.  bound: the first parameter is supplied by the attribute access"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        if not pos and not a.vararg:
            return "takes no arguments but is called on an object"
        pos = pos[1:]
    posonly = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [k.arg for k in call.keywords if k.arg is not None]
    n = sum(not isinstance(x, ast.Starred) for x in call.args)
    if n > len(pos) and not a.vararg:
        return f"takes {len(pos)} positional arguments but {n} are given"
    for k in given:
        if k in posonly or (k not in pos and k not in kwonly and not a.kwarg):
            return f"has no parameter {k!r}"
        if k in pos and k in pos[:n] and not (star and False):
            return f"gets parameter {k!r} twice"
    if len(set(given)) != len(given):
        return "repeats a keyword"
    if not star and not dstar:
        nd = len(a.defaults)
        allpos = [x.arg for x in a.posonlyargs + a.args]
        req = allpos[: len(allpos) - nd] if nd else list(allpos)
        if bound:
            req = req[1:] if req else req
        miss = [x for x in req if x not in pos[:n] and x not in given]
        miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        if miss:
            return "is not given " + ", ".join(repr(x) for x in miss)
    return None


def undefined(m, w):
    """[(name, line)] of names that no scope binds"""
    if any(not isinstance(w.module(m, m.absolute(s, lv)), Mod) for s, lv in m.stars) or m.dynamic:
        return [], 0
    names = set(m.ns) | set(dir(builtins)) | IMPLICIT
    for s, lv in m.stars:
        names |= set(w.module(m, m.absolute(s, lv)).ns)
    bad, n = [], 0
    first = {}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            first.setdefault(x.id, x.lineno)

    def rec(t):
        nonlocal n
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            free_global = s.is_global() if t.get_type() != "module" else not (s.is_assigned() or s.is_imported() or s.is_namespace())
            if free_global:
                n += 1
                if s.get_name() not in names and s.get_name() not in ("__class__",):
                    bad.append((s.get_name(), t.get_name(), first.get(s.get_name(), t.get_lineno())))
        for ch in t.get_children():
            rec(ch)
    rec(symtable.symtable(m.src, m.path, "exec"))
    return bad, n


class Unbound:
    """names of a function (or module) body read where no assignment can have been made on any path to the read; attributes of self likewise in a constructor.

    The analysis computes the names that MAY be bound: a read outside that set fails on every path that reaches it.
    """
    def __init__(self, names, self_name=None, attrs=()):
        self.names, self.self_name, self.attrs = set(names), self_name, set(attrs)
        self.bad, self.reads = [], 0

    def key(self, n):
        if isinstance(n, ast.Name):
            return n.id if n.id in self.names else None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self.self_name and n.attr in self.attrs:
            return "." + n.attr

    def expr(self, e, st):
        """st (a set) is extended by walrus targets; nested functions are evaluated later"""
        if e is None or st is None:
            return
        if isinstance(e, (ast.Lambda,)):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, st)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = set(st)
            for i, g in enumerate(e.generators):
                self.expr(g.iter, st if i == 0 else inner)
                if i == 0:
                    inner = set(st)
                inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for x in g.ifs:
                    self.expr(x, inner)
            st |= {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
            if isinstance(e, ast.GeneratorExp):
                return
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, inner)
            return
        if isinstance(e, (ast.IfExp, ast.BoolOp)):       # only the part that is always evaluated
            self.expr(e.test if isinstance(e, ast.IfExp) else e.values[0], st)
            st |= {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            st.add(e.target.id)
            return
        if isinstance(e, ast.Call):
            for ch in ast.iter_child_nodes(e):
                self.expr(ch, st)
            if self.self_name and escapes(e, self.self_name):
                st |= {"." + a for a in self.attrs}
            return
        k = self.key(e)
        if k is not None and isinstance(getattr(e, "ctx", None), ast.Load):
            self.reads += 1
            if k not in st:
                self.bad.append((k, e))
                st.add(k)       # once
        for ch in ast.iter_child_nodes(e):
            self.expr(ch, st)

    def bind(self, t, st):
        for x in ast.walk(t):
            if isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)):
                k = self.key(x)
                if k is not None:
                    st.add(k)
        for x in ast.walk(t):
            if isinstance(x, ast.Subscript) or isinstance(x, ast.Attribute) and self.key(x) is None:
                self.expr(x.value, st)
                if isinstance(x, ast.Subscript):
                    self.expr(x.slice, st)

    def everything(self, body, st):
        for s in body:
            for x in ast.walk(s):
                if isinstance(getattr(x, "ctx", None), ast.Store):
                    k = self.key(x)
                    if k is not None:
                        st.add(k)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    st.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    st |= {(a.asname or a.name.split(".")[0]) for a in x.names}
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    st.add(x.name)
                elif type(x).__name__ in ("MatchAs", "MatchStar") and x.name:
                    st.add(x.name)
                elif type(x).__name__ == "MatchMapping" and x.rest:
                    st.add(x.rest)
                elif self.self_name and isinstance(x, ast.Call) and escapes(x, self.self_name):
                    st |= {"." + a for a in self.attrs}

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def join(self, a, b):
        return b if a is None else a if b is None else a | b

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(d, st)
            return st | {s.name}
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(d, st)
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name.split(".")[0]) for a in s.names}
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.bind(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            if s.value is not None:
                self.bind(s.target, st)
            return st
        if isinstance(s, ast.AugAssign):
            k = self.key(s.target)
            self.expr(s.value, st)
            if k is not None:
                self.reads += 1
                if k not in st:
                    self.bad.append((k, s))
            self.bind(s.target, st)
            return st
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if not isinstance(s, ast.While):
                self.expr(s.iter, st)
            st = set(st)
            self.everything(s.body, st)
            if isinstance(s, ast.While):
                self.expr(s.test, st)
            else:
                self.bind(s.target, st)
            self.block(s.body, set(st))
            r = self.block(s.orelse, set(st))
            return self.join(st, r)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            before = set(st)
            r = self.block(s.body, st)
            self.everything(s.body, before)      # a context manager may swallow
            return self.join(r, before)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            base = set(st)
            bad = list(self.bad)
            self.block(s.body, set(st))
            if s.handlers:
                self.bad = bad
            self.everything(s.body, base)
            out = self.block(s.orelse, set(base))
            for h in s.handlers:
                out = self.join(out, self.block(h.body, base | ({h.name} if h.name else set())))
            allb = set(base)
            self.everything(s.orelse + [x for h in s.handlers for x in h.body], allb)
            allb |= {h.name for h in s.handlers if h.name}
            f = self.block(s.finalbody, allb)
            return None if out is None else (out | (f or set()) if s.finalbody else out)
        if isinstance(s, ast.Match) if hasattr(ast, "Match") else False:
            self.everything([s], st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for ch in ast.iter_child_nodes(s):
                self.expr(ch, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Delete):
            return st
        for ch in ast.iter_child_nodes(s):
            self.expr(ch, st)
        return st


def escapes(call, self_name):
    """may the call set attributes of self: a method of self or of super(), or self passed along"""
    f = call.func
    if isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Name) and f.value.id == self_name:
            return True
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return True
    return any(isinstance(a, ast.Name) and a.id == self_name for a in list(call.args) + [k.value for k in call.keywords] + [x.value for x in call.args if isinstance(x, ast.Starred)])


def locals_of(fn):
    """names bound in the function itself (not in nested scopes), parameters apart"""
    a = fn.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    out, drop = set(), set()

    def rec(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(ch.name)
                drop.update(y for x in ast.walk(ch) if isinstance(x, ast.Nonlocal) for y in x.names)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                out.update(x.target.id for x in ast.walk(ch) if isinstance(x, ast.NamedExpr))
                continue
            if isinstance(ch, (ast.Global, ast.Nonlocal)):
                drop.update(ch.names)
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                out.add(ch.id)
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                out.update(x.asname or x.name.split(".")[0] for x in ch.names)
            if isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            rec(ch)
    rec(ast.Module(body=fn.body, type_ignores=[]))
    return params, out - drop - params


def unbound(fn):
    params, loc = locals_of(fn)
    u = Unbound(loc)
    u.block(fn.body, set())
    return u


def unset(w, c):
    """attributes the constructor of class c reads before anything can have set them (None: not judged)"""
    init = next((x for x in c.node.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
    chain = w.mro(c)
    if init is None or not init.args.args or None in chain or init.decorator_list:
        return None
    me = init.args.args[0].arg
    held = {id(n.value) for n in ast.walk(init) if isinstance(n, ast.Attribute)} | {id(a) for n in ast.walk(init) if isinstance(n, ast.Call) for a in list(n.args) + [k.value for k in n.keywords]}
    for n in ast.walk(init):
        if isinstance(n, ast.Name) and n.id == me and id(n) not in held or isinstance(n, ast.Attribute) and n.attr == "__dict__":
            return None
    cls = {k for x in chain for k in class_ns(x.node)}
    if {"__getattr__", "__getattribute__", "__new__", "__slots__"} & cls or c.node.decorator_list:
        return None
    attrs = {n.attr for n in ast.walk(init) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Store)} - cls
    u = Unbound(set(), me, attrs)
    u.block(init.body, set())
    return u
