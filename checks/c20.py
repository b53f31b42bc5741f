import ast
import os

import yaml

from .common import *
from gwstat import names as nm
from gwstat.names import Ent, Mod, Scope, UNKNOWN, EXT, MISSING

TITLE = ("Names, signatures and attributes are resolved over the syntax trees of the package, the installed program and the examples: every import of the package, every free name, every call whose callee has one reachable definition, every "
         "unpacking of such a call, every attribute a method reads from its own object, every option read from the command line, and every class and parameter named in the shipped configurations.")
ASSUMPTIONS = ("a use is judged only when one definition can reach it; calls through parameters, containers and external libraries are left alone",)


def check(c):
    w = nm.World(REPO, "gwinferno", ["bin", "examples"])
    V(c, w).run()
    configurations(c, w)


def configurations(c, w):
    base = os.path.join(REPO, "examples", "config_files")
    for f in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        if not f.endswith((".yml", ".yaml")):
            continue
        rel = f"examples/config_files/{f}"
        conf = yaml.safe_load(open(os.path.join(base, f)))

        def cls(path, kw, what, extra=()):
            m, _, n = path.rpartition(".")
            if not m.startswith("gwinferno"):
                return
            mod = w.module(None, m)
            e = w.member(None, mod, n) if isinstance(mod, Mod) else MISSING
            c.holds(f"{rel}: {what}: {path} exists", e is not MISSING, f"no {n} in {m}", rel, key=f"{rel}:{path}")
            if e.kind == "class":
                i = w.lookup(e, "__init__")
                if i is not None and i.kind == "func":
                    call = ast.Call(func=ast.Name(id=n), args=[], keywords=[ast.keyword(arg=k, value=ast.Constant(value=0)) for k in list(kw) + list(extra)])
                    why = nm.bind(i.node, call, True)
                    c.holds(f"{rel}: {what}: {path} takes the configured parameters", why is None, f"{path} {why}", f"{i.mod.rel}:{i.node.lineno}", key=f"{rel}:{path}:params")
        for p, m in (conf.get("models") or {}).items():
            if p == "python_file":
                q = os.path.join(REPO, m)
                mod = next((x for x in w.mods.values() if os.path.normpath(x.path) == os.path.normpath(q)), None)
                c.holds(f"{rel}: the Python file exists and defines a model", mod is not None and "model" in mod.ns, f"{m} has no model", rel)
            elif isinstance(m, dict) and "model" in m:
                cls(m["model"], m.get("hyper_params") or {}, p, ("zgrid", "dVcdz") if p == "redshift" else ())
                for h, d in (m.get("hyper_params") or {}).items():
                    if isinstance(d, dict) and "prior" in d:
                        cls(d["prior"], d.get("prior_params") or {}, f"{p} {h}")


def name_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = name_of(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


class V:
    def __init__(self, c, w):
        self.c, self.w = c, w
        self.classes = []       # Ent of every class
        self.stored = set()     # attributes set on objects other than self, anywhere
        self.options, self.dynamic_options = set(), False
        self.rettype_memo = {}

    def run(self):
        for m in self.w.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes.append(Ent("class", m, n, n.name))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                        self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_argument", "set_defaults"):
                    if n.func.attr == "set_defaults":
                        self.options |= {k.arg for k in n.keywords if k.arg}
                        self.dynamic_options |= any(k.arg is None for k in n.keywords)
                        continue
                    dest = next((k.value for k in n.keywords if k.arg == "dest"), None)
                    if isinstance(dest, ast.Constant):
                        self.options.add(dest.value)
                    elif dest is None and n.args and all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args):
                        long = [a.value for a in n.args if a.value.startswith("--")] or [a.value for a in n.args]
                        self.options.add(long[0].lstrip("-").replace("-", "_"))
                    else:
                        self.dynamic_options = True
                elif isinstance(n, ast.Call) and name_of(n.func) in ("setattr", "Namespace", "argparse.Namespace"):
                    self.dynamic_options = True
        for m in self.w.mods.values():
            bad, n = nm.undefined(m, self.w)
            for name, sc, line in bad:
                self.c.holds(f"{m.rel}: {name} in {sc} is defined", False, f"name {name!r} is not defined in any scope", f"{m.rel}:{line} {sc}", key=f"{m.rel}:{name}")
            self.c.holds(f"{m.rel}: the other {n} free names are defined", True, "every free name is a builtin or bound at module level", m.rel)
            self.order(m)
            self.m = m
            self.guard = 0
            self.block(m.tree.body, [], None, "<module>")
        self.subclassed = {id(b.node) for x in self.classes for b in self.w.mro(x)[1:] if b is not None}
        for x in self.classes:
            if id(x.node) not in self.subclassed or self.instantiated(x):
                self.object(x)

    def order(self, m):
        """no name is read where nothing on any path has bound it"""
        n = 0
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                u = nm.unbound(f)
                n += u.reads
                for k, e in u.bad:
                    self.c.holds(f"{m.rel}: {f.name}: {k} is bound before it is read", False, f"local name {k!r} is read where no path has bound it", f"{m.rel}:{e.lineno} {f.name}", key=f"{m.rel}:{f.name}:{k}:unbound")
            elif isinstance(f, ast.ClassDef):
                u = nm.unset(self.w, Ent("class", m, f, f.name))
                if u is None:
                    continue
                n += u.reads
                for k, e in u.bad:
                    self.c.holds(f"{m.rel}: {f.name}: self{k} is set before it is read", False, f"attribute {k[1:]!r} is read in the constructor before anything can have set it", f"{m.rel}:{e.lineno} {f.name}.__init__", key=f"{m.rel}:{f.name}:{k}:unset")
        self.c.holds(f"{m.rel}: the other {n} reads of local names and constructor attributes follow an assignment", True, "some path binds each name before it is read", m.rel)

    def instantiated(self, x):
        return any(isinstance(n, ast.Call) and name_of(n.func) and name_of(n.func).split(".")[-1] == x.name for m in self.w.mods.values() for n in ast.walk(m.tree))

    # ---- statements
    def block(self, body, scopes, cls, fn):
        for st in body:
            self.stmt(st, scopes, cls, fn)

    def stmt(self, st, scopes, cls, fn):
        if isinstance(st, ast.Try):
            g = any(h.type is None or any(t in (name_of(h.type) or ast.dump(h.type)) for t in ("ImportError", "ModuleNotFoundError", "Exception", "AttributeError", "NameError", "TypeError")) for h in st.handlers)
            self.guard += g
            self.block(st.body, scopes, cls, fn)
            self.guard -= g
            for h in st.handlers:
                self.block(h.body, scopes, cls, fn)
            self.block(st.orelse + st.finalbody, scopes, cls, fn)
            return
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for e in st.decorator_list + st.args.defaults + [d for d in st.args.kw_defaults if d is not None]:
                self.expr(e, scopes, cls, fn)
            q = f"{self.m.name}.{st.name}" if fn == "<module>" else f"{self.m.name}.{fn}.{st.name}"
            self.c.visited[q.lstrip("@")] = f"{self.m.rel}:{st.lineno}"
            self.block(st.body, scopes + [Scope(st)], cls, f"{fn}.{st.name}" if fn != "<module>" else st.name)
            return
        if isinstance(st, ast.ClassDef):
            for e in st.bases + [k.value for k in st.keywords] + st.decorator_list:
                self.expr(e, scopes, cls, fn)
            self.block(st.body, scopes, Ent("class", self.m, st, st.name), f"{fn}.{st.name}" if fn != "<module>" else st.name)
            return
        if isinstance(st, ast.Import):
            for a in st.names:
                t = self.w.module(self.m, a.name)
                if isinstance(t, Mod) or t is MISSING:
                    self.ob(f"import {a.name}", t is not MISSING, f"no module {a.name}", st, fn, key=a.name)
            return
        if isinstance(st, ast.ImportFrom):
            d = self.m.absolute(st.module, st.level)
            t = self.w.module(self.m, d)
            if t is EXT:
                return
            self.ob(f"module {d} exists", t is not MISSING, f"no module {d}", st, fn, key=d)
            if isinstance(t, Mod):
                for a in st.names:
                    if a.name != "*":
                        r = self.w.member(self.m, t, a.name)
                        if r is MISSING and isinstance(self.w.module(self.m, t.name + "." + a.name), Mod):
                            r = UNKNOWN
                        self.ob(f"{a.name} imported from {d} exists", r is not MISSING, f"no {a.name} in {d}", st, fn, key=a.name)
            return
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and isinstance(st.value, ast.Call):
            self.unpack(st, scopes, cls, fn)
        for f in ast.iter_child_nodes(st):
            if isinstance(f, ast.expr):
                self.expr(f, scopes, cls, fn)
            elif isinstance(f, ast.withitem):
                self.expr(f.context_expr, scopes, cls, fn)
            elif isinstance(f, ast.match_case):
                self.block(f.body, scopes, cls, fn)
        for k in ("body", "orelse"):
            b = getattr(st, k, None)
            if isinstance(b, list):
                self.block([x for x in b if isinstance(x, ast.stmt)], scopes, cls, fn)

    def ob(self, what, ok, why, node, fn, key=None):
        if not ok and self.guard:
            ok, why = True, "guarded by an exception handler"
        self.c.holds(f"{self.m.rel}:{fn}: {what}", ok, why if not ok else "", f"{self.m.rel}:{node.lineno} {fn}", key=f"{self.m.rel}:{key}" if key else None)

    def unpack(self, st, scopes, cls, fn):
        t = st.targets[0]
        if any(isinstance(x, ast.Starred) for x in t.elts):
            return
        e = self.callee(st.value, scopes)
        if e is None or e[0].kind != "func":
            return
        ns = lengths(e[0].node)
        if ns:
            self.ob(f"{name_of(st.value.func)} returns {len(t.elts)} values", len(t.elts) in ns, f"{e[0].name} returns {sorted(ns)} values, {len(t.elts)} expected", st, fn, key=f"{name_of(st.value.func)}:unpack")

    # ---- expressions
    def expr(self, e, scopes, cls, fn):
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.expr(d, scopes, cls, fn)
            return self.expr(e.body, scopes + [Scope(e)], cls, fn)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.expr(e.generators[0].iter, scopes, cls, fn)
            inner = scopes + [Scope(e)]
            for k, g in enumerate(e.generators):
                if k:
                    self.expr(g.iter, inner, cls, fn)
                for i in g.ifs:
                    self.expr(i, inner, cls, fn)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, inner, cls, fn)
            return
        if isinstance(e, ast.Call):
            self.call(e, scopes, fn)
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            b = self.w.expr(self.m, e.value, scopes)
            if b.kind == "module":
                r = self.w.member(self.m, b.mod, e.attr)
                if r is MISSING and isinstance(self.w.module(self.m, b.mod.name + "." + e.attr), Mod):
                    r = UNKNOWN
                self.ob(f"{name_of(e)} exists", r is not MISSING, f"no {e.attr} in {b.mod.name}", e, fn, key=name_of(e))
            elif isinstance(e.value, ast.Name) and self.parsed(e.value.id, scopes) and not self.dynamic_options and self.options:
                self.ob(f"option {e.attr} is declared", e.attr in self.options or e.attr.startswith("_"), f"no command-line option defines {e.attr!r}", e, fn, key=f"args.{e.attr}")
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(x, scopes, cls, fn)
            elif isinstance(x, ast.keyword):
                self.expr(x.value, scopes, cls, fn)

    def parsed(self, name, scopes):
        """name holds the result of parse_args()"""
        for s in reversed(scopes or []):
            bs = s.ns.get(name)
            if bs is not None:
                return len(bs) == 1 and bs[0][0] == "var" and is_parse(bs[0][1])
        bs = self.m.ns.get(name)
        return bool(bs) and len(bs) == 1 and bs[0][0] == "var" and is_parse(bs[0][1])

    def type_of(self, e, m, scopes, depth=0):
        """class whose instance the expression is, or None"""
        if depth > 6:
            return None
        if isinstance(e, ast.Call):
            t = self.w.expr(m, e.func, scopes)
            if t.kind == "class":
                return t if (self.w.lookup(t, "__new__") is None and not t.node.keywords) else None
            if t.kind == "func" and t.cls is None and not any(deco_changes(d) for d in t.node.decorator_list):
                k = id(t.node)
                if k not in self.rettype_memo:
                    self.rettype_memo[k] = None
                    rs = returns(t.node)
                    sc = [Scope(t.node)] if t.node in t.mod.tree.body else None
                    ts = [self.type_of(r, t.mod, sc, depth + 1) for r in rs] if rs and sc else []
                    if ts and all(x is not None and x.same(ts[0]) for x in ts):
                        self.rettype_memo[k] = ts[0]
                return self.rettype_memo[k]
        if isinstance(e, ast.Name):
            for s in reversed(scopes or []):
                bs = s.ns.get(e.id)
                if bs is not None:
                    if len(bs) == 1 and bs[0][0] == "var" and bs[0][1] is not None:
                        return self.type_of(bs[0][1], m, scopes, depth + 1)
                    return None
            bs = m.ns.get(e.id)
            if bs and len(bs) == 1 and bs[0][0] == "var" and bs[0][1] is not None:
                return self.type_of(bs[0][1], m, None, depth + 1)
        return None

    def callee(self, e, scopes):
        """(func entity, bound?, shown name) or None"""
        f = e.func
        t = self.w.expr(self.m, f, scopes)
        if t.kind == "func":
            if t.cls is not None:
                return (t, nm.deco(t.node, "classmethod"))
            return (t, False)
        if t.kind == "class":
            i = self.w.lookup(t, "__init__")
            if i is not None and i.kind == "func" and self.w.lookup(t, "__new__") is None and not t.node.keywords:
                return (i, True)
            return None
        ty = self.type_of(f, self.m, scopes)
        if ty is not None:
            i = self.w.lookup(ty, "__call__")
            return (i, True) if i is not None and i.kind == "func" else None
        if isinstance(f, ast.Attribute):
            ty = self.type_of(f.value, self.m, scopes)
            if ty is not None:
                i = self.w.lookup(ty, f.attr)
                if i is not None and i.kind == "func" and not nm.is_property(i.node):
                    return (i, not nm.is_static(i.node))
        return None

    def call(self, e, scopes, fn):
        f = e.func
        shown = name_of(f) or "call"
        if isinstance(f, ast.Attribute):
            ty = self.type_of(f.value, self.m, scopes)
            if ty is not None and self.w.lookup(ty, f.attr) is None and f.attr not in self.attributes(ty) and f.attr not in nm.OBJ and f.attr not in self.stored:
                self.ob(f"{shown}: {ty.name} has it", False, f"{ty.name} has no attribute {f.attr!r}", e, fn, key=shown)
                return
        r = self.callee(e, scopes)
        if r is not None:
            why = nm.bind(r[0].node, e, r[1])
            self.ob(f"call of {shown}", why is None, f"{r[0].mod.rel}:{r[0].node.lineno} {r[0].name} {why}", e, fn, key=f"{shown}: {why}")
        self.sampler(e, scopes, fn)

    def sampler(self, e, scopes, fn):
        """a model handed to a function that runs a sampler on its parameter: arguments of run() bind to the model"""
        t = self.w.expr(self.m, e.func, scopes)
        if t.kind != "func" or t.cls is not None:
            return
        pos = [a.arg for a in t.node.args.posonlyargs + t.node.args.args]
        given = {**{p: a for p, a in zip(pos, e.args) if not isinstance(a, ast.Starred)}, **{k.arg: k.value for k in e.keywords if k.arg}}
        sc = Scope(t.node)
        for p, a in given.items():
            mt = self.w.expr(self.m, a, scopes)
            if mt.kind != "func" or mt.cls is not None:
                continue
            for n in ast.walk(t.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "run" and n.args and runs(n.func.value, p, sc):
                    call = ast.Call(func=a, args=n.args[1:], keywords=[k for k in n.keywords if k.arg not in ("extra_fields", "init_params")])
                    why = nm.bind(mt.node, call, False)
                    self.ob(f"{mt.name} takes what {t.name} passes to the sampler", why is None, f"{mt.mod.rel}:{mt.node.lineno} {mt.name} {why}", e, fn, key=f"{t.name}:{mt.name}")

    # ---- objects
    def attributes(self, x):
        """every attribute any class above or below x stores on self"""
        out = set()
        for k in self.classes:
            ch = self.w.mro(k)
            if any(b is not None and b.node is x.node for b in ch) or any(b is not None and b.node is k.node for b in self.w.mro(x)):
                for b in ch:
                    if b is None:
                        return Everything()
                    for n in ast.walk(b.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            out.add(n.attr)
                        if isinstance(n, ast.Call) and name_of(n.func) in ("setattr", "object.__setattr__") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                            return Everything()
                    if set(nm.class_ns(b.node)) & {"__getattr__", "__getattribute__", "__slots__"}:
                        return Everything()
                    out |= set(nm.class_ns(b.node))
        return out

    def object(self, x):
        chain = self.w.mro(x)
        if any(b is None for b in chain):
            ext = True
        else:
            ext = False
        if isinstance(self.attributes(x), Everything) and not ext:
            return
        # methods that run on an object of this class: those found on it, and the ones they reach through super() or Base.method(self)
        work, seen = [], set()
        for b in chain:
            if b is None:
                continue
            for n in nm.class_ns(b.node):
                f = self.w.lookup(x, n)
                if f is not None and f.kind == "func":
                    work.append(f)
                elif f is not None and f.kind == "attr":
                    for bb in chain:
                        if bb is not None:
                            work += [Ent("func", bb.mod, y[1], n, cls=bb) for y in nm.class_ns(bb.node).get(n, []) if y[0] == "func"]
        methods = []
        while work:
            f = work.pop()
            if id(f.node) in seen:
                continue
            seen.add(id(f.node))
            methods.append(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    g = self.upward(x, f, n)
                    if g is not None and g.kind == "func":
                        work.append(g)
        stores, refs = set(), []
        for f in methods:
            a = f.node.args.posonlyargs + f.node.args.args
            if not a or nm.is_static(f.node) or nm.deco(f.node, "classmethod"):
                continue
            me = a[0].arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Load):
                        refs.append((f, n, me))
                    else:
                        stores.add(n.attr)
                elif isinstance(n, ast.Call) and name_of(n.func) in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    stores.add(n.args[1].value)
        calls = {}
        for f in methods:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    calls[id(n.func)] = n
        sv = self.m
        for f, n, me in refs:
            self.m = f.mod
            fn = f"{f.cls.name}.{f.name}"
            r = self.w.lookup(x, n.attr)
            known = r is not None or n.attr in stores or n.attr in self.stored or n.attr in nm.OBJ
            if not ext:
                self.ob(f"{x.name} object has attribute {n.attr}", known, f"{x.name} sets no attribute {n.attr!r}", n, fn, key=f"{x.name}.{n.attr}")
            cl = calls.get(id(n))
            if cl is not None and r is not None and r.kind == "func" and n.attr not in stores and not nm.is_property(r.node):
                why = nm.bind(r.node, cl, not nm.is_static(r.node))
                self.ob(f"{x.name} object: call of {me}.{n.attr}", why is None, f"{r.mod.rel}:{r.node.lineno} {r.name} {why}", n, fn, key=f"{x.name}.{n.attr}()")
        for f in methods:
            self.m = f.mod
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    g = self.upward(x, f, n.func)
                    if g is not None and g.kind == "func":
                        why = nm.bind(g.node, n, not nm.is_static(g.node) and (self.is_super(n.func) or nm.deco(g.node, "classmethod")))
                        self.ob(f"{x.name} object: call of {g.cls.name}.{g.name} above {f.cls.name}", why is None, f"{g.mod.rel}:{g.node.lineno} {g.name} {why}", n, f"{f.cls.name}.{f.name}", key=f"{x.name}^{g.name}")
        self.m = sv

    def is_super(self, a):
        return isinstance(a.value, ast.Call)

    def upward(self, x, f, a):
        """method reached by super().name, super(C, self).name or Base.name in a method f of an object of class x"""
        v = a.value
        if isinstance(v, ast.Call) and name_of(v.func) == "super":
            after = f.cls
            if v.args:
                t = self.w.expr(f.mod, v.args[0], None)
                if t.kind != "class":
                    return None
                after = t
            return self.w.lookup(x, a.attr, after=after)
        t = self.w.expr(f.mod, v, None) if isinstance(v, (ast.Name, ast.Attribute)) and name_of(v) else UNKNOWN
        if t.kind == "class" and any(b is not None and b.node is t.node for b in self.w.mro(x)):
            return self.w.lookup(t, a.attr)
        return None


class Everything(set):
    def __contains__(self, x):
        return True


def deco_changes(d):
    n = name_of(d.func if isinstance(d, ast.Call) else d) or ""
    return n.split(".")[-1] in ("property", "contextmanager", "cached_property")


def is_parse(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "parse_args"


def own(node):
    """nodes of a function body without those of nested functions and classes"""
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))


def returns(node):
    rs = [n.value for n in own(node) if isinstance(n, ast.Return)]
    return None if any(r is None for r in rs) else rs


def lengths(node):
    """numbers of values a function may return, or None when some return is not a displayed tuple"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node)) or any(deco_changes(d) for d in node.decorator_list):
        return None
    rs = returns(node)
    if not rs or not all(isinstance(r, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.elts) for r in rs):
        return None
    return {len(r.elts) for r in rs}


def runs(e, param, sc, depth=0):
    """the expression is MCMC(kernel(param, ...), ...)"""
    if depth > 4:
        return False
    if isinstance(e, ast.Name):
        if e.id == param:
            return depth > 0
        bs = sc.ns.get(e.id)
        return bool(bs) and len(bs) == 1 and bs[0][0] == "var" and bs[0][1] is not None and runs(bs[0][1], param, sc, depth)
    if isinstance(e, ast.Call) and (name_of(e.func) or "").split(".")[-1] in ("MCMC", "NUTS", "HMC", "SA", "BarkerMH") and e.args:
        return runs(e.args[0], param, sc, depth + 1)
    return False
