from .common import *
from gwstat.report import norm_tags
from gwstat.terms import as_atom, show_any

TITLE = ("Interface of the added distributions: support, batch and event shapes, the shape of draws, the parameters that argument validation sees, and what is left of an "
         "object after JAX takes it apart and rebuilds it (tree_flatten / tree_unflatten), each computed from the source and compared with what the arguments ask for.")
ASSUMPTIONS = ("numpyro.distributions.Distribution gathers pytree_data_fields (default: the names of arg_constraints) and pytree_aux_fields over the class hierarchy and restores those attributes only",)
N = "gwinferno.numpyro_distributions."
S = "vspec.npdists."
REAL, POS, VEC = "real", "positive", "real_vector"

# constructor arguments in order: (name, symbol or None when left at its default), support bounds, constraint of each parameter, parameters that may be batched
TABLE = {
    "Sine": dict(args=["minimum", "maximum"], support=("minimum", "maximum"), cons={"minimum": REAL, "maximum": REAL}, batch=["minimum", "maximum"], uniform=True),
    "Cosine": dict(args=["minimum", "maximum"], support=("minimum", "maximum"), cons={"minimum": REAL, "maximum": REAL}, batch=["minimum", "maximum"], uniform=True),
    "Powerlaw": dict(args=["alpha", "minimum", "maximum", "low", "high"], support=("low", "high"), cons={"minimum": REAL, "maximum": REAL, "alpha": REAL},
                     batch=["alpha", "minimum", "maximum"], uniform=True, pos=["minimum", "maximum"]),
    "PowerlawRedshift": dict(args=["lamb", "maximum", "zgrid", "dVcdz", "low", "high"], support=("low", "high"), cons={"maximum": POS, "lamb": REAL}, batch=["maximum"], uniform=True,
                             pos=["maximum", "zgrid", "dVcdz"], grids=["zgrid", "dVcdz"]),
    "PowerlawSmoothedPowerlaw": dict(args=["alpha", "minimum", "maximum", "alpha_max", "alpha_min", "low", "high"], support=("low", "high"),
                                     cons={"minimum": POS, "maximum": POS, "alpha": REAL, "alpha_max": POS, "alpha_min": POS},
                                     batch=["alpha", "minimum", "maximum", "alpha_max", "alpha_min"], pos=["minimum", "maximum", "alpha_max", "alpha_min", "low", "high"], stub="psp-sample-stub"),
    "BSplineDistribution": dict(args=["minimum", "maximum", "cs", "grid", "grid_dmat"], support=("minimum", "maximum"), cons={"maximum": REAL, "minimum": REAL, "cs": VEC},
                                batch=["minimum", "maximum"], grids=["cs", "grid"], mats=["grid_dmat"], uniform=True),
    "PSplineCoeficientPrior": dict(args=["N", "inv_var"], support=None, cons={"inv_var": POS}, batch=["inv_var"], event="N", pos=["inv_var"], ints=["N"], stub="ps-sample-stub"),
}
DEFAULTS = {"Sine": lambda: {"minimum": ZERO, "maximum": tm.PI_P}, "Cosine": lambda: {"minimum": div(neg(tm.PI_P), num(2)), "maximum": div(tm.PI_P, num(2))},
            "Powerlaw": lambda: {"minimum": ZERO, "maximum": num(1), "low": ZERO, "high": num(1)},
            "PowerlawRedshift": lambda: {"low": ZERO, "high": num(1000)}}


def check(c):
    it = c.interp()

    def spec(f, *a):
        return it.call(c.entity(it, S + f), list(a), {})

    def m(o, name, *a, **k):
        return it.call(it.getattr(o, name), list(a), k)

    def symbols(t, batched=()):
        out = {}
        for n in t["args"]:
            kw = {"pos": n in t.get("pos", ())}
            if n in t.get("mats", ()):
                out[n] = arr(n, 2, **kw)
            elif n in t.get("grids", ()) or n in batched:
                out[n] = arr(n, 1, **kw)
            elif n in t.get("ints", ()):
                out[n] = pos(n, integer=True)
            else:
                out[n] = ssym(n, **kw)
        return out

    def build(name, vals, skip=(), **more):
        """positional constructor call for the leading arguments, keywords for the optional ones"""
        t = TABLE[name]
        opt = DEFAULTS[name]().keys() if name in DEFAULTS else ()
        a = [vals[n] for n in t["args"] if n not in opt]
        k = {n: vals[n] for n in t["args"] if n in opt and n not in skip}
        return it.call(c.entity(it, N + name), a, {**k, **more})

    for name, t in TABLE.items():
        c.attempt(name, lambda: interface(c, it, name, t, build, symbols, spec, m))
        c.attempt(name + " pytree", lambda: pytree(c, it, name, t, build, symbols, m))


def interface(c, it, name, t, build, symbols, spec, m):
    where = c.loc(it, N + name)
    cases = [("scalar parameters", (), {})] + [(f"{b} an array", (b,), {}) for b in t["batch"]] + ([("defaults", (), DEFAULTS[name]())] if name in DEFAULTS else [])
    for lab, batched, dflt in cases:
        vals = symbols(t, batched)
        o = build(name, vals, dflt.keys())
        vals = {**vals, **dflt}
        if t["support"]:
            lo, hi = t["support"]
            c.equal(f"{name}[{lab}] support is {lo} to {hi}", lambda: it.getattr(o, "support"), lambda: spec("interval", vals[lo], vals[hi]), where)
        else:
            v = it.getattr(o, "support")
            c.holds(f"{name}[{lab}] support is the real vectors", isinstance(v, ExtV) and v.name == "dist.constraints.real_vector", f"support is {short(freeze(v))}", where, undecided=bool(tm.bad_of(freeze(v))))
        ev = lambda: (vals[t["event"]],) if t.get("event") else ()
        bs = lambda: tuple(spec("batch", *[vals[b] for b in t["batch"]]))
        c.equal(f"{name}[{lab}] batch shape is that of its parameters", lambda: it.getattr(o, "batch_shape"), bs, where)
        c.equal(f"{name}[{lab}] event shape", lambda: it.getattr(o, "event_shape"), ev, where)
        if not batched and not dflt:
            for flag in (True, False, None):
                ov = build(name, vals, dflt.keys(), validate_args=flag)
                got = force(lambda: it.getattr(ov, "_validate_args"))
                c.holds(f"{name} is built with validate_args={flag}", got is flag or got == {True: tm.TRUE, False: tm.FALSE}.get(flag, 0), f"validation is set to {got!r:.80}", where, undecided=bool(isinstance(got, (Raised, BaseException))))
        for p in t["cons"]:
            c.equal(f"{name}[{lab}] parameter {p} is the argument given", lambda: it.getattr(o, p), lambda: vals[p], where)
        key = ssym("key")
        for slab, shp, kw in (("one draw", (), {}), ("seven draws", (num(7),), {"sample_shape": (num(7),)}), ("shape (2, 3)", (num(2), num(3)), {"sample_shape": (num(2), num(3))})):
            nm = f"{name}[{lab}] {slab}: shape of the draws"
            if t.get("uniform"):
                c.equal(nm, lambda: m(o, "sample", key, **kw), lambda: m(o, "icdf", spec("uniform", key, shp + bs() + ev())), where)
            elif not dflt:
                c.attempt(nm, lambda: stub(c, it, nm, t, lambda: m(o, "sample", key, **kw), key, (shp + bs(), shp + bs() + ev()), where))

    def cons():
        o = build(name, symbols(t))
        d = it.getattr(o, "arg_constraints")
        got = {k: (v.name if isinstance(v, ExtV) else None) for k, v in d.d.items()} if isinstance(d, DictV) else None
        if got is None:
            return c.record(f"{name} parameter constraints", UNDECIDED, "not a dictionary", where)
        want = {k: "dist.constraints." + v for k, v in t["cons"].items()}
        for k in sorted(set(want) | set(got)):
            c.holds(f"{name} constraint of {k}", got.get(k) == want.get(k) and k in got, f"{k} is validated as {got.get(k)}, its values are {want.get(k)}", where, undecided=k in got and got[k] is None)
        r = it.getattr(o, "reparametrized_params")
        r = r.items if isinstance(r, ListV) else r
        names = {str(getattr(x, "s", x)) for x in r}
        c.holds(f"{name} reparametrised parameters", names == set(want), f"{sorted(names)}", where)
    c.attempt(f"{name} parameter constraints", cons)


def stub(c, it, nm, t, got, key, shapes, where):
    """draws of the two families that have no sampler: one constant"""
    v = force(got)
    if isinstance(v, BaseException) or isinstance(v, Raised):
        return c.holds(nm, False, f"{v}", where, undecided=not isinstance(v, Raised))
    one = isinstance(v, P) and eq.compare(norm(v), ONE).status == PROVED
    got = full_shape(it, v)
    if one and got is not None:
        if any(eq.compare(norm_tags(freeze(got)), norm_tags(freeze(tuple(sh)))).status == PROVED for sh in shapes):
            return c.holds(nm, False, "draws are the constant 1", where, key=t["stub"])
        return c.holds(nm, False, "draws are a constant of another shape", where, undecided=bool(tm.bad_of(freeze(got))))
    return c.holds(nm, False, "draws no longer the recorded constant", where, undecided=True)


def full_shape(it, v):
    """shape of a constant array"""
    a = as_atom(v)
    if a is None:
        return () if v.is_const() else None
    if a.op in ("ones", "full") and a.args and isinstance(a.args[0], tuple) and a.args[0][:1] == ("tuple",):
        return a.args[0][1:]
    return None


def norm(v):
    return norm_tags(freeze(v))


def class_field(it, cls, field):
    """class attribute as numpyro gathers it: each class of the hierarchy contributes its own"""
    for k in cls.mro():
        if isinstance(k, ClassV):
            ns = k.ns if hasattr(k, "ns") else k.vars
            yield ns


def names_of(v):
    if isinstance(v, DictV):
        v = list(v.d)
    v = v.items if isinstance(v, ListV) else v
    if not isinstance(v, (list, tuple)):
        return None
    out = []
    for x in v:
        x = getattr(x, "s", x)
        if not isinstance(x, str):
            return None
        out.append(x)
    return out


def rebuilt(it, o):
    """the object JAX hands to the next function: only the gathered fields survive"""
    m, _ = o.cls.lookup("tree_flatten")
    if isinstance(m, FuncV):
        pair = it.call(it.getattr(o, "tree_flatten"), [], {})
        ch, aux = tuple(pair) if isinstance(pair, tuple) else tuple(pair.items)
        return it.call(it.getattr(o.cls, "tree_unflatten"), [aux, ch], {})
    keep = {"_batch_shape", "_event_shape", "_validate_args", "batch_shape", "event_shape"}
    for ns in class_field(it, o.cls, None):
        data = ns.get("pytree_data_fields", ns.get("arg_constraints"))
        for v in (data, ns.get("pytree_aux_fields")):
            if v is None:
                continue
            n = names_of(v)
            if n is None:
                raise Unsupported("pytree fields are not a list of names")
            keep.update(n)
    keep_def = {k for k in keep if k not in o.attrs}
    attrs = {k: v for k, v in o.attrs.items() if k in keep}
    attrs.update({k: None for k in keep_def})
    # numpyro's base class adds no attribute the methods below could mean
    attrs["@closed"] = True
    return InstV(o.cls, attrs)


def pytree(c, it, name, t, build, symbols, m):
    where = c.loc(it, N + name)
    vals = symbols(t)
    o = build(name, vals)
    r = rebuilt(it, o)
    key, x, q = ssym("key"), arr("x", 1, pos=True), arr("q", 1)
    uses = [("support", lambda d: it.getattr(d, "support")), ("batch shape", lambda d: it.getattr(d, "batch_shape")), ("event shape", lambda d: it.getattr(d, "event_shape")),
            ("log density", lambda d: m(d, "log_prob", x)), ("draws", lambda d: m(d, "sample", key, sample_shape=(num(7),)))]
    for meth, v in (("cdf", x), ("icdf", q)):
        if isinstance(o.cls.lookup(meth)[0], FuncV):
            uses.append((meth, lambda d, meth=meth, v=v: m(d, meth, v)))
    for lab, f in uses:
        c.equal(f"{name} rebuilt by JAX: {lab}", lambda: f(r), lambda: f(o), where)
