from .data import *
from gwstat.interp import ExtV, ListV
import os

TITLE = ("Configurations of symbolic priors, fixed values, shared parameters and mixtures are interpreted through the reader and the model constructor: every sample site recorded (name, distribution, parameters) and every argument the likelihood "
         "receives (log weights on posterior samples and injections, hypervolume, counts, flags, mass bounds, parameter names) is compared with the reference built directly from the named distributions.")
ASSUMPTIONS = ("yaml.safe_load returns the mapping written in the file", "the likelihood and the named distributions are decided by their own properties")
PA = "gwinferno.pipeline.parser."
AN = "gwinferno.pipeline.analysis."
H = AN + "hierarchical_likelihood"
S = "vspec.config."
ND = "gwinferno.numpyro_distributions."
NP = "numpyro.distributions."


def d(**k):
    return DictV(dict(k))


def prior(cls, **k):
    return d(prior=cls, prior_params=DictV(dict(k)))


def value(v):
    return d(value=v)


def power(p, lo=None, hi=None):
    """a power law with a sampled index"""
    return d(model=ND + "Powerlaw", hyper_params=d(alpha=prior(NP + "Normal", loc=ssym(p + "_loc"), scale=pos(p + "_scale")),
                                                     minimum=lo or value(pos(p + "_lo")), maximum=hi or value(pos(p + "_hi"))))


def beta(p, **more):
    return d(model=NP + "Beta", hyper_params=DictV({"concentration1": prior(NP + "Uniform", low=pos(p + "_l1"), high=pos(p + "_h1")), "concentration0": prior(NP + "Exponential", rate=pos(p + "_r0"))}), **more)


def redshift(lamb=None):
    return d(model=ND + "PowerlawRedshift", hyper_params=d(lamb=lamb or prior(NP + "Normal", loc=ssym("z_loc"), scale=pos("z_scale")), maximum=value(pos("zmax"))))


def mixture(p, n, **more):
    k = {"model": NP + "MixtureGeneral", "mixture_dist": d(model=NP + "CategoricalProbs", hyper_params=d(probs=prior(NP + "Dirichlet", concentration=ListV([pos(f"{p}_w{i}") for i in range(n)])))), **more}
    for i in range(n):
        if i % 2 == 0:
            k[f"component_{i + 1}"] = d(model=NP + "Normal", hyper_params=d(loc=prior(NP + "Uniform", low=ssym(f"{p}_lo{i}"), high=ssym(f"{p}_hi{i}")), scale=value(pos(f"{p}_s{i}"))))
        else:
            k[f"component_{i + 1}"] = power(f"{p}_{i}")
    return DictV(k)


def shared(q):
    return {"iid": d(shared_parameter=q)}


def configs():
    up = lambda p: prior(NP + "Uniform", low=pos(p + "_l"), high=pos(p + "_h"))
    yield "power laws", {"mass_1": power("m", up("mlo"), up("mhi")), "mass_ratio": power("q"), "redshift": redshift()}
    yield "redshift first", {"redshift": redshift(value(ssym("lam"))), "mass_1": power("m")}
    yield "redshift alone", {"redshift": redshift()}
    yield "two power laws in one list order, two in another", {"mass_ratio": power("q"), "redshift": redshift(), "mass_1": power("m", up("mlo"))}
    yield "shared spin magnitude", {"mass_1": power("m"), "a_1": beta("a", **shared("a_2")), "redshift": redshift()}
    yield "two shared models", {"a_1": beta("a", **shared("a_2")), "cos_tilt_1": beta("t", **shared("cos_tilt_2")), "redshift": redshift()}
    for n in (2, 3):
        yield f"mixture of {n}", {"mass_1": mixture("m", n), "mass_ratio": power("q"), "redshift": redshift()}
    rev = lambda p: DictV({"scale": pos(p + "_scale"), "loc": ssym(p + "_loc")})
    yield "parameters in another order", {"mass_1": d(model=ND + "Powerlaw", hyper_params=d(maximum=prior(NP + "Uniform", high=pos("hh"), low=pos("hl")), alpha=d(prior=NP + "Normal", prior_params=rev("m")), minimum=value(pos("lo")))),
                                          "redshift": d(hyper_params=d(maximum=value(pos("zmax")), lamb=d(prior_params=rev("z"), prior=NP + "Normal")), model=ND + "PowerlawRedshift")}
    yield "mixture of normals", {"mass_1": DictV({**mixture("m", 3).d, "component_2": mixture("n", 1).d["component_1"]}), "redshift": redshift()}
    yield "two mixtures", {"mass_1": mixture("m", 2), "mass_ratio": mixture("q", 2), "redshift": redshift()}


def check(c):
    c.history = False     # requests in sequence and second runs are obligations of this check itself
    for lab, conf in configs():
        c.attempt(lab, lambda: one(c, lab, conf))
    for k in ("marginalize_selection", "min_neff_cut", "max_variance_cut", "posterior_predictive_check"):
        for v in (True, False):
            c.attempt(f"{k}={v}", lambda: one(c, f"{k}={v}", {"mass_1": power("m"), "redshift": redshift()}, {k: v}))
    c.attempt("files", lambda: files(c))
    c.attempt("lists", lambda: lists(c))
    c.attempt("unknown", lambda: unknown(c))
    python_files(c)


def copy(x):
    if isinstance(x, DictV):
        return DictV({k: copy(v) for k, v in x.d.items()})
    if isinstance(x, ListV):
        return ListV([copy(v) for v in x.items])
    return x


def it_list(x):
    return list(x.items if isinstance(x, ListV) else x)


def read(c, it, conf):
    r = it.call(c.entity(it, PA + "ConfigReader"), [], {})
    it.call(it.getattr(r, "construct_model_and_prior_dicts"), [copy(DictV(dict(conf)))], {})
    return r


def cls(c, it, name):
    return ExtV(it.ext.canon(name)) if name.startswith("numpyro") else c.entity(it, name)


def reference(c, it, conf):
    """{parameter: distribution} built directly, recording the sample sites"""
    def hyper(name, h):
        if "value" in h.d:
            v = h.d["value"]
            return it.call(ExtV("np.array"), [v], {}) if isinstance(v, ListV) else v
        kw = {k: it.call(ExtV("np.array"), [v], {}) if isinstance(v, ListV) else v for k, v in h.d["prior_params"].d.items()}
        return it.call(ExtV("numpyro.sample"), [name, it.call(cls(c, it, h.d["prior"]), [], kw)], {})

    def dist(pre, m, extra=None):
        kw = {k: hyper(f"{pre}_{k}", h) for k, h in m.d["hyper_params"].d.items()}
        kw.update(extra or {})
        return lambda: it.call(cls(c, it, m.d["model"]), [], kw)
    out, order = {}, {}
    for p, m in conf.items():
        if "mixture_dist" in m.d:
            mix = dist(p + "_mixture_dist", m.d["mixture_dist"])
            comps = [dist(f"{p}_{k}", m.d[k]) for k in sorted(x for x in m.d if x.startswith("component_"))]
            order[p] = (lambda m=m, mix=mix, comps=comps: it.call(cls(c, it, m.d["model"]), [mix(), ListV([x() for x in comps])], {}))
        else:
            extra = None
            if p == "redshift":
                zm = m.d["hyper_params"].d["maximum"].d["value"]
                g, v = it.unpack(it.call(c.entity(it, S + "zgrid"), [zm], {}), 2)
                extra = {"zgrid": g, "dVcdz": v}
            order[p] = dist(p, m, extra)
        if "iid" in m.d:
            order[m.d["iid"].d["shared_parameter"]] = p
    for p, f in order.items():
        if not isinstance(f, str):
            out[p] = f()
    for p, f in order.items():
        if isinstance(f, str):
            out[p] = out[f]
    return {p: out[p] for p in order}


DEFAULTS = {"marginalize_selection": False, "min_neff_cut": True, "max_variance_cut": False, "posterior_predictive_check": True}


def one(c, lab, conf, flags=None):
    flags = flags or {}
    params = [q for p, m in conf.items() for q in ([p] + ([m.d["iid"].d["shared_parameter"]] if "iid" in m.d else []))]
    it = c.interp()
    where = c.loc(it, AN + "construct_hierarchical_model")
    got = []
    it.override = {H: lambda it, b: got.append(b)}
    r = read(c, it, conf)
    model = it.call(c.entity(it, AN + "construct_hierarchical_model"), [it.getattr(r, "models"), it.getattr(r, "priors")], flags)
    it2 = c.interp()
    ref = reference(c, it2, conf)
    names = lambda x: sorted(it_list(x))
    for turn in ("", "later "):
        pe = {k: arr(turn + "pe_" + k, 2, pos=True) for k in params + ["prior"]}
        inj = {k: arr(turn + "inj_" + k, 1, pos=True) for k in params + ["prior"]}
        counts = {k: pos(turn + k) for k in ("total_inj", "Nobs", "Tobs")}
        got.clear()
        n0 = len(it.effects)
        lab_ = f"{lab} (second run of the model)" if turn else lab
        P_, I_ = DictV(dict(pe)), DictV(dict(inj))
        ex = force(lambda: it.call(model, [P_, I_, counts["total_inj"], counts["Nobs"], counts["Tobs"]], {}))
        if isinstance(ex, (Raised, BaseException)):
            return c.equal(f"{lab_}: the model runs", ex, num(0), where)
        c.same_sites(lab_, it.effects[n0:], it2.effects, where)
        if not c.holds(f"{lab_}: the likelihood is called once", len(got) == 1, f"called {len(got)} times", where):
            return
        b = got[0]
        c.holds(f"{lab_}: parameter names", names(b["param_names"]) == sorted(params), f"{names(b['param_names'])} instead of {sorted(params)}", where)
        for nm, key, data in (("posterior samples", "pe_weights", pe), ("injections", "inj_weights", inj)):
            c.equal(f"{lab_}: log weights of {nm}", b[key], lambda: it2.call(c.entity(it2, S + "weights"), [ListV(list(ref.values())), ListV([data[p] for p in ref]), data["prior"]], {}), where)
        c.equal(f"{lab_}: surveyed hypervolume", b["surveyed_hypervolume"], lambda: it2.getattr(ref["redshift"], "norm"), where)
        for k, v in counts.items():
            c.equal(f"{lab_}: {k}", b[k], v, where)
        for k, v in {**DEFAULTS, **flags, "log": True}.items():
            c.holds(f"{lab_}: {k}", b[k] is v, f"{b[k]!r} instead of {v}", where)
        for k, v in (("m1min", 2), ("m2min", 2), ("mmax", 100)):
            c.equal(f"{lab_}: {k}", b[k], num(v), where)
        for k, data in (("pedata", pe), ("injdata", inj)):
            c.holds(f"{lab_}: {k}", isinstance(b[k], DictV) and set(b[k].d) == set(data), "other columns", where)
            for p in data:
                if isinstance(b[k], DictV) and p in b[k].d:
                    c.equal(f"{lab_}: {k} {p}", b[k].d[p], data[p], where)
    want = sorted(site_names(it2.effects))
    sp = it.getattr(r, "sampling_params")
    c.holds(f"{lab}: sampled parameters", sorted(it_list(sp)) == want, f"{sorted(it_list(sp))} instead of {want}", c.loc(it, PA + "ConfigReader.add_prior"))


def site_names(fx):
    from gwstat.report import sites
    return [nm for kind, nm in sites(fx) if kind == "sample"]


def lists(c):
    """values given as lists become arrays, of priors and of fixed values"""
    v = [ssym(f"v{k}") for k in range(3)]
    it = c.interp()
    r = it.call(c.entity(it, PA + "ConfigReader"), [], {})
    where = c.loc(it, PA + "ConfigReader.add_prior")
    add = it.getattr(r, "add_prior")
    it.call(add, ["fixed", value(ListV(v))], {})
    it.call(add, ["scalar", value(v[0])], {})
    it.call(add, ["zero", value(num(0))], {})
    it.call(add, ["drawn", prior(NP + "Dirichlet", concentration=ListV(v))], {})
    it.call(add, ["normal", prior(NP + "Normal", loc=v[1], scale=pos("s"))], {})
    it.call(add, ["nothing", d(latex="x")], {})
    ps = it.getattr(r, "priors").d
    c.holds("priors: names", set(ps) == {"fixed", "scalar", "zero", "drawn", "normal"}, f"{sorted(ps)}", where)
    c.holds("priors: sampled names", it_list(it.getattr(r, "sampling_params")) == ["drawn", "normal"], "other sampled parameters", where)
    c.equal("priors: list value", lambda: ps["fixed"], lambda: mk_arr(v), where)
    c.equal("priors: scalar value", lambda: ps["scalar"], v[0], where)
    c.equal("priors: zero value", lambda: ps["zero"], num(0), where)
    for nm, want, kw in (("drawn", "dist.Dirichlet", {"concentration": mk_arr(v)}), ("normal", "dist.Normal", {"loc": v[1], "scale": pos("s")})):
        o = ps.get(nm)
        c.holds(f"priors: distribution of {nm}", isinstance(it.getattr(o, "dist"), ExtV) and it.getattr(o, "dist").name == want, "another distribution", where)
        g = it.getattr(o, "params").d
        c.holds(f"priors: parameters of {nm}", set(g) == set(kw), f"{sorted(g)}", where)
        for k in kw:
            c.equal(f"priors: {nm} {k}", lambda: g[k], kw[k], where)


class FileV(dm.ModelV):
    def __init__(self, path):
        self.path = path

    def m_getattr(self, it, name):
        if name in ("close", "flush"):
            return dm.nat(lambda it: None, name)
        if name == "read":
            return dm.nat(lambda it: self, name)
        raise Unsupported("file." + name)

    def m_enter(self, it):
        return self


def files(c):
    fn = PA + "ConfigReader.parse"
    models = lambda: {"mass_1": power("m"), "redshift": redshift()}
    whole = lambda: {"label": "run", "outdir": "out/", "models": DictV(models()), "data": d(a=num(1)), "sampler": d(kernel="NUTS"), "likelihood": d(marginalize_selection=True)}
    for lab, drop in (("every section", ()), ("no label", ("label",)), ("no outdir", ("outdir",)), ("no data", ("data",)), ("no sampler", ("sampler",)), ("no likelihood", ("likelihood",)), ("models only", ("label", "outdir", "data", "sampler", "likelihood"))):
        def go():
            it = c.interp()
            seen = []
            it.natives["open"] = lambda it, a, k: FileV(a[0])
            for nm in ("yaml.safe_load", "yaml.full_load", "yaml.load"):
                it.natives[nm] = lambda it, a, k: seen.append(a[0].path if isinstance(a[0], FileV) else None) or DictV({k: v for k, v in whole().items() if k not in drop})
            where = c.loc(it, fn)
            r = it.call(c.entity(it, PA + "ConfigReader"), [], {})
            it.call(it.getattr(r, "parse"), ["some/conf.yml"], {})
            c.holds(f"parse[{lab}]: the file is read", seen == ["some/conf.yml"], f"{seen}", where)
            for attr, key, dflt in (("label", "label", "label"), ("outdir", "outdir", "./")):
                want = dflt if key in drop else whole()[key]
                c.holds(f"parse[{lab}]: {attr}", it.getattr(r, attr) == want, f"{it.getattr(r, attr)!r} instead of {want!r}", where)
            for attr, key in (("data_conf", "data"), ("sampler_conf", "sampler"), ("likelihood_kwargs", "likelihood")):
                want = {} if key in drop else whole()[key].d
                g = it.getattr(r, attr)
                c.holds(f"parse[{lab}]: {attr}", isinstance(g, DictV) and set(g.d) == set(want) and all(g.d[k] == want[k] for k in want), f"{g!r} instead of {want!r}", where)
            c.holds(f"parse[{lab}]: models", set(it.getattr(r, "models").d) == set(models()), "other models", where)
        c.attempt(f"parse[{lab}]", go)

    def python_file():
        it = c.interp()
        r = it.call(c.entity(it, PA + "ConfigReader"), [], {})
        it.call(it.getattr(r, "construct_model_and_prior_dicts"), [d(python_file="a/b.py")], {})
        c.holds("a model in a Python file is named by its path", it.getattr(r, "models").d == {"file_path": "a/b.py"}, "other models", c.loc(it, fn))
    c.attempt("python file", python_file)

    def by_name():
        it = c.interp()
        ld = c.entity(it, PA + "load_dist_from_string")
        for nm in (NP + "Normal", ND + "Powerlaw", NP + "MixtureGeneral"):
            c.holds(f"distribution named {nm}", it.call(ld, [nm], {}) == cls(c, it, nm), "another object", c.loc(it, PA + "load_dist_from_string"))
    c.attempt("distributions by name", by_name)

    def fresh():
        it = c.interp()
        a, b = (it.call(c.entity(it, PA + "ConfigReader"), [], {}) for _ in range(2))
        it.call(it.getattr(a, "construct_model_and_prior_dicts"), [DictV(models())], {})
        for k in ("models", "priors", "sampling_params"):
            x = it.getattr(b, k)
            c.holds(f"a second reader starts without {k}", not (x.d if isinstance(x, DictV) else it_list(x)), "content of another reader", c.loc(it, PA + "ConfigReader.__init__"))
    c.attempt("fresh readers", fresh)


class ModuleFile(dm.ModelV):
    """module object made from one file; it has content once it was executed"""
    def __init__(self, path, done=False):
        self.path, self.done = path, done

    def m_freeze(self):
        return ("module of", self.path, self.done)

    def m_getattr(self, it, name):
        if name in ("__name__", "__file__"):
            return self.path
        if not self.done:
            raise PyRaise("AttributeError", name)
        return op("content of file", (os.path.abspath(self.path), name))

    def m_getitem(self, it, name):
        return self.m_getattr(it, name)


class SpecFile(ModuleFile):
    """module specification and loader of one file"""
    def m_getattr(self, it, name):
        if name == "loader":
            return self
        if name in ("name", "origin", "path"):
            return self.path
        if name == "exec_module":
            def run(it, a, k):
                a[0].done = a[0].path == self.path
            return NatV(run, name)
        if name == "load_module":
            return NatV(lambda it, a, k: ModuleFile(self.path, True), name)
        raise Unsupported("spec." + name)


def arg(a, k, i, name):
    return a[i] if len(a) > i else k.get(name)


def python_files(c):
    fn = PA + "load_model_from_python_file"
    for path in ("models/model.py", "model.py", "/abs/v1.2/my.model.py", "./random.py", "deep/model.py/model.py", "other/model.py"):
        def go():
            it = c.interp()
            nat = it.natives
            for nm in ("basename", "dirname", "splitext", "abspath", "join", "split", "realpath", "normpath", "expanduser"):
                def pathfn(it, a, k, nm=nm):
                    if not all(isinstance(x, str) for x in a):
                        raise Unsupported("path of unknown text")
                    return getattr(os.path, nm)(*a)
                nat["os.path." + nm] = pathfn
            nat["importlib.util.spec_from_file_location"] = lambda it, a, k: SpecFile(arg(a, k, 1, "location"))
            nat["importlib.machinery.SourceFileLoader"] = lambda it, a, k: SpecFile(arg(a, k, 1, "path"))
            nat["importlib.util.spec_from_loader"] = lambda it, a, k: arg(a, k, 1, "loader")
            nat["importlib.util.module_from_spec"] = lambda it, a, k: ModuleFile(arg(a, k, 0, "spec").path)
            nat["runpy.run_path"] = lambda it, a, k: ModuleFile(arg(a, k, 0, "path_name"), True)
            # a module found by name is whichever comes first on the search path
            nat["importlib.import_module"] = lambda it, a, k: op("module found by name", (a[0],))
            c.equal(f"model of the Python file {path}", lambda: it.call(c.entity(it, fn), [path], {}), op("content of file", (os.path.abspath(path), "model")), c.loc(it, fn), known_ops={"module found by name", "content of file", "attr"})
        c.attempt(f"model of the Python file {path}", go)


def unknown(c):
    it = c.interp()
    it.override = {H: lambda it, b: None}
    where = c.loc(it, AN + "construct_hierarchical_model")
    m = it.call(c.entity(it, AN + "construct_hierarchical_model"), [DictV({"mass_1": num(3)}), DictV({})], {})
    c.equal("a model of an unknown kind is refused", lambda: it.call(m, [DictV({}), DictV({}), num(1), num(1), num(1)], {}), Raised("ValueError"), where)
