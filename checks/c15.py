from .data import *

TITLE = ("The loader of analysis files and the builders of result datasets are interpreted over files and dictionaries of symbolic arrays with models of labelled arrays and of the argument parser: which event's samples end up under which name, "
         "the counts, totals and times that go with them, the dimensions and contents of every result variable, what the caller's dictionary holds afterwards, and the value and kind of every command-line option are compared with the reference.")
ASSUMPTIONS = ("xarray, arviz and argparse follow their documentation", "a file holds what was saved under its name")
U = "gwinferno.pipeline.utils."
SAVE = "gwinferno.preprocess.data_collection.save_posterior_samples_and_injection_datasets_as_idata"


class Parser(dm.ModelV):
    """argparse.ArgumentParser over concrete command lines"""

    def __init__(self):
        self.opts = {}

    def m_getattr(self, it, name):
        if name == "add_argument":
            return dm.nat(self.add, name)
        if name == "parse_args":
            return dm.nat(self.parse, name)
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return dm.nat(lambda it, *a, **k: self, name)
        if name == "set_defaults":
            def sd(it, **k):
                for o in self.opts.values():
                    if o["dest"] in k:
                        o["default"] = k[o["dest"]]
            return dm.nat(sd, name)
        raise Unsupported("ArgumentParser." + name)

    def add(self, it, *names, **k):
        if not names or not all(isinstance(x, str) for x in names):
            raise Unsupported("argument names")
        bad = set(k) - {"type", "default", "action", "help", "dest", "required", "metavar", "choices"}
        if bad:
            raise Unsupported(f"add_argument({bad})")
        long = next((x for x in names if x.startswith("--")), names[0])
        o = dict(k, dest=k.get("dest") or long.lstrip("-").replace("-", "_"), flags=names)
        act = o.get("action", "store")
        act = getattr(act, "name", act)
        if act not in ("store", "store_true", "store_false", "argparse.BooleanOptionalAction"):
            raise Unsupported(f"action {act}")
        o["action"] = act
        if act in ("store_true", "store_false") and "default" not in o:
            o["default"] = act == "store_false"
        self.opts[o["dest"]] = o

    def parse(self, it, argv):
        line = list(argv)
        d = {o["dest"]: self.default(it, o) for o in self.opts.values()}
        while line:
            w = line.pop(0)
            neg = w.startswith("--no-") and not any(w in o["flags"] for o in self.opts.values())
            o = next((o for o in self.opts.values() if (("--" + w[5:]) if neg else w) in o["flags"]), None)
            if o is None or neg and o["action"] != "argparse.BooleanOptionalAction":
                raise PyRaise("SystemExit", f"unrecognised argument {w}", it.node)
            if o["action"] == "store":
                if not line or line[0].startswith("--"):
                    raise PyRaise("SystemExit", f"{w} expects one argument", it.node)
                d[o["dest"]] = self.conv(it, o, line.pop(0))
            else:
                d[o["dest"]] = not neg if o["action"].startswith("arg") else o["action"] == "store_true"
        return d

    def default(self, it, o):
        v = o.get("default")
        return self.conv(it, o, v) if isinstance(v, str) and o["action"] == "store" else v

    def conv(self, it, o, s):
        t = o.get("type")
        if t is None or getattr(t, "name", None) == "str":
            return s
        if getattr(t, "name", None) == "bool":
            return bool(s)
        return it.call(t, [s], {})


def analysis_file(events, params, inj_params):
    n, m = pos("n_samples", integer=True), pos("n_found", integer=True)
    cells = [[column(f"{e}.{p}", n) for p in params] for e in events]
    pe = dm.DA(cells, ["event", "param", "draw"], {"event": ListV(list(events)), "param": ListV(list(params))}, DictV(), "posteriors")
    inj = dm.DA([column(f"inj.{p}", m) for p in inj_params], ["param", "injection"], {"param": ListV(list(inj_params))}, DictV(), "injections")
    tot, yr = pos("total_generated", integer=True), pos("analysis_time")
    at = DictV({"total_generated": tot, "analysis_time": yr})
    f = dm.IData({"pe_data": dm.DS({"posteriors": pe}, pe.coords), "inj_data": dm.DS({"injections": inj}, inj.coords, at)})
    return f, pe, inj, tot, yr


EV = ["GW1", "GW2", "GW3"]


def check(c):
    par, ipar = ["mass_1", "redshift", "prior"], ["redshift", "mass_1", "prior"]

    def loading(lab, events, kw, kept):
        f, pe, inj, tot, yr = analysis_file(events, par, ipar)
        it = dm.install(c.interp(), {"analysis.h5": f})
        where = c.loc(it, U + "load_pe_and_injections_as_dict")
        got = force(lambda: it.call(c.entity(it, U + "load_pe_and_injections_as_dict"), ["analysis.h5"], kw))
        if isinstance(got, (Raised, BaseException)):
            return c.equal(f"loading[{lab}]", got, num(0), where)
        a, b, k, names = it.unpack(got, 4)
        if not (isinstance(a, DictV) and isinstance(b, DictV) and isinstance(k, DictV)):
            return c.record(f"loading[{lab}]", UNDECIDED, "not dictionaries", where)
        c.holds(f"loading[{lab}] parameters of the samples", set(a.d) == set(par), f"{sorted(map(str, a.d))}", where)
        c.holds(f"loading[{lab}] parameters of the injections", set(b.d) == set(ipar), f"{sorted(map(str, b.d))}", where)
        c.holds(f"loading[{lab}] parameter names", dm.strs(names) is not None and sorted(dm.strs(names)) == sorted(par), f"{names!r}"[:200], where, undecided=dm.strs(names) is None)
        for p in par:
            if p in a.d:
                want = it.ext.call(it, "np.array", [ListV([pe.at(e, p) for e in kept])], {})
                c.equal(f"loading[{lab}] {p} of the kept events", a.d[p], want, where)
        for p in ipar:
            if p in b.d:
                c.equal(f"loading[{lab}] injected {p}", b.d[p], inj.at(p), where)
        for key, want in (("total_inj", tot), ("obs_time", yr), ("nObs", num(len(kept)))):
            c.equal(f"loading[{lab}] {key}", k.d.get(key), want, where)
    for lab, events, kw, kept in (
            ("all", EV, {}, EV), ("no list", EV, {"ignore": None}, EV), ("one ignored", EV, {"ignore": ListV(["GW2"])}, ["GW1", "GW3"]),
            ("first and last ignored", EV, {"ignore": ListV(["GW3", "GW1"])}, ["GW2"]), ("a name not in the file", EV, {"ignore": ListV(["GW9", "GW1"])}, ["GW2", "GW3"]),
            ("empty list", EV, {"ignore": ListV([])}, EV), ("last of two", EV[:2], {"ignore": ListV(["GW2"])}, ["GW1"])):
        c.attempt(f"loading[{lab}]", lambda lab=lab, events=events, kw=kw, kept=kept: loading(lab, events, kw, kept))

    def saving():
        f, *_ = analysis_file(EV, par, ipar)
        for path, ok in (("results/analysis.h5", True), ("analysis.nc", False), ("analysis", False), ("analysis.hdf", False)):
            it = dm.install(c.interp(), {})
            where = c.loc(it, SAVE)
            r = force(lambda: it.call(c.entity(it, SAVE), [path, f.groups["pe_data"], f.groups["inj_data"]], {}))
            fx = [e for e in it.effects if e.kind == "save"]
            if not ok:
                c.equal(f"saving as {path} is refused", r, Raised("AssertionError"), where)
                c.holds(f"saving as {path} writes nothing", not fx, "", where)
                continue
            if isinstance(r, (Raised, BaseException)):
                c.equal(f"saving as {path}", r, None, where)
                continue
            c.holds(f"saving as {path} writes once", len(fx) == 1 and fx[0].name == path, f"{[e.name for e in fx]}", where)
            for e in fx[:1]:
                v = e.value
                c.holds("saved samples", isinstance(v, dm.IData) and v.groups.get("pe_data") is f.groups["pe_data"], "", where)
                c.holds("saved injections", isinstance(v, dm.IData) and v.groups.get("inj_data") is f.groups["inj_data"], "", where)
    c.attempt("saving", saving)

    def unchanged(lab, d, before, where):
        same = isinstance(d, DictV) and list(d.d) == list(before) and all(d.d[k] is before[k] or freeze(d.d[k]) == freeze(before[k]) for k in before)
        c.holds(f"{lab} leaves the caller's dictionary as it was", same, f"{list(d.d)}", where)

    def posterior():
        n = pos("draws", integer=True)
        before = {"lamb": column("lamb", n), "mass_cs": arr("mass_cs", 2), "rate": column("rate", n), "Qs": arr("Qs", 3), "q_cs": arr("q_cs", 2)}
        for x in before.values():
            ops.LENGTHS[as_atom(x)] = n
        d = DictV(dict(before))
        it = dm.install(c.interp(), {})
        fn = U + "posterior_dict_to_xarray"
        where = c.loc(it, fn)
        r = force(lambda: it.call(c.entity(it, fn), [d], {}))
        if not isinstance(r, dm.DS):
            return c.equal("posterior samples", r, num(0), where) if isinstance(r, (Raised, BaseException)) else c.record("posterior samples", UNDECIDED, "not a dataset", where)
        c.holds("posterior samples: variables", set(r.vars) == set(before), f"{list(r.vars)}", where)
        dims = []
        for k, v in before.items():
            if k in r.vars:
                w = r.vars[k]
                c.equal(f"posterior samples of {k}", w.cells, v, where)
                c.holds(f"posterior samples of {k}: draws come first", len(w.dims) == ops.nd_of(v) and w.dims[0] == "draw", f"{w.dims}", where)
                dims += w.dims[1:]
        c.holds("posterior samples: other dimensions are not shared", len(set(dims)) == len(dims) and "draw" not in dims, f"{dims}", where)
        unchanged("posterior samples", d, before, where)
    c.attempt("posterior samples", posterior)

    def curves(lab, table, grids, sub):
        n = num(7)
        it = dm.install(c.interp(), {})
        fn = U + "pdf_dict_to_xarray"
        where = c.loc(it, fn)
        d, g = DictV(dict(table)), DictV(dict(grids))
        r = force(lambda: it.call(c.entity(it, fn), [d, g, n], {"subpop_names": ListV(sub)} if sub else {}))
        if not isinstance(r, dm.DS):
            return c.equal(f"curves[{lab}]", r, num(0), where) if isinstance(r, (Raised, BaseException)) else c.record(f"curves[{lab}]", UNDECIDED, "not a dataset", where)
        want = {}
        for k, v in table.items():
            if sub and k != "redshift":
                want.update({f"{s}_{k}_pdfs": (k, v.items[j]) for j, s in enumerate(sub)})
            else:
                want[f"{k}_pdfs"] = (k, v)
        c.holds(f"curves[{lab}]: variables", set(r.vars) == set(want), f"{sorted(set(r.vars) ^ set(want))} missing or extra", where)
        for nm, (k, v) in want.items():
            if nm in r.vars:
                c.equal(f"curves[{lab}] {nm}", r.vars[nm].cells, v, where)
                c.holds(f"curves[{lab}] {nm}: dimensions", r.vars[nm].dims == ["draw", k], f"{r.vars[nm].dims}", where)
        for k, v in grids.items():
            c.equal(f"curves[{lab}] grid of {k}", r.coords.get(k), v, where)
        c.equal(f"curves[{lab}] draws", r.coords.get("draw"), it.ext.call(it, "np.arange", [n], {}), where)
        unchanged(f"curves[{lab}]", d, table, where)
        unchanged(f"curves[{lab}] grids", g, grids, where)
    ks = ["mass_1", "a1", "redshift", "mass_ratio"]
    grids = {k: arr("grid_" + k, 1) for k in ks}
    c.attempt("curves[one population]", lambda: curves("one population", {k: arr(k + "_pdf", 2) for k in ks}, grids, None))
    two = {k: (ListV([arr(f"{k}_pdf{j}", 2) for j in range(2)]) if k != "redshift" else arr("z_pdf", 2)) for k in ks}
    c.attempt("curves[two populations]", lambda: curves("two populations", two, grids, ["Peak", "Rest"]))
    three = {k: (ListV([arr(f"{k}_pdf{j}", 2) for j in range(3)]) if k != "redshift" else arr("z_pdf", 2)) for k in ks[1:]}
    c.attempt("curves[three populations]", lambda: curves("three populations", three, {k: grids[k] for k in three}, ["A", "B", "C"]))

    options(c)


def options(c):
    """value of every option for some command lines"""
    INT = {"--chains": "chains", "--samples": "samples", "--thinning": "thinning", "--warmup": "warmup", "--rngkey": "rngkey", "--m-nsplines": "m_nsplines", "--q-nsplines": "q_nsplines",
           "--a-nsplines": "a_nsplines", "--tilt-nsplines": "tilt_nsplines", "--z-nsplines": "z_nsplines"}
    FLT = {"--mmin": "mmin", "--mmax": "mmax"}
    STR = {"--pe-inj-file": "pe_inj_file", "--run-label": "run_label", "--result-dir": "result_dir"}
    DEF = {"m_nsplines": 50, "q_nsplines": 30, "a_nsplines": 16, "tilt_nsplines": 16, "z_nsplines": 20, "mmin": 3, "mmax": 100, "chains": 1, "samples": 1500, "thinning": 1, "warmup": 1000, "skip_inference": False,
           "rngkey": 1, "save_plots": True}

    def one(fn=U + "load_base_parser", DEF=DEF, INT=INT, FLT=FLT, STR=STR):
        other, tag = next(iter(STR)), "" if fn.startswith(U) else "[configuration parser] "

        def parser():
            it = c.interp()
            for nm in ("argparse.ArgumentParser", "ArgumentParser"):
                it.natives[nm] = lambda it, a, k: Parser()
            r = it.call(c.entity(it, fn), [], {})
            if not isinstance(r, Parser):
                raise Unsupported("not an argument parser")
            return it, r
        it, p = parser()
        where = c.loc(it, fn)

        def val(argv, dest):
            def f():
                d = p.parse(it, argv)
                if dest not in d:
                    raise PyRaise("AttributeError", f"no option {dest}", it.node)
                return d[dest]
            return force(f)
        tr = lambda v: tm.TRUE if v is True else tm.FALSE if v is False else v
        for k, v in DEF.items():
            c.equal(tag + f"default of {k}", tr(val([], k)), tr(v) if isinstance(v, bool) else num(v), where)
        for f, dst in INT.items():
            c.equal(tag + f"{f} 7", val([f, "7"], dst), num(7), where)
            c.equal(tag + f"{f} 23 among other options", val(["--skip-inference", f, "23", other, "x"], dst), num(23), where)
        for f, dst in FLT.items():
            c.equal(tag + f"{f} 2.5", val([f, "2.5"], dst), num(Fraction(5, 2)), where)
        for f, dst in STR.items():
            c.holds(tag + f"{f} text", val([f, "some/text"], dst) == "some/text", f"{val([f, 'some/text'], dst)!r:.80}", where)
        c.equal(tag + "--skip-inference", tr(val(["--skip-inference"], "skip_inference")), tm.TRUE, where)
        if p.opts.get("save_plots", {}).get("action") == "store":
            for s, w in (("False", tm.FALSE), ("True", tm.TRUE), ("false", tm.FALSE)):
                c.equal(tag + f"--save-plots {s}", tr(val(["--save-plots", s], "save_plots")), w, where)
    c.attempt("command line", one)
    own = lambda d, keep: {k: v for k, v in d.items() if k in keep}
    c.attempt("command line of the configuration parser", lambda: one(
        "gwinferno.pipeline.parser.load_base_parser", dict(mmin=3, mmax=100, chains=1, samples=1500, thinning=1, warmup=500, skip_inference=False),
        own(INT, ("--chains", "--samples", "--thinning", "--warmup")), FLT, {"--data-dir": "data_dir", "--inj-file": "inj_file", "--outdir": "outdir"}))


from fractions import Fraction
