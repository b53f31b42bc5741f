from fractions import Fraction

from .data import *

TITLE = ("The catalogue reader is interpreted over catalogues of symbolic sample tables with models of HDF5 files and labelled arrays: which samples survive the mass cut, which positions the common number of samples is drawn from, "
         "what every named column of every event holds, and the product of prior factors are compared with the reference; wrong or missing inputs have to raise.")
ASSUMPTIONS = ("xarray, h5py and numpy structured arrays follow their documentation", "values of the cosmology and spin-prior functions are decided by C10 and C11", "numpy.random.choice(replace=False) draws distinct positions",
               "arithmetic is real", "columns of one posterior table have one length")
D = "gwinferno.preprocess.data_collection."
S = "vspec.catalog."
NEW = ["mass_1_source", "mass_2_source", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
OLD = ["luminosity_distance_Mpc", "m1_detector_frame_Msun", "m2_detector_frame_Msun", "spin1", "spin2", "costilt1", "costilt2"]
PAR = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]


def table(ev, names, extra=()):
    n = pos(f"n_{ev}", integer=True)
    return {k: column(f"{ev}.{k}", n, pos=not k.startswith(("cos", "chi"))) for k in list(names) + list(extra)}


def catalogue(spec):
    """spec: event -> (catalog, redshift prior)"""
    files, meta, cols = {}, {}, {}
    for ev, (cat, zp) in spec.items():
        t = cols[ev] = table(ev, OLD if cat == "GWTC-1" else NEW, ("chi_p", "luminosity_distance"))
        g = dm.Table(t) if cat == "GWTC-1" else dm.Group({"posterior_samples": dm.Table(t), "prior_samples": dm.Table(table(ev + "-prior", NEW))})
        files["file " + ev] = dm.Group({"wf " + ev: g, "other waveform": dm.Group({"posterior_samples": dm.Table(table(ev + "-other", NEW))})})
        meta[ev] = DictV({"file_path": "file " + ev, "waveform": "wf " + ev, "redshift_prior": zp, "catalog": cat})
    return files, DictV(meta), cols


def mask_sym(ev):
    return tm.batom(tm._mk_atom("sym", (f"kept {ev}",), scalar=False, nd=1))


class Norm:
    """replace the random draw and the selection of one event by names, after deciding what they are"""

    def __init__(self, c, it, lab, cols, mmax, where):
        self.c, self.it, self.lab, self.cols, self.where = c, it, lab, cols, where
        self.draws, self.masks, self.mmax = {}, {}, mmax
        self.owner = {as_atom(x): ev for ev, t in cols.items() for x in t.values()}

    def events_of(self, x):
        return {self.owner[a] for a in ops.all_atoms(x) if a in self.owner}

    def __call__(self, x):
        if not isinstance(x, P):
            return x
        for a in ops.all_atoms(x):
            if a.op == "index" and len(a.args[1]) == 1:
                i = a.args[1][0]
                evs = self.events_of(a.args[0])
                if len(evs) != 1:
                    continue
                ev = next(iter(evs))
                if isinstance(i, C):
                    self.masks.setdefault(ev, [])
                    if not any(i is y for y in self.masks[ev]):
                        self.masks[ev].append(i)
                elif isinstance(i, P) and nd_of(i) == 1 and as_atom(i) is not None:
                    self.draws.setdefault(ev, [])
                    if not any(as_atom(i) is y for y in self.draws[ev]):
                        self.draws[ev].append(as_atom(i))
        mp = {a: arr(f"draw {ev}", 1, integer=True) for ev, ds in self.draws.items() for a in ds}
        own = {m: ev for ev, ms in self.masks.items() for m in ms}

        def fa(t):
            if t.op == "index" and len(t.args[1]) == 1 and isinstance(t.args[1][0], C) and t.args[1][0] in own:
                return index(t.args[0], (mask_sym(own[t.args[1][0]]),))
            return None
        return no_ones(ops.subst_atoms(ops.Rewriter(fa=fa).P(x), mp))

    def sizes(self):
        """number of samples kept of every event"""
        out = {}
        for ev, t in self.cols.items():
            m = self.masks.get(ev)
            out[ev] = ops.rsum(m[0]) if m else ops.dim(next(iter(t.values())), 0)
        return out

    def finish(self, cut):
        """the selection and the draw themselves"""
        c, it = self.c, self.it
        mx = num(10000)
        sz = self.sizes()
        for ev in sz:
            mx = it.ext.call(it, "min", [sz[ev], mx], {})
        seen = []
        for ev, t in self.cols.items():
            if ev in cut:
                m = t["mass_1_source"]
                ms = self.masks.get(ev, [])
                for k in ms or [tm.TRUE]:
                    ok = same_cut(it, k, m, self.mmax)
                    c.record(f"{self.lab}: samples kept of {ev} are those up to the maximum mass", ok[0], ok[1], self.where)
            ds = self.draws.get(ev, [])
            if len(ds) != 1:
                c.record(f"{self.lab}: one draw selects all parameters of {ev}", UNDECIDED if not ds else REFUTED, f"{len(ds)} index arrays", self.where)
                continue
            d = ds[0]
            if d.op != "nprand:choice" or len(d.args) != 5:
                c.record(f"{self.lab}: samples of {ev} are drawn", UNDECIDED, f"index array {d.op}", self.where)
                continue
            _, pool, n, rep, p = d.args
            c.holds(f"{self.lab}: samples of {ev} are drawn without repetition and unweighted", rep is False and p is None, f"replace={show(rep)} p={show(p)}", self.where)
            full = pool if isinstance(pool, P) else None
            want = it.ext.call(it, "np.arange", [sz[ev]], {})
            c.holds(f"{self.lab}: samples of {ev} are drawn from all kept samples", full is want or full is sz[ev], show(pool), self.where)
            c.equal(f"{self.lab}: number of samples of {ev} is the common number available, at most 10000", n, mx, self.where)
            c.holds(f"{self.lab}: {ev} has a draw of its own", d not in seen, "shared draw", self.where)
            seen.append(d)


def show(x):
    return tm.show_any(x, 4)[:200]


def same_cut(it, k, m, mmax):
    """the kept samples are m < mmax or m <= mmax, possibly only when some sample is above"""
    kk = ind(k)
    mp = [a for a in ops.all_atoms(kk) if a.op in ("rsum", "any", "rmax") and as_atom(m) in ops.all_atoms(a.args)]
    verdicts = []
    for above in (True, False):
        sub_ = {}
        for a in mp:
            body = a.args[0]
            cnd = ind(body) if isinstance(body, C) else body
            if a.op in ("rsum", "any"):
                # counts the samples above the maximum
                if cnd is ind(tm.gt(m, mmax)) or cnd is ind(tm.ge(m, mmax)):
                    sub_[a] = ONE if above else ZERO
            elif a.op == "rmax" and body is m:
                sub_[a] = mul(num(2), mmax) if above else mmax
        v = ops.subst_atoms(kk, sub_) if sub_ else kk
        if any(a.op in ("rsum", "any", "rmax") for a in ops.all_atoms(v)):
            gate = tm.gt(it.ext.call(it, "np.sum", [tm.gt(m, mmax)], {}), ZERO)
            refs = [ind(tm.lt(m, mmax)), ind(tm.le(m, mmax)), ind(tm.cor(tm.cnot(gate), tm.lt(m, mmax)))]
            st = [eq.compare(kk, r).status for r in refs]
            st = PROVED if PROVED in st else REFUTED if all(x == REFUTED for x in st) else UNDECIDED
            return st, "selection " + show(k)
        mcond = ind(tm.lt(m, mmax)), ind(tm.le(m, mmax))
        if above:
            r = [eq.compare(v, w).status for w in mcond]
        else:
            # no sample above: everything at or below is kept
            ok = tm.le(m, mmax)
            z = tm.where(ok, v, ONE)
            r = [eq.compare(z, w).status for w in (ONE, tm.where(ok, mcond[0], ONE))]
        verdicts.append(PROVED if PROVED in r else REFUTED if all(x == REFUTED for x in r) else UNDECIDED)
    if all(v == PROVED for v in verdicts):
        return PROVED, "selection by mass_1 against the maximum"
    return (REFUTED, "another selection: " + show(k)) if REFUTED in verdicts else (UNDECIDED, show(k))


def wanted(it, spec, cols):
    """reference cells of every event"""
    out = {}
    for ev, (cat, zp) in spec.items():
        t = cols[ev]
        i = arr(f"draw {ev}", 1, integer=True)
        if cat == "GWTC-1":
            g = lambda k: index(t[k], (i,))
            z = dl2z(g(OLD[0]))
            w = {"redshift": z, "mass_1": div(g(OLD[1]), add(ONE, z)), "mass_2": div(g(OLD[2]), add(ONE, z)), "mass_ratio": div(div(g(OLD[2]), add(ONE, z)), div(g(OLD[1]), add(ONE, z))),
                 "a_1": g("spin1"), "a_2": g("spin2"), "cos_tilt_1": g("costilt1"), "cos_tilt_2": g("costilt2")}
        else:
            w = {p: index(index(t[k], (mask_sym(ev),)), (i,)) for p, k in zip(PAR, NEW)}
        out[ev] = w
    return out


SPEC = {"GW1": ("GWTC-2", "euclidean"), "GW2": ("GWTC-1", "comoving"), "GW3": ("GWTC-3", "comoving"), "GW4": ("GWTC-1", "euclidean")}
DOM = {}


class TextFile(dm.ModelV):
    def __init__(self, path):
        self.path = path

    def m_getattr(self, it, name):
        if name in ("close", "flush"):
            return dm.nat(lambda it: None, name)
        if name == "read":
            return dm.nat(lambda it: self, name)
        raise Unsupported("file." + name)

    def m_enter(self, it):
        return self


def decoded(it, v, kw):
    """json.load of a file that holds v, with the hooks for objects"""
    if set(kw) - {"object_hook", "object_pairs_hook", "parse_float", "parse_int", "cls"} or kw.get("cls") is not None:
        raise Unsupported("json.load options")
    if isinstance(v, ListV):
        return ListV([decoded(it, x, kw) for x in v.items])
    if not isinstance(v, DictV):
        return v
    d = {k: decoded(it, x, kw) for k, x in v.d.items()}
    if kw.get("object_pairs_hook") is not None:
        return it.call(kw["object_pairs_hook"], [ListV(list(d.items()))], {})
    return it.call(kw["object_hook"], [DictV(d)], {}) if kw.get("object_hook") is not None else DictV(d)


def check(c):
    def run(pn, spec, kw, mmax, keyfile=False):
        files, meta, cols = catalogue(spec)
        it = load_interp(c, files)
        w = c.loc(it, D + "load_posterior_dataset")
        lab = f"[{', '.join(pn)}; {len(spec)} events{'' if 'maximum_mass' in kw else '; default maximum'}{'; from a key file' if keyfile else ''}]"
        source = {"catalog_metadata": meta}
        if keyfile:
            source, read = {"key_file": "keys/catalog.json"}, []
            it.natives["open"] = lambda it, a, k: TextFile(a[0])
            for nm in ("json.load", "json.loads"):
                it.natives[nm] = lambda it, a, k: read.append(a[0].path if isinstance(a[0], TextFile) else None) or decoded(it, meta, k)
        got = force(lambda: it.call(c.entity(it, D + "load_posterior_dataset"), [], {**source, **{k: v for k, v in kw.items() if v is not None}, **({} if "param_names" in kw else {"param_names": ListV(list(pn))})}))
        if keyfile and isinstance(got, dm.DS):
            c.holds(f"the key file given is the one read {lab}", read == ["keys/catalog.json"], str(read), w)
        if not isinstance(got, dm.DS):
            st = REFUTED if isinstance(got, Raised) else UNDECIDED
            return c.record(f"catalogue is read {lab}", st, f"{got!r} {getattr(got, 'msg', '')}"[:300], w)
        c.holds(f"the dataset holds the posterior samples {lab}", list(got.vars) == ["posteriors"], str(list(got.vars)), w)
        da = got.vars.get("posteriors")
        if da is None:
            return
        c.holds(f"dimensions are event, parameter, sample {lab}", da.dims == ["event", "param", "samples"], str(da.dims), w)
        c.holds(f"events keep their names {lab}", da.labels("event") == list(spec), str(da.labels("event")), w)
        have = da.labels("param") or []
        c.holds(f"parameters are the requested ones and the prior, each once {lab}", sorted(have) == sorted(list(pn) + ["prior"]), str(have), w)
        norm = Norm(c, it, lab, cols, mmax, w)
        cells = {ev: {p: norm(da.at(ev, p)) for p in have} for ev in spec}
        # names of the draws are known once every cell was seen
        cells = {ev: {p: norm(da.at(ev, p)) for p in have} for ev in spec}
        norm.finish({ev for ev, (cat, _) in spec.items() if cat != "GWTC-1"})
        want = wanted(it, spec, cols)
        # one symbol per column of kept samples
        names, nn = {}, pos("n_samples", integer=True)
        for ev in spec:
            for x in want[ev].values():
                for a in ops.all_atoms(x):
                    if a.op == "cosmo:1+DL2z" or a.op == "index" and any(isinstance(i, P) for i in a.args[1]):
                        names.setdefault(a, column(f"{ev} {tm.show(a, 6)}", nn, pos=tm.is_pos(atomP(a))))
        inner = {b for a in names if a.op == "cosmo:1+DL2z" for b in names if b is not a and b in ops.all_atoms(a.args)}
        names = {a: v for a, v in names.items() if a not in inner}
        brief = lambda x: ops.subst_atoms(x, names) if isinstance(x, P) else x
        cells = {ev: {p: brief(v) for p, v in d.items()} for ev, d in cells.items()}
        want = {ev: {p: brief(v) for p, v in d.items()} for ev, d in want.items()}
        zall = ListV([want[ev]["redshift"] for ev in spec])
        top = it.call(c.entity(it, S + "largest"), [zall], {})
        # upper end of the redshift grid
        grids = {a for ev in spec for a in ops.all_atoms(cells[ev].get("prior")) if a.op == "linspace" and isinstance(a.args[1], P) and any(b.op == "rmax" for b in ops.all_atoms(a.args[1]))}
        if grids and all(eq.compare(a.args[1], mul(num(Fraction(101, 100)), top)).status == PROVED for a in grids):
            T = pos("top")
            cells = {ev: {p: ops.subst_atoms(v, {a: (tm.op("linspace", (a.args[0], mul(num(Fraction(101, 100)), T), a.args[2]), nd=1)) for a in grids}) if isinstance(v, P) else v for p, v in d.items()} for ev, d in cells.items()}
            top = T
        for ev, (cat, zp) in spec.items():
            wv = want[ev]
            for p in pn:
                if p in wv and p in have:
                    c.equal(f"{p} of {ev} ({cat}) {lab}", cells[ev][p], wv[p], w)
            base = force(lambda: it.call(c.entity(it, S + "prior"), [zp, wv["redshift"], wv["mass_1"], top, ListV(list(pn))], {}))
            base = no_ones(base)
            if "chi_eff" not in pn:
                c.equal(f"prior of {ev} ({zp}) {lab}", cells[ev].get("prior"), base, w)
                continue
            a = [wv[k] for k in ("mass_ratio", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2")]
            ce = it.call(c.entity(it, "vspec.spins.chi_eff"), a, {})
            cp = it.call(c.entity(it, "vspec.spins.chi_p"), a, {})
            c.equal(f"chi_eff of {ev} {lab}", cells[ev].get("chi_eff"), ce, w)
            ce = cells[ev].get("chi_eff", ce)
            if "chi_p" in pn:
                c.equal(f"chi_p of {ev} {lab}", cells[ev].get("chi_p"), cp, w)
                new = pw("iso_joint", cells[ev].get("chi_p", cp), ce, a[0], ONE)
            else:
                new = pw("iso_chieff", ce, a[0], ONE)
            tp = lambda x: mul(num(2), mul(tm.PI_P, tm.power(x, num(2))))
            c.equal(f"prior of {ev} ({zp}) {lab}", cells[ev].get("prior"), mul(base, new), w,
                    alts=[("spin-prior-measure", mul(mul(base, new), inv(mul(tp(wv["a_1"]), tp(wv["a_2"])))))])

    mm = {"maximum_mass": pos("mmax")}
    runs = [(["mass_1", "mass_ratio", "redshift"], SPEC, mm, pos("mmax")),
            (PAR, SPEC, mm, pos("mmax")),
            (["redshift", "mass_2", "mass_1"], SPEC, mm, pos("mmax")),
            (["redshift"], {"GW3": ("GWTC-2.1", "comoving")}, {}, num(100)),
            (["mass_1", "mass_2"], {"GW1": ("GWTC-2", "euclidean"), "GW2": ("GWTC-1", "euclidean")}, {}, num(100)),
            (["mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"], SPEC, mm, pos("mmax")),
            (["mass_1", "mass_ratio", "redshift", "chi_eff"], SPEC, mm, pos("mmax")),
            (["mass_1", "mass_2", "redshift", "chi_eff"], {"GW2": ("GWTC-1", "comoving"), "GW1": ("GWTC-3", "euclidean")}, mm, pos("mmax")),
            (["mass_1", "mass_ratio", "redshift", "chi_eff", "chi_p"], {"GW2": ("GWTC-1", "comoving"), "GW1": ("GWTC-3", "euclidean")}, mm, pos("mmax"))]
    for pn, spec, kw, mx in runs:
        c.attempt(f"catalogue {pn}", lambda: run(pn, spec, kw, mx))

    def default():
        run(["mass_1", "mass_ratio", "redshift"], {"GW1": ("GWTC-3", "euclidean")}, {"param_names": None}, num(100))

    def densities():
        for nd in (0, 1, 2):
            it = load_interp(c, {})
            z = ssym("z", pos=True) if nd == 0 else arr("z", nd, pos=True)
            for eu, kind in ((True, "euclidean"), (False, "comoving"), (None, "comoving")):
                kw = {} if eu is None else {"euclidean": eu}
                both(c, it, f"redshift density [{kind}, {nd}-D{', default' if eu is None else ''}]", D + "dl_2_prior_on_z", S + "p_z", [z], kw, [z, kind], {})
    c.attempt("default parameters", default)
    c.attempt("catalogue named by a key file", lambda: run(["mass_1", "redshift"], {"GW2": ("GWTC-3", "euclidean"), "GW1": ("GWTC-1", "comoving")}, mm, pos("mmax"), True))
    c.attempt("redshift densities", densities)

    def errors():
        f = D + "load_posterior_dataset"
        for bad in ("Euclidean", "uniform", ""):
            files, meta, cols = catalogue({"GW1": ("GWTC-3", "comoving"), "GW2": ("GWTC-1", bad)})
            it = load_interp(c, files)
            c.equal(f"a redshift prior named {bad!r} is refused", lambda: it.call(c.entity(it, f), [], {"catalog_metadata": meta, "param_names": ListV(["mass_1", "redshift"])}), Raised("AssertionError"), c.loc(it, f))
        it = load_interp(c, {})
        c.equal("a call naming neither metadata nor key file is refused", lambda: it.call(c.entity(it, f), [], {}), Raised("AssertionError"), c.loc(it, f))
    c.attempt("refused inputs", errors)
