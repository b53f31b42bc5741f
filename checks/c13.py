from .data import *

TITLE = ("The injection readers are interpreted over symbolic injection files with models of HDF5 files and labelled arrays: the set of found injections, every column, the draw density with its Jacobians, the number drawn and the analysis time are compared with the reference "
         "for every combination of optional columns and requested parameters listed in the obligations; resampling is compared with the reference expression.")
ASSUMPTIONS = ("xarray, h5py and numpy structured arrays follow their documentation", "values of the spin-prior functions are decided by C11", "arithmetic is real", "columns of one injection file have one length")
D = "gwinferno.preprocess.data_collection."
L = "gwinferno.preprocess.selection."
S = "vspec.injections."
SPINS = [f"spin{i}{x}" for i in (1, 2) for x in "xyz"]
BASE = ["mass1_source", "mass2_source", "redshift"]
DRAW4 = "lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"
SNR4 = "semianalytic_observed_phase_maximized_snr_net"
PLAIN = ["mass_1", "mass_2", "mass_ratio", "redshift"]
COMP = PLAIN + ["a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
TIMES = ("analysis_time", "total_analysis_time", "analysis_time_s")


def cols_of(tag, names):
    n = pos(f"n_{tag}", integer=True)
    return {k: column(f"{tag}.{k}", n, pos=not k.startswith(("spin", "lnp", "name"))) for k in names}


def o3_file(tag, ifars, name, inplane, time):
    spins = SPINS if inplane else ["spin1z", "spin2z"]
    t = cols_of(tag, BASE + ["sampling_pdf", "mass1", "optimal_snr_net", "end_time"] + ifars + spins + (["name"] if name else []))
    g = dm.Group({k: dm.Col(v) for k, v in t.items()}, {"total_generated": pos("N_total", integer=True), "n_accepted": pos("N_acc", integer=True)})
    return t, {"inj": dm.Group({"injections": g, "other": dm.Group({})}, {time: pos("T_s"), "start": pos("t0")} if time else {"start": pos("t0")})}


def o4_file(tag, fars, time):
    t = cols_of(tag, BASE + [DRAW4, SNR4, "weights", "chirp_mass"] + fars + SPINS)
    return t, {"inj": dm.Group({"events": dm.Table(t)}, {"total_generated": pos("N_total", integer=True), **({time: pos("T_s")} if time else {})})}


def masks(x):
    return [a.args[1][0] for a in ops.all_atoms(x) if a.op == "index" and len(a.args[1]) == 1 and isinstance(a.args[1][0], C)]


FOUND = tm.batom(tm._mk_atom("sym", ("found",), scalar=False, nd=1))


def check(c):
    def cells(da, lab, w, mask):
        """cells with the selection replaced by its name once it is shown to be the reference selection"""
        ms = []
        for p in da.labels("param"):
            for m in masks(da.at(p)):
                if not any(m is x for x in ms):
                    ms.append(m)
        ok = []
        if not ms:
            c.record(f"found injections {lab}", UNDECIDED, "no selection", w)
        for m in ms:
            o = c.equal(f"found injections {lab}", ind(m), ind(mask), w)
            if o["status"] == PROVED:
                ok.append(m)

        def fa(t):
            if t.op == "index" and len(t.args[1]) == 1 and any(t.args[1][0] is m for m in ok):
                return index(t.args[0], (FOUND,))
            return None
        return {p: no_ones(ops.Rewriter(fa=fa).P(da.at(p))) for p in da.labels("param")}

    def compare(it, da, lab, w, mask, t, pn, base, keep, attrs):
        have = da.labels("param") or []
        c.holds(f"dimensions are parameter, injection {lab}", da.dims == ["param", "injection"], str(da.dims), w)
        if keep is not None:
            c.holds(f"parameters are the requested ones and the prior, each once {lab}", sorted(have) == sorted(keep), str(have), w)
        got = cells(da, lab, w, mask)
        f = lambda k: index(t[k], (FOUND,)) if k in t else ZERO
        m1, m2 = f(BASE[0]), f(BASE[1])
        a = [it.call(c.entity(it, S + "magnitude"), [f(f"spin{i}{x}") for x in "xyz"], {}) for i in (1, 2)]
        ct = [div(f(f"spin{i}z"), a[i - 1]) for i in (1, 2)]
        q = div(m2, m1)
        want = {"mass_1": m1, "mass_2": m2, "mass_ratio": q, "redshift": f("redshift"), "a_1": a[0], "a_2": a[1], "cos_tilt_1": ct[0], "cos_tilt_2": ct[1]}
        for p in have:
            if p in want:
                c.equal(f"{p} {lab}", got[p], want[p], w)
        p0 = it.call(c.entity(it, S + "draw_density"), [base(f), m1, a[0], a[1], ListV(list(pn))], {})
        if "chi_eff" in have:
            s = [q, a[0], a[1], ct[0], ct[1]]
            c.equal(f"chi_eff {lab}", got["chi_eff"], it.call(c.entity(it, "vspec.spins.chi_eff"), s, {}), w)
            if "chi_p" in have:
                c.equal(f"chi_p {lab}", got["chi_p"], it.call(c.entity(it, "vspec.spins.chi_p"), s, {}), w)
                new = pw("iso_joint", got["chi_p"], got["chi_eff"], q, ONE)
            else:
                new = pw("iso_chieff", got["chi_eff"], q, ONE)
            tp = lambda x: mul(num(2), mul(tm.PI_P, tm.power(x, num(2))))
            c.equal(f"draw density {lab}", got["prior"], mul(mul(num(4), p0), new), w, alts=[("spin-prior-measure", mul(mul(p0, new), inv(mul(tp(a[0]), tp(a[1])))))])
        else:
            c.equal(f"draw density {lab}", got.get("prior"), p0, w)
        at = attrs.d if isinstance(attrs, DictV) else {}
        c.equal(f"number of injections drawn {lab}", at.get("total_generated"), pos("N_total", integer=True), w)
        c.equal(f"analysis time in years {lab}", at.get("analysis_time"), it.call(c.entity(it, S + "years"), [pos("T_s")], {}), w)

    def o3(pn, ifars, name, inplane, time, cuts, thr, via=None):
        t, files = o3_file("o3", ifars, name, inplane, time)
        it = load_interp(c, files)
        fn = D + "load_injection_dataset" if via else L + "get_o3_cumulative_injection_dict"
        w = c.loc(it, fn)
        lab = f"[O3; {', '.join(pn)}; {len(ifars)} searches{'; early runs' if name else ''}{'' if inplane else '; no in-plane spins'}{'; cuts' if cuts else ''}{'; thresholds' if thr else ''}; {time}{'; dataset' if via else ''}]"
        th = (pos("ifar_min"), pos("snr_min")) if thr else (num(1), num(10))
        kw = dict(zip(("ifar_threshold", "snr_threshold") if via else ("ifar", "snr"), th)) if thr else {}
        if cuts:
            kw["additional_cuts"] = DictV({"optimal_snr_net": pos("cut_rho"), "end_time": pos("cut_t")})
        if via == "explicit":
            kw["through_o3"] = True
        got = force(lambda: it.call(c.entity(it, fn), ["inj", ListV(list(pn))], kw))
        got, attrs = unwrap(got, lab, w, via)
        if got is None:
            return
        mask = it.call(c.entity(it, S + "o3_found"), [ListV([t[k] for k in ifars]), th[0], t.get("name"), t["optimal_snr_net"], th[1],
                                                     ListV([(t["optimal_snr_net"], pos("cut_rho")), (t["end_time"], pos("cut_t"))] if cuts else [])], {})
        keep = list(pn) + ["prior"] if via else None
        compare(it, got, lab, w, mask, t, pn, lambda f: f("sampling_pdf"), keep, attrs)
        if not via:
            need = set(PLAIN + ["prior"]) | (set(COMP) if "a_1" in pn or "chi_eff" in pn else set())
            c.holds(f"columns are complete {lab}", need == set(got.labels("param")) and len(need) == len(got.labels("param")), str(got.labels("param")), w)

    def unwrap(got, lab, w, via):
        if via:
            if not isinstance(got, dm.DS):
                c.record(f"injections are read {lab}", REFUTED if isinstance(got, Raised) else UNDECIDED, f"{got!r} {getattr(got, 'msg', '')}"[:300], w)
                return None, None
            c.holds(f"the dataset holds the injections {lab}", list(got.vars) == ["injections"], str(list(got.vars)), w)
            return got.vars.get("injections"), got.attrs
        if not isinstance(got, dm.DA):
            c.record(f"injections are read {lab}", REFUTED if isinstance(got, Raised) else UNDECIDED, f"{got!r} {getattr(got, 'msg', '')}"[:300], w)
            return None, None
        return got, got.attrs

    def o4(pn, fars, time, thr, via=None):
        t, files = o4_file("o4", fars, time)
        it = load_interp(c, files)
        fn = D + "load_injection_dataset" if via else L + "get_o4a_cumulative_injection_dict"
        w = c.loc(it, fn)
        lab = f"[O4a; {', '.join(pn)}; {len(fars)} searches{'; thresholds' if thr else ''}; {time}{'; dataset' if via else ''}]"
        th = (pos("ifar_min"), pos("snr_min")) if thr else (num(1), num(10))
        kw = dict(zip(("ifar_threshold", "snr_threshold") if via else ("ifar", "snr"), th)) if thr else {}
        if via:
            kw["through_o4a"] = True
        got = force(lambda: it.call(c.entity(it, fn), ["inj", ListV(list(pn))], kw))
        got, attrs = unwrap(got, lab, w, via)
        if got is None:
            return
        mask = it.call(c.entity(it, S + "o4a_found"), [t[SNR4], th[1], ListV([t[k] for k in fars]), th[0]], {})
        compare(it, got, lab, w, mask, t, pn, lambda f: div(ops.exp(f(DRAW4)), f("weights")), list(pn) + ["prior"] if via else None, attrs)
        if not via:
            need = set(PLAIN + ["prior"]) | (set(COMP) if "a_1" in pn or "chi_eff" in pn else set())
            c.holds(f"columns are complete {lab}", need == set(got.labels("param")) and len(need) == len(got.labels("param")), str(got.labels("param")), w)

    I1, I3 = ["ifar_gstlal"], ["ifar_gstlal", "pycbc_bbh_IFAR", "ifar_mbta"]
    F1, F3 = ["gstlal_far"], ["gstlal_far", "far_pycbc", "mbta_far"]
    for pn in (["mass_1", "mass_ratio", "redshift"], ["mass_1", "mass_2", "redshift"], COMP, ["mass_1", "mass_2", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"], ["redshift"], ["mass_ratio", "chi_eff"]):
        c.attempt(f"O3 {pn}", lambda: o3(pn, I3, True, True, TIMES[0], False, True))
        c.attempt(f"O4a {pn}", lambda: o4(pn, F3, TIMES[0], True))
    for i, tk in enumerate(TIMES):
        c.attempt(f"O3 {tk}", lambda: o3(["mass_1", "mass_ratio", "redshift", "a_1"], I1 if i else I3, i == 1, i != 1, tk, i != 0, i != 2))
        c.attempt(f"O4a {tk}", lambda: o4(["mass_1", "mass_ratio", "redshift", "a_1"], F1 if i else F3, tk, i != 2))
    for pn in (["mass_1", "mass_ratio", "redshift"], ["redshift", "mass_2", "mass_1"], COMP, ["mass_1", "mass_ratio", "redshift", "chi_eff"], ["mass_1", "mass_2", "redshift", "chi_eff"], ["mass_1", "mass_ratio", "redshift", "chi_eff", "chi_p"]):
        c.attempt(f"O3 dataset {pn}", lambda: o3(pn, I3, True, True, TIMES[1], True, True, "default"))
        c.attempt(f"O4a dataset {pn}", lambda: o4(pn, F3, TIMES[1], True, "default"))
    c.attempt("O3 dataset explicit", lambda: o3(PLAIN, I1, False, True, TIMES[2], False, False, "explicit"))
    c.attempt("O4a dataset defaults", lambda: o4(PLAIN, F1, TIMES[2], False, "explicit"))

    def errors():
        for fn, mk, a in ((L + "get_o3_cumulative_injection_dict", lambda: o3_file("o3", I3, True, True, None), {}), (L + "get_o4a_cumulative_injection_dict", lambda: o4_file("o4", F3, None), {}),
                          (D + "load_injection_dataset", lambda: o3_file("o3", I3, True, True, None), {}), (D + "load_injection_dataset", lambda: o4_file("o4", F3, None), {"through_o4a": True})):
            t, files = mk()
            it = load_interp(c, files)
            c.equal(f"a file without analysis time is refused [{fn.rsplit('.')[-1]} {'O4a' if a else ''}]", lambda: it.call(c.entity(it, fn), ["inj", ListV(["mass_1", "redshift"])], a), Raised("*"), c.loc(it, fn))
        t, files = o3_file("o3", I3, True, True, TIMES[0])
        it = load_interp(c, files)
        fn = D + "load_injection_dataset"
        c.equal("a call naming neither observing run is refused", lambda: it.call(c.entity(it, fn), ["inj", ListV(["mass_1"])], {"through_o3": False}), Raised("AssertionError"), c.loc(it, fn))
    c.attempt("refused inputs", errors)

    def resample():
        for row in (0, 2):
            it = c.interp()
            data = arr("injdata", 2, pos=True)
            key = sym("key")
            model = NatV(lambda it, a, k: tm.op("model", (freeze(a[0]), tuple(sorted((x, freeze(y)) for x, y in k.items()))), nd=1, pos=True), "model")
            fn = L + "resample_injections"
            w = c.loc(it, fn)
            extra = {"alpha": ssym("alpha")}
            model2 = NatV(lambda it, a, k: model.fn(it, a, extra), "model")
            pm = DictV({"redshift": num(1), "prior": num(row)})
            got = force(lambda: it.call(c.entity(it, fn), [key, model, data, pos("Ndraw"), pm], dict(extra)))
            want = it.call(c.entity(it, S + "resample"), [key, model2, data, num(row), pos("Ndraw")], {})
            if isinstance(got, tuple) and len(got) == 3:
                for n, g, x in zip(("resampled injections", "number of resampled injections", "effective number"), got, want):
                    c.equal(f"{n} [prior in row {row}]", g, x, w)
            else:
                c.record(f"resampling [prior in row {row}]", UNDECIDED, repr(got)[:200], w)
    c.attempt("resampling", resample)
