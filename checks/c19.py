import os

from .common import *
from gwstat.interp import DictV, ListV, ModelV, NatV, const_int
from gwstat.terms import as_atom

TITLE = ("The plotting helpers are interpreted against a model of matplotlib's state machine (current figure and axes, artists, scales, limits, legend; showing a figure hands it to the viewer and discards it): the artists in every "
         "figure, the statistic each one draws, and the content of every file at the moment it is written are compared with what the arguments ask for.")
ASSUMPTIONS = ("matplotlib draws the artists it is given; show() hands the current figures to the viewer and they are gone afterwards, as with its interactive back ends",)
PL = "gwinferno.postprocess.plot."
COSMETIC = {"xlabel", "ylabel", "title", "suptitle", "grid", "tight_layout", "xticks", "yticks", "tick_params", "minorticks_on", "set_xlabel", "set_ylabel", "set_title", "ion", "ioff", "rc", "subplots_adjust", "set_facecolor", "margins",
            "set_xticks", "set_yticks", "pause", "draw", "set_size_inches", "set_tight_layout", "ylim", "set_ylim", "style.use", "text", "annotate", "rcParams.update", "canvas.draw", "minorticks_off", "set_constrained_layout"}
SETTERS = {"set_xlim": "xlim", "set_xscale": "xscale", "set_yscale": "yscale"}
SCALES = {"plot": (None, None), "loglog": ("log", "log"), "semilogx": ("log", None), "semilogy": (None, "log")}
DIR = "some/dir"


class AxV(ModelV):
    def __init__(self, world):
        self.w, self.lines, self.bands, self.other = world, [], [], []
        self.scale, self.lims, self.legend = {"x": "linear", "y": "linear"}, {}, None

    def m_getattr(self, it, name):
        if name in ("figure",):
            return next(f for f in self.w.figs if self in f.axes)
        if name == "get_figure":
            return NatV(lambda it, a, k: next(f for f in self.w.figs if self in f.axes), name)
        return NatV(lambda it, a, k: self.do(it, name, a, k), name)

    def do(self, it, name, a, k):
        name = SETTERS.get(name, name)
        self.w.sure(it)
        if name in SCALES:
            if not a or len(a) > 3:
                raise Unsupported("several lines in one call")
            x, y = (a[0], a[1]) if len(a) > 1 else (None, a[0])
            self.lines.append(dict(x=x, y=y, fmt=a[2] if len(a) > 2 else None, color=k.get("color", k.get("c")), label=k.get("label"), alpha=k.get("alpha"), ls=k.get("ls", k.get("linestyle", "-")), lw=k.get("lw", k.get("linewidth", num(1)))))
            for s, v in zip("xy", SCALES[name]):
                if v:
                    self.scale[s] = v
            return ListV([Artist()])
        if name == "fill_between":
            b = dict(zip(("x", "y1", "y2", "where"), a))
            b.update(k)
            self.bands.append(dict(x=b.get("x"), low=b.get("y1"), high=b.get("y2", ZERO), where=b.get("where"), color=b.get("color", b.get("facecolor", b.get("fc"))), label=b.get("label"), alpha=b.get("alpha")))
            return Artist()
        if name in ("xscale", "yscale"):
            v = a[0] if a else k.get("value")
            if not isinstance(v, str):
                raise Unsupported("scale")
            self.scale[name[0]] = v
            return None
        if name == "xlim":
            xs = list(it.unpack(a[0], 2)) if len(a) == 1 and not isinstance(a[0], P) else list(a)
            lo = xs[0] if xs else k.get("left", k.get("xmin"))
            hi = xs[1] if len(xs) > 1 else k.get("right", k.get("xmax"))
            if lo is not None:
                self.lims["left"] = lo
            if hi is not None:
                self.lims["right"] = hi
            return None
        if name == "set":
            for kk, v in k.items():
                if kk in ("xscale", "yscale", "xlim"):
                    self.do(it, kk, [v], {})
                elif kk not in ("xlabel", "ylabel", "title", "ylim"):
                    raise Unsupported("set " + kk)
            return None
        if name == "legend":
            if a or set(k) & {"handles", "labels"}:
                raise Unsupported("explicit legend")
            self.legend = len(self.lines)
            return Artist()
        if name in COSMETIC:
            return None
        raise Unsupported("matplotlib " + name)

    def content(self):
        return dict(lines=[dict(x) for x in self.lines], bands=[dict(x) for x in self.bands], scale=dict(self.scale), lims=dict(self.lims), legend=self.legend)


class Artist(ModelV):
    def m_getattr(self, it, name):
        raise Unsupported("change of an artist")


class FigV(ModelV):
    def __init__(self, world):
        self.w, self.axes = world, []

    def m_getattr(self, it, name):
        w = self.w
        if name in ("savefig", "show", "gca", "add_subplot", "subplots"):
            def go(it, a, k):
                w.sure(it)
                if name == "savefig":
                    return w.save(self, a, k)
                if name == "show":
                    return w.show(self)
                if name == "gca":
                    return w.axes_of(self)
                if any(isinstance(x, P) and const_int(x) != 1 for x in a):
                    raise Unsupported("several panels")
                self.axes.append(AxV(w))
                return self.axes[-1]
            return NatV(go, name)
        if name == "axes":
            return ListV(list(self.axes))
        if name in COSMETIC or name == "canvas":
            return NatV(lambda it, a, k: None, name)
        if name in ("clf", "clear"):
            def clf(it, a, k):
                self.axes = []
            return NatV(clf, name)
        raise Unsupported("figure." + name)


class World:
    """figures open in pyplot, files written and figures shown"""
    def __init__(self, it, keep=False):
        self.figs, self.current, self.files, self.shown = [], None, [], []
        self.keep, self.callers = keep, None    # keep: a back end without windows, where show() discards nothing; callers: a figure the caller has open
        w = self

        class Natives(dict):
            def get(self, name, default=None):
                for p in ("matplotlib.pyplot.", "pylab.", "matplotlib.pylab."):
                    if name.startswith(p):
                        n = name[len(p):]
                        return lambda it, a, k: w.pyplot(it, n, a, k)
                if name.startswith("matplotlib."):
                    if name in ("matplotlib.use", "matplotlib.style.use", "matplotlib.rc", "matplotlib.rcParams.update"):
                        return lambda it, a, k: None
                    raise Unsupported(name)
                return dict.get(self, name, default)
        it.natives = Natives(it.natives)
        nat = it.natives
        for nm in ("basename", "dirname", "abspath", "join", "normpath"):
            def pathfn(it, a, k, nm=nm):
                if not all(isinstance(x, str) for x in a):
                    raise Unsupported("path of unknown text")
                return getattr(os.path, nm)(*a)
            nat["os.path." + nm] = pathfn
        for nm in ("os.makedirs", "os.mkdir"):
            nat[nm] = lambda it, a, k: None
        nat["pathlib.Path"] = lambda it, a, k: PathV(os.path.join(*a)) if a and all(isinstance(x, str) for x in a) else PathV(a[0].p)
        nat["os.path.exists"] = nat["os.path.isdir"] = lambda it, a, k: True

        def stat(scale, qpos):
            def f(it, a, k):
                a, k = list(a), dict(k)
                x = a[0] if a else k.pop("a")
                if qpos:
                    q = a[1] if len(a) > 1 else k.pop("q")
                    axis = a[2] if len(a) > 2 else k.pop("axis", None)
                else:
                    q = None
                    axis = a[1] if len(a) > 1 else k.pop("axis", None)
                if k.pop("method", k.pop("interpolation", "linear")) != "linear" or k.pop("keepdims", False) is not False or len(a) > 3:
                    raise Unsupported("quantile options")
                k.pop("overwrite_input", None)
                k.pop("out", None)
                if k:
                    raise Unsupported("quantile options")
                x = it.ext.asarray(it, x)
                nd = ops.nd_of(x)
                j = const_int(axis) if isinstance(axis, P) else None
                if isinstance(axis, P) and j is None:
                    raise Unsupported("axis")
                if j is not None and j < 0:
                    j += nd
                one = lambda v: op("quantile", (x, div(v, num(scale)), j), nd=None if j is None else nd - 1) if j is not None else op("quantile", (x, div(v, num(scale)), None), nd=0, scalar=True)
                if q is None:
                    return one(div(num(1), num(2)))
                if isinstance(q, (ListV, tuple)):
                    return ListV([one(v) for v in it._li(q)])
                qa = as_atom(q)
                if qa is not None and qa.op == "arr":
                    return ListV([one(v) for v in qa.args[0]])
                return one(q)
            return f
        nat["np.median"] = stat(1, False)
        nat["np.percentile"] = stat(100, True)
        nat["np.quantile"] = stat(1, True)

    def sure(self, it):
        if it.guards:
            raise Unsupported("drawing under an undecided condition")

    def fig(self):
        if self.current is None:
            self.new()
        return self.current

    def new(self):
        self.current = FigV(self)
        self.figs.append(self.current)
        return self.current

    def axes_of(self, f):
        if not f.axes:
            f.axes.append(AxV(self))
        return f.axes[-1]

    def snapshot(self, f):
        return [a.content() for a in f.axes]

    def save(self, f, a, k):
        p = a[0] if a else k.get("fname")
        p = p.p if isinstance(p, PathV) else p
        if not isinstance(p, str):
            raise Unsupported("file name of unknown text")
        self.files.append((os.path.normpath(p), self.snapshot(f)))

    def drop(self, f):
        self.figs = [x for x in self.figs if x is not f]
        if self.current is f:
            self.current = self.figs[-1] if self.figs else None

    def show(self, only=None):
        for f in [only] if only is not None else list(self.figs):
            if f is not self.callers:
                self.shown.append(self.snapshot(f))
        if only is None and not self.keep:
            for f in list(self.figs):
                self.drop(f)

    def pyplot(self, it, name, a, k):
        self.sure(it)
        if name == "figure":
            if a and isinstance(a[0], (P, str)) or "num" in k:
                raise Unsupported("numbered figure")
            return self.new()
        if name == "subplots":
            if any(not (isinstance(x, P) and const_int(x) == 1) for x in list(a) + [k[x] for x in ("nrows", "ncols") if x in k]):
                raise Unsupported("several panels")
            f = self.new()
            return (f, self.axes_of(f))
        if name == "gcf":
            return self.fig()
        if name in ("gca", "axes") or name == "subplot" and all(const_int(x) in (1, 111) for x in a):
            return self.axes_of(self.fig())
        if name == "savefig":
            return self.save(self.fig(), a, k)
        if name == "show":
            return self.show()
        if name == "close":
            if a and a[0] == "all":
                self.figs, self.current = [], None
            elif a and isinstance(a[0], FigV):
                self.drop(a[0])
            elif a:
                raise Unsupported("close")
            elif self.current is not None:
                self.drop(self.current)
            return None
        if name in ("clf", "cla"):
            self.fig().axes = []
            return None
        return self.axes_of(self.fig()).do(it, name, a, k)


class PathV(ModelV):
    def __init__(self, p):
        self.p = p

    def m_freeze(self):
        return ("path", self.p)

    def m_binop(self, it, o, other, swap):
        import ast
        if (o in ("Div", ast.Div) or isinstance(o, ast.Div)) and not swap and isinstance(other, str):
            return PathV(os.path.join(self.p, other))
        raise Unsupported("path arithmetic")

    def m_getattr(self, it, name):
        if name == "joinpath":
            return NatV(lambda it, a, k: PathV(os.path.join(self.p, *a)), name)
        if name in ("mkdir",):
            return NatV(lambda it, a, k: None, name)
        if name in ("as_posix", "__str__"):
            return NatV(lambda it, a, k: self.p, name)
        raise Unsupported("path." + name)


def ok(o):
    return o["status"] == PROVED


def q(pdf, level):
    return op("quantile", (pdf, level, 0), nd=ops.nd_of(pdf) - 1)


def curve(x, pdf, label, color=None, alpha=None):
    return dict(x=x, med=q(pdf, div(num(1), num(2))), low=q(pdf, div(num(5), num(100))), high=q(pdf, div(num(95), num(100))), label=label, color=color, alpha=alpha)


def panel(c, pre, where, got, want, scale, lims, legend=True):
    """got: axes contents of one figure"""
    if not ok(c.holds(f"{pre}: one panel", len(got) == 1, f"{len(got)} panels with artists", where)):
        return
    g = got[0]
    c.holds(f"{pre}: one curve for each population", len(g["lines"]) == len(want), f"{len(g['lines'])} curves for {len(want)} populations", where)
    c.holds(f"{pre}: one band for each population", len(g["bands"]) == len(want), f"{len(g['bands'])} bands for {len(want)} populations", where)
    labels = [x["label"] for x in g["lines"] + g["bands"]]
    c.holds(f"{pre}: each name labels one artist", sorted(str(x) for x in labels if x is not None) == sorted(w["label"] for w in want), f"labels {labels}", where)
    for s in "xy":
        c.holds(f"{pre}: {s} axis is {scale[s]}", g["scale"][s] == scale[s], f"{s} axis is {g['scale'][s]}", where)
    for side, v in lims.items():
        if side in g["lims"]:
            c.equal(f"{pre}: {side} limit", g["lims"][side], v, where)
        else:
            c.holds(f"{pre}: {side} limit", True, "whole range of the data", where)
    if legend:
        c.holds(f"{pre}: legend names every curve", g["legend"] == len(want), "no legend" if g["legend"] is None else f"legend made after {g['legend']} of {len(want)} curves", where)
    cols = {}
    for w in want:
        ln = [x for x in g["lines"] if x["label"] == w["label"]] or [x for x in g["lines"] if x["label"] is None and any(b["label"] == w["label"] for b in g["bands"])]
        if not ok(c.holds(f"{pre}: {w['label']}: curve of that name", len(ln) == 1, f"{len(ln)} curves of that name", where)):
            continue
        ln = ln[0]
        c.equal(f"{pre}: {w['label']}: curve is the median over draws on its grid", (ln["x"], ln["y"]), (w["x"], w["med"]), where, known_ops={"quantile"})
        if w["color"] is not None:
            c.holds(f"{pre}: {w['label']}: colour of the curve", ln["color"] == w["color"] or ln["fmt"] == w["color"], f"colour {ln['color']!r}", where)
        if w["alpha"] is not None:
            c.equal(f"{pre}: {w['label']}: opacity of the curve", ln["alpha"], w["alpha"], where)
        cols[w["label"]] = ln["color"]
        bd = [x for x in g["bands"] if x["color"] == ln["color"]]
        if len(bd) > 1:
            k = [x is ln for x in g["lines"]].index(True)
            bd = g["bands"][k:k + 1]
        if not ok(c.holds(f"{pre}: {w['label']}: band in the colour of the curve", len(bd) == 1, f"bands coloured {[x['color'] for x in g['bands']]}, curve {ln['color']!r}", where)):
            continue
        bd = bd[0]
        lo, hi = bd["low"], bd["high"]
        if freeze(lo) == freeze(w["high"]) and freeze(hi) == freeze(w["low"]):
            lo, hi = hi, lo     # the area between two curves has no orientation
        c.equal(f"{pre}: {w['label']}: band is the central 90% of draws on its grid", (bd["x"], lo, hi, bd["where"]), (w["x"], w["low"], w["high"], None), where, known_ops={"quantile"})
    if len(cols) == len(want):
        c.holds(f"{pre}: populations are told apart by colour", len(set(map(str, cols.values()))) == len(want), f"colours {cols}", where)


LOG, LIN, SEMI = {"x": "log", "y": "log"}, {"x": "linear", "y": "linear"}, {"x": "linear", "y": "log"}
NAMES = ["Default", "First Comparison", "third, % {x}", "d"]
COLORS = ["tab:red", "k", "#00ff00", "orange"]


def check(c):
    for lab, kw in (("defaults", {}), ("linear axes", {"loglog": False}), ("log-log axes", {"loglog": True}), ("given colour and opacity", {"color": "purple", "alpha": pos("al")}), ("all given, linear", {"color": "k", "alpha": div(num(1), num(2)), "loglog": False})):
        c.attempt("plot_pdf " + lab, lambda: single(c, lab, kw))
    for n in (1, 2, 3, 4):
        for given in (False, True):
            if n == 4 and not given:
                continue
            for save in (True, False, None):
                lab = f"{n} populations, {'given' if given else 'default'} colours, save={'default' if save is None else save}"
                c.attempt("mass " + lab, lambda: mass(c, lab, n, given, save))
                for sec in (None, False, True):
                    c.attempt(f"spin {lab} secondary={sec}", lambda: spin(c, f"{lab}, secondary={sec}", n, given, save, sec))
    for save in (True, False, None):
        c.attempt(f"rate {save}", lambda: rate(c, f"save={'default' if save is None else save}", save))


def single(c, lab, kw):
    it = c.interp()
    w = World(it)
    fn = PL + "plot_pdf"
    where = c.loc(it, fn)
    x, pdf = arr("x"), arr("pdf", 2)
    it.call(c.entity(it, fn), [x, pdf, "name"], dict(kw))
    pre = f"plot_pdf[{lab}]"
    c.holds(f"{pre}: draws in the current figure", len(w.figs) == 1, f"{len(w.figs)} figures", where)
    c.holds(f"{pre}: neither saves nor shows", not w.files and not w.shown, f"{w.files} {len(w.shown)} shown", where)
    panel(c, pre, where, w.snapshot(w.figs[0]) if w.figs else [], [curve(x, pdf, "name", kw.get("color"), kw.get("alpha"))], LOG if kw.get("loglog", True) else LIN, {}, legend=False)


def figures(c, fn, lab, run, save, wanted):
    """wanted: [(file stem, curves, scale, limits)] in the order shown"""
    for keep in (False, True):
        backend(c, fn, lab + (", no window system, another figure open" if keep else ""), run, save, wanted, keep)


def backend(c, fn, lab, run, save, wanted, keep):
    it = c.interp()
    w = World(it, keep)
    where = c.loc(it, fn)
    if keep:
        w.callers = w.new()
        w.axes_of(w.callers)
    run(it, c.entity(it, fn))
    pre = f"{fn[len(PL):]}[{lab}]"
    left = [f for f in w.figs if f is not w.callers]
    c.holds(f"{pre}: every figure is closed", not left, f"{len(left)} figures left open", where)
    if keep:
        c.holds(f"{pre}: the caller's own figure is left alone", w.callers in w.figs and len(w.callers.axes) == 1 and not any((a.lines, a.bands, a.lims, a.legend) != ([], [], {}, None) for a in w.callers.axes), "draws in, saves or closes a figure the caller had open", where)
    shown = [s for s in w.shown if s]
    if not ok(c.holds(f"{pre}: every figure is shown", len(shown) == len(wanted), f"{len(shown)} figures with content shown, {len(wanted)} expected", where)):
        return
    names = [os.path.normpath(f"{DIR}/{stem}.png") for stem, *_ in wanted]
    if save is False:
        c.holds(f"{pre}: nothing is saved", not w.files, f"writes {[f for f, _ in w.files]}", where)
    else:
        c.holds(f"{pre}: each figure is saved once under its name", sorted(f for f, _ in w.files) == sorted(names), f"writes {[f for f, _ in w.files]}, expected {names}", where)
        for (stem, curves, scale, lims), name in zip(wanted, names):
            for f, s in w.files:
                if f == name:
                    panel(c, f"{pre} file {stem}.png", where, s, curves, scale, lims)
    for (stem, curves, scale, lims), s in zip(wanted, shown):
        panel(c, f"{pre} shown {stem}", where, s, curves, scale, lims)


def opts(given, save, n, **more):
    k = dict(more)
    if given:
        k["colors"] = ListV(list(COLORS[:n]))
    if save is not None:
        k["save"] = save
    return k


def families(p, x, n, given):
    pd = [arr(f"{p}{i}", 2) for i in range(n)]
    return pd, [curve(x, pd[i], NAMES[i], COLORS[i] if given else None) for i in range(n)]


def mass(c, lab, n, given, save):
    m1, qs = arr("m1"), arr("q")
    mp, mc = families("mpdf", m1, n, given)
    qp, qc = families("qpdf", qs, n, given)
    item = lambda it, x, i: it.ext.term_getitem(it, x, num(i))
    it0 = c.interp()
    figures(c, PL + "plot_mass_pdfs", lab, lambda it, f: it.call(f, [ListV(mp), ListV(qp), m1, qs, ListV(NAMES[:n]), "lab", DIR], opts(given, save, n)), save,
            [("mass_pdf_lab", mc, LOG, {"left": item(it0, m1, 0), "right": item(it0, m1, -1)}), ("mass_ratio_pdf_lab", qc, SEMI, {"left": ZERO, "right": num(1)})])


def spin(c, lab, n, given, save, sec):
    aa, cc = arr("aa"), arr("cc")
    ap, ac = families("apdf", aa, n, given)
    tp, tc = families("tpdf", cc, n, given)
    k = opts(given, save, n)
    if sec is not None:
        k["secondary"] = sec
    s = "2" if sec else "1"
    figures(c, PL + "plot_spin_pdfs", lab, lambda it, f: it.call(f, [ListV(ap), ListV(tp), aa, cc, ListV(NAMES[:n]), "lab", DIR], k), save,
            [(f"spin_mag{s}_pdf_lab", ac, LIN, {"left": ZERO, "right": num(1)}), (f"cos_tilt{s}_pdf_lab", tc, LIN, {"left": num(-1), "right": num(1)})])


def rate(c, lab, save):
    z = arr("z")
    pd = arr("zpdf", 2)
    it0 = c.interp()
    figures(c, PL + "plot_rate_of_z_pdfs", lab, lambda it, f: it.call(f, [pd, z, "lab", DIR], opts(False, save, 1)), save,
            [("redshift_pdf_lab", [curve(z, pd, "redshift")], LOG, {"left": it0.ext.term_getitem(it0, z, num(0))})])
