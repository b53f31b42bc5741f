from .common import *
from gwstat.ext import mk_arr
from gwstat.ops import transpose
from gwstat.terms import exp, ge, le, log as log_

TITLE = ("Value numbering of the spline bases with concrete sizes and orders and symbolic position: every basis function is a piecewise polynomial compared, over all sign "
         "assignments of the knot tests, with the Cox-de Boor recursion; projections, normalisations, least squares, the natural cubic spline and the 2-D basis are compared with their definitions.")
ASSUMPTIONS = ("the number of splines and the order are taken from a finite list (the recursion is uniform in both); knot spacings exceed the code's coincidence threshold 1e-6 or are zero",)
I = "gwinferno.interpolation."
S = "vspec.basis."
KINDS = [("BSpline", "bspline", False, "lin"), ("BasisSpline", "mspline", False, "m"), ("LogXBSpline", "bspline_logx", True, "lin"),
         ("LogYBSpline", "bspline_logy", False, "exp"), ("LogXLogYBSpline", "bspline_logxlogy", True, "exp")]
SIZES = [(2, 1), (3, 2), (4, 3), (5, 2), (5, 4), (6, 3), (7, 4)]
DEEP = [(6, 5), (9, 4), (12, 3)]


def rows(B, n):
    return [ops.index(B, (num(i),)) for i in range(n)]


def check(c):
    def setup(cls, log, width=3):
        it = c.interp()
        K = c.entity(it, I + cls)
        lo = ssym("lo")
        hi = add(lo, num(width))
        if log:
            lo, hi = exp(lo), exp(hi)
        return it, K, lo, hi, c.loc(it, I + cls)

    def spec(it, f, *a):
        return it.call(c.entity(it, S + f), list(a), {})

    def m(it, o, name, *a, **k):
        return it.call(it.getattr(o, name), list(a), k)

    def compare_bases(it, lab, o, x, want, n, where, log=False):
        got = force(lambda: m(it, o, "bases", x))
        if isinstance(got, (Raised, BaseException)):
            c.equal(f"{lab}: basis functions", got, ZERO, where)
            return None
        for i, w in enumerate(want):
            c.equal(f"{lab}: basis function {i}", ops.index(got, (num(i),)), w, where, {"x": (0.05, 80.0 if log else 6.0), "lo": (0.1, 1.0)})
        return got

    for cls, sp, log, kind in KINDS:
        def bases(cls=cls, sp=sp, log=log, kind=kind):
            for n, k, w in [(n, k, 3) for n, k in SIZES + (DEEP if c.tier == "thorough" else [])] + [(5, 3, "0.003")]:
                it, K, lo, hi, where = setup(cls, log, w)
                x = arr("x", 1, pos=log)
                o = it.call(K, [num(n)], {"xrange": (lo, hi), "k": num(k), "normalize": False})
                got = compare_bases(it, f"{cls}[{n} splines of order {k}, width {w}]", o, x, spec(it, sp, x, lo, hi, num(n), num(k)).items, n, where, log)
                if got is not None and kind == "lin" and k > 1:
                    y = log_(x) if log else x
                    l, h = (log_(lo), log_(hi)) if log else (lo, hi)
                    tot = ZERO
                    for r in rows(got, n):
                        tot = add(tot, r)
                    inside = tm.cand(ge(y, l), le(y, h))
                    c.equal(f"{cls}[{n} splines of order {k}, width {w}]: partition of unity on the domain, zero off it", tot, tm.where(inside, ONE, ZERO), where)
            # samples held as whole numbers (a grid of masses, say): the same functions
            it, K, lo, hi, where = setup(cls, log, 30)
            x = arr("x", 1, pos=log)
            it.ints = {x}
            o = it.call(K, [num(5)], {"xrange": (lo, hi), "k": num(3), "normalize": False})
            compare_bases(it, f"{cls}[samples of integer type]", o, x, spec(it, sp, x, lo, hi, num(5), num(3)).items, 5, where, log)
        c.attempt(f"{cls} basis functions", bases)

        def knots(cls=cls, sp=sp, log=log):
            for lab, t, n, k in (("distinct knots", (0, 1, 3, 4, 6, 7, 9), 4, 3), ("repeated end knots", (0, 0, 0, 1, 2, 4, 4, 4), 5, 3), ("repeated inner knot", (0, 1, 2, 2, 2, 3, 4), 4, 3)):
                it, K, lo, hi, where = setup(cls, log, 4)
                x = arr("x", 1, pos=log)
                base = log_(lo) if log else lo
                tt = ListV([exp(add(base, num(v))) if log else add(base, num(v)) for v in t])
                o = it.call(K, [num(n)], {"knots": it.ext.asarray(it, tt), "xrange": (lo, hi), "k": num(k), "normalize": False})
                compare_bases(it, f"{cls}[{lab}]", o, x, spec(it, sp, x, lo, hi, num(n), num(k), tt).items, n, where, log)
            it, K, lo, hi, where = setup(cls, log, 4)
            x = arr("x", 1, pos=log)
            base = log_(lo) if log else lo
            f = lambda v: exp(add(base, num(v))) if log else add(base, num(v))
            o = force(lambda: it.call(K, [num(5)], {"interior_knots": it.ext.asarray(it, ListV([f(0), f(1), f("5/2"), f(4)])), "xrange": (lo, hi), "k": num(3), "normalize": False}))
            if not isinstance(o, (Raised, BaseException)):
                compare_bases(it, f"{cls}[unevenly spaced interior knots]", o, x, spec(it, sp, x, lo, hi, num(5), num(3), ListV([f(v) for v in (-2, -1, 0, 1, "5/2", 4, "11/2", 7)])).items, 5, where, log)
            bad = lambda: it.call(K, [num(5)], {"knots": it.ext.asarray(it, ListV([f(v) for v in range(7)])), "xrange": (lo, hi), "k": num(3), "normalize": False})
            c.equal(f"{cls}: a knot vector of the wrong length is rejected", bad, Raised("AssertionError"), where)
        c.attempt(f"{cls} given knots", knots)

        def proj(cls=cls, log=log, kind=kind):
            cs = arr("coefs", 1)
            for lab, nd in (("1-D samples", 2), ("2-D samples", 3)):
                b = arr("bases", nd)
                for norm in (False, True, None):
                    it, K, lo, hi, where = setup(cls, log)
                    kw = {} if norm is None else {"normalize": norm}
                    o = it.call(K, [num(5)], dict(kw, xrange=(lo, hi), k=num(3)))
                    eff = norm if norm is not None else cls != "BSpline"
                    got = lambda: m(it, o, "project", b, cs)
                    if kind == "m":
                        if eff:
                            g = spec(it, "grid", lo, hi, num(1000))
                            gb = m(it, o, "bases", g)
                            vols = mk_arr([trapz_(it, ops.index(gb, (num(i),)), g) for i in range(5)])
                            want = lambda: spec(it, "mspline_normalised", b, cs, vols)
                        else:
                            want = lambda: spec(it, "mspline_plain", b, cs)
                    else:
                        comb = c.entity(it, S + ("expcomb" if kind == "exp" else "lincomb"))
                        if eff:
                            g = spec(it, "grid", lo, hi, num(1500 if cls == "LogXLogYBSpline" else 1000))
                            gb = m(it, o, "bases", g)
                            want = lambda: spec(it, "normalised", comb, b, cs, gb, g)
                        else:
                            want = lambda: it.call(comb, [b, cs], {})
                    c.equal(f"{cls}.project on {lab} [normalize {'default' if norm is None else norm}]", got, want, where)
            if kind != "m":
                # the caller's own knots: the normalisation integrates the bases of those knots
                it, K, lo, hi, where = setup(cls, log, 4)
                t = ListV([(exp(add(log_(lo), num(v))) if log else add(lo, num(v))) for v in (0, 0, 0, 1, 3, 4, 4, 4)])
                o = it.call(K, [num(5)], {"knots": it.ext.asarray(it, t), "xrange": (lo, hi), "k": num(3), "normalize": True})
                b = arr("bases", 2)
                g = spec(it, "grid", lo, hi, num(1500 if cls == "LogXLogYBSpline" else 1000))
                gb = m(it, o, "bases", g)
                comb = c.entity(it, S + ("expcomb" if kind == "exp" else "lincomb"))
                c.equal(f"{cls}.project with given knots", lambda: m(it, o, "project", b, cs), lambda: spec(it, "normalised", comb, b, cs, gb, g), where)
            it, K, lo, hi, where = setup(cls, log)
            o = it.call(K, [num(5)], dict(xrange=(lo, hi), k=num(3)))
            x = arr("x", 1, pos=log)
            want = lambda: m(it, o, "project", m(it, o, "bases", x), cs)
            c.equal(f"{cls}.eval is the projection of the bases at its argument", lambda: m(it, o, "eval", x, cs), want, where)
            c.equal(f"calling {cls} is the projection of the bases at its argument", lambda: it.call(o, [x, cs], {}), want, where)
        c.attempt(f"{cls} projection", proj)

    def defaults():
        for cls, sp, log, kind in KINDS:
            it = c.interp()
            K = c.entity(it, I + cls)
            where = c.loc(it, I + cls)
            lo, hi = {"LogXBSpline": (num("0.01"), ONE), "LogXLogYBSpline": (num("0.1"), ONE)}.get(cls, (ZERO, ONE))
            x = arr("x", 1, pos=log)
            o = it.call(K, [num(6)], {})
            o2 = it.call(K, [num(6)], {"xrange": (lo, hi), "k": num(4)})
            c.equal(f"{cls}: default domain and order", lambda: m(it, o, "bases", x), lambda: m(it, o2, "bases", x), where)
    c.attempt("defaults", defaults)

    def lsq():
        it, K, lo, hi, where = setup("BSpline", False)
        o = it.call(K, [num(4)], dict(xrange=(lo, hi), k=num(3)))
        x, y = arr("x", 1), arr("y", 1)
        dm = m(it, o, "bases", x)
        got = force(lambda: m(it, o, "get_coefficients", x, y))
        want = spec(it, "least_squares", dm, y)
        if isinstance(got, (Raised, BaseException)):
            c.equal("least-squares coefficients", got, want, where)
            return
        got = list(it.unpack(got, 3))
        dom = {"x": (0.1, 3.9), "lo": (0.4, 0.6), "@shapes": {"x": (25,), "y": (25,)}}
        c.equal("least-squares coefficients", got[0], want, where, dom)
        c.equal("least-squares design matrix", got[2], lambda: transpose(dm), where, dom)
        c.equal("least-squares fitted values", got[1], lambda: it.ext.call(it, "np.einsum", ["ij,i->j", dm, want], {}), where, dom)
    c.attempt("get_coefficients", lsq)

    def rect():
        for norm in (True, False):
            it = c.interp()
            K = c.entity(it, I + "RectBivariateBasisSpline")
            where = c.loc(it, I + "RectBivariateBasisSpline")
            lo, l2 = ssym("lo"), ssym("ylo")
            xr, yr = (lo, add(lo, num(3))), (l2, add(l2, num(2)))
            o = it.call(K, [num(4), num(3)], dict(xrange=xr, yrange=yr, kx=num(3), ky=num(2), normalize=norm))
            x, y = arr("x", 1), arr("y", 1)
            B = force(lambda: m(it, o, "bases", x, y))
            bx = spec(it, "bspline", x, *xr, num(4), num(3)).items
            by = spec(it, "bspline", y, *yr, num(3), num(2)).items
            if isinstance(B, (Raised, BaseException)):
                c.equal("2-D basis", B, ZERO, where)
            else:
                for i in range(4):
                    for j in range(3):
                        c.equal(f"2-D basis ({i},{j}) is the product of the 1-D ones [normalize={norm}]", ops.index(B, (num(i), num(j))), mul(bx[i], by[j]), where)
            b, cs = arr("bases", 3), arr("coefs", 2)
            plain = spec(it, "rect_project", b, cs)
            if norm:
                gx, gy = spec(it, "grid", *xr, num(750)), spec(it, "grid", *yr, num(750))

                def want():
                    X, Y = it.unpack(it.ext.call(it, "np.meshgrid", [gx, gy], {}), 2)
                    v = spec(it, "rect_project", m(it, o, "bases", X, Y), cs)
                    return div(plain, trapz_(it, trapz_(it, v, gx), gy))
            else:
                want = plain
            c.equal(f"2-D projection [normalize={norm}]", lambda: m(it, o, "project", b, cs), want, where)
        it = c.interp()
        K, x, y, cs = c.entity(it, I + "RectBivariateBasisSpline"), arr("x", 1), arr("y", 1), arr("coefs", 2)
        B1, L = c.entity(it, I + "BSpline"), c.entity(it, I + "LogYBSpline")
        dflt = dict(xrange=(ZERO, ONE), yrange=(ZERO, ONE), kx=num(4), ky=num(4), xbasis=B1, ybasis=B1, normalize=False)
        for lab, kw in (("x domain", dict(xrange=None)), ("y domain", dict(yrange=None)), ("x order", dict(kx=None)), ("y order", dict(ky=None)), ("x basis", dict(xbasis=None)), ("y basis", dict(ybasis=None))):
            given = {**dflt, **dict(xrange=(ZERO, num(2)), yrange=(ZERO, num(3)), kx=num(3), ky=num(2), xbasis=L, ybasis=L)}
            given = {k: v for k, v in given.items() if k not in kw}
            o, o2 = it.call(K, [num(5), num(6)], given), it.call(K, [num(5), num(6)], {**given, **{k: dflt[k] for k in kw}})
            c.equal(f"2-D default {lab}", lambda: m(it, o, "bases", x, y), lambda: m(it, o2, "bases", x, y), where)
        o, o2 = it.call(K, [num(4), num(4)], {}), it.call(K, [num(4), num(4)], {"normalize": True})
        b = arr("bases", 3)
        c.equal("2-D projection is normalised by default", lambda: m(it, o, "project", b, cs), lambda: m(it, o2, "project", b, cs), where)
    c.attempt("RectBivariateBasisSpline", rect)

    def cubic():
        it = c.interp()
        K = c.entity(it, I + "NaturalCubicUnivariateSpline")
        where = c.loc(it, I + "NaturalCubicUnivariateSpline")
        for n in (4, 5, 7):
            xs = [ssym(f"x{i}") for i in range(n)]
            ys = [ssym(f"y{i}") for i in range(n)]
            o = it.call(K, [it.ext.asarray(it, ListV(xs)), it.ext.asarray(it, ListV(ys))], {})
            co = it.getattr(o, "_coefficients")
            if co is None:
                c.holds(f"natural cubic spline [{n} points] linear system", False, "the coefficients are left unset", where)
                continue
            a = tm.as_atom(co) if isinstance(co, P) else None
            if a is None or a.op != "lsolve":
                c.record(f"natural cubic spline [{n} points] linear system", UNDECIDED, "not a linear solve", where)
                continue
            A, r = a.args
            h = [sub(xs[i + 1], xs[i]) for i in range(n - 1)]
            pivot = lambda i: ONE if i in (0, n - 1) else mul(num(2), add(h[i - 1], h[i]))
            s = [div(sub(ys[i + 1], ys[i]), h[i]) for i in range(n - 1)]
            for i in range(n):
                p = ops.index(A, (num(i), num(i)))
                p = pivot(i) if p is ZERO else p
                for j in range(n):
                    if i in (0, n - 1):
                        w = ONE if i == j else ZERO
                    else:
                        w = h[i - 1] if j == i - 1 else mul(num(2), add(h[i - 1], h[i])) if j == i else h[i] if j == i + 1 else ZERO
                    c.equal(f"natural cubic spline [{n} points] equation {i}, unknown {j}", mul(ops.index(A, (num(i), num(j))), pivot(i)), mul(w, p), where)
                w = ZERO if i in (0, n - 1) else mul(num(3), sub(s[i], s[i - 1]))
                c.equal(f"natural cubic spline [{n} points] right-hand side {i}", mul(ops.index(r, (num(i),)), pivot(i)), mul(w, p), where)
        # evaluation on the segment that contains the point
        x, y, q, xs = arr("knots", 1), arr("values", 1), arr("c2", 1), arr("x", 1)
        o = it.call(K, [x, y, q], {})
        ref = c.entity(it, S + "cubic_eval")
        c.equal("natural cubic spline evaluation", lambda: it.call(o, [xs], {}), lambda: it.call(ref, [x, y, q, xs], {}), where)
        def again():
            ch, aux = it.unpack(m(it, o, "tree_flatten"), 2)
            o2 = it.call(it.getattr(K, "tree_unflatten"), [aux, ch], {})
            return it.call(o2, [xs], {})
        c.equal("natural cubic spline survives flattening and rebuilding", again, lambda: it.call(o, [xs], {}), where)
    c.attempt("natural cubic spline", cubic)
