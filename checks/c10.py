from .common import *
from gwstat.ext import arr_elems

TITLE = ("Value numbering of the cosmology: expansion rate, distance and volume elements as functions of symbolic redshift; the distance tables on concrete grids with symbolic parameters, cell by cell; "
         "the table lookups and their extension with symbolic arguments, including the table left behind.")
ASSUMPTIONS = ("grids compared cell by cell have a handful of points (the recursion is uniform)", "interpolation in a table is interp(x, xp, fp) and its accuracy is that of the grid",)
M = "gwinferno.cosmology."
S = "vspec.cosmo."


def check(c):
    c.history = "shared"     # requests in sequence and second runs are obligations of this check itself
    where = lambda it: c.loc(it, M + "Cosmology")

    def make(it, max_z=None, dz=None, rad=True):
        K = c.entity(it, M + "Cosmology")
        h0, om, orad = pos("H0"), pos("Om"), (pos("Or") if rad else ZERO)
        ol = sub(sub(ONE, om), orad)
        kw = {}
        if max_z is not None:
            kw["max_z"] = max_z
        if dz is not None:
            kw["dz"] = dz
        return it.call(K, [h0, om, orad, ol], kw), (h0, om, orad, ol)

    def m(it, o, name, *a, **k):
        return it.call(it.getattr(o, name), list(a), k)

    DOM = {"Om": (0.1, 0.4), "Or": (0.0, 0.1), "H0": (1e4, 1e5), "Dc": (100, 9000)}

    def elements():
        it = c.interp()
        o, par = make(it, num(6), num(2))
        for lab, z in (("number", pos("z")), ("array", arr("z", 1, pos=True))):
            dc = pos("Dc") if lab == "number" else arr("Dc", 1, pos=True)
            sp = lambda f, *a: it.call(c.entity(it, S + f), list(par) + list(a), {})
            c.equal(f"E(z) [{lab}]", lambda: m(it, o, "z2E", z), lambda: it.call(c.entity(it, S + "E"), list(par[1:]) + [z], {}), where(it), DOM)
            c.equal(f"dDc/dz [{lab}]", lambda: m(it, o, "dDcdz", z), lambda: sp("dDc", z), where(it), DOM)
            c.equal(f"dVc/dz [{lab}]", lambda: m(it, o, "dVcdz", z, dc), lambda: sp("dVc", z, dc), where(it), DOM)
            c.equal(f"log dVc/dz [{lab}]", lambda: m(it, o, "logdVcdz", z, dc), lambda: tm.log(sp("dVc", z, dc)), where(it), DOM)
    c.attempt("distance and volume elements", elements)

    def own_distance():
        # without a distance given, the table's distance at the same redshift is used
        for name in ("dVcdz", "logdVcdz"):
            it = c.interp()
            z = arr("z", 1, pos=True)
            o, par = make(it, num(6), num(2))
            o2, _ = make(it, num(6), num(2))
            c.equal(f"{name} uses the distance of its own redshift", lambda: m(it, o, name, z), lambda: m(it, o2, name, z, m(it, o2, "z2Dc", z)), where(it), DOM)
    c.attempt("volume element at the table's distance", own_distance)

    def table():
        for mz, dz in ((6, 2), (4, 1), (9, 3)) + (((12, 2), (8, 1)) if c.tier == "thorough" else ()):
            for rad in (True, False):
                it = c.interp()
                o, par = make(it, num(mz), num(dz), rad)
                lab = f"grid to {mz} in steps of {dz}{', with radiation' if rad else ''}"
                z = arr_elems(it.getattr(o, "z"))
                if z is None or not all(x.is_const() for x in z):
                    c.record(f"{lab}: grid", UNDECIDED, "not a concrete grid", where(it))
                    continue
                n = mz // dz + 1
                c.holds(f"{lab}: covers the requested redshift", max(x.const() for x in z) >= mz, where(it), f"grid {[float(x.const()) for x in z]}")
                for i in range(min(n, len(z))):
                    c.equal(f"{lab}: grid point {i}", z[i], num(i * dz), where(it))
                dc, vc = it.unpack(it.call(c.entity(it, S + "table"), list(par) + [ListV(list(z))], {}), 2)
                for i in range(len(z)):
                    c.equal(f"{lab}: comoving distance at point {i}", lambda: ops.index(it.getattr(o, "Dc"), (num(i),)), dc.items[i], where(it), DOM)
                    c.equal(f"{lab}: comoving volume at point {i}", lambda: ops.index(it.getattr(o, "Vc"), (num(i),)), vc.items[i], where(it), DOM)
                    c.equal(f"{lab}: luminosity distance at point {i}", lambda: ops.index(it.getattr(o, "DL"), (num(i),)), mul(dc.items[i], add(ONE, z[i])), where(it), DOM)
    c.attempt("distance tables", table)

    def reach():
        # grid of a symbolic length
        it = c.interp()
        mz, dz = pos("zmax"), pos("dz")
        o, _ = make(it, mz, dz)
        a = tm.as_atom(it.getattr(o, "z"))
        if a is not None and a.op == "arange":
            over = sub(a.args[1], add(mz, a.args[2]))
            c.equal("table grid starts at redshift zero", a.args[0], ZERO, where(it))
            c.equal("table grid has the requested spacing", a.args[2], dz, where(it))
            c.holds("table reaches the requested redshift", over is ZERO or eq.nonneg(over), where(it), f"the grid ends before {tm.show(a.args[1])}, up to a step short of zmax")
        else:
            c.record("table reaches the requested redshift", UNDECIDED, "grid is not an arange", where(it))
    c.attempt("table reach", reach)

    def lookups():
        for name, xp, fp in (("z2Dc", "z", "Dc"), ("z2DL", "z", "DL"), ("DL2z", "DL", "z")):
            it = c.interp()
            o, _ = make(it, num(6), num(2))
            x = arr("x", 1, pos=True)
            t0, dc0, z0 = it.getattr(o, xp), it.getattr(o, "Dc"), it.getattr(o, "z")
            got = force(lambda: m(it, o, name, x))
            bad = [e for e in it.events if e[0] in ("bind_error", "attr_missing", "name_error")]
            c.holds(f"{name}: the table can be extended for any argument", not bad, where(it), "; ".join(str(e[1:])[:120] for e in bad[:2]))
            # the answer is read off the table as it stands after the call
            want = lambda: it.ext.call(it, "np.interp", [x, it.getattr(o, xp), it.getattr(o, fp)], {})
            c.equal(f"{name}: interpolates the table after the call", got, want, where(it), DOM)
            t1 = it.getattr(o, xp)
            # ... which is the old one when the argument is covered and one reaching it otherwise
            mx = it.ext.call(it, "np.max", [x], {})
            m0 = it.ext.call(it, "np.max", [t0], {})
            inside = tm.lt(mx, m0)
            c.equal(f"{name}: a table that covers the argument is left alone", tm.where(inside, t1, t0), t0, where(it), DOM)
            z1 = it.getattr(o, "z")
            old = lambda v: ops.Rewriter(fa=lambda t: v if t is tm.as_atom(z0) else None, pointwise_only=True).any(z1)
            out = tm.gt(mx, m0)
            c.equal(f"{name}: a table that does not cover the argument is replaced", tm.where(out, old(ssym("keep1")), ZERO), tm.where(out, old(ssym("keep2")), ZERO), where(it), {"x": (0.05, 20), **DOM})
            # Dc grows with z, so (1+z) Dc(z) passes max(DL) before z = max(DL) / max(Dc) as soon as the old table is left behind
            need = mx if xp == "z" else div(mx, it.ext.call(it, "np.max", [dc0], {}))
            g = [a for a in ops.all_atoms(it.getattr(o, "z")) if a.op == "arange"]
            if len(g) == 1 and isinstance(got, P):
                over = sub(g[0].args[1], add(need, g[0].args[2]))
                c.holds(f"{name}: the extended table reaches the argument", over is ZERO or eq.nonneg(over), where(it), f"the extended grid ends before {tm.show(g[0].args[1], 4)[:150]}")
            else:
                c.record(f"{name}: the extended table reaches the argument", UNDECIDED, "the extended grid is not one arange", where(it))
    c.attempt("table lookups", lookups)

    def presets():
        for name, h0, om in (("PLANCK_2015_Cosmology", "67740", "0.3089"), ("PLANCK_2015_LVK_Cosmology", "67900", "0.3065")):
            it = c.interp()
            o = c.entity(it, M + name)
            w = c.loc(it, M + "Cosmology")
            z = pos("z")
            want = it.call(c.entity(it, S + "dDc"), [num(h0), num(om), ZERO, sub(ONE, num(om)), z], {})
            c.equal(f"{name}: distance element in Mpc", lambda: m(it, o, "dDcdz", z), want, w)
    c.attempt("named cosmologies", presets)
