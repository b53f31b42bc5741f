"""Reference definitions of the numerically normalised population models."""
import jax.numpy as jnp
import numpy as np
from jax.scipy.integrate import trapezoid
from gwinferno.interpolation import BSpline, LogXBSpline
from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as cosmo
from vspec.densities import powerlaw


def zgrid(z_pe, z_inj):
    lo = jnp.maximum(jnp.min(z_pe), jnp.min(z_inj))
    hi = jnp.minimum(jnp.max(z_pe), jnp.max(z_inj))
    return lo, hi, jnp.linspace(lo, hi, 1000)


def pl_redshift_norm(z_pe, z_inj, lamb):
    lo, hi, zs = zgrid(z_pe, z_inj)
    return trapezoid(cosmo.dVcdz(zs) * (1 + zs) ** (lamb - 1), zs)


def pl_redshift(z_pe, z_inj, z, lamb):
    """z is z_pe or z_inj"""
    lo, hi, zs = zgrid(z_pe, z_inj)
    return jnp.where(z <= hi, cosmo.dVcdz(z) * (1 + z) ** (lamb - 1) / pl_redshift_norm(z_pe, z_inj, lamb), 0)


def pl_redshift_log(z_pe, z_inj, z, lamb):
    lo, hi, zs = zgrid(z_pe, z_inj)
    v = jnp.log(cosmo.dVcdz(z)) + (lamb - 1) * jnp.log(1 + z) - jnp.log(pl_redshift_norm(z_pe, z_inj, lamb))
    return jnp.where(z <= hi, v, jnp.nan_to_num(-jnp.inf))


def spline_redshift_norm(n, z_pe, z_inj, lamb, cs, basis=LogXBSpline):
    lo, hi, zs = zgrid(z_pe, z_inj)
    s = basis(n, xrange=(lo, hi), k=4, normalize=False)
    return trapezoid(cosmo.dVcdz(zs) * (1 + zs) ** (lamb - 1) * jnp.exp(s.project(s.bases(zs), cs)), zs)


def spline_redshift(n, z_pe, z_inj, z, lamb, cs, basis=LogXBSpline):
    lo, hi, zs = zgrid(z_pe, z_inj)
    s = basis(n, xrange=(lo, hi), k=4, normalize=False)
    f = cosmo.dVcdz(z) * (1 + z) ** (lamb - 1) * jnp.exp(s.project(s.bases(z), cs))
    return jnp.where(z <= hi, f / spline_redshift_norm(n, z_pe, z_inj, lamb, cs, basis), 0)


def spline_redshift_log(n, z_pe, z_inj, z, lamb, cs, basis=LogXBSpline):
    lo, hi, zs = zgrid(z_pe, z_inj)
    s = basis(n, xrange=(lo, hi), k=4, normalize=False)
    v = jnp.log(cosmo.dVcdz(z)) + (lamb - 1) * jnp.log(1 + z) + s.project(s.bases(z), cs) - jnp.log(spline_redshift_norm(n, z_pe, z_inj, lamb, cs, basis))
    return jnp.where(z <= hi, v, jnp.nan_to_num(-jnp.inf))


def uniform_knots(lo, hi, n, k):
    inner = np.linspace(lo, hi, n - k + 2)
    dx = inner[1] - inner[0]
    return np.concatenate([lo - dx * np.arange(1, k)[::-1], inner, hi + dx * np.arange(1, k)]), inner


def mass_spline(n, lo, hi, k, basis=BSpline, **kw):
    knots, inner = uniform_knots(np.log(lo), np.log(hi), n, k)
    return basis(n, knots=knots, interior_knots=inner, xrange=(np.log(lo), np.log(hi)), k=k, **kw)


def ratio_spline(n, k):
    inner = np.linspace(0, 1, n - k + 2)
    dx = inner[1] - inner[0]
    knots = np.concatenate([-dx * np.arange(1, k)[::-1], inner, 1 + dx * np.arange(1, k)])
    return BSpline(n, knots=knots, interior_knots=inner, xrange=(0, 1), k=k)


def pl_spline_primary(n, x, m1, q, alpha, mmin, mmax, cs, beta, lo=3.0, m2min=3.0, hi=100.0, k=4, basis=BSpline, **kw):
    """x: the samples the model was built on (PE or injections), m1 the evaluated masses (same samples)"""
    s = mass_spline(n, lo, hi, k, basis, **kw)
    grid = jnp.linspace(lo, hi, 1000)
    norm = trapezoid(powerlaw(grid, -alpha, mmin, mmax) * jnp.exp(s.project(s.bases(np.log(grid)), cs)), grid)
    pm = powerlaw(m1, -alpha, mmin, mmax) * jnp.exp(s.project(s.bases(np.log(x)), cs)) / norm
    return pm * powerlaw(q, beta, m2min / m1, 1)


def pl_spline_primary_ratio(nm, nq, x, y, m1, q, alpha, mmin, mmax, cs, beta, vs, lo=2.0, hi=100.0, k=4):
    s, t = mass_spline(nm, lo, hi, k), ratio_spline(nq, k)
    ms, qs = jnp.linspace(lo, hi, 1000), jnp.linspace(lo / hi, 1, 500)
    mm, qq = jnp.meshgrid(ms, qs)

    def f(m, r, bm, bq):
        return (powerlaw(m, -alpha, mmin, mmax) * jnp.exp(s.project(bm, cs)) * powerlaw(r, beta, mmin / m, 1) * jnp.exp(t.project(bq, vs)))
    g = f(mm, qq, s.bases(np.log(mm)), t.bases(qq))
    norm = trapezoid(trapezoid(g, qs, axis=0), ms)
    return f(m1, q, s.bases(np.log(x)), t.bases(y)) / norm


def mass_window(m, mmin, delta):
    s = m - mmin
    w = jnp.where((s > 0) & (s < delta), 1 / (jnp.exp(delta / s + delta / (s - delta)) + 1), 1)
    w = jnp.where(jnp.isinf(w) | jnp.isnan(w), 1, w)
    return jnp.where(m <= mmin, 0, w)
