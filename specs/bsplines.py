"""Reference definitions of the B-spline population models (basis classes are treated as given)."""
import jax.numpy as jnp
from jax.scipy.integrate import trapezoid
from gwinferno.interpolation import BSpline, LogXBSpline, LogXLogYBSpline, LogYBSpline
from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as cosmo
from gwinferno.distributions import powerlaw_pdf
from gwinferno.models.parametric.parametric import plpeak_primary_pdf


def density(basis, n, x, lo, hi, coefs, degree=3, **kw):
    """spline value on [lo, hi], zero elsewhere"""
    s = basis(n, xrange=(lo, hi), k=degree + 1, **kw)
    inside = (x >= lo) & (x <= hi)
    return jnp.zeros(x.shape).at[inside].set(s.project(s.bases(x[inside]), coefs))


def spin_magnitude(n, x, coefs, lo=0.0, hi=1.0, basis=LogYBSpline, **kw):
    return density(basis, n, x, lo, hi, coefs, **kw)


def spin_tilt(n, x, coefs, lo=-1.0, hi=1.0, basis=LogYBSpline, **kw):
    return density(basis, n, x, lo, hi, coefs, **kw)


def chi_eff(n, x, coefs, lo=-1.0, hi=1.0, basis=BSpline, **kw):
    return density(basis, n, x, lo, hi, coefs, **kw)


def symmetric_chi_eff(n, x, coefs, lo=0.0, hi=1.0, basis=BSpline, **kw):
    return density(basis, n, jnp.abs(x), lo, hi, coefs, **kw) / 2


def chi_p(n, x, coefs, lo=0.0, hi=1.0, basis=BSpline, **kw):
    return density(basis, n, x, lo, hi, coefs, **kw)


def ratio(n, x, coefs, lo=0, hi=1, basis=LogYBSpline, **kw):
    return density(basis, n, x, lo, hi, coefs, **kw)


def mass(n, x, coefs, lo=2, hi=100, basis=LogXLogYBSpline, **kw):
    return density(basis, n, x, lo, hi, coefs, **kw)


def base(n, x, coefs, lo=0.0, hi=1.0, basis=BSpline, **kw):
    return density(basis, n, x, lo, hi, coefs, **kw)


def redshift_norm(n, z, z_inj, coefs, lo=1e-4, hi=2.3, basis=LogXBSpline, degree=3, **kw):
    s = basis(n, xrange=(lo, hi), k=degree + 1, **kw)
    zlo = jnp.maximum(jnp.min(z), jnp.min(z_inj))
    zhi = jnp.minimum(jnp.max(z), jnp.max(z_inj))
    zs = jnp.linspace(zlo, zhi, 1000)
    rate = cosmo.dVcdz(zs) / (1 + zs) * jnp.exp(s.project(s.bases(zs), coefs))
    return trapezoid(jnp.where((zs >= lo) & (zs <= hi), rate, 0), zs)


def redshift(n, x, dv, z, z_inj, coefs, lo=1e-4, hi=2.3, basis=LogXBSpline, degree=3, **kw):
    """rate density per unit redshift at x (one of z, z_inj)"""
    s = basis(n, xrange=(lo, hi), k=degree + 1, **kw)
    inside = (x >= lo) & (x <= hi)
    logr = jnp.zeros(x.shape).at[inside].set(s.project(s.bases(x[inside]), coefs))
    p = jnp.exp(logr) * dv / (1 + x) / redshift_norm(n, z, z_inj, coefs, lo, hi, basis, degree, **kw)
    return jnp.where(inside, p, 0)


# ------------------------------------------------------------------ joint models: products of the marginals above
def iid_magnitudes(n, a1, a2, coefs, **kw):
    return spin_magnitude(n, a1, coefs, **kw) * spin_magnitude(n, a2, coefs, **kw)


def ind_magnitudes(n1, n2, a1, a2, c1, c2, kw1, kw2, kw):
    return spin_magnitude(n1, a1, c1, **kw1, **kw) * spin_magnitude(n2, a2, c2, **kw2, **kw)


def iid_tilts(n, t1, t2, coefs, **kw):
    return spin_tilt(n, t1, coefs, **kw) * spin_tilt(n, t2, coefs, **kw)


def ind_tilts(n1, n2, t1, t2, c1, c2, kw1, kw2, kw):
    return spin_tilt(n1, t1, c1, **kw1, **kw) * spin_tilt(n2, t2, c2, **kw2, **kw)


def primary_powerlaw_ratio(n, m1, lo, hi, qm, qq, beta, mmin, coefs, **kw):
    return mass(n, m1, coefs, lo, hi, **kw) * powerlaw_pdf(qq, beta, mmin / qm, 1)


def plpeak_spline_ratio(n, q, m1, alpha, mmin, mmax, mu, sd, frac, coefs, **kw):
    return ratio(n, q, coefs, **kw) * plpeak_primary_pdf(m1, alpha, mmin, mmax, mu, sd, frac)


def primary_ratio(nm, nq, m1, q, mmax, m1min, m2min, cm, cq, kwm, kwq, kw):
    return mass(nm, m1, cm, m1min, mmax, **kwm, **kw) * ratio(nq, q, cq, m2min / mmax, 1, **kwq, **kw)


def iid_masses(n, m1, m2, lo, hi, coefs, beta, **kw):
    q = m2 / m1
    p = mass(n, m1, coefs, lo, hi, **kw) * mass(n, m2, coefs, lo, hi, **kw)
    return jnp.where((q < 0) | (q > 1), 0, p) * q**beta


def ind_masses(n1, n2, m1, m2, lo1, hi1, lo2, hi2, c1, c2, beta, kw1, kw2, kw):
    return mass(n1, m1, c1, lo1, hi1, **kw1, **kw) * mass(n2, m2, c2, lo2, hi2, **kw2, **kw) * (m2 / m1) ** beta


def effective_spins(ne, np_, xe, xp, ce, cp, kwe, kwp, kw):
    return chi_eff(ne, xe, ce, **kwe, **kw) * chi_p(np_, xp, cp, **kwp, **kw)
