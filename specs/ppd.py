"""Reference: predictive curves, one per posterior draw, on the returned grid."""
import jax.numpy as jnp
from jax.scipy.integrate import trapezoid
from gwinferno.distributions import betadist, truncnorm_pdf
from gwinferno.interpolation import LogYBSpline
from gwinferno.models.parametric.parametric import mixture_isoalign_spin_tilt, plpeak_primary_ratio_pdf
from .bsplines import primary_ratio, ratio, spin_magnitude, spin_tilt


def scaled(p, x, rate, frac):
    """density of unit integral on the grid times the rate and the fraction of the population"""
    return rate * frac * p / trapezoid(p, x)


def grids(mmin, mmax):
    ms = jnp.linspace(mmin, mmax, 800)
    qs = jnp.linspace(mmin / mmax, 1, 800)
    M, Q = jnp.meshgrid(ms, qs)
    return ms, qs, M, Q


def marginals(p, ms, qs, M, Q, mmin, rate, frac):
    """curves in primary mass and mass ratio: the joint density on the grid, without secondaries below mmin"""
    p = jnp.where(Q > mmin / M, p, 0.0)
    return scaled(trapezoid(p, qs, axis=0), ms, rate, frac), scaled(trapezoid(p, ms, axis=1), qs, rate, frac)


def bspline_mass(cm, cq, nm, nq, mmin, mmax, rate, frac):
    ms, qs, M, Q = grids(mmin, mmax)
    p = primary_ratio(nm, nq, M, Q, mmax, mmin, mmin, cm, cq, {}, {}, {})
    a, b = marginals(p, ms, qs, M, Q, mmin, rate, frac)
    return a, ms, b, qs


def plpeak_mass(alpha, beta, mu, sig, lam, mmin, mmax, rate, frac):
    ms, qs, M, Q = grids(mmin, mmax)
    p = plpeak_primary_ratio_pdf(M, Q, alpha, beta, mmin, mmax, mu, sig, lam)
    a, b = marginals(p, ms, qs, M, Q, mmin, rate, frac)
    return a, ms, b, qs


def logpeak_mass(mu, sig, cq, nq, mmin, mmax, rate, frac):
    ms, qs, M, Q = grids(mmin, mmax)
    p = ratio(nq, Q, cq, mmin / mmax, 1) * truncnorm_pdf(M, mu, sig, mmin, mmax, log=True)
    p = jnp.where((M < mmin) | (M * Q < mmin), 0, p)
    return scaled(trapezoid(p, qs, axis=0), ms, rate, frac), ms, scaled(trapezoid(p, ms, axis=1), qs, rate, frac), qs


def beta_spin(al, be, amax, rate, frac):
    x = jnp.linspace(0, amax, 800)
    return scaled(betadist(x, al, be, scale=amax), x, rate, frac), x


def tilt(sig, lam, rate, frac):
    x = jnp.linspace(-1, 1, 800)
    return scaled(mixture_isoalign_spin_tilt(x, lam, sig), x, rate, frac), x


def magnitude(c, n, rate, frac):
    x = jnp.linspace(0, 1, 800)
    return scaled(spin_magnitude(n, x, c), x, rate, frac)


def cos_tilt(c, n, rate, frac):
    x = jnp.linspace(-1, 1, 800)
    return scaled(spin_tilt(n, x, c), x, rate, frac)


def unit(n):
    return jnp.linspace(0, 1, n)


def symmetric_unit(n):
    return jnp.linspace(-1, 1, n)


def rate_of_z(zs, lamb, rate, frac):
    return rate * frac * (1 + zs) ** lamb


def spline_rate_of_z(model, zs, lamb, cs, rate, frac):
    """the first coefficient of the spline is zero; the draws hold the others"""
    return rate * frac * (1 + zs) ** lamb * jnp.exp(model.interpolator.project(model.interpolator.bases(zs), jnp.concatenate([jnp.array([0]), cs])))
