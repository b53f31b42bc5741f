"""Reference densities, distribution functions and quantile functions of the probability distributions."""
import jax.numpy as jnp
from jax import random, vmap
from jax.scipy.integrate import trapezoid
from numpyro.distributions import constraints

LOWEST = jnp.nan_to_num(-jnp.inf)


def nan_to_minus_inf(v):
    return jnp.where(jnp.isnan(v), -jnp.inf, v)


def clip01(x, lo, hi, v):
    return jnp.where(x > hi, 1.0, jnp.where(x < lo, 0.0, v))


def sine_lp(x, lo, hi):
    return nan_to_minus_inf(jnp.log(jnp.sin(x) / (jnp.cos(lo) - jnp.cos(hi))))


def sine_cdf(x, lo, hi):
    return clip01(x, lo, hi, (jnp.cos(lo) - jnp.cos(x)) / (jnp.cos(lo) - jnp.cos(hi)))


def sine_icdf(q, lo, hi):
    return jnp.arccos(jnp.cos(lo) - q * (jnp.cos(lo) - jnp.cos(hi)))


def cosine_lp(x, lo, hi):
    return nan_to_minus_inf(jnp.log(jnp.cos(x) / (jnp.sin(hi) - jnp.sin(lo))))


def cosine_cdf(x, lo, hi):
    return clip01(x, lo, hi, (jnp.sin(x) - jnp.sin(lo)) / (jnp.sin(hi) - jnp.sin(lo)))


def cosine_icdf(q, lo, hi):
    return jnp.arcsin(jnp.sin(lo) + q * (jnp.sin(hi) - jnp.sin(lo)))


def pl_integral(a, lo, hi):
    return jnp.where(a == -1, jnp.log(hi) - jnp.log(lo), (hi ** (a + 1) - lo ** (a + 1)) / (a + 1))


def pl_lp(x, a, lo, hi):
    return jnp.where((x >= lo) & (x <= hi), a * jnp.log(x) - jnp.log(pl_integral(a, lo, hi)), LOWEST)


def pl_cdf(x, a, lo, hi):
    return jnp.maximum(jnp.minimum(jnp.where(a == -1, jnp.log(x / lo) / jnp.log(hi / lo), (x ** (a + 1) - lo ** (a + 1)) / (hi ** (a + 1) - lo ** (a + 1))), 1.0), 0.0)


def pl_icdf(q, a, lo, hi):
    return jnp.where(a == -1, lo * (hi / lo) ** q, (lo ** (a + 1) + q * (hi ** (a + 1) - lo ** (a + 1))) ** (1 / (a + 1)))


def plz_norm(lamb, zg, dv):
    return trapezoid(dv * (1 + zg) ** (lamb - 1), zg)


def plz_lp(x, lamb, hi, zg, dv, at=None):
    d = jnp.interp(x, zg, dv) if at is None else at
    return jnp.where(x <= hi, jnp.log(d * (1 + x) ** (lamb - 1) / plz_norm(lamb, zg, dv)), LOWEST)


def cumulative(y, x):
    return jnp.concatenate([jnp.array([0]), jnp.cumsum(jnp.diff(x) * (y[:-1] + y[1:]) / 2)])


def plz_cdfgrid(lamb, zg, dv, cum):
    p = dv * (1 + zg) ** (lamb - 1) / plz_norm(lamb, zg, dv)
    return cum(p, zg).at[-1].set(1)


def psp_lp(x, a, lo, hi, a_hi, a_lo, bottom, top):
    """continuous three-piece power law: x^a_lo below lo, x^a on [lo, hi], x^-a_hi above hi"""
    b = -a_hi
    r2 = lo ** (a_lo - a)
    r3 = r2 * hi ** (a - b)
    I1 = (lo ** (a_lo + 1) - bottom ** (a_lo + 1)) / (a_lo + 1)
    I2 = (hi ** (a + 1) - lo ** (a + 1)) / (a + 1)
    I3 = (top ** (b + 1) - hi ** (b + 1)) / (b + 1)
    Z = I1 + r2 * I2 + r3 * I3
    return jnp.where(x < lo, jnp.log(1 / Z) + a_lo * jnp.log(x), jnp.where(x > hi, jnp.log(r3 / Z) + b * jnp.log(x), jnp.log(r2 / Z) + a * jnp.log(x)))


def bs_lpdf(cs, dm):
    return jnp.nan_to_num(jnp.einsum("i,i...->...", cs, dm), nan=-jnp.inf)


def bs_norm(cs, g, dm):
    return trapezoid(jnp.exp(bs_lpdf(cs, dm)), g)


def bs_lp(x, cs, g, dm):
    return jnp.interp(x, g, bs_lpdf(cs, dm)) - jnp.log(bs_norm(cs, g, dm))


def bs_cdfgrid(cs, g, dm, cum):
    return cum(jnp.exp(bs_lpdf(cs, dm)) / bs_norm(cs, g, dm), g).at[-1].set(1)


def interp(x, a, b):
    return jnp.interp(x, a, b)


def ps_lp(c, inv_var, order):
    d = jnp.diff(c, n=order)
    return -inv_var * jnp.sum(d * d) / 2


def uniform(key, shape):
    return random.uniform(key, shape=shape)


def cumulative_shifted(y, x):
    """recorded defect: the ordinates are taken one grid point too far"""
    def cell(i, d):
        return d * (y[i] + y[i + 1]) / 2.0

    return jnp.concatenate([jnp.array([0]), jnp.cumsum(vmap(cell)(jnp.array([i for i in range(1, len(y))]), jnp.diff(x)))])


def batch(*params):
    return jnp.broadcast_shapes(*[jnp.shape(p) for p in params])


def interval(lo, hi):
    return constraints.interval(lo, hi)
