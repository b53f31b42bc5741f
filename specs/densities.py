"""Reference closed-form densities (normalised on their support unless stated otherwise)."""
import jax.numpy as jnp
from jax.scipy.special import erf, gammaln


def powerlaw(x, alpha, low, high, floor=0.0):
    """x^alpha / integral_low^high t^alpha dt on [low, high]"""
    integral = jnp.where(alpha == -1, jnp.log(high) - jnp.log(low), (high ** (alpha + 1) - low ** (alpha + 1)) / (alpha + 1))
    return jnp.where((x >= low) & (x <= high), x**alpha / integral, floor)


def Phi(t):
    return (1 + erf(t / jnp.sqrt(2.0))) / 2


def truncnorm(x, mu, sig, low, high):
    mass = Phi((high - mu) / sig) - Phi((low - mu) / sig)
    g = jnp.exp(-(((x - mu) / sig) ** 2) / 2) / (sig * jnp.sqrt(2 * jnp.pi))
    return jnp.where((x >= low) & (x <= high), g / mass, 0)


def trunclognorm(x, mu, sig, low, high):
    mass = Phi((jnp.log(high) - mu) / sig) - Phi((jnp.log(low) - mu) / sig)
    g = jnp.exp(-(((jnp.log(x) - mu) / sig) ** 2) / 2) / (x * sig * jnp.sqrt(2 * jnp.pi))
    return jnp.where((x >= low) & (x <= high), g / mass, 0)


def beta(x, a, b, scale=1.0, floor=0.0):
    """density of scale * Beta(a, b)"""
    lnB = gammaln(a) + gammaln(b) - gammaln(a + b)
    u = x / scale
    p = jnp.exp((a - 1) * jnp.log(u) + (b - 1) * jnp.log(1 - u) - lnB) / scale
    return jnp.where((x >= 0) & (x <= scale), p, floor)


def logistic(x, L, k, x0):
    return L / (1 + jnp.exp(-k * (x - x0)))


def logistic_unit(x, x0, sgn=1, sc=4):
    """soft truncation: 1 on the kept side, 0 on the other"""
    return 1 / (1 + jnp.exp(sgn * sc * (x - x0)))


def log_logistic_unit(x, x0, sgn=1, sc=4):
    return -jnp.log(1 + jnp.exp(sgn * sc * (x - x0)))


def powerlaw_logit(x, alpha, low=None, high=None, low_fall_off=4.0, high_fall_off=4.0):
    p = x**alpha
    if low is not None:
        p = p / (1 + jnp.exp(-low_fall_off * (x - low)))
    if high is not None:
        p = p / (1 + jnp.exp(high_fall_off * (x - high)))
    return p


def smooth(dx, x, xmin):
    """window rising from 0 at xmin to 1 at xmin + dx"""
    f = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
    return jnp.where(x < xmin, 0, jnp.where(x < xmin + dx, 1 / (f + 1), 1))


# ------------------------------------------------------------------ parametric population models
def powerlaw_primary_ratio(m1, q, alpha, beta_, mmin, mmax):
    return powerlaw(m1, alpha, mmin, mmax) * powerlaw(q, beta_, mmin / m1, 1)


def powerlaw_primary_ratio_falloff(m1, q, alpha, beta_, mmin, mmax, fall_off):
    return powerlaw_logit(m1, alpha, mmin, mmax, fall_off) * powerlaw(q, beta_, mmin / m1, 1)


def plpeak_primary(m1, alpha, mmin, mmax, mpp, sigpp, lam, delta=None):
    pl = powerlaw(m1, alpha, mmin, mmax)
    if delta is not None:
        pl = pl * smooth(delta, m1, mmin)
    return (1 - lam) * pl + lam * truncnorm(m1, mpp, sigpp, mmin, mmax)


def plpeak_primary_ratio(m1, q, alpha, beta_, mmin, mmax, mpp, sigpp, lam, delta=None):
    p = plpeak_primary(m1, alpha, mmin, mmax, mpp, sigpp, lam, delta) * powerlaw(q, beta_, mmin / m1, 1)
    if delta is not None:
        p = p * smooth(delta, m1 * q, mmin)
    return p


def beta_spin(a, al, be, amax=1):
    return beta(a, al, be, amax)


def iid_spin(a1, a2, al, be, amax=1):
    return beta(a1, al, be, amax) * beta(a2, al, be, amax)


def ind_spin(a1, a2, al1, be1, al2, be2, amax1=1, amax2=1):
    return beta(a1, al1, be1, amax1) * beta(a2, al2, be2, amax2)


def tilt(ct, xi, sigma):
    iso = jnp.where((ct >= -1) & (ct <= 1), 0.5, 0)
    return (1 - xi) * iso + xi * truncnorm(ct, 1, sigma, -1, 1)


def iid_tilt(ct1, ct2, xi, sigma):
    return tilt(ct1, xi, sigma) * tilt(ct2, xi, sigma)


def ind_tilt(ct1, ct2, xi1, xi2, s1, s2):
    return tilt(ct1, xi1, s1) * tilt(ct2, xi2, s2)


def default_tilt(ct1, ct2, xi, sigma):
    iso1 = jnp.where((ct1 >= -1) & (ct1 <= 1), 0.5, 0)
    iso2 = jnp.where((ct2 >= -1) & (ct2 <= 1), 0.5, 0)
    return (1 - xi) * iso1 * iso2 + xi * truncnorm(ct1, 1, sigma, -1, 1) * truncnorm(ct2, 1, sigma, -1, 1)
