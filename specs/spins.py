"""Reference: effective-spin quantities and their priors for spins uniform in magnitude up to amax (arXiv:2104.09508)."""
import numpy as np
from scipy.special import spence


def chi_eff(q, a1, a2, ct1, ct2):
    return (a1 * ct1 + q * a2 * ct2) / (1 + q)


def chi_p(q, a1, a2, ct1, ct2):
    return np.maximum(a1 * np.sqrt(1 - ct1**2), (4 * q + 3) / (4 + 3 * q) * q * a2 * np.sqrt(1 - ct2**2))


def mu_var(alpha, beta, xmax=1):
    s = alpha + beta
    return xmax * alpha / s, xmax**2 * alpha * beta / (s * s * (s + 1))


def li2(z):
    return spence(1 - z + 0j)


def aligned(x, q, amax=1.0):
    x = np.atleast_1d(x)
    y = x / amax
    edge = (1 - q) / (1 + q)
    up = (1 + q) ** 2 * (1 - y) / (4 * q)
    down = (1 + q) ** 2 * (1 + y) / (4 * q)
    p = np.where((y > 1) | (y < -1), 0.0, np.where(y > edge, up, np.where(y < -edge, down, (1 + q) / 2)))
    return p / amax


def iso_cases(y, q):
    """pieces of p(|chi_eff| = y | q) for amax = 1"""
    s = (1 + q) * y
    pre = (1 + q) / (4 * q)
    z = (1 + q) / 2 * (2 - np.log(q))
    di = li2(-q / s) - li2(q / s)
    dj = li2(1 - 1 / s) - li2(q / s)
    a = pre * (q * (4 - np.log(q**2 - s**2)) - 2 * s * np.arctanh(s / q) + s * di)
    b = pre * (4 * q - 2 * s * np.arctanh(q / s) - q * np.log(s**2 - q**2) + s * di)
    c = pre * (2 * (1 + q) * (1 - y) + (1 + s * np.log(s)) * np.log(q / (1 - s)) - q * np.log(q - s) + s * np.log((1 - s) * (q - s) / q) + s * dj)
    d = pre * (2 * (1 + q) * (1 - y) - q * np.log(s - q) + np.log(q / (1 - s)) + s * np.log((s - q) * (1 - s) / q) - s * np.log(s) * np.log((1 - s) / q) + s * dj)
    e = pre * (2 * (1 + q) * (1 - y) - np.log((s - 1) / q) + s * np.log((s - 1) * (s - q) / q) + s * np.log(s) * np.log(q / (s - 1)) - q * np.log(s - q) + s * dj)
    return z, a, b, c, d, e


def chi_p_iso(x, q, amax=1.0):
    y = np.atleast_1d(x) / amax
    r = q * (3 + 4 * q) / (4 + 3 * q)
    lo = (np.arccos(y / r) * (1 - np.sqrt(1 - y**2) + y * np.arccos(y)) + np.arccos(y) * (r - np.sqrt(r**2 - y**2) + y * np.arccos(y / r))) / r
    return np.where(y < r, lo, np.where(y < 1, np.arccos(y), 0.0)) / amax
