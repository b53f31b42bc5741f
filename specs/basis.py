"""Reference definitions of the spline bases: Cox-de Boor recursion on a knot vector, projections and normalisations."""
import jax.numpy as jnp
from jax.scipy.integrate import trapezoid


def uniform_knots(lo, hi, n, k):
    """n + k equally spaced knots whose interior ones span [lo, hi]"""
    h = (hi - lo) / (n - k + 1)
    return [lo + (j - k + 1) * h for j in range(n + k)]


def cox_de_boor(x, t, i, k):
    if k == 1:
        return jnp.where((x >= t[i]) & (x < t[i + 1]), 1.0, 0.0) if t[i + 1] > t[i] else 0.0
    r = 0.0
    if t[i + k - 1] > t[i]:
        r = r + (x - t[i]) / (t[i + k - 1] - t[i]) * cox_de_boor(x, t, i, k - 1)
    if t[i + k] > t[i + 1]:
        r = r + (t[i + k] - x) / (t[i + k] - t[i + 1]) * cox_de_boor(x, t, i + 1, k - 1)
    return r


def bspline(x, lo, hi, n, k, t=None, outside=0.0):
    """the n basis functions at x, `outside` off [lo, hi]"""
    t = uniform_knots(lo, hi, n, k) if t is None else t
    return [jnp.where((x < lo) | (x > hi), outside, cox_de_boor(x, t, i, k)) for i in range(n)]


def mspline(x, lo, hi, n, k, t=None):
    """basis functions scaled to unit integral over their own support"""
    t = uniform_knots(lo, hi, n, k) if t is None else t
    return [jnp.where((x < lo) | (x > hi), 0.0, k / (t[i + k] - t[i]) * cox_de_boor(x, t, i, k) if t[i + k] > t[i] else 0.0) for i in range(n)]


def bspline_logx(x, lo, hi, n, k, t=None, outside=0.0):
    return bspline(jnp.log(x), jnp.log(lo), jnp.log(hi), n, k, None if t is None else [jnp.log(v) for v in t], outside)


def bspline_logy(x, lo, hi, n, k, t=None):
    return bspline(x, lo, hi, n, k, t, -jnp.inf)


def bspline_logxlogy(x, lo, hi, n, k, t=None):
    return bspline_logx(x, lo, hi, n, k, t, -jnp.inf)


def lincomb(bases, c):
    return jnp.einsum("i...,i->...", bases, c)


def expcomb(bases, c):
    """exponential of the combination; zero where the basis is minus infinity"""
    return jnp.exp(jnp.nan_to_num(jnp.einsum("i...,i->...", bases, c), nan=-jnp.inf, posinf=-jnp.inf))


def normalised(comb, bases, c, grid_bases, grid):
    return comb(bases, c) / trapezoid(comb(grid_bases, c), grid)


def mspline_normalised(bases, c, vols):
    return jnp.einsum("i...,i->...", bases, c) / jnp.sum(vols * c)


def mspline_plain(bases, c):
    """mixture of unit-area components with weights summing to one"""
    return jnp.einsum("i...,i->...", bases, c) / jnp.sum(c)


def grid(lo, hi, n):
    return jnp.linspace(lo, hi, n)


def least_squares(dm, y):
    """(B^T B)^-1 B^T y for the transposed design matrix"""
    b = jnp.transpose(dm)
    return jnp.matmul(jnp.matmul(jnp.linalg.inv(jnp.matmul(jnp.transpose(b), b)), jnp.transpose(b)), y)


def rect_project(bases, c):
    return jnp.exp(jnp.einsum("ij...,ij->...", bases, c))


def cubic_eval(knots, y, c, x):
    """cubic on segment i of the knots with second-derivative coefficients c (half the second derivative)"""
    i = jnp.clip(jnp.digitize(x, knots) - 1, 0, len(knots) - 2)
    h = knots[i + 1] - knots[i]
    t = x - knots[i]
    slope = (y[i + 1] - y[i]) / h - h * (2 * c[i] + c[i + 1]) / 3
    return y[i] + slope * t + c[i] * t**2 + (c[i + 1] - c[i]) / (3 * h) * t**3
