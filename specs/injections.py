"""Reference: found injections, the density they were drawn from, and resampling them under a model."""
import numpy as np
import jax.numpy as jnp
from jax import random

YEAR = 365.25 * 24 * 3600


def o3_found(ifars, thr, name, rho, rho_thr, cuts):
    f = ifars[0] > thr
    for x in ifars[1:]:
        f = f | (x > thr)
    if name is not None:
        f = f | (((name == b"o1") | (name == b"o2")) & (rho > rho_thr))
    for x, low in cuts:
        f = f | (x >= low)
    return f


def o4a_found(rho, rho_thr, fars, ifar):
    f = rho >= rho_thr
    for x in fars:
        f = f | (x <= 1 / ifar)
    return f


def magnitude(x, y, z):
    return np.sqrt(x**2 + y**2 + z**2)


def draw_density(p, m1, a1, a2, names):
    """from density per (source masses, redshift, spin vectors) to density per requested parameters"""
    if "mass_ratio" in names:
        p = p * m1  # m2 = q m1
    if "a_1" in names or "chi_eff" in names:
        p = p * (2 * np.pi * a1**2) * (2 * np.pi * a2**2)  # spin vectors to magnitudes and tilts
    return p


def years(t):
    return t / YEAR


def resample(key, model, data, row, n_draw):
    w = model(data) / data[row]
    tot = w.sum()
    n = int(tot**2 // (w**2).sum())
    i = random.choice(key, w.shape[0], shape=(n,), replace=True, p=w / tot)
    new = data[:, i]
    mean = tot / n_draw
    new = new.at[row, :].set(model(new) / mean)
    var = (w**2).sum() / n_draw**2 - mean**2 / n_draw
    return new, n, mean**2 / var
