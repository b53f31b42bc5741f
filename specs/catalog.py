"""Reference: posterior samples with the prior they were drawn from, in source-frame parameters."""
import numpy as np
from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as cosmo


def p_z(z, kind):
    if kind == "euclidean":  # d(luminosity distance)^3/dz
        dl = cosmo.z2DL(z)
        return dl**2 * (dl / (1 + z) + (1 + z) * cosmo.dDcdz(z))
    return cosmo.dVcdz(z) / (1 + z)  # uniform in comoving volume and source time


def largest(zs_all):
    top = 1.9
    for x in zs_all:
        top = np.maximum(top, np.max(x))
    return top


def prior(kind, z, m1, top, names):
    p = 1.0
    if "redshift" in names:
        grid = np.linspace(0, 1.01 * top, 1000)
        pz = p_z(grid, kind)
        p = p * np.interp(z, grid, pz / np.trapezoid(pz, grid))
    if "mass_1" in names:
        p = p * (1 + z) ** 2  # flat in detector-frame masses
    if "mass_ratio" in names:
        p = p * m1
    if "a_1" in names:
        p = p / 4  # uniform magnitudes, isotropic directions
    return p
