"""Reference: flat FLRW distances (astro-ph/9905116) by the trapezoidal rule on a redshift grid."""
import numpy as np

C = 299792458.0  # m/s


def E(om, orad, ol, z):
    return np.sqrt(ol + om * (1 + z) ** 3 + orad * (1 + z) ** 4)


def dDc(h0, om, orad, ol, z):
    return C / h0 / E(om, orad, ol, z)


def dVc(h0, om, orad, ol, z, dc):
    return 4 * np.pi * dc * dc * dDc(h0, om, orad, ol, z)


def table(h0, om, orad, ol, zs):
    dc, vc = [0 * h0], [0 * h0]
    for i in range(len(zs) - 1):
        d = zs[i + 1] - zs[i]
        dc.append(dc[i] + d * (dDc(h0, om, orad, ol, zs[i]) + dDc(h0, om, orad, ol, zs[i + 1])) / 2)
        vc.append(vc[i] + d * (dVc(h0, om, orad, ol, zs[i], dc[i]) + dVc(h0, om, orad, ol, zs[i + 1], dc[i + 1])) / 2)
    return dc, vc


def euclidean_prior(h0, om, orad, ol, z, dl):
    # p(z) ~ dL^2 ddL/dz with dL = (1+z) Dc
    return dl * dl * (dl / (1 + z) + (1 + z) * dDc(h0, om, orad, ol, z))
