import jax.numpy as jnp

from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology


def zgrid(zmax):
    z = jnp.linspace(1e-9, zmax, 1000)
    return z, PLANCK_2015_LVK_Cosmology.dVcdz(z)


def weights(models, data, prior):
    return sum([m.log_prob(x) for m, x in zip(models, data)]) - jnp.log(prior)
