"""Reference: priors of spline coefficients and the models assembled from loaded data."""
import jax.numpy as jnp
import numpyro
import numpyro.distributions as dist
from numpyro.infer import SVI, Trace_ELBO, autoguide
from numpyro.optim import Adam
from .npdists import ps_lp


def coefs(site, factor, n, sig, tau, order, zero=0):
    """n independent normal coefficients and the difference penalty on them; the first `zero` (of n) are fixed at zero"""
    c = numpyro.sample(site, dist.Normal(0.0, sig), sample_shape=(n - zero,))
    if zero:
        c = jnp.concatenate([jnp.zeros(1), c])
    numpyro.factor(factor, ps_lp(c, tau, order))
    return c


def find_map(rng_key, model, args, niter, lr):
    svi = SVI(model, autoguide.AutoDelta(model), Adam(lr), Trace_ELBO())
    return svi.run(rng_key, niter, *args).params
