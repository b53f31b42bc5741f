"""Reference definitions for the Monte-Carlo hierarchical likelihood."""
import jax.numpy as jnp
import numpyro
import numpyro.distributions as dist
from jax import random


def event_terms(w, n):
    """w: linear importance weights (events, samples)"""
    s1 = jnp.sum(w, axis=1)
    s2 = jnp.sum(w**2, axis=1)
    neff = s1**2 / s2
    return jnp.log(s1 / n), jnp.log(neff), 1 / neff - 1 / n


def per_event_log_bayes_factors(weights, log):
    w = jnp.exp(weights) if log else weights
    return event_terms(w, weights.shape[1])


def detection_efficiency(weights, Ninj, log):
    w = jnp.exp(weights) if log else weights
    mu = jnp.sum(w) / Ninj
    var = jnp.sum(w**2) / Ninj**2 - mu**2 / Ninj
    neff = mu**2 / var
    return jnp.log(mu), jnp.log(neff), 1 / neff - 1 / Ninj


def hierarchical_likelihood(pe_weights, inj_weights, total_inj, Nobs, Tobs, surveyed_hypervolume, reconstruct_rate,
                            marginalize_selection, min_neff_cut, max_variance_cut, log):
    lowest = jnp.nan_to_num(-jnp.inf)
    lbf, lneffs, variances = per_event_log_bayes_factors(pe_weights, log)
    lmu, lneff_inj, var_mu = detection_efficiency(inj_weights, total_inj, log)
    numpyro.deterministic("log_nEff_inj", lneff_inj)
    numpyro.deterministic("log_nEffs", lneffs)
    numpyro.deterministic("logBFs", lbf)
    numpyro.deterministic("detection_efficiency", jnp.exp(lmu))
    numpyro.deterministic("variance_log_BFs", variances)
    numpyro.deterministic("variance_log_detection_efficiency", var_mu)
    rate = None
    if reconstruct_rate:
        vt = surveyed_hypervolume * 1e-9 * Tobs
        numpyro.deterministic("surveyed_hypervolume", vt)
        g = numpyro.sample("unscaled_rate", dist.Gamma(Nobs, 1.0))
        rate = g / (jnp.exp(lmu) * vt)
        numpyro.deterministic("rate", rate)
    if marginalize_selection:
        lmu = lmu - (3 + Nobs) / (2 * jnp.exp(lneff_inj))
    if min_neff_cut:
        lmu = jnp.where(lneff_inj >= jnp.log(4 * Nobs), lmu, jnp.inf)
    sel = jnp.where(jnp.isinf(lmu), lowest, -Nobs * lmu)
    numpyro.deterministic("selection_factor", sel)
    tot = jnp.sum(lbf)
    numpyro.deterministic("sum_logBFs", tot)
    ll = sel + tot
    ll = jnp.where(jnp.isnan(ll), lowest, jnp.nan_to_num(ll))
    numpyro.deterministic("log_l", ll)
    if min_neff_cut:
        smallest = jnp.exp(jnp.min(jnp.nan_to_num(lneffs)))
        ll = jnp.where(smallest <= Nobs, lowest, ll)
        numpyro.deterministic("neff_less_Nobs", ll)
    v = Nobs**2 * var_mu + jnp.sum(variances)
    numpyro.deterministic("variance_log_likelihood", v)
    if max_variance_cut:
        ll = jnp.where(v <= 1, ll, lowest)
        numpyro.deterministic("variance_less_1", ll)
    numpyro.factor("log_likelihood", ll)
    return rate


def categorical_weights(pe_weights, pop_frac, Nobs, rngkey):
    with numpyro.plate("nObs", Nobs) as i:
        q = numpyro.sample("Qs", dist.Categorical(probs=jnp.array(pop_frac)), rng_key=rngkey).reshape((-1, 1))
    return jnp.where(q[i] == 0, pe_weights[0][i], pe_weights[1][i])


def ppc(pe_weights, inj_weights, Nobs, param_names, pedata, injdata, m1min, m2min, mmax, log, marginal_qs, indv_weights):
    wp = jnp.exp(pe_weights) if log else pe_weights
    wi = jnp.exp(inj_weights) if log else inj_weights

    def outside(d):
        return (d["mass_1"] < m1min) | (d["mass_1"] > mmax) | (d["mass_1"] * d["mass_ratio"] < m2min)

    wp = jnp.where(outside(pedata), 0, wp)
    wi = jnp.where(outside(injdata), 0, wi)
    for ev in range(Nobs):
        k1, k2 = random.split(random.PRNGKey(ev))
        o = random.choice(k1, wp.shape[1], p=wp[ev, :] / jnp.sum(wp[ev, :]))
        if marginal_qs:
            for i in range(len(indv_weights)):
                numpyro.deterministic(f"cat_frac_subpop_{i + 1}_event_{ev}", indv_weights[i][ev, o] / wp[ev, o])
        s = random.choice(k2, wi.shape[0], p=wi / jnp.sum(wi))
        for p in param_names:
            numpyro.deterministic(f"{p}_obs_event_{ev}", pedata[p][ev, o])
            numpyro.deterministic(f"{p}_pred_event_{ev}", injdata[p][s])
