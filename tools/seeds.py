"""planted changes: each breaks one property, compiles and passes the existing tests"""
A = "gwinferno/pipeline/analysis.py"
D = "gwinferno/distributions.py"
IT = "gwinferno/interpolation.py"
ND = "gwinferno/numpyro_distributions.py"
BS = "gwinferno/models/bsplines/single.py"
BX = "gwinferno/models/bsplines/separable.py"
SP = "gwinferno/models/spline_perturbation.py"
CO = "gwinferno/cosmology.py"
PR = "gwinferno/preprocess/priors.py"
PAR = "gwinferno/models/parametric/parametric.py"
DC = "gwinferno/preprocess/data_collection.py"
SE = "gwinferno/preprocess/selection.py"
PE_FILES = '''
import os, tempfile, numpy as np, h5py
r = np.random.default_rng(3)
tmp = tempfile.TemporaryDirectory()
names = ["mass_1_source", "mass_2_source", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]

def table(n, zmax=1.0, mmax=90.0):
    a = np.zeros(n, dtype=[(k, float) for k in names])
    a["mass_1_source"] = r.uniform(20, mmax, n)
    a["mass_ratio"] = r.uniform(0.2, 1, n)
    a["mass_2_source"] = a["mass_1_source"] * a["mass_ratio"]
    a["redshift"] = r.uniform(0.05, zmax, n)
    for k in names[4:6]:
        a[k] = r.uniform(0.05, 1, n)
    for k in names[6:]:
        a[k] = r.uniform(-1, 1, n)
    return a

def event(name, tab, prior="euclidean"):
    p = os.path.join(tmp.name, name + ".h5")
    with h5py.File(p, "w") as f:
        f.create_group("C01").create_dataset("posterior_samples", data=tab)
    return dict(file_path=p, waveform="C01", redshift_prior=prior, catalog="GWTC-2")

from gwinferno.preprocess.data_collection import load_posterior_dataset
'''
INJ_FILES = '''
import os, tempfile, numpy as np, h5py
r = np.random.default_rng(5)
tmp = tempfile.TemporaryDirectory()

def o3(n, cols=None):
    p = os.path.join(tmp.name, "o3.h5")
    m1 = r.uniform(10, 80, n)
    d = {"mass1_source": m1, "mass2_source": m1 * r.uniform(0.3, 1, n), "redshift": r.uniform(0.1, 1, n), "sampling_pdf": r.uniform(0.1, 1, n),
         "ifar_gstlal": np.full(n, 2.0), "ifar_pycbc": np.full(n, 2.0), "optimal_snr_net": np.full(n, 12.0)}
    for i in "12":
        for x in "xyz":
            d[f"spin{i}{x}"] = r.uniform(-0.5, 0.5, n)
    d.update(cols or {})
    with h5py.File(p, "w") as f:
        f.attrs["analysis_time_s"] = 86400 * 365.25 * 0.5
        g = f.create_group("injections")
        g.attrs["total_generated"] = 1000
        for k, v in d.items():
            g[k] = v
    return p, d

L = "lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"

def o4(n, cols=None):
    p = os.path.join(tmp.name, "o4.h5")
    m1 = r.uniform(10, 80, n)
    d = {"mass1_source": m1, "mass2_source": m1 * r.uniform(0.3, 1, n), "redshift": r.uniform(0.1, 1, n), "semianalytic_observed_phase_maximized_snr_net": np.full(n, 5.0),
         "gstlal_far": np.full(n, 0.1), "pycbc_far": np.full(n, 0.1), "weights": np.ones(n), L: r.uniform(-3, -1, n)}
    for i in "12":
        for x in "xyz":
            d[f"spin{i}{x}"] = r.uniform(-0.5, 0.5, n)
    d.update(cols or {})
    a = np.zeros(n, dtype=[(k, float) for k in d])
    for k in d:
        a[k] = d[k]
    with h5py.File(p, "w") as f:
        f.attrs["total_generated"] = 5000
        f.attrs["total_analysis_time"] = 86400 * 365.25
        f["events"] = a
    return p, d

from gwinferno.preprocess.data_collection import load_injection_dataset
'''
CA = "gwinferno/postprocess/calculations.py"
UT = "gwinferno/pipeline/utils.py"
PS = "gwinferno/pipeline/parser.py"
CONF = '''
import numpy as np, jax, jax.numpy as jnp, numpyro, copy
from numpyro import handlers
import numpyro.distributions as dist
import gwinferno.pipeline.analysis as an
from gwinferno.pipeline.parser import ConfigReader
from gwinferno.numpyro_distributions import Powerlaw
rng = np.random.default_rng(0)
N, U = "numpyro.distributions.Normal", "numpyro.distributions.Uniform"
pl = lambda a, lo, hi: {"model": "gwinferno.numpyro_distributions.Powerlaw", "hyper_params": {"alpha": a, "minimum": {"value": lo}, "maximum": {"value": hi}}}
z = lambda lamb: {"model": "gwinferno.numpyro_distributions.PowerlawRedshift", "hyper_params": {"lamb": lamb, "maximum": {"value": 2.3}}}
S = {"mass_1": (20, 40), "redshift": (0.1, 1.0), "a_1": (0.1, 0.9), "a_2": (0.1, 0.9)}

def run(models):
    """log weights given to the likelihood, data and sampled values"""
    c = ConfigReader()
    c.construct_model_and_prior_dicts(copy.deepcopy(models))
    m = an.construct_hierarchical_model(c.models, c.priors)
    pe = {k: jnp.array(rng.uniform(*S[k], (3, 50))) for k in c.models} | {"prior": jnp.ones((3, 50))}
    inj = {k: jnp.array(rng.uniform(*S[k], (400,))) for k in c.models} | {"prior": jnp.ones(400)}
    got, orig = [], an.hierarchical_likelihood
    an.hierarchical_likelihood = lambda a, b, *x, **k: got.append((a, b))
    try:
        tr = handlers.trace(handlers.seed(m, jax.random.PRNGKey(0))).get_trace(pe, inj, 1000.0, 3, 1.0)
    finally:
        an.hierarchical_likelihood = orig
    return got[0], pe, inj, {k: v["value"] for k, v in tr.items()}
'''
PLOTS = '''
import os, tempfile, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt, numpy as np
from gwinferno.postprocess import plot
r = np.random.default_rng(2)
tmp = tempfile.TemporaryDirectory()
shown = []

def show(*a, **k):
    for n in plt.get_fignums():
        ax = plt.figure(n).gca()
        shown.append([(l.get_label(), np.array(l.get_xdata()), np.array(l.get_ydata())) for l in ax.lines] + [("band", c.get_paths()[0].vertices) for c in ax.collections])

plt.show = show
pdfs = lambda n, k=3: [r.uniform(0.1, 1.0, (50, n)) * (j + 1) for j in range(k)]
'''
S = [
 dict(id="s01-neff-inj-log", property="C01", edits=[(A, "var = jnp.sum(jnp.exp(logweights) ** 2) / Ninj**2 - mu**2 / Ninj\n        logn_eff",
                                                     "var = jnp.sum(jnp.exp(logweights) ** 2) / Ninj**2 - mu**2 / logweights.shape[0]\n        logn_eff")],
  needs="log weights and a number of found injections different from the number generated",
  what="the variance of the detection efficiency in the log convention subtracts mu^2/N_found instead of mu^2/N_generated, so the two conventions disagree",
  demo='''
import jax, numpy as np, jax.numpy as jnp
jax.config.update("jax_enable_x64", True)
from gwinferno.pipeline.analysis import detection_efficiency
w = np.random.default_rng(0).uniform(0.1, 2.0, 50)
a = detection_efficiency(jnp.array(w), 5000, log=False)
b = detection_efficiency(jnp.log(jnp.array(w)), 5000, log=True)
assert np.allclose([float(x) for x in a], [float(x) for x in b], rtol=1e-9), (a, b)
'''),
 dict(id="s02-neff-cut-nan", property="C02", edits=[(A, "jnp.less_equal(min_n_effs, Nobs),", "jnp.less(min_n_effs, Nobs),")],
  needs="an event whose effective sample count equals the number of events exactly (for example one event carrying all its weight on one sample)",
  what="the per-event effective-sample cut accepts an event whose effective sample size is exactly Nobs, e.g. one event dominated by a single sample",
  demo='''
import jax, numpy as np, jax.numpy as jnp, numpyro
jax.config.update("jax_enable_x64", True)
from gwinferno.pipeline.analysis import hierarchical_likelihood
from numpyro.handlers import seed, trace
w = np.zeros((1, 8)); w[0, 3] = 1.0
inj = np.ones(200)
def m():
    hierarchical_likelihood(jnp.array(w), jnp.array(inj), total_inj=1000, Nobs=1, Tobs=1.0, reconstruct_rate=False)
t = trace(seed(m, jax.random.PRNGKey(0))).get_trace()
assert float(t["neff_less_Nobs"]["value"]) < -1e300, t["neff_less_Nobs"]["value"]
'''),
 dict(id="s03-ppc-key", property="C03", edits=[(A, "                    k1,\n                    pe_weights.shape[1],", "                    k2,\n                    pe_weights.shape[1],")],
  needs="posterior-predictive check with as many found injections as posterior samples (or any statistical use of the pairs)",
  what="the observed and the predicted draw of an event share one random key, so they are no longer independent",
  demo='''
import jax, numpy as np, jax.numpy as jnp
from gwinferno.pipeline.analysis import hierarchical_likelihood
from numpyro.handlers import seed, trace
N, n = 24, 64
pe = {"mass_1": jnp.full((N, n), 30.0), "mass_ratio": jnp.full((N, n), 0.9), "i": jnp.tile(jnp.arange(n), (N, 1))}
inj = {"mass_1": jnp.full(n, 30.0), "mass_ratio": jnp.full(n, 0.9), "i": jnp.arange(n)}
def m():
    hierarchical_likelihood(jnp.ones((N, n)), jnp.ones(n), total_inj=100, Nobs=N, Tobs=1.0, reconstruct_rate=False, posterior_predictive_check=True,
                            param_names=["i"], pedata=pe, injdata=inj)
t = trace(seed(m, jax.random.PRNGKey(0))).get_trace()
same = sum(int(t[f"i_obs_event_{e}"]["value"]) == int(t[f"i_pred_event_{e}"]["value"]) for e in range(N))
assert same < N // 2, same
'''),
 dict(id="s04-inj-mask", property="C04", edits=[(BS, "self._valid_xx_inj = (xx_inj >= self.xmin) & (xx_inj <= self.xmax)", "self._valid_xx_inj = (xx_inj >= self.xmin) & (xx_inj < self.xmax)")],
  needs="an injection sitting exactly on the upper edge of the spline domain",
  what="injections at the upper domain edge get zero density although posterior samples at the same value do not",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.models.bsplines.single import BSplineRatio
q = np.array([0.2, 0.5, 1.0])
m = BSplineRatio(8, q, q)
c = jnp.linspace(1.0, 2.0, 8)
assert np.allclose(m(c, pe_samples=True), m(c, pe_samples=False)), (m(c, pe_samples=True), m(c, pe_samples=False))
'''),
 dict(id="s05-tilt-secondary-inj", property="C05", edits=[(BX, "            ct=ct2,\n            ct_inj=ct2_inj,\n            **kwargs2,", "            ct=ct2,\n            ct_inj=ct1_inj,\n            **kwargs2,")],
  needs="independent spin tilts evaluated on injections whose two tilts differ",
  what="the secondary tilt density of injections is evaluated at the primary tilts",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.models.bsplines.separable import BSplineIndependentSpinTilts as M
r = np.random.default_rng(1)
t1, t2 = r.uniform(-1, 1, 20), r.uniform(-1, 1, 20)
m = M(8, 9, t1, t2, t1, t2)
a, b = jnp.linspace(-1, 1, 8), jnp.linspace(2, -1, 9)
assert np.allclose(m(a, b, pe_samples=True), m(a, b, pe_samples=False), rtol=1e-4)
'''),
 dict(id="s06-beta-scale", property="C06", edits=[(D, "- (alpha + beta - 1) * jnp.log(scale)", "- (alpha + beta - 2) * jnp.log(scale)")],
  needs="a beta distribution with a maximum value other than one",
  what="the scaled beta density loses one power of the scale and integrates to the scale instead of one",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.distributions import betadist
x = np.linspace(1e-4, 0.7 - 1e-4, 20001)
p = np.asarray(betadist(jnp.array(x), 2.0, 3.0, scale=0.7))
assert abs(np.sum((p[1:] + p[:-1]) / 2 * np.diff(x)) - 1) < 1e-2
'''),
 dict(id="s07-indep-spin-amax", property="C07", edits=[(PAR, "* betadist(a2, alpha_mag2, beta_mag2, scale=amax2)", "* betadist(a2, alpha_mag2, beta_mag2, scale=amax1)")],
  needs="different maximum spins for the two components",
  what="the secondary spin magnitude density uses the primary's maximum spin",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.models.parametric.parametric import independent_spin_magnitude_beta_dist as f, beta_spin_magnitude as g
a = jnp.linspace(0.05, 0.7, 9)
got = f(a, a, 2.0, 3.0, 1.5, 4.0, 0.9, 0.8)
assert np.allclose(got, g(a, 2.0, 3.0, 0.9) * g(a, 1.5, 4.0, 0.8), rtol=1e-5)
'''),
 dict(id="s08-icdf-neg1", property="C08", edits=[(ND, "icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(self.maximum / self.minimum))", "icdf_neg1 = self.minimum + jnp.expm1(q * jnp.log1p(self.maximum - self.minimum))")],
  needs="power-law index exactly -1 and a lower bound different from 1",
  what="draws from the power law with index -1 follow p(x) ~ 1/(x - minimum + 1) instead of 1/x",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.numpyro_distributions import Powerlaw
d = Powerlaw(-1.0, minimum=5.0, maximum=80.0, low=5.0, high=80.0)
q = jnp.linspace(0.05, 0.95, 7)
assert np.allclose(d.cdf(d.icdf(q)), q, atol=1e-3), d.cdf(d.icdf(q))
'''),
 dict(id="s09-logy-posinf", property="C09", edits=[(IT, '''logvals = jnp.nan_to_num(jnp.einsum("i...,i->...", bases, coefs), nan=-jnp.inf, posinf=-jnp.inf)''', '''logvals = jnp.nan_to_num(jnp.einsum("i...,i->...", bases, coefs), nan=-jnp.inf)''')],
  needs="a sample outside the domain of a log-y spline all of whose coefficients are negative",
  what="the density outside the domain is infinite instead of zero",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.interpolation import LogYBSpline
b = LogYBSpline(6, xrange=(0.0, 1.0), k=4, normalize=False)
x = np.array([-0.5, 0.2, 0.7, 1.5])
v = np.asarray(b.project(b.bases(x), -jnp.linspace(1.0, 2.0, 6)))
assert v[0] == 0 and v[-1] == 0 and np.all(v[1:3] > 0), v
'''),
 dict(id="s10-cubic-uneven", property="C09", edits=[(IT, "lower_diag1 = jnp.diag(jnp.concatenate((h[:-1], AN1)), k=-1)", "lower_diag1 = jnp.diag(jnp.concatenate((h[1:], AN1)), k=-1)")],
  needs="unevenly spaced interpolation points",
  what="the natural cubic spline's first derivative is discontinuous when the points are unevenly spaced",
  demo='''
import numpy as np, jax, jax.numpy as jnp
jax.config.update("jax_enable_x64", True)
from gwinferno.interpolation import NaturalCubicUnivariateSpline as S
x = jnp.array([0.0, 1.0, 1.5, 4.0, 4.5, 7.0])
s = S(x, jnp.sin(x))
e = 1e-5
d = lambda t: (s(jnp.atleast_1d(t + e)) - s(jnp.atleast_1d(t)))[0] / e
for k in np.asarray(x)[1:-1]:
    assert abs(d(k) - d(k - e)) < 1e-3, (k, d(k), d(k - e))
'''),
 dict(id="s11-extend-min", property="C10", edits=[(CO, "max_z = jnp.max(z)\n        if jnp.greater(", "max_z = jnp.min(z)\n        if jnp.greater(")],
  needs="an array of redshifts that straddles the end of the current table",
  what="the comoving distance of redshifts beyond the table is clamped to the last table entry when a smaller redshift is asked for in the same call",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.cosmology import Cosmology, PLANCK_2015_Ho, PLANCK_2015_OmegaMatter, PLANCK_2015_OmegaLambda
mk = lambda: Cosmology(PLANCK_2015_Ho, PLANCK_2015_OmegaMatter, 0.0, PLANCK_2015_OmegaLambda, max_z=1.0)
a = float(mk().z2Dc(jnp.array([0.3, 2.5]))[1])
b = float(mk().z2Dc(jnp.array([2.5]))[0])
assert np.isclose(a, b, rtol=1e-4), (a, b)
'''),
 dict(id="s12-iso-piece-d", property="C11", edits=[(PR, "q * np.log((1.0 + q) * chi_eff / a_max)", "q * np.log((1.0 + q) * chi_eff)")],
  needs="a maximum spin below one and a spin in the fourth piece of the density",
  what="the isotropic effective-spin prior with a maximum spin below one is wrong in the fourth piece and no longer scales with the maximum spin",
  demo='''
import numpy as np
from gwinferno.preprocess.priors import chi_effective_prior_from_isotropic_spins as p
for q in (0.6, 0.75, 0.9):
    for y in np.linspace(0.02, 0.98, 49):
        a = p(np.array([0.5 * y]), q, a_max=0.5)[0]
        b = p(np.array([y]), q, a_max=1.0)[0] / 0.5
        assert np.isclose(a, b, rtol=1e-6, atol=1e-8), (q, y, a, b)
'''),
 dict(id="s13-joint-amax", property="C11", edits=[(PR, "p_chi_eff = chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=a_max)", "p_chi_eff = chi_effective_prior_from_isotropic_spins(chi_eff, q)")],
  needs="a joint prior with a maximum spin below one",
  what="the joint prior multiplies the conditional for the requested maximum spin by the marginal for maximum spin one",
  demo='''
import numpy as np
import gwinferno.preprocess.priors as P
P.chi_p_prior_given_chi_eff_q = lambda *a, **k: 1.0
for x in (0.1, 0.2, 0.3):
    a = P.joint_prior_from_isotropic_spins(0.2, x, 0.8, a_max=0.5)
    b = P.chi_effective_prior_from_isotropic_spins(x, 0.8, a_max=0.5)
    assert np.allclose(a, b), (a, b)
'''),
 dict(id="s14-cut-own-mass", property="C12", edits=[(DC, '["posterior"][param_mapping["mass_1"]] < mmax', '["posterior"][param_mapping["mass_2"]] < mmax')],
  needs="an event with samples whose primary mass is above the maximum and whose secondary mass is below it",
  what="the mass cut is decided on the secondary mass, so samples with a primary mass above the maximum stay in the catalogue",
  demo=PE_FILES + '''
t = table(40)
t["mass_1_source"][:15] = 120.0
d = load_posterior_dataset(catalog_metadata={"A": event("A", t)}, param_names=["mass_1", "mass_2", "redshift"])
m = d["posteriors"].sel(param="mass_1").values
assert m.max() <= 100.0, m.max()
'''),
 dict(id="s15-zmax-first", property="C12", edits=[(DC, 'catalog_dataset.sel(param="redshift").max().to_array().max().values', 'catalog_dataset.sel(param="redshift").max().to_array().min().values')],
  needs="two events, one of which reaches beyond redshift 1.9",
  what="the redshift prior table stops at the nearest event's largest redshift (or 1.9), so the prior of more distant samples is clamped to the table's last value",
  demo=PE_FILES + '''
near, far = table(30, 0.5), table(30, 0.5)
far["redshift"] = np.linspace(0.3, 3.0, 30)
d = load_posterior_dataset(catalog_metadata={"A": event("A", near, "comoving"), "B": event("B", far, "comoving")}, param_names=["redshift"])
z = d["posteriors"].sel(param="redshift", event="B").values
p = d["posteriors"].sel(param="prior", event="B").values
from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as cosmo
ratio = p / np.asarray(cosmo.dVcdz(z) / (1 + z))
assert np.allclose(ratio / ratio[0], 1.0, rtol=1e-2), ratio
'''),
 dict(id="s16-prior-mass2", property="C12", edits=[(DC, 'if "mass_ratio" in param_names:\n            prior *= catalog_dataset', 'if "mass_2" not in param_names:\n            prior *= catalog_dataset')],
  needs="parameters without both mass_2 and mass_ratio, or with both of them",
  what="the factor mass_1 of the prior on mass ratio is applied when mass_2 is absent instead of when mass_ratio is requested",
  demo=PE_FILES + '''
t = table(25)
m = {"A": event("A", t)}
d = load_posterior_dataset(catalog_metadata=m, param_names=["redshift"])["posteriors"]
e = load_posterior_dataset(catalog_metadata=m, param_names=["redshift", "mass_2"])["posteriors"]
a = dict(zip(d.sel(param="redshift").values[0], d.sel(param="prior").values[0]))
b = dict(zip(e.sel(param="redshift").values[0], e.sel(param="prior").values[0]))
assert all(np.isclose(a[z], b[z], rtol=1e-5) for z in a), (a, b)
'''),
 dict(id="s17-o4a-first-far", property="C13", edits=[(SE, 'found |= injections[key] <= 1 / ifar', 'found |= injections[key] <= ifar')],
  needs="an inverse false alarm rate threshold other than one",
  what="the O4a detection threshold compares the false alarm rate with the inverse false alarm rate instead of its reciprocal",
  demo=INJ_FILES + '''
far = np.array([0.05, 0.3, 0.9, 3.0])
p, c = o4(4, {"gstlal_far": far, "pycbc_far": far})
d = load_injection_dataset(p, ["mass_1", "mass_2", "redshift"], through_o4a=True, ifar_threshold=2)["injections"]
assert np.allclose(d.sel(param="mass_1").values, c["mass1_source"][:2]), d
'''),
 dict(id="s18-o3-ratio-jacobian", property="C13", edits=[(SE, 'if "mass_ratio" in param_names:\n            injs["prior"] *= data["mass1_source"][()][found]', 'if "mass_2" not in param_names:\n            injs["prior"] *= data["mass1_source"][()][found]')],
  needs="O3 injections read with mass_1, mass_2 and mass_ratio, or without either mass_2 or mass_ratio",
  what="the Jacobian of the mass ratio is applied to the draw density when mass_2 is absent instead of when mass_ratio is requested",
  demo=INJ_FILES + '''
p, c = o3(6)
d = load_injection_dataset(p, ["mass_1", "mass_2", "mass_ratio", "redshift"])["injections"]
assert np.allclose(d.sel(param="prior").values, c["sampling_pdf"] * c["mass1_source"], rtol=1e-5), d
d = load_injection_dataset(p, ["redshift"])["injections"]
assert np.allclose(d.sel(param="prior").values, c["sampling_pdf"], rtol=1e-5), d
'''),
 dict(id="s19-resample-norm", property="C13", edits=[(SE, 's2_new = jnp.sum(wts * wts) / (Ndraw * Ndraw) - norm * norm / Ndraw', 's2_new = jnp.sum(wts * wts) / (Ndraw * Ndraw) - norm * norm / Ndet')],
  needs="resampled injections whose number of draws differs from the number found",
  what="the variance of the resampled selection integral subtracts mu^2/N_found instead of mu^2/N_draw, so the effective number of injections is wrong",
  demo='''
import numpy as np, jax, jax.numpy as jnp
from gwinferno.preprocess.selection import resample_injections
w = np.random.default_rng(0).uniform(0.5, 2, 200)
data = jnp.array([w, np.ones(200)])
_, n, neff = resample_injections(jax.random.PRNGKey(0), lambda d: d[0], data, 1000, {"prior": 1})
mu = w.sum() / 1000
s2 = (w**2).sum() / 1000**2 - mu**2 / 1000
assert np.isclose(float(neff), mu**2 / s2, rtol=1e-3), (neff, mu**2 / s2)
'''),
 dict(id="s20-o4a-tilt", property="C13", edits=[(SE, 'injs[f"cos_tilt_{ii}"] = injections[f"spin{ii}z"][found] / injs[f"a_{ii}"]', 'injs[f"cos_tilt_{ii}"] = injections[f"spin{ii}z"][found] / injs["a_1"]')],
  needs="O4a injections read with spins",
  what="the tilt of the second spin is divided by the magnitude of the first",
  demo=INJ_FILES + '''
p, c = o4(7)
d = load_injection_dataset(p, ["mass_1", "mass_2", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"], through_o4a=True)["injections"]
a = np.sqrt(sum(c[f"spin2{x}"] ** 2 for x in "xyz"))
assert np.allclose(d.sel(param="cos_tilt_2").values, c["spin2z"] / a, rtol=1e-5), d
'''),
 dict(id="s21-ppd-second-spin-norm", property="C14", edits=[(CA, 'P_a2 = r * f * p_a2 / trapezoid(p_a2, aa)', 'P_a2 = r * f * p_a2 / trapezoid(p_a1, aa)')],
  needs="independent spin models whose two magnitude densities integrate differently on the grid",
  what="the curve of the second spin magnitude is divided by the integral of the first one's",
  demo='''
import numpy as np
from gwinferno.postprocess.calculations import calculate_bspline_spin_ppds as f
r = np.random.default_rng(0)
n = {"a1": 6, "a2": 16, "tilt1": 6, "tilt2": 6}
a1, a2, aa, c1, c2, cc = f(r.normal(0, 4, (3, 6)), r.normal(size=(3, 6)), n, a2_cs=r.normal(0, 4, (3, 16)), tilt2_cs=r.normal(size=(3, 6)))
for t, x in ((a1, aa), (a2, aa), (c1, cc), (c2, cc)):
    assert np.allclose(np.trapz(t, x, axis=1), 1, rtol=1e-5), np.trapz(t, x, axis=1)
'''),
 dict(id="s22-ppd-logpeak-cut", property="C14", edits=[(CA, 'jnp.where(jnp.less(M, mmin) | jnp.less(M * Q, mmin), 0, p_mq)', 'jnp.where(jnp.less(M, mmin) | jnp.less(Q, mmin / mmax), 0, p_mq)')],
  needs="the peak-in-log-mass curves, where the minimum mass ratio of the grid is below mmin/m1",
  what="secondaries below the minimum mass are no longer removed from the predictive curves of the log-peak mass model",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.postprocess.calculations import calculate_peak_logm1_bspline_q_ppds as f
from gwinferno.distributions import truncnorm_pdf
mp, ms, qp, qs = f(jnp.array([2.5]), jnp.array([0.3]), jnp.zeros((1, 8)), {"q": 8}, 5.0, 100.0)
w = np.asarray(truncnorm_pdf(ms, 2.5, 0.3, 5.0, 100.0, log=True)) * np.array([((qs * m >= 5.0).sum()) for m in ms])
w /= np.trapz(w, ms)
assert np.allclose(mp[0], w, rtol=0.05, atol=2e-3 * w.max()), np.abs(mp[0] - w).max() / w.max()
'''),
 dict(id="s23-ppd-fraction-of-first", property="C14", edits=[(CA, 'calc_rz(z_cs[ii], lamb[ii], rate[ii], pop_frac[ii])', 'calc_rz(z_cs[ii], lamb[ii], rate[ii], pop_frac[0])')],
  needs="population fractions which differ between draws",
  what="every rate curve is scaled by the first draw's population fraction",
  demo='''
import numpy as np, jax.numpy as jnp
from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel
from gwinferno.postprocess.calculations import calculate_powerlaw_spline_rate_of_z_ppds as f
z = jnp.linspace(0.01, 1.5, 40)
m = PowerlawSplineRedshiftModel(6, z, z)
a = (jnp.ones(3), jnp.zeros((3, 5)), jnp.array([1.0, 2.0, 3.0]), m)
one, _ = f(*a)
fr, _ = f(*a, pop_frac=jnp.array([0.1, 0.5, 0.9]))
assert np.allclose(fr, one * np.array([[0.1], [0.5], [0.9]]), rtol=1e-5)
'''),
 dict(id="s24-ignore-last-only", property="C15", edits=[(UT, 'sel += data.pe_data["event"] == gw', 'sel = data.pe_data["event"] == gw')],
  needs="an analysis that ignores two or more events",
  what="only the last of the ignored events is left out of the loaded samples",
  demo='''
import os, tempfile, numpy as np, xarray as xr
from gwinferno.pipeline.utils import load_pe_and_injections_as_dict as load
from gwinferno.preprocess.data_collection import save_posterior_samples_and_injection_datasets_as_idata as save
pe = xr.Dataset({"posteriors": (["event", "param", "sample"], np.arange(24.0).reshape(4, 2, 3))}, coords={"event": ["A", "B", "C", "D"], "param": ["mass_1", "prior"], "sample": [0, 1, 2]})
inj = xr.Dataset({"injections": (["param", "injection"], np.ones((2, 5)))}, coords={"param": ["mass_1", "prior"], "injection": np.arange(5)}, attrs={"total_generated": 9, "analysis_time": 1.0})
with tempfile.TemporaryDirectory() as d:
    save(os.path.join(d, "x.h5"), pe, inj)
    p, _, k, _ = load(os.path.join(d, "x.h5"), ignore=["A", "C"])
assert np.array_equal(p["mass_1"], np.arange(24.0).reshape(4, 2, 3)[[1, 3], 0]), p["mass_1"]
'''),
 dict(id="s25-pdfs-coords-of-draws", property="C15", edits=[(UT, 'coords = {key: ([key], item) for key, item in param_dict.items()}', 'coords = {key: ([key], jnp.linspace(item.min(), item.max(), item.shape[0])) for key, item in param_dict.items()}')],
  needs="a grid that is not evenly spaced (logarithmic or piecewise)",
  what="the curves are labelled with an evenly spaced grid instead of the one they were computed on",
  demo='''
import numpy as np
from gwinferno.pipeline.utils import pdf_dict_to_xarray as f
m, z = np.geomspace(3, 100, 7), np.array([0.01, 0.1, 0.5])
ds = f({"mass_1": [np.ones((2, 7)), np.zeros((2, 7))], "redshift": np.ones((2, 3))}, {"mass_1": m, "redshift": z}, 2, subpop_names=["a", "b"])
assert np.allclose(ds["mass_1"].values, m) and np.allclose(ds["redshift"].values, z)
'''),
 dict(id="s26-second-spin-penalty", property="C16", edits=[(UT, 'apply_difference_prior(a2_cs, a_tau, degree=a_deg)', 'apply_difference_prior(a1_cs, a_tau, degree=a_deg)')],
  needs="independent component spins; every site is still there",
  what="the smoothing penalty of the second spin's coefficients is computed from the first one's",
  demo='''
import jax, numpy as np, numpyro
from gwinferno.pipeline.utils import bspline_spin_prior as f
from gwinferno.models.bsplines.smoothing import apply_difference_prior as pen
tr = numpyro.handlers.trace(numpyro.handlers.seed(lambda: f(8, 9, 2.0, 3.0), 0)).get_trace()
for k, c, t in (("a1_smoothing_prior", "a1_cs", 2.0), ("a2_smoothing_prior", "a2_cs", 2.0), ("ct1_smoothing_prior", "tilt1_cs", 3.0), ("ct2_smoothing_prior", "tilt2_cs", 3.0)):
    assert np.allclose(tr[k]["fn"].log_factor, pen(tr[c]["value"], t, degree=2)), k
'''),
 dict(id="s27-redshift-penalty-without-zero", property="C16", edits=[(UT, '''    z_cs = jnp.concatenate([jnp.zeros(1), z_cs])
    numpyro.factor("z_smoothing_prior" + name, apply_difference_prior(z_cs, z_tau, degree=z_deg))
    return z_cs''', '''    numpyro.factor("z_smoothing_prior" + name, apply_difference_prior(z_cs, z_tau, degree=z_deg))
    return jnp.concatenate([jnp.zeros(1), z_cs])''')],
  needs="the value of the penalty: the sites and the returned coefficients are unchanged",
  what="the smoothing penalty of the redshift spline leaves out its fixed first coefficient",
  demo='''
import numpy as np, numpyro
from gwinferno.pipeline.utils import bspline_redshift_prior as f
from gwinferno.models.bsplines.smoothing import apply_difference_prior as pen
tr = numpyro.handlers.trace(numpyro.handlers.seed(lambda: numpyro.deterministic("ret", f(8, 2.0)), 0)).get_trace()
r = tr["ret"]["value"]
assert r.shape == (8,) and r[0] == 0
assert np.allclose(tr["z_smoothing_prior"]["fn"].log_factor, pen(r, 2.0, degree=2))
'''),
 dict(id="s28-tilt-scale-of-magnitude", property="C16", edits=[(UT, 'ct2_cs = numpyro.sample("tilt2_cs" + name, dist.Normal(0, ct_cs_sig)', 'ct2_cs = numpyro.sample("tilt2_cs" + name, dist.Normal(0, a_cs_sig)')],
  needs="independent spins with different prior widths for magnitudes and tilts",
  what="the coefficients of the second tilt take the prior width of the magnitudes",
  demo='''
import numpyro
from gwinferno.pipeline.utils import bspline_spin_prior as f
tr = numpyro.handlers.trace(numpyro.handlers.seed(lambda: f(8, 9, 2.0, 3.0, a_cs_sig=2.0, ct_cs_sig=7.0), 0)).get_trace()
import numpy as np
for k, s in (("a1_cs", 2), ("a2_cs", 2), ("tilt1_cs", 7), ("tilt2_cs", 7)):
    fn = tr[k]["fn"]
    while hasattr(fn, "base_dist"):
        fn = fn.base_dist
    assert np.allclose(fn.scale, s), (k, fn.scale)
'''),
 dict(id="s29-config-zero-value", property="C17", edits=[(PS, 'elif "value" in subd:', 'elif subd.get("value"):')],
  needs="a configuration that fixes a hyper-parameter at zero",
  what="a hyper-parameter fixed at zero is dropped from the configuration",
  demo=CONF + '''
run({"mass_1": pl({"value": -2.0}, 5.0, 80.0), "redshift": z({"value": 0.0})})
'''),
 dict(id="s30-mixture-first-family", property="C17", edits=[(PS, 'components.append(load_dist_from_string(subd[name]["model"]))', 'components.append(load_dist_from_string(subd["component_1"]["model"]))')],
  needs="a mixture whose components are of different families with the same hyper-parameter names",
  what="every component of a configured mixture is of the first component's family",
  demo=CONF + '''
comp = lambda f, l, s: {"model": f, "hyper_params": {"loc": {"value": l}, "scale": {"value": s}}}
mix = {"model": "numpyro.distributions.MixtureGeneral", "mixture_dist": {"model": "numpyro.distributions.Categorical", "hyper_params": {"probs": {"prior": "numpyro.distributions.Dirichlet", "prior_params": {"concentration": [1.0, 1.0]}}}},
       "component_1": comp(N, 30.0, 5.0), "component_2": comp("numpyro.distributions.Cauchy", 35.0, 2.0)}
one = {"redshift": z({"value": 1.0})}
(a, _), pe, inj, v = run({"mass_1": mix, **one})
w = v["mass_1_mixture_dist_probs"]
rest = run(one)
def zlp(data):
    from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as c
    from gwinferno.numpyro_distributions import PowerlawRedshift
    g = jnp.linspace(1e-9, 2.3, 1000)
    return PowerlawRedshift(1.0, 2.3, g, c.dVcdz(g)).log_prob(data)
want = jnp.log(w[0] * jnp.exp(dist.Normal(30.0, 5.0).log_prob(pe["mass_1"])) + w[1] * jnp.exp(dist.Cauchy(35.0, 2.0).log_prob(pe["mass_1"]))) + zlp(pe["redshift"])
assert np.allclose(a, want, rtol=1e-3, atol=1e-3), np.abs(a - want).max()
'''),
 dict(id="s31-shared-not-in-injections", property="C17", edits=[(A, 'log_prob(injs[k]) for k in source_param_names]', 'log_prob(injs[k]) for k in source_param_names if k not in iid_mapping]')],
  needs="a configuration in which two parameters share one model",
  what="the second parameter of a shared model counts in the posterior weights but not in those of the injections",
  demo=CONF + '''
a1 = {"model": "numpyro.distributions.Beta", "hyper_params": {"concentration1": {"value": 2.0}, "concentration0": {"value": 5.0}}, "iid": {"shared_parameter": "a_2"}}
(a, b), pe, inj, v = run({"a_1": a1, "redshift": z({"value": 0.5})})
f = lambda d: dist.Beta(2.0, 5.0).log_prob(d["a_1"]) + dist.Beta(2.0, 5.0).log_prob(d["a_2"])
i, j = np.argsort(inj["redshift"])[:2], None
# what remains is a function of redshift alone, the same for both data sets
r1 = np.interp(np.ravel(pe["redshift"]), np.sort(inj["redshift"]), np.asarray(b - f(inj))[np.argsort(inj["redshift"])])
ok = (np.ravel(pe["redshift"]) > inj["redshift"].min()) & (np.ravel(pe["redshift"]) < inj["redshift"].max())
assert np.allclose(np.ravel(a - f(pe))[ok], r1[ok], atol=0.05), np.abs(np.ravel(a - f(pe)) - r1)[ok].max()
'''),
 dict(id="s32-batched-index-not-counted", property="C18", edits=[(ND, """            jnp.shape(maximum),
            jnp.shape(alpha),
        )
        super(Powerlaw, self)""", """            jnp.shape(maximum),
        )
        super(Powerlaw, self)""")],
  needs="a power law with a batch of spectral indices and scalar bounds",
  what="the batch shape of a power law ignores the spectral index, so draws for a batch of indices share one random number or fail",
  demo="""
import jax, jax.numpy as jnp
from gwinferno.numpyro_distributions import Powerlaw
d = Powerlaw(jnp.array([-2.0, 0.5, 3.0]), 5.0, 80.0, low=5.0, high=80.0)
assert d.batch_shape == (3,), d.batch_shape
assert d.sample(jax.random.PRNGKey(0), (7,)).shape == (7, 3)
assert Powerlaw(2.0, jnp.array([5.0, 6.0]), 80.0).batch_shape == (2,)
"""),
 dict(id="s33-redshift-support", property="C18", edits=[(ND, """        self.maximum, self.lamb = promote_shapes(maximum, lamb)
        self._support = constraints.interval(low, high)""", """        self.maximum, self.lamb = promote_shapes(maximum, lamb)
        self._support = constraints.interval(low, maximum)""")],
  needs="a redshift power law whose upper bound differs from its cut-off",
  what="the support of the redshift power law ends at the cut-off instead of the bound it was given",
  demo="""
import jax.numpy as jnp
from gwinferno.numpyro_distributions import PowerlawRedshift
g = jnp.linspace(1e-3, 1.5, 200)
d = PowerlawRedshift(2.0, 1.5, g, g**2, low=0.1, high=4.0)
assert bool(d.support(2.0)) and not bool(d.support(4.5)) and not bool(d.support(0.05))
"""),
 dict(id="s34-cosine-draws-share", property="C18", edits=[(ND, ("random.uniform(key, shape=sample_shape + self.batch_shape)", 2), "random.uniform(key, shape=sample_shape or self.batch_shape)")],
  needs="draws of a given sample shape from a batch of cosine distributions",
  what="draws of a batched cosine distribution have the sample shape without the batch shape",
  demo="""
import jax, jax.numpy as jnp
from gwinferno.numpyro_distributions import Cosine
k = jax.random.PRNGKey(1)
d = Cosine(jnp.array([-1.0, -0.5]), jnp.array([0.5, 1.0]))
assert d.sample(k).shape == (2,)
x = d.sample(k, (5, 2))
assert x.shape == (5, 2, 2), x.shape
"""),
 dict(id="s35-ratio-panel-first-population", property="C19", edits=[("gwinferno/postprocess/plot.py", "plot_pdf(q, qpdfs[i], names[i]", "plot_pdf(q, qpdfs[0], names[i]")],
  needs="at least two populations in one mass plot",
  what="every population's mass-ratio curve is that of the first population",
  demo=PLOTS + """
m, q = np.linspace(5, 80, 20), np.linspace(0.1, 1, 15)
mp, qp = pdfs(20), pdfs(15)
plot.plot_mass_pdfs(mp, qp, m, q, ["A", "B", "C"], "x", tmp.name, save=False)
for fig, x, p in zip(shown, (m, q), (mp, qp)):
    got = {l[0]: l for l in fig if len(l) == 3}
    for n, d in zip("ABC", p):
        assert np.allclose(got[n][1], x) and np.allclose(got[n][2], np.median(d, axis=0)), n
"""),
 dict(id="s36-secondary-tilt-file", property="C19", edits=[("gwinferno/postprocess/plot.py", "/cos_tilt{comp}_pdf_{label}.png", "/cos_tilt1_pdf_{label}.png")],
  needs="plots of the secondary spins saved after those of the primary",
  what="the tilt plot of the secondary overwrites that of the primary",
  demo=PLOTS + """
a, t = np.linspace(0, 1, 9), np.linspace(-1, 1, 11)
plot.plot_spin_pdfs(pdfs(9), pdfs(11), a, t, ["A", "B", "C"], "x", tmp.name)
plot.plot_spin_pdfs(pdfs(9), pdfs(11), a, t, ["A", "B", "C"], "x", tmp.name, secondary=True)
want = {f"{s}{i}_pdf_x.png" for s in ("spin_mag", "cos_tilt") for i in "12"}
assert set(os.listdir(tmp.name)) == want, os.listdir(tmp.name)
"""),
 dict(id="s37-band-over-everything", property="C19", edits=[("gwinferno/postprocess/plot.py", "low = np.percentile(pdf, 5, axis=0)", "low = np.percentile(pdf, 5)")],
  needs="densities that vary over the grid",
  what="the lower edge of the band is one number, the percentile over draws and grid together",
  demo=PLOTS + """
x = np.linspace(0, 1, 9)
d = r.uniform(0.9, 1.1, (50, 9)) * (1 + x)
plot.plot_rate_of_z_pdfs(d, x, "x", tmp.name, save=False)
v = next(l for l in shown[0] if len(l) == 2)[1]
lo = np.percentile(d, 5, axis=0)
for a, b in zip(x, lo):
    assert any(np.allclose(w, (a, b)) for w in v), (a, b)
"""),
 dict(id="s38-bivariate-grid-local", property="C20", edits=[(IT, """            self.gridx = jnp.linspace(*xrange, 750)
            self.gridy = jnp.linspace(*yrange, 750)
            self.gxx, self.gyy = jnp.meshgrid(self.gridx, self.gridy)""", """            gridx = jnp.linspace(*xrange, 750)
            gridy = jnp.linspace(*yrange, 750)
            self.gxx, self.gyy = jnp.meshgrid(gridx, gridy)""")],
  needs="evaluating a normalised two-dimensional spline",
  what="the normalisation of the two-dimensional spline reads its grid from attributes that the constructor no longer sets",
  demo="""
import jax.numpy as jnp, numpy as np
from gwinferno.interpolation import RectBivariateBasisSpline
s = RectBivariateBasisSpline(5, 6)
x = jnp.linspace(0.01, 0.99, 7)
v = s.project(s.bases(x, x), jnp.zeros((5, 6)))
assert np.allclose(v, 1.0, atol=1e-2), v
"""),
 dict(id="s39-keyword-renamed", property="C20", edits=[("gwinferno/postprocess/calculations.py", "nspline_dict, a2_cs=None, tilt2_cs=None, rate=None", "nspline_dict, a2_cs=None, ct2_cs=None, rate=None"),
   ("gwinferno/postprocess/calculations.py", "ctpdfs_2 = np.zeros((tilt2_cs.shape[0], len(cc)))", "ctpdfs_2 = np.zeros((ct2_cs.shape[0], len(cc)))"),
   ("gwinferno/postprocess/calculations.py", "a2_cs[i], tilt2_cs[i], rate[i]", "a2_cs[i], ct2_cs[i], rate[i]")],
  needs="a caller that passes the secondary tilt coefficients by name, as the example does",
  what="the parameter for the secondary tilt coefficients is renamed and its callers are not",
  demo="""
import os, re, sys, numpy as np
sys.path.insert(0, os.path.join(os.getcwd(), "examples"))
import ast, inspect
from gwinferno.postprocess import calculations
n = 0
for f in ("simple_bspline_example.py", "simple_powerlaw_peak_example.py"):
    for c in ast.walk(ast.parse(open(os.path.join("examples", f)).read())):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and hasattr(calculations, c.func.id) and c.func.id.startswith("calculate_"):
            inspect.signature(getattr(calculations, c.func.id)).bind(*c.args, **{k.arg: 0 for k in c.keywords})
            n += 1
assert n >= 5
"""),
 dict(id="s40-projection-norm-kept", property="C09", edits=[(IT, """        n = 1.0 / trapezoid(self._project(self.grid_bases, coefs), self.grid) if self.normalize else 1.0
        return n""", """        if not self.normalize:
            return 1.0
        if np.shape(coefs) not in self._norms:
            self._norms[np.shape(coefs)] = 1.0 / trapezoid(self._project(self.grid_bases, coefs), self.grid)
        return self._norms[np.shape(coefs)]"""), (IT, """        self.N = n_df
        self.xrange = xrange
        if knots is None:
            if interior_knots is None:
                interior_knots = np.linspace(xrange[0], xrange[1], n_df - k + 2)
            interior_knots = np.asarray(interior_knots)
            pad = np.arange(1, k)
            knots = jnp.concatenate(""", """        self.N = n_df
        self.xrange = xrange
        self._norms = {}
        if knots is None:
            if interior_knots is None:
                interior_knots = np.linspace(xrange[0], xrange[1], n_df - k + 2)
            interior_knots = np.asarray(interior_knots)
            pad = np.arange(1, k)
            knots = jnp.concatenate(""")],
  needs="two projections on one spline object with different coefficients",
  what="the normalisation is remembered per shape of the coefficients, so the second density is normalised with the first one's",
  demo="""
import jax.numpy as jnp, numpy as np
from jax.scipy.integrate import trapezoid
from gwinferno.interpolation import BSpline
s = BSpline(6, xrange=(0, 1), normalize=True)
x = jnp.linspace(0, 1, 2000)
for c in (jnp.ones(6), jnp.arange(1.0, 7.0)):
    assert np.isclose(trapezoid(s.eval(x, c), x), 1.0, atol=1e-2), c
"""),
 dict(id="s41-powerlaw-norm-per-bounds", property="C06", edits=[(D, """    prob *= norm

    return jnp.where(jnp.less(xx, low) |""", """    prob *= _NORMS.setdefault((alpha, high), norm) if isinstance(alpha, float) and isinstance(high, float) else norm

    return jnp.where(jnp.less(xx, low) |"""), (D, "def powerlaw_pdf", "_NORMS = {}\n\n\ndef powerlaw_pdf")],
  needs="two evaluations with one index and upper bound as plain numbers and different lower bounds",
  what="the normalisation of a power law is remembered without its lower bound",
  demo="""
import jax.numpy as jnp, numpy as np
from jax.scipy.integrate import trapezoid
from gwinferno.distributions import powerlaw_pdf
for low in (2.0, 5.0, 8.0):
    x = jnp.linspace(low, 80.0, 20000)
    assert np.isclose(trapezoid(powerlaw_pdf(x, -2.5, low, 80.0), x), 1.0, atol=1e-2), low
"""),
 dict(id="s42-one-table-for-all-cosmologies", property="C10", edits=[(CO, """        self.extend(max_z, dz=dz)

    @property
    def DL(self):""", """        if (max_z, dz) not in Cosmology._tables:
            self.extend(max_z, dz=dz)
            Cosmology._tables[max_z, dz] = (self.z, self.Dc, self.Vc)
        self.z, self.Dc, self.Vc = Cosmology._tables[max_z, dz]

    @property
    def DL(self):"""), (CO, "class Cosmology(object):", "class Cosmology(object):\n    _tables = {}\n")],
  needs="two cosmologies with different parameters and the same maximum redshift in one process",
  what="the distance table is shared by all cosmologies of one maximum redshift, whatever their parameters",
  demo="""
import numpy as np
from gwinferno.cosmology import Cosmology
c = Cosmology(7.0e6, 0.3, 0.0, 0.7, max_z=0.5)
d = Cosmology(3.5e6, 0.3, 0.0, 0.7, max_z=0.5)
assert np.isclose(float(d.z2Dc(0.2)), 2 * float(c.z2Dc(0.2)), rtol=1e-3), (c.z2Dc(0.2), d.z2Dc(0.2))
"""),
 dict(id="s43-key-file-names", property="C12", edits=[(DC, "            catalog_metadata = json.load(f)", "            catalog_metadata = json.load(f, object_pairs_hook=lambda kv: {k.strip(\"_\"): v for k, v in sorted(kv)})")],
  needs="a key file whose events are not in alphabetical order",
  what="events read from a key file are in alphabetical order instead of the order of the file, unlike the same metadata given as a dictionary",
  demo="""
import json, os, tempfile, numpy as np
from gwinferno.preprocess import data_collection as d
seen = []
d.unprocessed_catalog_dict_from_metadata = lambda m: seen.append(list(m)) or (_ for _ in ()).throw(KeyError("stop"))
m = {n: dict(file_path="x", waveform="w", redshift_prior="euclidean", catalog="GWTC-2") for n in ("S2", "S1", "S3")}
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "keys.json")
    json.dump(m, open(p, "w"))
    for k in (dict(catalog_metadata=m), dict(key_file=p)):
        try:
            d.load_posterior_dataset(**k)
        except KeyError:
            pass
assert seen[0] == seen[1] == ["S2", "S1", "S3"], seen
"""),
 dict(id="s44-whole-mass-bound", property="C15", edits=[(PS, "\"--mmin\", type=float, default=3.0", "\"--mmin\", type=int, default=3")],
  needs="a minimum mass on the command line that is not a whole number",
  what="the base parser of configured runs refuses a fractional minimum mass",
  demo="""
from gwinferno.pipeline.parser import load_base_parser
a = load_base_parser().parse_args(["--mmin", "4.5"])
assert a.mmin == 4.5
"""),
 dict(id="s45-validation-not-passed-on", property="C18", edits=[(ND, """            jnp.shape(alpha),
        )
        super(Powerlaw, self).__init__(batch_shape=batch_shape, validate_args=validate_args)""", """            jnp.shape(alpha),
        )
        super(Powerlaw, self).__init__(batch_shape=batch_shape)""")],
  needs="a power law built with validate_args=True",
  what="validation that was asked for does not happen: values outside the support are not reported",
  demo="""
import warnings, jax.numpy as jnp
from gwinferno.numpyro_distributions import Powerlaw
try:
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        Powerlaw("x", 1.0, 10.0, 1.0, 10.0, validate_args=True) if False else Powerlaw(-2.0, 1.0, 10.0, 1.0, 10.0, validate_args=True).log_prob(20.0)
    seen = False
except UserWarning:
    seen = True
assert seen
"""),
 dict(id="s46-numpy-power", property="C21", edits=[(D, "    prob = jnp.power(xx, alpha)\n    norm", "    prob = np.power(xx, alpha)\n    norm"), (D, "import jax.numpy as jnp", "import jax.numpy as jnp\nimport numpy as np")],
  needs="a power-law density whose index is sampled, or that is compiled or differentiated",
  what="the density works for given numbers and fails as soon as its index is a traced value",
  demo="""
import jax, jax.numpy as jnp, numpy as np
from gwinferno.distributions import powerlaw_pdf
x = jnp.linspace(2.0, 80.0, 50)
assert np.isfinite(jax.grad(lambda a: jnp.sum(powerlaw_pdf(x, a, 2.0, 80.0)))(-2.5))
"""),
 dict(id="s47-python-decision-on-index", property="C21", edits=[(ND, "            jnp.where(jnp.equal(self.alpha, -1.0), logp_neg1, logp),", "            logp_neg1 if jnp.ndim(self.alpha) == 0 and self.alpha == -1.0 else jnp.where(jnp.equal(self.alpha, -1.0), logp_neg1, logp),")],
  needs="the log density of a power law whose index is itself sampled",
  what="a Python decision on the index makes the log density impossible to trace",
  demo="""
import jax, numpy as np
from gwinferno.numpyro_distributions import Powerlaw
assert np.isfinite(jax.jit(lambda a: Powerlaw(a, 1.0, 10.0).log_prob(3.0))(-2.0))
"""),
 dict(id="s48-numpy-coefficients", property="C21", edits=[(UT, "    z_cs = jnp.concatenate([jnp.zeros(1), z_cs])", "    z_cs = np.concatenate([np.zeros(1), z_cs])")],
  needs="the redshift prior inside a model that a sampler traces",
  what="the coefficients of the redshift spline are turned into a numpy array",
  demo="""
import jax, jax.numpy as jnp, numpy as np
from numpyro import handlers
from gwinferno.pipeline import utils as u


def draw(key):
    with handlers.seed(rng_seed=key):
        return u.bspline_redshift_prior(5, 1)


assert len(jax.tree_util.tree_leaves(jax.jit(draw)(jax.random.PRNGKey(0)))) >= 1
"""),
]
