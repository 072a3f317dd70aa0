"""Exporting latents and models for Bayesian inference: what is built, and that the simulation model is left as it was."""
import numpy as np
import pymc
import pyro
import pyro.distributions as pdist
import torch as tc

from gerabaldi.exceptions import UserConfigError
from gerabaldi.models import CondShiftMdl, DegMechMdl, Deterministic, Gamma, InitValMdl, LatentVar, Normal, Uniform
from sa.lang import assume, calls, case, mutated, ncalls, owned


def joined(kind, target, a, b):
    if target == 'pymc':
        return np.multiply(a, b) if kind == 'scaling' else np.add(a, b)
    return tc.multiply(a, b) if kind == 'scaling' else tc.add(a, b)


def normal_form(target, name, m, s):
    if target == 'pymc':
        return pymc.Normal(name=name, observed=None, mu=m, sigma=s)
    return pyro.sample(name, pdist.Normal(loc=m, scale=s))


# ---------------------------------------------------------------- distributions
@case(prop='C20 C19', libs_ok=True)
def distribution_forms(m: float, s: float, a: float, b: float, lo: float, hi: float, name: str, target: str, obs: Any):
    return (Normal(m, s, name=name).get_cbi_form(target, obs), Gamma(a, b, name=name).get_cbi_form(target, obs),
            Uniform(lo, hi, name=name).get_cbi_form(target, obs))


def distribution_forms__expect(m: float, s: float, a: float, b: float, lo: float, hi: float, name: str, target: str, obs: Any):
    if target == 'pymc':
        return (pymc.Normal(name=name, observed=obs, mu=m, sigma=s), pymc.Gamma(name=name, observed=obs, alpha=a, beta=b),
                pymc.Uniform(name=name, observed=obs, lower=lo, upper=hi))
    if target == 'pyro':
        return (pyro.sample(name, pdist.Normal(loc=m, scale=s)), pyro.sample(name, pdist.Gamma(concentration=a, rate=b)),
                pyro.sample(name, pdist.Uniform(low=lo, high=hi)))
    raise NotImplementedError('target')


@case(prop='C20')
def unknown_framework_form_rejected(m: float, s: float, target: str):
    assume(target != 'pymc', target != 'pyro')
    return Normal(m, s, name='n').get_cbi_form(target)


def unknown_framework_form_rejected__expect(m: float, s: float, target: str):
    assume(target != 'pymc', target != 'pyro')
    raise NotImplementedError('export')


@case(prop='C20')
def constant_has_no_form(x: float, target: str):
    return Deterministic(x, name='n').get_cbi_form(target)


def constant_has_no_form__expect(x: float, target: str):
    raise NotImplementedError('export')


# ---------------------------------------------------------------- latents
@case(prop='C20', libs_ok=True)
def latent_device_only(m: float, s: float, kind: str, target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    d = Normal(m, s)
    v = LatentVar(d, name=name, vrtn_type=kind)
    e = v.cbi_export(target)
    return e, d.mu, d.sigma


def latent_device_only__expect(m: float, s: float, kind: str, target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    return normal_form(target, name, m, s), m, s


@case(prop='C20', libs_ok=True)
def latent_value_is_folded_in_and_removed(m: float, s: float, x: float, kind: str, target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    d = Normal(m, s)
    v = LatentVar(d, deter_val=x, name=name, vrtn_type=kind)
    e = v.cbi_export(target)
    return e, d.mu, d.sigma, v.deter_val, v.vrtn_type


def latent_value_is_folded_in_and_removed__expect(m: float, s: float, x: float, kind: str, target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    return normal_form(target, name, joined(kind, target, x, m), s), m, s, x, kind


@case(prop='C20', libs_ok=True)
def latent_exports_repeat(m: float, s: float, x: float, kind: str, target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    v = LatentVar(Normal(m, s), deter_val=x, name=name, vrtn_type=kind)
    v.cbi_export(target)
    v.cbi_export('pymc')
    return v.cbi_export(target)


def latent_exports_repeat__expect(m: float, s: float, x: float, kind: str, target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    one = normal_form(target, name, joined(kind, target, x, m), s)
    two = normal_form('pymc', name, joined(kind, 'pymc', x, m), s)
    return normal_form(target, name, joined(kind, target, x, m), s)


@case(prop='C20', libs_ok=True)
def latent_layers_exported(m: float, s: float, m2: float, s2: float, m3: float, s3: float, chp: bool, lot: bool, kind: str,
                           target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    d, c, l = Normal(m, s), Normal(m2, s2), Normal(m3, s3)
    v = LatentVar(d, c if chp else None, l if lot else None, name=name, vrtn_type=kind)
    v.name = name
    e = v.cbi_export(target)
    return e, d.mu, d.sigma, c.mu, c.sigma, l.mu, l.sigma


def latent_layers_exported__expect(m: float, s: float, m2: float, s2: float, m3: float, s3: float, chp: bool, lot: bool,
                                   kind: str, target: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro', name != '')
    if not chp and not lot:
        return normal_form(target, name, m, s), m, s, m2, s2, m3, s3
    e = normal_form(target, name + '_dev', m, s)
    if chp and lot:
        c = normal_form(target, name + '_chp', m2, s2)
        l = normal_form(target, name + '_lot', m3, s3)
        e = joined(kind, target, joined(kind, target, e, c), l)
    elif chp:
        e = joined(kind, target, e, normal_form(target, name + '_chp', m2, s2))
    else:
        e = joined(kind, target, e, normal_form(target, name + '_lot', m3, s3))
    if target == 'pymc':
        e = pymc.Deterministic(name, e)
    return e, m, s, m2, s2, m3, s3


@case(prop='C20', finite=True, libs_ok=True)
def layered_latent_with_base_value(m: float, s: float, m2: float, m3: float, x: float, chp: bool, lot: bool, kind: str, name: str):
    assume(kind == 'scaling' or kind == 'offset', name != '')
    d, c, l = Normal(m, s), Normal(m2), Normal(m3)
    v = LatentVar(d, c if chp else None, l if lot else None, x, name, kind)
    v.name = name
    e = v.cbi_export('pymc')
    f = v.cbi_export('pymc')
    return e, f, d.mu, d.sigma, c.mu, l.mu, v.deter_val


def layered_latent_with_base_value__expect(m: float, s: float, m2: float, m3: float, x: float, chp: bool, lot: bool, kind: str,
                                           name: str):
    assume(kind == 'scaling' or kind == 'offset', name != '')
    mu = x * m if kind == 'scaling' else x + m
    if not chp and not lot:
        e = normal_form('pymc', name, mu, s)
        return e, e, m, s, m2, m3, x
    e = normal_form('pymc', name + '_dev', mu, s)
    if chp:
        e = joined(kind, 'pymc', e, normal_form('pymc', name + '_chp', m2, 1))
    if lot:
        e = joined(kind, 'pymc', e, normal_form('pymc', name + '_lot', m3, 1))
    e = pymc.Deterministic(name, e)
    return e, e, m, s, m2, m3, x


@case(prop='C20 C21')
def latent_without_distribution_rejected(x: float, c: Is[Normal], kind: str, target: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro')
    LatentVar(None, c, None, x, 'n', kind).cbi_export(target)


def latent_without_distribution_rejected__expect(x: float, c: Is[Normal], kind: str, target: str):
    assume(kind == 'scaling' or kind == 'offset', target == 'pymc' or target == 'pyro')
    raise UserConfigError('deterministic')


@case(prop='C20 C21')
def unknown_framework_rejected_untouched(m: float, s: float, x: float, kind: str, target: str):
    assume(kind == 'scaling' or kind == 'offset', target != 'pymc', target != 'pyro')
    d = Normal(m, s)
    v = LatentVar(d, deter_val=x, name='n', vrtn_type=kind)
    try:
        v.cbi_export(target)
    except NotImplementedError:
        return 'rejected', d.mu, d.sigma
    return 'accepted', d.mu, d.sigma


def unknown_framework_rejected_untouched__expect(m: float, s: float, x: float, kind: str, target: str):
    assume(kind == 'scaling' or kind == 'offset', target != 'pymc', target != 'pyro')
    return 'rejected', m, s


# ---------------------------------------------------------------- models
@case(prop='C20', cut=['LatentVar.cbi_export'])
def model_exported(eqn: Fn, name: str, a: Is[LatentVar], b: Is[LatentVar], cond: str, cv: Any, ov: Any, target: str):
    assume(cond != name, cond != 'p', cond != 'q')
    assume(a.name != '', b.name != '', a.name is not None, b.name is not None)
    mdl = InitValMdl(eqn, name, p=a, q=b)
    return mdl.export_to_cbi(target, {cond: cv, name: ov})


def model_exported__expect(eqn: Fn, name: str, a: Is[LatentVar], b: Is[LatentVar], cond: str, cv: Any, ov: Any, target: str):
    assume(cond != name, cond != 'p', cond != 'q')
    assume(a.name != '', b.name != '', a.name is not None, b.name is not None)
    p, q = a.cbi_export(target), b.cbi_export(target)
    y = eqn(**{'p': p, 'q': q, cond: cv})
    if target == 'pymc':
        return pymc.Normal(name=name, mu=y, sigma=1, observed=ov)
    return pyro.sample(name, pdist.Normal(y, 0.1).to_event(), obs=ov)
