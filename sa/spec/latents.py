"""Latent variables: layering of lot, chip and device variation; reassigning layers; distributions."""
import numpy as np

from gerabaldi.exceptions import InvalidTypeError, UserConfigError
from gerabaldi.models import Deterministic, Gamma, LatentVar, Normal, RandomVar, Uniform
from sa.lang import assume, calls, case, mutated, ncalls, owned


def combine(kind, a, b):
    return a * b if kind == 'scaling' else a + b


# ---------------------------------------------------------------- layering
@case(prop='C07', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def latent_layers(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return LatentVar(dev, chp, lot, vrtn_type=kind).gen_latent_vals(D, C, L)


def latent_layers__expect(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    d = dev.sample(L * C * D)
    c = chp.sample(L * C)
    l = lot.sample(L)
    out = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                out[i, j, k] = combine(kind, combine(kind, d[(i * C + j) * D + k], c[i * C + j]), l[i])
    return out


@case(prop='C07', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def latent_layers_with_value(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], x: float, kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return LatentVar(dev, chp, lot, x, 'n', kind).gen_latent_vals(D, C, L)


def latent_layers_with_value__expect(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], x: float, kind: str, D: Dim, C: Dim,
                                     L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    LatentVar(dev, chp, lot, x, 'n', kind)
    d = dev.sample(L * C * D)
    c = chp.sample(L * C)
    l = lot.sample(L)
    out = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                out[i, j, k] = combine(kind, combine(kind, combine(kind, x, d[(i * C + j) * D + k]), c[i * C + j]), l[i])
    return out


@case(prop='C07')
def deterministic_latent(x: float, kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return LatentVar(deter_val=x, vrtn_type=kind).gen_latent_vals(D, C, L)


def deterministic_latent__expect(x: float, kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return np.full((L, C, D), x)


@case(prop='C07', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def latent_single_layer(v: Is[Normal], kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return (LatentVar(v, vrtn_type=kind).gen_latent_vals(D, C, L),
            LatentVar(deter_val=1.0, chp_vrtn_mdl=v, vrtn_type=kind).gen_latent_vals(D, C, L),
            LatentVar(deter_val=1.0, lot_vrtn_mdl=v, vrtn_type=kind).gen_latent_vals(D, C, L))


def latent_single_layer__expect(v: Is[Normal], kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    a, b, c = np.empty((L, C, D)), np.empty((L, C, D)), np.empty((L, C, D))
    dv = v.sample(L * C * D)
    cv = v.sample(L * C)
    lv = v.sample(L)
    for i in range(L):
        for j in range(C):
            for k in range(D):
                a[i, j, k] = dv[(i * C + j) * D + k]
                b[i, j, k] = combine(kind, 1.0, cv[i * C + j])
                c[i, j, k] = combine(kind, 1.0, lv[i])
    return a, b, c


# ---------------------------------------------------------------- reassignment
@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def switching_kind_equals_fresh(v: Is[Normal], x: float, first: str, kind: str, D: Dim, C: Dim, L: Dim):
    assume(first == 'scaling' or first == 'offset')
    assume(kind == 'scaling' or kind == 'offset')
    l = LatentVar(v, deter_val=x, vrtn_type=first)
    l.vrtn_type = kind
    return l.gen_latent_vals(D, C, L)


def switching_kind_equals_fresh__expect(v: Is[Normal], x: float, first: str, kind: str, D: Dim, C: Dim, L: Dim):
    assume(first == 'scaling' or first == 'offset')
    assume(kind == 'scaling' or kind == 'offset')
    return LatentVar(v, deter_val=x, vrtn_type=kind).gen_latent_vals(D, C, L)


@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def replacing_layers_equals_fresh(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    l = LatentVar(deter_val=x, vrtn_type=kind)
    l.dev_vrtn_mdl = a
    l.chp_vrtn_mdl = b
    l.lot_vrtn_mdl = c
    return l.gen_latent_vals(D, C, L)


def replacing_layers_equals_fresh__expect(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim, C: Dim,
                                          L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return LatentVar(a, b, c, x, None, kind).gen_latent_vals(D, C, L)


@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def removing_layers_equals_fresh(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    out = []
    l = LatentVar(a, b, c, x, None, kind)
    l.lot_vrtn_mdl = None
    one = l.gen_latent_vals(D, C, L)
    l = LatentVar(a, b, c, x, None, kind)
    l.chp_vrtn_mdl = None
    two = l.gen_latent_vals(D, C, L)
    l = LatentVar(a, b, c, x, None, kind)
    l.dev_vrtn_mdl = None
    three = l.gen_latent_vals(D, C, L)
    return one, two, three


def removing_layers_equals_fresh__expect(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return (LatentVar(a, b, None, x, None, kind).gen_latent_vals(D, C, L), LatentVar(a, None, c, x, None, kind).gen_latent_vals(D, C, L),
            LatentVar(None, b, c, x, None, kind).gen_latent_vals(D, C, L))


# ---------------------------------------------------------------- configuration
@case(prop='C21')
def latent_needs_a_source(kind: str, c: Is[Normal]):
    assume(kind == 'scaling' or kind == 'offset')
    return LatentVar(chp_vrtn_mdl=c, vrtn_type=kind)


def latent_needs_a_source__expect(kind: str, c: Is[Normal]):
    assume(kind == 'scaling' or kind == 'offset')
    raise UserConfigError('missing')


@case(prop='C21')
def latent_needs_a_known_kind(kind: str, d: Is[Normal], x: float):
    assume(kind != 'scaling', kind != 'offset')
    return LatentVar(d, deter_val=x, vrtn_type=kind)


def latent_needs_a_known_kind__expect(kind: str, d: Is[Normal], x: float):
    assume(kind != 'scaling', kind != 'offset')
    raise InvalidTypeError('bad')


@case(prop='C21')
def latent_kind_rejected_untouched(v: Is[Normal], x: float, first: str, bad: str):
    assume(first == 'scaling' or first == 'offset')
    assume(bad != 'scaling', bad != 'offset')
    l = LatentVar(v, deter_val=x, vrtn_type=first)
    try:
        l.vrtn_type = bad
    except InvalidTypeError:
        return l
    return 'accepted'


def latent_kind_rejected_untouched__expect(v: Is[Normal], x: float, first: str, bad: str):
    assume(first == 'scaling' or first == 'offset')
    assume(bad != 'scaling', bad != 'offset')
    return LatentVar(v, deter_val=x, vrtn_type=first)


# ---------------------------------------------------------------- distributions
@case(prop='C19')
def distribution_parameters(m: float, s: float, a: float, b: float, lo: float, hi: float, target: str):
    return Normal(m, s)._get_dist_params(target), Gamma(a, b)._get_dist_params(target), Uniform(lo, hi)._get_dist_params(target)


def distribution_parameters__expect(m: float, s: float, a: float, b: float, lo: float, hi: float, target: str):
    if target == 'pymc':
        return {'mu': m, 'sigma': s}, {'alpha': a, 'beta': b}, {'lower': lo, 'upper': hi}
    if target == 'numpy':
        return {'loc': m, 'scale': s}, {'shape': a, 'scale': 1 / b}, {'low': lo, 'high': hi}
    if target == 'pyro':
        return {'loc': m, 'scale': s}, {'concentration': a, 'rate': b}, {'low': lo, 'high': hi}
    raise NotImplementedError('target')


@case(prop='C19')
def seeded_samples(m: float, s: float, a: float, b: float, lo: float, hi: float, seed: int, n: Dim):
    return (Normal(m, s, test_seed=seed).sample(n), Gamma(a, b, test_seed=seed).sample(n),
            Uniform(lo, hi, test_seed=seed).sample(n))


def seeded_samples__expect(m: float, s: float, a: float, b: float, lo: float, hi: float, seed: int, n: Dim):
    return (np.random.default_rng(seed=seed).normal(size=n, loc=m, scale=s),
            np.random.default_rng(seed=seed).gamma(size=n, shape=a, scale=1 / b),
            np.random.default_rng(seed=seed).uniform(size=n, low=lo, high=hi))


@case(prop='C19')
def deterministic_samples(x: float, n: Dim):
    return Deterministic(x).sample(n)


def deterministic_samples__expect(x: float, n: Dim):
    return np.full(n, x)


@case(prop='C19')
def redefined_parameters_are_used(m: float, s: float, m2: float, s2: float, seed: int, n: Dim):
    v = Normal(m, s, test_seed=seed)
    v.mu = m2
    v.sigma = s2
    return v.sample(n)


def redefined_parameters_are_used__expect(m: float, s: float, m2: float, s2: float, seed: int, n: Dim):
    return np.random.default_rng(seed=seed).normal(size=n, loc=m2, scale=s2)


@case(prop='C19')
def normal_centre(m: float, s: float, x: float, f: Fn):
    a, b = Normal(m, s), Normal(m, s)
    a.set_centre(x)
    b.set_centre(x, f)
    return Normal(m, s).get_centre(), a.mu, a.sigma, b.mu, b.sigma


def normal_centre__expect(m: float, s: float, x: float, f: Fn):
    return m, x, s, f(x, m), s


@case(prop='C19')
def unseeded_streams_are_independent(m: float, s: float, lo: float, hi: float, n: Dim):
    a, b, c, d = Normal(m, s), Normal(m, s), Uniform(lo, hi), Uniform(lo, hi)
    return a.sample(n), b.sample(n), c.sample(n), d.sample(n), a.sample(n)


def unseeded_streams_are_independent__expect(m: float, s: float, lo: float, hi: float, n: Dim):
    a, b, c, d = np.random.default_rng(), np.random.default_rng(), np.random.default_rng(), np.random.default_rng()
    return (a.normal(m, s, n), b.normal(m, s, n), c.uniform(lo, hi, n), d.uniform(lo, hi, n), a.normal(m, s, n))


@case(prop='C19')
def seeded_stream_continues(m: float, s: float, seed: int, n: Dim, k: Dim):
    v = Normal(m, s, test_seed=seed)
    w = Normal(m, s, test_seed=seed)
    return v.sample(n), w.sample(n), v.sample(k), w.sample(n), w.sample()


def seeded_stream_continues__expect(m: float, s: float, seed: int, n: Dim, k: Dim):
    a, b = np.random.default_rng(seed), np.random.default_rng(seed)
    return a.normal(m, s, n), b.normal(m, s, n), a.normal(m, s, k), b.normal(m, s, n), b.normal(m, s, 1)


# Asking for nothing in particular gives a single sample

@case(prop='C07', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def single_latent_sample(d: RandomVar, c: RandomVar, l: RandomVar, x: float):
    return LatentVar(d, c, l, x).gen_latent_vals()


def single_latent_sample__expect(d: RandomVar, c: RandomVar, l: RandomVar, x: float):
    lot = l.sample(1).reshape((1, 1, 1))
    chp = c.sample(1).reshape((1, 1, 1))
    dev = d.sample(1).reshape((1, 1, 1))
    return x * dev * chp * lot
