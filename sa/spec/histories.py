"""Sequences of operations and configurations with several cooperating parts."""
import importlib
import logging
from datetime import timedelta

import numpy as np
import pandas as pd

from gerabaldi.helpers import _on_demand_import, configure_logger
from gerabaldi.models import (CircPrmMdl, CondShiftMdl, DegMechMdl, DegPrmMdl, DeviceMdl, EnvVrtnMdl, FailMechMdl, InitValMdl,
                              LatentVar, MeasInstrument, MeasSpec, Normal, PhysTestEnv, SimReport, SimState, StrsSpec, TestSpec, Uniform)
from gerabaldi.sim import gen_init_state, simulate
from sa.lang import assume, calls, case, mutated, ncalls, owned

from spec.helpers import apart, held, with_handlers
from spec.runs import idle, rows, spread, summary


# ---------------------------------------------------------------- every listed step counts, repeated or empty
@case(prop='C02 C03 C14', cut=['minimize'], shapes={'minimize': (1, 1, 1)}, allow='UserConfigError', finite=True)
def repeated_steps(x0: float, h: timedelta, T: float):
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(idle, 'm'), InitValMdl(init_val=LatentVar(deter_val=x0)), prm_name='p'))
    m, s, none = MeasSpec({'p': 1}, {'temp': T}, 'look'), StrsSpec({}, h, 's'), MeasSpec({}, {}, 'pause')
    r = simulate(TestSpec([m, m, s, s, none, m, s, none, none, s]), dev, PhysTestEnv())
    return r.measurements, r.test_summary


def repeated_steps__expect(x0: float, h: timedelta, T: float):
    x, z = np.full((1, 1, 1), x0), timedelta()
    two, three = z + h + h, z + h + h + h
    return (pd.concat([rows('p', x, z, 0, 1, 1, 1), rows('p', x, z, 1, 1, 1, 1), rows('p', x, two, 5, 1, 1, 1)], ignore_index=True),
            pd.concat([summary('look', 'measure', 0, z, z, z, {'temp': T}), summary('look', 'measure', 1, z, z, z, {'temp': T}),
                       summary('s', 'stress', 2, h, z, z + h, {}), summary('s', 'stress', 3, h, z + h, two, {}),
                       summary('pause', 'measure', 4, z, two, two, {}), summary('look', 'measure', 5, z, two, two, {'temp': T}),
                       summary('s', 'stress', 6, h, two, three, {}), summary('pause', 'measure', 7, z, three, three, {}),
                       summary('pause', 'measure', 8, z, three, three, {}), summary('s', 'stress', 9, h, three, three + h, {})],
                      ignore_index=True))


# ---------------------------------------------------------------- conditions shared by several parameters
@case(prop='C08', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def condition_shared_by_parameters(b: Is[Normal], s: Is[Normal], d: Is[Normal], T: float, V: float, L: Dim, C: Dim, M: Dim, N: Dim,
                                   K: Dim):
    def shift(temp):
        return temp

    def ring(p, temp, vdd):
        return temp

    def volts(vdd):
        return vdd
    p, q, r = [DegPrmMdl(DegMechMdl(idle, 'm'), cond_shift_mdl=CondShiftMdl(f)) for f in (shift, shift, volts)]
    dev = DeviceMdl({'p': p, 'q': q, 'r': r, 'c': CircPrmMdl(ring)})
    env = PhysTestEnv({'temp': EnvVrtnMdl(d, s, b)})
    return env.gen_env_cond_vals({'temp': T, 'vdd': V}, {'p': M, 'q': N, 'r': N, 'c': K}, SimReport(
        TestSpec([MeasSpec({'p': M, 'q': N, 'r': N, 'c': K}, {'temp': T})], C, L)), dev, 'measure')


def condition_shared_by_parameters__expect(b: Is[Normal], s: Is[Normal], d: Is[Normal], T: float, V: float, L: Dim, C: Dim, M: Dim,
                                           N: Dim, K: Dim):
    x = b.sample(1)[0]
    y = s.sample(C * L)
    out = {}
    out['p'] = {'temp': layered(T + x, y, d.sample(M * C * L), L, C, M)}
    out['q'] = {'temp': layered(T + x, y, d.sample(N * C * L), L, C, N)}
    out['r'] = {'vdd': np.full((L, C, N), V)}
    out['c'] = {'temp': layered(T + x, y, d.sample(K * C * L), L, C, K), 'vdd': np.full((L, C, K), V)}
    return out


def layered(base, y, z, L, C, D):
    v = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                v[i, j, k] = base + y[i * C + j] + z[(i * C + j) * D + k]
    return v


# ---------------------------------------------------------------- reconfiguring in several stages
@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def environment_reconfigured_in_stages(v: Is[Normal], w: Is[Normal], x: float, kind: str, first: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'offset' or kind == 'scaling', first == 'offset' or first == 'scaling')
    out = []
    for layer in ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'batch_vrtn_mdl'):
        e = EnvVrtnMdl(vrtn_type=first)
        setattr(e, layer, v)
        setattr(e, layer, None)
        e.vrtn_type = kind
        out.append(e.gen_env_vrtns(x, D, C, L))
        setattr(e, layer, w)
        out.append(e.gen_env_vrtns(x, D, C, L))
        e.vrtn_type = first
        setattr(e, layer, None)
        e.vrtn_type = kind
        out.append(e.gen_env_vrtns(x, D, C, L))
    return out


def environment_reconfigured_in_stages__expect(v: Is[Normal], w: Is[Normal], x: float, kind: str, first: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'offset' or kind == 'scaling', first == 'offset' or first == 'scaling')
    out = []
    for layer in ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'batch_vrtn_mdl'):
        out.append(EnvVrtnMdl(vrtn_type=kind).gen_env_vrtns(x, D, C, L))
        out.append(EnvVrtnMdl(**{layer: w}, vrtn_type=kind).gen_env_vrtns(x, D, C, L))
        out.append(EnvVrtnMdl(vrtn_type=kind).gen_env_vrtns(x, D, C, L))
    return out


@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def latent_reconfigured_in_stages(v: Is[Normal], w: Is[Normal], x: float, kind: str, first: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'offset' or kind == 'scaling', first == 'offset' or first == 'scaling')
    out = []
    for layer in ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl'):
        e = LatentVar(deter_val=x, vrtn_type=first)
        setattr(e, layer, v)
        setattr(e, layer, None)
        e.vrtn_type = kind
        out.append(e.gen_latent_vals(D, C, L))
        setattr(e, layer, w)
        out.append(e.gen_latent_vals(D, C, L))
        e.vrtn_type = first
        setattr(e, layer, None)
        e.vrtn_type = kind
        out.append(e.gen_latent_vals(D, C, L))
    return out


def latent_reconfigured_in_stages__expect(v: Is[Normal], w: Is[Normal], x: float, kind: str, first: str, D: Dim, C: Dim, L: Dim):
    assume(kind == 'offset' or kind == 'scaling', first == 'offset' or first == 'scaling')
    out = []
    for layer in ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl'):
        out.append(LatentVar(deter_val=x, vrtn_type=kind).gen_latent_vals(D, C, L))
        out.append(LatentVar(**{layer: w}, deter_val=x, vrtn_type=kind).gen_latent_vals(D, C, L))
        out.append(LatentVar(deter_val=x, vrtn_type=kind).gen_latent_vals(D, C, L))
    return out


# ---------------------------------------------------------------- latents of the same name in different parts
@case(prop='C10 C28 C30', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def latents_of_one_name(u: Is[Normal], v: Is[Normal], w: Is[Normal], L: Dim, C: Dim, D: Dim):
    def wear(time, a):
        return a * time

    def shift(a):
        return a
    assume(u.name == 'x', v.name == 'x', w.name == 'x')
    p = DegPrmMdl({'m': DegMechMdl(wear, a=LatentVar(u, name='k')), 'n': DegMechMdl(wear, a=LatentVar(v, name='k'))},
                  cond_shift_mdl=CondShiftMdl(shift, a=LatentVar(w, name='k')))
    s = gen_init_state(DeviceMdl({'p': p}), {'p': D}, C, L)
    return s.latent_var_vals['p']['m'], s.latent_var_vals['p']['n'], s.latent_var_vals['p']['cond']


def latents_of_one_name__expect(u: Is[Normal], v: Is[Normal], w: Is[Normal], L: Dim, C: Dim, D: Dim):
    assume(u.name == 'x', v.name == 'x', w.name == 'x')
    LatentVar(u, name='k')
    LatentVar(v, name='k')
    LatentVar(w, name='k')
    c = spread(w.sample(L * C * D), L, C, D)
    a = spread(u.sample(L * C * D), L, C, D)
    b = spread(v.sample(L * C * D), L, C, D)
    return {'a': a}, {'a': b}, {'a': c}


@case(prop='C10', finite=True)
def latents_named_like_those_of_other_models(x: float, y: float, z: float, w: float, L: Dim, C: Dim, D: Dim):
    def wear(time, a):
        return a * time

    def shift(a):
        return a

    def total(init, cond, m, n, a):
        return init + cond + m + n + a
    p = DegPrmMdl({'m': DegMechMdl(wear, a=LatentVar(deter_val=x)), 'n': DegMechMdl(wear, a=LatentVar(deter_val=y))},
                  cond_shift_mdl=CondShiftMdl(shift, a=LatentVar(deter_val=z)), compute_eqn=total, a=LatentVar(deter_val=w))
    s = gen_init_state(DeviceMdl({'p': p}), {'p': D}, C, L)
    v = s.latent_var_vals['p']
    return v['m'], v['n'], v['cond'], v['a']


def latents_named_like_those_of_other_models__expect(x: float, y: float, z: float, w: float, L: Dim, C: Dim, D: Dim):
    n = (L, C, D)
    return {'a': np.full(n, x)}, {'a': np.full(n, y)}, {'a': np.full(n, z)}, np.full(n, w)


# ---------------------------------------------------------------- instruments
@case(prop='C13', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def whole_number_reading(e: Is[Normal], i: int, lo: float, hi: float):
    return MeasInstrument(error=e).measure(i), MeasInstrument(meas_lims=(lo, hi)).measure(i)


def whole_number_reading__expect(e: Is[Normal], i: int, lo: float, hi: float):
    return i + e.sample(1)[0], np.clip(i, lo, hi)


# ---------------------------------------------------------------- time units
@case(prop='C16')
def unit_of_one_parameter_stays_there(e1: Fn, e2: Fn, p: str):
    assume(p != '')
    a, b, c = DegMechMdl(e1), DegMechMdl(e2), FailMechMdl(e2)
    d = DeviceMdl({'x': DegPrmMdl({'a': a}, time_unit=p), 'y': DegPrmMdl({'a': b, 'c': c})})
    return a.time_unit, b.time_unit in ('h', 'hours'), c.time_unit in ('h', 'hours')


def unit_of_one_parameter_stays_there__expect(e1: Fn, e2: Fn, p: str):
    assume(p != '')
    return p, True, True


# ---------------------------------------------------------------- counts
@case(prop='C18', cut=['gen_latent_vals', 'gen_init_mech_vals', 'gen_init_vals'])
def circuits_sharing_a_parameter(a: Is[DegPrmMdl], n: Dim, m: Dim, k: Dim, chps: Dim, lots: Dim, order: bool):
    def ring(a, temp):
        return a

    def gate(temp, a):
        return a
    dev = DeviceMdl({'a': a, 'c': CircPrmMdl(ring), 'd': CircPrmMdl(gate)})
    given = {'c': n, 'd': m, 'a': k} if order else {'c': n, 'd': m}
    s = gen_init_state(dev, given, chps, lots)
    return s.latent_var_vals['a'], s.init_prm_vals['a'], s.init_deg_mech_vals['a'], given


def circuits_sharing_a_parameter__expect(a: Is[DegPrmMdl], n: Dim, m: Dim, k: Dim, chps: Dim, lots: Dim, order: bool):
    a.name = 'a'
    given = {'c': n, 'd': m, 'a': k} if order else {'c': n, 'd': m}
    x = max(n, m, k) if order else max(n, m)
    return (a.gen_latent_vals(x, chps, lots), a.init_mdl.gen_init_vals(x, chps, lots), a.gen_init_mech_vals(x, chps, lots), given)


# ---------------------------------------------------------------- distributions
@case(prop='C19')
def parameters_changed_between_draws(m: float, s: float, m2: float, s2: float, lo: float, hi: float, lo2: float, seed: int, n: Dim):
    v, u = Normal(m, s, test_seed=seed), Uniform(lo, hi, test_seed=seed)
    v.sample(n)
    u.sample(n)
    v.mu, v.sigma = m2, s2
    u.start = lo2
    return v.sample(n), u.sample(n)


def parameters_changed_between_draws__expect(m: float, s: float, m2: float, s2: float, lo: float, hi: float, lo2: float, seed: int,
                                             n: Dim):
    g, k = np.random.default_rng(seed=seed), np.random.default_rng(seed=seed)
    g.normal(loc=m, scale=s, size=n)
    k.uniform(low=lo, high=hi, size=n)
    return g.normal(loc=m2, scale=s2, size=n), k.uniform(low=lo2, high=hi, size=n)


# ---------------------------------------------------------------- optional packages
@case(prop='C24')
def any_attribute_of_a_stand_in(name: str):
    m = _on_demand_import(name)
    out = []
    for attr in ('x', '_x', '__version__', 'distributions', 'Normal', '__path__', 'name', 'hint'):
        try:
            getattr(m, attr)
            out.append('fine')
        except ImportError:
            out.append('import error')
    return out


def any_attribute_of_a_stand_in__expect(name: str):
    out = []
    try:
        m = importlib.import_module(name)
    except (ImportError, SystemError):
        return ['import error'] * 8
    for attr in ('x', '_x', '__version__', 'distributions', 'Normal', '__path__', 'name', 'hint'):
        try:
            getattr(m, attr)
            out.append('fine')
        except ImportError:
            out.append('import error')
    return out


# ---------------------------------------------------------------- logger
@case(prop='C26')
def both_handlers_given(f0: Any, s0: Any, f: Any, s: Any, level: int):
    assume(f, s, f0, s0, isinstance(f0, logging.FileHandler), isinstance(f0, logging.StreamHandler), level > 0)
    assume(isinstance(s0, logging.StreamHandler), not isinstance(s0, logging.FileHandler))
    apart(f, s, f0, s0)
    with_handlers(f0, s0)
    configure_logger(level, f, s)
    return calls('setLevel'), held(f, s, f0, s0)


def both_handlers_given__expect(f0: Any, s0: Any, f: Any, s: Any, level: int):
    logging.getLogger('gerabaldi').setLevel(level)
    return calls('setLevel'), ([1, 1, 0, 0], 2)


# ---------------------------------------------------------------- conditions named by equations
@case(prop='C29 C28')
def condition_named_like_a_latent(x: float):
    def ring(p, temp, k):
        return p * temp

    def shift(temp, vdd, k):
        return temp

    def wear(time, temp, k):
        return time
    c = CircPrmMdl(ring, 'c', k=LatentVar(deter_val=x), temp=LatentVar(deter_val=x))
    p = DegPrmMdl({'m': DegMechMdl(wear, temp=LatentVar(deter_val=x))}, cond_shift_mdl=CondShiftMdl(shift, vdd=LatentVar(deter_val=x)))
    conds = {'vdd': 1, 'temp': 2, 'other': 3}
    return (sorted(c.get_dependencies(conds, 'measure')), sorted(p.get_dependencies(conds, 'stress')),
            sorted(p.get_dependencies(conds, 'measure')))


def condition_named_like_a_latent__expect(x: float):
    return ['temp'], ['temp'], ['temp', 'vdd']


# ---------------------------------------------------------------- names
@case(prop='C30')
def models_already_named_otherwise(n: str, k: str):
    assume(n != '', k != '')
    a, b = DegMechMdl(idle, n), FailMechMdl(idle, k)
    p, c = DegPrmMdl({'one': a, 'two': b}, prm_name=n), CircPrmMdl(idle, k)
    d = DeviceMdl({'x': p, 'y': c})
    i, v = MeasInstrument(n), EnvVrtnMdl(name=k)
    e = PhysTestEnv({'temp': v}, {'x': i})
    return (d.prm_mdl('x') is p, d.prm_mdl('y') is c, p.mech_mdl('one') is a, p.mech_mdl('two') is b, list(d.prm_mdl_list),
            list(p.mech_mdl_list), e.vrtn_mdl('temp') is v, e.meas_instm('x') is i)


def models_already_named_otherwise__expect(n: str, k: str):
    return True, True, True, True, ['x', 'y'], ['one', 'two'], True, True
