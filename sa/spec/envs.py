"""Test environments: sampled conditions, measurement instruments."""
import numpy as np
import pandas as pd

from gerabaldi.exceptions import InvalidTypeError, UserConfigError
from gerabaldi.models import (CircPrmMdl, DegPrmMdl, Deterministic, DeviceMdl, EnvVrtnMdl, MeasInstrument, Normal, PhysTestEnv,
                              RandomVar, SimReport)
from sa.lang import assume, calls, case, mutated, ncalls, owned


def combine(kind, a, b):
    return a * b if kind == 'scaling' else a + b


# ---------------------------------------------------------------- layering of environmental variation
@case(prop='C08', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def batch_layer(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: float):
    assume(kind == 'scaling' or kind == 'offset')
    return EnvVrtnMdl(dev, chp, lot, kind).gen_batch_vrtn(x)[0]


def batch_layer__expect(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: float):
    assume(kind == 'scaling' or kind == 'offset')
    return combine(kind, x, lot.sample(1)[0])


@case(prop='C08', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def chip_layer(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: float, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return EnvVrtnMdl(dev, chp, lot, kind).gen_chp_vrtns(x, C, L)


def chip_layer__expect(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: float, C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    c = chp.sample(L * C)
    out = np.empty((L, C))
    for i in range(L):
        for j in range(C):
            out[i, j] = combine(kind, x, c[i * C + j])
    return out


@case(prop='C08', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def device_layer(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: Arr[L, C], C: Dim, L: Dim, D: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return EnvVrtnMdl(dev, chp, lot, kind).gen_dev_vrtns(x, D)


def device_layer__expect(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: Arr[L, C], C: Dim, L: Dim, D: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    d = dev.sample(L * C * D)
    out = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                out[i, j, k] = combine(kind, x[i, j], d[(i * C + j) * D + k])
    return out


@case(prop='C08', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def all_layers(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: float, C: Dim, L: Dim, D: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return EnvVrtnMdl(dev, chp, lot, kind).gen_env_vrtns(x, D, C, L)


def all_layers__expect(dev: Is[Normal], chp: Is[Normal], lot: Is[Normal], kind: str, x: float, C: Dim, L: Dim, D: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    b = lot.sample(1)[0]
    c = chp.sample(L * C)
    d = dev.sample(L * C * D)
    out = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                out[i, j, k] = combine(kind, combine(kind, combine(kind, x, b), c[i * C + j]), d[(i * C + j) * D + k])
    return out


@case(prop='C08')
def no_variation_is_exact(kind: str, x: float, C: Dim, L: Dim, D: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return EnvVrtnMdl(vrtn_type=kind).gen_env_vrtns(x, D, C, L), PhysTestEnv().vrtn_mdl('temp').gen_env_vrtns(x, D, C, L)


def no_variation_is_exact__expect(kind: str, x: float, C: Dim, L: Dim, D: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return np.full((L, C, D), x), np.full((L, C, D), x)


# ---------------------------------------------------------------- reassigning layers
@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def environment_switching_kind_equals_fresh(v: Is[Normal], x: float, first: str, kind: str, D: Dim, C: Dim, L: Dim):
    assume(first == 'scaling' or first == 'offset')
    assume(kind == 'scaling' or kind == 'offset')
    a, b, c = EnvVrtnMdl(v, None, None, first), EnvVrtnMdl(None, v, None, first), EnvVrtnMdl(None, None, v, first)
    a.vrtn_type = kind
    b.vrtn_type = kind
    c.vrtn_type = kind
    return a.gen_env_vrtns(x, D, C, L), b.gen_env_vrtns(x, D, C, L), c.gen_env_vrtns(x, D, C, L)


def environment_switching_kind_equals_fresh__expect(v: Is[Normal], x: float, first: str, kind: str, D: Dim, C: Dim, L: Dim):
    assume(first == 'scaling' or first == 'offset')
    assume(kind == 'scaling' or kind == 'offset')
    return (EnvVrtnMdl(v, None, None, kind).gen_env_vrtns(x, D, C, L), EnvVrtnMdl(None, v, None, kind).gen_env_vrtns(x, D, C, L),
            EnvVrtnMdl(None, None, v, kind).gen_env_vrtns(x, D, C, L))


@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def environment_replacing_layers_equals_fresh(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim, C: Dim,
                                              L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    e = EnvVrtnMdl(vrtn_type=kind)
    e.dev_vrtn_mdl = a
    e.chp_vrtn_mdl = b
    e.batch_vrtn_mdl = c
    return e.gen_env_vrtns(x, D, C, L)


def environment_replacing_layers_equals_fresh__expect(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim,
                                                      C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return EnvVrtnMdl(a, b, c, kind).gen_env_vrtns(x, D, C, L)


@case(prop='C09', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def environment_removing_layers_equals_fresh(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim, C: Dim,
                                             L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    e, f, g = EnvVrtnMdl(a, b, c, kind), EnvVrtnMdl(a, b, c, kind), EnvVrtnMdl(a, b, c, kind)
    e.batch_vrtn_mdl = None
    f.chp_vrtn_mdl = None
    g.dev_vrtn_mdl = None
    return e.gen_env_vrtns(x, D, C, L), f.gen_env_vrtns(x, D, C, L), g.gen_env_vrtns(x, D, C, L)


def environment_removing_layers_equals_fresh__expect(a: Is[Normal], b: Is[Normal], c: Is[Normal], x: float, kind: str, D: Dim,
                                                     C: Dim, L: Dim):
    assume(kind == 'scaling' or kind == 'offset')
    return (EnvVrtnMdl(a, b, None, kind).gen_env_vrtns(x, D, C, L), EnvVrtnMdl(a, None, c, kind).gen_env_vrtns(x, D, C, L),
            EnvVrtnMdl(None, b, c, kind).gen_env_vrtns(x, D, C, L))


@case(prop='C21')
def environment_kind_rejected_untouched(v: Is[Normal], first: str, bad: str):
    assume(first == 'scaling' or first == 'offset')
    assume(bad != 'scaling', bad != 'offset')
    e = EnvVrtnMdl(v, None, v, first)
    try:
        e.vrtn_type = bad
    except InvalidTypeError:
        return e
    return 'accepted'


def environment_kind_rejected_untouched__expect(v: Is[Normal], first: str, bad: str):
    assume(first == 'scaling' or first == 'offset')
    assume(bad != 'scaling', bad != 'offset')
    return EnvVrtnMdl(v, None, v, first)


# ---------------------------------------------------------------- conditions generated for a test step
@case(prop='C08', cut=['vrtn_mdl', 'gen_batch_vrtn', 'gen_chp_vrtns', 'gen_dev_vrtns', 'prm_mdl', 'get_dependencies'])
def conditions_for_step(env: PhysTestEnv, base: Dict[float], prms: List[str], rep: SimReport, dev: DeviceMdl, target: str):
    return env.gen_env_cond_vals(base, prms, rep, dev, target)


def conditions_for_step__expect(env: PhysTestEnv, base: Dict[float], prms: List[str], rep: SimReport, dev: DeviceMdl, target: str):
    batch = {c: env.vrtn_mdl(c).gen_batch_vrtn(base[c]) for c in base}
    chip = {c: env.vrtn_mdl(c).gen_chp_vrtns(batch[c], rep.num_chps, rep.num_lots) for c in base}
    out = {}
    for p in prms:
        if p in dev.prm_mdl_list:
            out[p] = {c: env.vrtn_mdl(c).gen_dev_vrtns(chip[c], rep.dev_counts[p])
                      for c in dev.prm_mdl(p).get_dependencies(list(base.keys()), target)}
        else:
            out[p] = {p: env.vrtn_mdl(p).gen_dev_vrtns(env.vrtn_mdl(p).gen_chp_vrtns(batch[p], rep.dev_counts[p], 1), 1)}
    return out


@case(prop='C08', cut=['vrtn_mdl', 'gen_batch_vrtn', 'gen_chp_vrtns', 'gen_dev_vrtns', 'prm_mdl', 'get_dependencies'])
def conditions_for_counts(env: PhysTestEnv, base: Dict[float], counts: Dict[int], dev: DeviceMdl, target: str, C: Dim, L: Dim):
    return env.gen_env_cond_vals(base, counts, None, dev, target, C, L)


def conditions_for_counts__expect(env: PhysTestEnv, base: Dict[float], counts: Dict[int], dev: DeviceMdl, target: str, C: Dim,
                                  L: Dim):
    batch = {c: env.vrtn_mdl(c).gen_batch_vrtn(base[c]) for c in base}
    chip = {c: env.vrtn_mdl(c).gen_chp_vrtns(batch[c], C, L) for c in base}
    out = {}
    for p in counts:
        if p in dev.prm_mdl_list:
            out[p] = {c: env.vrtn_mdl(c).gen_dev_vrtns(chip[c], counts[p])
                      for c in dev.prm_mdl(p).get_dependencies(list(base.keys()), target)}
        else:
            out[p] = {p: env.vrtn_mdl(p).gen_dev_vrtns(env.vrtn_mdl(p).gen_chp_vrtns(batch[p], counts[p], 1), 1)}
    return out


@case(prop='C21', cut=['vrtn_mdl', 'gen_batch_vrtn', 'gen_chp_vrtns', 'gen_dev_vrtns', 'prm_mdl', 'get_dependencies'])
def conditions_need_counts(env: PhysTestEnv, base: Dict[float], prms: List[str], dev: DeviceMdl, target: str):
    return env.gen_env_cond_vals(base, prms, None, dev, target)


def conditions_need_counts__expect(env: PhysTestEnv, base: Dict[float], prms: List[str], dev: DeviceMdl, target: str):
    raise UserConfigError('no counts')


@case(prop='C08 C31', cut=['vrtn_mdl', 'gen_batch_vrtn', 'gen_chp_vrtns', 'gen_dev_vrtns'])
def one_batch_per_condition(env: PhysTestEnv, base: Dict[float], prms: List[str], rep: SimReport, dev: DeviceMdl, target: str):
    """Every parameter and sensor of a step sees the same batch value of a condition."""
    env.gen_env_cond_vals(base, prms, rep, dev, target)
    return calls('gen_batch_vrtn')


def one_batch_per_condition__expect(env: PhysTestEnv, base: Dict[float], prms: List[str], rep: SimReport, dev: DeviceMdl,
                                    target: str):
    for c in base:
        env.vrtn_mdl(c).gen_batch_vrtn(base[c])
    return calls('gen_batch_vrtn')


@case(prop='C08')
def conditions_leave_arguments(env: PhysTestEnv, base: Dict[float], counts: Dict[int], prms: List[str], rep: SimReport,
                               dev: DeviceMdl, target: str, C: Dim, L: Dim, listed: bool):
    if listed:
        env.gen_env_cond_vals(base, prms, rep, dev, target)
    else:
        env.gen_env_cond_vals(base, counts, None, dev, target, C, L)
    return mutated(env, base, counts, prms, rep, dev)


def conditions_leave_arguments__expect(env: PhysTestEnv, base: Dict[float], counts: Dict[int], prms: List[str], rep: SimReport,
                                       dev: DeviceMdl, target: str, C: Dim, L: Dim, listed: bool):
    return []


# ---------------------------------------------------------------- lookups
@case(prop='C30')
def instrument_by_name(m: MeasInstrument, n: str, other: str):
    assume(n != other, n != 'meas', other != 'meas')
    e = PhysTestEnv(meas_instms={n: m})
    return e.meas_instm(n) is m, m.name, e.meas_instm(other)


def instrument_by_name__expect(m: MeasInstrument, n: str, other: str):
    assume(n != other, n != 'meas', other != 'meas')
    return True, n, MeasInstrument(other)


@case(prop='C30')
def instrument_named_meas(m: MeasInstrument):
    e = PhysTestEnv(meas_instms={'meas': m})
    return e.meas_instm('meas') is m


def instrument_named_meas__expect(m: MeasInstrument):
    return True


@case(prop='C30')
def variation_by_name(v: EnvVrtnMdl, n: str, other: str):
    assume(n != other)
    e = PhysTestEnv(env_vrtns={n: v})
    return e.vrtn_mdl(n) is v, v.name, e.vrtn_mdl(other)


def variation_by_name__expect(v: EnvVrtnMdl, n: str, other: str):
    assume(n != other)
    return True, n, EnvVrtnMdl()


@case(prop='C30')
def environment_from_lists(v: EnvVrtnMdl, w: EnvVrtnMdl, m: MeasInstrument, k: MeasInstrument):
    assume(v.name != w.name, m.name != k.name, m.name != 'meas', k.name != 'meas')
    e = PhysTestEnv([v, w], [m, k], 'lab')
    return (e.name, e.vrtn_mdl(v.name) is v, e.vrtn_mdl(w.name) is w, e.meas_instm(m.name) is m, e.meas_instm(k.name) is k)


def environment_from_lists__expect(v: EnvVrtnMdl, w: EnvVrtnMdl, m: MeasInstrument, k: MeasInstrument):
    assume(v.name != w.name, m.name != k.name, m.name != 'meas', k.name != 'meas')
    return 'lab', True, True, True, True


# ---------------------------------------------------------------- instruments
@case(prop='C13')
def ideal_instrument_array(n: str, x: Arr[N], N: Dim):
    return MeasInstrument(n).measure(x)


def ideal_instrument_array__expect(n: str, x: Arr[N], N: Dim):
    return x


@case(prop='C13')
def ideal_instrument_number(n: str, x: float, i: int):
    return MeasInstrument(n).measure(x), MeasInstrument(n).measure(i)


def ideal_instrument_number__expect(n: str, x: float, i: int):
    return x, i


@case(prop='C13', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def numpy_number_reading(e: Is[Normal], lo: float, hi: float, x: float64):
    return MeasInstrument('i').measure(x), MeasInstrument('i', None, e).measure(x), MeasInstrument('i', None, None, (lo, hi)).measure(x)


def numpy_number_reading__expect(e: Is[Normal], lo: float, hi: float, x: float64):
    return x, x + e.sample(1)[0], np.clip(x, lo, hi)


@case(prop='C13')
def ideal_instrument_series(n: str, x: Ser[N], N: Dim):
    return MeasInstrument(n).measure(x)


def ideal_instrument_series__expect(n: str, x: Ser[N], N: Dim):
    return x


def significant(x, p):
    if x == 0 or not np.isfinite(x):
        return x
    return np.round(x, p - int(np.floor(np.log10(abs(x)))) - 1)


@case(prop='C13', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def full_instrument_array(e: Is[Normal], p: int, lo: float, hi: float, x: Arr[N], N: Dim):
    assume(p > 0)
    return MeasInstrument('i', p, e, (lo, hi)).measure(x)


def full_instrument_array__expect(e: Is[Normal], p: int, lo: float, hi: float, x: Arr[N], N: Dim):
    assume(p > 0)
    s = e.sample(N)
    out = np.empty(N)
    for i in range(N):
        out[i] = np.clip(significant(x[i] + s[i], p), lo, hi)
    return out


@case(prop='C13', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def full_instrument_number(e: Is[Normal], p: int, lo: float, hi: float, x: float):
    assume(p > 0)
    return MeasInstrument('i', p, e, (lo, hi)).measure(x)


def full_instrument_number__expect(e: Is[Normal], p: int, lo: float, hi: float, x: float):
    assume(p > 0)
    return np.clip(significant(x + e.sample(1)[0], p), lo, hi)


@case(prop='C13', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def full_instrument_series(e: Is[Normal], p: int, lo: float, hi: float, x: Ser[N], N: Dim):
    assume(p > 0)
    return MeasInstrument('i', p, e, (lo, hi)).measure(x).to_numpy()


def full_instrument_series__expect(e: Is[Normal], p: int, lo: float, hi: float, x: Ser[N], N: Dim):
    assume(p > 0)
    s = e.sample(N)
    v = x.to_numpy()
    out = np.empty(N)
    for i in range(N):
        out[i] = np.clip(significant(v[i] + s[i], p), lo, hi)
    return out


@case(prop='C13')
def instrument_range_only(lo: float, hi: float, x: Arr[N], N: Dim):
    return MeasInstrument('i', None, None, (lo, hi)).measure(x)


def instrument_range_only__expect(lo: float, hi: float, x: Arr[N], N: Dim):
    return np.clip(x, lo, hi)


@case(prop='C13', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def instrument_error_only(e: Is[Normal], x: Arr[N], N: Dim):
    return MeasInstrument('i', None, e).measure(x)


def instrument_error_only__expect(e: Is[Normal], x: Arr[N], N: Dim):
    return x + e.sample(N)


@case(prop='C13')
def instrument_precision_only(p: int, x: Arr[N], N: Dim):
    assume(p > 0)
    return MeasInstrument('i', p).measure(x)


def instrument_precision_only__expect(p: int, x: Arr[N], N: Dim):
    assume(p > 0)
    out = np.empty(N)
    for i in range(N):
        out[i] = significant(x[i], p)
    return out


@case(prop='C13 C11', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def measuring_leaves_values(m: MeasInstrument, x: Arr[N], s: Ser[N], N: Dim):
    m.measure(x)
    m.measure(s)
    return mutated(m, x, s)


def measuring_leaves_values__expect(m: MeasInstrument, x: Arr[N], s: Ser[N], N: Dim):
    return []


@case(prop='C11 C13', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def readings_leave_true_values_alone(e: Is[Normal], p: int, lo: float, hi: float, x: Ser[N], y: Arr[N], N: Dim):
    assume(p > 0)
    i = MeasInstrument('i', p, e, (lo, hi))
    i.measure(x)
    i.measure(y)
    return mutated(x), mutated(y)


def readings_leave_true_values_alone__expect(e: Is[Normal], p: int, lo: float, hi: float, x: Ser[N], y: Arr[N], N: Dim):
    assume(p > 0)
    i = MeasInstrument('i', p, e, (lo, hi))
    return [], []


@case(prop='C30 C08')
def unlisted_conditions_do_not_vary(v: Is[EnvVrtnMdl], n: str, other: str, T: float, D: Dim, C: Dim, L: Dim):
    assume(n != other)
    return PhysTestEnv(env_vrtns={n: v}).vrtn_mdl(other).gen_env_vrtns(T, D, C, L)


def unlisted_conditions_do_not_vary__expect(v: Is[EnvVrtnMdl], n: str, other: str, T: float, D: Dim, C: Dim, L: Dim):
    assume(n != other)
    return np.full((L, C, D), T)


# Asking for nothing in particular gives a single sample; a plain number is the base of a single chip

@case(prop='C08', cut=['sample'], shapes={'sample': (('arg', 'quantity'),)})
def single_condition_sample(d: RandomVar, c: RandomVar, b: RandomVar, x: float, n: Dim):
    v = EnvVrtnMdl(d, c, b)
    return v.gen_batch_vrtn(x), v.gen_chp_vrtns(x), v.gen_dev_vrtns(x), v.gen_dev_vrtns(x, n), v.gen_env_vrtns(x)


def single_condition_sample__expect(d: RandomVar, c: RandomVar, b: RandomVar, x: float, n: Dim):
    p = x + b.sample(1)
    q = x + c.sample(1).reshape((1, 1))
    r = x + d.sample(1).reshape((1, 1, 1))
    s = x + d.sample(n).reshape((1, 1, n))
    t = (x + b.sample(1)) + c.sample(1).reshape((1, 1, 1)) + d.sample(1).reshape((1, 1, 1))
    return p, q, r, s, t


# Variation models and instruments listed with names of their own

@case(prop='C30', cut=[])
def listed_by_their_names(d: Is[Normal], e: Is[Normal], p: str, q: str):
    assume(p != q, q != 'meas', p != 'meas')
    v, w = EnvVrtnMdl(d, name=p), EnvVrtnMdl(e, name=q)
    i, j = MeasInstrument(p, 2), MeasInstrument(q, 3)
    env = PhysTestEnv([v, w], [i, j])
    return (env.vrtn_mdl(p) is v, env.vrtn_mdl(q) is w, env.meas_instm(p) is i, env.meas_instm(q) is j, v.name, w.name, i.name,
            j.name)


def listed_by_their_names__expect(d: Is[Normal], e: Is[Normal], p: str, q: str):
    assume(p != q, q != 'meas', p != 'meas')
    return True, True, True, True, p, q, p, q
