"""Whole simulations through the public entry points, with concrete structure and symbolic sizes, values and durations."""
from datetime import timedelta

import numpy as np
import pandas as pd

from gerabaldi.math import minimize
from gerabaldi.models import (CircPrmMdl, CondShiftMdl, DegMechMdl, DegPrmMdl, DeviceMdl, EnvVrtnMdl, FailMechMdl, InitValMdl,
                              LatentVar, MeasInstrument, MeasSpec, Normal, PhysTestEnv, SimReport, SimState, StrsSpec, TestSpec)
from gerabaldi.sim import gen_init_state, simulate
from sa.lang import assume, calls, case, mutated, ncalls, owned


def rows(name, x, t, step, L, C, D):
    """One row per sample: device fastest, then chip, then lot."""
    n = L * C * D
    dev, chp, lot, val = np.empty(n), np.empty(n), np.empty(n), np.empty(n)
    for r in range(n):
        dev[r] = r % D
        chp[r] = (r // D) % C
        lot[r] = r // (D * C)
        val[r] = x[r // (D * C), (r // D) % C, r % D]
    return pd.DataFrame({'param': name, 'step #': step, 'device #': dev, 'chip #': chp, 'lot #': lot, 'time': t, 'measured': val})


def search(gap, now):
    return minimize(gap, {'now': now}, (1e-3, 1e10), maxiter=50, log_gold=True)


def spread(v, L, C, D):
    """One draw per sample, numbered device fastest."""
    out = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                out[i, j, k] = v[(i * C + j) * D + k]
    return out


def idle(time):
    return 0


# ---------------------------------------------------------------- stress phases compose
@case(prop='C04 C06 C10 C12 C15', cut=['minimize'], shapes={'minimize': ('L', 'C', 'D')}, allow='UserConfigError', finite=True)
def two_phases(k: float, T: float, U: float, h: float, g: float, x0: float, L: Dim, C: Dim, D: Dim):
    def wear(time, temp, a):
        return a * temp * time
    dev = DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(wear, time_unit='s', a=LatentVar(deter_val=k))},
                                    init_val_mdl=InitValMdl(init_val=LatentVar(deter_val=x0)))})
    t = TestSpec([StrsSpec({'temp': T}, h), StrsSpec({'temp': U}, g, time_unit='d'), MeasSpec({'p': D}, {'temp': T})], C, L)
    return simulate(t, dev, PhysTestEnv()).measurements


def two_phases__expect(k: float, T: float, U: float, h: float, g: float, x0: float, L: Dim, C: Dim, D: Dim):
    def gap(time, now):
        return np.abs(now - k * T * time)

    def gap2(time, now):
        return np.abs(now - k * U * time)
    start = np.full((L, C, D), 0)
    total = search(gap, start) + h * 3600
    w = np.where(total > 9e9, start, k * T * total)
    total = search(gap2, w) + g * 86400
    w = np.where(total > 9e9, w, k * U * total)
    return pd.concat([rows('p', x0 + w, timedelta(hours=h) + timedelta(days=g), 2, L, C, D)], ignore_index=True)


@case(prop='C04 C16 C28', cut=['minimize'], shapes={'minimize': ('L', 'C', 'D')}, allow='UserConfigError', finite=True)
def two_mechanisms(a: float, b: float, T: float, V: float, h: float, x0: float, u: float, L: Dim, C: Dim, D: Dim):
    def hot(time, temp, a):
        return a * temp * time

    def volts(vdd, time, b):
        return u + b * vdd * time

    def both(init, hot, volts, cond):
        return init - hot * volts + cond
    p = DegPrmMdl({'hot': DegMechMdl(hot, time_unit='s', a=LatentVar(deter_val=a)),
                   'volts': DegMechMdl(volts, unitary_val=u, b=LatentVar(deter_val=b))},
                  InitValMdl(init_val=LatentVar(deter_val=x0)), compute_eqn=both, time_unit='d')
    t = TestSpec([StrsSpec({'temp': T, 'vdd': V}, h), MeasSpec({'p': D}, {})], C, L)
    dev = DeviceMdl({'p': p}, time_unit='ms')
    st = gen_init_state(dev, {'p': D}, C, L)
    return simulate(t, dev, PhysTestEnv(), st).measurements


def two_mechanisms__expect(a: float, b: float, T: float, V: float, h: float, x0: float, u: float, L: Dim, C: Dim, D: Dim):
    def gap(time, now):
        return np.abs(now - a * T * time)

    def gap2(time, now):
        return np.abs(now - (u + b * V * time))
    t1 = search(gap, np.full((L, C, D), 0)) + h * 3600
    t2 = search(gap2, np.full((L, C, D), u)) + h / 24
    w1 = np.where(t1 > 9e9, 0, a * T * t1)
    w2 = np.where(t2 > 9e9, u, u + b * V * t2)
    # measured: the present value is the 'init' argument, mechanisms contribute their starting values
    return pd.concat([rows('p', x0 - w1 * w2 - 0 * u, timedelta(hours=h), 1, L, C, D)], ignore_index=True)


@case(prop='C05', allow='UserConfigError')
def failures_stay(T: float, U: float, h: float, g: float, lim: float, L: Dim, C: Dim, D: Dim):
    def breaks(time, temp):
        return np.where(temp * time > lim, 1, 0)
    dev = DeviceMdl(DegPrmMdl(FailMechMdl(breaks, 'f', time_unit='h'), prm_name='p'))
    t = TestSpec([StrsSpec({'temp': T}, h), StrsSpec({'temp': U}, g), MeasSpec({'p': D}, {})], C, L)
    return simulate(t, dev, PhysTestEnv()).measurements


def failures_stay__expect(T: float, U: float, h: float, g: float, lim: float, L: Dim, C: Dim, D: Dim):
    x = 0
    if h <= 9e9 and T * h > lim:
        x = 1
    elif g <= 9e9 and U * g > lim:
        x = 1
    return pd.concat([rows('p', np.full((L, C, D), x), timedelta(hours=h + g), 2, L, C, D)], ignore_index=True)


# ---------------------------------------------------------------- latents are drawn once and reused
@case(prop='C10 C07 C12', cut=['minimize', 'Normal.sample', 'RandomVar.sample'],
      shapes={'minimize': ('L', 'C', 'D'), 'sample': (('arg', 'quantity'),)}, allow='UserConfigError')
def latents_reused(v: Is[Normal], w: Is[Normal], i0: Is[Normal], h: float, L: Dim, C: Dim, D: Dim):
    def wear(time, a):
        return a * time

    def shift(c):
        return c
    assume(v.name is None, w.name is None, i0.name is None)
    p = DegPrmMdl(DegMechMdl(wear, 'm', a=LatentVar(v)), InitValMdl(init_val=LatentVar(i0)), CondShiftMdl(shift, c=LatentVar(w)),
                  prm_name='p')
    t = TestSpec([MeasSpec({'p': D}, {}), StrsSpec({}, h), MeasSpec({'p': D}, {})], C, L)
    return simulate(t, DeviceMdl(p), PhysTestEnv()).measurements


def latents_reused__expect(v: Is[Normal], w: Is[Normal], i0: Is[Normal], h: float, L: Dim, C: Dim, D: Dim):
    assume(v.name is None, w.name is None, i0.name is None)
    LatentVar(v).name = 'a'
    LatentVar(w).name = 'c'
    LatentVar(i0).name = 'init_val'
    c = spread(w.sample(L * C * D), L, C, D)
    a = spread(v.sample(L * C * D), L, C, D)
    x = spread(i0.sample(L * C * D), L, C, D)

    def gap(time, now):
        return np.abs(now - a * time)
    total = search(gap, np.full((L, C, D), 0)) + h
    y = x + np.where(total > 9e9, 0, a * total)
    return pd.concat([rows('p', x + c, timedelta(), 0, L, C, D), rows('p', y + c, timedelta(hours=h), 2, L, C, D)], ignore_index=True)


# ---------------------------------------------------------------- measurements
@case(prop='C12 C13 C11', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def measured_some_devices(w: Is[Normal], e: Is[Normal], T: float, x0: float, L: Dim, C: Dim, D: Dim, N: Dim):
    def shift(c, temp):
        return c * temp
    assume(w.name is None, N < D)
    p = DegPrmMdl(DegMechMdl(idle, 'm'), InitValMdl(init_val=LatentVar(deter_val=x0)), CondShiftMdl(shift, c=LatentVar(w)), prm_name='p')
    t = TestSpec([MeasSpec({'p': N}, {'temp': T}), MeasSpec({'p': D}, {'temp': T})], C, L)
    return simulate(t, DeviceMdl(p), PhysTestEnv(meas_instms={'p': MeasInstrument(error=e)})).measurements


def measured_some_devices__expect(w: Is[Normal], e: Is[Normal], T: float, x0: float, L: Dim, C: Dim, D: Dim, N: Dim):
    assume(w.name is None, N < D)
    LatentVar(w).name = 'c'
    c = spread(w.sample(L * C * D), L, C, D)
    first = rows('p', (x0 + c * T)[:, :, :N], timedelta(), 0, L, C, N)
    first['measured'] = first['measured'] + e.sample(L * C * N)
    second = rows('p', x0 + c * T, timedelta(), 1, L, C, D)
    second['measured'] = second['measured'] + e.sample(L * C * D)
    return pd.concat([first, second], ignore_index=True)


@case(prop='C12 C18 C28')
def measured_circuit(T: float, x0: float, y: float, L: Dim, C: Dim, N: Dim, M: Dim):
    def ring(p, temp, y):
        return p * temp + y
    assume(M < N)
    p = DegPrmMdl(DegMechMdl(idle, 'm'), InitValMdl(init_val=LatentVar(deter_val=x0)))
    c = CircPrmMdl(ring, y=LatentVar(deter_val=y))
    t = TestSpec([MeasSpec({'p': M, 'c': N}, {'temp': T})], C, L)
    return simulate(t, DeviceMdl({'p': p, 'c': c}), PhysTestEnv()).measurements


def measured_circuit__expect(T: float, x0: float, y: float, L: Dim, C: Dim, N: Dim, M: Dim):
    assume(M < N)
    return pd.concat([rows('p', np.full((L, C, M), x0), timedelta(), 0, L, C, M),
                      rows('c', np.full((L, C, N), x0 * T + y), timedelta(), 0, L, C, N)], ignore_index=True)


@case(prop='C31 C08', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def measured_condition(b: Is[Normal], s: Is[Normal], d: Is[Normal], T: float, N: Dim, L: Dim, C: Dim):
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(idle, 'm'), prm_name='p'))
    t = TestSpec([MeasSpec({'temp': N}, {'temp': T, 'vdd': 1})], C, L)
    return simulate(t, dev, PhysTestEnv({'temp': EnvVrtnMdl(d, s, b)})).measurements


def measured_condition__expect(b: Is[Normal], s: Is[Normal], d: Is[Normal], T: float, N: Dim, L: Dim, C: Dim):
    x = b.sample(1)[0]
    s.sample(C * L)
    y = s.sample(N)
    z = d.sample(N)
    return pd.concat([pd.DataFrame({'param': 'temp', 'step #': 0, 'device #': None, 'chip #': None, 'lot #': None, 'time': timedelta(),
                                    'measured': T + x + y + z})], ignore_index=True)


@case(prop='C08 C12', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def conditions_vary(b: Is[Normal], s: Is[Normal], d: Is[Normal], T: float, D: Dim, L: Dim, C: Dim):
    def shift(temp):
        return temp
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(idle, 'm'), cond_shift_mdl=CondShiftMdl(shift), prm_name='p'))
    t = TestSpec([MeasSpec({'p': D}, {'temp': T})], C, L)
    return simulate(t, dev, PhysTestEnv({'temp': EnvVrtnMdl(d, s, b)})).measurements


def conditions_vary__expect(b: Is[Normal], s: Is[Normal], d: Is[Normal], T: float, D: Dim, L: Dim, C: Dim):
    x = b.sample(1)[0]
    y = s.sample(C * L)
    z = d.sample(D * L * C)
    v = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                v[i, j, k] = T + x + y[i * C + j] + z[(i * C + j) * D + k]
    return pd.concat([rows('p', v, timedelta(), 0, L, C, D)], ignore_index=True)


# ---------------------------------------------------------------- bookkeeping of steps
def summary(name, kind, i, length, start, end, conds):
    row = {'step name': name, 'step type': kind, 'step number': i, 'duration': length, 'start time': start, 'end time': end}
    for c in conds:
        row[c] = conds[c]
    return pd.DataFrame(row, index=[0])


@case(prop='C02 C03', cut=['minimize'], shapes={'minimize': (1, 1, 1)}, allow='UserConfigError', finite=True)
def summary_of_run(T: float, h: timedelta, g: timedelta, e: timedelta):
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(idle, 'm'), prm_name='p'))
    m = MeasSpec({'p': 1}, {'temp': T}, 'look')
    t = TestSpec([m, StrsSpec({'vdd': T}, h, 'one'), m, StrsSpec({}, g, 'two'), m])
    return simulate(t, dev, PhysTestEnv(), gen_init_state(dev, {'p': 1}, elapsed_time=e)).test_summary


def summary_of_run__expect(T: float, h: timedelta, g: timedelta, e: timedelta):
    z = timedelta()
    return pd.concat([summary('look', 'measure', 0, z, e, e, {'temp': T}), summary('one', 'stress', 1, h, e, e + h, {'vdd': T}),
                      summary('look', 'measure', 2, z, e + h, e + h, {'temp': T}),
                      summary('two', 'stress', 3, g, e + h, e + h + g, {}),
                      summary('look', 'measure', 4, z, e + h + g, e + h + g, {'temp': T})], ignore_index=True)


@case(prop='C02 C14', cut=['minimize'], shapes={'minimize': (1, 1, 2)}, allow='UserConfigError', finite=True)
def measured_steps_numbered(x0: float, h: timedelta):
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(idle, 'm'), InitValMdl(init_val=LatentVar(deter_val=x0)), prm_name='p'))
    m, s = MeasSpec({'p': 2}, {}), StrsSpec({}, h)
    t = TestSpec([m, s, m])
    t.append_steps([s, m])
    return simulate(t, dev, PhysTestEnv()).measurements


def measured_steps_numbered__expect(x0: float, h: timedelta):
    x = np.full((1, 1, 2), x0)
    return pd.concat([rows('p', x, timedelta(), 0, 1, 1, 2), rows('p', x, h, 2, 1, 1, 2), rows('p', x, h + h, 4, 1, 1, 2)],
                     ignore_index=True)


# ---------------------------------------------------------------- concrete counts
@case(prop='C11 C12 C10', cut=['Normal.sample', 'RandomVar.sample'], shapes={'sample': (('arg', 'quantity'),)})
def fewer_then_more_devices(w: Is[Normal], x0: float):
    def shift(c):
        return c
    assume(w.name is None)
    p = DegPrmMdl(DegMechMdl(idle, 'm'), InitValMdl(init_val=LatentVar(deter_val=x0)), CondShiftMdl(shift, c=LatentVar(w)), prm_name='p')
    t = TestSpec([MeasSpec({'p': 2}, {}), MeasSpec({'p': 5}, {}), MeasSpec({'p': 3}, {})], 2, 2)
    return simulate(t, DeviceMdl(p), PhysTestEnv()).measurements


def fewer_then_more_devices__expect(w: Is[Normal], x0: float):
    assume(w.name is None)
    LatentVar(w).name = 'c'
    x = x0 + spread(w.sample(20), 2, 2, 5)
    return pd.concat([rows('p', x[:, :, :2], timedelta(), 0, 2, 2, 2), rows('p', x, timedelta(), 1, 2, 2, 5),
                      rows('p', x[:, :, :3], timedelta(), 2, 2, 2, 3)], ignore_index=True)


@case(prop='C28 C06', cut=['minimize'], shapes={'minimize': (1, 1, 2)}, allow='UserConfigError', finite=True)
def mechanism_without_equation(u: float, x0: float, h: float):
    p = DegPrmMdl({'m': DegMechMdl(None, unitary_val=u), 'f': FailMechMdl(None, unitary_val=0)},
                  InitValMdl(init_val=LatentVar(deter_val=x0)))
    t = TestSpec([StrsSpec({'temp': 3}, h), MeasSpec({'p': 2}, {})])
    st = gen_init_state(DeviceMdl({'p': p}), {'p': 2})
    return simulate(t, DeviceMdl({'p': p}), PhysTestEnv(), st).measurements


def mechanism_without_equation__expect(u: float, x0: float, h: float):
    # stressed: start value plus starting value of the mechanism; measured: that, with the mechanism's starting value once more
    return pd.concat([rows('p', np.full((1, 1, 2), x0 + u + u), timedelta(hours=h), 1, 1, 1, 2)], ignore_index=True)


# ---------------------------------------------------------------- supplied initial states
@case(prop='C03 C01', cut=['minimize'], shapes={'minimize': (1, 1, 1)}, allow='UserConfigError', finite=True)
def numeric_elapsed_time(e: float, h: float):
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(idle, 'm'), prm_name='p'))
    t = TestSpec([StrsSpec({}, h, 's'), MeasSpec({'p': 1}, {}, 'look')])
    st = gen_init_state(dev, {'p': 1}, elapsed_time=e)
    rep = simulate(t, dev, PhysTestEnv(), st)
    return rep.test_summary, rep.measurements, st.elapsed


def numeric_elapsed_time__expect(e: float, h: float):
    z = timedelta()
    s, f = timedelta(hours=e), timedelta(hours=e + h)
    return (pd.concat([summary('s', 'stress', 0, timedelta(hours=h), s, f, {}), summary('look', 'measure', 1, z, f, f, {})],
                      ignore_index=True),
            pd.concat([rows('p', np.full((1, 1, 1), 0), f, 1, 1, 1, 1)], ignore_index=True), s)


@case(prop='C01 C04 C10', cut=['minimize'], shapes={'minimize': (1, 1, 2)}, allow='UserConfigError', finite=True)
def resumed_run(a: float, h: float, e: timedelta, x: Arr[1, 1, 2], y: Arr[1, 1, 2], w: Arr[1, 1, 2], w0: Arr[1, 1, 2],
                l: Arr[1, 1, 2]):
    def wear(time, k):
        return a * time * k
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(wear, 'm', k=LatentVar(deter_val=a)), prm_name='p'))
    s = SimState({'p': x}, {'p': {'m': w0}}, {'p': {'m': {'k': l}, 'init': {}, 'cond': {}}}, e)
    s.curr_prm_vals['p'] = y
    s.curr_deg_mech_vals['p']['m'] = w
    t = TestSpec([MeasSpec({'p': 2}, {}), StrsSpec({}, h), MeasSpec({'p': 2}, {})])
    one = simulate(t, dev, PhysTestEnv(), s)
    two = simulate(t, dev, PhysTestEnv(), s)
    return one.measurements, two.measurements, s


def resumed_run__expect(a: float, h: float, e: timedelta, x: Arr[1, 1, 2], y: Arr[1, 1, 2], w: Arr[1, 1, 2], w0: Arr[1, 1, 2],
                        l: Arr[1, 1, 2]):
    s = SimState({'p': x}, {'p': {'m': w0}}, {'p': {'m': {'k': l}, 'init': {}, 'cond': {}}}, e)
    s.curr_prm_vals['p'] = y
    s.curr_deg_mech_vals['p']['m'] = w

    def gap(time, now):
        return np.abs(now - a * time * l)
    total = search(gap, w) + h
    z = x + np.where(total > 9e9, w, a * total * l)
    r = pd.concat([rows('p', y, e, 0, 1, 1, 2), rows('p', z, e + timedelta(hours=h), 2, 1, 1, 2)], ignore_index=True)
    return r, r, s


@case(prop='C01')
def state_parts_are_separate(x: Arr[L, C, D], w: Arr[L, C, D], l: Arr[L, C, D], L: Dim, C: Dim, D: Dim):
    i, m, v = {'p': x}, {'p': {'m': w}}, {'p': {'k': l}}
    s = SimState(i, m, v)
    s.curr_prm_vals['p'][0, 0, 0] = 5
    s.curr_deg_mech_vals['p']['m'][0, 0, 0] = 6
    i['q'] = 7
    m['p']['n'] = 8
    v['p']['j'] = 9
    return s.init_prm_vals, s.init_deg_mech_vals, s.latent_var_vals, mutated(x, w, l), s.elapsed


def state_parts_are_separate__expect(x: Arr[L, C, D], w: Arr[L, C, D], l: Arr[L, C, D], L: Dim, C: Dim, D: Dim):
    return {'p': x}, {'p': {'m': w}}, {'p': {'k': l}}, [], timedelta()


# ---------------------------------------------------------------- tests that only stress, or mix every kind of measurement
@case(prop='C17 C15 C03', cut=['minimize'], shapes={'minimize': (1, 1, 1)}, allow='UserConfigError', finite=True)
def stress_only_report(T: float, h: timedelta, f: str):
    assume(f != '')
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(idle, 'm'), prm_name='p'))
    t = TestSpec([StrsSpec({'temp': T}, h, 'burn')], name='b', description='d')
    r = simulate(t, dev, PhysTestEnv(), gen_init_state(dev, {'p': 1}))
    r.export_to_json(f, 's')
    back = SimReport(file=f)
    return back.test_name, back.test_summary['duration'], back.test_summary['end time'], back.measurements


def stress_only_report__expect(T: float, h: timedelta, f: str):
    assume(f != '')
    x = pd.DataFrame({'a': [h], 'b': [timedelta() + h]})
    return 'b', x['a'], x['b'], pd.DataFrame()


@case(prop='C14 C31 C12 C28 C08 C29 C02')
def every_kind_measured(T: float, V: float, x0: float, L: Dim, C: Dim, N: Dim, M: Dim, K: Dim):
    def ring(p, temp):
        return p * temp

    def shift(vdd):
        return vdd
    assume(M < N)
    p = DegPrmMdl(DegMechMdl(idle, 'm'), InitValMdl(init_val=LatentVar(deter_val=x0)), CondShiftMdl(shift))
    t = TestSpec([MeasSpec({'c': N, 'temp': K, 'p': M}, {'temp': T, 'vdd': V})], C, L)
    return simulate(t, DeviceMdl({'p': p, 'c': CircPrmMdl(ring)}), PhysTestEnv()).measurements


def every_kind_measured__expect(T: float, V: float, x0: float, L: Dim, C: Dim, N: Dim, M: Dim, K: Dim):
    assume(M < N)
    sensor = pd.DataFrame({'param': 'temp', 'step #': 0, 'device #': None, 'chip #': None, 'lot #': None, 'time': timedelta(),
                           'measured': np.full(K, T)})
    return pd.concat([rows('c', np.full((L, C, N), x0 * T), timedelta(), 0, L, C, N), sensor,
                      rows('p', np.full((L, C, M), x0 + V), timedelta(), 0, L, C, M)], ignore_index=True)
