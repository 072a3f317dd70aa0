"""Prebuilt tests, environments and mechanisms."""
from datetime import timedelta

import numpy as np
import pandas as pd

from gerabaldi.cookbook import htol, ideal_env, jedec_nbti_mdl, volt_and_temp_env
from gerabaldi.models import DegMechMdl, DegPrmMdl, DeviceMdl, EnvVrtnMdl, MeasInstrument, MeasSpec, Normal, PhysTestEnv, StrsSpec, TestSpec
from sa.lang import assume, calls, case, mutated, ncalls, owned


# ---------------------------------------------------------------- mechanism
@case(prop='C23')
def nbti_equation(a: float, e: float, T: float, v: float, al: float, t: float, n: float):
    return jedec_nbti_mdl().compute(a_0=a, e_aa=e, temp=T, vdd=v, alpha=al, time=t, n=n)


def nbti_equation__expect(a: float, e: float, T: float, v: float, al: float, t: float, n: float):
    return a * np.exp(e / (8.617e-5 * T)) * (v ** al) * (t ** n)


def centre(m, name):
    d = m.latent_var(name).dev_vrtn_mdl
    return type(d) is Normal, d.mu, d.sigma


@case(prop='C23')
def nbti_latents():
    m = jedec_nbti_mdl()
    return centre(m, 'a_0'), centre(m, 'e_aa'), centre(m, 'alpha'), centre(m, 'n'), m.unitary, type(m) is DegMechMdl


def nbti_latents__expect():
    return ((True, 0.006, 0.0002), (True, 0.05, 0.0002), (True, 3.4, 0.004),
            (True, 0.21, 0.005), 0, True)


# ---------------------------------------------------------------- environments
def layers(v):
    return ((v.dev_vrtn_mdl.mu, v.dev_vrtn_mdl.sigma), (v.chp_vrtn_mdl.mu, v.chp_vrtn_mdl.sigma),
            (v.batch_vrtn_mdl.mu, v.batch_vrtn_mdl.sigma), v.vrtn_type)


@case(prop='C23')
def realistic_environment_variation():
    e = volt_and_temp_env()
    return layers(e.vrtn_mdl('temp')), layers(e.vrtn_mdl('vdd'))


def realistic_environment_variation__expect():
    return ((0, 0.05), (0, 0.2), (0, 0.5), 'offset'), ((0, 0.0003), (0, 0.0005), (0, 0), 'offset')


@case(prop='C23', cut=['Normal.sample', 'RandomVar.sample'])
def realistic_environment_instruments(x: Arr[N], N: Dim):
    e = volt_and_temp_env()
    return e.meas_instm('temp').measure(x), e.meas_instm('vdd').measure(x), e.meas_instm('p').measure(x)


def realistic_environment_instruments__expect(x: Arr[N], N: Dim):
    return (MeasInstrument(precision=2, error=Normal(-273.15, 0.2), meas_lims=(-40, 180), name='Basic Temp Sensor').measure(x),
            MeasInstrument(precision=3, error=Normal(0, 0.0002), meas_lims=(0, 12), name='Basic Voltmeter').measure(x),
            MeasInstrument().measure(x))


@case(prop='C23')
def ideal_environment_is_exact(x: Arr[N], T: float, D: Dim, C: Dim, L: Dim, N: Dim):
    e = ideal_env()
    return e.meas_instm('p').measure(x), e.vrtn_mdl('temp').gen_env_vrtns(T, D, C, L)


def ideal_environment_is_exact__expect(x: Arr[N], T: float, D: Dim, C: Dim, L: Dim, N: Dim):
    return x, np.full((L, C, D), T)


# ---------------------------------------------------------------- burn-in test
def listing(t):
    out = []
    for s in t.steps:
        if type(s) is MeasSpec:
            out.append(('measure', s.name, s.conditions, s.measurements))
        else:
            out.append(('stress', s.name, s.conditions, s.duration))
    return out


@case(prop='C23')
def htol_defaults(counts: Dict[int]):
    t = htol(counts)
    return listing(t), t.num_chps, t.num_lots


def htol_defaults__expect(counts: Dict[int]):
    room = ('measure', 'Room Temp Measurement', {'temp': 298.15, 'vdd': 1}, counts)
    return [room, ('stress', 'HTOL Stress', {'temp': 398.15, 'vdd': 1.2}, timedelta(hours=1000)), room], 77, 3


@case(prop='C23')
def htol_quarters(counts: Dict[int], v: float):
    t = htol(counts, v, strs_meas_intrvl=25, duration_override=75)
    return listing(t), t.num_chps, t.num_lots


def htol_quarters__expect(counts: Dict[int], v: float):
    room = ('measure', 'Room Temp Measurement', {'temp': 298.15, 'vdd': v}, counts)
    hot = ('measure', 'Stress Temp Measurement', {'temp': 398.15, 'vdd': v * 1.2}, counts)
    burn = ('stress', 'HTOL Stress', {'temp': 398.15, 'vdd': v * 1.2}, timedelta(hours=25))
    return [room, hot, burn, hot, burn, hot, burn, hot, room], 77, 3
