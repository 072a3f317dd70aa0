"""Stress and measurement steps: bookkeeping of time, degradation and report rows."""
from datetime import timedelta

import pandas as pd

from gerabaldi.exceptions import MissingParamError
from gerabaldi.models import CircPrmMdl, DegPrmMdl, DeviceMdl, MeasSpec, PhysTestEnv, SimReport, SimState, StrsSpec
from gerabaldi.sim import _sim_meas_step, _sim_stress_step
from sa.lang import assume, calls, case, mutated, snap
from spec.units import seconds_per


# ---------------------------------------------------------------- elapsed time and summary rows
@case(prop='C03', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_equiv_strs_times', 'calc_deg_vals', 'mech_mdl'], allow='UserConfigError')
def stress_advances_clock(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    _sim_stress_step(step, st, dev, env, rep, i)
    return st.elapsed


def stress_advances_clock__expect(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    return st.elapsed + step.duration


@case(prop='C03', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_equiv_strs_times', 'calc_deg_vals', 'mech_mdl'], allow='UserConfigError')
def stress_summary_row(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    _sim_stress_step(step, st, dev, env, rep, i)
    return rep.test_summary


def stress_summary_row__expect(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    row = {'step name': step.name, 'step type': 'stress', 'step number': i, 'duration': step.duration,
           'start time': st.elapsed, 'end time': st.elapsed + step.duration}
    for c in step.conditions:
        row[c] = step.conditions[c]
    return pd.concat([rep.test_summary, pd.DataFrame(row, index=[0])], ignore_index=True)


@case(prop='C03', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_cond_shifted_vals', 'calc_circ_vals', 'meas_instm', 'measure',
                       'format_measurements'], allow='MissingParamError')
def measure_summary_row(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    _sim_meas_step(step, st, dev, env, rep, i)
    return rep.test_summary, st.elapsed


def measure_summary_row__expect(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    row = {'step name': step.name, 'step type': 'measure', 'step number': i, 'duration': timedelta(),
           'start time': st.elapsed, 'end time': st.elapsed}
    for c in step.conditions:
        row[c] = step.conditions[c]
    return pd.concat([rep.test_summary, pd.DataFrame(row, index=[0])], ignore_index=True), st.elapsed


# ---------------------------------------------------------------- stress moves every degraded parameter, nothing else
@case(prop='C04 C10 C15 C16', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_equiv_strs_time', 'calc_deg_vals', 'mech_mdl'])
def stress_degrades(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    assume(type(step.duration) is timedelta)
    assume(all(p in dev.prm_mdl_list for p in st.curr_prm_vals))
    assume(all((p in st.curr_prm_vals) == (type(dev.prm_mdl(p)) is DegPrmMdl) for p in dev.prm_mdl_list))
    assume(all(type(dev.prm_mdl(p)) is DegPrmMdl or type(dev.prm_mdl(p)) is CircPrmMdl for p in dev.prm_mdl_list))
    _sim_stress_step(step, st, dev, env, rep, i)
    return st.curr_prm_vals, st.curr_deg_mech_vals


def stress_degrades__expect(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    assume(type(step.duration) is timedelta)
    prms = [p for p in dev.prm_mdl_list if type(dev.prm_mdl(p)) is DegPrmMdl]
    conds = env.gen_env_cond_vals(step.conditions, prms, rep, dev, 'stress')
    prm_vals, mech_vals = dict(st.curr_prm_vals), dict(st.curr_deg_mech_vals)
    for p in prms:
        mdl = dev.prm_mdl(p)
        dims = (rep.num_lots, rep.num_chps, rep.dev_counts[p])
        before = mdl.calc_equiv_strs_times(dims, st.curr_deg_mech_vals[p], conds[p], st.init_deg_mech_vals[p],
                                           st.latent_var_vals[p])
        total = {m: before[m] + step.duration.total_seconds() / seconds_per(mdl.mech_mdl(m).time_unit) for m in before}
        v, d = mdl.calc_deg_vals(dims, total, conds[p], st.init_prm_vals[p], st.latent_var_vals[p],
                                 st.curr_deg_mech_vals[p])
        prm_vals[p] = v
        mech_vals[p] = d
    return prm_vals, mech_vals


@case(prop='C10', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_equiv_strs_times', 'calc_deg_vals', 'mech_mdl'], allow='UserConfigError')
def stress_keeps_initial_values(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    _sim_stress_step(step, st, dev, env, rep, i)
    return st.init_prm_vals, st.init_deg_mech_vals, st.latent_var_vals


def stress_keeps_initial_values__expect(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    return st.init_prm_vals, st.init_deg_mech_vals, st.latent_var_vals


@case(prop='C01', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_equiv_strs_times', 'calc_deg_vals', 'mech_mdl'], allow='UserConfigError')
def stress_step_leaves_inputs(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    _sim_stress_step(step, st, dev, env, rep, i)
    return mutated(step, dev, env)


def stress_step_leaves_inputs__expect(step: StrsSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    return []


# ---------------------------------------------------------------- measuring
@case(prop='C11 C01', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_cond_shifted_vals', 'calc_circ_vals', 'meas_instm', 'measure',
                       'format_measurements'], allow='MissingParamError')
def measuring_keeps_state(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    _sim_meas_step(step, st, dev, env, rep, i)
    return mutated(st, step, dev, env)


def measuring_keeps_state__expect(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    return []


@case(prop='C12 C14 C31', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_cond_shifted_vals', 'calc_circ_vals', 'meas_instm', 'measure',
                       'format_measurements'])
def measured_rows(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    assume(all(p in dev.prm_mdl_list for p in st.curr_prm_vals))
    assume(all((p in st.curr_prm_vals) == (type(dev.prm_mdl(p)) is DegPrmMdl) for p in dev.prm_mdl_list))
    assume(all(type(dev.prm_mdl(p)) is DegPrmMdl or type(dev.prm_mdl(p)) is CircPrmMdl for p in dev.prm_mdl_list))
    _sim_meas_step(step, st, dev, env, rep, i)
    return rep.measurements


def measured_rows__expect(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int):
    for p in step.measurements:
        if p not in dev.prm_mdl_list and p not in step.conditions:
            raise MissingParamError('unknown')
    conds = env.gen_env_cond_vals(step.conditions, step.measurements, rep, dev, 'measure')
    rows = pd.DataFrame()
    for p in step.measurements:
        n = step.measurements[p]
        if p in st.curr_prm_vals:
            true = dev.prm_mdl(p).calc_cond_shifted_vals((rep.num_lots, rep.num_chps, n), conds[p], st.curr_prm_vals[p],
                                                         st.latent_var_vals[p])
            kind = 'parameter'
        elif p in dev.prm_mdl_list:
            true = dev.prm_mdl(p).calc_circ_vals(n, conds[p], st.curr_prm_vals, st.latent_var_vals[p])
            kind = 'parameter'
        else:
            true = conds[p][p]
            kind = 'condition'
        new = SimReport.format_measurements(true, p, st.elapsed, i, kind)
        new['measured'] = env.meas_instm(p).measure(new['measured'])
        rows = pd.concat((rows, new), ignore_index=True)
    return pd.concat([rep.measurements, rows], ignore_index=True)


@case(prop='C21 C11', cut=['prm_mdl', 'gen_env_cond_vals', 'calc_cond_shifted_vals', 'calc_circ_vals', 'meas_instm', 'measure',
                       'format_measurements'])
def unknown_measurement_rejected_first(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport, i: int,
                                       bad: str):
    assume(bad in step.measurements, bad not in dev.prm_mdl_list, bad not in step.conditions)
    try:
        _sim_meas_step(step, st, dev, env, rep, i)
    except MissingParamError:
        return mutated(st, step, dev, env, rep), calls()
    return 'accepted'


def unknown_measurement_rejected_first__expect(step: MeasSpec, st: SimState, dev: DeviceMdl, env: PhysTestEnv, rep: SimReport,
                                               i: int, bad: str):
    assume(bad in step.measurements, bad not in dev.prm_mdl_list, bad not in step.conditions)
    return [], []
