"""The simulation driver and the generation of initial states."""
from datetime import timedelta

from gerabaldi.exceptions import UserConfigError
from gerabaldi.models import CircPrmMdl, DegMechMdl, DegPrmMdl, DeviceMdl, MeasSpec, PhysTestEnv, SimReport, SimState, StrsSpec, TestSpec
from gerabaldi.sim import _sim_meas_step, _sim_stress_step, gen_init_state, simulate
from sa.lang import assume, calls, case, mutated, ncalls, owned, snap


# ---------------------------------------------------------------- each step once, in order, numbered by its position
@case(prop='C02', cut=['_sim_stress_step', '_sim_meas_step'])
def steps_run_in_order(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv, init: SimState):
    simulate(test, dev, env, init)
    return calls('_sim_stress_step', '_sim_meas_step')


def steps_run_in_order__expect(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv, init: SimState):
    rep = SimReport(test)
    for p in init.curr_prm_vals:
        rep.dev_counts[p] = init.curr_prm_vals[p].shape[2]
    n = 0
    for step in test.steps:
        if type(step) is StrsSpec:
            _sim_stress_step(step, init, dev, env, rep, n)
        if type(step) is MeasSpec:
            _sim_meas_step(step, init, dev, env, rep, n)
        n = n + 1
    return calls('_sim_stress_step', '_sim_meas_step')


@case(prop='C02', cut=['_sim_stress_step', '_sim_meas_step', 'gerabaldi.sim.gen_init_state'])
def steps_run_in_order_fresh(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv):
    simulate(test, dev, env)
    return calls('_sim_stress_step', '_sim_meas_step')


def steps_run_in_order_fresh__expect(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv):
    rep = SimReport(test)
    state = gen_init_state(dev, quantity_info=rep)
    n = 0
    for step in test.steps:
        if type(step) is StrsSpec:
            _sim_stress_step(step, state, dev, env, rep, n)
        if type(step) is MeasSpec:
            _sim_meas_step(step, state, dev, env, rep, n)
        n = n + 1
    return calls('_sim_stress_step', '_sim_meas_step')


# ---------------------------------------------------------------- inputs of simulate
@case(prop='C01', cut=['prm_mdl', 'mech_mdl', 'gen_env_cond_vals', 'calc_equiv_strs_times', 'calc_deg_vals',
                       'calc_cond_shifted_vals', 'calc_circ_vals', 'meas_instm', 'measure', 'format_measurements'],
      raises=False)
def simulate_keeps_inputs(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv, init: SimState):
    rep = simulate(test, dev, env, init)
    return mutated(test, dev, env, init), owned(rep, test, dev, env, init)


def simulate_keeps_inputs__expect(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv, init: SimState):
    return [], []


@case(prop='C01', cut=['_sim_stress_step', '_sim_meas_step', 'prm_mdl', 'gen_latent_vals', 'gen_init_mech_vals',
                       'gen_init_vals'])
def simulate_keeps_inputs_fresh(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv):
    rep = simulate(test, dev, env)
    return mutated(test, dev, env), owned(rep, test, dev, env)


def simulate_keeps_inputs_fresh__expect(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv):
    return [], []


@case(prop='C01', cut=['_sim_stress_step', '_sim_meas_step'])
def report_describes_test(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv, init: SimState):
    rep = simulate(test, dev, env, init)
    return rep.test_name, rep.test_description, rep.num_chps, rep.num_lots


def report_describes_test__expect(test: TestSpec, dev: DeviceMdl, env: PhysTestEnv, init: SimState):
    return test.name, test.description, test.num_chps, test.num_lots


# ---------------------------------------------------------------- initial state
@case(prop='C18', cut=['DeviceMdl.gen_init_state'])
def init_state_counts(n: Dim, m: Dim, chps: Dim, lots: Dim, mech: DegMechMdl, deg_only: bool):
    def ring(r, temp):
        return r
    dev = DeviceMdl({'r': DegPrmMdl({'m': mech}), 'c': CircPrmMdl(ring)})
    if deg_only:
        return gen_init_state(dev, {'c': n}, chps, lots)
    return gen_init_state(dev, {'c': n, 'r': m}, chps, lots)


def init_state_counts__expect(n: Dim, m: Dim, chps: Dim, lots: Dim, mech: DegMechMdl, deg_only: bool):
    def ring(r, temp):
        return r
    dev = DeviceMdl({'r': DegPrmMdl({'m': mech}), 'c': CircPrmMdl(ring)})
    if deg_only:
        s = dev.gen_init_state({'c': n, 'r': n}, chps, lots)
    else:
        s = dev.gen_init_state({'c': n, 'r': max(n, m)}, chps, lots)
    s.elapsed = timedelta()
    return s


@case(prop='C18', cut=['gen_latent_vals', 'gen_init_mech_vals', 'gen_init_vals'])
def device_state_counts_listed(a: Is[DegPrmMdl], b: Is[DegPrmMdl], c: Is[CircPrmMdl], n: Dim, m: Dim, chps: Dim, lots: Dim):
    s = DeviceMdl({'a': a, 'b': b, 'c': c}).gen_init_state({'a': n, 'b': m, 'c': n}, chps, lots)
    return s.latent_var_vals, s.init_prm_vals, s.init_deg_mech_vals


def device_state_counts_listed__expect(a: Is[DegPrmMdl], b: Is[DegPrmMdl], c: Is[CircPrmMdl], n: Dim, m: Dim, chps: Dim,
                                     lots: Dim):
    DeviceMdl({'a': a, 'b': b, 'c': c})
    x, y, z = n, m, n
    return ({'a': a.gen_latent_vals(x, chps, lots), 'b': b.gen_latent_vals(y, chps, lots), 'c': c.gen_latent_vals(z, chps, lots)},
            {'a': a.init_mdl.gen_init_vals(x, chps, lots), 'b': b.init_mdl.gen_init_vals(y, chps, lots)},
            {'a': a.gen_init_mech_vals(x, chps, lots), 'b': b.gen_init_mech_vals(y, chps, lots)})


@case(prop='C18', cut=['gen_latent_vals', 'gen_init_mech_vals', 'gen_init_vals'])
def device_state_counts_filled(a: Is[DegPrmMdl], b: Is[DegPrmMdl], c: Is[CircPrmMdl], n: Dim, m: Dim, chps: Dim, lots: Dim):
    s = DeviceMdl({'a': a, 'b': b, 'c': c}).gen_init_state({'a': n, 'c': m}, chps, lots)
    return s.latent_var_vals, s.init_prm_vals, s.init_deg_mech_vals


def device_state_counts_filled__expect(a: Is[DegPrmMdl], b: Is[DegPrmMdl], c: Is[CircPrmMdl], n: Dim, m: Dim, chps: Dim,
                                     lots: Dim):
    DeviceMdl({'a': a, 'b': b, 'c': c})
    x, y, z = n, max(n, m), m
    return ({'a': a.gen_latent_vals(x, chps, lots), 'b': b.gen_latent_vals(y, chps, lots), 'c': c.gen_latent_vals(z, chps, lots)},
            {'a': a.init_mdl.gen_init_vals(x, chps, lots), 'b': b.init_mdl.gen_init_vals(y, chps, lots)},
            {'a': a.gen_init_mech_vals(x, chps, lots), 'b': b.gen_init_mech_vals(y, chps, lots)})


@case(prop='C18', cut=['gen_latent_vals', 'gen_init_mech_vals', 'gen_init_vals'])
def device_state_counts_empty(a: Is[DegPrmMdl], b: Is[DegPrmMdl], c: Is[CircPrmMdl], n: Dim, m: Dim, chps: Dim, lots: Dim):
    s = DeviceMdl({'a': a, 'b': b, 'c': c}).gen_init_state({}, chps, lots)
    return s.latent_var_vals, s.init_prm_vals, s.init_deg_mech_vals


def device_state_counts_empty__expect(a: Is[DegPrmMdl], b: Is[DegPrmMdl], c: Is[CircPrmMdl], n: Dim, m: Dim, chps: Dim,
                                     lots: Dim):
    DeviceMdl({'a': a, 'b': b, 'c': c})
    x, y, z = 1, 1, 1
    return ({'a': a.gen_latent_vals(x, chps, lots), 'b': b.gen_latent_vals(y, chps, lots), 'c': c.gen_latent_vals(z, chps, lots)},
            {'a': a.init_mdl.gen_init_vals(x, chps, lots), 'b': b.init_mdl.gen_init_vals(y, chps, lots)},
            {'a': a.gen_init_mech_vals(x, chps, lots), 'b': b.gen_init_mech_vals(y, chps, lots)})


@case(prop='C21 C18')
def missing_counts_rejected(x: float, n: Dim):
    def wear(time):
        return time * x
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(wear, 'm'), prm_name='p'))
    out = []
    try:
        gen_init_state(dev)
        out.append('accepted')
    except UserConfigError:
        out.append('rejected')
    try:
        gen_init_state(dev, {}, n, n)
        out.append('accepted')
    except UserConfigError:
        out.append('rejected')
    return out


def missing_counts_rejected__expect(x: float, n: Dim):
    return ['rejected', 'rejected']


@case(prop='C18', cut=['DeviceMdl.gen_init_state'])
def counts_taken_from_report(n: Dim, m: Dim, chps: Dim, lots: Dim, mech: DegMechMdl):
    def ring(r, temp):
        return r
    dev = DeviceMdl({'r': DegPrmMdl({'m': mech}), 'c': CircPrmMdl(ring)})
    rep = SimReport(TestSpec([MeasSpec({'c': n}, {}), MeasSpec({'r': m}, {}), MeasSpec({'temp': 9}, {'temp': 1})], chps, lots))
    gen_init_state(dev, quantity_info=rep)
    return calls('DeviceMdl.gen_init_state'), rep.dev_counts


def counts_taken_from_report__expect(n: Dim, m: Dim, chps: Dim, lots: Dim, mech: DegMechMdl):
    def ring(r, temp):
        return r
    dev = DeviceMdl({'r': DegPrmMdl({'m': mech}), 'c': CircPrmMdl(ring)})
    counts = {'c': n, 'r': max(n, m), 'temp': 9}
    dev.gen_init_state(counts, chps, lots)
    return calls('DeviceMdl.gen_init_state'), counts
