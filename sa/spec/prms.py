"""Parameter models built from any set of named mechanisms."""
import inspect

import numpy as np

from gerabaldi.exceptions import UserConfigError
from gerabaldi.helpers import _loop_compute
from gerabaldi.models import CircPrmMdl, CondShiftMdl, DegMechMdl, DegPrmMdl, DeviceMdl, FailMechMdl, InitValMdl, LatentVar
from sa.lang import assume, calls, case, mutated, ncalls
from spec.mechs import evaluate


# ---------------------------------------------------------------- lookup by name
@case(prop='C30')
def mechanism_by_name(mechs: Dict[Is[DegMechMdl]], k: str):
    assume(k in mechs)
    return DegPrmMdl(mechs).mech_mdl(k)


def mechanism_by_name__expect(mechs: Dict[Is[DegMechMdl]], k: str):
    assume(k in mechs)
    return mechs[k]


@case(prop='C30')
def parameter_by_name(prms: Dict[Is[CircPrmMdl]], k: str):
    assume(k in prms)
    return DeviceMdl(prms).prm_mdl(k)


def parameter_by_name__expect(prms: Dict[Is[CircPrmMdl]], k: str):
    assume(k in prms)
    return prms[k]


# ---------------------------------------------------------------- equivalent times per mechanism
@case(prop='C04', cut=['calc_equiv_strs_time'])
def equivalent_times_per_mechanism(mechs: Dict[Is[DegMechMdl]], dims: tuple, vals: Dict[ndarray], conds: dict,
                                   init: Dict[ndarray], lat: Dict[dict]):
    return DegPrmMdl(mechs).calc_equiv_strs_times(dims, vals, conds, init, lat)


def equivalent_times_per_mechanism__expect(mechs: Dict[Is[DegMechMdl]], dims: tuple, vals: Dict[ndarray], conds: dict,
                                           init: Dict[ndarray], lat: Dict[dict]):
    out = {}
    for m in mechs:
        mechs[m].name = m
        out[m] = mechs[m].calc_equiv_strs_time(vals[m], init[m], conds, lat[m], dims)
    return out


# ---------------------------------------------------------------- value after degradation
@case(prop='C04 C10 C28', cut=['MechMdl.calc_deg_vals', '_loop_compute'])
def parameter_value_after_stress(mechs: Dict[Is[DegMechMdl]], eqn: Fn, u: float, dims: tuple, times: Dict[ndarray], conds: dict,
                                 init: ndarray, lat: Dict[dict], old: Dict[ndarray]):
    assume('init' not in mechs, 'cond' not in mechs, 'gain' not in mechs)
    return DegPrmMdl(mechs, cond_shift_mdl=CondShiftMdl(None, 'c', u), compute_eqn=eqn).calc_deg_vals(
        dims, times, conds, init, lat, old)


def parameter_value_after_stress__expect(mechs: Dict[Is[DegMechMdl]], eqn: Fn, u: float, dims: tuple, times: Dict[ndarray],
                                         conds: dict, init: ndarray, lat: Dict[dict], old: Dict[ndarray]):
    assume('init' not in mechs, 'cond' not in mechs, 'gain' not in mechs)
    new = {}
    args = {}
    for m in mechs:
        mechs[m].name = m
    for a in inspect.signature(eqn).parameters.keys():
        if a in lat:
            args[a] = lat[a]
    args['init'] = init
    args['cond'] = u
    for m in mechs:
        new[m] = mechs[m].calc_deg_vals(times[m], old[m], conds, lat[m], dims)
        args[m] = new[m]
    return evaluate(eqn, args, dims), new


# ---------------------------------------------------------------- value while measured
@case(prop='C12 C28', cut=['calc_cond_vals', '_loop_compute'], shapes={'calc_cond_vals': ('L', 'C', 'D')})
def measured_value_all_devices(mechs: Dict[Is[DegMechMdl]], eqn: Fn, cond: Is[CondShiftMdl], conds: dict,
                               vals: Arr[L, C, D], clat: Dict[Arr[L, C, D]], plat: Arr[L, C, D], L: Dim, C: Dim, D: Dim):
    assume('init' not in mechs, 'cond' not in mechs, 'gain' not in mechs)
    lat = {'cond': clat, 'gain': plat}
    return DegPrmMdl(mechs, cond_shift_mdl=cond, compute_eqn=eqn).calc_cond_shifted_vals((L, C, D), conds, vals, lat)


def measured_value_all_devices__expect(mechs: Dict[Is[DegMechMdl]], eqn: Fn, cond: Is[CondShiftMdl], conds: dict,
                                       vals: Arr[L, C, D], clat: Dict[Arr[L, C, D]], plat: Arr[L, C, D], L: Dim, C: Dim, D: Dim):
    assume('init' not in mechs, 'cond' not in mechs, 'gain' not in mechs)
    args = {}
    if 'gain' in inspect.signature(eqn).parameters.keys():
        args['gain'] = plat
    args['init'] = vals
    args['cond'] = cond.calc_cond_vals(conds, clat, (L, C, D))
    for m in mechs:
        args[m] = mechs[m].unitary
    return evaluate(eqn, args, (L, C, D))


@case(prop='C12 C28', cut=['calc_cond_vals', '_loop_compute'], shapes={'calc_cond_vals': ('L', 'C', 'N')})
def measured_value_first_devices(mechs: Dict[Is[DegMechMdl]], eqn: Fn, cond: Is[CondShiftMdl], conds: dict, N: Dim,
                                 vals: Arr[L, C, D], clat: Dict[Arr[L, C, D]], plat: Arr[L, C, D], L: Dim, C: Dim, D: Dim):
    assume('init' not in mechs, 'cond' not in mechs, 'gain' not in mechs)
    assume(N < D)
    lat = {'cond': clat, 'gain': plat}
    return DegPrmMdl(mechs, cond_shift_mdl=cond, compute_eqn=eqn).calc_cond_shifted_vals((L, C, N), conds, vals, lat)


def measured_value_first_devices__expect(mechs: Dict[Is[DegMechMdl]], eqn: Fn, cond: Is[CondShiftMdl], conds: dict, N: Dim,
                                         vals: Arr[L, C, D], clat: Dict[Arr[L, C, D]], plat: Arr[L, C, D], L: Dim, C: Dim,
                                         D: Dim):
    assume('init' not in mechs, 'cond' not in mechs, 'gain' not in mechs)
    assume(N < D)
    args = {}
    if 'gain' in inspect.signature(eqn).parameters.keys():
        args['gain'] = plat[:, :, :N]
    args['init'] = vals[:, :, :N]
    args['cond'] = cond.calc_cond_vals(conds, {k: clat[k][:, :, :N] for k in clat}, (L, C, N))
    for m in mechs:
        args[m] = mechs[m].unitary
    return evaluate(eqn, args, (L, C, N))


@case(prop='C12')
def default_parameter_equation(x: float, c: float, a: float, b: float, m: Is[DegMechMdl], k: Is[DegMechMdl]):
    return DegPrmMdl({'p': m, 'q': k}).compute(init=x, cond=c, p=a, q=b)


def default_parameter_equation__expect(x: float, c: float, a: float, b: float, m: Is[DegMechMdl], k: Is[DegMechMdl]):
    return x + c + a + b


@case(prop='C11', cut=['calc_cond_vals', '_loop_compute'], shapes={'calc_cond_vals': ('L', 'C', 'N')})
def measuring_a_parameter_keeps_arrays(mechs: Dict[Is[DegMechMdl]], eqn: Fn, cond: Is[CondShiftMdl], conds: dict, N: Dim,
                                       vals: Arr[L, C, D], lat: Dict[Dict[Arr[L, C, D]]], L: Dim, C: Dim, D: Dim):
    prm = DegPrmMdl(mechs, cond_shift_mdl=cond, compute_eqn=eqn)
    prm.calc_cond_shifted_vals((L, C, N), conds, vals, lat)
    return mutated(conds, vals, lat)


def measuring_a_parameter_keeps_arrays__expect(mechs: Dict[Is[DegMechMdl]], eqn: Fn, cond: Is[CondShiftMdl], conds: dict, N: Dim,
                                               vals: Arr[L, C, D], lat: Dict[Dict[Arr[L, C, D]]], L: Dim, C: Dim, D: Dim):
    return []


# ---------------------------------------------------------------- sampling of latents and starting values
@case(prop='C10', cut=['LatentVar.gen_latent_vals'])
def parameter_latents(mechs: Dict[Is[DegMechMdl]], cond: Is[CondShiftMdl], eqn: Fn, x: Is[LatentVar], D: Dim, C: Dim, L: Dim):
    return DegPrmMdl(mechs, cond_shift_mdl=cond, compute_eqn=eqn, x=x).gen_latent_vals(D, C, L)


def parameter_latents__expect(mechs: Dict[Is[DegMechMdl]], cond: Is[CondShiftMdl], eqn: Fn, x: Is[LatentVar], D: Dim, C: Dim,
                              L: Dim):
    out = {'cond': cond.gen_latent_vals(D, C, L)}
    for m in mechs:
        mechs[m].name = m
        out[m] = mechs[m].gen_latent_vals(D, C, L)
    out['x'] = x.gen_latent_vals(D, C, L)
    return out


@case(prop='C10', cut=['gen_init_vals'])
def parameter_mechanisms_start(mechs: Dict[Is[DegMechMdl]], D: Dim, C: Dim, L: Dim):
    return DegPrmMdl(mechs).gen_init_mech_vals(D, C, L)


def parameter_mechanisms_start__expect(mechs: Dict[Is[DegMechMdl]], D: Dim, C: Dim, L: Dim):
    out = {}
    for m in mechs:
        mechs[m].name = m
        out[m] = mechs[m].gen_init_vals(D, C, L)
    return out


@case(prop='C10', cut=['LatentVar.gen_latent_vals'])
def initial_values_from_latents(eqn: Fn, p: Is[LatentVar], q: Is[LatentVar], D: Dim, C: Dim, L: Dim):
    return InitValMdl(eqn, 'i', p=p, q=q).gen_init_vals(D, C, L)


def initial_values_from_latents__expect(eqn: Fn, p: Is[LatentVar], q: Is[LatentVar], D: Dim, C: Dim, L: Dim):
    InitValMdl(eqn, 'i', p=p, q=q)
    return eqn(p=p.gen_latent_vals(D, C, L), q=q.gen_latent_vals(D, C, L))


# ---------------------------------------------------------------- which conditions a parameter depends on
@case(prop='C29')
def stress_dependencies(mechs: Dict[Is[DegMechMdl]], cond: Is[CondShiftMdl], eqn: Fn, names: List[str], k: str):
    return k in DegPrmMdl(mechs, cond_shift_mdl=cond, compute_eqn=eqn).get_dependencies(names, 'stress')


def stress_dependencies__expect(mechs: Dict[Is[DegMechMdl]], cond: Is[CondShiftMdl], eqn: Fn, names: List[str], k: str):
    used = k in inspect.signature(eqn).parameters.keys()
    for m in mechs:
        if k in mechs[m].compute_args:
            used = True
    return k in names and used


@case(prop='C29')
def measure_dependencies(mechs: Dict[Is[DegMechMdl]], cond: Is[CondShiftMdl], eqn: Fn, names: List[str], k: str):
    return k in DegPrmMdl(mechs, cond_shift_mdl=cond, compute_eqn=eqn).get_dependencies(names, 'measure')


def measure_dependencies__expect(mechs: Dict[Is[DegMechMdl]], cond: Is[CondShiftMdl], eqn: Fn, names: List[str], k: str):
    return k in names and (k in inspect.signature(eqn).parameters.keys() or k in cond.compute_args)


@case(prop='C29')
def circuit_dependencies(eqn: Fn, names: List[str], prms: List[str], k: str):
    c = CircPrmMdl(eqn, 'c')
    return (k in c.get_dependencies(names, 'measure'), k in c.get_dependencies(names, 'stress'), k in c.get_dependencies(names),
            k in c.get_required_prms(prms))


def circuit_dependencies__expect(eqn: Fn, names: List[str], prms: List[str], k: str):
    used = k in inspect.signature(eqn).parameters.keys()
    return k in names and used, k in names and used, k in names and used, k in prms and used


# ---------------------------------------------------------------- latents are found under their argument name
@case(prop='C30 C28')
def latents_by_argument_name(x: float, y: float, named: bool):
    def shift(g, temp):
        return g * temp
    g = LatentVar(deter_val=x)
    if named:
        g.name = 'gain'
    c = CondShiftMdl(shift, g=g)
    m = DegMechMdl(shift, 'm', g=g)
    p = DegPrmMdl(m, InitValMdl(init_val=LatentVar(deter_val=y, name='start')), c, prm_name='p', k=g)
    return c.latent_var('g') is g, m.latent_var('g') is g, p.latent_var('k') is g, p.init_mdl.latent_var('init_val').deter_val, g.name


def latents_by_argument_name__expect(x: float, y: float, named: bool):
    return True, True, True, y, 'gain' if named else 'g'


# One device, one chip and one lot unless told otherwise

@case(prop='C10 C28')
def single_initial_value(x: float, y: float):
    m = InitValMdl(lambda a, b: a - b, 'i', a=LatentVar(deter_val=x), b=LatentVar(deter_val=y))
    return m.gen_latent_vals(), m.gen_init_vals()


def single_initial_value__expect(x: float, y: float):
    return {'a': np.full((1, 1, 1), x), 'b': np.full((1, 1, 1), y)}, np.full((1, 1, 1), x - y)
