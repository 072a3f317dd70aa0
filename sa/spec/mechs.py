"""Degradation and failure mechanisms, condition shifts, initial values: how equations are called and what is kept."""
import inspect

import numpy as np

from gerabaldi.helpers import _loop_compute
from gerabaldi.math import minimize
from gerabaldi.models import CircPrmMdl, CondShiftMdl, DegMechMdl, DegPrmMdl, FailMechMdl, InitValMdl, LatentVar
from sa.lang import assume, calls, case, mutated, ncalls


def bound_args(eqn, first, second):
    """Arguments of an equation: every parameter named in `first` is taken from there, else from `second` if named there."""
    args = {}
    for a in inspect.signature(eqn).parameters.keys():
        if a in first:
            args[a] = first[a]
        elif a in second:
            args[a] = second[a]
    return args


def evaluate(eqn, args, dims):
    try:
        return eqn(**args)
    except ValueError:
        return _loop_compute(eqn, args, dims)


# ---------------------------------------------------------------- hard failures
@case(prop='C05', cut=['_loop_compute'], shapes={'_loop_compute': ('L', 'C', 'D')}, eqn_shape=('L', 'C', 'D'))
def failed_devices_keep_value(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                              lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    v = FailMechMdl(eqn, 'f', u, unit).calc_deg_vals(t, pre, conds, lat, (L, C, D))
    return np.where(pre != u, v, 0)


def failed_devices_keep_value__expect(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                                      lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    return np.where(pre != u, pre, 0)


@case(prop='C05 C27 C28', cut=['_loop_compute'], shapes={'_loop_compute': ('L', 'C', 'D')}, eqn_shape=('L', 'C', 'D'))
def unfailed_devices_follow_equation(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                                     lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    v = FailMechMdl(eqn, 'f', u, unit).calc_deg_vals(t, pre, conds, lat, (L, C, D))
    return np.where((pre == u) & (t <= 9e9), v, 0)


def unfailed_devices_follow_equation__expect(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D],
                                             conds: Dict[Arr[L, C, D]], lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    args = bound_args(eqn, lat, conds)
    args2 = {'time': t}
    args2.update(args)
    return np.where((pre == u) & (t <= 9e9), evaluate(eqn, args2, (L, C, D)), 0)


@case(prop='C05')
def failures_accumulate_no_history(eqn: Fn, u: float, unit: str, deg: Arr[L, C, D], init: Arr[L, C, D], conds: dict, lat: dict, L: Dim,
                                   C: Dim, D: Dim):
    return FailMechMdl(eqn, 'f', u, unit).calc_equiv_strs_time(deg, init, conds, lat, (L, C, D))


def failures_accumulate_no_history__expect(eqn: Fn, u: float, unit: str, deg: Arr[L, C, D], init: Arr[L, C, D], conds: dict, lat: dict,
                                           L: Dim, C: Dim, D: Dim):
    return np.full((L, C, D), 0.0)


# ---------------------------------------------------------------- degradation
@case(prop='C06', cut=['_loop_compute'], shapes={'_loop_compute': ('L', 'C', 'D')}, eqn_shape=('L', 'C', 'D'))
def unreachable_keeps_value(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                            lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    v = DegMechMdl(eqn, 'm', u, unit).calc_deg_vals(t, pre, conds, lat, (L, C, D))
    return np.where((t > 9e9) & (pre != np.inf), v, 0)


def unreachable_keeps_value__expect(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                                    lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    return np.where((t > 9e9) & (pre != np.inf), pre, 0)


@case(prop='C06 C27 C28', cut=['_loop_compute'], shapes={'_loop_compute': ('L', 'C', 'D')}, eqn_shape=('L', 'C', 'D'))
def reachable_follows_equation(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                               lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    v = DegMechMdl(eqn, 'm', u, unit).calc_deg_vals(t, pre, conds, lat, (L, C, D))
    return np.where(t <= 9e9, v, 0)


def reachable_follows_equation__expect(eqn: Fn, u: float, unit: str, t: Arr[L, C, D], pre: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                                       lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    args = {'time': t}
    args.update(bound_args(eqn, lat, conds))
    return np.where(t <= 9e9, evaluate(eqn, args, (L, C, D)), 0)


@case(prop='C04 C27 C28', cut=['_loop_compute', 'minimize'], shapes={'_loop_compute': ('L', 'C', 'D')}, eqn_shape=('L', 'C', 'D'))
def equivalent_time_objective(eqn: Fn, u: float, unit: str, deg: Arr[L, C, D], init: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                              lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    return DegMechMdl(eqn, 'm', u, unit).calc_equiv_strs_time(deg, init, conds, lat, (L, C, D))


def equivalent_time_objective__expect(eqn: Fn, u: float, unit: str, deg: Arr[L, C, D], init: Arr[L, C, D], conds: Dict[Arr[L, C, D]],
                                      lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    def gap(time, target):
        args = {'time': time}
        args.update(bound_args(eqn, lat, conds))
        return np.abs(target - evaluate(eqn, args, (L, C, D)))
    return minimize(gap, {'target': deg}, (1e-3, 1e10), maxiter=50, log_gold=True)


# ---------------------------------------------------------------- initial mechanism values
@case(prop='C10')
def mechanisms_start_unitary(eqn: Fn, u: float, D: Dim, C: Dim, L: Dim, fail: bool):
    if fail:
        return FailMechMdl(eqn, 'm', u).gen_init_vals(D, C, L)
    return DegMechMdl(eqn, 'm', u).gen_init_vals(D, C, L)


def mechanisms_start_unitary__expect(eqn: Fn, u: float, D: Dim, C: Dim, L: Dim, fail: bool):
    return np.full((L, C, D), u)


# ---------------------------------------------------------------- binding of equation arguments
@case(prop='C28 C27', cut=['_loop_compute'], shapes={'_loop_compute': ('L', 'C', 'D')}, eqn_shape=('L', 'C', 'D'))
def condition_shift_arguments(eqn: Fn, u: float, conds: Dict[Arr[L, C, D]], lat: Dict[Arr[L, C, D]], L: Dim, C: Dim, D: Dim):
    return CondShiftMdl(eqn, 'c', u).calc_cond_vals(conds, lat, (L, C, D))


def condition_shift_arguments__expect(eqn: Fn, u: float, conds: Dict[Arr[L, C, D]], lat: Dict[Arr[L, C, D]], L: Dim, C: Dim,
                                      D: Dim):
    return evaluate(eqn, bound_args(eqn, lat, conds), (L, C, D))


@case(prop='C28', eqn_shape=('L', 'C', 'N'))
def circuit_arguments(eqn: Fn, n: Dim, conds: Dict[Arr[L, C, N]], prms: Dict[Arr[L, C, D]], lat: Dict[Arr[L, C, D]],
                      L: Dim, C: Dim, D: Dim, N: Dim):
    assume(n <= D)
    return CircPrmMdl(eqn, 'c').calc_circ_vals(n, conds, prms, lat)


def circuit_arguments__expect(eqn: Fn, n: Dim, conds: Dict[Arr[L, C, N]], prms: Dict[Arr[L, C, D]], lat: Dict[Arr[L, C, D]],
                              L: Dim, C: Dim, D: Dim, N: Dim):
    assume(n <= D)
    args = {}
    for a in inspect.signature(eqn).parameters.keys():
        if a in lat:
            args[a] = lat[a][:, :, :n]
        elif a in conds:
            args[a] = conds[a]
        elif a in prms:
            args[a] = prms[a][:, :, :n]
    return eqn(**args)


@case(prop='C28')
def default_equations(u: float, x: float):
    return (DegMechMdl(None, 'm', u).compute(), CondShiftMdl(None, 'c', u).compute(), InitValMdl().compute(init_val=x),
            FailMechMdl(None, 'f', u).compute())


def default_equations__expect(u: float, x: float):
    return u, u, x, u
