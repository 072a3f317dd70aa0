"""Internal helpers a simulation leans on: per-sample evaluation, optional imports, logger set-up."""
import importlib
import logging

import numpy as np

from gerabaldi.helpers import _loop_compute, _on_demand_import, configure_logger
from sa.lang import assume, calls, case, mutated, ncalls, owned


# ---------------------------------------------------------------- per-sample evaluation
@case(prop='C27')
def each_sample_from_its_own_values(eqn: Fn, a: Arr[L, C, D], b: Arr[L, C, D], x: float, n: int, L: Dim, C: Dim, D: Dim):
    return _loop_compute(eqn, {'a': a, 'b': b, 'x': x, 'n': n}, (L, C, D))


def each_sample_from_its_own_values__expect(eqn: Fn, a: Arr[L, C, D], b: Arr[L, C, D], x: float, n: int, L: Dim, C: Dim,
                                            D: Dim):
    out = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                out[i, j, k] = eqn(a=a[i, j, k], b=b[i, j, k], x=x, n=n)
    return out


@case(prop='C27')
def nested_values_are_indexed_too(eqn: Fn, a: Arr[L, C, D], b: Arr[L, C, D], x: float, L: Dim, C: Dim, D: Dim):
    return _loop_compute(eqn, {'time': a, 'conds': {'p': b, 'q': {'r': a, 's': x}}}, (L, C, D))


def nested_values_are_indexed_too__expect(eqn: Fn, a: Arr[L, C, D], b: Arr[L, C, D], x: float, L: Dim, C: Dim, D: Dim):
    out = np.empty((L, C, D))
    for i in range(L):
        for j in range(C):
            for k in range(D):
                out[i, j, k] = eqn(time=a[i, j, k], conds={'p': b[i, j, k], 'q': {'r': a[i, j, k], 's': x}})
    return out


@case(prop='C27')
def per_sample_leaves_arguments(eqn: Fn, a: Arr[L, C, D], b: Arr[L, C, D], L: Dim, C: Dim, D: Dim):
    inner = {'p': b}
    args = {'a': a, 'inner': inner}
    _loop_compute(eqn, args, (L, C, D))
    return args, inner


def per_sample_leaves_arguments__expect(eqn: Fn, a: Arr[L, C, D], b: Arr[L, C, D], L: Dim, C: Dim, D: Dim):
    return {'a': a, 'inner': {'p': b}}, {'p': b}


@case(prop='C27')
def two_samples_leave_arguments(eqn: Fn, a: Arr[2, 1, 1, float], b: Arr[2, 1, 1, float], x: float, on: bool, mode: str):
    inner = {'p': b, 'x': x, 'on': on}
    args = {'a': a, 'inner': inner, 'mode': mode}
    v = _loop_compute(eqn, args, (2, 1, 1))
    return args, inner, v[1, 0, 0]


def two_samples_leave_arguments__expect(eqn: Fn, a: Arr[2, 1, 1, float], b: Arr[2, 1, 1, float], x: float, on: bool, mode: str):
    v = eqn(a=a[1, 0, 0], inner={'p': b[1, 0, 0], 'x': x, 'on': on}, mode=mode)
    return {'a': a, 'inner': {'p': b, 'x': x, 'on': on}, 'mode': mode}, {'p': b, 'x': x, 'on': on}, v


# ---------------------------------------------------------------- optional imports
@case(prop='C24')
def missing_module_fails_when_used(name: str, pypi: str):
    return _on_demand_import(name, pypi).Normal


def missing_module_fails_when_used__expect(name: str, pypi: str):
    try:
        m = importlib.import_module(name)
    except (ImportError, SystemError):
        raise ImportError('missing')
    return m.Normal


@case(prop='C24')
def missing_module_harmless_until_used(name: str, pypi: str):
    _on_demand_import(name, pypi)
    return 'fine'


def missing_module_harmless_until_used__expect(name: str, pypi: str):
    return 'fine'


@case(prop='C24', allow='ImportError')
def present_module_is_returned(name: str):
    m = _on_demand_import(name)
    m.x
    return m


def present_module_is_returned__expect(name: str):
    return importlib.import_module(name)


# ---------------------------------------------------------------- logger set-up
@case(prop='C26')
def logger_untouched_without_arguments():
    configure_logger()
    return calls('setLevel', 'addHandler', 'removeHandler')


def logger_untouched_without_arguments__expect():
    return []


@case(prop='C26')
def logger_level(level: int):
    assume(level > 0)
    configure_logger(level)
    return calls('setLevel', 'addHandler', 'removeHandler')


def logger_level__expect(level: int):
    assume(level > 0)
    logging.getLogger('gerabaldi').setLevel(level)
    return calls('setLevel', 'addHandler', 'removeHandler')


def with_handlers(*hs):
    log = logging.getLogger('gerabaldi')
    log.handlers = list(hs)
    return log


def held(*hs):
    """How often each handler is attached, and how many handlers there are: their order is the package's own business."""
    now = logging.getLogger('gerabaldi').handlers
    return [sum([1 if x is h else 0 for x in now]) for h in hs], len(now)


def apart(*hs):
    for i in range(len(hs)):
        for j in range(i):
            assume(hs[i] is not hs[j])
            assume(hs[i] != hs[j])


@case(prop='C26')
def stream_handler_replaces_stream_handler(f0: Any, s0: Any, s: Any, o: Any, first: bool):
    assume(s, f0, s0, o, isinstance(f0, logging.FileHandler), isinstance(f0, logging.StreamHandler))
    assume(isinstance(s0, logging.StreamHandler), not isinstance(s0, logging.FileHandler))
    assume(not isinstance(o, logging.StreamHandler), not isinstance(o, logging.FileHandler))
    apart(s, f0, s0, o)
    if first:
        with_handlers(f0, s0, o)
    else:
        with_handlers(o, s0, f0)
    configure_logger(stream_handler=s)
    return held(f0, s0, s, o), calls('setLevel')


def stream_handler_replaces_stream_handler__expect(f0: Any, s0: Any, s: Any, o: Any, first: bool):
    return ([1, 0, 1, 1], 3), []


@case(prop='C26')
def file_handler_replaces_file_handler(f0: Any, s0: Any, f: Any, o: Any, first: bool):
    assume(f, f0, s0, o, isinstance(f0, logging.FileHandler), isinstance(f0, logging.StreamHandler))
    assume(isinstance(s0, logging.StreamHandler), not isinstance(s0, logging.FileHandler))
    assume(not isinstance(o, logging.StreamHandler), not isinstance(o, logging.FileHandler))
    apart(f, f0, s0, o)
    if first:
        with_handlers(f0, s0, o)
    else:
        with_handlers(o, s0, f0)
    configure_logger(file_handler=f)
    return held(f0, s0, f, o), calls('setLevel')


def file_handler_replaces_file_handler__expect(f0: Any, s0: Any, f: Any, o: Any, first: bool):
    return ([0, 1, 1, 1], 3), []


@case(prop='C26')
def first_stream_handler(o: Any, h: Any):
    assume(o, h, isinstance(o, logging.StreamHandler), isinstance(o, logging.FileHandler))
    apart(o, h)
    with_handlers(o)
    configure_logger(stream_handler=h)
    return held(o, h), calls('setLevel')


def first_stream_handler__expect(o: Any, h: Any):
    return ([1, 1], 2), []


@case(prop='C26')
def first_file_handler(o: Any, h: Any):
    assume(o, h, isinstance(o, logging.StreamHandler), not isinstance(o, logging.FileHandler))
    apart(o, h)
    with_handlers(o)
    configure_logger(file_handler=h)
    return held(o, h), calls('setLevel')


def first_file_handler__expect(o: Any, h: Any):
    return ([1, 1], 2), []


@case(prop='C26')
def handlers_kept_without_arguments(s0: Any, f0: Any, level: int):
    assume(s0, f0, isinstance(f0, logging.FileHandler), isinstance(f0, logging.StreamHandler))
    assume(isinstance(s0, logging.StreamHandler), not isinstance(s0, logging.FileHandler))
    apart(s0, f0)
    with_handlers(s0, f0)
    configure_logger(level)
    return held(s0, f0)


def handlers_kept_without_arguments__expect(s0: Any, f0: Any, level: int):
    return [1, 1], 2


@case(prop='C26')
def handlers_replaced_twice(s0: Any, a: Any, b: Any, f: Any, g: Any):
    assume(s0, a, b, f, g, isinstance(s0, logging.StreamHandler), not isinstance(s0, logging.FileHandler))
    assume(isinstance(a, logging.StreamHandler), not isinstance(a, logging.FileHandler))
    assume(isinstance(f, logging.FileHandler), isinstance(f, logging.StreamHandler))
    apart(s0, a, b, f, g)
    with_handlers(s0)
    configure_logger(file_handler=f)
    configure_logger(stream_handler=a)
    configure_logger(stream_handler=b, file_handler=g)
    return held(s0, a, b, f, g)


def handlers_replaced_twice__expect(s0: Any, a: Any, b: Any, f: Any, g: Any):
    return [0, 0, 1, 0, 1], 2


@case(prop='C26')
def same_handlers_given_again(s0: Any, f0: Any):
    assume(s0, f0, isinstance(f0, logging.FileHandler), isinstance(f0, logging.StreamHandler))
    assume(isinstance(s0, logging.StreamHandler), not isinstance(s0, logging.FileHandler))
    apart(s0, f0)
    with_handlers(s0, f0)
    configure_logger(None, f0, s0)
    return held(s0, f0)


def same_handlers_given_again__expect(s0: Any, f0: Any):
    return [1, 1], 2
