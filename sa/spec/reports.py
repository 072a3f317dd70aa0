"""Reports: row labels, accumulation, time units, export and import."""
import json
from datetime import timedelta

import numpy as np
import pandas as pd

from gerabaldi.exceptions import UserConfigError
from gerabaldi.models import SimReport, TestSpec
from sa.lang import assume, calls, case, mutated, ncalls, owned
from spec.units import seconds_per


def canonical(u):
    if u == 'days' or u == 'd':
        return 'days'
    if u == 'hours' or u == 'h':
        return 'hours'
    if u == 'seconds' or u == 's':
        return 'seconds'
    if u == 'milliseconds' or u == 'ms':
        return 'milliseconds'
    if u == 'microseconds' or u == 'us':
        return 'microseconds'
    raise UserConfigError('unknown unit')


# ---------------------------------------------------------------- row labels
@case(prop='C14')
def rows_of_parameter(x: Arr[L, C, D], name: str, t: timedelta, step: int, L: Dim, C: Dim, D: Dim):
    return SimReport.format_measurements(x, name, t, step)


def rows_of_parameter__expect(x: Arr[L, C, D], name: str, t: timedelta, step: int, L: Dim, C: Dim, D: Dim):
    n = L * C * D
    dev, chp, lot, val = np.empty(n), np.empty(n), np.empty(n), np.empty(n)
    for r in range(n):
        dev[r] = r % D
        chp[r] = (r // D) % C
        lot[r] = r // (D * C)
        val[r] = x[r // (D * C), (r // D) % C, r % D]
    return pd.DataFrame({'param': name, 'step #': step, 'device #': dev, 'chip #': chp, 'lot #': lot, 'time': t, 'measured': val})


@case(prop='C14')
def rows_of_single_lot(x: Arr[C, D], name: str, t: timedelta, step: int, C: Dim, D: Dim):
    return SimReport.format_measurements(x, name, t, step)


def rows_of_single_lot__expect(x: Arr[C, D], name: str, t: timedelta, step: int, C: Dim, D: Dim):
    n = C * D
    dev, chp, lot, val = np.empty(n), np.empty(n), np.empty(n), np.empty(n)
    for r in range(n):
        dev[r] = r % D
        chp[r] = r // D
        lot[r] = 0
        val[r] = x[r // D, r % D]
    return pd.DataFrame({'param': name, 'step #': step, 'device #': dev, 'chip #': chp, 'lot #': lot, 'time': t, 'measured': val})


@case(prop='C14')
def rows_of_single_chip(x: Arr[D], name: str, t: timedelta, step: int, D: Dim):
    return SimReport.format_measurements(x, name, t, step), SimReport.format_measurements(pd.Series(x), name, t, step)


def rows_of_single_chip__expect(x: Arr[D], name: str, t: timedelta, step: int, D: Dim):
    dev, chp, lot = np.empty(D), np.empty(D), np.empty(D)
    for r in range(D):
        dev[r] = r
        chp[r] = 0
        lot[r] = 0
    f = pd.DataFrame({'param': name, 'step #': step, 'device #': dev, 'chip #': chp, 'lot #': lot, 'time': t, 'measured': x})
    return f, f


@case(prop='C14 C31')
def rows_of_sensor(x: Arr[N], name: str, t: timedelta, step: int, N: Dim):
    return SimReport.format_measurements(x, name, t, step, 'condition')


def rows_of_sensor__expect(x: Arr[N], name: str, t: timedelta, step: int, N: Dim):
    return pd.DataFrame({'param': name, 'step #': step, 'device #': None, 'chip #': None, 'lot #': None, 'time': t,
                         'measured': x})


@case(prop='C14')
def rows_accumulate(spec: Is[TestSpec], a: Arr[N], b: Arr[N], c: Arr[N], N: Dim):
    r = SimReport(spec)
    one = pd.DataFrame({'measured': a})
    r.add_measurements(one)
    r.add_measurements(pd.DataFrame({'measured': b}))
    r.add_summary_report(pd.DataFrame({'step name': c}))
    r.add_summary_report(pd.DataFrame({'step name': a}))
    return r.measurements, r.test_summary, one


def rows_accumulate__expect(spec: Is[TestSpec], a: Arr[N], b: Arr[N], c: Arr[N], N: Dim):
    spec.calc_samples_needed()
    return (pd.concat([pd.DataFrame({'measured': a}), pd.DataFrame({'measured': b})], ignore_index=True),
            pd.concat([pd.DataFrame({'step name': c}), pd.DataFrame({'step name': a})], ignore_index=True),
            pd.DataFrame({'measured': a}))


# ---------------------------------------------------------------- conversion of report times
def times_in(t, per, N):
    out = np.empty(N)
    for i in range(N):
        out[i] = t[i].total_seconds() / per
    return out


@case(prop='C15')
def converted_times(t: Ser[N, Timedelta], m: Arr[N], u: str, N: Dim):
    r = SimReport()
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.convert_report_time(u)
    return r.measurements, r.time_unit


def converted_times__expect(t: Ser[N, Timedelta], m: Arr[N], u: str, N: Dim):
    return pd.DataFrame({'time': times_in(t.to_numpy(), seconds_per(u), N), 'measured': m}), u


@case(prop='C15')
def converted_times_default(t: Ser[N, Timedelta], m: Arr[N], N: Dim):
    r = SimReport()
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.convert_report_time()
    return r.measurements, r.time_unit


def converted_times_default__expect(t: Ser[N, Timedelta], m: Arr[N], N: Dim):
    return pd.DataFrame({'time': times_in(t.to_numpy(), 3600, N), 'measured': m}), 'hours'


@case(prop='C15')
def converted_twice(t: Ser[N, Timedelta], m: Arr[N], u: str, w: str, N: Dim):
    r = SimReport()
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.convert_report_time(u)
    r.convert_report_time(w)
    return r.measurements, r.time_unit


def converted_twice__expect(t: Ser[N, Timedelta], m: Arr[N], u: str, w: str, N: Dim):
    seconds_per(u)
    return pd.DataFrame({'time': times_in(t.to_numpy(), seconds_per(w), N), 'measured': m}), w


# ---------------------------------------------------------------- export
@case(prop='C17 C15')
def exported_report(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta], n: str, ds: str,
                    u: str, N: Dim, K: Dim):
    r = SimReport(None, n, ds)
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    return r.export_to_json(None, u), r


def exported_report__expect(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta], n: str,
                            ds: str, u: str, N: Dim, K: Dim):
    per = seconds_per(u)
    r = SimReport(None, n, ds)
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    meas = pd.DataFrame({'time': times_in(t.to_numpy(), per, N), 'measured': m})
    summ = pd.DataFrame({'duration': times_in(d.to_numpy(), per, K), 'start time': times_in(s.to_numpy(), per, K),
                         'end time': times_in(e.to_numpy(), per, K)})
    return {'Test Name': n, 'Description': ds, 'Time Units': canonical(u), 'Measurements': meas.to_json(double_precision=15),
            'Test Summary': summ.to_json(double_precision=15)}, r


@case(prop='C17 C15')
def exported_after_conversion(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta],
                              u: str, w: str, N: Dim, K: Dim):
    r = SimReport(None, 'n', 'd')
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    r.convert_report_time(u)
    return r.export_to_json(None, w)


def exported_after_conversion__expect(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta],
                                      e: Ser[K, Timedelta], u: str, w: str, N: Dim, K: Dim):
    seconds_per(u)
    r = SimReport(None, 'n', 'd')
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    return r.export_to_json(None, w)


@case(prop='C17 C15')
def export_default_units(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta],
                         u: str, N: Dim, K: Dim):
    r = SimReport(None, 'n', 'd')
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    first = r.export_to_json()
    r.convert_report_time(u)
    return first, r.export_to_json()


def export_default_units__expect(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta],
                                 u: str, N: Dim, K: Dim):
    r = SimReport(None, 'n', 'd')
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    second = r.export_to_json(None, u)
    second['Time Units'] = u
    return r.export_to_json(None, 'h'), second


@case(prop='C17 C21')
def export_rejects_unknown_unit(rep: SimReport, u: str, f: str):
    assume(u != 'days', u != 'd', u != 'hours', u != 'h', u != 'seconds', u != 's', u != 'milliseconds', u != 'ms',
           u != 'microseconds', u != 'us')
    try:
        rep.export_to_json(f, u)
    except UserConfigError:
        return mutated(rep), calls()
    return 'accepted'


def export_rejects_unknown_unit__expect(rep: SimReport, u: str, f: str):
    assume(u != 'days', u != 'd', u != 'hours', u != 'h', u != 'seconds', u != 's', u != 'milliseconds', u != 'ms',
           u != 'microseconds', u != 'us')
    return [], []


@case(prop='C17')
def export_then_import(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta],
                       c: Arr[K], n: str, ds: str, u: str, f: str, N: Dim, K: Dim):
    assume(f != '')
    r = SimReport(None, n, ds)
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e, 'temp': c})
    r.export_to_json(f, u)
    back = SimReport(file=f)
    return back.test_name, back.test_description, back.measurements, back.test_summary, back.time_unit


def export_then_import__expect(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta],
                               c: Arr[K], n: str, ds: str, u: str, f: str, N: Dim, K: Dim):
    assume(f != '')
    return (n, ds, pd.DataFrame({'time': t, 'measured': m}),
            pd.DataFrame({'duration': d, 'start time': s, 'end time': e, 'temp': c}), canonical(u))


@case(prop='C17 C15')
def report_without_measurements(d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta], n: str, ds: str, u: str, f: str,
                                K: Dim):
    assume(f != '')
    r = SimReport(None, n, ds)
    r.measurements = pd.DataFrame()
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    r.export_to_json(f, u)
    r.convert_report_time(u)
    back = SimReport(file=f)
    return back.test_name, back.test_description, back.measurements, back.test_summary, back.time_unit, r.time_unit


def report_without_measurements__expect(d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta], n: str, ds: str, u: str,
                                        f: str, K: Dim):
    assume(f != '')
    return n, ds, pd.DataFrame(), pd.DataFrame({'duration': d, 'start time': s, 'end time': e}), canonical(u), u


@case(prop='C17')
def file_holds_returned_report(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta], e: Ser[K, Timedelta],
                               u: str, f: str, N: Dim, K: Dim):
    assume(f != '')
    r = SimReport(None, 'n', 'd')
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    out = r.export_to_json(f, u)
    with open(f) as fh:
        return out, json.load(fh)


def file_holds_returned_report__expect(t: Ser[N, Timedelta], m: Arr[N], d: Ser[K, Timedelta], s: Ser[K, Timedelta],
                                       e: Ser[K, Timedelta], u: str, f: str, N: Dim, K: Dim):
    assume(f != '')
    r = SimReport(None, 'n', 'd')
    r.measurements = pd.DataFrame({'time': t, 'measured': m})
    r.test_summary = pd.DataFrame({'duration': d, 'start time': s, 'end time': e})
    out = r.export_to_json(None, u)
    return out, out


@case(prop='C17')
def missing_file_reported(f: str):
    assume(f != '')
    return SimReport(file=f).test_name


def missing_file_reported__expect(f: str):
    assume(f != '')
    try:
        with open(f) as fh:
            d = json.load(fh)
    except FileNotFoundError:
        raise FileNotFoundError('missing')
    u = d['Time Units'].lower()
    seconds_per(u)
    return d['Test Name']
