"""Time units: one table of names and factors, durations converted both ways, unknown names rejected."""
from datetime import timedelta

from gerabaldi.exceptions import UserConfigError
from gerabaldi.models import MeasSpec, SimReport, StrsSpec, TestSpec
from sa.lang import assume, case



def seconds_per(u):
    if u == 'days' or u == 'd':
        return 86400
    if u == 'hours' or u == 'h' or u is None:
        return 3600
    if u == 'seconds' or u == 's':
        return 1
    if u == 'milliseconds' or u == 'ms':
        return 0.001
    if u == 'microseconds' or u == 'us':
        return 0.000001
    raise UserConfigError('unknown unit')


@case(prop='C15')
def stress_duration_from_number(x: float, u: str):
    return StrsSpec({}, x, 'n', u).duration


def stress_duration_from_number__expect(x: float, u: str):
    t = timedelta(seconds=x * seconds_per(u))
    if t == timedelta():
        raise UserConfigError('zero')
    return t


@case(prop='C15')
def stress_duration_default_hours(x: float):
    return StrsSpec({}, x).duration


def stress_duration_default_hours__expect(x: float):
    t = timedelta(hours=x)
    if t == timedelta():
        raise UserConfigError('zero')
    return t


@case(prop='C15')
def stress_duration_from_timedelta(x: timedelta, u: str):
    return StrsSpec({}, x, 'n', u).duration


def stress_duration_from_timedelta__expect(x: timedelta, u: str):
    if x == timedelta():
        raise UserConfigError('zero')
    return x
