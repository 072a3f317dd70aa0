"""Test descriptions: step lists, sample counts, loop appending, standard tests."""
from datetime import timedelta

from gerabaldi.cookbook import htol
from gerabaldi.exceptions import UserConfigError
from gerabaldi.models import MeasSpec, StrsSpec, TestSpec
from sa.lang import assume, calls, case, mutated, ncalls, owned
from spec.units import seconds_per


# ---------------------------------------------------------------- plain construction
@case(prop='C02')
def steps_kept_in_order(steps: List[StrsSpec | MeasSpec], m: MeasSpec, more: List[StrsSpec | MeasSpec]):
    t = TestSpec(steps)
    t.append_steps(m)
    t.append_steps(more)
    return t.steps, [s for s in t]


def steps_kept_in_order__expect(steps: List[StrsSpec | MeasSpec], m: MeasSpec, more: List[StrsSpec | MeasSpec]):
    return steps + [m] + more, steps + [m] + more


@case(prop='C02')
def test_owns_its_step_list(steps: List[StrsSpec | MeasSpec], s: StrsSpec):
    t = TestSpec(steps)
    t.append_steps(s)
    return mutated(steps, s), t.steps is steps


def test_owns_its_step_list__expect(steps: List[StrsSpec | MeasSpec], s: StrsSpec):
    return [], False


@case(prop='C02')
def appending_leaves_the_appended(s: StrsSpec, more: List[StrsSpec | MeasSpec]):
    t = TestSpec()
    t.append_steps(more)
    t.append_steps(s)
    return mutated(s, more), t.steps is more


def appending_leaves_the_appended__expect(s: StrsSpec, more: List[StrsSpec | MeasSpec]):
    return [], False


@case(prop='C02')
def tests_do_not_share_steps(s: StrsSpec):
    a, b = TestSpec(), TestSpec()
    a.append_steps(s)
    return a.steps, b.steps, TestSpec().steps


def tests_do_not_share_steps__expect(s: StrsSpec):
    return [s], [], []


@case(prop='C02')
def test_fields(steps: List[StrsSpec | MeasSpec], c: int, l: int, n: str, d: str, counts: Dict[int], conds: Dict[float]):
    t = TestSpec(steps, c, l, n, d)
    m = MeasSpec(counts, conds, n)
    return (t.num_chps, t.num_lots, t.name, t.description, m.measurements, m.conditions, m.name,
            StrsSpec(conds, timedelta(hours=1), n).conditions, StrsSpec(conds, timedelta(hours=1), n).name)


def test_fields__expect(steps: List[StrsSpec | MeasSpec], c: int, l: int, n: str, d: str, counts: Dict[int], conds: Dict[float]):
    return c, l, n, d, counts, conds, n, conds, n


# ---------------------------------------------------------------- sample counts
@case(prop='C18')
def samples_needed_is_largest(a: Is[MeasSpec], b: Is[MeasSpec], s: Is[StrsSpec], p: str):
    assume(type(a.measurements[p]) is int, type(b.measurements[p]) is int)
    n = TestSpec([a, s, b]).calc_samples_needed()
    return n[p] if p in n else None


def samples_needed_is_largest__expect(a: Is[MeasSpec], b: Is[MeasSpec], s: Is[StrsSpec], p: str):
    assume(type(a.measurements[p]) is int, type(b.measurements[p]) is int)
    if p in a.measurements:
        if p in b.measurements:
            return max(a.measurements[p], b.measurements[p])
        return a.measurements[p]
    return b.measurements[p] if p in b.measurements else None


@case(prop='C18')
def samples_needed_any_test(steps: List[StrsSpec | MeasSpec]):
    return TestSpec(steps).calc_samples_needed(), mutated(steps)


def samples_needed_any_test__expect(steps: List[StrsSpec | MeasSpec]):
    need = {}
    for s in steps:
        if type(s) is MeasSpec:
            for p in s.measurements:
                if p in need:
                    need[p] = max(s.measurements[p], need[p])
                else:
                    need[p] = s.measurements[p]
    return need, []


# ---------------------------------------------------------------- validation
@case(prop='C21 C15')
def stress_duration_rejected(u: str, conds: Dict[float]):
    return StrsSpec(conds, 0, 's', u).duration, StrsSpec(conds, timedelta()).duration


def stress_duration_rejected__expect(u: str, conds: Dict[float]):
    raise UserConfigError('zero')


@case(prop='C21 C22')
def zero_loop_rejected(steps: List[StrsSpec | MeasSpec], s: Is[StrsSpec]):
    t = TestSpec(steps)
    try:
        t.append_steps(s, timedelta())
    except UserConfigError:
        return t.steps
    return 'accepted'


def zero_loop_rejected__expect(steps: List[StrsSpec | MeasSpec], s: Is[StrsSpec]):
    return steps


@case(prop='C21 C22')
def measure_only_loop_rejected(steps: List[StrsSpec | MeasSpec], m: Is[MeasSpec], k: Is[MeasSpec], d: timedelta, listed: bool):
    assume(d > timedelta())
    t = TestSpec(steps)
    try:
        if listed:
            t.append_steps([m, k], d)
        else:
            t.append_steps(m, d)
    except UserConfigError:
        return t.steps
    return 'accepted'


def measure_only_loop_rejected__expect(steps: List[StrsSpec | MeasSpec], m: Is[MeasSpec], k: Is[MeasSpec], d: timedelta,
                                       listed: bool):
    assume(d > timedelta())
    return steps


@case(prop='C21 C22')
def unknown_loop_unit_rejected(steps: List[StrsSpec | MeasSpec], s: Is[StrsSpec], x: float, u: str):
    assume(u != 'days', u != 'd', u != 'hours', u != 'h', u != 'seconds', u != 's', u != 'milliseconds', u != 'ms',
           u != 'microseconds', u != 'us')
    t = TestSpec(steps)
    try:
        t.append_steps(s, x, u)
    except UserConfigError:
        return t.steps
    return 'accepted'


def unknown_loop_unit_rejected__expect(steps: List[StrsSpec | MeasSpec], s: Is[StrsSpec], x: float, u: str):
    assume(u != 'days', u != 'd', u != 'hours', u != 'h', u != 'seconds', u != 's', u != 'milliseconds', u != 'ms',
           u != 'microseconds', u != 'us')
    return steps


# ---------------------------------------------------------------- loop appending
@case(prop='C22', allow='UserWarning')
def loop_single_step(s: Is[StrsSpec], d: timedelta):
    assume(d > timedelta(), type(s.duration) is timedelta)
    t = TestSpec()
    t.append_steps(s, d)
    return t.steps


def loop_single_step__expect(s: Is[StrsSpec], d: timedelta):
    assume(d > timedelta(), type(s.duration) is timedelta)
    out = []
    done = timedelta()
    while done < d:
        out.append(s)
        done = done + s.duration
    return out


@case(prop='C22', allow='UserWarning')
def loop_step_group(before: List[StrsSpec | MeasSpec], s: Is[StrsSpec], m: Is[MeasSpec], q: Is[StrsSpec], d: timedelta):
    assume(d > timedelta(), type(s.duration) is timedelta, type(q.duration) is timedelta)
    t = TestSpec(before)
    t.append_steps([s, m, q], d)
    return t.steps


def loop_step_group__expect(before: List[StrsSpec | MeasSpec], s: Is[StrsSpec], m: Is[MeasSpec], q: Is[StrsSpec], d: timedelta):
    assume(d > timedelta(), type(s.duration) is timedelta, type(q.duration) is timedelta)
    out = list(before)
    done = timedelta()
    while done < d:
        out.extend([s, m, q])
        done = done + s.duration + q.duration
    return out


@case(prop='C22')
def loop_duration_units(s: Is[StrsSpec], x: float, u: str):
    assume(x > 0, type(s.duration) is timedelta)
    t = TestSpec()
    t.append_steps(s, x, u)
    return t.steps


def loop_duration_units__expect(s: Is[StrsSpec], x: float, u: str):
    assume(x > 0, type(s.duration) is timedelta)
    t = TestSpec()
    t.append_steps(s, timedelta(seconds=x * seconds_per(u)))
    return t.steps


@case(prop='C22')
def loop_uneven_warns(s: Is[StrsSpec], d: timedelta):
    assume(d > timedelta(), type(s.duration) is timedelta)
    t = TestSpec()
    t.append_steps(s, d)


def loop_uneven_warns__expect(s: Is[StrsSpec], d: timedelta):
    assume(d > timedelta(), type(s.duration) is timedelta)
    done = timedelta()
    while done < d:
        done = done + s.duration
    if not (done / d).is_integer():
        raise UserWarning('uneven')


# ---------------------------------------------------------------- the standard life test
@case(prop='C23', allow='UserConfigError')
def htol_single_interval(counts: Dict[int], v: float, k: float, every: int, hours: int, chips: int, lots: int, temp: int):
    assume(every >= hours, hours > 0)
    t = htol(counts, v, k, every, hours, chips, lots, temp)
    return ([(s.name, s.conditions) for s in t.steps], [type(s) is MeasSpec for s in t.steps], t.steps[0].measurements,
            t.steps[1].duration, t.steps[2].measurements, t.num_chps, t.num_lots)


def htol_single_interval__expect(counts: Dict[int], v: float, k: float, every: int, hours: int, chips: int, lots: int, temp: int):
    assume(every >= hours, hours > 0)
    room = {'temp': 298.15, 'vdd': v}
    hot = {'temp': temp + 273.15, 'vdd': v * k}
    return ([('Room Temp Measurement', room), ('HTOL Stress', hot), ('Room Temp Measurement', room)], [True, False, True], counts,
            timedelta(hours=hours), counts, chips, lots)


@case(prop='C23', allow='UserConfigError', cut=['append_steps'])
def htol_repeated_interval(counts: Dict[int], v: float, k: float, every: int, hours: int, chips: int, lots: int, temp: int):
    assume(every < hours, every > 0, hours % every == 0)
    htol(counts, v, k, every, hours, chips, lots, temp)
    return calls('append_steps')


def htol_repeated_interval__expect(counts: Dict[int], v: float, k: float, every: int, hours: int, chips: int, lots: int, temp: int):
    assume(every < hours, every > 0, hours % every == 0)
    room = MeasSpec(counts, {'temp': 298.15, 'vdd': v}, 'Room Temp Measurement')
    hot = MeasSpec(counts, {'temp': temp + 273.15, 'vdd': v * k}, 'Stress Temp Measurement')
    stress = StrsSpec({'temp': temp + 273.15, 'vdd': v * k}, timedelta(hours=every), 'HTOL Stress')
    t = TestSpec([room], chips, lots, 'Standard HTOL', 'A typical HTOL test with configurable measurements during stress.')
    t.append_steps(hot)
    t.append_steps([stress, hot], hours)
    t.append_steps(room)
    return calls('append_steps')


@case(prop='C23 C21')
def htol_uneven_interval_rejected(counts: Dict[int], v: float, k: float, every: int, hours: int, chips: int, lots: int, temp: int):
    assume(every < hours, every > 0, hours % every != 0)
    try:
        htol(counts, v, k, every, hours, chips, lots, temp)
    except UserConfigError:
        return 'rejected'
    return 'accepted'


def htol_uneven_interval_rejected__expect(counts: Dict[int], v: float, k: float, every: int, hours: int, chips: int, lots: int,
                                          temp: int):
    assume(every < hours, every > 0, hours % every != 0)
    return 'rejected'


# ---------------------------------------------------------------- loops of known length
@case(prop='C22')
def loop_of_known_length(c: Dict[float], n: Dict[int]):
    a, b, m = StrsSpec(c, 2, 'a', 'h'), StrsSpec(c, 30, 'b', 's'), MeasSpec(n, c)
    t = TestSpec([m])
    t.append_steps([a, m], 0.25, 'd')
    t.append_steps(b, timedelta(minutes=1))
    t.append_steps(m)
    return [s is a for s in t.steps], [s is b for s in t.steps], [s is m for s in t.steps]


def loop_of_known_length__expect(c: Dict[float], n: Dict[int]):
    return ([False, True, False, True, False, True, False, False, False, False],
            [False, False, False, False, False, False, False, True, True, False],
            [True, False, True, False, True, False, True, False, False, True])


@case(prop='C22')
def loop_overrun_warns(c: Dict[float]):
    t = TestSpec()
    t.append_steps(StrsSpec(c, 2, 'a', 'h'), 5, 'h')


def loop_overrun_warns__expect(c: Dict[float]):
    raise UserWarning('uneven')
