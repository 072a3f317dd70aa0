"""Which time unit a mechanism equation is evaluated in."""
from gerabaldi.models import CircPrmMdl, DegMechMdl, DegPrmMdl, DeviceMdl, FailMechMdl
from sa.lang import assume, case


@case(prop='C16')
def mechanism_unit_wins(eqn: Fn, m: str, p: str, d: str, fail: bool):
    assume(m != '', p != '', d != '')
    mech = FailMechMdl(eqn, 'a', 0, m) if fail else DegMechMdl(eqn, 'a', 0, m)
    DeviceMdl(DegPrmMdl(mech, prm_name='p', time_unit=p), 'dev', d)
    return mech.time_unit


def mechanism_unit_wins__expect(eqn: Fn, m: str, p: str, d: str, fail: bool):
    assume(m != '', p != '', d != '')
    return m


@case(prop='C16')
def parameter_unit_next(eqn: Fn, p: str, d: str, fail: bool):
    assume(p != '', d != '')
    mech = FailMechMdl(eqn, 'a') if fail else DegMechMdl(eqn, 'a')
    DeviceMdl(DegPrmMdl(mech, prm_name='p', time_unit=p), 'dev', d)
    return mech.time_unit


def parameter_unit_next__expect(eqn: Fn, p: str, d: str, fail: bool):
    assume(p != '', d != '')
    return p


@case(prop='C16')
def device_unit_next(eqn: Fn, d: str, fail: bool):
    assume(d != '')
    mech = FailMechMdl(eqn, 'a') if fail else DegMechMdl(eqn, 'a')
    DeviceMdl(DegPrmMdl(mech, prm_name='p'), 'dev', d)
    return mech.time_unit


def device_unit_next__expect(eqn: Fn, d: str, fail: bool):
    assume(d != '')
    return d


def hours_or(u):
    return u == 'h' or u == 'hours'


@case(prop='C16')
def hours_by_default(eqn: Fn, fail: bool):
    mech = FailMechMdl(eqn, 'a') if fail else DegMechMdl(eqn, 'a')
    DeviceMdl(DegPrmMdl(mech, prm_name='p'), 'dev')
    return hours_or(mech.time_unit)


def hours_by_default__expect(eqn: Fn, fail: bool):
    return True


@case(prop='C16')
def every_mechanism_gets_a_unit(e1: Fn, e2: Fn, e3: Fn, own: str, p: str, d: str):
    assume(own != '', p != '', d != '')
    a, b, c = DegMechMdl(e1), FailMechMdl(e2), DegMechMdl(e3, time_unit=own)
    DeviceMdl({'x': DegPrmMdl({'a': a, 'b': b, 'c': c}, time_unit=p)}, 'dev', d)
    return a.time_unit, b.time_unit, c.time_unit


def every_mechanism_gets_a_unit__expect(e1: Fn, e2: Fn, e3: Fn, own: str, p: str, d: str):
    assume(own != '', p != '', d != '')
    return p, p, own


@case(prop='C16')
def parameters_do_not_share_units(e1: Fn, e2: Fn, e3: Fn, p: str, d: str):
    assume(p != '', d != '')
    a, b, c = DegMechMdl(e1), DegMechMdl(e2), DegMechMdl(e3)
    DeviceMdl({'x': DegPrmMdl({'a': a}, time_unit=p), 'y': DegPrmMdl({'a': b}), 'z': DegPrmMdl({'a': c}, time_unit=d)}, 'dev', d)
    return a.time_unit, b.time_unit, c.time_unit


def parameters_do_not_share_units__expect(e1: Fn, e2: Fn, e3: Fn, p: str, d: str):
    assume(p != '', d != '')
    return p, d, d


@case(prop='C16')
def unit_settles_once(eqn: Fn, p: str, q: str):
    assume(p != '', q != '')
    mech = DegMechMdl(eqn, 'a')
    mech.set_time_unit(p)
    mech.set_time_unit(q)
    other = DegMechMdl(eqn, 'a')
    other.set_time_unit()
    other.set_time_unit(q)
    return mech.time_unit, hours_or(other.time_unit)


def unit_settles_once__expect(eqn: Fn, p: str, q: str):
    assume(p != '', q != '')
    return p, True
