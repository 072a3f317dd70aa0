"""The bounded search used to find equivalent stress times: Brent's method, run for every sample at once."""
import numpy as np

from gerabaldi.math import minimize
from sa.lang import assume, calls, case, mutated, ncalls, owned


def search(f, lo, hi, like, precision, eps, most):
    gold = 2 - (1 + 5 ** 0.5) / 2
    a, b = np.full_like(like, lo, dtype=float), np.full_like(like, hi, dtype=float)
    x = a + gold * (b - a)
    w, v = x, x
    fx = f(x)
    fw, fv = fx, fx
    d, e = np.zeros_like(a), np.zeros_like(a)
    for n in range(most):
        m = (a + b) / 2
        tol = eps ** 0.5 * np.abs(x) + precision / 3
        if np.all(np.abs(x - m) < 2 * tol - (b - m)):
            return x
        longer = np.where(x >= m, a, b) - x
        try_fit = np.abs(e) > tol
        x1, x2 = np.where(try_fit, x - w, 0.0), np.where(try_fit, x - v, 0.0)
        r, q = x1 * (fx - fv), x2 * (fx - fw)
        den = 2 * (q - r)
        fit = try_fit & (den != 0)
        num = np.where(fit, x2 * q - x1 * r, 0.0)
        num = np.where(den > 0, -num, num)
        den = np.abs(den)
        step = np.where(fit, num / den, gold * longer)
        u = x + step
        reject = fit & ((b < u) | (a > u) | (np.abs(step) > 0.5 * np.abs(e)))
        step = np.where(reject, gold * longer, step)
        u = np.where(reject, x + step, u)
        step = np.where((u - a < 2 * tol) | (b - u < 2 * tol), np.where(x < m, tol, -tol), step)
        step = np.where(np.abs(step) < tol, np.where(step > 0, tol, -tol), step)
        u = x + step
        fu = f(u)
        e, d = d, step
        better = fu <= fx
        a, b = (np.where(better & (u >= x), x, np.where(~better & (u < x), u, a)),
                np.where(better & (u < x), x, np.where(~better & (u >= x), u, b)))
        second = (fu <= fw) | (w == x)
        third = (fu <= fv) | (v == w) | (v == x)
        v, fv = (np.where(better | second, w, np.where(third, u, v)), np.where(better | second, fw, np.where(third, fu, fv)))
        w, fw = (np.where(better, x, np.where(second, u, w)), np.where(better, fx, np.where(second, fu, fw)))
        x, fx = np.where(better, u, x), np.where(better, fu, fx)
    return x


# The first guess, when no step is allowed

@case(prop='C25', choices=True)
def first_guess(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 0)


def first_guess__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return search(lambda x: f(x, y=y), lo, hi, y, p, eps, 0)


# One step: always a golden section of the longer side

@case(prop='C25', choices=True)
def one_step(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 1)


def one_step__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return search(lambda x: f(x, y=y), lo, hi, y, p, eps, 1)


# Two, three and four steps: the bookkeeping of the best three points, and fitted parabolas

@case(prop='C25', choices=True)
def two_steps(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 2)


def two_steps__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return search(lambda x: f(x, y=y), lo, hi, y, p, eps, 2)


@case(prop='C25', choices=True)
def three_steps(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 3)


def three_steps__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return search(lambda x: f(x, y=y), lo, hi, y, p, eps, 3)


@case(prop='C25', choices=True)
def four_steps(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 4)


def four_steps__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return search(lambda x: f(x, y=y), lo, hi, y, p, eps, 4)


# On the decade scale the same search runs on the exponents, and the equation sees the times themselves

@case(prop='C25', choices=True)
def decades_first_guess(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 0, log_gold=True)


def decades_first_guess__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return 10 ** search(lambda x: f(10 ** x, y=y), np.log10(lo), np.log10(hi), y, p, eps, 0)


@case(prop='C25', choices=True)
def decades_two_steps(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 2, log_gold=True)


def decades_two_steps__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    return 10 ** search(lambda x: f(10 ** x, y=y), np.log10(lo), np.log10(hi), y, p, eps, 2)


# Defaults: precision 1e-5, 64-bit arithmetic

@case(prop='C25', choices=True)
def default_precision(f: Fn, y: float, lo: float, hi: float):
    return minimize(f, {'y': y}, (lo, hi), maxiter=2)


def default_precision__expect(f: Fn, y: float, lo: float, hi: float):
    return search(lambda x: f(x, y=y), lo, hi, y, 1e-5, 2 ** -53, 2)


# Every further value reaches the equation under its own name, whatever the order

@case(prop='C25', choices=True)
def further_values_by_name(f: Fn, y: float, a: float, b: float, lo: float, hi: float):
    return minimize(f, {'y': y, 'time': b, 'x': a}, (lo, hi), maxiter=1)


def further_values_by_name__expect(f: Fn, y: float, a: float, b: float, lo: float, hi: float):
    return search(lambda x: f(x, y=y, x=a, time=b), lo, hi, y, 1e-5, 2 ** -53, 1)


# Several samples: each with its own search, none stopped before all have settled

@case(prop='C25', choices=True)
def samples_first_guess(f: Fn, y: Arr[2], lo: float, hi: float, p: float, eps: float):
    return minimize(f, {'y': y}, (lo, hi), p, eps, 0)


def samples_first_guess__expect(f: Fn, y: Arr[2], lo: float, hi: float, p: float, eps: float):
    return search(lambda x: f(x, y=y), lo, hi, y, p, eps, 0)


@case(prop='C25', choices=True)
def samples_one_step(y: Arr[2], lo: float, hi: float, p: float, eps: float):
    return minimize(lambda x, y: (x - y) ** 2, {'y': y}, (lo, hi), p, eps, 1)


def samples_one_step__expect(y: Arr[2], lo: float, hi: float, p: float, eps: float):
    return search(lambda x: (x - y) ** 2, lo, hi, y, p, eps, 1)


@case(prop='C25', choices=True)
def samples_settle_apart(y: Arr[2]):
    return minimize(lambda x, y: (x - y) ** 2, {'y': y}, (0.0, 1.0), 0.27, 0.04, 2)


def samples_settle_apart__expect(y: Arr[2]):
    return search(lambda x: (x - y) ** 2, 0.0, 1.0, y, 0.27, 0.04, 2)


# Where the equation is evaluated, in order

@case(prop='C25', choices=True)
def evaluated_points(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    points = []

    def watched(x, y):
        points.append(x)
        return f(x, y=y)
    minimize(watched, {'y': y}, (lo, hi), p, eps, 3)
    return points


def evaluated_points__expect(f: Fn, y: float, lo: float, hi: float, p: float, eps: float):
    points = []

    def watched(x):
        points.append(x)
        return f(x, y=y)
    search(watched, lo, hi, y, p, eps, 3)
    return points


# The same over fixed, wide bounds and with a fine tolerance, where fits are tried as soon as three points are known

@case(prop='C25', choices=True)
def evaluated_points_wide(f: Fn, y: float):
    points = []

    def watched(x, y):
        points.append(x)
        return f(x, y=y)
    minimize(watched, {'y': y}, (0, 1024), 0.001, 2 ** -40, 3)
    return points


def evaluated_points_wide__expect(f: Fn, y: float):
    points = []

    def watched(x):
        points.append(x)
        return f(x, y=y)
    search(watched, 0, 1024, y, 0.001, 2 ** -40, 3)
    return points
