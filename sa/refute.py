"""Random interpretation of value-graph nodes.

Two nodes whose normal forms differ are reported as different only if some interpretation of the uninterpreted symbols
(inputs, user equations, opaque calls) gives them different values.  Nodes outside the interpreted vocabulary make the
comparison undecided.  Nothing of the analysed program is executed: only the arithmetic of the graph is evaluated.
"""
from __future__ import annotations

import hashlib
import math
import random
import struct
import statistics
import time
from fractions import Fraction

from . import terms as T
from .terms import Term


SECS = 20                 # processor seconds for one comparison
END = [float('inf')]


class Cannot(Exception):
    """Node outside the interpreted vocabulary."""


class Skip(Exception):
    """This interpretation makes the expression meaningless (division by zero, failed lookup); try another."""


class Tok:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Tok) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'v' + hashlib.md5(repr(self.key).encode()).hexdigest()[:6]


class Arr:
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape, self.data = shape, data

    def __repr__(self):
        return f'Arr{self.shape}{list(self.data)}'


class Span(Fraction):
    """Number of seconds standing for a duration of known class."""
    kind = 'datetime.timedelta'


class PSpan(Span):
    kind = 'pandas.Timedelta'


SPANS = {'timedelta': Span, 'Timedelta': PSpan}


class Ser:
    """A column with its index (pandas Series)."""
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = tuple(data)

    def __repr__(self):
        return f'Ser{list(self.data)}'


class Frm:
    """A data frame with known columns."""
    __slots__ = ('cols', 'n')

    def __init__(self, cols, n):
        self.cols, self.n = cols, n

    def __repr__(self):
        return f'Frm{self.cols}'


class FDict(dict):
    def __hash__(self):
        return hash(frozenset((k, _h(v)) for k, v in self.items()))


ABS = ('absent',)
BOUND = ('eqv', 'eqk')
NAN = float('nan')


def _h(v):
    try:
        return hash(v)
    except TypeError:
        return hash(repr(v))


def freeze(v):
    """Hashable, canonical form of a value."""
    if isinstance(v, (bool, str, type(None))):
        return v
    if isinstance(v, (int, float, Fraction)):
        try:
            return '%.10g' % (float(v) + 0.0)
        except OverflowError:
            return 'big'
    if isinstance(v, Tok):
        return ('tok', v.key)
    if isinstance(v, Arr):
        return ('arr', v.shape, tuple(freeze(x) for x in v.data))
    if isinstance(v, Ser):
        return ('ser', tuple(freeze(x) for x in v.data))
    if isinstance(v, Frm):
        return ('frm', v.n, tuple(sorted((freeze(k), tuple(freeze(y) for y in x)) for k, x in v.cols.items())))
    if isinstance(v, dict):
        return ('dict', tuple(sorted(((freeze(k), freeze(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, (tuple, list)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, frozenset):
        return ('set', tuple(sorted((freeze(x) for x in v), key=repr)))
    return repr(v)


# nodes with laws of their own: left standing for an unknown, such a node may equal a value written another way
LAWS = {'col', 'mapply', 'frames', 'framesix', 'nrows', 'asarray', 'series', 'df', 'jsonframe'}


def unlike_kinds(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Tok) and isinstance(x.key, tuple) and x.key and x.key[0] in LAWS:
            if not isinstance(y, Tok) and y is not None or isinstance(y, Tok) and (
                    not isinstance(y.key, tuple) or not y.key or y.key[0] != x.key[0]):
                raise Cannot('no value for ' + x.key[0])


def alike(a, b, m=None):
    unlike_kinds(a, b)
    if m is not None and isinstance(a, Tok) != isinstance(b, Tok):
        t, v = (a, b) if isinstance(a, Tok) else (b, a)
        if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
            return alike(m.numval(t), v)
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            return float(a) == float(b)
        return a is b
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if not isinstance(a, float) and not isinstance(b, float):
            return a == b
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.inf in (abs(a), abs(b)):
            return a == b
        return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.shape == b.shape and all(alike(x, y, m) for x, y in zip(a.data, b.data))
    if isinstance(a, Ser) and isinstance(b, Ser):
        return len(a.data) == len(b.data) and all(alike(x, y, m) for x, y in zip(a.data, b.data))
    if isinstance(a, Frm) and isinstance(b, Frm):
        return a.n == b.n and set(a.cols) == set(b.cols) and all(
            alike(x, y, m) for k in a.cols for x, y in zip(a.cols[k], b.cols[k]))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k], m) for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y, m) for x, y in zip(a, b))
    return freeze(a) == freeze(b)


# nodes that only build structure or stand for an unknown function of their arguments
CTOR = {'jsons', 'jsonval', 'jsonframe', 'textio', 'filetext', 'ocall', 'ucall', 'xcall', 'xmethod', 'new', 'frames', 'framesix', 'df', 'obj', 'draw', 'series', 'cls', 'ext', 'fn',
        'exobj', 'bound', 'snap', 'write', 'function', 'attr', 'elt', 'iters', 'col',
        'opq', 'dcopy', 'scopy', 'sigparams', 'signature', 'typeof', 'round', 'noreturn', 'module', 'partial', 'badshape',
        'hashof', 'rngseed', 'rngnext', 'rng', 'rngdraw', 'superof', 'dim', 'mapply', 'raises', 'tdpart', 'xattr', 'typename', 'nrows', 'entered', 'fmt',
        'set', 'castlike', 'dtypeof', 'asarray', 'badindex'}
UF = {'exp': math.exp, 'sqrt': math.sqrt, 'log2': math.log2, 'log1p': math.log1p, 'expm1': math.expm1, 'sin': math.sin,
      'cos': math.cos, 'tan': math.tan, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
      'sign': lambda x: (x > 0) - (x < 0)}


REDUCTIONS = {'anyof': any, 'asum': sum, 'amax': max, 'amin': min, 'amean': lambda x: sum(x) / Fraction(len(x)), 'aprod': math.prod,
              'amedian': lambda x: statistics.median(x)}


class Model:
    def __init__(self, seed, pool, names, kinds):
        self.seed, self.pool, self.names, self.kinds = seed, pool, names, kinds
        self.memo = {}
        self.reads = {}
        r = random.Random(seed)
        self.U = names + ['n%d' % i for i in range(2)]
        self.vars, self.forced, self.n = {}, {}, 0

    # ---------------------------------------------------------------- pseudo-random choices
    def rnd(self, *key):
        return random.Random(hashlib.md5(repr((self.seed,) + key).encode()).hexdigest())

    def numval(self, v):
        if isinstance(v, (int, float, Fraction, bool)):
            return v
        if v is None or isinstance(v, (str, dict, tuple, Arr)):
            raise Skip()
        if isinstance(v, (Ser, Frm)):
            raise Cannot('number from a column')
        f = self.forced.get(('num', freeze(v)))
        if f is not None:
            return f
        r = self.rnd('num', freeze(v))
        x = r.random()
        if x < 0.12:
            return 0
        if x < 0.35 and self.pool:
            return Fraction(r.choice(self.pool))
        return Fraction(r.randint(-4 * 1000, 6 * 1000), 1000)

    def isnone(self, v):
        if v is None:
            return True
        if isinstance(v, Tok):
            f = self.forced.get(('none', v.key))
            if f is not None:
                return f
            return self.rnd('none', v.key).random() < 0.12
        return False

    def truthv(self, v):
        if isinstance(v, Tok):
            return not self.isnone(v) and self.numval(v) != 0
        if isinstance(v, (Arr, Ser, Frm)):
            raise Cannot('truth of array')
        return bool(v)

    def kind(self, v):
        f = freeze(v)
        k = self.forced.get(('kind', f))
        if k is not None:
            return k
        cands = self.kinds + ['other']
        return self.rnd('kind', f).choice(cands)

    def elems(self, C):
        """Elements of a collection value in a fixed order."""
        if isinstance(C, dict):
            return tuple(C)
        if isinstance(C, tuple):
            return C
        if isinstance(C, Ser) or isinstance(C, Arr) and len(C.shape) == 1:
            return tuple(C.data)
        if isinstance(C, Tok) and isinstance(C.key, tuple) and C.key and C.key[0] in LAWS:
            raise Cannot('elements of ' + C.key[0])
        if isinstance(C, Tok):
            return tuple(n for n in self.U if self.member(n, C))
        raise Skip()

    def member(self, k, C):
        if isinstance(C, dict):
            return any(alike(k, x) for x in C)
        if isinstance(C, tuple):
            return any(alike(k, x) for x in C)
        if isinstance(C, Tok):
            if not isinstance(k, str):
                k = freeze(k)
            f = self.forced.get(('in', k, C.key))
            if f is not None:
                return f
            return k in self.U and self.rnd('in', k, C.key).random() < 0.6
        if isinstance(C, str) and isinstance(k, str):
            return k in C
        raise Skip()

    # ---------------------------------------------------------------- choices made to satisfy given outcomes
    def bind(self, lits):
        """Values for the elements the comparison quantified over, from the outcomes that mention them."""
        todo = {}
        for c, v in lits:
            for x in T.subterms(c):
                if x.op == 'var' and x.args[0].startswith(BOUND):
                    todo.setdefault(x.args[0], None)
        for c, v in lits:
            if v and c.op == 'eq':
                for x, y in (c.args, c.args[::-1]):
                    if x.op == 'var' and x.args[0] in todo and y.op == 'const' and todo[x.args[0]] is None:
                        todo[x.args[0]] = y.args[1]
        for c, v in lits:
            if v and c.op == 'in' and c.args[0].op == 'var' and todo.get(c.args[0].args[0], 0) is None and c.args[1].op == 'range':
                r = self.iterate(c.args[1], {})
                if not r:
                    raise Skip()
                todo[c.args[0].args[0]] = self.rnd('pick', c.args[0].args[0]).choice(r)
        indices = {x.args[0] for c, v in lits for y in T.subterms(c) if y.op in ('elt', 'lt') for z in T._flat(y.args) if type(z) is Term
                   for x in T.subterms(z) if x.op == 'var'}
        for n, v in todo.items():
            if v is None:
                v = self.rnd('var', n).choice([0, 1, 2] if n in indices else self.U)
            self.vars[n] = v

    def force(self, c, val, late=False):
        """Make the outcome of c the given one where the interpretation is free to choose it."""
        o, a = c.op, c.args
        if o == 'not':
            return self.force(a[0], not val, late)
        if o == 'and':
            if val:
                for x in a:
                    self.force(x, True, late)
            elif late and self.truth(c, {}):
                self.force(self.rnd('alt', str(c.uid)).choice(a), False, False)
            return
        if (o in ('exc', 'hasattr', 'callable')) != late:
            return
        if o == 'in':
            k, C = self.ev(a[0], {}), self.ev(a[1], {})
            if isinstance(C, Tok):
                k = k if isinstance(k, str) else freeze(k)
                self.forced.setdefault(('in', k, C.key), val and k in self.U)
        elif o in ('typeis', 'isinst') and a[1].op in ('cls', 'ext'):
            v = self.ev(a[0], {})
            if isinstance(v, (Tok, int, float, Fraction)) and not isinstance(v, bool):
                n = str(a[1].args[0])
                if val:
                    self.forced.setdefault(('kind', freeze(v)), n)
        elif o in ('exc', 'hasattr', 'callable'):
            self.forced.setdefault((o, self.args(a, {})), val)
        elif o == 'truthy':
            v = self.ev(a[0], {})
            if isinstance(v, Tok):
                self.forced.setdefault(('none', v.key), not val)
            elif isinstance(v, bool) and a[0].op == 'sym':
                self.settle(a[0], val)
            elif isinstance(v, (int, float, Fraction)) and bool(v) != val:
                self.choose(a[0], 1 if val else 0)
        elif o == 'lt':
            gap = Fraction(self.rnd('gap', str(c.uid)).choice([0, 1, 1, 2, 1000, 10**9]))
            if val:
                gap = gap or 1
            x, y = self.num(a[0], {}), self.num(a[1], {})
            if (x < y) != val:
                d = gap if val else -gap
                if x == x and abs(x) != math.inf and self.choose(a[1], Fraction(x) + d):
                    return
                if y == y and abs(y) != math.inf:
                    self.choose(a[0], Fraction(y) - d)
        elif o == 'eq' and val and a[0].op == 'sym' and T.is_str(a[1]):
            self.settle(a[0], a[1].args[1])
        elif o == 'eq' and val and a[1].op == 'sym' and T.is_str(a[0]):
            self.settle(a[1], a[0].args[1])
        elif o == 'eq' and val and a[0].op != 'var' and a[1].op != 'var':
            x, y = self.ev(a[0], {}), self.ev(a[1], {})
            if not self.equal(x, y):
                for t, w in ((a[0], y), (a[1], x)):
                    if isinstance(w, Tok) and T.TYPES.get(t if w is x else a[0]) is not None:
                        w = self.numval(w)
                    if isinstance(w, (int, float, Fraction)) and not isinstance(w, bool) and w == w and abs(w) != math.inf:
                        if self.choose(t, Fraction(w)):
                            return
        elif o == 'is' and (a[0].op == 'const' or a[1].op == 'const'):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if T.is_const(y) and y.args[1] is None:
                    v = self.ev(x, {})
                    if isinstance(v, Tok):
                        self.forced.setdefault(('none', v.key), val)

    def settle(self, t, v):
        if ('sym', t.args[0]) not in self.forced:
            self.forced['sym', t.args[0]] = v
            self.memo.clear()

    def free(self, t):
        """Key under which the number t stands for may be chosen, or None."""
        if t.op == 'elt':
            return ('fl', ('elt', self.args(t.args, {})))
        ty = T.TYPES.get(t) or ()
        if t.op == 'sym' and t not in T.POSITIVE and ty and ty <= {'float', 'float64', 'timedelta', 'Timedelta'}:
            return ('sym', t.args[0])
        if t.op in ('titem', 'attr', 'item', 'ucall', 'ocall', 'sym', 'draw'):
            v = self.ev(t, {})
            if isinstance(v, Tok):
                return ('num', freeze(v))
        return None

    def linear(self, c, k):
        """(key, value) making poly/free term c equal to k, if it has one free unknown in one linear place."""
        if c.op != 'poly':
            f = self.free(c)
            return (f, k) if f is not None else None
        for i, (co, m) in enumerate(c.args):
            if len(m) == 1 and m[0][1] == 1 and (f := self.free(m[0][0])) is not None and f not in self.forced:
                rest = sum(self.mono(x, y) for j, (x, y) in enumerate(c.args) if j != i)
                return f, (Fraction(k) - Fraction(rest)) / co
        return None

    def mono(self, c, m):
        for x, e in m:
            v = self.num(x, {})
            if e < 0 and v == 0:
                raise Skip()
            c = c * v ** e
        return c

    def choose(self, c, k):
        try:
            r = self.linear(c, k)
        except (TypeError, ValueError, OverflowError):
            return False
        if r is None or r[0] in self.forced:
            return False
        self.forced[r[0]] = r[1]
        self.memo.clear()
        return True

    # ---------------------------------------------------------------- typed inputs
    def typed(self, t, key):
        ty = T.TYPES.get(t)
        spec = T.SPEC.get(t)
        f = self.forced.get(('sym', key))
        c = SPANS.get(next(iter(ty))) if ty and len(ty) == 1 else None
        if f is not None:
            return f if c is None else c(f)
        r = self.rnd('sym', key)
        if spec is not None and spec[0] == 'dict':
            return Tok(key)
        if t in T.REFTYPE and T.REFTYPE[t].op == 'cls':
            return Tok(key)
        if not ty or '?' in ty:
            return Tok(key)
        if ty == {'list'}:
            return self.elems(Tok(key))
        opts = sorted(ty)
        o = r.choice(opts)
        if t in T.POSITIVE:
            return r.choice([1, 2, 2, 3])
        if o == 'int':
            return r.choice([0, 1, 2, 3, 5, -1])
        if o in ('float', 'float64', 'timedelta', 'Timedelta'):
            x, c = r.random(), SPANS.get(o, Fraction)
            if x < 0.1:
                return c(0)
            if x < 0.4 and self.pool:
                return c(r.choice(self.pool))
            return c(r.randint(-3 * 1000, 8 * 1000), 1000)
        if o == 'str':
            return r.choice(self.U)
        if o == 'bool':
            return r.random() < 0.5
        if o == 'None':
            return None
        return Tok(key)

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, env):
        if t.bh == 0 or not env:
            v = self.memo.get(t, self)
            if v is not self:
                return v
            self.n += 1
            if not self.n & 255 and time.process_time() > END[0]:
                raise Skip()
            v = self._ev(t, env)
            if not env:
                self.memo[t] = v
            return v
        return self._ev(t, env)

    def lam(self, l, v, env):
        if l.op != 'lam':
            raise Cannot('function value ' + l.op)
        e = dict(env)
        e[l.args[0]] = v
        return self.ev(l.args[1], e)

    def args(self, a, env):
        out = []
        for x in a:
            if type(x) is Term:
                if x.op == 'lam':
                    out.append(self.lamkey(x, env))
                else:
                    out.append(freeze(self.ev(x, env)))
            elif type(x) is tuple:
                out.append(self.args(x, env))
            else:
                out.append(x)
        return tuple(out)

    def lamkey(self, l, env):
        """Extensional fingerprint of a function-valued argument."""
        out = []
        for z in (Tok('fp1'), Tok('fp2'), Tok('fp3')):
            out.append(self.lamkey(l.args[1], {**env, l.args[0]: z}) if l.args[1].op == 'lam' else freeze(self.lam(l, z, env)))
        return ('lam', tuple(out))

    def wrun(self, w, env):
        """Passes made by a while loop and the values it ends with."""
        if w.op != 'wloop':
            raise Cannot('loop')
        vals, n = [self.ev(x, env) for x in w.args[0]], 0
        while True:
            e, b = dict(env), w.args[1]
            for v in vals:
                e[b.args[0]] = v
                b = b.args[1]
            if not self.truth(b.args[0], e):
                return n, vals
            vals = [self.ev(x, e) for x in b.args[1]]
            n += 1
            if n > 40:
                raise Skip()

    def num(self, t, env):
        return self.numval(self.ev(t, env))

    def truth(self, t, env):
        return self.truthv(self.ev(t, env))

    def iterate(self, t, env):
        if t.op == 'range':
            a, b, c = (int(self.num(x, env)) for x in t.args)
            return tuple(range(a, b, c or 1))
        if t.op in ('dict', 'dictc'):
            return tuple(self.ev(t, env))
        return self.elems(self.ev(t, env))

    def _ev(self, t, env):
        o, a = t.op, t.args
        if o == 'const':
            return a[1]
        if o == 'bv':
            if a[0] not in env:
                raise Cannot('unbound')
            return env[a[0]]
        if o in ('sym', 'var'):
            n = a[0]
            if n.startswith('num:'):
                k = n[4:]
                if k == 'inf':
                    return math.inf
                if k == '-inf':
                    return -math.inf
                if k == 'nan':
                    return NAN
                if k == 'second':
                    return Fraction(1)
                return Tok(n)
            if o == 'var':
                if not n.startswith(BOUND):
                    raise Cannot('variable ' + n)
                if n not in self.vars:
                    self.vars[n] = self.rnd('var', n).choice(self.U)
                return self.vars[n]
            v = self.typed(t, n)
            self.reads[n] = v
            return v
        if o == 'tdzero':
            return 0
        if o == 'wval':
            return self.wrun(a[1], env)[1][int(a[0].args[1])]
        if o == 'witer':
            return tuple(Tok(f'pass{i}') for i in range(self.wrun(a[0], env)[0]))
        if o == 'absent':
            return ABS
        if o == 'poly':
            s = 0
            for c, m in a:
                p = c
                for x, e in m:
                    v = self.num(x, env)
                    if e < 0 and v == 0:
                        raise Skip()
                    try:
                        p = p * (v ** e)
                    except OverflowError:
                        raise Skip()
                s = s + p
            if s != s:
                raise Skip()
            return s
        if o == 'mulx':
            return self.num(a[0], env) * self.num(a[1], env)
        if o in ('ite', 'sel'):
            return self.ev(a[1], env) if self.truth(a[0], env) else self.ev(a[2], env)
        if o == 'not':
            return not self.truth(a[0], env)
        if o == 'and':
            skip = None
            for x in a:
                # the order of the parts is not that of the code: one undefined part does not matter beside a false one
                try:
                    if not self.truth(x, env):
                        return False
                except Skip as e:
                    skip = e
            if skip is not None:
                raise skip
            return True
        if o == 'eq':
            return self.equal(self.ev(a[0], env), self.ev(a[1], env))
        if o == 'lt':
            return self.num(a[0], env) < self.num(a[1], env)
        if o == 'is':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if x is None or y is None:
                return self.isnone(x) and self.isnone(y)
            return freeze(x) == freeze(y)
        if o == 'in':
            return self.member(self.ev(a[0], env), self.ev(a[1], env))
        if o == 'truthy':
            return self.truth(a[0], env)
        if o == 'typeis':
            return self.typeis(self.ev(a[0], env), a[1], env)
        if o == 'isinst':
            return self.typeis(self.ev(a[0], env), a[1], env)
        if o in ('hasattr', 'exc', 'callable', 'isnan', 'isinf', 'isint'):
            if o in ('isnan', 'isinf', 'isint') and len(a) == 1:
                v = self.num(a[0], env)
                return {'isnan': v != v, 'isinf': v in (math.inf, -math.inf),
                        'isint': v == v and v not in (math.inf, -math.inf) and float(v).is_integer()}[o]
            k = (o, self.args(a, env))
            f = self.forced.get(k)
            return f if f is not None else self.rnd(*k).random() < (0.3 if o == 'exc' else 0.5)
        if o == 'exists':
            return any(self.truthv(self.lam(a[1], x, env)) for x in self.iterate(a[0], env))
        if o == 'seq':
            out = []
            for g in a:
                out.extend(self.seg(g, env))
            return tuple(out)
        if o == 'range':
            return self.iterate(t, env)
        if o == 'map':
            return tuple(self.lam(a[1], x, env) for x in self.iterate(a[0], env))
        if o in ('item', 'titem'):
            return self.item(self.ev(a[0], env), self.ev(a[1], env), t, o)
        if o == 'elemof':
            xs = self.iterate(a[0], env)
            if not xs:
                raise Skip()
            return xs[0]
        if o == 'idxof':
            raise Cannot('position')
        if o == 'dictc':
            return FDict((self.key(self.ev(k, env)), self.ev(v, env)) for k, v in a)
        if o == 'dict':
            d = FDict()
            for k in self.U:
                v = self.lam(a[0], k, env)
                if v is not ABS:
                    d[k] = v
            return d
        if o == 'keys':
            return self.elems(self.ev(a[0], env))
        if o in ('splice', 'one', 'cmapseg', 'cond'):
            return tuple(self.seg(t, env))
        if o == 'fold':
            C, init, l = a
            acc = self.ev(init, env)
            for x in self.iterate(C, env):
                e = dict(env)
                e[l.args[0]] = acc
                acc = self.lam(l.args[1], x, e)
            return acc
        if o == 'sum':
            return sum(self.numval(self.lam(a[1], x, env)) for x in self.iterate(a[0], env))
        if o == 'lastof':
            xs = self.iterate(a[0], env)
            if not xs:
                raise Skip()
            return self.lam(a[1], xs[-1], env)
        if o == 'len':
            v = self.ev(a[0], env)
            if isinstance(v, Arr):
                return v.shape[0]
            if isinstance(v, str):
                return len(v)
            return len(self.elems(v))
        if o in ('max', 'min'):
            return (max if o == 'max' else min)((self.ev(x, env) for x in a), key=self.numval)
        if o == 'abs':
            return abs(self.num(a[0], env))
        if o == 'secs':
            return self.num(a[0], env)
        if o == 'fdiv':
            x, y = self.num(a[0], env), self.num(a[1], env)
            if y == 0:
                raise Skip()
            return math.floor(Fraction(str(x)) / Fraction(str(y)))
        if o == 'pow':
            x, y = self.num(a[0], env), self.num(a[1], env)
            try:
                r = float(x) ** float(y)
            except (OverflowError, ZeroDivisionError):
                raise Skip()
            if isinstance(r, complex) or r != r:
                raise Skip()
            # one fixed rational for the root, so that what is computed from it is not rounded again
            return Fraction(r) if 1e-30 < abs(r) < 1e30 else r
        if o == 'log':
            x = self.num(a[-1], env)
            if x <= 0:
                raise Skip()
            if len(a) == 2 and not (T.is_str(a[0]) and a[0].args[1] == 'e'):
                b = self.num(a[0], env)
                if b <= 0 or b == 1:
                    raise Skip()
                return math.log(x) / math.log(b)
            return math.log(x)
        if o == 'ufunc':
            f = UF.get(a[0])
            if f is None:
                return Tok(('ufunc', self.args(a, env)))
            try:
                return f(*[float(self.num(x, env)) for x in a[1]])
            except (ValueError, OverflowError):
                raise Skip()
        if o == 'tc':
            xs = [self.numval(self.ev(x, env)) for x in a[1:]]
            if a[0] in ('add', 'sum'):
                return sum(xs)
            if a[0] in ('mul', 'multiply'):
                return math.prod(xs)
            return Tok((o, a[0], tuple(freeze(x) for x in xs)))
        if o == 'toint':
            return int(self.num(a[0], env))
        if o == 'strcat':
            out = ''
            for x in a:
                v = self.ev(x, env)
                out += v if isinstance(v, str) else str(freeze(v))
            return out
        if o == 'arr':
            shape = tuple(int(self.num(d, env)) for d in a[0])
            if any(d < 0 for d in shape) or math.prod(shape) > 200:
                raise Skip()
            data = []
            idx = [()]
            for d in shape:
                idx = [i + (j,) for i in idx for j in range(d)]
            for ix in idx:
                e = dict(env)
                b = a[1]
                for j in ix:
                    e[b.args[0]] = j
                    b = b.args[1]
                data.append(self.ev(b, e))
            return Arr(shape, tuple(data))
        if o == 'attr':
            base = self.ev(a[0], env)
            nm = a[1] if isinstance(a[1], str) else self.ev(a[1], env)
            if isinstance(base, Tok) and isinstance(base.key, tuple) and base.key[0] == 'obj':
                pass
            key = ('attr', freeze(base), nm)
            return self.typed(t, key) if t.bh == 0 or t in T.TYPES else Tok(key)
        if o in REDUCTIONS:
            v = self.ev(a[0], env)
            xs = v.data if isinstance(v, Arr) else (v,)
            if o == 'anyof':
                return any(self.truthv(x) for x in xs)
            if not xs:
                raise Skip()
            return REDUCTIONS[o]([self.numval(x) for x in xs])
        if o == 'first':
            for x in self.iterate(a[0], env):
                if self.truthv(self.lam(a[1], x, env)):
                    return self.lam(a[2], x, env)
            raise Skip()
        if o == 'elt':
            v = self.floaty(('elt', self.args(a, env)))
            c = SPANS.get(T.ELTTYPE.get(a[0]))
            return c(v) if c is not None else v
        if o == 'clip':
            x, lo, hi = (self.ev(v, env) for v in a)
            x = self.numval(x)
            if lo is not None:
                x = max(x, self.numval(lo))
            if hi is not None:
                x = min(x, self.numval(hi))
            return x
        if o == 'sigparams':
            return Tok(('sigparams', self.args(a, env)))
        if o in ('df', 'frames', 'col', 'series', 'mapply', 'nrows'):
            r = self.table(o, a, env)
            if r is not None:
                return r
        if o == 'castlike' and a[1].op == 'ext':
            k = {'numpy.float32': 'f', 'numpy.single': 'f', 'numpy.float16': 'e', 'numpy.half': 'e'}.get(a[1].args[0])
            v = self.numval(self.ev(a[0], env))
            if k is None or not isinstance(v, (int, Fraction)):
                raise Cannot(o)
            try:
                return Fraction(struct.unpack(k, struct.pack(k, float(v)))[0])
            except OverflowError:
                raise Cannot(o)
        if o == 'framesix':
            # rows one after the other, every table keeping its row labels
            parts, rows = self.ev(a[0], env), self.table('frames', a, env)
            if isinstance(rows, Frm) and isinstance(parts, tuple) and all(isinstance(f, Frm) for f in parts):
                return Tok(('labelled', freeze(rows))) if sum(f.n > 0 for f in parts) > 1 else rows
        if o == 'tableop':
            return self.tableop(a, env)
        if o in CTOR:
            return Tok((o, self.args(a, env)))
        raise Cannot(o)

    def tableop(self, a, env):
        """Rows dropped or reordered."""
        f, kw = self.ev(a[1], env), self.ev(a[3], env)
        if not isinstance(f, Frm) or not isinstance(kw, dict):
            raise Cannot('tableop')
        names = list(f.cols)
        rows = list(zip(*[f.cols[k] for k in names])) if f.n else []
        if a[0] == 'drop_duplicates':
            if a[2] or kw:
                raise Cannot('tableop')
            seen = {}
            for r in rows:
                seen.setdefault(freeze(r), r)
            rows = list(seen.values())
        elif a[0] == 'dropna':
            if a[2] or kw:
                raise Cannot('tableop')
            rows = [r for r in rows if not any(x is None or x != x for x in r)]
        else:
            by = self.ev(a[2][0], env) if a[2] else kw.pop('by', None)
            kw.pop('kind', None)
            by = (by,) if isinstance(by, str) else by
            if kw or not isinstance(by, tuple) or len(a[2]) > 1:
                raise Cannot('tableop')
            ix = [names.index(b) for b in by if b in names]
            if len(ix) != len(by) or any(isinstance(r[i], Tok) or r[i] is None for r in rows for i in ix):
                raise Cannot('tableop')
            try:
                rows.sort(key=lambda r: [r[i] for i in ix])
            except TypeError:
                raise Cannot('tableop')
        return Frm({k: tuple(r[i] for r in rows) for i, k in enumerate(names)}, len(rows))

    def table(self, o, a, env):
        """Tables and columns whose contents are known."""
        x = self.ev(a[0], env)
        if o == 'df' and isinstance(x, dict):
            n = {len(v.data if isinstance(v, (Ser, Arr)) else v) for v in x.values() if isinstance(v, (Ser, tuple)) or
                 isinstance(v, Arr) and len(v.shape) == 1}
            if len(n) > 1 or any(isinstance(v, (Frm, dict)) for v in x.values()):
                return None
            if any(isinstance(v, Tok) and isinstance(v.key, tuple) and v.key and v.key[0] in LAWS for v in x.values()):
                return None
            n = n.pop() if n else 1 if x else 0
            return Frm({k: tuple(v.data) if isinstance(v, (Ser, Arr)) else v if isinstance(v, tuple) else (v,) * n
                        for k, v in x.items()}, n)
        if o == 'frames' and isinstance(x, tuple):
            out = []
            for f in x:
                if isinstance(f, Frm) and out and isinstance(out[-1], Frm):
                    g = out.pop()
                    out.append(Frm({k: g.cols.get(k, (NAN,) * g.n) + f.cols.get(k, (NAN,) * f.n)
                                    for k in [*g.cols, *f.cols]}, g.n + f.n))
                elif not isinstance(f, Frm) or f.cols:
                    out.append(f)
            if not out:
                return Frm({}, 0)
            if len(out) == 1 and isinstance(out[0], Frm):
                return out[0]
            return Tok(('frames', tuple(freeze(f) for f in out)))
        if o == 'col' and isinstance(x, Frm):
            k = self.key(self.ev(a[1], env))
            if k not in x.cols:
                raise Skip()
            return Arr((x.n,), x.cols[k])
        if o == 'series':
            if isinstance(x, Ser):
                return x
            if isinstance(x, tuple) or isinstance(x, Arr) and len(x.shape) == 1:
                return Ser(x if isinstance(x, tuple) else x.data)
        if o == 'nrows' and isinstance(x, Frm):
            return x.n
        if o == 'mapply':
            l = a[1]
            if l.op == 'lam' and l.args[1].op == 'bv' and l.args[1].args[0] == l.args[0]:
                return x
            if isinstance(x, Arr):
                return Arr(x.shape, tuple(self.lam(l, y, env) for y in x.data))
            if isinstance(x, Ser):
                return Ser(self.lam(l, y, env) for y in x.data)
        return None

    def floaty(self, key):
        f = self.forced.get(('fl', key))
        if f is not None:
            return f
        r = self.rnd('fl', key)
        x = r.random()
        if x < 0.08:
            return 0
        if x < 0.3 and self.pool:
            return Fraction(r.choice(self.pool))
        return Fraction(r.randint(-4 * 1000, 6 * 1000), 1000)

    def key(self, v):
        return v if isinstance(v, str) else freeze(v)

    def seg(self, g, env):
        o, a = g.op, g.args
        if o == 'one':
            return [self.ev(a[0], env)]
        if o == 'splice':
            return list(self.iterate(a[0], env))
        if o == 'cond':
            return list(self.ev(a[1] if self.truth(a[0], env) else a[2], env))
        if o == 'cmapseg':
            out = []
            for x in self.iterate(a[0], env):
                out.extend(self.lam(a[1], x, env))
            return out
        raise Cannot(o)

    def equal(self, x, y):
        if x is ABS or y is ABS:
            return x is y
        if x is None or y is None:
            return self.isnone(x) and self.isnone(y)
        if isinstance(x, Tok) != isinstance(y, Tok):
            t, v = (x, y) if isinstance(x, Tok) else (y, x)
            if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
                return self.numval(t) == v
            if isinstance(v, bool):
                return self.truthv(t) == v
            if isinstance(v, str):
                return self.rnd('str', t.key).choice(self.U + ['?']) == v
            return False
        return alike(x, y)

    def item(self, c, k, t, o):
        if isinstance(c, dict):
            kk = self.key(k)
            if kk in c:
                return c[kk]
            raise Skip()
        if isinstance(c, tuple):
            n = int(self.numval(k))
            if -len(c) <= n < len(c):
                return c[n]
            raise Skip()
        if isinstance(c, Arr):
            raise Cannot('array item')
        key = ('item', freeze(c), freeze(k))
        if o == 'titem':
            spec = t.args[2]
            if spec[0] == 't' and '?' not in spec[1]:
                n = spec[1][0]
                r = self.rnd('ti', key)
                if n == 'int':
                    return r.choice([1, 2, 3])
                if n in ('float', 'timedelta'):
                    return self.floaty(key)
                if n == 'str':
                    return r.choice(self.U)
        return Tok(key)

    def typeis(self, v, k, env):
        if k.op == 'typeof':
            return self.kind(v) == self.kind(self.ev(k.args[0], env))
        n = str(k.args[0])
        if isinstance(v, bool):
            return n == 'builtins.bool'
        if isinstance(v, (dict,)):
            return n == 'builtins.dict'
        if isinstance(v, Arr):
            return n == 'numpy.ndarray'
        if v is None:
            return False
        if isinstance(v, tuple):
            return n == 'builtins.list'
        if isinstance(v, Span):
            return v.kind == n
        if isinstance(v, (int, float, Fraction)):
            if n in ('builtins.int', 'builtins.float', 'datetime.timedelta', 'pandas.Timedelta'):
                return self.kind(v) == n
            return False
        return self.kind(v) == n


def vocabulary(ts):
    pool, names, kinds = set(), set(), set()
    for t in ts:
        for x in T.subterms(t):
            if T.is_num(x):
                pool.add(x.args[1])
                pool.add(x.args[1] + 1)
                pool.add(-x.args[1])
            elif T.is_str(x):
                names.add(x.args[1])
            elif x.op == 'poly':
                for c, m in x.args:
                    if not m:
                        pool.add(-c)
            elif x.op in ('typeis', 'isinst') and x.args[1].op in ('cls', 'ext'):
                kinds.add(str(x.args[1].args[0]))
    return sorted(pool)[:40], sorted(names)[:12], sorted(kinds)


def describe(m, x, y):
    ins = ', '.join(f'{k[3:] if k.startswith("in:") else k}={v!r}' for k, v in sorted(m.reads.items())[:10])
    return f'{ins}: {str(x)[:160]} vs {str(y)[:160]}'


def refute(a, b, assumed=(), tries=600, why=None):
    """Description of an interpretation that separates a from b, or None."""
    pool, names, kinds = vocabulary([a, b, *assumed])
    live, END[0] = 0, time.process_time() + SECS
    try:
        for seed in range(tries):
            if time.process_time() > END[0]:
                break
            m = Model(seed, pool, names, kinds)
            try:
                for late in (False, True):
                    for c in assumed:
                        m.force(c, True, late)
                m.memo.clear()
                m.reads.clear()
                if not all(m.truth(c, {}) for c in assumed):
                    continue
                x, y = m.ev(a, {}), m.ev(b, {})
            except Skip:
                continue
            live += 1
            if not alike(x, y, m):
                return describe(m, x, y)
            if live >= 200:
                break
    except Cannot as e:
        if why is not None:
            why.append(str(e))
        return None
    except RecursionError:
        if why is not None:
            why.append('too deep')
        return None
    if why is not None:
        why.append(f'{live} interpretations agree')
    return None


def refute_at(a, b, assumed, d, tries=400, why=None):
    """As refute, but searching only interpretations with the gate outcomes under which the normal forms part (d).

    The two values are compared as a whole in the interpretation found; where they contain nodes outside the interpreted
    vocabulary, the parts that differ have to be separated by the interpretation instead."""
    lits = [(c, True) for c in assumed] + list(d.path)
    pool, names, kinds = vocabulary([a, b, *assumed, *[c for c, v in lits]])
    live, failed, END[0] = 0, {}, time.process_time() + SECS
    for seed in range(tries):
        if time.process_time() > END[0]:
            break
        m = Model(seed, pool, names, kinds)
        try:
            m.bind(lits)
            for late in (False, True):
                for c, v in lits:
                    m.force(c, v, late)
            m.memo.clear()
            m.reads.clear()
            bad = next((c for c, v in lits if m.truth(c, {}) != v), None)
            if bad is not None:
                failed[bad] = failed.get(bad, 0) + 1
                continue
            x, y = m.ev(d.a, {}), m.ev(d.b, {})
            live += 1
            if alike(x, y, m):
                continue
        except Skip:
            continue
        except (Cannot, RecursionError) as e:
            if why is not None:
                why.append('at the difference: ' + str(e))
            return None
        m2 = Model(seed, pool, names, kinds)
        m2.vars, m2.forced = m.vars, m.forced
        try:
            X, Y = m2.ev(a, {}), m2.ev(b, {})
            if alike(X, Y, m2):
                continue
        except Skip:
            continue
        except (Cannot, RecursionError):
            if not d.injective:
                if why is not None:
                    why.append('context not determined: ' + ' '.join(d.trail))
                return None
        return describe(m, x, y)
    if why is not None:
        why.append(f'{live} interpretations of the differing parts agree' + (
            '; not met: ' + ', '.join(T.show(c, 5) for c in sorted(failed, key=failed.get)[-2:]) if not live else ''))
    return None
