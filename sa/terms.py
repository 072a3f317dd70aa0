"""Hash-consed value-graph terms with normal forms.

Every value the analysis talks about is a node of one shared, hash-consed graph.  Smart constructors keep
arithmetic in polynomial normal form, booleans as and/not over canonical atoms, sequences as concatenations of
concat-map segments and arrays as shape + element function, so that two source texts that compute the same thing
get the same node.  `gated` nodes (ite) stand for control-flow joins; `same` compares two nodes by splitting on
the gates that occur in them.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

_table: dict = {}
_uid = itertools.count(1)
EMPTY = frozenset()


class Budget(Exception):
    """A normal form grew past the analysis budget."""


class Term:
    __slots__ = ('op', 'args', 'uid', 'bh', 'fv', '_atoms', '_ops')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.uid = next(_uid)
        bh = fv = 0
        for c in children(args):
            if c.bh > bh:
                bh = c.bh
            fv |= c.fv
        if op == 'lam':
            bh = args[0]
            if bh < 64:
                fv &= ~(1 << bh)
        elif op == 'var':
            fv |= 1 << (64 + self.uid % 448)
        elif op == 'bv':
            fv |= 1 << min(args[0], 64)
        self.bh, self.fv = bh, fv         # fv: filter of the variables that may occur free
        self._atoms = None
        self._ops = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other


def children(args):
    for a in args:
        if type(a) is Term:
            yield a
        elif type(a) is tuple:
            yield from children(a)


def raw(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term(op, args)
        _table[key] = t
        if t.uid > LIMIT[0]:
            raise Budget('value graph too large')
    return t


LIMIT = [float('inf')]


def allow(n):
    """Permit n further nodes; used to bound one obligation."""
    LIMIT[0] = next(_uid) + n


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return raw('sym', 'num:' + repr(x))
        x = Fraction(repr(x))
    return raw('const', 'num', Fraction(x))


def string(s):
    return raw('const', 'str', s)


TRUE = raw('const', 'bool', True)
FALSE = raw('const', 'bool', False)
NONE = raw('const', 'none', None)
ABSENT = raw('absent')
UNDEF = raw('undef')
ZERO = num(0)
ONE = num(1)
INF = raw('sym', 'num:inf')
LAZY = [False]            # element choices stay as they are written instead of being split on


def sel(c, a, b):
    """Choice between two elements, kept whole."""
    if not LAZY[0]:
        return ite(c, a, b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return sel(c.args[0], b, a)
    t = raw('sel', c, a, b)
    TYPES[t] = frozenset({'float'})
    return t


LIBS_OK = [False]         # calls of libraries succeed
FINITE = [False]          # obligations over finite quantities only


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    return raw('const', type(v).__name__, repr(v))


def is_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and t.args[0] == 'num'


def is_str(t):
    return t.op == 'const' and t.args[0] == 'str'


def boolean(b):
    return TRUE if b else FALSE


def sym(name):
    return raw('sym', name)


_fresh = itertools.count(1)


def fresh(prefix='z'):
    return raw('var', f'{prefix}{next(_fresh)}')


# terms that certainly are not None
NONNULL = {'poly', 'seq', 'dict', 'dictc', 'arr', 'ref', 'fn', 'cls', 'ext', 'clo', 'strcat', 'lam', 'sum', 'obj',
           'bound', 'set', 'df', 'rows', 'cmap', 'lt', 'eq', 'and', 'not', 'typeof', 'partial', 'max', 'min', 'draw',
           'fdiv', 'mod', 'abs', 'len', 'elemof', 'module', 'superof', 'rowcat', 'map', 'shape', 'ucall', 'tdzero', 'series',
           'frames', 'new', 'ocall', 'mapply', 'secs'}
TYPES: dict = {}          # term -> frozenset of type names ('None' included when the value may be None)


SPANS = frozenset({'timedelta', 'Timedelta'})


def nonnull(t):
    if t.op in NONNULL:
        return True
    if t.op == 'const':
        return t is not NONE
    ty = TYPES.get(t)
    return ty is not None and 'None' not in ty and '?' not in ty


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if is_num(t):
        return {(): t.args[1]} if t.args[1] else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'poly':
        return {m: c for c, m in t.args}
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((t.uid, e) for t, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if any(t is TD0 for m in p for t, _ in m):
        # a span of no time adds nothing to another span
        q = {m: c for m, c in p.items() if not any(t is TD0 for t, _ in m)}
        if not q:
            return TD0
        if () not in q:
            p = q
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(p) > 200:
        raise Budget('polynomial too large')
    return raw('poly', *sorted(((c, m) for m, c in p.items()), key=lambda x: _mkey(x[1])))


def _mmul(a, b):
    d = {}
    for t, e in a + b:
        d[t] = d.get(t, 0) + e
    if TDU in d and d[TDU] == 1:
        # x.total_seconds() seconds is x
        for t, e in d.items():
            if t.op == 'secs' and e == 1:
                del d[t], d[TDU]
                d[t.args[0]] = d.get(t.args[0], 0) + 1
                break
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda x: x[0].uid))


def add(a, b):
    if a.op == 'arr' or b.op == 'arr':
        r = _bcast2(add, a, b)
        if r is not None:
            return r
    if a.op == 'tdzero' and not is_num(b):
        return b
    if b.op == 'tdzero' and not is_num(a):
        return a
    p = dict(to_poly(a))
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    r = from_poly(p)
    if r is ZERO and (span(a) or span(b)):
        return TD0
    return r


def span(t):
    """Known to be a length of time."""
    if t is TD0 or t is TDU:
        return True
    if t.op == 'poly':
        return any(x is TDU for _, m in t.args for x, _ in m) or all(
            sum(e == 1 and span(x) for x, e in m) == 1 for _, m in t.args)
    ty = TYPES.get(t)
    return bool(ty) and ty <= SPANS


def mul(a, b):
    if a.op == 'arr' or b.op == 'arr':
        r = _bcast2(mul, a, b)
        if r is not None:
            return r
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 60:
        x, y = sorted((a, b), key=lambda t: t.uid)
        return raw('mulx', x, y)
    p = {}
    for ma, ca in pa.items():
        for mb, cb in pb.items():
            m = _mmul(ma, mb)
            p[m] = p.get(m, 0) + ca * cb
    return from_poly(p)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(b):
    if b.op == 'arr':
        return arr_map(inv, b)
    if is_num(b):
        if b.args[1] == 0:
            return raw('divzero')
        return num(1 / b.args[1])
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple(sorted(((t, -e) for t, e in m), key=lambda x: x[0].uid)): 1 / c})
    lead = b.args[0][0]
    body = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((body, -1),): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if a.op == 'arr' or b.op == 'arr':
        r = _bcast2(power, a, b)
        if r is not None:
            return r
    if is_num(b):
        e = b.args[1]
        if is_num(a):
            if e.denominator == 1 and abs(e) < 200 and (a.args[1] or e > 0):
                return num(a.args[1] ** int(e))
        elif e.denominator == 1:
            e = int(e)
            if e == 0:
                return ONE
            if len(to_poly(a)) == 1 or (0 < e <= 3):
                r = ONE
                for _ in range(abs(e)):
                    r = mul(r, a)
                return r if e > 0 else inv(r)
    return raw('pow', a, b)


def abs_(a):
    if a.op == 'arr':
        return arr_map(abs_, a)
    if is_num(a):
        return num(abs(a.args[1]))
    if a.op == 'poly' and a.args[0][0] < 0:
        a = neg(a)
    return raw('abs', a)


def fdiv(a, b):
    if a.op == 'arr' or b.op == 'arr':
        r = _bcast2(fdiv, a, b)
        if r is not None:
            return r
    if is_num(a) and is_num(b) and b.args[1]:
        return num(a.args[1] // b.args[1])
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if a.op == 'fdiv':
        return fdiv(a.args[0], mul(a.args[1], b))
    p = to_poly(a)
    if b.op not in ('ite',) and len(to_poly(b)) == 1 and len(p) > 1:
        whole, rest = {}, {}
        for m, c in p.items():
            q = div(from_poly({m: c}), b)
            if not any(e < 0 for _, mono in _polyargs(q) for _, e in mono) and all(
                    cc.denominator == 1 for cc, _ in _polyargs(q)):
                whole[m] = c
            else:
                rest[m] = c
        if whole:
            return add(div(from_poly(whole), b), fdiv(from_poly(rest), b))
    else:
        q = div(a, b)
        pq = _polyargs(q)
        if not any(e < 0 for _, mono in pq for _, e in mono) and all(cc.denominator == 1 for cc, _ in pq):
            return q
    if _below(a, b):
        return ZERO
    return raw('fdiv', a, b)


def _below(a, b):
    """0 <= a < b for index arithmetic over bounded index variables."""
    m = {}
    for c, mono in _polyargs(a):
        if c < 0 or any(e < 0 for _, e in mono):
            return False
        for t, _ in mono:
            if t in IDX:
                m[t] = sub(IDX[t], ONE)
    if not m:
        return False
    d = sub(sub(b, ONE), subst(a, m))
    return is_num(d) and d.args[1] >= 0


def _polyargs(t):
    return [(c, m) for m, c in to_poly(t).items()]


def mod(a, b):
    if a.op == 'arr' or b.op == 'arr':
        r = _bcast2(mod, a, b)
        if r is not None:
            return r
    if is_str(a):
        return raw('strfmt', a, b)
    if is_num(a) and is_num(b) and b.args[1]:
        return num(a.args[1] % b.args[1])
    if b is ONE:
        return ZERO
    if a is ZERO:
        return ZERO
    return sub(a, mul(b, fdiv(a, b)))


POSITIVE: set = set()     # integer inputs known to be at least one
IDX: dict = {}            # index variable -> its (exclusive) upper bound, set while array bodies are combined


def is_integer(t, depth=0):
    """Certainly an integer value."""
    if t.op == 'const':
        return t.args[0] == 'bool' or t.args[0] == 'num' and t.args[1].denominator == 1
    if t in IDX or t in POSITIVE or t.op in ('len', 'dim', 'idxof', 'bidx', 'toint', 'fdiv'):
        return True
    if t.op == 'ufunc' and t.args[0] in ('floor', 'ceil'):
        return True
    if depth > 6:
        return False
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and is_integer(x, depth + 1) for x, e in m) for c, m in t.args)
    if t.op == 'ite':
        return is_integer(t.args[1], depth + 1) and is_integer(t.args[2], depth + 1)
    if t.op in ('max', 'min'):
        return all(isinstance(x, Term) and is_integer(x, depth + 1) for x in t.args)
    ty = TYPES.get(t)
    return bool(ty) and ty <= {'int', 'bool'}


def toint(t):
    if is_num(t):
        return num(int(t.args[1]))
    if is_integer(t):
        return t
    if t.op == 'ite':
        return ite(t.args[0], toint(t.args[1]), toint(t.args[2]))
    return raw('toint', t)


def max_(*xs):
    return _minmax('max', xs)


def min_(*xs):
    return _minmax('min', xs)


def _minmax(op, xs):
    flat = []
    for x in xs:
        flat.extend(x.args if x.op == op else [x])
    consts = [x for x in flat if is_num(x)]
    out = {x for x in flat if not is_num(x)}
    if consts:
        f = max if op == 'max' else min
        out.add(num(f(x.args[1] for x in consts)))
        low = num(f(x.args[1] for x in consts))
        if low.args[1] < 1 and len(out) > 1 and any(positive(x) for x in out if x is not low):
            # counts are at least one
            out = {low} if op == 'min' and all(positive(x) for x in out if x is not low) else out - {low} if op == 'max' else out
    if len(out) == 1:
        return next(iter(out))
    return raw(op, *sorted(out, key=lambda t: t.uid))


# ---------------------------------------------------------------- booleans
BOOLOPS = {'not', 'and', 'eq', 'lt', 'is', 'in', 'truthy', 'typeis', 'isinst', 'hasattr', 'exc', 'exists', 'callable'}
ATOMOPS = BOOLOPS - {'not', 'and'}


def is_bool(t):
    return t.op in BOOLOPS or t is TRUE or t is FALSE or (t.op == 'ite' and is_bool(t.args[1]) and is_bool(t.args[2]))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ite' and (is_bool(c.args[1]) or is_bool(c.args[2])):
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    if c.op == 'arr':
        return arr_map(not_, c)
    return raw('not', c)


def and_(*cs):
    out = []
    todo = list(cs)
    while todo:
        c = todo.pop(0)
        if c.op == 'arr':
            rest = out + todo
            r = c
            for x in rest:
                r2 = _bcast2(and_, r, x)
                r = r2 if r2 is not None else raw('and2', r, x)
            return r
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            todo = list(c.args) + todo
            continue
        if c not in out:
            out.append(c)
    if not out:
        return TRUE
    s = set(out)
    for c in out:
        if not_(c) in s:
            return FALSE
    lits = {}
    for c in out:
        if c.op == 'not' and c.args[0].op in ATOMOPS:
            lits[c.args[0]] = FALSE
        elif c.op in ATOMOPS:
            lits[c] = TRUE
    if lits and any(c.op not in ATOMOPS and not (c.op == 'not' and c.args[0].op in ATOMOPS) for c in out):
        new = []
        changed = False
        for c in out:
            if c.op in ATOMOPS or (c.op == 'not' and c.args[0].op in ATOMOPS):
                new.append(c)
            else:
                c2 = subst(c, {a: v for a, v in lits.items() if a in atoms(c)}) if atoms(c) & lits.keys() else c
                changed |= c2 is not c
                new.append(c2)
        if changed:
            return and_(*new)
    if len(out) == 1:
        return out[0]
    return raw('and', *sorted(out, key=lambda t: t.uid))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'arr' or ((a.op == 'arr' or b.op == 'arr') and not scalarcond(c)):
        r = bcast3(ite, c, a, b)
        if r is not None:
            return r
    if c.op == 'ite':
        if is_bool(c.args[1]) and is_bool(c.args[2]):
            return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if c.op in ATOMOPS:
        if c in atoms(a):
            a = subst(a, {c: TRUE})
        if c in atoms(b):
            b = subst(b, {c: FALSE})
        if a is b:
            return a
    if a is TRUE and (b is FALSE):
        return c
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    # max / min patterns
    if c.op == 'lt':
        if c.args == (a, b):
            return min_(a, b)
        if c.args == (b, a):
            return max_(a, b)
    return raw('ite', c, a, b)


def scalarcond(c):
    return c.op in BOOLOPS and not any(x.op in ('arr', 'elemwise') for x in subterms(c))


def _pn(a, b):
    """Split a-b into positive part and negated negative part (a rel b  <=>  P rel N)."""
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) - c
    d = {m: c for m, c in d.items() if c}
    return d


def _split(d):
    p = from_poly({m: c for m, c in d.items() if c > 0})
    n = from_poly({m: -c for m, c in d.items() if c < 0})
    return p, n


def _content(d):
    # divide by the absolute leading coefficient
    nonconst = [m for m in d if m != ()]
    if not nonconst:
        return d
    lead = min(nonconst, key=_mkey)
    k = abs(d[lead])
    return {m: c / k for m, c in d.items()}


NUMERIC = {'poly', 'abs', 'max', 'min', 'sum', 'fdiv', 'mod', 'pow', 'len'}


def _numericish(a, b):
    return a.op == 'poly' or b.op == 'poly'


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'arr' or b.op == 'arr':
        r = _bcast2(eq, a, b)
        if r is not None:
            return r
    if a.op == 'const' and b.op == 'const':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (is_const(y) or y.op in ('fn', 'cls', 'ext', 'sym', 'absent')):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if x.op == 'typeof':
            return typeis(x.args[0], y)
        if y.op == 'absent' and x.op not in ('var', 'bv', 'phival', 'fold', 'lastmatch', 'lastof', 'first', 'ite',
                                            'unk'):
            return FALSE
        if y.op == 'tdzero':
            if is_num(x):
                return FALSE
            if x.op == 'poly' and any(q is TDU for _, m in x.args for q, _ in m):
                return eq(x, ZERO)
        if y is NONE:
            return is_(x, NONE)
        if is_num(y) and x.op == 'sym' and TYPES.get(x) and TYPES[x] <= SPANS:
            return FALSE
        if x is INF and (y.op == 'const' or FINITE[0] and y.op != 'ite'):
            return FALSE
        if is_num(y) and y.args[1] < 1 and positive(x):
            return FALSE
        if x.op in ('max', 'min') and y in x.args:
            rest = [z for z in x.args if z is not y]
            rest = rest[0] if len(rest) == 1 else raw(x.op, *rest)
            return not_(lt(y, rest) if x.op == 'max' else lt(rest, y))
        if x.op == 'strcat' and (y.op == 'strcat' or is_str(y)):
            r = _streq(x, y)
            if r is not None:
                return r
        if x.op in ('seq', 'dict', 'dictc') and is_const(y):
            return FALSE
        if x.op == 'poly' and is_str(y):
            return FALSE
    if a.op == 'seq' and b.op == 'seq' and all(s.op == 'one' for s in a.args + b.args):
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x.args[0], y.args[0]) for x, y in zip(a.args, b.args)])
    if _fnlike(a) and _fnlike(b):
        return FALSE
    if _numericish(a, b):
        d = _content(_pn(a, b))
        if not d:
            return TRUE
        if list(d) == [()]:
            return FALSE
        lead = min(d, key=_mkey)
        nc = [m for m in d if m != ()]
        if list(d) == [((TDU, 1),)]:
            return FALSE
        lead = min(nc, key=_mkey)
        if d[lead] < 0:
            d = {m: -c for m, c in d.items()}
        a, b = _split(d)
    elif a.uid > b.uid:
        a, b = b, a
    return raw('eq', a, b)


def _fnlike(t):
    return t.op in ('fn', 'cls', 'ext')


def _streq(x, y):
    xs = list(x.args)
    ys = list(y.args) if y.op == 'strcat' else [y]
    changed = False
    while xs and ys:
        if xs[0] is ys[0]:
            xs.pop(0), ys.pop(0)
            changed = True
        elif is_str(xs[0]) and is_str(ys[0]):
            a, b = xs[0].args[1], ys[0].args[1]
            if a.startswith(b):
                ys.pop(0)
                xs[0] = string(a[len(b):])
            elif b.startswith(a):
                xs.pop(0)
                ys[0] = string(b[len(a):])
            else:
                return FALSE
            changed = True
        else:
            break
    while xs and ys:
        if xs[-1] is ys[-1]:
            xs.pop(), ys.pop()
            changed = True
        elif is_str(xs[-1]) and is_str(ys[-1]):
            a, b = xs[-1].args[1], ys[-1].args[1]
            if a.endswith(b):
                ys.pop()
                xs[-1] = string(a[:len(a) - len(b)])
            elif b.endswith(a):
                xs.pop()
                ys[-1] = string(b[:len(b) - len(a)])
            else:
                return FALSE
            changed = True
        else:
            break
    if not changed:
        return None
    xs, ys = strcat(*xs), strcat(*ys)
    return eq(xs, ys)


def lt(a, b):
    if a is b:
        return FALSE
    if a is TD0 and b.op == 'poly' or b is TD0 and a.op == 'poly':
        return lt(ZERO if a is TD0 else a, ZERO if b is TD0 else b)
    if a.op == 'arr' or b.op == 'arr':
        r = _bcast2(lt, a, b)
        if r is not None:
            return r
    if is_num(a) and is_num(b):
        return boolean(a.args[1] < b.args[1])
    if a in IDX and (IDX[a] is b or is_num(b) and b.args[1] <= 0):
        return TRUE if IDX[a] is b else FALSE
    if b in IDX and is_num(a) and a.args[1] < 0:
        return TRUE
    if b in IDX and IDX[b] is a:
        return FALSE
    if is_num(a) and positive(b) and a.args[1] < 1:
        return TRUE
    if is_num(b) and positive(a) and b.args[1] <= 1:
        return FALSE
    if _numericish(a, b):
        d = _content(_pn(a, b))
        if not [m for m in d if m != ()]:
            return boolean(d.get((), 0) < 0)
        if list(d) == [((TDU, 1),)]:
            return boolean(d[((TDU, 1),)] < 0)
        a, b = _split(d)
    return raw('lt', a, b)


def le(a, b):
    return not_(lt(b, a))


def positive(t):
    if t in POSITIVE:
        return True
    return t.op == 'poly' and all(c >= 1 and all(e > 0 and x in POSITIVE for x, e in m) for c, m in t.args)


def is_(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (y.op in ('const', 'cls', 'fn', 'ext', 'ref', 'absent')):
            return ite(x.args[0], is_(x.args[1], y), is_(x.args[2], y))
        if x.op == 'typeof':
            return typeis(x.args[0], y)
        if y is NONE and nonnull(x):
            return FALSE
        if y is NONE:
            return FALSE if x.op == 'const' else raw('is', x, NONE)
        if y.op == 'absent':
            return eq(x, y)
    if a.op == 'ref' and b.op == 'ref':
        return FALSE
    if a.op == 'ref' and _supplied(b) or b.op == 'ref' and _supplied(a):
        return FALSE
    if is_const(a) or is_const(b) or _fnlike(a) and _fnlike(b):
        return eq(a, b)
    if a.uid > b.uid:
        a, b = b, a
    return raw('is', a, b)


def _supplied(t):
    while t.op in ('attr', 'item', 'titem'):
        t = t.args[0]
    return t.op == 'sym' and t.args[0].startswith('in:')


# closed-world subclass relation, filled by the project loader: class term -> set of class terms (itself + subclasses)
SUBCLASSES: dict = {}
BUILTIN_OF = {'num': ('int', 'float'), 'str': ('str',), 'bool': ('bool',), 'none': ('NoneType',)}


def typeis(x, k):
    if x.op == 'ite':
        return ite(x.args[0], typeis(x.args[1], k), typeis(x.args[2], k))
    if k.op == 'ite':
        return ite(k.args[0], typeis(x, k.args[1]), typeis(x, k.args[2]))
    if k.op == 'typeof':
        a, b = sorted((x, k.args[0]), key=lambda t: t.uid)
        return raw('typeis', a, raw('typeof', b))
    kt = known_type(x)
    if kt is not None and k.op in ('cls', 'ext'):
        return boolean(kt is k) if kt.op != 'anyof' else (raw('typeis', x, k) if k in kt.args else FALSE)
    if k.op == 'ext' and k.args[0].startswith('builtins.') and all(t.startswith('cls:') for t in TYPES.get(x, '?')):
        return FALSE
    return raw('typeis', x, k)


TYNAME = {'timedelta': 'datetime.timedelta', 'Timedelta': 'pandas.Timedelta', 'dict': 'builtins.dict', 'list': 'builtins.list', 'str': 'builtins.str',
          'ndarray': 'numpy.ndarray', 'Series': 'pandas.Series', 'int': 'builtins.int', 'float': 'builtins.float', 'bool': 'builtins.bool',
          'float64': 'numpy.float64'}
TDU = raw('sym', 'num:second')
TD0 = raw('tdzero')
REFTYPE: dict = {}        # ref / term -> type term


def known_type(x):
    if x in REFTYPE:
        return REFTYPE[x]
    if x.op == 'const':
        n = BUILTIN_OF.get(x.args[0])
        if n:
            ts = [raw('ext', 'builtins.' + m) for m in n]
            if x.args[0] == 'num':
                return ts[0] if x.args[1].denominator == 1 else ts[1]
            return ts[0]
    if x.op == 'seq':
        return raw('ext', 'builtins.list')
    if x.op in ('dict', 'dictc'):
        return raw('ext', 'builtins.dict')
    if x.op == 'arr':
        return raw('ext', 'numpy.ndarray')
    if x.op in ('strcat',):
        return raw('ext', 'builtins.str')
    if x.op == 'series':
        return raw('ext', 'pandas.Series')
    if x.op == 'tdzero' or x.op == 'poly' and any(y is TDU for _, m in x.args for y, _ in m):
        return raw('ext', 'datetime.timedelta')
    ty = TYPES.get(x)
    if ty is not None and len(ty) == 1:
        n = TYNAME.get(next(iter(ty)))
        if n:
            return raw('ext', n)
    if x.op == 'obj':
        return x.args[0]
    if x.op == 'secs':
        return raw('ext', 'builtins.float')
    if x.op == 'poly' and any('secs' in ops(y) for _, m in x.args for y, _ in m) and all(
            _floatlike(y) for _, m in x.args for y, _ in m):
        return raw('ext', 'builtins.float')
    if x.op == 'elt' and x.args[0] in ELTTYPE:
        return raw('ext', TYNAME[ELTTYPE[x.args[0]]])
    return None


def column_type(C):
    """Types of the elements of a one-dimensional array of known kind."""
    while C.op == 'series':
        C = C.args[0]
    if C.op == 'arr' and len(C.args[0]) == 1:
        n = known_type(at(C, [fresh('ct')]))
        if n is not None and n.op == 'ext':
            return next((frozenset({k}) for k, v in TYNAME.items() if v == n.args[0]), None)
    return None


def _floatlike(y):
    if y.op == 'ite':
        return _floatlike(y.args[1]) and _floatlike(y.args[2])
    if y.op == 'poly':
        return all(_floatlike(z) for _, m in y.args for z, _ in m)
    return y.op == 'secs' or is_num(y) or (TYPES.get(y) or {'?'}) <= {'int', 'float'}


def isinst(x, k):
    if k.op == 'seq':
        return or_(*[isinst(x, s.args[0]) for s in k.args])
    subs = SUBCLASSES.get(k)
    if subs:
        return or_(*[typeis(x, s) for s in sorted(subs, key=lambda t: t.uid)])
    kt = known_type(x)
    if kt is not None and kt.op in ('cls', 'ext'):
        if kt is k:
            return TRUE
        if kt.op == 'ext' and kt.args[0] == 'numpy.float64' and k.op == 'ext':
            if k.args[0] in ('builtins.float', 'numpy.generic', 'numpy.number', 'numpy.floating', 'numbers.Number', 'numbers.Real'):
                return TRUE
            if k.args[0].startswith('builtins.'):
                return FALSE
        if kt.op == 'ext' and k.op == 'ext' and kt.args[0].startswith('builtins.') and k.args[0].startswith('builtins.'):
            return FALSE
    return raw('isinst', x, k)


def nonempty(s):
    """A sequence with at least one element on every branch."""
    if s.op == 'ite':
        return nonempty(s.args[1]) and nonempty(s.args[2])
    return s.op == 'seq' and any(g.op == 'one' or g.op == 'cond' and nonempty(g.args[1]) and nonempty(g.args[2]) for g in s.args)


def truthy(x):
    if x is TRUE or x is FALSE or x.op in BOOLOPS:
        return x
    if x.op == 'const':
        return boolean(bool(x.args[1]))
    if x.op == 'ite':
        return ite(x.args[0], truthy(x.args[1]), truthy(x.args[2]))
    if x.op in ('fn', 'cls', 'ext', 'clo', 'bound', 'module', 'partial'):
        return TRUE
    if x.op == 'seq':
        if any(s.op == 'one' for s in x.args):
            return TRUE
        if not x.args:
            return FALSE
        if len(x.args) == 1 and x.args[0].op == 'cmapseg' and nonempty(x.args[0].args[1].args[1]):
            return truthy(x.args[0].args[0])
        if all(g.op == 'splice' or g.op == 'cond' or g.op == 'cmapseg' and g.args[1].args[1].op == 'seq' for g in x.args):
            r = FALSE
            for g in x.args:
                if g.op == 'splice':
                    v = truthy(g.args[0])
                elif g.op == 'cond':
                    v = ite(g.args[0], truthy(g.args[1]), truthy(g.args[2]))
                else:
                    z = fresh('ne')
                    v = exists(g.args[0], lam(z, truthy(beta(g.args[1], z))))
                r = or_(r, v)
            return r
    if x.op == 'dictc':
        return boolean(bool(x.args))
    if x.op == 'len':
        return truthy(x.args[0])
    if x.op == 'obj':
        return TRUE
    if x.op == 'strcat' and any(is_str(a) and a.args[1] for a in x.args):
        return TRUE
    ty = TYPES.get(x)
    if ty is not None and '?' not in ty:
        if ty <= {'bool'}:
            return raw('truthy', x)
        if ty <= {'str'}:
            return not_(eq(x, string('')))
        if all(t == 'None' or t.startswith('cls:') or t in ('Callable', 'obj') for t in ty):
            return not_(is_(x, NONE))
    if x.op == 'ref':
        k = REFTYPE.get(x)
        if k is not None and k.op == 'cls':
            return TRUE
    if x.op == 'poly':
        return not_(eq(x, ZERO))
    return raw('truthy', x)


# ---------------------------------------------------------------- strings
def strcat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'strcat' else (p,)
        for q in ps:
            if is_num(q):
                q = string(str(q.args[1]))
            if is_str(q):
                if not q.args[1]:
                    continue
                if out and is_str(out[-1]):
                    out[-1] = string(out[-1].args[1] + q.args[1])
                    continue
            out.append(q)
    if not out:
        return string('')
    if len(out) == 1 and (is_str(out[0])):
        return out[0]
    if len(out) == 1:
        return out[0]
    return raw('strcat', *out)


# ---------------------------------------------------------------- binders
def lam(var, body):
    n = body.bh + 1
    return raw('lam', n, subst(body, {var: raw('bv', n)}))


def beta(l, arg):
    if l.op == 'lam':
        return subst(l.args[1], {raw('bv', l.args[0]): arg})
    raise Budget('beta on ' + l.op)


_level = 0


def subst(t, m):
    """Replace whole subterms; renormalises through the smart constructors."""
    if not m or not _may_occur(t, m):
        return t
    memo = {}
    return _subst(t, m, memo)


def _may_occur(t, m):
    fv = t.fv
    for k in m:
        if not k.fv & ~fv:
            return True
    return False


def _subst_arg(a, m, memo):
    if type(a) is Term:
        return _subst(a, m, memo)
    if type(a) is tuple:
        return tuple(_subst_arg(x, m, memo) for x in a)
    return a


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in LEAF or not _may_occur(t, m):
        return t
    if t.op == 'lam':
        global _level
        _level += 1
        z = raw('var', f'#{_level}')
        try:
            body = _subst(t.args[1], {raw('bv', t.args[0]): z}, {})
            nb = _subst(body, m, {})
            r = t if nb is body else lam(z, nb)
        finally:
            _level -= 1
    else:
        args = tuple(_subst_arg(a, m, memo) for a in t.args)
        r = t if args == t.args else rebuild(t.op, args)
    memo[t] = r
    return r


LEAF = {'const', 'sym', 'var', 'ref', 'fn', 'cls', 'ext', 'bv', 'clo', 'absent', 'undef', 'module'}


def rebuild(op, args):
    f = BUILD.get(op)
    return f(*args) if f else raw(op, *args)


def rewrite(t, f, memo=None):
    """Bottom-up map over t (binders opened); f returns a replacement or None."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in LEAF:
        r = t
    elif t.op == 'lam':
        z = fresh('rw')
        body = beta(t, z)
        nb = rewrite(body, f, {})
        r = t if nb is body else lam(z, nb)
    else:
        args = tuple(_rw_arg(a, f, memo) for a in t.args)
        r = t if args == t.args else rebuild(t.op, args)
    g = f(r)
    r = r if g is None else g
    memo[t] = r
    return r


def _rw_arg(a, f, memo):
    if type(a) is Term:
        return rewrite(a, f, memo)
    if type(a) is tuple:
        return tuple(_rw_arg(x, f, memo) for x in a)
    return a


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x.args))


def contains(t, what):
    return any(x is what for x in subterms(t))


def ops(t):
    if t._ops is None:
        t._ops = frozenset(x.op for x in subterms(t))
    return t._ops


def atoms(t):
    """Closed atoms (branch conditions) occurring in t, not depending on variables bound inside t."""
    if t._atoms is None:
        if t.op in LEAF:
            t._atoms = EMPTY
        elif t.op == 'lam':
            b = raw('bv', t.args[0])
            t._atoms = frozenset(a for a in atoms(t.args[1]) if not contains(a, b))
        else:
            s = set()
            for c in children(t.args):
                s |= atoms(c)
            if t.op in ATOMOPS:
                s.add(t)
            t._atoms = frozenset(s) if s else EMPTY
    return t._atoms


# ---------------------------------------------------------------- sequences
# seq(*segments); segment = one(v) | splice(X) | cmap(C, lam b. seq) | cond(c, seq, seq) | other opaque segments
def seq(*segs):
    out = []
    for s in segs:
        if s.op == 'splice':
            x = s.args[0]
            if x.op == 'seq':
                out.extend(x.args)
                continue
            if x.op == 'ite':
                s = cond_seg(x.args[0], seq_of(x.args[1]), seq_of(x.args[2]))
                if s is None:
                    continue
            elif x.op == 'dictc':
                out.extend(raw('one', k) for k, _ in x.args)
                continue
            elif x.op == 'keys':
                s = splice(x.args[0]) if x.args[0].op not in ('dict',) else s
        if s.op == 'seq':
            out.extend(s.args)
            continue
        if s.op == 'cmapseg':
            r = cmap(s.args[0], s.args[1])
            if r.op == 'seq':
                out.extend(r.args)
                continue
        if s.op == 'cond':
            r = cond_seg(*s.args)
            if r is None:
                continue
            if r.op == 'seq':
                out.extend(r.args)
                continue
            s = r
        out.append(s)
    return raw('seq', *out)


NIL = raw('seq')


def one(v):
    return raw('one', v)


def splice(x):
    return raw('splice', x)


def seq_of(x):
    """Sequence term holding the elements of x in order."""
    if x.op == 'seq':
        return x
    return seq(splice(x))


def cond_seg(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return cond_seg(c.args[0], b, a)
    return raw('cond', c, a, b)


def mklist(*vals):
    return seq(*[one(v) for v in vals])


def cmap(C, l):
    """Concat-map: l is lam b. seq."""
    z = fresh('cm')
    body = seq_of(beta(l, z))
    if body is NIL:
        return NIL
    if body is seq(one(z)):
        return seq_of(C)
    C = seq_of(C) if C.op in ('seq', 'ite', 'dictc', 'keys') else C
    if C.op == 'seq':
        if len(C.args) == 1 and C.args[0].op == 'splice':
            C = C.args[0].args[0]
        else:
            return seq(*[_cmap_seg(s, l) for s in C.args])
    return raw('seq', raw('cmapseg', C, canon_lam(z, body)))


def _cmap_seg(s, l):
    if s.op == 'one':
        return seq_of(beta(l, s.args[0]))
    if s.op == 'splice':
        return cmap(s.args[0], l)
    if s.op == 'cond':
        c = cond_seg(s.args[0], cmap(s.args[1], l), cmap(s.args[2], l))
        return c if c.op == 'seq' else seq(c)
    if s.op == 'cmapseg':
        z = fresh('cm')
        return cmap(s.args[0], lam(z, cmap(seq_of(beta(s.args[1], z)), l)))
    return raw('seq', raw('cmapseg', seq(s), l))


def canon_lam(z, body):
    try:
        body = canon(body)
    except Budget:
        pass
    return lam(z, body)


def seq_sum(s):
    """Numeric sum of the elements of a sequence."""
    total = ZERO
    for g in seq_of(s).args:
        if g.op == 'one':
            total = add(total, g.args[0])
        elif g.op == 'cond':
            total = add(total, ite(g.args[0], seq_sum(g.args[1]), seq_sum(g.args[2])))
        elif g.op == 'cmapseg':
            z = fresh('sm')
            total = add(total, sum_over(g.args[0], lam(z, seq_sum(beta(g.args[1], z)))))
        elif g.op == 'splice':
            z = fresh('sm')
            total = add(total, sum_over(g.args[0], lam(z, z)))
        else:
            total = add(total, raw('sumseg', g))
    return total


def sum_over(C, l):
    z = fresh('sm')
    body = beta(l, z)
    if body is ZERO:
        return ZERO
    if C.op == 'seq':
        return seq_sum(cmap(C, lam(z, seq(one(body)))))
    if is_num(body):
        return mul(body, length(C))
    return raw('sum', C, canon_lam(z, body))


def length(x):
    if x.op == 'seq':
        n = ZERO
        for g in x.args:
            if g.op == 'one':
                n = add(n, ONE)
            elif g.op == 'splice':
                n = add(n, length(g.args[0]))
            elif g.op == 'cond':
                n = add(n, ite(g.args[0], length(g.args[1]), length(g.args[2])))
            elif g.op == 'cmapseg':
                z = fresh('ln')
                n = add(n, sum_over(g.args[0], lam(z, length(seq_of(beta(g.args[1], z))))))
            else:
                return raw('len', x)
        return n
    if x.op == 'dictc':
        return num(len(x.args))
    if x.op == 'arr':
        return x.args[0][0] if x.args[0] else raw('len', x)
    if is_str(x):
        return num(len(x.args[1]))
    if x.op == 'range':
        return sub(x.args[1], x.args[0]) if x.args[2] is ONE else raw('len', x)
    if x.op == 'keys':
        return length(x.args[0])
    if x.op == 'ite':
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op == 'map':
        return length(x.args[0])
    return raw('len', x)


def exists(C, l):
    z = fresh('ex')
    body = beta(l, z)
    if body is FALSE:
        return FALSE
    if C.op == 'ite':
        return ite(C.args[0], exists(C.args[1], l), exists(C.args[2], l))
    if C.op in ('seq', 'dictc', 'keys', 'map'):
        C = seq_of(C)
    if C.op == 'seq':
        out = []
        for g in C.args:
            if g.op == 'one':
                out.append(beta(l, g.args[0]))
            elif g.op == 'splice':
                out.append(_exists1(g.args[0], z, body))
            elif g.op == 'cond':
                out.append(ite(g.args[0], exists(g.args[1], l), exists(g.args[2], l)))
            elif g.op == 'cmapseg':
                y = fresh('ex')
                out.append(exists(g.args[0], lam(y, exists(seq_of(beta(g.args[1], y)), l))))
            else:
                out.append(raw('exists', seq(g), l))
        return or_(*out)
    return _exists1(C, z, body)


def _exists1(C, z, body):
    # conjuncts that do not mention the element move out
    if body.op == 'and':
        inn = [c for c in body.args if contains(c, z)]
        out = [c for c in body.args if not contains(c, z)]
        if out:
            return and_(*out, _exists1(C, z, and_(*inn)))
    if not contains(body, z) and body is not TRUE:
        return and_(body, _exists1(C, z, TRUE))
    if body.op == 'and':
        for c in body.args:
            if c.op == 'eq' and z in c.args:
                s = c.args[1] if c.args[0] is z else c.args[0]
                if not contains(s, z):
                    return and_(in_(s, C), *[subst(x, {z: s}) for x in body.args if x is not c])
    if body.op == 'eq' and body.args[0] is z and not contains(body.args[1], z):
        return in_(body.args[1], C)
    if body.op == 'eq' and body.args[1] is z and not contains(body.args[0], z):
        return in_(body.args[0], C)
    if body is TRUE:
        return truthy(C)
    if C.op in ('sym', 'var') or True:
        return raw('exists', C, canon_lam(z, body))


def in_(k, C):
    if C.op == 'scopy':
        return in_(k, C.args[1])
    if C.op == 'ite':
        return ite(C.args[0], in_(k, C.args[1]), in_(k, C.args[2]))
    if C.op == 'seq':
        z = fresh('in')
        return exists(C, lam(z, eq(z, k)))
    if C.op == 'dictc':
        return or_(*[eq(k, x) for x, _ in C.args])
    if C.op == 'dict':
        return not_(eq(beta(C.args[0], k), ABSENT))
    if C.op == 'keys':
        return in_(k, C.args[0])
    if C.op == 'cmapseg':
        return in_(k, seq(C))
    if C.op == 'set':
        return in_(k, C.args[0])
    if C.op == 'range' and C.args[2] is ONE:
        return and_(le(C.args[0], k), lt(k, C.args[1]))
    if C.op == 'map':
        z = fresh('in')
        return exists(C.args[0], lam(z, eq(beta(C.args[1], z), k)))
    if k.op == 'elemof' and k.args[0] is C:
        return TRUE
    if k.op == 'ite' and is_const(k.args[1]) and is_const(k.args[2]):
        return ite(k.args[0], in_(k.args[1], C), in_(k.args[2], C))
    return raw('in', k, C)


# ---------------------------------------------------------------- dictionaries
# dictc(((k, v), ...)) with constant keys in insertion order;  dict(lam k. value-or-ABSENT)
def dict_lookup(d, k):
    if d.op == 'dictc':
        r = ABSENT
        for kk, v in reversed(d.args):
            r = ite(eq(k, kk), v, r)
        return r
    if d.op == 'dict':
        return beta(d.args[0], k)
    if d.op == 'ite':
        return ite(d.args[0], dict_lookup(d.args[1], k), dict_lookup(d.args[2], k))
    return ite(in_(k, d), item(d, k), ABSENT)


def mkdict(l):
    if l.op != 'lam':
        return raw('dict', l)
    z = fresh('dk')
    body = beta(l, z)
    # eta: lam k. ite(k in X, X[k], ABSENT) is X itself
    if body.op == 'ite' and body.args[2] is ABSENT and body.args[0].op == 'in' and body.args[0].args[0] is z:
        X = body.args[0].args[1]
        if body.args[1].op in ('item', 'titem') and body.args[1].args[:2] == (X, z):
            return X
        v = item(X, z)
        if v is body.args[1]:
            return X
    try:
        body = canon(body)
    except Budget:
        pass
    return raw('dict', lam(z, body))


def as_lamdict(d):
    z = fresh('dk')
    return mkdict(lam(z, dict_lookup(d, z)))


FRAMECOL = [lambda x, k: None]


def _of_state(t):
    """Values held by a simulation state: always one array per parameter or mechanism, indexed lot, chip, device."""
    while t.op in ('item', 'titem', 'dcopy', 'scopy', 'lookup'):
        t = t.args[0]
    return t.op == 'attr' and any(a in ('curr_prm_vals', 'init_prm_vals', 'curr_deg_mech_vals', 'init_deg_mech_vals')
                                  or isinstance(a, Term) and is_str(a) and a.args[1] in ('curr_prm_vals', 'init_prm_vals')
                                  for a in t.args[1:])


def item(o, k):
    if o.op == 'frames' and is_str(k):
        c = FRAMECOL[0](o, k)
        if c is not None:
            return c
    if o.op == 'scopy':
        return item(o.args[1], k)
    if o.op == 'ite':
        return ite(o.args[0], item(o.args[1], k), item(o.args[2], k))
    if o.op in ('dictc', 'dict'):
        r = dict_lookup(o, k)
        return strip_absent(r)
    if o.op == 'seq' and is_num(k) and all(s.op == 'one' for s in o.args):
        n = int(k.args[1])
        if -len(o.args) <= n < len(o.args):
            return o.args[n].args[0]
        return raw('badindex', o, k)
    if o.op == 'seq' and is_num(k) and k.args[1] >= 0:
        n = int(k.args[1])
        if n < len(o.args) and all(s.op == 'one' for s in o.args[:n + 1]):
            return o.args[n].args[0]
    if o.op == 'seq' and is_num(k) and k.args[1] < 0:
        n = -int(k.args[1])
        if n <= len(o.args) and all(s.op == 'one' for s in o.args[-n:]):
            return o.args[-n].args[0]
    if o.op == 'seq' and len(o.args) == 1 and o.args[0].op == 'splice':
        return item(o.args[0].args[0], k)
    if o.op == 'seq' and len(o.args) == 1 and o.args[0].op == 'cmapseg' and k.op == 'idxof':
        # positional access under an index of the same collection
        C, l = o.args[0].args
        b = k.args[0]
        if b in ELEMS and ELEMS[b] is C:
            body = seq_of(beta(l, b))
            if len(body.args) == 1 and body.args[0].op == 'one':
                return body.args[0].args[0]
    if o.op == 'map':
        return beta(o.args[1], item(o.args[0], k))
    if k.op == 'idxof' and ELEMS.get(k.args[0]) is o:
        return k.args[0]
    if o.op == 'arr':
        return index(o, (k,))
    if o.op == 'range' and o.args[2] is ONE:
        return add(o.args[0], k)
    if o.op == 'shapeof' and is_num(k):
        if k.args[1] < 0 and _of_state(o.args[0]):
            k = num(k.args[1] + 3)
        return raw('dim', o.args[0], k)
    spec = SPEC.get(o)
    if spec is not None and spec[0] in ('dict', 'list'):
        return titem(o, k, spec[1])
    return raw('item', o, k)


# declared shapes of scenario inputs:  ('t', typenames) | ('arr', dims) | ('dict', spec) | ('list', spec)
SPEC: dict = {}
ELTTYPE: dict = {}        # array -> type name of its elements


def declare(t, spec):
    """Value of scenario input t with the declared kind."""
    k = spec[0]
    if len(spec) > 2 and k in ('arr', 'series'):
        ELTTYPE[t] = spec[2]
    if k == 'arr':
        return mkarr(spec[1], lambda *ix: raw('elt', t, tuple(ix)))
    if k == 'series':
        return raw('series', mkarr(spec[1], lambda *ix: raw('elt', t, tuple(ix))))
    if k == 't':
        TYPES[t] = frozenset(spec[1])
    elif k == 'is':
        TYPES[t] = frozenset({'cls:' + spec[1]})
        REFTYPE[t] = raw('cls', spec[1])
    elif k in ('dict', 'list'):
        TYPES[t] = frozenset({k})
        SPEC[t] = spec
    return t


def titem(o, k, spec):
    return declare(raw('titem', o, k, spec), spec)


def _b_titem(o, k, spec):
    if o.op in ('titem', 'sym', 'var') or spec[0] not in ('arr', 'series'):
        t = raw('titem', o, k, spec)
        return t if spec[0] in ('arr', 'series') else declare(t, spec)
    return item(o, k)


def _b_elt(t, ix):
    if t.op == 'arr':
        return at(t, ix)
    if t.op == 'ite':
        return ite(t.args[0], _b_elt(t.args[1], ix), _b_elt(t.args[2], ix))
    return raw('elt', t, ix)


def strip_absent(t):
    """Value of a lookup that is known to succeed: drop the absent leaves."""
    if t.op == 'ite':
        a, b = strip_absent(t.args[1]), strip_absent(t.args[2])
        if a is ABSENT:
            return b
        if b is ABSENT:
            return a
        return ite(t.args[0], a, b)
    return t


ELEMS: dict = {}          # loop element variable -> collection it ranges over


def idxof(b):
    if b in ELEMS and ELEMS[b].op == 'range':
        C = ELEMS[b]
        if C.args[2] is ONE:
            return sub(b, C.args[0])
    return raw('idxof', b)


# ---------------------------------------------------------------- arrays
# arr(shape tuple, body as nested lam over one index variable per axis)
def mkarr(shape, f):
    shape = tuple(shape)
    if LAZY[0] and not shape:
        return f()
    vs = [fresh('ix') for _ in shape]
    for v, d in zip(vs, shape):
        IDX[v] = d
    args = [ZERO if d is ONE else v for v, d in zip(vs, shape)]
    body = f(*args)
    for v in reversed(vs):
        body = lam(v, body)
    return raw('arr', shape, body)


def at(a, idx):
    body = a.args[1]
    for i in idx:
        body = beta(body, i)
    return body


def rebuild_arr(shape, body):
    if any(d.op == 'ite' for d in shape):
        return raw('arr', shape, body)
    a = raw('arr', shape, body)
    return mkarr(shape, lambda *ix: at(a, ix))


def bshape(sa, sb):
    n = max(len(sa), len(sb))
    sa = (ONE,) * (n - len(sa)) + tuple(sa)
    sb = (ONE,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(sa, sb):
        if x is y:
            out.append(x)
        elif x is ONE:
            out.append(y)
        elif y is ONE:
            out.append(x)
        else:
            return None
    return tuple(out)


def bat(a, idx):
    """Element of a after broadcasting to an index of >= its rank."""
    sh = a.args[0]
    idx = idx[len(idx) - len(sh):]
    return at(a, [ZERO if d is ONE else i for d, i in zip(sh, idx)])


def scalar(t):
    """Known to be a scalar (0-d) numeric value."""
    if is_const(t):
        return True
    ty = TYPES.get(t)
    if ty is not None and ty and ty <= {'int', 'float', 'bool', 'None', 'str', 'timedelta', 'float64'}:
        return True
    if t.op == 'poly':
        return all(scalar(x) for _, m in t.args for x, _ in m)
    if t.op in ('len', 'dim', 'idxof', 'bidx', 'secs', 'anyof', 'asum', 'amax', 'amin', 'amean', 'aprod', 'amedian', 'astd', 'avar'):
        return True
    if t.op in BOOLOPS or t.op in ('ite', 'sel', 'abs', 'pow', 'log', 'max', 'min', 'fdiv', 'mod'):
        return all(scalar(c) for c in children(t.args))
    if t.op == 'elt':
        return True
    if t.op in ('sym', 'var') and t.args[0].startswith(('num:', 'ix', '#')) or t is TD0:
        return True
    return False


def shape_of(t):
    if t.op == 'arr':
        return t.args[0]
    if scalar(t):
        return ()
    return None


def surely_bad(t):
    """A combination of shapes that fails whatever the symbolic sizes are."""
    a, b = t.args[0], t.args[1]
    if len(t.args) == 2 and b.op == 'seq' and a.op == 'arr':
        n, m = size_of(a.args[0]), size_of([g.args[0] for g in b.args])
        return is_num(n) and is_num(m) and n is not m
    if a.op == 'fullof':
        return False
    shapes = [shape_of(x) for x in t.args]
    if any(s is None for s in shapes):
        return False
    for s in shapes:
        for r in shapes:
            for x, y in zip(reversed(s), reversed(r)):
                if is_num(x) and is_num(y) and x is not y and x is not ONE and y is not ONE:
                    return True
    return False


def shapes_clash(t):
    """Condition under which arrays of these shapes cannot be combined."""
    a, b = t.args[0], t.args[1]
    if len(t.args) == 2 and b.op == 'seq' and a.op == 'arr':
        ds = [g.args[0] for g in b.args if g.op == 'one']
        if len(ds) < len(b.args) or any(d.op in ('badindex', 'none') or is_str(d) for d in ds):
            return None
        return not_(eq(size_of(a.args[0]), size_of(ds)))
    if a.op == 'fullof' or len(t.args) == 2 and b.op == 'seq':
        return None
    shapes = [shape_of(x) for x in t.args]
    if any(s is None for s in shapes):
        return None
    bad = FALSE
    for i, s in enumerate(shapes):
        for r in shapes[:i]:
            for x, y in zip(reversed(s), reversed(r)):
                if x is not y and x is not ONE and y is not ONE:
                    bad = or_(bad, and_(not_(eq(x, y)), not_(eq(x, ONE)), not_(eq(y, ONE))))
    return bad


def bcast_split(f, xs, shapes):
    """Two arrays whose sizes differ along one symbolic axis: combined where one of the sizes is one or they agree."""
    bad = raw('badshape', *xs)
    pairs = {(x, y) for i, s in enumerate(shapes) for r in shapes[:i] for x, y in zip(reversed(s), reversed(r))
             if x is not y and x is not ONE and y is not ONE}
    if len(pairs) != 1 or len(xs) != 2 or any(x.op != 'arr' for x in xs):
        return bad
    (x, y), = pairs
    if x.op != 'sym' or y.op != 'sym':
        return bad

    def sized(d, e):
        return [raw('arr', tuple(e if n is d else n for n in a.args[0]), a.args[1]) for a in xs]
    return ite(eq(x, ONE), bcast_n(f, *sized(x, ONE)), ite(eq(y, ONE), bcast_n(f, *sized(y, ONE)), ite(
        eq(x, y), bcast_n(f, *sized(x, y)), bad)))


def bcast_n(f, *xs):
    shapes = [shape_of(x) for x in xs]
    if any(s is None for s in shapes):
        return None
    sh = ()
    for s in shapes:
        sh = bshape(sh, s)
        if sh is None:
            return bcast_split(f, xs, shapes)
    return mkarr(sh, lambda *ix: f(*[bat(x, ix) if x.op == 'arr' else x for x in xs]))


def _bcast2(f, a, b):
    return bcast_n(f, a, b)


def bcast3(f, a, b, c):
    return bcast_n(f, a, b, c)


def arr_map(f, a):
    return mkarr(a.args[0], lambda *ix: f(at(a, ix)))


def elementwise(f, *xs):
    if any(x.op == 'arr' for x in xs):
        r = bcast_n(f, *xs)
        if r is not None:
            return r
    return f(*xs)


def size_of(shape):
    n = ONE
    for d in shape:
        n = mul(n, d)
    return n


def ravel(a):
    """1-D array in C order."""
    shape = a.args[0]
    n = size_of(shape)

    def f(k):
        idx = []
        strides = []
        st = ONE
        for d in reversed(shape):
            strides.append(st)
            st = mul(st, d)
        strides = list(reversed(strides))
        for d, s in zip(shape, strides):
            q = fdiv(k, s)
            idx.append(ZERO if d is ONE else mod(q, d))
        return at(a, idx)
    if len(shape) == 1:
        return a
    return mkarr((n,), f)


def reshape(a, newshape):
    sh = a.args[0]
    n = size_of(sh)
    newshape = list(newshape)
    for i, d in enumerate(newshape):
        if is_num(d) and d.args[1] == -1:
            rest = size_of([x for j, x in enumerate(newshape) if j != i])
            newshape[i] = div(n, rest)
    if size_of(newshape) is not n:
        return raw('badshape', a, seq(*[one(d) for d in newshape]))
    # drop/insert unit axes without going through the flat index
    if [d for d in sh if d is not ONE] == [d for d in newshape if d is not ONE]:
        def f(*ix):
            full = [i for i, d in zip(ix, newshape) if d is not ONE]
            it = iter(full)
            return at(a, [ZERO if d is ONE else next(it) for d in sh])
        return mkarr(newshape, f)
    flat = ravel(a)

    def g(*ix):
        k = ZERO
        for i, d in zip(ix, newshape):
            k = add(mul(k, d), i)
        return at(flat, [k])
    return mkarr(newshape, g)


def index(a, keys):
    """a[keys]: keys are Terms or ('slice', lo, hi, step) / NEWAXIS / ELLIPSIS markers."""
    if a.op != 'arr':
        return raw('index', a, tuple(keys))
    sh = list(a.args[0])
    keys = list(keys)
    nk = sum(1 for k in keys if not (type(k) is str and k == 'newaxis') and not (type(k) is str and k == '...'))
    if '...' in [k for k in keys if type(k) is str]:
        i = [j for j, k in enumerate(keys) if type(k) is str and k == '...'][0]
        keys[i:i + 1] = [('slice', NONE, NONE, NONE)] * (len(sh) - nk)
    else:
        keys += [('slice', NONE, NONE, NONE)] * (len(sh) - nk)
    out, plan, ax = [], [], 0
    for k in keys:
        if type(k) is str:
            out.append(ONE)
            continue
        if ax >= len(sh):
            return raw('badindex', a)
        if type(k) is tuple:
            _, lo, hi, step = k
            if is_num(step) and step.args[1] == -1 and lo is NONE and hi is NONE:
                plan.append(('r', len(out), sub(sh[ax], ONE)))
                out.append(sh[ax])
                ax += 1
                continue
            if step is not NONE and step is not ONE:
                return raw('index', a, tuple(keys))
            lo = ZERO if lo is NONE else lo
            if lo is not ZERO:
                if is_num(lo) and lo.args[1] < 0:
                    return raw('index', a, tuple(keys))
            d = sh[ax]
            if hi is NONE:
                n = sub(d, lo)
            else:
                if is_num(hi) and hi.args[1] < 0:
                    n = sub(add(d, hi), lo)
                else:
                    n = sub(min_(hi, d), lo)
            plan.append(('s', len(out), lo))
            out.append(n)
        elif type(k) is Term and k.op in ('arr', 'seq'):
            return raw('index', a, tuple(keys))
        else:
            if is_num(k) and k.args[1] < 0:
                k = add(sh[ax], k)
            plan.append(('i', k))
        ax += 1

    def f(*ix):
        idx = []
        for p in plan:
            idx.append(p[1] if p[0] == 'i' else sub(p[2], ix[p[1]]) if p[0] == 'r' else add(ix[p[1]], p[2]))
        return at(a, idx)
    if not out:
        return f()
    return mkarr(out, f)


# ---------------------------------------------------------------- rebuild table
def _b_seq(*segs):
    return seq(*segs)


BUILD = {
    'titem': _b_titem, 'elt': _b_elt,
    'poly': lambda *ms: _repoly(ms),
    'not': not_, 'and': and_, 'ite': ite, 'eq': eq, 'lt': lt, 'is': is_, 'in': in_, 'truthy': truthy,
    'typeis': typeis, 'isinst': isinst, 'strcat': strcat, 'seq': _b_seq, 'exists': exists, 'sum': sum_over,
    'len': length, 'pow': power, 'abs': abs_, 'fdiv': fdiv, 'mod': mod, 'max': max_, 'min': min_,
    'dict': lambda l: mkdict(l), 'item': item, 'arr': rebuild_arr, 'mulx': mul,
    'idxof': lambda b: idxof(b) if b.op in ('var', 'bv') else raw('idxof', b),
}


def _repoly(ms):
    tot = ZERO
    for c, m in ms:
        x = num(c)
        for t, e in m:
            b = t
            if e < 0:
                b = inv(b)
            for _ in range(abs(e)):
                x = mul(x, b)
        tot = add(tot, x)
    if tot is ZERO and any(t is TDU for _, m in ms for t, _ in m):
        return TD0
    return tot


# ---------------------------------------------------------------- assumptions, canonical form, equality
def implied(a, atom, val):
    """Truth value of atom a given atom=val, or None."""
    if a is atom:
        return val
    o, p = a.op, atom.op
    if val:
        if p == 'typeis' and o == 'typeis' and a.args[0] is atom.args[0] and 'typeof' not in (
                a.args[1].op, atom.args[1].op):
            return False
        if p in ('typeis', 'isinst', 'truthy', 'in') and o == 'is' and a.args[1] is NONE:
            if p == 'in':
                return False if atom.args[1] is a.args[0] else None
            if a.args[0] is atom.args[0]:
                k = atom.args[1] if len(atom.args) > 1 else None
                if k is not None and k.op == 'ext' and k.args[0] == 'builtins.NoneType':
                    return True
                return False
        if p == 'lt':
            if o == 'lt' and a.args == (atom.args[1], atom.args[0]):
                return False
            if o == 'eq' and set(a.args) == set(atom.args):
                return False
            if o == 'truthy' and atom.args == (ZERO, a.args[0]):
                return True
        if p == 'eq' and o == 'lt' and set(a.args) == set(atom.args):
            return False
        if p == 'isinst' and o == 'isinst' and a.args[0] is atom.args[0]:
            if (atom.args[1], a.args[1]) in EXTSUB:
                return True
        if p == 'in' and o == 'truthy' and a.args[0] is atom.args[1]:
            return True
        if p == 'exists' and o == 'truthy' and a.args[0] is atom.args[0]:
            return True
        if p == 'truthy' and o == 'eq' and a.args[0] is ZERO and a.args[1] is atom.args[0]:
            return False
        if p == 'truthy' and o == 'eq' and a.args[1] is ZERO and a.args[0] is atom.args[0]:
            return False
        if p == 'hasattr' and o == 'is' and a.args[1] is NONE and a.args[0] is atom.args[0]:
            return False
    else:
        if p == 'isinst' and o == 'isinst' and a.args[0] is atom.args[0]:
            if (a.args[1], atom.args[1]) in EXTSUB:
                return False
        if p == 'truthy' and o in ('in', 'exists') and a.args[1 if o == 'in' else 0] is atom.args[0]:
            return False
        if p == 'truthy' and o == 'typeis' and a.args[0] is atom.args[0] and a.args[1].op == 'cls':
            return False
    return None


EXTSUB = set()            # (sub, super) pairs of external classes


def _e(n):
    return raw('ext', n)


EXTSUB.add((_e('logging.FileHandler'), _e('logging.StreamHandler')))
EXTSUB.add((_e('pandas.Timedelta'), _e('datetime.timedelta')))
SUBCLASSES[_e('datetime.timedelta')] = {_e('datetime.timedelta'), _e('pandas.Timedelta')}
for _n in ('builtins.dict', 'builtins.list', 'builtins.str', 'numpy.ndarray', 'builtins.tuple', 'pandas.Series',
           'builtins.int', 'builtins.float', 'pandas.DataFrame', 'builtins.set'):
    SUBCLASSES[_e(_n)] = {_e(_n)}


def replacement(atom, val):
    m = {atom: boolean(val)}
    if val and atom.op in ('eq', 'is'):
        a, b = atom.args
        if is_const(b) and not is_const(a) and a.op != 'poly':
            m[a] = b
        elif is_const(a) and not is_const(b) and b.op != 'poly':
            m[b] = a
        elif atom.op == 'eq' and not is_const(a) and a.op in ('var', 'bv', 'sym') and not contains(b, a) and b.op in (
                'var', 'bv', 'sym'):
            x, y = sorted((a, b), key=lambda t: t.uid)
            m[y] = x
    if not val and atom.op == 'truthy' and (ty := TYPES.get(atom.args[0])) and ty <= {'float', 'int'}:
        m[atom.args[0]] = ZERO
    if not val and atom.op == 'truthy' and atom.args[0].op == 'seq':
        for s in atom.args[0].args:
            if s.op in ('cmapseg', 'splice', 'cond'):
                m[s] = NIL
    return m


def assume(t, atom, val):
    m = replacement(atom, val)
    for a in atoms(t):
        if a not in m:
            v = implied(a, atom, val)
            if v is not None:
                m[a] = boolean(v)
    order_facts(t, atom, val, m)
    return subst(t, m)


def order_facts(t, atom, val, m):
    """x < y decides max/min terms over x and y."""
    if atom.op == 'lt' and ops(t) & {'max', 'min'}:
        small, big = atom.args if val else atom.args[::-1]
        for x in subterms(t):
            if x.op in ('max', 'min') and small in x.args and big in x.args and x not in m:
                rest = [y for y in x.args if y is not (small if x.op == 'max' else big)]
                m[x] = rest[0] if len(rest) == 1 else raw(x.op, *rest)
    # an empty collection contributes nothing to a sequence built from it
    if not val and atom.op == 'truthy' and atom.args[0].op != 'seq' and 'cmapseg' in ops(t):
        C = atom.args[0]
        for x in subterms(t):
            if x.op == 'cmapseg' and x.args[0] is C and x not in m:
                m[x] = NIL


def assume_all(t, facts):
    """facts: iterable of (atom, bool)."""
    if not atoms(t) and not ops(t) & {'max', 'min', 'cmapseg'} and not any(len(replacement(a, v)) > 1 for a, v in facts):
        return t
    m = {}
    at_ = atoms(t)
    for atom, val in facts:
        for k, r in replacement(atom, val).items():
            m.setdefault(k, r)
        for a in at_:
            if a not in m:
                v = implied(a, atom, val)
                if v is not None:
                    m[a] = boolean(v)
        order_facts(t, atom, val, m)
    return subst(t, m)


MAXSPLIT = 3000


def canon(t, _n=None):
    """Ordered decision tree over the closed atoms of t."""
    n = _n if _n is not None else [0]
    at_ = atoms(t)
    if not at_:
        return t
    n[0] += 1
    if n[0] > 400:
        raise Budget('canonical form too large')
    a = pick(at_)
    hi = canon(assume(t, a, True), n)
    lo = canon(assume(t, a, False), n)
    return ite_raw(a, hi, lo)


def ite_raw(c, a, b):
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return ite(c, a, b)
    if a.op == 'seq' and b.op == 'seq':
        return seq(cond_seg(c, a, b))
    return raw('ite', c, a, b)


def pick(at_):
    # smallest atom that does not contain another atom
    best = None
    for a in at_:
        if any(x is not a for x in atoms(a)):
            continue
        if best is None or a.uid < best.uid:
            best = a
    return best if best is not None else min(at_, key=lambda t: t.uid)


class Differ(Exception):
    def __init__(self, path, a, b):
        self.path, self.a, self.b, self.trail = path, a, b, []


def same(a, b, facts=()):
    """None when a and b are equal under every outcome of the gates; otherwise (gate outcomes, a', b')."""
    n = [0]
    facts = tuple(facts)
    for atom, val in facts:
        a, b = assume(a, atom, val), assume(b, atom, val)
    try:
        _same(a, b, facts, n)
    except Differ as d:
        d.path = tuple(p for p in d.path if p not in facts)
        return d
    return None


def feasible(path):
    """False when the gate outcomes contradict each other through 'no element of C satisfies P' and 'x in C'."""
    for a, v in path:
        if a.op == 'and' and not v:
            # a stated disjunction with every alternative ruled out
            rest = [f for f in path if f[0] is not a]
            r = assume_all(a, rest)
            if r is not a and r not in (TRUE, FALSE):
                r = assume_all(r, rest)        # outcomes inside the remaining gates are now visible
            if r is TRUE:
                return False
    none = [a for a, v in path if a.op == 'exists' and not v]
    if not none:
        return True
    for c in none:
        C, l = c.args
        for a, v in path:
            if v and a.op == 'in' and a.args[1] is C:
                r = assume_all(beta(l, a.args[0]), path)
                if r is TRUE:
                    return False
    return True


def _same(a, b, path, n):
    if a is b or not feasible(path):
        return
    n[0] += 1
    if n[0] > MAXSPLIT:
        raise Budget('equality check too large')
    at_ = atoms(a) | atoms(b)
    if at_:
        x = pick(at_)
        known = next((k for k in (implied(x, a_, v_) for a_, v_ in path) if k is not None), None)
        if known is None and x.op == 'exc':
            # the same call written with a differently nested argument is the same call
            for a_, v_ in path:
                if a_.op == 'exc' and a_.args[0] == x.args[0] and a_.args[1].op == x.args[1].op:
                    try:
                        _same(a_.args[1], x.args[1], path, n)
                        known = v_
                        break
                    except Differ:
                        pass
        for v in (True, False) if known is None else (known,):
            _same(assume(a, x, v), assume(b, x, v), path + ((x, v),), n)
        return
    for x, y in ((a, b), (b, a)):
        if x.op == 'seq' and y.op != 'seq' and TYPES.get(y) == frozenset({'list'}):
            return _same(seq_of(a) if y is a else a, seq_of(b) if y is b else b, path, n)
    if a.op == b.op == 'cmapseg' and a.args[0] is b.args[0]:
        z = fresh('eqv')
        try:
            return _same(beta(a.args[1], z), beta(b.args[1], z), path + ((in_(z, a.args[0]), True),), n)
        except Differ as d:
            d.trail.append('cmapseg')
            raise
    if a.op == b.op == 'arr' and a.args[0] == b.args[0] and all(is_num(d) for d in a.args[0]):
        size = 1
        for d in a.args[0]:
            size *= d.args[1]
        if size <= 24:
            # few elements: compare them one by one
            for ix in itertools.product(*[range(int(d.args[1])) for d in a.args[0]]):
                try:
                    _same(at(a, [num(i) for i in ix]), at(b, [num(i) for i in ix]), path, n)
                except Differ as d:
                    d.trail.append('arr')
                    raise
            return
    if a.op == b.op == 'lam':
        z = fresh('eqv')
        return _same(beta(a, z), beta(b, z), path, n)
    if {a.op, b.op} == {'dict', 'dictc'} or (a.op in ('dict', 'dictc') and b.op == 'dictc'):
        z = fresh('eqk')
        return _same(dict_lookup(a, z), dict_lookup(b, z), path, n)
    if (a.op == 'dict') != (b.op == 'dict') and (a.op in ('dict', 'dictc') or b.op in ('dict', 'dictc')):
        z = fresh('eqk')
        return _same(dict_lookup(a, z), dict_lookup(b, z), path, n)
    if a.op == b.op and a.op not in ('poly', 'const', 'sym', 'var', 'ref') and _shape(a.args) == _shape(b.args):
        try:
            for x, y in zip(_flat(a.args), _flat(b.args)):
                if type(x) is Term and type(y) is Term:
                    _same(x, y, path, n)
                elif x != y:
                    raise Differ(path, a, b)
            return
        except Differ as d:
            d.trail.append(a.op)
            raise
    if a.op == 'poly' and b.op == 'poly' and len(a.args) == len(b.args):
        # match monomials whose factors are equal up to gates under binders
        rest = list(b.args)
        for ca, ma in a.args:
            hit = None
            for cb, mb in rest:
                if ca == cb and len(ma) == len(mb) and _mono_same(ma, mb, path, n):
                    hit = (cb, mb)
                    break
            if hit is None:
                raise Differ(path, a, b)
            rest.remove(hit)
        return
    raise Differ(path, a, b)


def _mono_same(ma, mb, path, n):
    rest = list(mb)
    for t, e in ma:
        for u, f in rest:
            if e == f:
                try:
                    _same(t, u, path, n)
                except Differ:
                    continue
                rest.remove((u, f))
                break
        else:
            return False
    return True


def _shape(args):
    return tuple(_shape(a) if type(a) is tuple else type(a) for a in args)


def _flat(args):
    for a in args:
        if type(a) is tuple:
            yield from _flat(a)
        else:
            yield a


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth < 0:
        return '..'
    o, a = t.op, t.args
    d = depth - 1
    if o == 'const':
        if a[0] == 'num':
            f = a[1]
            return str(f) if f.denominator == 1 else str(float(f))
        return repr(a[1])
    if o in ('sym', 'var'):
        return a[0]
    if o == 'bv':
        return f'b{a[0]}'
    if o == 'ref':
        k = REFTYPE.get(t)
        return f'<{k.args[0].split(".")[-1] if k is not None else "obj"}#{a[0]}>'
    if o in ('fn', 'cls', 'ext'):
        return a[0].replace('builtins.', '').replace('gerabaldi.', '')
    if o == 'poly':
        parts = []
        for c, m in a:
            fs = [show(x, d) + (f'**{e}' if e != 1 else '') for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator == 1 else str(float(c)))
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if o == 'attr':
        return f'{show(a[0], d)}.{a[1] if isinstance(a[1], str) else show(a[1], d)}'
    if o in ('item', 'titem'):
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if o == 'not':
        return f'not {show(a[0], d)}'
    if o == 'and':
        return '(' + ' and '.join(show(x, d) for x in a) + ')'
    if o in ('eq', 'lt', 'is', 'in', 'typeis', 'isinst'):
        s = {'eq': '==', 'lt': '<', 'typeis': 'is-a', 'isinst': 'isinstance'}.get(o, o)
        return f'({show(a[0], d)} {s} {show(a[1], d)})'
    if o == 'ite':
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if o == 'lam':
        return f'\\b{a[0]}. {show(a[1], d)}'
    if o == 'seq':
        return '[' + ', '.join(show(x, d) for x in a) + ']'
    if o == 'one':
        return show(a[0], d)
    if o == 'splice':
        return '*' + show(a[0], d)
    if o == 'dictc':
        return '{' + ', '.join(f'{show(k, d)}: {show(v, d)}' for k, v in a) + '}'
    return f'{o}(' + ', '.join(show(x, d) for x in a) + ')'
