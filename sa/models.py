"""Models of the builtins and of the numpy / pandas / stdlib functions the package uses.

Anything that is not modelled becomes an `xcall` / `xmethod` node and is remembered in Interp.unknown, so that a rule
that depends on it reports itself as undecided instead of guessing.
"""
from __future__ import annotations

import ast
import builtins
import itertools

from . import terms as T
from .terms import (ABSENT, FALSE, NIL, NONE, ONE, TRUE, UNDEF, ZERO, Term, add, and_, eq, in_, is_, item, ite, lam, lt,
                    mul, neg, not_, num, one, or_, raw, seq, seq_of, splice, string, sub, truthy)

BUILTINS = set(dir(builtins))
TD0 = raw('tdzero')                 # timedelta()
TDU = raw('sym', 'num:second')      # a duration of one second
T.TD0, T.TDU = TD0, TDU
NAN = raw('sym', 'num:nan')
EMPTY = raw('sym', 'num:uninit')

LOGNAMES = {'info', 'warn', 'warning', 'debug', 'error', 'exception', 'critical', 'log'}


def _I():
    from . import interp
    return interp


def X(name):
    return raw('ext', name)


def is_logger(o):
    return o.op == 'xcall' and o.args[0] == 'logging.getLogger'


def dropped(interp, o, name):
    if is_logger(o) and name in LOGNAMES:
        return True
    if o.op == 'ext' and o.args[0] in ('warnings', 'logging') and name in LOGNAMES | {'warn', 'filterwarnings',
                                                                                    'simplefilter'}:
        return True
    return False


def dropped_fn(interp, f):
    return f.op == 'ext' and f.args[0] in ('builtins.print', 'warnings.warn', 'warnings.filterwarnings',
                                           'warnings.simplefilter')


# ---------------------------------------------------------------- attributes
CONSTS = {'numpy.inf': T.INF, 'numpy.nan': NAN, 'math.inf': T.INF, 'math.nan': NAN, 'numpy.NaN': NAN,
          'numpy.Inf': T.INF}


def ext_attr(interp, st, o, name):
    full = o.args[0] + '.' + name
    full = ALIAS.get(full, full)
    if full in CONSTS:
        return CONSTS[full]
    if name == '__name__':
        return string(o.args[0].split('.')[-1])
    return X(full)


ALIAS = {'numpy.absolute': 'numpy.abs', 'torch.mul': 'torch.multiply', 'numpy.asanyarray': 'numpy.asarray',
         'numpy.true_divide': 'numpy.divide', 'pandas.core.series.Series': 'pandas.Series',
         'pandas.core.frame.DataFrame': 'pandas.DataFrame', 'pandas._libs.tslibs.timedeltas.Timedelta':
         'pandas.Timedelta', 'numpy.double': 'numpy.float64', 'numpy.bool_': 'builtins.bool',
         'numpy.concat': 'numpy.concatenate',
         'pandas.DataFrame.from_records': 'pandas.DataFrame', 'numpy.linalg': 'numpy.linalg'}


def ref_attr(interp, st, o, name):
    kind = T.REFTYPE.get(o)
    if kind is _I().FRAME:
        if name in ('columns',):
            return raw('keysof', o)
        if name in ('empty', 'shape', 'size'):
            return frame_size(interp, st, o, name)
        if name in FRAME_METHODS:
            return raw('emeth', o, name)
        return interp.getitem(st, o, string(name))
    if name == '__class__':
        return kind
    return raw('emeth', o, name)


FRAME_METHODS = {'copy', 'to_json', 'apply', 'assign', 'map', 'items', 'iterrows', 'append', 'rename', 'reset_index',
                 'loc', 'iloc', 'at', 'drop', 'insert', 'merge', 'join', 'to_dict', 'head', 'astype', 'fillna'}


def term_attr(interp, st, o, name):
    if name == '__class__':
        return raw('typeof', o)
    if o.op == 'arr':
        if name == 'shape':
            return T.mklist(*o.args[0])
        if name == 'size':
            return T.size_of(o.args[0])
        if name == 'ndim':
            return num(len(o.args[0]))
        if name == 'T' and len(o.args[0]) == 2:
            sh = o.args[0]
            return T.mkarr((sh[1], sh[0]), lambda i, j: T.at(o, [j, i]))
        if name == 'dtype':
            return raw('dtypeof', o)
        return raw('emeth', o, name)
    if o.op == 'series':
        if name in ('values', 'array'):
            return o.args[0]
        if name in ('size',):
            return T.length(o.args[0])
        if name == 'shape':
            return term_attr(interp, st, o.args[0], 'shape') if o.args[0].op == 'arr' else raw('shapeof', o)
        if name == 'dt':
            return raw('dtacc', o)
        return raw('emeth', o, name)
    if name in ('empty', 'shape', 'size') and (o.op in ('df', 'frames', 'framesix') or 'DataFrame' in interp.types_of(o)):
        return frame_size(interp, st, o, name)
    if name == 'shape':
        if T.scalar(o):
            return NIL
        t = raw('shapeof', o)
        return t
    if name == 'size':
        return raw('sizeof', o)
    if name == 'ndim':
        return raw('ndimof', o)
    if o.op == 'signature' and name == 'parameters':
        return sigparams(interp, o.args[0])
    if o.op == 'argspec' and name in ('args', 'kwonlyargs'):
        return sigparams(interp, o.args[0])
    if o.op == 'typeof' and name == '__name__':
        return raw('typename', o.args[0])
    if o.op in ('const', 'seq', 'dictc', 'dict', 'strcat', 'typeof', 'keysof', 'valuesof', 'itemsof'):
        return raw('emeth', o, name)
    if o is TD0 or is_td(o):
        if name in ('days', 'seconds', 'microseconds'):
            return raw('tdpart', o, string(name))
        return raw('emeth', o, name)
    v = interp.read_attr(st, o, string(name))
    return v


def sigparams(interp, f):
    if f.op in ('clo', 'fn', 'bound'):
        node = interp.closures[f][0].node if f.op == 'clo' else interp.find_fn(f.args[-1]).node
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if f.op == 'bound':
            names = names[1:]
        names += [a.vararg.arg] if a.vararg else []
        names += [p.arg for p in a.kwonlyargs]
        names += [a.kwarg.arg] if a.kwarg else []
        return T.mklist(*[string(n) for n in names])
    if f.op == 'ite':
        return ite(f.args[0], sigparams(interp, f.args[1]), sigparams(interp, f.args[2]))
    return raw('sigparams', f)


# ---------------------------------------------------------------- durations
def is_td(t):
    if t is TD0:
        return True
    if t.op == 'poly':
        return any(x is TDU for _, m in t.args for x, _ in m)
    if t is TDU:
        return True
    if t.op == 'elt':
        return T.ELTTYPE.get(t.args[0]) in ('timedelta', 'Timedelta')
    ty = T.TYPES.get(t)
    return bool(ty) and ty <= {'timedelta', 'Timedelta'}


def secs(t):
    """Number of seconds in a duration (linear)."""
    if t is TD0:
        return ZERO
    if t.op == 'ite':
        return ite(t.args[0], secs(t.args[1]), secs(t.args[2]))
    if t.op in ('arr',):
        return T.arr_map(secs, t)
    if t.op == 'series':
        return raw('series', secs(t.args[0]))
    out = ZERO
    for m, c in T.to_poly(t).items():
        fs = [(x, e) for x, e in m]
        td = [i for i, (x, e) in enumerate(fs) if x is TDU and e == 1]
        if td:
            rest = [f for i, f in enumerate(fs) if i != td[0]]
            out = add(out, T.from_poly({tuple(rest): c}))
            continue
        cand = [i for i, (x, e) in enumerate(fs) if e == 1 and not (T.TYPES.get(x) or {T.ELTTYPE.get(x.args[0], '?') if x.op == 'elt' else '?'}) <= {'int', 'float'}]
        if len(cand) == 1:
            rest = [f for i, f in enumerate(fs) if i != cand[0]]
            out = add(out, mul(T.from_poly({tuple(rest): c}), raw('secs', fs[cand[0]][0])))
        elif not fs:
            out = add(out, raw('secs', num(c)))
        else:
            out = add(out, raw('secs', T.from_poly({m: c})))
    return out


T.BUILD['secs'] = secs

TD_UNITS = {'days': 86400, 'seconds': 1, 'microseconds': T.Fraction(1, 1000000), 'milliseconds': T.Fraction(1, 1000),
            'minutes': 60, 'hours': 3600, 'weeks': 604800}


def timedelta_(interp, st, args, kwargs):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    vals = dict(zip(names, args))
    stars = kwargs.get('**', [])
    for k, v in kwargs.items():
        if k != '**':
            vals[k] = v
    tot = ZERO
    for k, v in vals.items():
        if k not in TD_UNITS:
            raise _I().Unsupported('timedelta unit')
        tot = add(tot, mul(num(TD_UNITS[k]), v))
    for s in stars:
        for k, f in TD_UNITS.items():
            if k in vals:
                continue
            v = interp.lookup(st, s, string(k))
            if v is ABSENT:
                continue
            tot = add(tot, mul(num(f), ite(eq(v, ABSENT), ZERO, T.strip_absent(v))))
    if tot is ZERO:
        return TD0
    return td_of(tot)


def td_of(s):
    """Duration of s seconds."""
    if s is ZERO:
        return TD0
    if s.op == 'ite':
        return ite(s.args[0], td_of(s.args[1]), td_of(s.args[2]))
    p = T.to_poly(s)
    out = ZERO
    for m, c in p.items():
        x = [i for i, (t, e) in enumerate(m) if t.op == 'secs' and e == 1]
        rest = T.from_poly({tuple(f for i, f in enumerate(m) if not x or i != x[0]): c})
        out = add(out, mul(rest, m[x[0]][0].args[0] if x else TDU))
    return out


# ---------------------------------------------------------------- arrays
def is_array(interp, o):
    if o.op == 'arr':
        return True
    if o.op == 'ite':
        return is_array(interp, o.args[1]) and is_array(interp, o.args[2])
    ty = interp.types_of(o)
    return bool(ty) and ty <= {'ndarray'}


def array_get(interp, st, o, keys):
    if o.op == 'ite':
        return interp.split(st, o, lambda s, x: array_get(interp, s, x, keys))
    if o.op == 'series':
        r = array_get(interp, st, o.args[0], keys)
        return raw('series', r) if any(type(k) is tuple for k in keys) else r
    if o.op == 'arr':
        if len(keys) == 1 and type(keys[0]) is Term and keys[0].op == 'arr':
            return raw('index', o, tuple(keys))
        for k, d in zip(keys, o.args[0]):
            if type(k) is tuple or k == 'newaxis' or k == '...':
                if type(k) is tuple:
                    continue
                break
            if T.is_num(k) and T.is_num(d) and not -d.args[1] <= k.args[1] < d.args[1]:
                interp.raise_(st, TRUE, 'IndexError')
                raise _I().Abrupt()
        r = T.index(o, keys)
        if r.op == 'arr' and any(d.op in ('min', 'max') for d in r.args[0]):
            r = interp.simp(r, st)
        return r
    if all(type(k) is Term for k in keys):
        r = o
        for k in keys:
            r = item(r, k)
        return r
    if T.is_str(o) and len(keys) == 1 and type(keys[0]) is tuple and all(T.is_num(x) or x is NONE for x in keys[0][1:]):
        return string(o.args[1][slice(*[None if x is NONE else int(x.args[1]) for x in keys[0][1:]])])
    log = interp.log_of(st, o, 1)
    if log or (len(keys) == 1 and type(keys[0]) is tuple and 'list' in interp.types_of(o)):
        return slice_seq(interp, st, o, raw('slice', *keys[0][1:]))
    return raw('index', o, tuple(keys))


def array_set(interp, st, o, keys, v):
    if o.op == 'ite':
        return ite(o.args[0], array_set(interp, st, o.args[1], keys, v), array_set(interp, st, o.args[2], keys, v))
    if o.op != 'arr':
        return raw('arrset', o, tuple(keys), v)
    sh = o.args[0]
    if len(keys) == 1 and type(keys[0]) is Term and keys[0].op == 'arr' and keys[0].args[0] == sh:
        m = keys[0]
        w = v
        if v.op == 'index' and v.args[0].op == 'arr' and v.args[0].args[0] == sh and v.args[1] == (m,):
            w = v.args[0]          # b[mask] into a[mask]: the same places
        elif v.op in ('arr', 'index') or not T.scalar(v):
            return raw('unk', string('masked array store'))
        return T.mkarr(sh, lambda *ix: ite(T.at(m, ix), T.at(w, ix) if w.op == 'arr' else w, T.at(o, ix)))
    ks = list(keys)
    if any(type(k) is str for k in ks):
        if ks.count('...') == 1 and 'newaxis' not in ks:
            i = ks.index('...')
            ks[i:i + 1] = [('slice', NONE, NONE, NONE)] * (len(sh) - len(ks) + 1)
        else:
            return raw('unk', string('array store'))
    ks += [('slice', NONE, NONE, NONE)] * (len(sh) - len(ks))
    if len(ks) != len(sh) or any(type(k) is Term and k.op in ('arr', 'seq') for k in ks):
        return raw('unk', string('array store'))
    nsl = sum(1 for k in ks if type(k) is tuple)
    if v.op == 'series':
        v = v.args[0]
    if v.op != 'arr' and not T.scalar(v) and nsl:
        return raw('unk', string('array store of unknown shape'))

    def f(*ix):
        conds, vi = [], []
        for k, i, d in zip(ks, ix, sh):
            if type(k) is tuple:
                lo = ZERO if k[1] is NONE else k[1]
                if lo is not ZERO:
                    conds.append(T.le(lo, i))
                if k[2] is not NONE:
                    conds.append(lt(i, k[2]))
                if k[3] is not NONE and k[3] is not ONE:
                    return raw('unk', string('strided store'))
                vi.append(sub(i, lo))
            else:
                conds.append(eq(i, add(d, k) if T.is_num(k) and k.args[1] < 0 else k))
        x = T.bat(v, vi) if v.op == 'arr' else v
        return ite(and_(*conds), x, T.at(o, ix))
    return T.mkarr(sh, f)


def slice_seq(interp, st, o, sl):
    lo, hi, stp = sl.args
    c = interp.content(st, o)
    kind = T.REFTYPE.get(o)
    if lo in (NONE, ZERO) and hi is NONE and stp in (NONE, ONE):
        r = c
    elif all(s.op == 'one' for s in c.args) and all(x is NONE or T.is_num(x) for x in sl.args):
        py = slice(*[None if x is NONE else int(x.args[1]) for x in sl.args])
        r = seq(*c.args[py])
    else:
        r = seq(splice(raw('sliceof', c, lo, hi, stp)))
    if kind is _I().LIST:
        n = _I().newref(_I().LIST)
        st.heap[n] = ((), (('extend', r, TRUE),))
        return n
    return r


def term_item(interp, st, o, k):
    if o.op == 'series':
        return T.at(o.args[0], [k]) if o.args[0].op == 'arr' and len(o.args[0].args[0]) == 1 else item(o.args[0], k)
    if o.op == 'df':
        return raw('series', item(o.args[0], k))
    if o.op in ('cls', 'ext'):
        return o
    ty = interp.types_of(o)
    if 'DataFrame' in ty and T.is_str(k):
        return raw('series', raw('col', o, k))
    if o.op == 'frames':
        c = frames_col(o, k)
        return raw('series', raw('col', o, k) if c is None else c)
    return item(o, k)


def frames_col(o, k):
    """A column of stacked one-row frames, row by row."""
    out = []
    for g in o.args[0].args:
        d = g.args[0] if g.op == 'one' else g
        if d.op != 'df' or d.args[0].op != 'dictc' or nrows(d) is not ONE:
            return None
        v = dict(d.args[0].args).get(k)
        if v is None or col_len(v) is not None:
            return None
        out.append(v)
    return seq_to_arr(T.mklist(*out)) if out else None


T.FRAMECOL[0] = frames_col


def iter_seq(interp, st, v):
    return segs_to_seq(interp.iteration(st, v))


def segs_to_seq(segs):
    out = []
    for s in segs:
        if s[0] == 'one':
            out.append(one(s[1]))
        elif s[0] == 'over':
            z = T.fresh('it')
            C = s[1]
            T.ELEMS[z] = C
            if (ty := T.column_type(C)):
                T.TYPES[z] = ty
            out.extend(T.cmap(C, lam(z, s[2](z))).args)
        else:
            c = T.cond_seg(s[1], segs_to_seq(s[2]), segs_to_seq(s[3]))
            out.extend(c.args if c.op == 'seq' else [c])
    return seq(*out)


# ---------------------------------------------------------------- data frames
def frames(s):
    out = []
    for g in s.args:
        if g.op == 'one':
            x = g.args[0]
            if x.op == 'frames':
                out.extend(x.args[0].args)
                continue
            if x.op == 'df' and x.args[0] is raw('dictc'):
                continue
            if x.op == 'ite':
                c = T.cond_seg(x.args[0], *[frames_in(y) for y in x.args[1:]])
                out.extend(c.args if c.op == 'seq' else [c])
                continue
        out.append(g)
    if len(out) == 1 and out[0].op == 'one' and out[0].args[0].op == 'df' and out[0].args[0].args[0].op == 'dictc' \
            and nrows(out[0].args[0]) is not ONE:
        return out[0].args[0]
    return raw('frames', seq(*out))


def frames_in(x):
    y = frames(seq(one(x)))
    return y.args[0] if y.op == 'frames' else seq(one(y))


T.BUILD['frames'] = lambda s: frames(s)


def frame_seq(interp, v, st):
    v = interp.reify(v, st)
    if v.op == 'frames':
        return v.args[0]
    if v.op == 'df' and v.args[0] is raw('dictc'):
        return NIL
    return seq(one(v))


def as_column(interp, st, v):
    v = unseries(v)
    if T.REFTYPE.get(v) is _I().LIST or v.op == 'seq':
        c = interp.reify(interp.content(st, v), st) if v.op == 'ref' else v
        if c.op == 'seq' and c.args:
            a = seq_to_arr(c)
            if a is not None and (a.op == 'ite' or len(a.args[0]) == 1):
                return a
    return v


def col_len(v):
    v = unseries(v)
    if v.op == 'arr' and len(v.args[0]) == 1 or v.op in ('seq', 'range'):
        return T.length(v)
    if v.op == 'ite':
        a, b = col_len(v.args[1]), col_len(v.args[2])
        return a if a is b else None
    if v.op == 'col':
        return nrows(v.args[0])
    if v.op == 'map' or v.op == 'emap':
        return col_len(v.args[0])
    return None


def nrows(t):
    """Number of rows of a data frame."""
    if t.op == 'ite':
        return ite(t.args[0], nrows(t.args[1]), nrows(t.args[2]))
    if t.op == 'df' and t.args[0].op == 'dictc':
        cols = t.args[0].args
        if not cols:
            return ZERO
        for _, v in cols:
            n = col_len(v)
            if n is not None:
                return n
        if all(T.scalar(v) or v.op == 'const' for _, v in cols):
            return ONE
    if t.op in ('frames', 'framesix'):
        n = ZERO
        for g in t.args[0].args:
            if g.op == 'one':
                n = add(n, nrows(g.args[0]))
            elif g.op == 'cond':
                n = add(n, ite(g.args[0], nrows(raw('frames', g.args[1])), nrows(raw('frames', g.args[2]))))
            else:
                return raw('nrows', t)
        return n
    if t.op == 'jsonframe' and t.args[0].op == 'xmethod' and t.args[0].args[0] == 'to_json':
        return nrows(t.args[0].args[1])
    return raw('nrows', t)


T.BUILD['nrows'] = nrows


def frame_len(interp, st, o):
    if T.REFTYPE.get(o) is not _I().FRAME:
        return nrows(interp.reify(o, st))
    log = interp.log_of(st, o, 1)
    for e in log:
        if e[-1] is not TRUE:
            break
        if e[0] == 'set':
            n = col_len(interp.reify(e[2], st))
            if n is not None:
                return n
        elif e[0] == 'update':
            n = nrows(interp.reify(e[1], st))
            if n.op != 'nrows' or e is log[-1]:
                return n
    return nrows(interp.reify(o, st))


def frame_size(interp, st, o, name):
    n = interp.simp(frame_len(interp, st, o), st)
    if name == 'empty':
        return interp.simp(eq(n, ZERO), st)
    if name == 'shape':
        return T.mklist(n, raw('ncols', interp.reify(o, st)))
    return raw('sizeof', interp.reify(o, st))


def unseries(v):
    return v.args[0] if v.op == 'series' else v


def make_frame(interp, st, args, kwargs):
    I = _I()
    r = I.newref(I.FRAME)
    st.heap[r] = ((), ())
    d = args[0] if args else kwargs.get('data')
    if d is None or d is NONE:
        return r
    if d.op == 'ite':
        return interp.split(st, d, lambda s, x: make_frame(interp, s, [x] + args[1:], kwargs))
    if T.REFTYPE.get(d) is I.LIST:
        c = interp.content(st, d)
        if len(c.args) == 1 and c.args[0].op == 'one':
            d = c.args[0].args[0]
        else:
            return frames(T.cmap(c, lam_rows()))
    if T.REFTYPE.get(d) is I.DICT:
        log = tuple(e[:2] + (as_column(interp, st, e[2]),) + e[3:] if e[0] == 'set' else e for e in interp.log_of(st, d, 1))
        st.heap[r] = ((), log)
    elif T.REFTYPE.get(d) is I.FRAME:
        st.heap[r] = ((), interp.log_of(st, d, 1))
    elif d.op == 'dictc':
        st.heap[r] = ((), tuple(('set', k, as_column(interp, st, v), TRUE) for k, v in d.args))
    else:
        st.heap[r] = ((), (('update', interp.reify(d, st), TRUE),))
    ix = kwargs.get('index', args[1] if len(args) > 1 else None)
    return r


def lam_rows():
    z = T.fresh('row')
    return lam(z, seq(one(raw('df', z))))


def concat(interp, st, args, kwargs):
    objs = args[0] if args else kwargs.get('objs')
    ax = kwargs.get('axis', ZERO)
    if ax not in (ZERO, string('index')):
        return raw('unk', string('concat axis'))
    s = iter_seq(interp, st, objs)
    s = interp.reify(s, st)
    if kwargs.get('ignore_index') is TRUE:
        r = frames(s)
        return make_frame(interp, st, [r.args[0]], {}) if r.op == 'df' else r
    return raw('framesix', s)


# ---------------------------------------------------------------- elementwise helpers
def ew(f, *xs):
    """Elementwise function over arrays / series / scalars."""
    xs = list(xs)
    if any(x.op == 'series' for x in xs):
        return raw('series', ew(f, *[unseries(x) for x in xs]))
    for i, x in enumerate(xs):
        if x.op == 'seq':
            a = seq_to_arr(x)
            if a is not None:
                xs[i] = a
    for i, x in enumerate(xs):
        if gated_array(x):
            return ite(x.args[0], ew(f, *(xs[:i] + [x.args[1]] + xs[i + 1:])), ew(f, *(xs[:i] + [x.args[2]] + xs[i + 1:])))
    if any(x.op == 'arr' for x in xs):
        r = T.bcast_n(f, *xs)
        if r is not None:
            return r
        return raw('ewunk', *xs)
    return f(*xs)


def gated_array(x):
    return x.op == 'ite' and any(y.op in ('arr', 'series') or gated_array(y) for y in x.args[1:])


def single(s):
    """The one element every evaluation of the sequence has, or None."""
    if s.op == 'seq' and len(s.args) == 1:
        g = s.args[0]
        if g.op == 'one':
            return g.args[0]
        if g.op == 'cond':
            a, b = single(g.args[1]), single(g.args[2])
            return None if a is None or b is None else ite(g.args[0], a, b)
    return None


def seq_to_arr(s):
    if len(s.args) == 1 and s.args[0].op == 'cmapseg':
        C, z = unseries(s.args[0].args[0]), T.fresh('sa')
        if C.op == 'ite':
            a, b = (seq_to_arr(seq(raw('cmapseg', x, s.args[0].args[1]))) for x in C.args[1:])
            return None if a is None or b is None else ite(C.args[0], a, b)
        v = single(T.seq_of(T.beta(s.args[0].args[1], z)))
        if v is None or any(x.op in ('seq', 'arr', 'ref') for x in T.subterms(v)):
            return None
        if C.op == 'arr' and len(C.args[0]) == 1:
            return T.mkarr(C.args[0], lambda i: T.subst(v, {z: T.at(C, [i])}))
        if C.op == 'range' and C.args[0] is ZERO and C.args[2] is ONE and T.positive(C.args[1]):
            return T.mkarr((C.args[1],), lambda i: T.subst(v, {z: i}))
    if not all(g.op == 'one' for g in s.args):
        return None
    vals = [g.args[0] for g in s.args]
    subs = []
    for v in vals:
        if v.op == 'seq':
            v = seq_to_arr(v)
            if v is None:
                return None
        subs.append(v)
    n = num(len(vals))
    if subs and all(v.op == 'arr' for v in subs):
        sh = subs[0].args[0]
        if any(v.args[0] != sh for v in subs):
            return None
        return T.mkarr((n,) + sh, lambda i, *r: pick_idx(i, [T.at(v, r) for v in subs]))
    return T.mkarr((n,), lambda i: pick_idx(i, subs))


def pick_idx(i, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = ite(eq(i, num(k)), vals[k], r)
    return r


def bool_of(t):
    if T.is_bool(t):
        return t
    if t.op == 'arr':
        return T.arr_map(bool_of, t)
    return raw('truthy', t)


def ufunc(name):
    def f(*xs):
        return ew(lambda *ys: raw('ufunc', name, ys) if True else None, *xs)
    return f


def where_(c, a, b):
    c = unseries(c)
    if c.op != 'arr' and not T.is_bool(c):
        c = bool_of(c) if c.op != 'ite' else c
    xs = [c, a, b]
    if T.LAZY[0]:
        ys = [T.at(x, []) if x.op == 'arr' and not x.args[0] else x for x in map(unseries, xs)]
        if not any(y.op in ('arr', 'ite') for y in ys):
            return T.sel(*ys)
    r = T.bcast_n(T.sel, *[unseries(x) for x in xs])
    if r is not None:
        return r if r.op != 'arr' or r.args[0] else T.at(r, [])
    if c.op != 'arr' and T.scalarcond(c) and not any(x.op == 'arr' for x in (a, b)):
        return ite(c, a, b)
    if any(x.op == 'ite' for x in xs):
        return ew(ite, *xs)
    return raw('ewunk', c, a, b)


def clip_(x, lo, hi):
    def f(v, *bs):
        it = iter(bs)
        if lo is not NONE:
            l = next(it)
            v = T.max_(v, l)
        if hi is not NONE:
            h = next(it)
            v = T.min_(v, h)
        return v
    bs = [b for b in (lo, hi) if b is not NONE]

    def g(v, *bs):
        it = iter(bs)
        l = next(it) if lo is not NONE else NONE
        h = next(it) if hi is not NONE else NONE
        return raw('clip', v, l, h)
    return ew(g, x, *bs)


def log_of(base):
    def f(x):
        def g(v):
            if T.is_num(v) and base == 10 and v.args[1] > 0:
                q, e = v.args[1], 0
                while q.denominator > 1 and e > -400:
                    q, e = q * 10, e - 1
                n = q.numerator
                while n % 10 == 0 and n:
                    n, e = n // 10, e + 1
                if n == 1:
                    return num(e)
            return raw('log', num(base) if base else string('e'), v)
        return ew(g, x)
    return f


def round_(x, nd):
    return ew(lambda v, n: raw('round', v, n), x, nd)


def isnan_(a):
    return FALSE if T.is_num(a) else raw('truthy', raw('isnan', a))


def isfinite_(a):
    return TRUE if T.is_num(a) else and_(not_(raw('truthy', raw('isnan', a))), not_(raw('truthy', raw('isinf', a))))


NP1 = {
    'numpy.abs': T.abs_, 'builtins.abs': T.abs_, 'math.fabs': T.abs_, 'numpy.fabs': T.abs_,
    'numpy.negative': neg, 'numpy.logical_not': lambda a: not_(bool_of(a)), 'numpy.invert': lambda a: not_(bool_of(a)),
    'numpy.square': lambda a: mul(a, a), 'numpy.reciprocal': T.inv,
    'numpy.isnan': isnan_, 'math.isnan': isnan_,
    'numpy.isinf': lambda a: raw('truthy', raw('isinf', a)), 'math.isinf': lambda a: raw('truthy', raw('isinf', a)),
    'numpy.isfinite': isfinite_,
    'numpy.isposinf': lambda a: eq(a, T.INF), 'numpy.isneginf': lambda a: eq(a, T.neg(T.INF)),
    'math.isfinite': isfinite_,
    'pandas.isna': isnan_, 'pandas.isnull': isnan_,
    'pandas.notna': lambda a: not_(isnan_(a)),
}
OPAQUE1 = {'exp', 'sqrt', 'log2', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'sign', 'cbrt'}
def isclose(a, b, rtol=T.num('1e-5'), atol=T.num('1e-8')):
    return or_(eq(a, b), not_(lt(add(atol, mul(rtol, T.abs_(b))), T.abs_(sub(a, b)))))


NP2 = {
    'numpy.isclose': isclose,
    'numpy.add': add, 'numpy.subtract': sub, 'numpy.multiply': mul, 'numpy.divide': T.div, 'numpy.power': T.power,
    'numpy.float_power': T.power, 'numpy.floor_divide': T.fdiv, 'numpy.mod': T.mod, 'numpy.remainder': T.mod,
    'numpy.less': lt, 'numpy.greater': lambda a, b: lt(b, a), 'numpy.less_equal': lambda a, b: not_(lt(b, a)),
    'numpy.greater_equal': lambda a, b: not_(lt(a, b)), 'numpy.equal': eq, 'numpy.not_equal': lambda a, b: not_(eq(a, b)),
    'numpy.logical_and': lambda a, b: and_(bool_of(a), bool_of(b)),
    'numpy.logical_or': lambda a, b: or_(bool_of(a), bool_of(b)),
    'numpy.bitwise_and': lambda a, b: and_(bool_of(a), bool_of(b)),
    'numpy.bitwise_or': lambda a, b: or_(bool_of(a), bool_of(b)),
    'numpy.maximum': lambda a, b: T.max_(a, b), 'numpy.minimum': lambda a, b: T.min_(a, b),
    'numpy.fmax': lambda a, b: T.max_(a, b), 'numpy.fmin': lambda a, b: T.min_(a, b),
    'operator.add': add, 'operator.sub': sub, 'operator.mul': mul, 'operator.truediv': T.div, 'operator.lt': lt,
    'operator.gt': lambda a, b: lt(b, a), 'operator.le': lambda a, b: not_(lt(b, a)),
    'operator.ge': lambda a, b: not_(lt(a, b)), 'operator.eq': eq, 'operator.ne': lambda a, b: not_(eq(a, b)),
    'math.pow': T.power,
    'torch.multiply': lambda a, b: raw('tc', 'mul', a, b), 'torch.add': lambda a, b: raw('tc', 'add', a, b),
}


def shape_arg(interp, st, v):
    """Shape tuple from an int / tuple term, or None."""
    if v.op == 'seq' or T.REFTYPE.get(v) is _I().LIST:
        c = interp.content(st, v)
        if all(g.op == 'one' for g in c.args):
            return tuple(g.args[0] for g in c.args)
        return None
    if T.scalar(v) or v.op in ('poly', 'len', 'const'):
        return (v,)
    if v.op == 'shapeof':
        return None
    ty = interp.types_of(v)
    if ty and ty <= {'int', 'float', 'float64'}:
        return (v,)
    n = interp.tuple_len.get(v) if hasattr(interp, 'tuple_len') else None
    if n:
        return tuple(item(v, num(i)) for i in range(n))
    if v.op in ('item', 'attr', 'sym') and ty == {'?'}:
        return (v,)
    return None


def to_arr(interp, st, v):
    """Array view of v when its shape is known, else None."""
    if v.op == 'arr':
        return v
    if v.op == 'series':
        return to_arr(interp, st, v.args[0])
    if v.op == 'seq' or T.REFTYPE.get(v) is _I().LIST:
        c = interp.content(st, v)
        return seq_to_arr(interp.reify(c, st)) if c.args else None
    if T.scalar(v):
        return T.mkarr((), lambda: v)
    return None


def split_ite(interp, st, xs, f):
    for i, x in enumerate(xs):
        if x.op == 'ite':
            return interp.split(st, x, lambda s, y: split_ite(interp, s, xs[:i] + [y] + xs[i + 1:],
                                                              lambda s2, ys: f(s2, ys)))
    return f(st, xs)


def call_ext(interp, st, name, args, kwargs):
    I = _I()
    name = ALIAS.get(name, name)
    if 'dtype' in kwargs and name in NP1 | NP2:
        kwargs = {k: v for k, v in kwargs.items() if k != 'dtype'}
    if name in NP1 and len(args) == 1 and not kwargs:
        return ew(NP1[name], args[0])
    if name in NP2 and len(args) == 2 and not kwargs:
        a, b = args
        for i, x in enumerate((a, b)):
            if x.op == 'ref':
                y = to_arr(interp, st, x)
                if y is not None:
                    a, b = (y, b) if i == 0 else (a, y)
        return ew(NP2[name], a, b)
    if name.startswith(('numpy.', 'math.')) and name.split('.')[1] in OPAQUE1 and len(args) == 1:
        n = name.split('.')[1]
        return ew(lambda v: raw('ufunc', n, (v,)), args[0])
    f = TABLE.get(name)
    if f is not None:
        for i, x in enumerate(args):
            if gated_array(x):
                return interp.split(st, x, lambda s, y: call_ext(interp, s, name, args[:i] + [y] + args[i + 1:], kwargs))
        r = f(interp, st, args, kwargs)
        if r is not NotImplemented:
            return r
    return unknown_call(interp, st, name, args, kwargs)


QUIET = {'logging.getLogger', 'numpy.random.default_rng', 'importlib.import_module', 'pathlib.Path', 'builtins.open',
         'json.load', 'json.dump', 'json.loads', 'json.dumps', 'pandas.read_json', 'io.StringIO', 'os.path.dirname',
         'os.makedirs', 'logging.StreamHandler', 'logging.FileHandler'}


def unknown_call(interp, st, name, args, kwargs):
    kw = interp.kwargs_term(st, kwargs)
    t = raw('xcall', name, tuple(interp.value_of(a, st) for a in args), interp.value_of(kw, st))
    top = name.split('.')[0]
    if top not in ('pymc', 'pyro', 'torch') and name not in QUIET:
        interp.unknown.add(name)
    interp.trace_call(st, t)
    return interp.may_raise(st, t)


def argn(args, kwargs, i, name, default=None):
    if i < len(args):
        return args[i]
    return kwargs.get(name, default)


# ---------------------------------------------------------------- function table
TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


@model('builtins.len')
def _len(interp, st, args, kwargs):
    v = args[0]
    if v.op == 'ite':
        return interp.split(st, v, lambda s, x: _len(interp, s, [x], {}))
    if v.op == 'series':
        return T.length(v.args[0]) if v.args[0].op == 'arr' else raw('len', v)
    kind = T.REFTYPE.get(v)
    c = interp.cls_of(v, st)
    if c is not None and interp.p.method(c, '__len__'):
        return interp.call_func(interp.p.method(c, '__len__'), [v], {}, st)
    if kind is I_('LIST') or kind is I_('SET'):
        return T.length(interp.content(st, v))
    if kind is I_('DICT'):
        return T.length(interp.keys(st, v))
    if kind is I_('FRAME'):
        return frame_len(interp, st, v)
    if v.op in ('df', 'frames', 'framesix'):
        return nrows(v)
    if v.op in ('keysof', 'valuesof', 'itemsof'):
        return T.length(interp.keys_any(st, v.args[0]))
    if v.op == 'shapeof':
        return raw('ndimof', v.args[0])
    if v.op == 'arr' or v.op in ('seq', 'dictc', 'range') or T.is_str(v):
        return T.length(v)
    if interp.log_of(st, v, 1):
        return T.length(interp.content(st, v))
    n = interp.tuple_len.get(v)
    if n is not None:
        return num(n)
    return T.length(v)


def I_(n):
    return getattr(_I(), n)


@model('builtins.range')
def _range(interp, st, args, kwargs):
    lo, hi, stp = ZERO, None, ONE
    if len(args) == 1:
        hi = args[0]
    else:
        lo, hi = args[0], args[1]
        if len(args) > 2:
            stp = args[2]
    return raw('range', lo, hi, stp)


@model('builtins.enumerate')
def _enum(interp, st, args, kwargs):
    return raw('enum', args[0], argn(args, kwargs, 1, 'start', ZERO))


@model('builtins.zip')
def _zip(interp, st, args, kwargs):
    if any(a.op == 'star' for a in args):
        return NotImplemented
    return raw('zipof', *args)


@model('itertools.count')
def _count(interp, st, args, kwargs):
    return raw('countfrom', args[0] if args else ZERO)


@model('builtins.reversed')
def _rev(interp, st, args, kwargs):
    return raw('revof', args[0])


@model('builtins.iter')
def _iter(interp, st, args, kwargs):
    c = interp.cls_of(args[0], st)
    if c is not None:
        return iter_seq(interp, st, args[0])
    return seq_of_live(interp, st, args[0])


def seq_of_live(interp, st, v):
    return v


def is_fresh_file(t):
    return t.op in ('textio', 'xcall', 'xmethod')


@model('builtins.next')
def _next(interp, st, args, kwargs):
    """First element of a fresh iterator / generator expression."""
    src = args[0]
    if src.op == 'ref' and T.REFTYPE.get(src) is I_('LIST'):
        c = interp.content(st, src)
    elif interp.cls_of(src, st) is None and not is_fresh_file(src):
        c = iter_seq(interp, st, src)
    else:
        return NotImplemented
    if len(c.args) == 1 and c.args[0].op == 'splice':
        C = c.args[0].args[0]
        z = T.fresh('nx')
        v = raw('first', C, lam(z, TRUE), lam(z, z))
        return v if len(args) < 2 else ite(truthy(C), v, args[1])
    if c.args and c.args[0].op == 'one':
        return c.args[0].args[0]
    d = args[1] if len(args) > 1 else None
    if len(c.args) == 1 and c.args[0].op == 'cmapseg':
        C, l = c.args[0].args
        z = T.fresh('nx')
        body = seq_of(T.beta(l, z))
        if len(body.args) == 1 and body.args[0].op == 'one':
            v = raw('first', C, lam(z, TRUE), lam(z, body.args[0].args[0]))
            return v if d is None else ite(truthy(C), v, d)
        if len(body.args) == 1 and body.args[0].op == 'cond':
            cc, a, b = body.args[0].args
            if b is NIL and len(a.args) == 1 and a.args[0].op == 'one':
                v = raw('first', C, lam(z, cc), lam(z, a.args[0].args[0])) if T.contains(a, z) else a.args[0].args[0]
                return v if d is None else ite(T.exists(C, lam(z, cc)), v, d)
            if a is NIL and len(b.args) == 1 and b.args[0].op == 'one':
                cc = not_(cc)
                v = raw('first', C, lam(z, cc), lam(z, b.args[0].args[0])) if T.contains(b, z) else b.args[0].args[0]
                return v if d is None else ite(T.exists(C, lam(z, cc)), v, d)
    def head(segs, depth=0):
        if not segs:
            return ABSENT if d is None else d
        if segs[0].op == 'one':
            return segs[0].args[0]
        if segs[0].op == 'cond' and depth < 12:
            cc, a, b = segs[0].args
            rest = [list(seq_of(x).args if x.op != 'seq' else x.args) + segs[1:] for x in (a, b)]
            if any(g.op == 'splice' for x in rest for g in x):
                return None
            a, b = head(rest[0], depth + 1), head(rest[1], depth + 1)
            return None if a is None or b is None else ite(cc, a, b)
        return None
    v = head(list(c.args))
    if v is not None:
        if d is None:
            none = interp.simp(eq(v, ABSENT), st)
            interp.raise_(st, none, 'StopIteration')
            if none is TRUE:
                raise _I().Abrupt()
            v = T.strip_absent(v)
        return v
    return raw('unk', string('next'))


@model('builtins.map')
def _map(interp, st, args, kwargs):
    f, its = args[0], args[1:]
    I = _I()
    r = I.newref(I.LIST)
    st.heap[r] = ((), ())
    it = its[0] if len(its) == 1 else raw('zipof', *its)

    def body(s, val, ex):
        a = [val] if len(its) == 1 else [item(val, num(i)) for i in range(len(its))]
        s.push(r, 1, ('append', interp.call_value(f, a, {}, s), TRUE))
        return s
    s2 = interp.run_loop(st.copy(), interp.iteration(st, it), body, [])
    if s2 is None:
        raise I.Abrupt()
    st.become(s2)
    return r


@model('builtins.filter')
def _filter(interp, st, args, kwargs):
    I = _I()
    f, it = args
    r = I.newref(I.LIST)
    st.heap[r] = ((), ())

    def body(s, val, ex):
        c = interp.truth(val if f is NONE else interp.call_value(f, [val], {}, s), s)
        s.push(r, 1, ('append', val, interp.simp(c, s)))
        return s
    s2 = interp.run_loop(st.copy(), interp.iteration(st, it), body, [])
    st.become(s2)
    return r


@model('builtins.list')
def _list(interp, st, args, kwargs):
    I = _I()
    r = I.newref(I.LIST)
    s = iter_seq(interp, st, args[0]) if args else NIL
    evs = tuple(('append', g.args[0], TRUE) if g.op == 'one' else ('extend', seq(g), TRUE) for g in s.args)
    st.heap[r] = ((), evs)
    return r


@model('builtins.tuple')
def _tuple(interp, st, args, kwargs):
    if not args:
        return NIL
    if args[0].op == 'shapeof' or args[0] in interp.tuple_len:
        return args[0]
    return iter_seq(interp, st, args[0])


@model('builtins.set', 'builtins.frozenset', 'dict.fromkeys')
def _set(interp, st, args, kwargs):
    I = _I()
    r = I.newref(I.SET)
    s = iter_seq(interp, st, args[0]) if args else NIL
    st.heap[r] = ((), (('extend', s, TRUE),) if s is not NIL else ())
    return r


@model('builtins.sorted')
def _sorted(interp, st, args, kwargs):
    I = _I()
    s = interp.reify(iter_seq(interp, st, args[0]), st)
    r = I.newref(I.LIST)
    if not kwargs and s.op == 'seq' and all(x.op == 'one' and T.is_str(x.args[0]) for x in s.args):
        words = [x.args[0].args[1] for x in s.args]
        if interp.types_of(args[0]) & {'set', 'frozenset'}:
            words = set(words)
        st.heap[r] = ((), (('extend', seq(*[one(string(w)) for w in sorted(words)]), TRUE),))
        return r
    st.heap[r] = ((), (('extend', seq(splice(raw('sorted', s, interp.kwargs_term(st, kwargs)))), TRUE),))
    return r


@model('builtins.dict')
def _dict(interp, st, args, kwargs):
    I = _I()
    r = I.newref(I.DICT)
    st.heap[r] = ((), ())
    if args:
        d = args[0]
        if d.op == 'ite':
            return interp.split(st, d, lambda s, x: _dict(interp, s, [x], kwargs))
        if d.op in ('zipof', 'enum', 'itemsof') or T.REFTYPE.get(d) is I.LIST or d.op == 'seq':
            def body(s, val, ex):
                s.push(r, 1, ('set', item(val, ZERO), item(val, ONE), TRUE))
                return s
            s2 = interp.run_loop(st.copy(), interp.iteration(st, d), body, [])
            st.become(s2)
        else:
            st.heap[r] = ((), dict_log(interp, st, d))
    for k, v in kwargs.items():
        if k == '**':
            for s in v:
                for e in dict_log(interp, st, s):
                    st.push(r, 1, e)
        else:
            st.push(r, 1, ('set', string(k), v, TRUE))
    return r


def dict_log(interp, st, d):
    """Event log that rebuilds dictionary d with the same value objects."""
    if d.op == 'instdict':
        return tuple(interp.log_of(st, d.args[0], 0))
    if d.op == 'ref':
        return tuple(interp.log_of(st, d, 1))
    if d.op == 'dictc':
        return tuple(('set', k, v, TRUE) for k, v in d.args)
    log = interp.log_of(st, d, 1)
    return (('update', d, TRUE),) + tuple(log)


@model('builtins.int')
def _int(interp, st, args, kwargs):
    if not args:
        return ZERO
    v = args[0]
    if T.is_num(v):
        return num(int(v.args[1]))
    ty = interp.types_of(v)
    if ty and ty <= {'int'} or v.op in ('len', 'floor'):
        return v
    if v.op == 'ufunc' and v.args[0] == 'floor':
        return v
    return ew(T.toint, v)


@model('builtins.float')
def _float(interp, st, args, kwargs):
    v = args[0] if args else ZERO
    if T.is_str(v):
        try:
            return num(float(v.args[1]))
        except ValueError:
            pass
    return v


@model('builtins.str')
def _str(interp, st, args, kwargs):
    if not args:
        return string('')
    v = args[0]
    if T.is_str(v) or v.op == 'strcat':
        return v
    return T.strcat(string(''), v) if T.is_num(v) else raw('strcat', v)


@model('builtins.hash', 'builtins.id')
def _hash(interp, st, args, kwargs):
    return raw('hashof', interp.value_of(args[0], st))


@model('builtins.bool')
def _bool(interp, st, args, kwargs):
    return interp.truth(args[0], st) if args else FALSE


@model('builtins.round')
def _round(interp, st, args, kwargs):
    return round_(args[0], argn(args, kwargs, 1, 'ndigits', ZERO))


@model('numpy.round', 'numpy.around', 'numpy.round_')
def _npround(interp, st, args, kwargs):
    return round_(args[0], argn(args, kwargs, 1, 'decimals', ZERO))


@model('math.floor', 'numpy.floor')
def _floor(interp, st, args, kwargs):
    return ew(lambda v: num(v.args[1].__floor__()) if T.is_num(v) else raw('ufunc', 'floor', (v,)), args[0])


@model('math.ceil', 'numpy.ceil')
def _ceil(interp, st, args, kwargs):
    return ew(lambda v: num(v.args[1].__ceil__()) if T.is_num(v) else raw('ufunc', 'ceil', (v,)), args[0])


@model('math.trunc', 'numpy.trunc', 'numpy.fix')
def _trunc(interp, st, args, kwargs):
    return ew(T.toint, args[0])


@model('math.log10', 'numpy.log10')
def _log10(interp, st, args, kwargs):
    return log_of(10)(args[0])


@model('math.log', 'numpy.log')
def _log(interp, st, args, kwargs):
    if len(args) == 2:
        return log_of(int(args[1].args[1]))(args[0]) if T.is_num(args[1]) else NotImplemented
    return log_of(0)(args[0])


@model('math.sqrt')
def _sqrt(interp, st, args, kwargs):
    return ew(lambda v: raw('ufunc', 'sqrt', (v,)), args[0])


@model('builtins.pow')
def _pow(interp, st, args, kwargs):
    return T.power(args[0], args[1])


def _ext_minmax(op):
    def f(interp, st, args, kwargs):
        if len(args) > 1:
            return T._minmax(op, args)
        if kwargs.get('key') is not None:
            return NotImplemented
        if args[0].op == 'ite':
            return interp.split(st, args[0], lambda s, x: f(interp, s, [x], kwargs))
        s = interp.reify(iter_seq(interp, st, args[0]), st)
        d = kwargs.get('default')
        if all(g.op == 'one' for g in s.args) and s.args:
            return T._minmax(op, [g.args[0] for g in s.args])
        if s is NIL and d is not None:
            return d
        return extremum(op, s, d if d is not None else NONE)
    return f


def extremum(op, s, d):
    return raw('extremum', op, s, d)


TABLE['builtins.max'] = _ext_minmax('max')
TABLE['builtins.min'] = _ext_minmax('min')


@model('builtins.sum')
def _sum(interp, st, args, kwargs):
    a = argn(args, kwargs, 1, 'start', ZERO)
    if args[0].op == 'ite':
        return interp.split(st, args[0], lambda s, x: _sum(interp, s, [x] + args[1:], kwargs))
    s = interp.reify(iter_seq(interp, st, args[0]), st)
    return add(a, T.seq_sum(s)) if a is not TD0 else (T.seq_sum(s) if s.args else TD0)


@model('math.prod')
def _prod(interp, st, args, kwargs):
    v = args[0]
    if v.op == 'arr':
        return raw('aprod', v)
    s = iter_seq(interp, st, v)
    if all(g.op == 'one' for g in s.args):
        return T.size_of([g.args[0] for g in s.args])
    return raw('prodof', s)


@model('builtins.any')
def _any(interp, st, args, kwargs):
    v = args[0]
    if v.op == 'arr':
        return raw('truthy', raw('anyof', T.arr_map(bool_of, v)))
    s = interp.reify(iter_seq(interp, st, v), st)
    z = T.fresh('any')
    return T.exists(s, lam(z, truthy(z)))


@model('builtins.all')
def _all(interp, st, args, kwargs):
    v = args[0]
    if v.op == 'arr':
        return not_(raw('truthy', raw('anyof', T.arr_map(lambda x: not_(bool_of(x)), v))))
    s = interp.reify(iter_seq(interp, st, v), st)
    z = T.fresh('all')
    return not_(T.exists(s, lam(z, not_(truthy(z)))))


REDUCE = {'any': 'anyof', 'all': 'anyof', 'sum': 'asum', 'max': 'amax', 'min': 'amin', 'mean': 'amean', 'prod': 'aprod',
          'median': 'amedian', 'std': 'astd', 'var': 'avar'}


def reduced(name, v):
    """Reduction of all elements of an array."""
    if name == 'any':
        return raw('truthy', raw('anyof', T.arr_map(bool_of, v)))
    if name == 'all':
        return not_(raw('truthy', raw('anyof', T.arr_map(lambda x: not_(bool_of(x)), v))))
    return raw(REDUCE[name], v)


def reduce_(name):
    def f(interp, st, args, kwargs):
        v = unseries(args[0])
        kw = dict(kwargs)
        axis = args[1] if len(args) > 1 else kw.pop('axis', NONE)
        keep = kw.pop('keepdims', FALSE)
        if kw or len(args) > 2 or not T.is_const(axis) or not T.is_const(keep):
            return NotImplemented
        if v.op in ('seq', 'ref') and axis is NONE:
            s = interp.reify(iter_seq(interp, st, v), st)
            if name == 'sum':
                return T.seq_sum(s)
            if name == 'prod' and all(g.op == 'one' for g in s.args):
                return T.size_of([g.args[0] for g in s.args])
            a = seq_to_arr(s)
            if a is None:
                return NotImplemented
            v = a
        if v.op != 'arr':
            if name in ('any', 'all') and axis is NONE:
                if T.is_const(v) or T.LAZY[0] and v.op in T.BOOLOPS:
                    return truthy(v)
                return raw('truthy', raw('anyof', v)) if name == 'any' else not_(raw('truthy', raw('anyof', not_(bool_of(v)))))
            return NotImplemented if axis is not NONE else raw(REDUCE[name], v)
        sh = v.args[0]
        n = len(sh)
        if axis is NONE:
            r = reduced(name, v)
            return r if keep is FALSE else T.mkarr((ONE,) * n, lambda *ix: r)
        k = int(axis.args[1])
        k = k + n if k < 0 else k
        if not 0 <= k < n:
            return NotImplemented

        def at(ix):
            return reduced(name, T.mkarr((sh[k],), lambda q: T.at(v, list(ix[:k]) + [q] + list(ix[k:]))))
        if keep is FALSE:
            return T.mkarr(sh[:k] + sh[k + 1:], lambda *ix: at(ix)) if n > 1 else reduced(name, v)
        return T.mkarr(sh[:k] + (ONE,) + sh[k + 1:], lambda *ix: at(ix[:k] + ix[k + 1:]))
    return f


for _n in REDUCE:
    TABLE['numpy.' + _n] = reduce_(_n)
TABLE['numpy.amax'] = TABLE['numpy.nanmax'] = TABLE['numpy.max']
TABLE['numpy.amin'] = TABLE['numpy.nanmin'] = TABLE['numpy.min']


@model('builtins.isinstance')
def _isinstance(interp, st, args, kwargs):
    k = args[1]
    if T.REFTYPE.get(k) is I_('LIST'):
        k = interp.content(st, k)
    x = args[0]
    if is_td(x) and k.op == 'ext' and k.args[0] == 'datetime.timedelta':
        return TRUE
    return T.isinst(x, k)


@model('warnings.catch_warnings', 'numpy.errstate')
def _quiet(interp, st, args, kwargs):
    return raw('xcall', 'warnings.catch_warnings', (), ())


@model('numpy.isscalar')
def _isscalar(interp, st, args, kwargs):
    v = args[0]
    if v.op == 'ite':
        return interp.split(st, v, lambda s, x: _isscalar(interp, s, [x], {}))
    if T.is_const(v) and v is not NONE:
        return TRUE
    ty = interp.types_of(v)
    if ty and ty <= {'int', 'float', 'str', 'bool', 'float64'}:
        return TRUE
    if v is NONE or v.op in ('arr', 'series', 'seq', 'dict', 'dictc', 'ref') or ty and ty <= {'ndarray', 'Series', 'dict', 'list', 'None', 'timedelta'}:
        return FALSE
    return NotImplemented


@model('builtins.issubclass')
def _issub(interp, st, args, kwargs):
    if args[0].op == 'typeof':
        return T.isinst(args[0].args[0], args[1])
    if args[0].op == 'cls':
        return T.boolean(args[0] in T.SUBCLASSES.get(args[1], ()))
    return NotImplemented


@model('builtins.type')
def _type(interp, st, args, kwargs):
    if len(args) != 1:
        return NotImplemented
    v = args[0]
    k = T.known_type(v)
    if k is not None and k.op in ('cls', 'ext') and not T.is_num(v):
        return k
    return raw('typeof', v)


@model('builtins.callable')
def _callable(interp, st, args, kwargs):
    return raw('callable', args[0]) if args[0].op not in ('fn', 'clo', 'bound', 'cls') else TRUE


@model('builtins.getattr')
def _getattr(interp, st, args, kwargs):
    o, k = args[0], args[1]
    d = args[2] if len(args) > 2 else None
    if o.op == 'ite':
        return interp.split(st, o, lambda s, x: _getattr(interp, s, [x] + args[1:], {}))
    if k.op == 'ite':
        return interp.split(st, k, lambda s, x: _getattr(interp, s, [o, x] + args[2:], {}))
    if d is None and T.is_str(k):
        return interp.getattr_(st, o, k.args[1])
    if o.op in ('ext',):
        t = raw('xattr', o, k)
        return interp.may_raise(st, t) if interp.caught('AttributeError') else t
    c = interp.cls_of(o, st)
    v = interp.read_attr(st, o, k)
    if o.op in ('ref', 'obj'):
        miss = interp.simp(eq(v, ABSENT), st)
        if c is not None:
            for m in all_methods(interp, c):
                hit = eq(k, string(m))
                if hit is not FALSE:
                    v = ite(and_(miss, hit), raw('bound', o, interp.p.method(c, m).qual), v)
                    miss = interp.simp(eq(v, ABSENT), st)
        if d is not None:
            return interp.simp(ite(miss, d, T.strip_absent(v)), st) if miss is not TRUE else d
        if miss is TRUE:
            interp.raise_(st, TRUE, 'AttributeError')
            raise _I().Abrupt()
        interp.raise_(st, miss, 'AttributeError')
        return T.strip_absent(v)
    if d is not None:
        return ite(raw('hasattr', o, k), T.strip_absent(v), d)
    if interp.caught('AttributeError'):
        interp.raise_(st, not_(raw('hasattr', o, k)), 'AttributeError')
    return v


def all_methods(interp, c):
    out = []
    for k in interp.p.mro(c):
        for m in k.methods:
            if m not in out and '@' not in m:
                out.append(m)
    return out


@model('builtins.setattr')
def _setattr(interp, st, args, kwargs):
    interp.setattr_(st, args[0], args[1], args[2])
    return NONE


@model('builtins.hasattr')
def _hasattr(interp, st, args, kwargs):
    o, k = args
    if o.op == 'ite':
        return ite(o.args[0], _hasattr(interp, st, [o.args[1], k], {}), _hasattr(interp, st, [o.args[2], k], {}))
    c = interp.cls_of(o, st)
    if o.op == 'fn' and T.is_str(k) and not k.args[1].startswith('__'):
        return interp.simp(not_(eq(interp.read_attr(st, o, k), ABSENT)), st)
    if o.op in ('ref', 'obj') and c is not None:
        v = interp.read_attr(st, o, k)
        r = not_(eq(v, ABSENT))
        for m in all_methods(interp, c):
            r = or_(r, eq(k, string(m)))
        for kk in interp.p.mro(c):
            for a in kk.attrs:
                if a != '__slots__':
                    r = or_(r, eq(k, string(a)))
        return interp.simp(r, st)
    return raw('hasattr', o, k)


@model('builtins.vars')
def _vars(interp, st, args, kwargs):
    return raw('instdict', args[0])


@model('builtins.id', 'builtins.repr')
def _opq(interp, st, args, kwargs):
    return raw('opq', *args)


@model('builtins.super')
def _super(interp, st, args, kwargs):
    if len(args) == 2:
        return raw('superof', args[1], args[0])
    return NotImplemented


@model('builtins.object')
def _object(interp, st, args, kwargs):
    return raw('alloc', next(_I()._ids))


@model('builtins.slice')
def _slice(interp, st, args, kwargs):
    a = list(args)
    if len(a) == 1:
        a = [NONE] + a
    return raw('slice', *(a + [NONE] * (3 - len(a))))


# ---- copy
@model('copy.deepcopy')
def _deepcopy(interp, st, args, kwargs):
    return deep(interp, st, args[0], {})


def deep(interp, st, v, memo):
    I = _I()
    if v.op == 'ite':
        return ite(v.args[0], deep(interp, st, v.args[1], memo), deep(interp, st, v.args[2], memo))
    if v in memo:
        return memo[v]
    if T.is_const(v) or v.op in ('fn', 'cls', 'ext', 'clo', 'poly', 'strcat', 'arr', 'bound', 'dictc') and not any(
            x.op == 'ref' for x in T.subterms(v)):
        return v
    if v is TD0 or is_td(v) or T.scalar(v):
        return v
    if v.op == 'ref':
        r = I.newref(T.REFTYPE[v])
        memo[v] = r
        e = st.heap.get(v) or interp.gheap.get(v) or ((), ())
        st.heap[r] = tuple(tuple(deep_event(interp, st, ev, memo) for ev in log) for log in e)
        return r
    if v.op == 'seq':
        return seq(*[one(deep(interp, st, g.args[0], memo)) if g.op == 'one' else deep_seg(interp, st, g, memo)
                     for g in v.args])
    r = raw('dcopy', next(I._ids), v)
    if v in T.TYPES:
        T.TYPES[r] = T.TYPES[v]
    if v in T.REFTYPE:
        T.REFTYPE[r] = T.REFTYPE[v]
    memo[v] = r
    e = st.heap.get(v)
    if e:
        st.heap[r] = tuple(tuple(deep_event(interp, st, ev, memo) for ev in log) for log in e)
    return r


def deep_seg(interp, st, g, memo):
    return raw('splice', raw('dcopy', next(_I()._ids), seq(g)))


def deep_event(interp, st, ev, memo):
    if ev[0] == 'each':
        return ('each', ev[1], ev[2], ev[3], tuple(deep_event(interp, st, e, memo) for e in ev[4]))
    if ev[0] == 'set':
        return ('set', ev[1], deep(interp, st, ev[2], memo), ev[3])
    if ev[0] in ('append', 'extend'):
        return (ev[0], deep(interp, st, ev[1], memo), ev[2])
    if ev[0] == 'update':
        return (ev[0], deep(interp, st, ev[1], memo), ev[2])
    return ev


@model('copy.copy')
def _copy(interp, st, args, kwargs):
    return shallow(interp, st, args[0])


def shallow(interp, st, v):
    I = _I()
    if v.op == 'ite':
        return ite(v.args[0], shallow(interp, st, v.args[1]), shallow(interp, st, v.args[2]))
    if v.op == 'ref':
        r = I.newref(T.REFTYPE[v])
        st.heap[r] = st.heap.get(v) or interp.gheap.get(v) or ((), ())
        return r
    if v.op in ('arr', 'series', 'const', 'poly', 'seq'):
        return v
    ty = interp.types_of(v)
    if ty and ty <= {'dict'}:
        r = I.newref(I.DICT)
        st.heap[r] = ((), dict_log(interp, st, v))
        return r
    if 'DataFrame' in ty or v.op in ('frames', 'df'):
        r = I.newref(I.FRAME)
        st.heap[r] = ((), (('update', v, TRUE),) + tuple(interp.log_of(st, v, 1)))
        return r
    if ty and ty <= {'list'}:
        return _list(interp, st, [v], {})
    r = raw('scopy', next(I._ids), v)
    if v in T.TYPES:
        T.TYPES[r] = T.TYPES[v]
    e = st.heap.get(v)
    if e:
        st.heap[r] = e
    return r


# ---- inspect / functools / operator
@model('inspect.signature')
def _sig(interp, st, args, kwargs):
    return raw('signature', args[0])


@model('inspect.getfullargspec', 'inspect.getargspec')
def _argspec(interp, st, args, kwargs):
    return raw('argspec', args[0])


@model('functools.partial')
def _partial(interp, st, args, kwargs):
    return raw('partial', args[0], tuple(args[1:]), tuple(sorted((k, v) for k, v in kwargs.items() if k != '**'))) \
        if '**' not in kwargs else NotImplemented


@model('functools.reduce')
def _reduce(interp, st, args, kwargs):
    I = _I()
    f, it = args[0], args[1]
    segs = interp.iteration(st, it)
    cur = args[2] if len(args) > 2 else None
    if all(s[0] == 'one' for s in segs):
        vals = [s[1] for s in segs]
        if cur is None:
            cur, vals = vals[0], vals[1:]
        for v in vals:
            cur = interp.call_value(f, [cur, v], {}, st)
        return cur
    return NotImplemented


@model('operator.itemgetter')
def _itemgetter(interp, st, args, kwargs):
    return raw('getter', tuple(args))


@model('operator.attrgetter')
def _attrgetter(interp, st, args, kwargs):
    return NotImplemented


@model('itertools.product')
def _product(interp, st, args, kwargs):
    I = _I()
    r = I.newref(I.LIST)
    st.heap[r] = ((), ())

    def level(i, acc):
        def body(s, val, ex):
            if i + 1 == len(args):
                s.push(r, 1, ('append', T.mklist(*(acc + [val])), TRUE))
                return s
            return interp.run_loop(s, interp.iteration(s, args[i + 1]), level(i + 1, acc + [val]), ex)
        return body
    s2 = interp.run_loop(st.copy(), interp.iteration(st, args[0]), level(0, []), [])
    st.become(s2)
    return r


@model('itertools.chain')
def _chain(interp, st, args, kwargs):
    return seq(*[g for a in args for g in iter_seq(interp, st, a).args])


@model('numpy.ndindex')
def _ndindex(interp, st, args, kwargs):
    dims = args
    if len(args) == 1:
        sh = shape_arg(interp, st, args[0])
        if sh is None:
            return NotImplemented
        dims = list(sh)
    return _product(interp, st, [raw('range', ZERO, d, ONE) for d in dims], {})


# ---- datetime
@model('datetime.timedelta', 'pandas.Timedelta')
def _td(interp, st, args, kwargs):
    return timedelta_(interp, st, args, kwargs)


# ---- numpy construction
def fill(interp, st, shape, val):
    sh = shape_arg(interp, st, shape)
    if sh is None:
        return raw('fullopq', interp.value_of(shape, st), interp.value_of(val, st))
    if val.op == 'ref':
        v2 = to_arr(interp, st, val)
        val = v2 if v2 is not None else val
    if val.op == 'series':
        val = val.args[0]
    if val.op == 'arr':
        vs = val.args[0]
        b = T.bshape(sh, vs)
        if b is None:
            return raw('badshape', raw('fullof', T.mklist(*sh)), val)
        if len(b) != len(sh) or any(x is not y for x, y in zip(b, sh)):
            return raw('badshape', raw('fullof', T.mklist(*sh)), val)
        return T.mkarr(sh, lambda *ix: T.bat(val, list(ix)))
    if val.op == 'ite' and (val.args[1].op == 'arr' or val.args[2].op == 'arr'):
        return ite(val.args[0], fill(interp, st, shape, val.args[1]), fill(interp, st, shape, val.args[2]))
    return T.mkarr(sh, lambda *ix: val)


@model('numpy.full')
def _full(interp, st, args, kwargs):
    v = argn(args, kwargs, 1, 'fill_value')
    d = argn(args, kwargs, 2, 'dtype')
    return fill(interp, st, argn(args, kwargs, 0, 'shape'), cast(interp, v, d))


def cast(interp, v, d):
    """v stored in an array of element type d."""
    if d is None or d is NONE or d.op == 'ext' and d.args[0] in FLOAT_TYPES or T.is_str(d) and d.args[1] in ('float', 'float64', 'object'):
        return v
    if int_dtype(d):
        return ew(T.toint, v)
    if d.op == 'dtypeof' and (d.args[0] in interp.float_arrays or is_computed_float(d.args[0])):
        return v
    return ew(lambda q: raw('castlike', q, d), v)


FLOAT_TYPES = ('builtins.float', 'numpy.float64', 'numpy.double', 'numpy.longdouble', 'builtins.object', 'numpy.float_')


def int_dtype(d):
    if d is None or d is NONE:
        return False
    return (d.op == 'ext' and d.args[0] in INT_TYPES) or (T.is_str(d) and d.args[1].startswith(('int', 'uint', 'bool')))


INT_TYPES = ('builtins.int', 'numpy.int64', 'builtins.bool', 'numpy.int32', 'numpy.intp', 'numpy.int16', 'numpy.int8', 'numpy.bool_',
             'numpy.uint8', 'numpy.uint32', 'numpy.uint64')


@model('math.isclose')
def _misclose(interp, st, args, kwargs):
    a, b = args
    rel, ab = kwargs.get('rel_tol', T.num('1e-9')), kwargs.get('abs_tol', ZERO)
    return or_(eq(a, b), not_(lt(T.max_(mul(rel, T.max_(T.abs_(a), T.abs_(b))), ab), T.abs_(sub(a, b)))))


@model('numpy.isclose')
def _npisclose(interp, st, args, kwargs):
    kw = dict(kwargs)
    rtol, atol = kw.pop('rtol', T.num('1e-5')), kw.pop('atol', T.num('1e-8'))
    if kw or len(args) != 2:
        return NotImplemented
    return ew(lambda a, b: isclose(a, b, rtol, atol), *[to_arr(interp, st, a) or a if a.op == 'ref' else a for a in args])


@model('numpy.allclose')
def _allclose(interp, st, args, kwargs):
    r = _npisclose(interp, st, args, kwargs)
    return r if r is NotImplemented else r if r.op != 'arr' else reduced('all', r)


@model('numpy.zeros')
def _zeros(interp, st, args, kwargs):
    return fill(interp, st, argn(args, kwargs, 0, 'shape'), ZERO)


@model('numpy.ones')
def _ones(interp, st, args, kwargs):
    return fill(interp, st, argn(args, kwargs, 0, 'shape'), ONE)


@model('numpy.empty')
def _empty(interp, st, args, kwargs):
    return fill(interp, st, argn(args, kwargs, 0, 'shape'), EMPTY)


def like(interp, st, a, v, kwargs, dtype):
    """np.full_like(a, v): without a dtype the value is cast to a's element type."""
    if a.op == 'ite':
        return ite(a.args[0], like(interp, st, a.args[1], v, kwargs, dtype), like(interp, st, a.args[2], v, kwargs, dtype))
    x = to_arr(interp, st, a)
    flt = dtype is not None and dtype is not NONE
    if flt and int_dtype(dtype):
        v = ew(T.toint, v)
    if x is None:
        if interp.types_of(a) <= {'ndarray'} or True:
            return raw('likeopq', interp.value_of(a, st), interp.value_of(v if flt else raw('castlike', v, a), st))
    if x.op != 'arr':
        return v if flt else raw('castlike', v, raw('dtypeof', a))
    if not flt and x.args[0] is not None:
        fl = a in interp.float_arrays or is_computed_float(a)
        if not fl:
            v = ew(lambda q: raw('castlike', q, raw('dtypeof', a)), v)
    return fill(interp, st, T.mklist(*x.args[0]), v)


def is_computed_float(a):
    """Element type certainly floating point (result of a division, logarithm or non-integer constant)."""
    if a.op != 'arr':
        return False
    b = a.args[1]
    while b.op == 'lam':
        b = b.args[1]
    return _flt(b)


def _flt(b):
    if T.is_num(b):
        return b.args[1].denominator != 1
    if b.op == 'poly':
        return any(c.denominator != 1 or any(e < 0 for _, e in m) or any(_flt(x) for x, _ in m) for c, m in b.args)
    if b.op == 'log' or b.op == 'pow':
        return True
    if b.op == 'sym' and b.args[0] in ('num:inf', 'num:nan'):
        return True
    return False


@model('numpy.full_like')
def _full_like(interp, st, args, kwargs):
    return like(interp, st, args[0], argn(args, kwargs, 1, 'fill_value'), kwargs, argn(args, kwargs, 2, 'dtype'))


@model('numpy.zeros_like')
def _zeros_like(interp, st, args, kwargs):
    return like(interp, st, args[0], ZERO, kwargs, argn(args, kwargs, 1, 'dtype'))


@model('numpy.ones_like')
def _ones_like(interp, st, args, kwargs):
    return like(interp, st, args[0], ONE, kwargs, argn(args, kwargs, 1, 'dtype'))


@model('numpy.empty_like')
def _empty_like(interp, st, args, kwargs):
    return like(interp, st, args[0], EMPTY, kwargs, argn(args, kwargs, 1, 'dtype') or X('builtins.float'))


@model('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy')
def _array(interp, st, args, kwargs):
    v = argn(args, kwargs, 0, 'object')
    if v.op == 'ite':
        return interp.split(st, v, lambda s, x: _array(interp, s, [x] + args[1:], kwargs))
    dt = argn(args, kwargs, 1, 'dtype')
    x = to_arr(interp, st, v)
    if x is not None:
        if int_dtype(dt):
            x = T.arr_map(T.toint, x)
        return x
    if v.op == 'series':
        return raw('asarray', v.args[0])
    ty = interp.types_of(v)
    if ty and ty <= {'ndarray'}:
        return v
    return raw('asarray', interp.value_of(v, st))


@model('numpy.atleast_1d')
def _atleast1(interp, st, args, kwargs):
    v = args[0].args[0] if args[0].op == 'round' else args[0]
    if v.op == 'elt' and v.args[0].op == 'rngdraw':
        return T.mkarr((ONE,), lambda i: args[0])
    x = to_arr(interp, st, args[0])
    if x is None:
        return NotImplemented
    return x if x.args[0] else T.reshape(x, (ONE,))


@model('numpy.atleast_3d')
def _atleast3(interp, st, args, kwargs):
    x = to_arr(interp, st, args[0])
    if x is None or len(x.args[0]) < 3:
        return NotImplemented
    return x


@model('numpy.where')
def _where(interp, st, args, kwargs):
    if len(args) != 3:
        return NotImplemented
    xs = []
    for a in args:
        if a.op == 'ref':
            b = to_arr(interp, st, a)
            a = b if b is not None else a
        xs.append(a)
    return where_(*xs)


@model('numpy.clip')
def _npclip(interp, st, args, kwargs):
    return clip_(args[0], argn(args, kwargs, 1, 'a_min', NONE), argn(args, kwargs, 2, 'a_max', NONE))


@model('numpy.reshape')
def _npreshape(interp, st, args, kwargs):
    return method(interp, st, args[0], 'reshape', [argn(args, kwargs, 1, 'shape', kwargs.get('newshape'))], {})


@model('numpy.unravel_index')
def _unravel(interp, st, args, kwargs):
    ix, shape = args[0], interp.content(st, args[1]) if len(args) == 2 and not kwargs else NIL
    if shape.op != 'seq' or not shape.args or not all(g.op == 'one' for g in shape.args) or ix.op != 'arr' or len(ix.args[0]) != 1:
        return NotImplemented
    dims = [g.args[0] for g in shape.args]
    out = []
    for k in range(len(dims)):
        inner = ONE
        for d in dims[k + 1:]:
            inner = T.mul(inner, d)

        def one_of(i, k=k, inner=inner):
            v = T.fdiv(T.at(ix, [i]), inner)
            return v if k == 0 else T.mod(v, dims[k])
        out.append(one(T.mkarr(ix.args[0], one_of)))
    return seq(*out)


@model('numpy.ravel')
def _npravel(interp, st, args, kwargs):
    return method(interp, st, args[0], 'ravel', args[1:], kwargs)


@model('numpy.expand_dims')
def _expand(interp, st, args, kwargs):
    x = args[0]
    if x.op == 'ite':
        return interp.split(st, x, lambda s, y: _expand(interp, s, [y] + args[1:], kwargs))
    a = to_arr(interp, st, x)
    ax = argn(args, kwargs, 1, 'axis')
    if a is None or not T.is_num(ax):
        return raw('expand', interp.value_of(x, st), ax)
    n = int(ax.args[1])
    sh = list(a.args[0])
    if n < 0:
        n += len(sh) + 1
    sh.insert(n, ONE)
    return T.mkarr(sh, lambda *ix: T.at(a, list(ix[:n]) + list(ix[n + 1:])))


@model('numpy.squeeze')
def _squeeze(interp, st, args, kwargs):
    return method(interp, st, args[0], 'squeeze', args[1:], kwargs)


@model('numpy.transpose')
def _transpose(interp, st, args, kwargs):
    return method(interp, st, args[0], 'transpose', args[1:], kwargs)


@model('numpy.swapaxes')
def _swap(interp, st, args, kwargs):
    a = to_arr(interp, st, args[0])
    if a is None or not all(T.is_num(x) for x in args[1:3]):
        return NotImplemented
    n = len(a.args[0])
    i, j = [int(x.args[1]) % n for x in args[1:3]]
    perm = list(range(n))
    perm[i], perm[j] = perm[j], perm[i]
    return permute(a, perm)


def permute(a, perm):
    sh = a.args[0]

    def f(*ix):
        src = [None] * len(perm)
        for k, p in enumerate(perm):
            src[p] = ix[k]
        return T.at(a, src)
    return T.mkarr([sh[p] for p in perm], f)


@model('numpy.broadcast_to')
def _bto(interp, st, args, kwargs):
    return fill(interp, st, argn(args, kwargs, 1, 'shape'), args[0])


@model('numpy.arange')
def _arange(interp, st, args, kwargs):
    a = [x for x in args]
    lo, hi, stp = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) >= 2:
        lo, hi = a[0], a[1]
        stp = a[2] if len(a) > 2 else kwargs.get('step', ONE)
    if hi is None or stp is not ONE:
        return NotImplemented
    return T.mkarr((sub(hi, lo),), lambda i: add(lo, i))


@model('numpy.linspace')
def _linspace(interp, st, args, kwargs):
    lo, hi = args[0], args[1]
    n = argn(args, kwargs, 2, 'num', num(50))
    if kwargs.get('endpoint', TRUE) is not TRUE:
        return NotImplemented
    span = sub(hi, lo)
    if span is sub(n, ONE):
        return T.mkarr((n,), lambda i: add(lo, i))
    dt = kwargs.get('dtype')
    cast = dt is not None and dt.op == 'ext' and dt.args[0] == 'builtins.int'

    def f(i):
        v = add(lo, mul(i, T.div(span, sub(n, ONE))))
        return T.toint(v) if cast else v
    return T.mkarr((n,), f)


@model('numpy.tile')
def _tile(interp, st, args, kwargs):
    a = to_arr(interp, st, args[0])
    reps = argn(args, kwargs, 1, 'reps')
    sh = shape_arg(interp, st, reps)
    if a is None or sh is None:
        return raw('tileopq', interp.value_of(args[0], st), interp.value_of(reps, st))
    if len(a.args[0]) == 1 and len(sh) == 1:
        n = a.args[0][0]
        return T.mkarr((mul(n, sh[0]),), lambda i: T.at(a, [T.mod(i, n)]))
    if len(a.args[0]) == 0 and len(sh) >= 1:
        return T.mkarr(sh, lambda *ix: T.at(a, []))
    base = list(a.args[0])
    d = max(len(base), len(sh))
    base = [ONE] * (d - len(base)) + base
    rp = [ONE] * (d - len(sh)) + list(sh)
    k = d - len(a.args[0])
    return T.mkarr([mul(x, y) for x, y in zip(base, rp)],
                   lambda *ix: T.at(a, [T.mod(i, n) for i, n in list(zip(ix, base))[k:]]))


@model('numpy.repeat')
def _repeat(interp, st, args, kwargs):
    a = to_arr(interp, st, args[0])
    r = argn(args, kwargs, 1, 'repeats')
    ax = argn(args, kwargs, 2, 'axis')
    if a is None or r.op in ('arr', 'seq', 'ref'):
        return raw('repeatopq', interp.value_of(args[0], st), interp.value_of(r, st))
    if ax is not None and ax is not NONE:
        if not T.is_num(ax):
            return NotImplemented
        n = int(ax.args[1]) % len(a.args[0])
        sh = list(a.args[0])
        sh[n] = mul(sh[n], r)
        return T.mkarr(sh, lambda *ix: T.at(a, [T.fdiv(i, r) if k == n else i for k, i in enumerate(ix)]))
    if len(a.args[0]) == 0:
        return T.mkarr((r,), lambda i: T.at(a, []))
    a = T.ravel(a)
    return T.mkarr((mul(a.args[0][0], r),), lambda i: T.at(a, [T.fdiv(i, r)]))


@model('numpy.meshgrid')
def _meshgrid(interp, st, args, kwargs):
    if kwargs.get('indexing') is not string('ij'):
        return NotImplemented
    xs = [to_arr(interp, st, a) for a in args]
    if any(x is None for x in xs):
        return NotImplemented
    sh = [x.args[0][0] for x in xs]
    return T.mklist(*[T.mkarr(sh, lambda *ix, x=x, k=k: T.at(x, [ix[k]])) for k, x in enumerate(xs)])


@model('numpy.indices')
def _indices(interp, st, args, kwargs):
    sh = shape_arg(interp, st, args[0])
    if sh is None:
        return NotImplemented
    return T.mklist(*[T.mkarr(sh, lambda *ix, k=k: ix[k]) for k in range(len(sh))])


@model('numpy.shape')
def _npshape(interp, st, args, kwargs):
    return interp.getattr_(st, args[0], 'shape')


@model('numpy.size')
def _npsize(interp, st, args, kwargs):
    return interp.getattr_(st, args[0], 'size')


@model('numpy.ndim')
def _npndim(interp, st, args, kwargs):
    return interp.getattr_(st, args[0], 'ndim')


@model('numpy.float64', 'numpy.float32', 'numpy.int64')
def _npfloat(interp, st, args, kwargs):
    return args[0] if args else ZERO


@model('numpy.concatenate')
def _npconcat(interp, st, args, kwargs):
    return NotImplemented


@model('numpy.random.default_rng')
def _rng(interp, st, args, kwargs):
    seed = argn(args, kwargs, 0, 'seed', NONE)
    r = _I().newref(X('numpy.random.Generator'))
    start = raw('rngseed', interp.value_of(seed, st))
    interp.setattr_(st, r, string('state'), start, raw_set=True)
    return r


def rng_method(interp, st, o, name, args, kwargs):
    """A draw is determined by the generator's stream so far and the request."""
    if args and name in ('normal', 'uniform', 'gamma'):
        pos = {'normal': ('loc', 'scale', 'size'), 'uniform': ('low', 'high', 'size'), 'gamma': ('shape', 'scale', 'size')}[name]
        kwargs = {**dict(zip(pos, args)), **kwargs}
        args = []
    now = interp.read_attr(st, o, string('state'))
    if now.op == 'rngseed' and now.args[0] is NONE:
        now = interp.draw(st, now)            # every unseeded generator has a stream of its own
    one = not args and kwargs.get('size', NONE) is NONE
    if one:
        kwargs = {**kwargs, 'size': ONE}
    kw = interp.value_of(interp.kwargs_term(st, kwargs), st)
    t = raw('rngdraw', name, now, tuple(interp.value_of(a, st) for a in args), kw)
    interp.setattr_(st, o, string('state'), raw('rngnext', t), raw_set=True)
    if one:
        return raw('elt', t, (ZERO,))
    size = T.dict_lookup(kw, string('size')) if kw.op in ('dict', 'dictc') else NONE
    if size is not NONE and T.POSITIVE and (size in T.POSITIVE or size.op == 'poly'):
        return T.mkarr((size,), lambda *ix: raw('elt', t, tuple(ix)))
    return t


# ---- pandas
@model('pandas.DataFrame')
def _df(interp, st, args, kwargs):
    return make_frame(interp, st, args, kwargs)


@model('pandas.concat')
def _concat(interp, st, args, kwargs):
    return concat(interp, st, args, kwargs)


@model('pandas.Series')
def _series(interp, st, args, kwargs):
    v = argn(args, kwargs, 0, 'data')
    if v is None:
        return raw('series', T.mkarr((ZERO,), lambda i: NAN))
    if v.op == 'ite':
        return interp.split(st, v, lambda s, x: _series(interp, s, [x] + args[1:], kwargs))
    if v.op == 'series':
        return v
    x = to_arr(interp, st, v)
    if x is not None:
        if not x.args[0]:
            x = T.reshape(x, (ONE,))
        return raw('series', x)
    return raw('series', interp.value_of(v, st))


# ---- files: what was written to a path is what is read from it
FS = raw('ref', -1)
T.REFTYPE[FS] = X('builtins.dict')
_I().State.G[FS] = ((), ())


def path_of(interp, st, p):
    p = interp.value_of(p, st)
    if p.op == 'xcall' and p.args[0] == 'pathlib.Path' and len(p.args[1]) == 1:
        return p.args[1][0]
    return p


@model('builtins.open', 'io.open')
def _open(interp, st, args, kwargs):
    I = _I()
    mode = argn(args, kwargs, 1, 'mode', string('r'))
    if not T.is_str(mode):
        return NotImplemented
    p = path_of(interp, st, argn(args, kwargs, 0, 'file'))
    r = I.newref(I.FILE)
    interp.setattr_(st, r, string('path'), p, raw_set=True)
    if 'w' in mode.args[1]:
        st.push(FS, 1, ('set', p, string(''), TRUE))
    elif 'a' not in mode.args[1] and interp.caught('FileNotFoundError', 'OSError', 'IOError'):
        missing = eq(file_at(interp, st, p), ABSENT)
        interp.raise_(st, and_(missing, raw('exc', 'FileNotFoundError', raw('xcall', 'open', (p,), raw('dictc')))),
                      'FileNotFoundError')
    return r


def file_at(interp, st, p):
    return interp.log_lookup(interp.log_of(st, FS, 1), p, ABSENT)


def file_text(interp, st, p):
    v = file_at(interp, st, p)
    return interp.simp(ite(eq(v, ABSENT), raw('filetext', p), T.strip_absent(v)), st) if v is not ABSENT else raw('filetext', p)


def file_write(interp, st, p, text):
    old = file_text(interp, st, p)
    st.push(FS, 1, ('set', p, text if T.is_str(old) and not old.args[1] else T.strcat(old, text), TRUE))
    return NONE


def file_method(interp, st, o, name, args, kwargs):
    p = interp.read_attr(st, o, string('path'))
    if name == 'write':
        return file_write(interp, st, p, interp.value_of(args[0], st))
    if name == 'read' and not args:
        return file_text(interp, st, p)
    if name in ('close', 'flush'):
        return NONE
    if name == '__enter__':
        return o
    return unknown_method(interp, st, o, name, args, kwargs)


def loads(t):
    if t.op == 'ite':
        return ite(t.args[0], loads(t.args[1]), loads(t.args[2]))
    if t.op == 'jsons':
        return t.args[0]
    return raw('jsonval', t)


T.BUILD['jsonval'] = loads


@model('json.dumps')
def _dumps(interp, st, args, kwargs):
    return raw('jsons', interp.value_of(args[0], st))


@model('json.dump')
def _dump(interp, st, args, kwargs):
    f = argn(args, kwargs, 1, 'fp')
    if T.REFTYPE.get(f) is not _I().FILE:
        return NotImplemented
    return file_write(interp, st, interp.read_attr(st, f, string('path')), raw('jsons', interp.value_of(args[0], st)))


@model('json.loads')
def _loads(interp, st, args, kwargs):
    return loads(interp.value_of(args[0], st))


@model('json.load')
def _load(interp, st, args, kwargs):
    f = args[0]
    if T.REFTYPE.get(f) is not _I().FILE:
        return NotImplemented
    return loads(file_text(interp, st, interp.read_attr(st, f, string('path'))))


@model('io.StringIO')
def _sio(interp, st, args, kwargs):
    return raw('textio', interp.value_of(args[0], st)) if args else NotImplemented


def written(x, digits):
    """A column after it was written with that many decimals."""
    def f(y):
        if y.op == 'ite':
            return ite(y.args[0], f(y.args[1]), f(y.args[2]))
        if T.is_num(y) and y.args[1].denominator == 1 or y.op == 'const' and not T.is_num(y) or T.is_integer(y):
            return y
        return raw('round', y, digits)
    if x.op == 'series':
        return raw('series', written(x.args[0], digits))
    return ew(f, x)


@model('pandas.read_json')
def _read_json(interp, st, args, kwargs):
    I = _I()
    if len(args) != 1 or kwargs:
        return NotImplemented
    v = interp.value_of(args[0], st)
    if v.op == 'ite':
        return interp.split(st, v, lambda s, x: _read_json(interp, s, [x], {}))
    if v.op == 'textio':
        v = v.args[0]
    if v.op == 'xmethod' and v.args[0] == 'to_json' and v.args[2] == () and v.args[3].op == 'dictc':
        kw = dict(v.args[3].args)
        dp = kw.pop(string('double_precision'), num(10))
        d = v.args[1]
        if d.op == 'df' and not kw and T.is_num(dp):
            if dp is num(15):
                return make_frame(interp, st, [d.args[0]], {})
            if d.args[0].op == 'dictc':
                return make_frame(interp, st, [T.raw('dictc', *[(k, written(x, dp)) for k, x in d.args[0].args])], {})
    r = I.newref(I.FRAME)
    st.heap[r] = ((), (('update', raw('jsonframe', v), TRUE),))
    return r


@model('pandas.to_timedelta')
def _to_td(interp, st, args, kwargs):
    u = argn(args, kwargs, 1, 'unit')
    f = {'s': 1, 'seconds': 1, 'h': 3600, 'hours': 3600, 'days': 86400, 'd': 86400, 'D': 86400, 'ms': T.Fraction(1, 1000),
         'us': T.Fraction(1, 10 ** 6)}
    if u is None or not T.is_str(u) or u.args[1] not in f:
        return NotImplemented
    return ew(lambda v: td_of(mul(num(f[u.args[1]]), v)), args[0])


# ---------------------------------------------------------------- methods
STR_METHODS = {'lower', 'upper', 'capitalize', 'strip', 'title', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace',
               'removeprefix', 'removesuffix'}


def method(interp, st, o, name, args, kwargs):
    I = _I()
    kind = T.REFTYPE.get(o)
    if o.op == 'ite':
        return interp.split(st, o, lambda s, x: interp.call_method(s, x, name, args, kwargs))
    # strings
    if T.is_str(o) or o.op == 'strcat' or interp.types_of(o) == frozenset({'str'}):
        if T.is_str(o) and name in STR_METHODS and all(T.is_str(a) for a in args):
            return T.const(getattr(o.args[1], name)(*[a.args[1] for a in args]))
        if T.is_str(o) and name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines') and not kwargs and all(
                T.is_str(a) or T.is_num(a) for a in args):
            try:
                got = getattr(o.args[1], name)(*[int(a.args[1]) if T.is_num(a) else a.args[1] for a in args])
            except (TypeError, ValueError):
                return NotImplemented
            return seq(*[one(string(x)) for x in got])
        if name == 'format':
            return NotImplemented
        if name == 'join':
            s = interp.reify(iter_seq(interp, st, args[0]), st)
            if all(g.op == 'one' for g in s.args):
                out = []
                for i, g in enumerate(s.args):
                    if i:
                        out.append(o)
                    out.append(g.args[0])
                return T.strcat(*out)
            return raw('strjoin', o, s)
        if name in STR_METHODS | {'rpartition', 'partition', 'split', 'rsplit'}:
            return raw('strm', name, o, tuple(interp.value_of(a, st) for a in args))
        return NotImplemented
    # durations
    if name == 'total_seconds' and not args:
        return secs(o)
    if name == 'is_integer':
        if T.is_num(o):
            return T.boolean(o.args[1].denominator == 1)
        return raw('truthy', raw('isint', o))
    # arrays and series
    if o.op == 'arr':
        r = arr_method(interp, st, o, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if o.op == 'series':
        r = series_method(interp, st, o, name, args, kwargs)
        if r is not NotImplemented:
            return r
        return unknown_method(interp, st, o, name, args, kwargs)
    if kind is I.FRAME or o.op in ('df', 'frames', 'framesix'):
        return frame_method(interp, st, o, name, args, kwargs)
    if kind is I.DICT or o.op in ('dict', 'dictc'):
        return dict_method(interp, st, o, name, args, kwargs)
    if kind is I.LIST or o.op == 'seq':
        if o.op == 'seq' and name == 'keys':
            return o
        return list_method(interp, st, o, name, args, kwargs)
    if kind is I.FILE:
        return file_method(interp, st, o, name, args, kwargs)
    if kind is X('numpy.random.Generator'):
        return rng_method(interp, st, o, name, args, kwargs)
    if kind is I.SET or o.op == 'set':
        return set_method(interp, st, o, name, args, kwargs)
    if o.op == 'instdict':
        return dict_method(interp, st, o, name, args, kwargs)
    if o.op in ('keysof', 'valuesof', 'itemsof') and name in ('isdisjoint',):
        return NotImplemented
    if o.op == 'sigparams' and name == 'keys':
        return o
    if o.op == 'sigparams' and name in ('items', 'values'):
        return raw(name + 'of', o)
    ty = interp.types_of(o)
    if is_logger(o):
        t = raw('xmethod', name, o, tuple(interp.value_of(a, st) for a in args), interp.kwargs_term(st, kwargs))
        interp.trace_call(st, t)
        if name in ('addHandler', 'removeHandler') and len(args) == 1 and not kwargs:
            todo = [(TRUE, interp.getattr_(st, o, 'handlers'))]
            while todo:
                when, held = todo.pop()
                if held.op == 'ite':
                    todo += [(and_(when, held.args[0]), held.args[1]), (and_(when, not_(held.args[0])), held.args[2])]
                if T.REFTYPE.get(held) is not I.LIST:
                    continue
                if name == 'removeHandler':
                    left = without(interp, st, interp.content(st, held), args[0])
                    if left is None:
                        st.push(held, 1, ('opaque', string(name), when))
                    else:
                        st.push(held, 1, ('clear', when))
                        st.push(held, 1, ('extend', left, when))
                else:
                    there = interp.truth(interp.contains_(st, args[0], held), st)
                    st.push(held, 1, ('append', args[0], interp.simp(and_(when, not_(there)), st)))
        return NONE
    if 'DataFrame' in ty:
        return frame_method(interp, st, o, name, args, kwargs)
    if 'Series' in ty and not (ty & {'dict', 'list'}):
        r = series_method(interp, st, raw('series', o), name, args, kwargs)
        if r is not NotImplemented:
            return r
    if interp.cls_of(o, st) is None:
        if name == 'round' and o.op == 'elt':
            return round_(o, argn(args, kwargs, 0, 'decimals', ZERO))
        owners = interp.p.method_owners(name)
        if owners and name not in ('items', 'keys', 'values', 'get', 'append', 'extend', 'update', 'copy'):
            return NotImplemented
        if name in ('reshape', 'ravel', 'flatten', 'astype', 'transpose', 'squeeze') or ty <= {'ndarray'}:
            r = opaque_arr_method(interp, st, o, name, args, kwargs)
            if r is not NotImplemented:
                return r
        if ty <= {'list', 'None'} and ty:
            return list_method(interp, st, o, name, args, kwargs)
        if name in ('append', 'extend', 'insert', 'remove'):
            return list_method(interp, st, o, name, args, kwargs)
        if name in ('get', 'items', 'keys', 'values', 'update', 'copy', 'setdefault', 'clear', 'pop'):
            return dict_method(interp, st, o, name, args, kwargs)
    return NotImplemented


def without(interp, st, c, v):
    """The sequence c without the elements that are v; None when they cannot be told."""
    out = []
    for g in c.args:
        if g.op == 'one':
            keep = T.cond_seg(interp.simp(is_(g.args[0], v), st), NIL, seq(g))
        elif g.op == 'cond':
            a, b = [without(interp, st, x if x.op == 'seq' else seq(x), v) for x in g.args[1:]]
            if a is None or b is None:
                return None
            keep = T.cond_seg(g.args[0], a, b)
        else:
            return None
        out.extend(keep.args if keep.op == 'seq' else [keep])
    return seq(*out)


def generic_method(interp, st, o, name, args, kwargs):
    return unknown_method(interp, st, o, name, args, kwargs)


QUIETM = {'mkdir', 'read', 'write', 'close', 'to_json', 'to_event', 'setLevel', 'addHandler', 'removeHandler',
          'is_integer', 'open', 'exists'}


def unknown_method(interp, st, o, name, args, kwargs):
    if o.op == 'ref':
        interp.unknown.add('method on object ' + name)
    elif name not in QUIETM:
        interp.unknown.add('method ' + name)
    t = raw('xmethod', name, interp.value_of(o, st), tuple(interp.value_of(a, st) for a in args),
            interp.value_of(interp.kwargs_term(st, kwargs), st))
    interp.trace_call(st, t)
    return interp.may_raise(st, t)


def opaque_arr_method(interp, st, o, name, args, kwargs):
    if name in ('copy',):
        return shallow(interp, st, o)
    if name == 'astype':
        return T.toint(o) if int_dtype(argn(args, kwargs, 0, 'dtype')) else o
    if name in ('reshape', 'ravel', 'flatten', 'transpose', 'squeeze', 'sum', 'all', 'any', 'tolist', 'min', 'max'):
        a = tuple(interp.value_of(x, st) for x in args)
        if name == 'reshape' and len(a) == 1 and a[0].op == 'seq':
            a = tuple(g.args[0] for g in a[0].args if g.op == 'one')
        return raw('arrm', name, o, a)
    return NotImplemented


def rev(sh):
    return list(range(len(sh)))[::-1]


def in_order(interp, st, order, by_row, by_col):
    if order.op == 'ite':
        return interp.split(st, order, lambda s, x: in_order(interp, s, x, by_row, by_col))
    if T.is_str(order) and order.args[1] in 'CF':
        return by_row() if order.args[1] == 'C' else by_col()
    return NotImplemented


def arr_method(interp, st, o, name, args, kwargs):
    if name == 'squeeze' and not args and not kwargs:
        out, sh = [], o.args[0]
        free = [i for i, d in enumerate(sh) if not T.is_num(d)]
        for drop in itertools.product((True, False), repeat=len(free)):
            gone = {i for i, x in zip(free, drop) if x} | {i for i, d in enumerate(sh) if d is ONE}
            cond = and_(*[eq(sh[i], ONE) if x else not_(eq(sh[i], ONE)) for i, x in zip(free, drop)])
            x = T.mkarr([d for i, d in enumerate(sh) if i not in gone], lambda *ix, it=None, gone=gone: T.at(
                o, [ZERO if i in gone else ix[i - sum(1 for g in gone if g < i)] for i in range(len(sh))]))
            out.append((cond, x))
        r = out[-1][1]
        for c, x in out[-2::-1]:
            r = ite(c, x, r)
        return r
    if name == 'reshape':
        sh = args
        if len(args) == 1:
            s = shape_arg(interp, st, args[0])
            if s is None:
                return raw('arrm', name, o, tuple(interp.value_of(x, st) for x in args))
            sh = s
        if T.size_of(sh) is not T.size_of(o.args[0]):
            sh = [interp.simp(d, st) for d in sh]
        if 'order' in kwargs:
            if T.reshape(o, list(sh)).op != 'arr':
                return NotImplemented
            return in_order(interp, st, kwargs['order'], lambda: T.reshape(o, list(sh)),
                            lambda: permute(T.reshape(permute(o, rev(o.args[0])), list(sh)[::-1]), rev(sh)))
        return T.reshape(o, list(sh))
    if name in ('ravel', 'flatten'):
        if args or kwargs:
            return in_order(interp, st, argn(args, kwargs, 0, 'order'), lambda: T.ravel(o), lambda: T.ravel(permute(o, rev(o.args[0]))))
        return T.ravel(o) if o.args[0] else T.reshape(o, (ONE,))
    if name == 'copy':
        return o
    if name == 'astype':
        if int_dtype(argn(args, kwargs, 0, 'dtype')):
            return T.arr_map(T.toint, o)
        return o
    if name in ('transpose',):
        n = len(o.args[0])
        ax = args
        if len(args) == 1:
            ax = shape_arg(interp, st, args[0]) or ()
        perm = [int(x.args[1]) for x in ax if T.is_num(x)] or list(reversed(range(n)))
        return permute(o, perm)
    if name == 'swapaxes':
        return _swap(interp, st, [o] + args, kwargs)
    if name == 'repeat':
        return _repeat(interp, st, [o] + args, kwargs)
    if name == 'clip':
        return clip_(o, argn(args, kwargs, 0, 'min', NONE), argn(args, kwargs, 1, 'max', NONE))
    if name == 'round':
        return round_(o, argn(args, kwargs, 0, 'decimals', ZERO))
    if name in REDUCE:
        return TABLE['numpy.' + name](interp, st, [o] + args, kwargs)
    if name == 'item' and not args:
        return T.at(T.ravel(o), [ZERO]) if o.args[0] else T.at(o, [])
    if name == 'tolist':
        return o
    return NotImplemented


def apply_fn(interp, st, f, v, extra):
    """f applied to one element."""
    return interp.call_value(f, [v], extra, st)


def map_elems(interp, st, x, f, extra):
    """Elementwise application of a function (its effects on the heap are not modelled)."""
    if x.op == 'arr':
        def g(*ix):
            s = st.copy()
            v = apply_fn(interp, s, f, T.at(x, ix), extra)
            return interp.reify(v, s)
        return T.mkarr(x.args[0], g)
    if x is TD0 or is_td(x) or T.scalar(x):
        s = st.copy()
        return interp.reify(apply_fn(interp, s, f, x, extra), s)
    z = T.fresh('ap')
    if x.op == 'item' and x.args[0].op == 'jsonframe':
        T.TYPES[z] = frozenset({'float'})
    s = st.copy()
    v = interp.reify(apply_fn(interp, s, f, z, extra), s)
    if v is z:
        return x
    # fuse successive maps
    if x.op == 'mapply':
        return raw('mapply', x.args[0], T.canon_lam(z, T.subst(v, {z: T.beta(x.args[1], z)})))
    if not interp.sinks or True:
        return raw('mapply', x, T.canon_lam(z, v))


def series_method(interp, st, o, name, args, kwargs):
    x = o.args[0]
    if name in ('apply', 'map', 'transform'):
        extra = {k: v for k, v in kwargs.items() if k not in ('convert_dtype', 'args', 'na_action')}
        return raw('series', map_elems(interp, st, x, args[0], extra))
    if name in ('add', '__add__', 'radd'):
        return raw('series', ew(add, x, unseries(args[0])))
    if name == 'sub':
        return raw('series', ew(sub, x, unseries(args[0])))
    if name in ('mul', 'multiply'):
        return raw('series', ew(mul, x, unseries(args[0])))
    if name in ('div', 'truediv', 'divide'):
        return raw('series', ew(T.div, x, unseries(args[0])))
    if name == 'clip':
        return raw('series', clip_(x, argn(args, kwargs, 0, 'lower', NONE), argn(args, kwargs, 1, 'upper', NONE)))
    if name == 'round':
        return raw('series', round_(x, argn(args, kwargs, 0, 'decimals', ZERO)))
    if name == 'abs':
        return raw('series', ew(T.abs_, x))
    if name == 'where' and len(args) == 2:
        return raw('series', where_(unseries(args[0]), x, unseries(args[1])))
    if name == 'mask' and len(args) == 2:
        return raw('series', where_(unseries(args[0]), unseries(args[1]), x))
    if name in ('copy', 'reset_index'):
        return o
    if name == 'astype':
        if int_dtype(argn(args, kwargs, 0, 'dtype')):
            return raw('series', ew(T.toint, x))
        return o
    if name == 'shift' and x.op == 'arr' and len(x.args[0]) == 1:
        n = argn(args, kwargs, 0, 'periods', ONE)
        fill = kwargs.get('fill_value', NAN)
        if T.is_num(n) and n.args[1] >= 0:
            return raw('series', T.mkarr(x.args[0], lambda i: ite(lt(i, n), fill, T.at(x, [sub(i, n)]))))
    if name == 'diff' and not args and not kwargs and x.op == 'arr' and len(x.args[0]) == 1:
        return raw('series', T.mkarr(x.args[0], lambda i: ite(lt(i, ONE), NAN, sub(T.at(x, [i]), T.at(x, [sub(i, ONE)])))))
    if name in ('to_numpy',):
        return x
    if name in ('tolist', 'to_list'):
        return x
    if name == 'isna' or name == 'isnull':
        return raw('series', ew(NP1['numpy.isnan'], x))
    if name in ('item',):
        return T.at(x, [ZERO]) if x.op == 'arr' else NotImplemented
    if name in ('items', 'iteritems'):
        return raw('enum', x, ZERO)
    return NotImplemented


TABLEOPS = {'drop_duplicates', 'sort_values', 'dropna'}


def frame_method(interp, st, o, name, args, kwargs):
    I = _I()
    if name == 'copy':
        return shallow(interp, st, o)
    if name == 'assign':
        r = shallow(interp, st, o)
        for k, v in kwargs.items():
            if k == '**':
                for s in v:
                    for e in dict_log(interp, st, s):
                        if e[0] == 'set':
                            e = ('set', e[1], as_column(interp, st, e[2]), e[3])
                        st.push(r, 1, e)
                continue
            if v.op in ('clo', 'fn', 'bound'):
                v = interp.call_value(v, [r], {}, st)
            st.push(r, 1, ('set', string(k), as_column(interp, st, v), TRUE))
        return r
    if name == 'to_json' and not args:
        dflt = {'path_or_buf': NONE, 'orient': string('columns'), 'double_precision': num(10), 'force_ascii': TRUE,
                'lines': FALSE, 'indent': NONE, 'index': TRUE, 'default_handler': NONE, 'date_unit': string('ms')}
        kwargs = {k: v for k, v in kwargs.items() if k == '**' or dflt.get(k) is not v}
        t = raw('xmethod', 'to_json', interp.value_of(o, st), (), interp.kwargs_term(st, kwargs))
        return t
    if name in ('keys',):
        return raw('keysof', o)
    if name == 'reset_index' and kwargs.get('drop') is TRUE and list(kwargs) == ['drop'] and not args:
        return frames(o.args[0]) if o.op == 'framesix' else shallow(interp, st, o)
    if name in TABLEOPS and not kwargs.get('inplace', FALSE) is TRUE and all(T.is_const(a) for a in args):
        kw = interp.kwargs_term(st, {k: v for k, v in kwargs.items() if k != 'ignore_index'})
        t = raw('tableop', name, interp.value_of(o, st), tuple(args), kw)
        T.TYPES[t] = frozenset({'DataFrame'})
        return t
    return unknown_method(interp, st, o, name, args, kwargs)


def dict_method(interp, st, o, name, args, kwargs):
    I = _I()
    if name == 'get':
        k = args[0]
        d = argn(args, kwargs, 1, 'default', NONE)
        if o.op == 'instdict':
            v = interp.read_attr(st, o.args[0], k)
        else:
            v = interp.lookup(st, o, k)
        if v is ABSENT:
            return d
        miss = interp.simp(eq(v, ABSENT), st)
        return interp.simp(ite(miss, d, T.strip_absent(v)), st)
    if name == 'items':
        return raw('itemsof', o)
    if name == 'keys':
        return raw('keysof', o)
    if name == 'values':
        return raw('valuesof', o)
    if name == 'copy':
        if o.op == 'ref':
            r = I.newref(I.DICT)
            st.heap[r] = ((), interp.log_of(st, o, 1))
            return r
        return shallow(interp, st, o) if o.op != 'dictc' else _dict(interp, st, [o], {})
    if name == 'update':
        for a in args:
            if a.op == 'ite':
                interp.split(st, a, lambda s, x: dict_method(interp, s, o, 'update', [x], {}))
                continue
            if a.op in ('zipof', 'enum', 'itemsof', 'seq') or T.REFTYPE.get(a) is I.LIST:
                a = _dict(interp, st, [a], {})
            if a.op == 'ref':
                log = interp.log_of(st, a, 1)
                if any(e[0] not in ('set', 'update', 'each') for e in log):
                    log = (('update', interp.reify(a, st), TRUE),)
                for e in log:
                    if o.op == 'instdict':
                        st.push(o.args[0], 0, e)
                    else:
                        st.push(o, 1, e)
            else:
                evs = dict_log(interp, st, a)
                for e in evs:
                    st.push(o.args[0] if o.op == 'instdict' else o, 0 if o.op == 'instdict' else 1, e)
        for k, v in kwargs.items():
            if k == '**':
                for s in v:
                    dict_method(interp, st, o, 'update', [s], {})
            else:
                interp.setitem(st, o, string(k), v)
        return NONE
    if name == 'setdefault':
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        v = interp.lookup(st, o, k)
        miss = interp.simp(eq(v, ABSENT), st)
        if miss is not T.FALSE:
            st.push(o, 1, ('set', k, d, miss))
        return interp.simp(ite(miss, d, T.strip_absent(v)), st)
    if name == 'pop':
        k = args[0]
        v = interp.lookup(st, o, k)
        st.push(o, 1, ('del', k, TRUE))
        if len(args) > 1:
            return ite(eq(v, ABSENT), args[1], T.strip_absent(v))
        return T.strip_absent(v)
    if name == 'clear':
        st.push(o, 1, ('clear', TRUE))
        return NONE
    if name == '__contains__':
        return interp.contains_(st, args[0], o)
    if name == '__getitem__':
        return interp.getitem(st, o, args[0])
    if o.op == 'ref':
        st.push(o, 1, ('opaque', string(name), TRUE))
    return unknown_method(interp, st, o, name, args, kwargs)


def list_method(interp, st, o, name, args, kwargs):
    I = _I()
    if name == 'append':
        st.push(o, 1, ('append', args[0], TRUE))
        return NONE
    if name == 'extend':
        v = args[0]
        if v.op in ('zipof', 'enum', 'itemsof', 'valuesof', 'keysof', 'map', 'range'):
            v = iter_seq(interp, st, v)
        elif v.op == 'ref':
            v = interp.content(st, v)
        st.push(o, 1, ('extend', v, TRUE))
        return NONE
    if name == 'copy':
        return _list(interp, st, [o], {})
    if name == 'insert':
        st.push(o, 1, ('insert', args[0], args[1], TRUE))
        return NONE
    if name == 'clear':
        st.push(o, 1, ('clear', TRUE))
        return NONE
    if name == 'index':
        c = interp.content(st, o)
        if len(args) == 1 and c.op == 'seq' and all(g.op == 'one' for g in c.args):
            hits = [interp.simp(or_(is_(args[0], g.args[0]), interp.truth(interp.compare(ast.Eq(), args[0], g.args[0], st), st)), st)
                    for g in c.args]
            miss = TRUE
            for h in hits:
                miss = and_(miss, not_(h))
            miss = interp.simp(miss, st)
            interp.raise_(st, miss, 'ValueError')
            if miss is TRUE:
                raise _I().Abrupt()
            r = num(len(hits) - 1)
            for i in range(len(hits) - 2, -1, -1):
                r = ite(hits[i], num(i), r)
            return r
        return raw('indexof', interp.value_of(args[0], st), interp.reify(c, st))
    if name == 'count':
        return raw('countof', interp.value_of(args[0], st), interp.reify(interp.content(st, o), st))
    if name == '__contains__':
        return interp.contains_(st, args[0], o)
    if name == '__len__':
        return T.length(interp.content(st, o))
    if name == '__iter__':
        return o
    if name in ('pop', 'remove', 'sort', 'reverse'):
        if name == 'remove' and T.REFTYPE.get(o) is I.LIST and len(args) == 1:
            c = interp.content(st, o)
            if all(g.op == 'one' for g in c.args):
                found, left = FALSE, []
                for g in c.args:
                    hit = interp.simp(or_(is_(args[0], g.args[0]),
                                          interp.truth(interp.compare(ast.Eq(), args[0], g.args[0], st), st)), st)
                    keep = T.cond_seg(interp.simp(and_(hit, not_(found)), st), NIL, seq(g))
                    left.extend(keep.args if keep.op == 'seq' else [keep])
                    found = interp.simp(or_(found, hit), st)
                interp.raise_(st, interp.simp(not_(found), st), 'ValueError')
                if found is FALSE:
                    raise _I().Abrupt()
                st.push(o, 1, ('clear', TRUE))
                st.push(o, 1, ('extend', seq(*left), TRUE))
                return NONE
        if name == 'pop' and T.REFTYPE.get(o) is I.LIST:
            c = interp.content(st, o)
            k = int(args[0].args[1]) if args and T.is_num(args[0]) else -1
            if (not args or T.is_num(args[0])) and all(g.op == 'one' for g in c.args) and c.args:
                v = c.args[k].args[0]
                left = list(c.args)
                left.pop(k)
                st.push(o, 1, ('clear', TRUE))
                st.push(o, 1, ('extend', seq(*left), TRUE))
                return v
        st.push(o, 1, ('opaque', string(name), TRUE))
        return raw('unk', string('list.' + name))
    return unknown_method(interp, st, o, name, args, kwargs)


def set_method(interp, st, o, name, args, kwargs):
    I = _I()
    if name == 'add':
        st.push(o, 1, ('append', args[0], TRUE))
        return NONE
    if name == 'update':
        for a in args:
            st.push(o, 1, ('extend', iter_seq(interp, st, a), TRUE))
        return NONE
    if name == 'union':
        r = I.newref(I.SET)
        st.heap[r] = ((), (('extend', interp.content(st, o), TRUE),) + tuple(
            ('extend', iter_seq(interp, st, a), TRUE) for a in args))
        return r
    if name in ('intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint'):
        c = interp.content(st, o)
        if len(args) == 1:
            z = T.fresh('se')
            if name in ('intersection', 'difference'):
                cc = interp.contains_(st, z, args[0]) if args[0].op != 'seq' else in_(z, args[0])
                keep = cc if name == 'intersection' else not_(cc)
                body = T.cond_seg(keep, seq(one(z)), NIL)
                r = I.newref(I.SET)
                st.heap[r] = ((), (('extend', T.cmap(c, lam(z, body if body.op == 'seq' else seq(body))), TRUE),))
                return r
            if name == 'issubset':
                return not_(T.exists(c, lam(z, not_(interp.contains_(st, z, args[0])))))
    return unknown_method(interp, st, o, name, args, kwargs)
