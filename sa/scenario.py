"""Run scenario pairs: value graph of the code under a scenario against the value graph of the stated expectation."""
from __future__ import annotations

import ast
import json
import os
import time

from . import lang, refute
from . import terms as T
from .interp import Abrupt, Interp, State, Unsupported
from .project import AnchorMissing
from .terms import FALSE, NONE, TRUE, Budget, or_, raw, sym

BASIC = {'int', 'float', 'str', 'bool', 'timedelta', 'dict', 'list', 'ndarray', 'Series', 'tuple', 'float64'}
# nodes whose meaning the analysis did not determine
OPEN = {'unk', 'ewunk', 'segop', 'rec', 'index', 'phival', 'phiseq', 'closure', 'cyclic', 'lastmatch', 'strfmt', 'alloc',
        'arrset', 'seqslice', 'seqrep', 'undef', 'var'}


_PIN = []


def interface():
    """Parameter lists and field names the scenarios were written against."""
    if not _PIN:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'interface.json')) as f:
            d = json.load(f)
        d['attributes'] = set(d['attributes'])
        _PIN.append(d)
    return _PIN[0]


def parameters(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    free = len(pos) - len(a.defaults)
    out = [[p.arg, i >= free] for i, p in enumerate(pos)]
    if a.vararg:
        out.append(['*' + a.vararg.arg, True])
    out += [['=' + p.arg, d is not None] for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    if a.kwarg:
        out.append(['**' + a.kwarg.arg, True])
    return out


def label(f):
    return f'{f.cls.name}.{f.name}' if f.cls else f.name


def describe(project):
    """The interface of the tree the scenarios are written for (written to interface.json by tools/interface.py)."""
    sigs, attrs = {}, set()
    for m in project.modules.values():
        if m.name.startswith('spec.'):
            continue
        for b in m.bind.values():
            for f in [b[1]] if b[0] == 'func' else b[1].methods.values() if b[0] == 'cls' else ():
                sigs.setdefault(label(f), [])
                if parameters(f) not in sigs[label(f)]:
                    sigs[label(f)].append(parameters(f))
        attrs |= {x.attr for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)}
        attrs |= {x.value for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier()}
    return {'parameters': dict(sorted(sigs.items())), 'attributes': sorted(attrs)}


def reshaped(sides):
    """Package functions a scenario calls or keeps opaque whose parameters are no longer those the scenario was written for."""
    out = set()
    pins = interface()['parameters']
    for s in sides:
        for f in s.interp.direct.values():
            if f.module.name.startswith('spec.') or label(f) not in pins or isinstance(f.node, ast.Lambda):
                continue
            if f.name == '__init__' or f.cls is None and not f.name.startswith('_'):
                continue      # what users write themselves
            now = parameters(f)
            if not any(now[:len(p)] == p and all(d for _, d in now[len(p):]) for p in pins[label(f)]):
                out.add(label(f))
        for f in s.interp.opaqued.values():
            if label(f) in pins and [n for n, _ in parameters(f)] not in [[n for n, _ in p] for p in pins[label(f)]]:
                out.add(label(f))
    return sorted(out)


class Case:
    def __init__(self, module, func, expect, opts):
        self.module, self.func, self.expect, self.opts = module, func, expect, opts
        self.name = func.name


def collect(project, modname):
    m = project.modules[modname]
    funcs = {}
    for b in m.bind.values():
        if b[0] == 'func':
            funcs[b[1].name] = b[1]
    cases = []
    for name, f in funcs.items():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'case':
                opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                exp = funcs.get(opts.get('expect', name + '__expect'))
                cases.append(Case(m, f, exp, opts))
    return cases


class Inputs:
    """Symbolic scenario inputs shared by both sides of a pair."""
    def __init__(self, project, module, func):
        self.p, self.m = project, module
        self.dims = {}
        self.vals = {}
        for a in func.node.args.args:
            self.vals[a.arg] = self.make(a.arg, a.annotation)

    def dim(self, name):
        if isinstance(name, int):
            return T.num(name)
        t = sym('in:' + name)
        T.TYPES[t] = frozenset({'int'})
        T.POSITIVE.add(t)
        return t

    def make(self, name, ann):
        t = sym('in:' + name)
        T.TYPES.pop(t, None)
        T.SPEC.pop(t, None)
        T.REFTYPE.pop(t, None)
        T.ELTTYPE.pop(t, None)
        if ann is None:
            return t
        spec = self.spec(ann)
        if spec is None:
            return t
        if spec == ('dim',):
            return self.dim(name)
        return T.declare(t, spec)

    def spec(self, n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            n = ast.parse(n.value, mode='eval').body
        if isinstance(n, ast.Name):
            if n.id == 'Any':
                return None
            if n.id == 'Dim':
                return ('dim',)
            if n.id == 'Fn':
                return ('t', ('Callable',))
            if n.id in BASIC:
                return ('t', (n.id,))
            r = self.p.resolve(self.m, n.id)
            if r and r[0] == 'cls':
                return ('t', ('cls:' + r[1].qual,))
            raise ValueError(f'annotation {n.id}')
        if isinstance(n, ast.Subscript):
            k = n.value.id
            a = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if k in ('Arr', 'Ser'):
                if isinstance(a[-1], ast.Name) and a[-1].id in T.TYNAME:
                    dims = tuple(self.dim(x.id if isinstance(x, ast.Name) else x.value) for x in a[:-1])
                    return ('arr' if k == 'Arr' else 'series', dims, a[-1].id)
                dims = tuple(self.dim(x.id if isinstance(x, ast.Name) else x.value) for x in a)
                return ('arr' if k == 'Arr' else 'series', dims)
            if k in ('Dict', 'List'):
                return (k.lower(), self.spec(a[0]) or ('t', ('?',)))
            if k == 'Is':
                r = self.p.resolve(self.m, a[0].id)
                return ('is', r[1].qual)
            if k == 'OneOf':
                return ('t', tuple(x.id for x in a))
        if isinstance(n, ast.BinOp):
            l, r = self.spec(n.left), self.spec(n.right)
            return ('t', l[1] + r[1])
        if isinstance(n, ast.Constant) and n.value is None:
            return ('t', ('None',))
        raise ValueError('annotation ' + ast.dump(n))


class Side:
    def __init__(self, interp, value, raises, assumed):
        self.interp, self.value, self.raises, self.assumed = interp, value, raises, assumed


def shape_fn(spec, inputs):
    """'name' -> shape description: ('arg', k) uses an argument of the call, str/int is a dimension."""
    def f(vals):
        out = []
        for d in spec:
            if isinstance(d, tuple):
                v = vals.get(d[1])
                if v is None:
                    return None
                out.append(v)
            else:
                out.append(inputs.dim(d))
        return out
    return f


def run_side(project, case, func, inputs, without=()):
    o = case.opts
    I = Interp(project, cut=[c for c in o.get('cut', ()) if c.split('.')[-1] not in without])
    I.assumed = []
    for name, spec in o.get('shapes', {}).items():
        I.shapes[name] = shape_fn(spec, inputs)
    if o.get('eqn_shape'):
        I.ucall_shape = tuple(inputs.dim(d) for d in o['eqn_shape'])
    for name in o.get('floats', ()):
        I.float_arrays.add(sym('in:' + name))
    for k, n in o.get('tuples', {}).items():
        I.tuple_len[sym('in:' + k)] = n
    st = State()
    names = [a.arg for a in func.node.args.args]
    args = [inputs.vals[n] for n in names]
    try:
        v = I.call_func(func, args, {}, st)
        v = I.value_of(v, st)
    except Abrupt:
        v = raw('noreturn')
    raises = {}
    for e in I.sinks[-1]:
        n = e.val[0] if isinstance(e.val, tuple) else str(e.val)
        raises[n] = or_(raises.get(n, FALSE), e.pc)
    return Side(I, v, raises, list(I.assumed))


class Outcome:
    def __init__(self, case, status, detail='', visited=None, stmts=0, sites=0, unknown=(), wall=0.0):
        self.case, self.status, self.detail = case, status, detail
        self.visited, self.stmts, self.sites, self.unknown, self.wall = visited or {}, stmts, sites, unknown, wall

    def row(self):
        return {'scenario': f'{self.case.module.name.split(".")[-1]}.{self.case.name}', 'status': self.status,
                'detail': self.detail[:1500], 'functions': sorted(k for k in self.visited if k.startswith('gerabaldi')),
                'statements': self.stmts, 'call_sites': self.sites, 'wall_s': round(self.wall, 2)}


CROSS = [0]               # also interpret pairs the normal form proves equal (self-check of the two deciders)


# nodes that differ whenever one of their parts does
INJECTIVE = (refute.CTOR - {'round', 'castlike', 'elt'}) | {'cmapseg', 'lam', 'seq', 'one', 'arr', 'dict', 'dictc'}


def is_open(t):
    return {x.op for x in T.subterms(t) if x.op in OPEN and not (x.op == 'var' and x.args[0].startswith(refute.BOUND))}


HARD = ('method on object',)


def supplied(t):
    return any(n.startswith('cls:') for n in T.TYPES.get(t, ()))


def involves(d, unknown):
    """Unmodelled library calls that could explain the difference d."""
    if isinstance(d, tuple):
        return unknown
    new = sorted({x.args[1] for t in (d.a, d.b, *[c for c, _ in d.path]) for x in T.subterms(t)
                  if x.op == 'attr' and isinstance(x.args[1], str) and x.args[1] not in interface()['attributes'] and supplied(x.args[0])})
    if new:
        # a field the scenarios know nothing about, read from an object they supply: no relation to the other fields is stated
        return [f'field {n}' for n in new]
    hard = [u for u in unknown if u.startswith(HARD)]
    names = {u.split()[-1] for u in unknown}
    hit = {x.args[0] for t in (d.a, d.b, *[c for c, _ in d.path]) for x in T.subterms(t) if x.op in ('xcall', 'xmethod', 'opq') and x.args}
    return hard + sorted(x for x in hit if x in names)


def compare(a, b, assumed, unknown=()):
    """-> (status, text)"""
    facts = []
    for c in assumed:
        facts.extend(flatten(c, True))
    try:
        d = T.same(a, b, facts)
    except Budget as e:
        d = ('budget', str(e))
    if d is None:
        if CROSS[0]:
            r = refute.refute(a, b, assumed, CROSS[0])
            if r is not None:
                return 'crossfail', r
        return 'proved', ''
    text = 'budget' if isinstance(d, tuple) else (
        f'code computes   {T.show(d.a, 7)[:600]}\n      expected        {T.show(d.b, 7)[:600]}\n      when            ' +
        (' and '.join(('' if v else 'not ') + T.show(x, 5) for x, v in d.path)[:600] or 'always'))
    op = is_open(a) | is_open(b)
    why, r = [], None
    bad = involves(d, unknown)
    if bad:
        return 'undecided', f'unmodelled {bad}: ' + text
    if not op and not unknown:
        r = refute.refute(a, b, assumed, why=why)
    if r is None and not isinstance(d, tuple):
        d.injective = all(o in INJECTIVE for o in d.trail)
        local = is_open(d.a) | is_open(d.b)
        for c, _ in d.path:
            local |= is_open(c)
        if local and d.injective and definite(d):
            # one side certainly has an entry, the other has none: what the entry holds does not matter
            d.a, d.b = (T.TRUE if d.a is not T.NIL else T.FALSE), (T.TRUE if d.b is not T.NIL else T.FALSE)
            local = set()
            for c, _ in d.path:
                local |= is_open(c)
            assumed = [c for c in assumed if not is_open(c)]
        if local:
            return 'undecided', f'not resolved ({", ".join(sorted(op | local))}): ' + text
        r = refute.refute_at(a, b, assumed, d, why=why)
    if r is None:
        if op:
            return 'undecided', f'not resolved ({", ".join(sorted(op))}; {"; ".join(why)}): ' + text
        return 'undecided', f'no distinguishing interpretation found ({"; ".join(why)}): ' + text
    return 'violation', text + '\n      witness         ' + r


def definite(d):
    for x, y in ((d.a, d.b), (d.b, d.a)):
        if x is T.NIL and y.op == 'seq' and any(g.op == 'one' for g in y.args):
            return True
    return False


def flatten(c, val):
    if c.op == 'not':
        return flatten(c.args[0], not val)
    if c.op == 'and' and val:
        return [f for x in c.args for f in flatten(x, True)]
    return [(c, val)]


def vacuous(L, R, assumed):
    """The scenario's assumptions exclude every run, or neither side ends in a value or an exception."""
    facts = [f for c in assumed for f in flatten(c, True)]
    if T.same(TRUE, FALSE, facts) is None or any(T.assume_all(c, facts) is FALSE for c in assumed):
        return True
    return all(s.value.op == 'noreturn' and not s.raises for s in (L, R))


def run_case(project, case, limit=400000, without=()):
    t0 = time.time()
    T.allow(limit)
    T.FINITE[0] = bool(case.opts.get('finite'))
    T.LIBS_OK[0] = bool(case.opts.get('libs_ok'))
    T.LAZY[0] = bool(case.opts.get('choices'))
    try:
        inputs = Inputs(project, case.module, case.func)
        L = run_side(project, case, case.func, inputs, without)
        R = run_side(project, case, case.expect, inputs, without)
    except (Unsupported, Budget, RecursionError) as e:
        return Outcome(case, 'undecided', f'{type(e).__name__}: {e}', wall=time.time() - t0)
    assumed = L.assumed or R.assumed
    info = dict(visited=L.interp.visited, stmts=L.interp.stmts, sites=L.interp.sites,
                unknown=sorted(L.interp.unknown | R.interp.unknown))
    status, detail = 'proved', ''
    try:
        if vacuous(L, R, assumed):
            return Outcome(case, 'undecided', 'vacuous: no run satisfies the scenario', wall=time.time() - t0, **info)
        allowed = case.opts.get('allow', '').split()
        for n in sorted(set(L.raises) | set(R.raises)) if case.opts.get('raises', True) else ():
            if n in allowed:
                continue
            s, d = compare(L.raises.get(n, FALSE), R.raises.get(n, FALSE), assumed, info['unknown'])
            if s != 'proved':
                status, detail = s, f'raising {n}: ' + d
                if s == 'violation':
                    break
        if status != 'violation':
            ok = [T.not_(c) for c in list(L.raises.values()) + list(R.raises.values())]
            s, d = compare(L.value, R.value, assumed + [c for c in ok if c is not FALSE], info['unknown'])
            if s != 'proved' and (status == 'proved' or s == 'violation'):
                status, detail = s, d
    except (Budget, RecursionError, Unsupported) as e:
        status, detail = 'undecided', f'{type(e).__name__}: {e}'
    if status == 'violation':
        other = reshaped((L, R))
        if other:
            status, detail = 'undecided', f'parameters changed, not the interface this obligation states: {", ".join(other)}; ' + detail
        else:
            uneven = {f.name for f in R.interp.opaqued.values()} - {f.name for f in L.interp.opaqued.values()} - set(without)
            if uneven:
                # the code no longer makes a call that is kept opaque: look inside it on the other side
                r = run_case(project, case, limit, tuple(uneven) + tuple(without))
                r.wall += time.time() - t0
                return r
    return Outcome(case, status, detail, wall=time.time() - t0, **info)
