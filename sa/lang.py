"""Scenario vocabulary: functions that scenario files may call (modelled, never executed).

assume(c)      restrict the scenario to runs where c holds
calls(*names)  the opaque calls made so far, in order (optionally only those of the given names)
snap(x)        the value of everything reachable from x
mutated(x)     descriptions of the writes made to objects the caller supplied (x or anything reached from it)
owned(x)       the objects supplied by the caller that x keeps references to
"""
from __future__ import annotations

from . import terms as T
from .models import model
from .terms import FALSE, NIL, NONE, TRUE, and_, eq, lam, not_, num, one, raw, seq, string


@model('sa.lang.assume')
def _assume(interp, st, args, kwargs):
    for c in args:
        c = interp.simp(interp.truth(c, st), st)
        if c is FALSE:
            raise ValueError('contradictory scenario assumption')
        if c is TRUE:
            continue
        interp.add_fact(st, c, True)
        interp.assumed.append(c)
    return NONE


def _names(args):
    return [a.args[1] for a in args if T.is_str(a)]


def call_name(t):
    while t.op == 'draw':
        t = t.args[0]
    if t.op == 'ocall':
        return t.args[0]
    if t.op == 'xcall':
        return t.args[0]
    if t.op == 'xmethod':
        return t.args[0]
    if t.op == 'ucall':
        return 'user'
    return t.op


def trace_seq(interp, st, tr, names):
    segs = []
    for ev in tr:
        if ev[0] == 'call':
            if names and call_name(ev[1]) not in names:
                continue
            s = T.cond_seg(ev[2], seq(one(interp.value_of(ev[1], st))), NIL)
            segs.extend(s.args if s.op == 'seq' else [s])
        elif ev[0] == 'each':
            body = trace_seq(interp, st, ev[4], names)
            if body is not NIL:
                segs.extend(T.cmap(ev[1], lam(ev[2], body)).args)
    return seq(*segs)


@model('sa.lang.calls')
def _calls(interp, st, args, kwargs):
    return trace_seq(interp, st, st.trace, _names(args))


@model('sa.lang.ncalls')
def _ncalls(interp, st, args, kwargs):
    return T.length(trace_seq(interp, st, st.trace, _names(args)))


@model('sa.lang.snap')
def _snap(interp, st, args, kwargs):
    return raw('snap', interp.value_of(args[0], st))


def root(t):
    while t.op in ('attr', 'item', 'titem', 'index', 'elt', 'shapeof'):
        t = t.args[0]
    return t


@model('sa.lang.mutated')
def _mutated(interp, st, args, kwargs):
    """Net writes to caller-supplied objects reachable from the given inputs."""
    out = []
    roots = []
    for a in args:
        if any(t.op == 'unk' for t in T.subterms(a)):
            return raw('unk', string('what became of an argument'))
        roots.append(root(a))
        if a.op in ('arr', 'series'):
            # an array input: the arrays whose elements it lists
            roots += [root(t.args[0]) for t in T.subterms(a) if t.op == 'elt']
    for o in sorted(st.heap, key=lambda t: t.uid):
        if o.op == 'ref' or not any(st.heap[o]) or root(o) not in roots:
            continue
        for ev in st.heap[o][0]:
            if ev[0] == 'set' and T.is_str(ev[1]):
                v = interp.read_attr(st, o, ev[1])
                base = interp.attr_base(o, ev[1].args[1])
                if T.same(v, base) is None:
                    continue
            out.append(raw('write', o, string('attribute'), *[x for x in ev if type(x) is T.Term]))
        for ev in st.heap[o][1]:
            if ev[0] == 'phi':
                continue
            out.append(raw('write', o, string('item'), *[interp.value_of(x, st) for x in ev if type(x) is T.Term]))
    return seq(*[one(x) for x in out])


MUTABLE = {'dict', 'list', 'ndarray', 'Series', 'DataFrame', 'set'}


@model('sa.lang.owned')
def _owned(interp, st, args, kwargs):
    """Mutable caller-supplied objects that stay reachable from args[0] (not counting values copied out of them)."""
    obj, roots = args[0], [root(a) for a in args[1:]]
    found, seen, todo = [], set(), [obj]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('dcopy', 'scopy'):
            continue
        if root(t) in roots:
            ty = interp.types_of(t)
            if ty & MUTABLE or any(x.startswith('cls:') for x in ty) or t in roots:
                found.append(t)
            continue
        if t.op == 'ref':
            for log in st.heap.get(t, ((), ())):
                for ev in log:
                    todo.extend(_ev_values(ev))
        elif t.op in ('seq', 'one', 'ite', 'dictc', 'cond', 'series', 'partial', 'bound'):
            todo.extend(T.children(t.args))
    return seq(*[one(x) for x in sorted(set(found), key=lambda t: t.uid)])


def _ev_values(ev):
    k = ev[0]
    if k == 'set':
        return [ev[2]]
    if k in ('append', 'extend', 'update'):
        return [ev[1]]
    if k == 'each':
        return [v for e in ev[4] for v in _ev_values(e)]
    return []
