"""Abstract interpreter that turns a function body into a gated value graph.

One pass over the syntax tree: control-flow joins become `ite` gates, loops over unknown collections are summarised
once with a bound element variable, calls inside the package are inlined, and everything user-supplied or external is
an uninterpreted node.  No statement of the analysed program is executed.
"""
from __future__ import annotations

import ast
import itertools

from . import terms as T
from .terms import (ABSENT, FALSE, NIL, NONE, ONE, TRUE, UNDEF, ZERO, Budget, Term, add, and_, eq, in_, is_, item, ite,
                    lam, lt, mul, neg, not_, num, one, or_, raw, seq, seq_of, splice, string, sub, subst, truthy)


class Unsupported(Exception):
    """Source construct outside what the analysis models."""


class Abrupt(Exception):
    """The current expression never completes normally (always raises)."""


MAXDEPTH = 30
DEBUG = False
_ids = itertools.count(1)


def newref(kind):
    r = raw('ref', next(_ids))
    T.REFTYPE[r] = kind
    return r


def X(name):
    return raw('ext', name)


FILE = X('io.TextIOWrapper')
DICT, LIST, SET, FRAME = X('builtins.dict'), X('builtins.list'), X('builtins.set'), X('pandas.DataFrame')


class State:
    __slots__ = ('env', 'heap', 'facts', 'pc', 'trace', 'draws')

    def __init__(self):
        self.env, self.heap, self.facts, self.pc, self.trace, self.draws = {}, {}, {}, TRUE, (), {}

    def copy(self):
        s = State()
        s.env, s.heap, s.facts = dict(self.env), dict(self.heap), dict(self.facts)
        s.pc, s.trace, s.draws = self.pc, self.trace, dict(self.draws)
        return s

    G = {}          # objects that exist before the scenario starts (module, class and default-value containers)

    def become(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))

    def log(self, o, which):
        e = self.heap.get(o) or State.G.get(o)
        return e[which] if e else ()

    def push(self, o, which, ev):
        e = self.heap.get(o) or State.G.get(o) or ((), ())
        e = (e[0] + (ev,), e[1]) if which == 0 else (e[0], e[1] + (ev,))
        self.heap[o] = e


ATTRS, ITEMS = 0, 1


def guard_event(c, ev):
    k = ev[0]
    if c is TRUE:
        return ev
    if k == 'each':
        return ('each', ev[1], ev[2], ev[3], tuple(guard_event(c, e) for e in ev[4]))
    return ev[:-1] + (and_(c, ev[-1]),)


def merge_logs(c, a, b):
    if a is b or a == b:
        return a
    n = 0
    for x, y in zip(a, b):
        if x is y or x == y:
            n += 1
        else:
            break
    return a[:n] + tuple(guard_event(c, e) for e in a[n:]) + tuple(guard_event(not_(c), e) for e in b[n:])


class Exit:
    __slots__ = ('kind', 'pc', 'st', 'val')

    def __init__(self, kind, pc, st, val):
        self.kind, self.pc, self.st, self.val = kind, pc, st, val


class Frame:
    def __init__(self, func, module, closure, selfterm=None):
        self.func, self.module, self.closure, self.selfterm = func, module, closure, selfterm
        self.yields = None
        self.globals = set()
        self.last = {}          # local name -> (how often it was bound, latest value if bound on every path)
        self.home = None        # frame in which a nested function was defined, and how often its names had been bound then
        self.seen = {}

    def bound(self, name, v=None):
        self.last[name] = (self.last.get(name, (0, None))[0] + 1, v)


class Interp:
    def __init__(self, project, cut=(), inline=(), models=None, skip_logging=True):
        self._counted = {}
        from . import models as M
        self.p = project
        self.cut = set(cut)            # method names / qualified function names kept opaque
        self.M = M
        self.frames = []
        self.direct = {}               # package functions a scenario calls itself
        self.opaqued = {}              # package functions kept opaque where they are called
        self.sinks = [[]]              # pending exception exits
        self.argsrc = {}
        self.handlers = [()]           # exception names caught by enclosing try blocks
        self.loopvars = []
        self.globals = {}
        self.gheap = State.G
        self.closures = {}
        self.visited = {}              # functions analysed -> count
        self.notes = []
        self.depth = 0
        self.stmts = 0
        self.draw_methods = self._draw_methods()
        self.sites = 0
        self.unknown = set()           # external functions without a model
        self.phiwrites = {}
        self.tuple_len = {}            # symbolic tuples of known length
        self.float_arrays = set()      # symbolic arrays known to hold floats
        self.shapes = {}               # opaque method name -> fn(args) -> shape of the array it returns
        self.ucall_shape = None        # shape of the arrays user equations return
        self._caller_env = {}

    # ------------------------------------------------------------ randomness reachability (by name)
    def _draw_methods(self):
        calls = {}
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    s = calls.setdefault(n.name, set())
                    for c in ast.walk(n):
                        if isinstance(c, ast.Call):
                            f = c.func
                            s.add(f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', ''))
        out = {'sample', '_generator'}
        grew = True
        while grew:
            grew = False
            for k, s in calls.items():
                if k not in out and s & out:
                    out.add(k)
                    grew = True
        return out

    # ------------------------------------------------------------ facts
    def simp(self, t, st):
        if not st.facts:
            return t
        if not T.atoms(t) and not (T.ops(t) & {'max', 'min'}) and not any(a.op in ('eq', 'is') and v for a, v in st.facts.items()):
            return t
        return T.assume_all(t, st.facts.items())

    def add_fact(self, st, c, val=True):
        if c.op == 'not':
            return self.add_fact(st, c.args[0], not val)
        if c.op == 'and' and val:
            for x in c.args:
                self.add_fact(st, x, True)
            return
        if c.op == 'const':
            return
        if c.op == 'and':
            left = [x for x in c.args if self.simp(x, st) is not TRUE]
            if len(left) == 1:
                return self.add_fact(st, left[0], False)
        st.facts[c] = val

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        m = State()
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            m.env[k] = x if x is y else self.gate(c, x, y)
        for o in list(a.heap) + [o for o in b.heap if o not in a.heap]:
            x, y = a.heap.get(o), b.heap.get(o)
            if x is None:
                x = State.G.get(o)
            if y is None:
                y = State.G.get(o)
            if x is y:
                m.heap[o] = x
            elif x is None and o.op == 'ref':
                m.heap[o] = y
            elif y is None and o.op == 'ref':
                m.heap[o] = x
            else:
                x, y = x or ((), ()), y or ((), ())
                m.heap[o] = (merge_logs(c, x[0], y[0]), merge_logs(c, x[1], y[1]))
        m.trace = merge_logs(c, a.trace, b.trace)
        for k in set(a.draws) | set(b.draws):
            m.draws[k] = max(a.draws.get(k, 0), b.draws.get(k, 0))
        for k, v in a.facts.items():
            if b.facts.get(k) == v:
                m.facts[k] = v
        m.pc = or_(a.pc, b.pc)
        return m

    def gate(self, c, x, y):
        if x is UNDEF:
            return y if y is UNDEF else ite(c, x, y)
        return ite(c, x, y)

    # ------------------------------------------------------------ heap reads
    def log_of(self, st, o, which):
        e = st.heap.get(o)
        if e is None:
            e = self.gheap.get(o)
        return e[which] if e else ()

    def log_lookup(self, log, k, base):
        r = base
        for ev in log:
            kind = ev[0]
            if kind == 'set':
                r = ite(and_(ev[3], eq(k, ev[1])), ev[2], r)
            elif kind == 'update':
                v = T.dict_lookup(ev[1], k)
                r = ite(and_(ev[2], not_(eq(v, ABSENT))), T.strip_absent(v), r) if v is not ABSENT else r
            elif kind == 'del':
                r = ite(and_(ev[2], eq(k, ev[1])), ABSENT, r)
            elif kind == 'clear':
                r = ite(ev[1], ABSENT, r)
            elif kind == 'phi':
                if not self.untouched(ev[1], k):
                    r = raw('phival', ev[1], k)
            elif kind == 'each':
                _, C, b, P, evs = ev
                acc = T.fresh('acc')
                body = self.log_lookup(evs, k, acc)
                r = self.solve_fold(C, b, r, acc, body, P, k)
            else:
                r = raw('unk', string('store ' + kind))
        return r

    def untouched(self, mark, k):
        """No earlier iteration of the loop writes key k (elements of one collection are distinct)."""
        w = self.phiwrites.get(mark)
        if w is None:
            return False
        b, keys = w
        z = T.fresh('other')
        for key in keys:
            if key is k and T.contains(k, b):
                continue
            if eq(subst(key, {b: z}), k) is not FALSE:
                return False
        return True

    def _write_keys(self, evs):
        out = set()
        for ev in evs:
            if ev[0] == 'set':
                out.add(ev[1])
            elif ev[0] == 'del':
                out.add(ev[1])
            elif ev[0] == 'each':
                w = self._write_keys(ev[4])
                if w is None:
                    return None
                out |= {subst(k, {ev[2]: raw('var', 'inner')}) for k in w}
            elif ev[0] != 'phi':
                return None
        return out

    def _note_writes(self, s, ends, P, b):
        """Record which keys an iteration writes; True when that is news."""
        news = False
        for o, marks in P.items():
            base = s.heap.get(o) or ((), ())
            for w in (ATTRS, ITEMS):
                keys = set()
                for end in ends:
                    if end is None or o not in end.heap:
                        continue
                    ks = self._write_keys(end.heap[o][w][len(base[w]):])
                    keys = None if ks is None or keys is None else keys | ks
                old = self.phiwrites.get(marks[w], 0)
                new = None if keys is None else (b, frozenset(keys))
                if old == 0:
                    self.phiwrites[marks[w]] = new
                    news = True
                elif old != new:
                    if new is not None and old is not None:
                        new = (b, old[1] | new[1])
                    else:
                        new = None
                    if new != old:
                        self.phiwrites[marks[w]] = new
                        news = True
        return news

    def unphi(self, t, P, k, acc):
        if P is None or t is acc:
            return t
        if 'phival' not in T.ops(t):
            return t
        return subst(t, {raw('phival', P, k): acc})

    def solve_fold(self, C, b, init, acc, body, P=None, k=None):
        """Value after `for b in C: acc = body`, starting from init."""
        body = self.unphi(body, P, k, acc) if P is not None else body
        if body is acc:
            return init
        if not T.contains(body, acc) and not T.contains(body, b) and self._nophi(body, P):
            return ite(truthy(C), body, init)
        for a in sorted(T.atoms(body), key=lambda t: t.uid):
            s = self._solve_atom(a, b)
            if s is None:
                continue
            lo = T.assume(body, a, False)
            if lo is acc:
                hi = subst(T.assume(body, a, True), {b: s})
                hi = self.unphi(hi, P, k, acc)
                if not self._nophi(hi, P):
                    continue
                hi = subst(hi, {acc: init})
                return ite(in_(s, C), hi, init)
        if not self._nophi(body, P):
            return raw('unk', string('loop-carried store'), C, lam(b, body))
        p = T.to_poly(body)
        if p.get(((acc, 1),)) == 1 and body.op == 'poly':
            delta = sub(body, acc)
            if not T.contains(delta, acc):
                return add(init, T.sum_over(C, lam(b, delta)))
        if body.op == 'ite':
            try:
                c, x, y = body.args
                if x is acc:
                    c, x, y = not_(c), y, x
                if y is acc and not T.contains(c, acc) and not T.contains(x, acc):
                    if not T.contains(x, b):
                        return ite(T.exists(C, lam(b, c)), x, init)
                    return raw('lastmatch', C, init, T.canon_lam(b, c), T.canon_lam(b, x))
            except Budget:
                pass
        if not T.contains(body, acc):
            return ite(truthy(C), raw('lastof', C, T.canon_lam(b, body)), init)
        return self.fold(C, b, init, acc, body)

    def fold(self, C, b, init, acc, body):
        if C.op == 'seq':
            r = init
            for g in C.args:
                if g.op == 'one':
                    r = subst(body, {acc: r, b: g.args[0]})
                elif g.op == 'splice':
                    r = self.fold(g.args[0], b, r, acc, body)
                elif g.op == 'cmapseg':
                    z = T.fresh('fb')
                    inner = seq_of(T.beta(g.args[1], z))
                    r = self.fold(g.args[0], z, r, acc, self.fold(inner, b, acc, T.fresh('acc'), body)) \
                        if False else self._fold_cmap(g, b, r, acc, body)
                elif g.op == 'cond':
                    r = ite(g.args[0], self.fold(g.args[1], b, r, acc, body), self.fold(g.args[2], b, r, acc, body))
                else:
                    r = raw('fold', seq(g), r, T.canon_lam(acc, T.canon_lam(b, body)))
            return r
        try:
            body = T.canon(body)
        except Budget:
            pass
        return raw('fold', C, init, lam(acc, lam(b, body)))

    def _fold_cmap(self, g, b, r, acc, body):
        z = T.fresh('fb')
        inner = seq_of(T.beta(g.args[1], z))
        a2 = T.fresh('acc')
        step = self.fold(inner, b, a2, acc, body)
        return self.fold(g.args[0], z, r, a2, step)

    def _nophi(self, t, P):
        if P is None or 'phival' not in T.ops(t):
            return True
        return not any(x.op == 'phival' and x.args[0] is P for x in T.subterms(t))

    def _solve_atom(self, a, b):
        """s such that atom a holds exactly for b == s."""
        if a.op == 'eq':
            x, y = a.args
            if x is b and not T.contains(y, b):
                return y
            if y is b and not T.contains(x, b):
                return x
            d = T.to_poly(sub(x, y)) if (x.op == 'poly' or y.op == 'poly') else None
            if d is not None:
                c = d.get(((b, 1),))
                if c is not None:
                    s = T.div(sub(mul(num(c), b), sub(x, y)), num(c))
                    if not T.contains(s, b):
                        return s
        return None

    # attributes -------------------------------------------------
    def cls_of(self, t, st=None):
        k = T.REFTYPE.get(t)
        if k is not None:
            return self.p.classes.get(k.args[0]) if k.op == 'cls' else None
        if t.op == 'dcopy' or t.op == 'scopy':
            return self.cls_of(t.args[1], st)
        ty = self.types_of(t)
        cs = [x for x in ty if x.startswith('cls:')]
        if len(cs) == 1 and ty <= {cs[0], 'None'}:
            return self.p.classes.get(cs[0][4:])
        if st is not None:
            for a, v in st.facts.items():
                if v and a.op == 'typeis' and a.args[0] is t and a.args[1].op == 'cls':
                    return self.p.classes.get(a.args[1].args[0])
        return None

    def types_of(self, t):
        ty = T.TYPES.get(t)
        if ty is not None:
            return ty
        if t.op == 'attr' and isinstance(t.args[1], str):
            c = self.cls_of(t.args[0])
            if c is not None:
                ty = self.p.attr_types(c, t.args[1])
                T.TYPES[t] = ty
                return ty
        return frozenset({'?'})

    def attr_base(self, o, name):
        """Attribute of an object not written so far."""
        if o.op in ('ref', 'fn'):
            return ABSENT
        if o.op == 'obj':
            for k, v in o.args[1]:
                if k == name:
                    return v
            return ABSENT
        if o.op == 'scopy':
            return self.attr_base(o.args[1], name)
        t = raw('attr', o, name)
        self.types_of(t)
        return t

    def read_attr(self, st, o, key):
        """key is a str term; returns value-or-ABSENT (symbolic objects: base attribute, assumed present)."""
        log = self.log_of(st, o, ATTRS)
        if T.is_str(key):
            base = self.attr_base(o, key.args[1])
        elif o.op == 'ref':
            base = ABSENT
        else:
            base = raw('attr', o.args[1] if o.op == 'scopy' else o, key)
        if not log:
            return base
        return self.simp(self.log_lookup(log, key, base), st)

    def getattr_(self, st, o, name, node=None):
        if o.op == 'ite':
            return self.split(st, o, lambda s, x: self.getattr_(s, x, name, node))
        if o.op == 'ext':
            return self.M.ext_attr(self, st, o, name)
        if o.op == 'module':
            return self.rebound(st, o, name, self.global_value(self.p.attr_of_module(o.args[0], name), o.args[0] + '.' + name))
        if o.op == 'superof':
            return raw('superattr', o, name)
        if o.op == 'cls':
            c = self.p.classes.get(o.args[0])
            if c is not None:
                f = self.p.method(c, name)
                if f is not None:
                    return raw('fn', f.qual)
                ca = self.class_value(st, c, name)
                if ca is not None:
                    return ca
                if name == '__name__':
                    return string(c.name)
            return raw('attr', o, name)
        if o.op == 'fn' and name not in ('__name__', '__doc__', '__module__', '__qualname__', '__code__', '__defaults__'):
            v = self.read_attr(st, o, string(name))
            if v is ABSENT:
                self.raise_(st, TRUE, 'AttributeError')
                raise Abrupt()
            bad = self.simp(eq(v, ABSENT), st)
            if bad is not FALSE:
                self.raise_(st, bad, 'AttributeError')
            return T.strip_absent(v)
        c = self.cls_of(o, st)
        if c is not None:
            f = self.p.method(c, name)
            if f is not None and f.prop:
                if 'cached_property' in f.decos and o.op in ('ref', 'obj'):
                    v = self.read_attr(st, o, string(name))
                    gone = self.simp(eq(v, ABSENT), st)
                    if gone is FALSE:
                        return T.strip_absent(v)

                    def first(s):
                        x = self.call_func(f, [o], {}, s)
                        s.push(o, ATTRS, ('set', string(name), x, TRUE))
                        return x
                    return self.branch(st, gone, first, lambda s: T.strip_absent(v))
                return self.call_func(f, [o], {}, st)
            v = self.read_attr(st, o, string(name))
            if o.op == 'ref' or o.op == 'obj':
                if v is not ABSENT:
                    bad = eq(v, ABSENT)
                    if bad is FALSE:
                        return v
                    bad = self.simp(bad, st)
                    if bad is FALSE:
                        return v
                if f is not None:
                    if v is not ABSENT:
                        return ite(bad, raw('bound', o, f.qual), T.strip_absent(v))
                    return raw('bound', o, f.qual)
                ca = self.class_value(st, c, name)
                if ca is not None:
                    return ca if v is ABSENT else ite(bad, ca, T.strip_absent(v))
                if name == '__dict__':
                    return raw('instdict', o)
                if name == '__class__':
                    return raw('cls', c.qual)
                fall = self.p.method(c, '__getattr__')
                if v is ABSENT:
                    if fall is not None:
                        return self.call_func(fall, [o, string(name)], {}, st)
                    self.raise_(st, TRUE, 'AttributeError')
                    raise Abrupt()
                if fall is not None:
                    raise Unsupported('attribute fallback on a conditional attribute')
                self.raise_(st, bad, 'AttributeError')
                return T.strip_absent(v)
            if f is not None:
                return raw('bound', o, f.qual)
            ca = self.class_value(st, c, name)
            if ca is not None and name not in self._inst_attrs(c):
                return ca
            if name == '__class__':
                return T.raw('typeof', o)
            return v
        if o.op == 'ref':
            return self.M.ref_attr(self, st, o, name)
        return self.M.term_attr(self, st, o, name)

    def class_value(self, st, c, name):
        """Class attribute, as written in the class body or assigned to a class since (None: there is none)."""
        ca = self.p.classattr(c, name)
        v = self.eval_global_expr(ca[0].module, ca[1]) if ca is not None else None
        for k in reversed(self.p.mro(c)):
            t = raw('cls', k.qual)
            if ca is not None and k is ca[0] and k is not c:
                v = self.eval_global_expr(ca[0].module, ca[1])
            log = self.log_of(st, t, ATTRS)
            if log:
                w = self.simp(self.log_lookup(log, string(name), ABSENT if v is None else v), st)
                if w is not ABSENT:
                    if v is None and self.simp(eq(w, ABSENT), st) is not FALSE:
                        raise Unsupported('class attribute assigned on some paths only')
                    v = w
        return v

    def _inst_attrs(self, c):
        out = set()
        for k in self.p.mro(c):
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == 'self':
                    out.add(n.attr)
        return out

    def setattr_(self, st, o, key, val, raw_set=False):
        """key: str term."""
        if o.op == 'ite':
            return self.split(st, o, lambda s, x: self.setattr_(s, x, key, val, raw_set) or NONE)
        c = self.cls_of(o, st)
        if c is not None and not raw_set:
            f = self.p.method(c, '__setattr__')
            if f is not None:
                self.call_func(f, [o, key, val], {}, st)
                return
            if T.is_str(key) and self.p.method(c, key.args[1] + '@setter'):
                self.call_func(self.p.method(c, key.args[1] + '@setter'), [o, val], {}, st)
                return
        if o.op == 'instdict':
            o = o.args[0]
        st.push(o, ATTRS, ('set', key, val, TRUE))

    # items -------------------------------------------------------
    def lookup(self, st, o, k):
        """value-or-ABSENT of dictionary-like o at k."""
        if o.op == 'ite':
            return ite(o.args[0], self.lookup(st, o.args[1], k), self.lookup(st, o.args[2], k))
        log = self.log_of(st, o, ITEMS)
        if o.op == 'ref':
            return self.simp(self.log_lookup(log, k, ABSENT), st)
        if o.op in ('dict', 'dictc'):
            base = T.dict_lookup(o, k)
        else:
            base = ite(in_(k, o), item(o, k), ABSENT)
        if log:
            base = self.log_lookup(log, k, base)
        return self.simp(base, st)

    def contains_(self, st, k, o):
        if o.op == 'ite':
            return ite(o.args[0], self.contains_(st, k, o.args[1]), self.contains_(st, k, o.args[2]))
        kind = T.REFTYPE.get(o)
        if kind is DICT or kind is FRAME:
            return not_(eq(self.lookup(st, o, k), ABSENT))
        if kind is LIST or kind is SET:
            return in_(k, self.content(st, o))
        if o.op == 'keysof':
            return self.contains_(st, k, o.args[0])
        if self.log_of(st, o, ITEMS):
            ty = self.types_of(o)
            if 'list' in ty and 'dict' not in ty:
                return in_(k, self.content(st, o))
            return not_(eq(self.lookup(st, o, k), ABSENT))
        return in_(k, o)

    def content(self, st, o):
        """Sequence of elements of list-like / keys of dict-like object."""
        if o.op == 'ite':
            c = T.cond_seg(o.args[0], self.content(st, o.args[1]), self.content(st, o.args[2]))
            return c if c.op == 'seq' else seq(c)
        if o.op == 'seq':
            return o
        if o.op == 'keysof':
            return self.keys(st, o.args[0])
        kind = T.REFTYPE.get(o)
        if kind is DICT:
            return self.keys(st, o)
        if o.op == 'ref' and kind not in (LIST, SET):
            c = self.cls_of(o)
            if c is not None:
                return self.iter_object(st, o, c)
        log = self.log_of(st, o, ITEMS)
        base = NIL if o.op == 'ref' else seq_of(o)
        if not log:
            c = self.cls_of(o, st)
            if c is not None and self.p.method(c, '__iter__'):
                return self.iter_object(st, o, c)
            return base
        if o.op != 'ref' and 'list' not in self.types_of(o) and any(e[0] in ('set', 'update') for e in log):
            return self.keys(st, o)
        return self.list_log(st, log, base)

    def iter_object(self, st, o, c):
        f = self.p.method(c, '__iter__')
        if f is None:
            raise Unsupported(f'iteration over {c.name}')
        if self.p.method(c, '__next__') is not None:
            return self.content(st, self.read_attr(st, o, string(self.counted(c))))
        r = self.call_func(f, [o], {}, st)
        if r is o or (r.op == 'ref' and self.cls_of(r) is not None):
            raise Unsupported('stateful iterator object')
        return self.content(st, r)

    def counted(self, c):
        """The attribute a self-iterating class walks through: __iter__ zeroes a counter, __next__ yields that element and
        advances, and at the end removes the counter again."""
        if c.qual in self._counted:
            return self._counted[c.qual]
        o = T.sym('iterated:' + c.qual)
        T.TYPES[o] = frozenset({'cls:' + c.qual})
        st = State()
        sink = []
        self.sinks.append(sink)
        try:
            r = self.call_func(self.p.method(c, '__iter__'), [o], {}, st)
            sets = [e for e in st.heap.get(o, ((), ()))[ATTRS]]
            if r is not o or sink or len(sets) != 1 or sets[0][0] != 'set' or sets[0][2] is not num(0):
                raise Unsupported('stateful iterator object')
            k, b = sets[0][1], T.fresh('e')
            T.TYPES[b] = frozenset({'int'})
            st = State()
            st.push(o, ATTRS, ('set', k, b, TRUE))
            try:
                v = self.call_func(self.p.method(c, '__next__'), [o], {}, st)
            except Abrupt:
                raise Unsupported('stateful iterator object')
        finally:
            self.sinks.pop()
        if len(sink) != 1 or sink[0].val[0] != 'StopIteration':
            raise Unsupported('stateful iterator object')
        stop = sink[0]
        for a in sorted(self._inst_attrs(c)):
            xs = self.read_attr(State(), o, string(a))
            if v is self.getitem(State(), xs, b) and stop.pc is T.le(T.length(xs), b) and \
                    self.read_attr(st, o, k) is add(b, num(1)) and self.read_attr(stop.st, o, k) is ABSENT:
                self._counted[c.qual] = a
                return a
        raise Unsupported('stateful iterator object')

    def list_log(self, st, log, base):
        segs = list(base.args)
        for ev in log:
            k = ev[0]
            if k == 'append':
                s = T.cond_seg(ev[2], seq(one(ev[1])), NIL)
                segs.append(s)
            elif k == 'extend':
                c = self.content(st, ev[1]) if ev[1].op in ('ref', 'ite') else seq_of(ev[1])
                s = T.cond_seg(ev[2], c, NIL)
                segs.append(s)
            elif k == 'each':
                body = self.list_log(st, ev[4], NIL)
                segs.append(T.cmap(ev[1], lam(ev[2], body)))
            elif k == 'clear':
                if ev[1] is TRUE:
                    segs = []
                else:
                    segs = [T.cond_seg(ev[1], NIL, seq(*segs))]
            elif k == 'phi':
                segs = [raw('phiseq', ev[1])]
            elif k == 'insert' and T.is_num(ev[1]) and ev[1].args[1] == 0:
                segs.insert(0, T.cond_seg(ev[3], seq(one(ev[2])), NIL))
            elif k == 'set' and T.is_num(ev[1]) and ev[3] is TRUE and all(s.op == 'one' for s in segs):
                n = int(ev[1].args[1])
                if -len(segs) <= n < len(segs):
                    segs[n] = one(ev[2])
            else:
                segs.append(raw('segop', string(k), *[a for a in ev[1:] if type(a) is Term]))
        out = []
        for s in segs:
            if s.op == 'cond':
                out.append(s)
            elif s.op == 'seq':
                out.extend(s.args)
            else:
                out.append(s)
        return seq(*out)

    def keys(self, st, o):
        """Keys of a dict-like in insertion order when that is determined, else an opaque key sequence."""
        if o.op == 'dictc':
            return seq(*[one(k) for k, _ in o.args])
        if o.op == 'dict':
            return seq(splice(raw('keys', o)))
        log = self.log_of(st, o, ITEMS)
        if o.op != 'ref' and not log:
            return seq_of(o)
        segs = [] if o.op == 'ref' else list(seq_of(o).args)
        if all(e[0] == 'set' and e[3] is TRUE and T.is_const(e[1]) for e in log) and o.op == 'ref':
            seen = []
            for e in log:
                if e[1] not in seen:
                    seen.append(e[1])
            return seq(*[one(k) for k in seen])
        if o.op == 'ref' and len(log) <= 8 and all(e[0] == 'set' for e in log):
            out, had = [], []
            for e in log:
                old = or_(*[and_(g, eq(k, e[1])) for k, g in had])
                c = self.simp(and_(e[3], not_(old)), st)
                out.append(T.cond_seg(c, seq(one(e[1])), NIL))
                had.append((e[1], e[3]))
            return seq(*[x for g in out for x in (g.args if g.op == 'seq' else [g])])
        if o.op == 'ref' and len(log) == 1:
            ev = log[0]
            if ev[0] == 'update' and ev[2] is TRUE:
                return self.keys(st, ev[1]) if ev[1].op in ('dictc', 'ref') else seq_of(ev[1])
            if ev[0] == 'each':
                s = self._each_keys(ev)
                if s is not None:
                    return s
        elif o.op == 'ref':
            # all keys distinct by construction: constant sets plus loops over unknown names
            return seq(splice(raw('keys', self.reify(o, st))))
        if o.op != 'ref':
            # writes to keys that are already there keep the key set
            return seq(splice(raw('keys', self.dict_term(st, o))))
        return seq(splice(raw('keys', self.reify(o, st))))

    def _each_keys(self, ev):
        segs = []
        for e in ev[4]:
            if e[0] == 'set':
                segs.append(T.cond_seg(e[3], seq(one(e[1])), NIL))
            elif e[0] == 'phi':
                continue
            else:
                return None
        if len(segs) != 1:
            return None
        s = segs[0]
        body = s if s.op == 'seq' else seq(s)
        if any(x.op == 'phival' for x in T.subterms(body)):
            return None
        return T.cmap(ev[1], lam(ev[2], body))

    def getitem(self, st, o, k, node=None):
        if o.op == 'ite':
            return self.split(st, o, lambda s, x: self.getitem(s, x, k, node))
        if o.op == 'emeth' and o.args[1] in ('loc', 'iloc', 'at', 'iat'):
            c = self.whole_column(o, k)
            if c is not None:
                return self.getitem(st, o.args[0], c, node)
            if o.args[1] in ('iloc', 'iat') and o.args[0].op == 'series' and (T.is_num(k) or 'int' in self.types_of(k)):
                return self.getitem(st, o.args[0], k, node)
            self.unknown.add('method on object ' + o.args[1])
        kind = T.REFTYPE.get(o)
        if kind is DICT or o.op in ('dict', 'dictc') or (kind is FRAME):
            v = self.lookup(st, o, k)
            if v is ABSENT:
                self.raise_(st, TRUE, 'KeyError')
                raise Abrupt()
            if self.caught('KeyError', 'LookupError', 'Exception'):
                self.raise_(st, eq(v, ABSENT), 'KeyError')
            v = T.strip_absent(v)
            return raw('series', v) if kind is FRAME and v.op != 'series' else v
        if kind is LIST:
            return item(self.content(st, o), k)
        if o.op == 'seq':
            return item(o, k)
        if o.op == 'instdict':
            return T.strip_absent(self.read_attr(st, o.args[0], k))
        c = self.cls_of(o, st)
        if c is not None and self.p.method(c, '__getitem__'):
            return self.call_func(self.p.method(c, '__getitem__'), [o, k], {}, st)
        log = self.log_of(st, o, ITEMS)
        if log:
            v = self.log_lookup(log, k, item(o, k))
            return T.strip_absent(self.simp(v, st))
        if self.caught('KeyError') and o.op not in ('arr',):
            self.raise_(st, not_(in_(k, o)), 'KeyError')
        return self.M.term_item(self, st, o, k)

    def whole_column(self, o, k):
        """The column that frame.loc[:, name] stands for, if the term has that form."""
        if o.args[1] == 'loc' and T.REFTYPE.get(o.args[0]) is FRAME and k.op == 'seq' and len(k.args) == 2 \
                and all(s.op == 'one' for s in k.args):
            rows, c = (s.args[0] for s in k.args)
            if rows.op == 'slice' and all(a is NONE for a in rows.args) and c.op != 'slice':
                return c
        return None

    def setitem(self, st, o, k, v):
        if o.op == 'ite':
            return self.split(st, o, lambda s, x: self.setitem(s, x, k, v) or NONE)
        if o.op == 'emeth':
            c = self.whole_column(o, k)
            if c is not None:
                return self.setitem(st, o.args[0], c, v)
            self.unknown.add('method on object ' + o.args[1])
        elif o.op in ('xattr', 'xmethod', 'arrm'):
            self.unknown.add('method on object ' + o.op)
        if o.op == 'instdict':
            return self.setattr_(st, o.args[0], k, v, raw_set=True)
        if T.REFTYPE.get(o) is FRAME:
            v = self.M.unseries(v)
        st.push(o, ITEMS, ('set', k, v, TRUE))

    # reification ---------------------------------------------------
    def dict_term(self, st, o, seen=()):
        log = self.log_of(st, o, ITEMS)
        if o.op == 'ref' and all(e[0] == 'set' and e[3] is TRUE and T.is_const(e[1]) for e in log):
            d = {}
            for e in log:
                d[e[1]] = self.reify(e[2], st, seen)
            return raw('dictc', *d.items())
        z = T.fresh('k')
        if o.op == 'ref':
            body = self.log_lookup(log, z, ABSENT)
        else:
            body = self.log_lookup(log, z, T.dict_lookup(o, z))
        return T.mkdict(lam(z, self.simp(self.reify(body, st, seen), st)))

    def reify(self, t, st, seen=()):
        """Replace every heap object in t by a term describing its contents."""
        o = T.ops(t)
        if 'ref' not in o and 'clo' not in o and not any(k in st.heap for k in T.subterms(t) if k.op != 'ref'):
            return t
        return self._reify(t, st, seen, True, {})

    # positions at which a term denotes an object itself; anywhere else it stands for what was read from the object then
    _only = None
    VALUE_POS = {'ite', 'seq', 'one', 'cond', 'cmapseg', 'dict', 'dictc', 'obj', 'df', 'set', 'lam', 'rows', 'frames',
                 'rowcat', 'lastof', 'first', 'col', 'series', 'arr', 'splice'}

    def _reify(self, t, st, seen, vpos, memo):
        key = (t, vpos)
        r = memo.get(key)
        if r is not None:
            return r
        r = t
        if t.op in ('ref', 'clo'):
            if self._only is not None and t not in self._only:
                pass
            elif t in seen:
                r = raw('cyclic') if t.op == 'ref' else t
            elif t.op == 'clo':
                r = self.reify_clo(t, st, seen)
            else:
                r = self.reify_ref(t, st, seen + (t,))
        elif vpos and t in st.heap and t not in seen and st.heap[t][ITEMS]:
            ty = self.types_of(t)
            if 'list' in ty and 'dict' not in ty or any(e[0] in ('append', 'extend') for e in st.heap[t][ITEMS]):
                r = self.reify(self.list_log(st, st.heap[t][ITEMS], seq_of(t)), st, seen + (t,))
            else:
                r = self.dict_term(st, t, seen + (t,))
        elif not t.args or t.op in T.LEAF or not self._has_objects(t, st):
            pass
        elif t.op == 'lam':
            z = T.fresh('rf')
            body = T.beta(t, z)
            nb = self._reify(body, st, seen, vpos, {})
            r = t if nb is body else lam(z, nb)
        elif t.op in ('ocall', 'ucall', 'draw'):
            r = t
        else:
            inner = vpos and t.op in self.VALUE_POS

            def arg(a, i):
                if type(a) is Term:
                    return self._reify(a, st, seen, inner and not (i == 0 and t.op in ('ite', 'cond', 'cmapseg', 'lastof',
                                                                                     'first', 'splice')), memo)
                if type(a) is tuple:
                    return tuple(arg(x, 1) for x in a)
                return a
            args = tuple(arg(a, i) for i, a in enumerate(t.args))
            r = t if args == t.args else T.rebuild(t.op, args)
        memo[key] = r
        return r

    def _has_objects(self, t, st):
        o = T.ops(t)
        return 'ref' in o or 'clo' in o or any(k in st.heap for k in T.subterms(t))

    def reify_ref(self, x, st, seen):
        kind = T.REFTYPE.get(x)
        if kind is DICT:
            return self.dict_term(st, x, seen)
        if kind is FRAME:
            d = self.dict_term(st, x, seen)
            return d if d.op in ('frames', 'framesix', 'df', 'tableop', 'jsonframe') else raw('df', d)
        if kind is LIST:
            return self.reify(self.content(st, x), st, seen)
        if kind is SET:
            return raw('set', self.reify(self.content(st, x), st, seen))
        if kind is not None and kind.op == 'cls':
            names = []
            dyn = []
            for ev in self.log_of(st, x, ATTRS):
                if ev[0] == 'set' and T.is_str(ev[1]):
                    if ev[1].args[1] not in names:
                        names.append(ev[1].args[1])
                else:
                    dyn.append(ev)
            out = []
            for n in sorted(names):
                out.append((n, self.reify(self.read_attr(st, x, string(n)), st, seen)))
            if dyn:
                z = T.fresh('an')
                out.append(('*', lam(z, self.reify(self.log_lookup(tuple(dyn), z, ABSENT), st, seen))))
            return raw('obj', kind, tuple(out))
        if kind is X('numpy.random.Generator'):
            return raw('rng', self.read_attr(st, x, string('state')))
        return raw('alloc', kind if kind is not None else NONE)

    def reify_clo(self, x, st, seen):
        func, closure, frame = self.closures[x]
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg or a.kwarg:
            return raw('closure', string(ast.dump(func.node)))
        vs = [T.fresh('ca') for _ in names]
        s = st.copy()
        self.sinks.append([])
        try:
            if self.depth > MAXDEPTH or x in [f.selfterm for f in self.frames]:
                return raw('closure', string(func.qual))
            body = self.call_value(x, list(vs), {}, s)
            body = self.reify(body, s, seen + (x,))
        except Abrupt:
            body = raw('raises')
        finally:
            self.sinks.pop()
        for v in reversed(vs):
            body = lam(v, body)
        return raw('function', body)

    # ------------------------------------------------------------ control helpers
    def split(self, st, t, f):
        """Apply f to both arms of a gate and join."""
        c = self.simp(t.args[0], st)
        if c is TRUE:
            return f(st, t.args[1])
        if c is FALSE:
            return f(st, t.args[2])
        if t.args[1] is UNDEF or t.args[1] is ABSENT:
            return f(st, t.args[2])
        if t.args[2] is UNDEF or t.args[2] is ABSENT:
            return f(st, t.args[1])
        return self.branch(st, c, lambda s: f(s, t.args[1]), lambda s: f(s, t.args[2]))

    def branch(self, st, c, fa, fb):
        c = self.simp(c, st)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a, b = st.copy(), st.copy()
        self.add_fact(a, c, True)
        self.add_fact(b, c, False)
        a.pc, b.pc = and_(a.pc, c), and_(b.pc, not_(c))
        va = vb = None
        try:
            va = fa(a)
        except Abrupt:
            a = None
        try:
            vb = fb(b)
        except Abrupt:
            b = None
        if a is None and b is None:
            raise Abrupt()
        pc = st.pc
        m = self.merge(c, a, b)
        if a is not None and b is not None:
            m.pc = pc
        st.become(m)
        if a is None:
            return vb
        if b is None:
            return va
        return ite(c, va, vb) if va is not None and vb is not None else NONE

    def caught(self, *names):
        return any(n in h for h in self.handlers for n in names)

    def raise_(self, st, cond, exc, val=None):
        """Record an exceptional exit under cond and continue under not cond."""
        cond = self.simp(cond, st)
        if cond is FALSE:
            return
        s = st.copy()
        self.add_fact(s, cond, True)
        s.pc = and_(s.pc, cond)
        self.sinks[-1].append(Exit('raise', s.pc, s, (exc, val)))
        if cond is not TRUE:
            self.add_fact(st, cond, False)
            st.pc = and_(st.pc, not_(cond))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st, exits):
        for i, n in enumerate(body):
            self.stmts += 1
            try:
                st = self.exec(n, st, exits)
            except Abrupt:
                return None
            if st is None:
                return None
        return st

    def exec(self, n, st, exits):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(n).__name__} at line {n.lineno}')
        return m(n, st, exits)

    def x_Expr(self, n, st, exits):
        if isinstance(n.value, ast.Constant):
            return st
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            fr = self.frames[-1]
            v = self.eval(n.value.value, st) if n.value.value else NONE
            y = st.env['#yield']
            st.push(y, ITEMS, ('append' if isinstance(n.value, ast.Yield) else 'extend', v, TRUE))
            return st
        self.eval(n.value, st)
        return st

    def x_Pass(self, n, st, exits):
        return st

    def x_Import(self, n, st, exits):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.env[nm] = raw('module', full) if full in self.p.modules else X(full)
        return st

    def x_ImportFrom(self, n, st, exits):
        mod = self.frames[-1].module.absmod(n)
        for a in n.names:
            if mod in self.p.modules:
                r = self.p.attr_of_module(mod, a.name)
                st.env[a.asname or a.name] = self.global_value(r, f'{mod}.{a.name}')
            else:
                st.env[a.asname or a.name] = X(f'{mod}.{a.name}')
        return st

    def x_Global(self, n, st, exits):
        self.frames[-1].globals |= set(n.names)
        return st

    def x_Nonlocal(self, n, st, exits):
        raise Unsupported('nonlocal statement')

    def x_Assert(self, n, st, exits):
        c = self.cond(n.test, st)
        self.raise_(st, not_(c), 'AssertionError')
        return st

    def x_Delete(self, n, st, exits):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                st.push(o, ITEMS, ('del', self.eval_index(t.slice, st), TRUE))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                st.push(o, ATTRS, ('del', string(t.attr), TRUE))
        return st

    def x_FunctionDef(self, n, st, exits):
        st.env[n.name] = self.make_closure(n, st)
        return st

    def make_closure(self, n, st):
        from .project import Func
        fr = self.frames[-1]
        f = Func(n, fr.module, fr.func.cls if fr.func else None)
        f.nested = True
        c = raw('clo', next(_ids))
        self.closures[c] = (f, {**(fr.closure or {}), **st.env}, fr)
        f.snap = {k: fr.last[k][0] for k in fr.last}
        for d in list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]:
            f.defvals[id(d)] = self.eval(d, st)
        if hasattr(n, 'name'):
            self.closures[c][1][n.name] = c
        return c

    def x_ClassDef(self, n, st, exits):
        from .project import Cls
        fr = self.frames[-1]
        c = Cls(n, fr.module)
        c.qual = f'{fr.module.name}.<local>.{c.name}'
        for f in c.methods.values():
            f.closure_env = st.env
            f.qual = f'{c.qual}.{f.name}'
        self.p.classes[c.qual] = c
        t = raw('cls', c.qual)
        T.SUBCLASSES.setdefault(t, set()).add(t)
        st.env[n.name] = t
        return st

    def x_Assign(self, n, st, exits):
        v = self.eval(n.value, st)
        src = self.source(n.value, v, st)
        for t in n.targets:
            self.assign(t, v, st)
            if isinstance(t, ast.Name) and v.op == 'arr' and self.integer_array(n.value, st):
                st.env['%' + t.id] = self.integer_array(n.value, st)
            if src is not None and isinstance(t, ast.Name) and src is not raw('loc', st.env.get('#frame', NONE), t.id):
                st.env['@' + t.id] = src
        return st

    def x_AnnAssign(self, n, st, exits):
        if n.value is not None:
            v = self.eval(n.value, st)
            src = self.source(n.value, v, st)
            self.assign(n.target, v, st)
            if src is not None and isinstance(n.target, ast.Name):
                st.env['@' + n.target.id] = src
        return st

    def integer_array(self, n, st):
        """Does the expression build an array into which numbers are stored truncated (TRUE) or rounded (its element type)?"""
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and plain_path(n.func.value)):
            return False
        kw = {k.arg: k.value for k in n.keywords}
        i = {'zeros': 1, 'ones': 1, 'empty': 1, 'full': 2, 'zeros_like': 1, 'ones_like': 1, 'empty_like': 1, 'full_like': 2,
             'array': 1}.get(n.func.attr)
        if i is None:
            return False
        d = kw.get('dtype', n.args[i] if len(n.args) > i else None)
        if d is not None:
            d = self.eval(d, st)
            if d.op == 'ext' and d.args[0] in ('numpy.float32', 'numpy.float16', 'numpy.single', 'numpy.half'):
                return d
            if T.is_str(d) and d.args[1] in ('float32', 'float16', 'f4', 'f2'):
                return X('numpy.float32' if d.args[1] in ('float32', 'f4') else 'numpy.float16')
            return TRUE if self.M.int_dtype(d) and 'bool' not in str(d) else False
        if n.func.attr == 'full':
            v = kw.get('fill_value', n.args[1] if len(n.args) > 1 else None)
            return TRUE if isinstance(v, ast.Constant) and type(v.value) is int else False
        return False

    # Arrays are values here; a name bound to an array held elsewhere remembers where ('@name'), so that changing the array
    # in place through the name also changes what the other holder sees.
    def source(self, n, v, st):
        if v.op not in ('arr', 'series'):
            return None
        if isinstance(n, ast.Name):
            if n.id in st.env and '#frame' in st.env:
                return raw('loc', st.env['#frame'], n.id)
            return None
        if isinstance(n, ast.Attribute) and plain_path(n.value):
            o = self.eval(n.value, st)
            return raw('locattr', o, n.attr) if self.cls_of(o, st) is not None else None
        if isinstance(n, ast.Subscript) and plain_path(n.value) and plain_path(n.slice):
            o = self.eval(n.value, st)
            if not self.M.is_array(self, o) and o.op not in ('series', 'ite'):
                return raw('locitem', o, self.eval_index(n.slice, st))
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('asarray', 'asanyarray', 'ravel', 'atleast_1d') \
                and len(n.args) == 1 and not n.keywords and plain_path(n.args[0]) and plain_path(n.func.value):
            a = self.eval(n.args[0], st)
            return self.source(n.args[0], v, st) if a is v else None
        return None

    def changed_in_place(self, name, old, new, st):
        """The array bound to `name` changed from old to new in place."""
        st.env[name] = new
        self.frames[-1].bound(name)
        src = st.env.get('@' + name)
        if src is None:
            return
        if src.op == 'inroot':
            st.push(src.args[0], ITEMS, ('inplace', new, TRUE))
        elif old.op == 'phival':
            raise Unsupported('array held elsewhere changed in place in a loop')
        elif src.op == 'loc':
            if src.args[0] is st.env.get('#frame'):
                if st.env.get(src.args[1]) is old:
                    self.changed_in_place(src.args[1], old, new, st)
            elif st.env.get('@wb|' + src.args[1]) is old:
                st.env['@wb|' + src.args[1]] = new
        elif src.op == 'locattr':
            if self.read_attr(st, src.args[0], string(src.args[1])) is old:
                self.setattr_(st, src.args[0], string(src.args[1]), new, raw_set=True)
        elif src.op == 'locitem':
            if T.strip_absent(self.lookup(st, src.args[0], src.args[1])) is old if T.REFTYPE.get(src.args[0]) is not LIST \
                    else item(self.content(st, src.args[0]), src.args[1]) is old:
                self.setitem(st, src.args[0], src.args[1], new)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals:
                st.push(raw('module', self.frames[-1].module.name), ATTRS, ('set', string(t.id), v, TRUE))
                return
            st.env[t.id] = v
            st.env.pop('@' + t.id, None)
            st.env.pop('%' + t.id, None)
            self.frames[-1].bound(t.id, v if st.pc is TRUE else None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr_(st, o, string(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            self.assign_item(t, o, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def assign_item(self, t, o, v, st):
        if self.M.is_array(self, o):
            if isinstance(t.value, ast.Name) and '%' + t.value.id in st.env:
                d = st.env['%' + t.value.id]
                v = self.M.ew(T.toint if d is TRUE else lambda q: raw('castlike', q, d), v)
            new = self.M.array_set(self, st, o, self.eval_keys(t.slice, st), v)
            if o.op not in ('arr', 'series') and self.root_input(o):
                st.push(o, ITEMS, ('inplace', v, TRUE))
            if isinstance(t.value, ast.Name):
                self.changed_in_place(t.value.id, o, new, st)
            else:
                self.assign(t.value, new, st)
            return
        self.setitem(st, o, self.eval_index(t.slice, st), v)

    def unpack(self, elts, v, st):
        if any(isinstance(e, ast.Starred) for e in elts):
            c = self.content(st, v)
            if not all(s.op == 'one' for s in c.args):
                raise Unsupported('starred unpacking')
            vals = [s.args[0] for s in c.args]
            i = [j for j, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
            k = len(elts) - 1 - i
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x, st)
            self.assign(elts[i], T.mklist(*vals[i:len(vals) - k]), st)
            for e, x in zip(elts[i + 1:], vals[len(vals) - k:]):
                self.assign(e, x, st)
            return
        for i, e in enumerate(elts):
            self.assign(e, self.unpack_at(st, v, i, len(elts)), st)

    def unpack_at(self, st, v, i, n):
        if v.op == 'ite':
            return ite(v.args[0], self.unpack_at(st, v.args[1], i, n), self.unpack_at(st, v.args[2], i, n))
        kind = T.REFTYPE.get(v)
        if kind is LIST or v.op == 'seq':
            return item(self.content(st, v), num(i))
        if v.op == 'shapeof':
            return raw('dim', v.args[0], num(i))
        return item(v, num(i))

    def x_AugAssign(self, n, st, exits):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(t.id, ast.Load()), st)
            v = self.eval(n.value, st)
            if cur.op in ('arr', 'series') or cur.op == 'phival' and '@' + t.id in st.env:
                self.aug(t, cur, n.op, v, st, lambda r: self.changed_in_place(t.id, cur, r, st))
            else:
                self.aug(t, cur, n.op, v, st, lambda r: self.assign(t, r, st))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr_(st, o, t.attr)
            v = self.eval(n.value, st)
            self.aug(t, cur, n.op, v, st, lambda r: self.setattr_(st, o, string(t.attr), r))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            if self.M.is_array(self, o):
                cur = self.M.array_get(self, st, o, self.eval_keys(t.slice, st))
                v = self.eval(n.value, st)
                self.aug(t, cur, n.op, v, st, lambda r: self.assign_item(t, o, r, st))
            else:
                k = self.eval_index(t.slice, st)
                cur = self.getitem(st, o, k)
                v = self.eval(n.value, st)
                self.aug(t, cur, n.op, v, st, lambda r: self.setitem(st, o, k, r))
        return st

    def aug(self, t, cur, op, v, st, store):
        kind = T.REFTYPE.get(cur)
        if kind is LIST and isinstance(op, ast.Add):
            st.push(cur, ITEMS, ('extend', v, TRUE))
            return
        if kind is DICT and isinstance(op, ast.BitOr):
            self.M.dict_method(self, st, cur, 'update', [v], {})
            return
        if kind is SET and isinstance(op, ast.BitOr):
            self.M.set_method(self, st, cur, 'update', [v], {})
            return
        if isinstance(op, ast.Add) and 'list' in self.types_of(cur) and 'dict' not in self.types_of(cur) and cur.op != 'seq':
            st.push(cur, ITEMS, ('extend', v, TRUE))
            return
        r = self.binop(op, cur, v, st)
        if self.maybe_array(cur) and self.root_input(cur) and not (T.is_const(v) and self.types_of(cur) == {'?'}):
            st.push(cur, ITEMS, ('inplace', r, TRUE))
        store(r)

    def maybe_array(self, t):
        ty = self.types_of(t)
        if t.op in ('poly', 'const', 'arr', 'phival', 'var'):
            return False
        if ty & {'ndarray', 'Series'}:
            return True
        if '?' in ty:
            return t.op in ('sym', 'item', 'attr', 'index', 'titem')
        return False

    def root_input(self, t):
        """Does t denote (part of) an object supplied by the caller?"""
        while t.op in ('attr', 'item', 'index', 'dcopy', 'scopy', 'shapeof', 'titem'):
            if t.op == 'dcopy' or t.op == 'scopy':
                return False
            t = t.args[0]
        return t.op == 'sym' and not t.args[0].startswith('num:')

    def x_Return(self, n, st, exits):
        v = self.eval(n.value, st) if n.value is not None else NONE
        exits.append(Exit('return', st.pc, st, v))
        return None

    def x_Break(self, n, st, exits):
        exits.append(Exit('break', st.pc, st, None))
        return None

    def x_Continue(self, n, st, exits):
        exits.append(Exit('continue', st.pc, st, None))
        return None

    def exc_name(self, node, st):
        if node is None:
            return ('reraise', None)
        v = self.eval(node.func if isinstance(node, ast.Call) else node, st)
        if isinstance(node, ast.Call):
            # arguments only matter for the message
            pass
        if v.op in ('cls', 'ext'):
            return (v.args[0].split('.')[-1], None)
        if v.op == 'exobj':
            return (v.args[0], None)
        if v.op == 'ref' and T.REFTYPE[v].op == 'cls':
            return (T.REFTYPE[v].args[0].split('.')[-1], None)
        return ('Exception', None)

    def x_Raise(self, n, st, exits):
        if n.exc is None:
            nm = st.env.get('#exc', raw('exobj', 'Exception'))
            name = nm.args[0]
        else:
            name, _ = self.exc_name(n.exc, st)
        self.sinks[-1].append(Exit('raise', st.pc, st, (name, None)))
        return None

    def x_If(self, n, st, exits):
        c = self.simp(self.cond(n.test, st), st)
        if c is TRUE:
            return self.exec_block(n.body, st, exits)
        if c is FALSE:
            return self.exec_block(n.orelse, st, exits)
        a, b = st.copy(), st.copy()
        self.add_fact(a, c, True)
        self.add_fact(b, c, False)
        a.pc, b.pc = and_(a.pc, c), and_(b.pc, not_(c))
        pa, pb = a.pc, b.pc
        ra = self.exec_block(n.body, a, exits)
        rb = self.exec_block(n.orelse, b, exits)
        m = self.merge(c, ra, rb)
        if ra is not None and rb is not None and ra.pc is pa and rb.pc is pb:
            m.pc = st.pc
        return m

    def x_With(self, n, st, exits):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if T.REFTYPE.get(v) is FILE else raw('entered', v), st)
        return self.exec_block(n.body, st, exits)

    def handler_names(self, h, st):
        if h.type is None:
            return ('BaseException',)
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.eval(t, st)
            if v.op == 'seq':
                out += [s.args[0].args[0].split('.')[-1] for s in v.args if s.op == 'one']
            elif v.op in ('cls', 'ext'):
                out.append(v.args[0].split('.')[-1])
            else:
                out.append('Exception')
        return tuple(out)

    EXC_PARENTS = {'KeyError': ('LookupError', 'Exception', 'BaseException'),
                   'IndexError': ('LookupError', 'Exception', 'BaseException'),
                   'FileNotFoundError': ('OSError', 'IOError', 'Exception', 'BaseException'),
                   'ModuleNotFoundError': ('ImportError', 'Exception', 'BaseException')}

    def exc_matches(self, name, caught):
        if name in caught:
            return True
        ps = set(self.EXC_PARENTS.get(name, ('Exception', 'BaseException')))
        for c in self.p.classes.values():
            if c.name == name:
                ps |= {x.name for x in self.p.mro(c)}
        if name.endswith('Warning'):
            ps |= {'Warning', 'UserWarning'} if name != 'Warning' else set()
        return bool(ps & set(caught))

    def x_Try(self, n, st, exits):
        hs = [(h, self.handler_names(h, st)) for h in n.handlers]
        names = tuple(x for _, ns in hs for x in ns)
        sink = []
        self.sinks.append(sink)
        self.handlers.append(names)
        pc0 = st.pc
        entry = st.copy()
        inner_exits = []
        fin = bool(n.finalbody)
        body_exits = inner_exits if fin else exits
        try:
            try:
                r = self.exec_block(n.body, st, body_exits)
            finally:
                self.handlers.pop()
                self.sinks.pop()
            outs = []
            # exceptions in else/handlers go to the outer sink (or through finally)
            fsink = []
            if fin:
                self.sinks.append(fsink)
            try:
                if r is not None and n.orelse:
                    r = self.exec_block(n.orelse, r, body_exits)
                for e in sink:
                    for h, ns in hs:
                        if self.exc_matches(e.val[0], ns):
                            s = e.st
                            # restore the environment of this frame
                            s.env = dict(self._frame_env(e, entry))
                            if h.name:
                                s.env[h.name] = raw('exobj', e.val[0])
                            s.env['#exc'] = raw('exobj', e.val[0])
                            rr = self.exec_block(h.body, s, body_exits)
                            if rr is not None:
                                rr.env.pop('#exc', None)
                                outs.append((e.pc, rr))
                            break
                    else:
                        self.sinks[-1].append(e)
            finally:
                if fin:
                    self.sinks.pop()
            m = r
            for pc, s in reversed(outs):
                c = self.simp(pc, entry)
                if m is None:
                    m = s
                else:
                    m2 = self.merge(c, s, m)
                    m2.pc = m2.pc
                    m = m2
            if m is not None and outs and r is not None:
                total = or_(r.pc, *[pc for pc, _ in outs])
                m.pc = pc0 if not body_exits_changed(inner_exits, exits, fin) and len(outs) == len(sink) else total
        except Abrupt:
            raise
        if fin:
            for e in inner_exits:
                s = self.exec_block(n.finalbody, e.st, exits)
                if s is not None:
                    exits.append(Exit(e.kind, e.pc, s, e.val))
            for e in fsink:
                if e.st.env is not None:
                    e.st.env = dict(self._frame_env(e, entry))
                s = self.exec_block(n.finalbody, e.st, exits)
                if s is not None:
                    self.sinks[-1].append(Exit('raise', e.pc, s, e.val))
            if m is not None:
                m = self.exec_block(n.finalbody, m, exits)
        return m

    x_TryStar = x_Try

    def _frame_env(self, e, entry):
        # exits recorded inside callees carry the callee's environment; the try frame's variables are what they were
        # when the call was made, tracked by the `#frame` marker
        env = e.st.env
        if env.get('#frame') is entry.env.get('#frame'):
            return env
        return getattr(e, 'env', None) or self._caller_env.get(id(e), entry.env)

    _caller_env: dict = {}

    # ------------------------------------------------------------ loops
    def iteration(self, st, it):
        """Normalise an iterable term: list of ('one', value) | ('over', C, fn(b)->value-seq)."""
        if it.op == 'ite':
            c = self.content(st, it)
            return self._segments(c)
        if it.op == 'zipof' or it.op == 'enum' or it.op == 'itemsof' or it.op == 'valuesof':
            return self._iter_special(st, it)
        if it.op == 'range':
            lo, hi, stp = it.args
            if T.is_num(lo) and T.is_num(hi) and T.is_num(stp):
                r = range(int(lo.args[1]), int(hi.args[1]), int(stp.args[1]))
                if len(r) <= 64:
                    return [('one', num(i)) for i in r]
            if lo is ZERO and stp is ONE and hi.op == 'len':
                C = hi.args[0]
                return [('over', C, lambda b: seq(one(T.idxof(b))))]
            return [('over', it, lambda b: seq(one(b)))]
        if it.op == 'arr' and len(it.args[0]) == 1:
            C = raw('range', ZERO, it.args[0][0], ONE)
            return [('over', C, lambda b: seq(one(T.at(it, [b]))))]
        if it.op == 'set' and it.args[0].op == 'seq' and all(s.op == 'one' for s in it.args[0].args):
            return self._segments(it.args[0])
        if it.op == 'map':
            return [('over', it.args[0], lambda b: seq(one(T.beta(it.args[1], b))))]
        if it.op == 'revof':
            segs = self.iteration(st, it.args[0])
            if all(s[0] == 'one' for s in segs):
                return list(reversed(segs))
            return [('over', it, lambda b: seq(one(b)))]
        c = self.content(st, it)
        return self._segments(c)

    def _segments(self, c):
        out = []
        for s in c.args:
            if s.op == 'one':
                out.append(('one', s.args[0]))
            elif s.op == 'splice':
                out.append(('over', s.args[0], lambda b: seq(one(b))))
            elif s.op == 'cmapseg':
                out.append(('over', s.args[0], lambda b, l=s.args[1]: seq_of(T.beta(l, b))))
            elif s.op == 'cond':
                out.append(('cond', s.args[0], self._segments(s.args[1]), self._segments(s.args[2])))
            else:
                out.append(('over', seq(s), lambda b: seq(one(b))))
        return out

    def _iter_special(self, st, it):
        if it.op == 'itemsof':
            o = it.args[0]
            return self._map_segs(self._segments(self.keys_any(st, o)),
                                  lambda k, i: T.mklist(k, self.getitem(st, o, k)))
        if it.op == 'valuesof':
            o = it.args[0]
            return self._map_segs(self._segments(self.keys_any(st, o)), lambda k, i: self.getitem(st, o, k))
        if it.op == 'enum':
            inner, start = it.args
            segs = self.iteration(st, inner)
            if all(s[0] == 'one' for s in segs):
                return [('one', T.mklist(add(num(i), start), s[1])) for i, s in enumerate(segs)]
            if len(segs) == 1 and segs[0][0] == 'over':
                _, C, f = segs[0]

                def g(b):
                    s = f(b)
                    if len(s.args) == 1 and s.args[0].op == 'one':
                        return seq(one(T.mklist(add(T.idxof(b), start), s.args[0].args[0])))
                    if not s.args:
                        return s
                    z = raw('rank', s, T.idxof(b))
                    return T.cmap(s, lam(T.fresh('zz'), NIL)) if False else self._enum_filtered(C, f, b, start, s)
                return [('over', C, g)]
            raise Unsupported('enumerate over a composed sequence')
        if it.op == 'zipof':
            segs = [self.iteration(st, x) for x in it.args]
            if all(all(s[0] == 'one' for s in ss) for ss in segs):
                return [('one', T.mklist(*[s[1] for s in row])) for row in zip(*segs)]
            lead = None
            for ss in segs:
                if len(ss) == 1 and ss[0][0] == 'over':
                    lead = ss[0]
                    break
            if lead is None or any(len(ss) != 1 and not all(s[0] == 'one' for s in ss) for ss in segs):
                raise Unsupported('zip over composed sequences')
            C = lead[1]

            def g(b):
                row = []
                for x, ss in zip(it.args, segs):
                    if ss[0] is lead or (ss[0][0] == 'over' and ss[0][1] is C):
                        s = ss[0][2](b)
                        if len(s.args) != 1 or s.args[0].op != 'one':
                            raise Unsupported('zip over a filtered sequence')
                        row.append(s.args[0].args[0])
                    else:
                        i = T.idxof(b)
                        if x.op == 'range':
                            row.append(add(x.args[0], mul(x.args[2], i)))
                        elif x.op == 'countfrom':
                            row.append(add(x.args[0], i))
                        else:
                            row.append(self.getitem(st, x, i))
                return seq(one(T.mklist(*row)))
            return [('over', C, g)]
        raise Unsupported(it.op)

    def _enum_filtered(self, C, f, b, start, s):
        raise Unsupported('enumerate over a filtered sequence')

    def keys_any(self, st, o):
        if o.op == 'ite':
            c = T.cond_seg(o.args[0], self.keys_any(st, o.args[1]), self.keys_any(st, o.args[2]))
            return c if c.op == 'seq' else seq(c)
        return self.keys(st, o)

    def _map_segs(self, segs, f):
        out = []
        for s in segs:
            if s[0] == 'one':
                out.append(('one', f(s[1], None)))
            elif s[0] == 'over':
                def g(b, s=s):
                    base = s[2](b)
                    return self._map_seq(base, f)
                out.append(('over', s[1], g))
            else:
                out.append(('cond', s[1], self._map_segs(s[2], f), self._map_segs(s[3], f)))
        return out

    def _map_seq(self, s, f):
        out = []
        for g in s.args:
            if g.op == 'one':
                out.append(one(f(g.args[0], None)))
            elif g.op == 'cond':
                c = T.cond_seg(g.args[0], self._map_seq(g.args[1], f), self._map_seq(g.args[2], f))
                out.append(c)
            elif g.op == 'splice':
                z = T.fresh('ms')
                out.append(T.cmap(g.args[0], lam(z, seq(one(f(z, None))))))
            elif g.op == 'cmapseg':
                z = T.fresh('ms')
                out.append(T.cmap(g.args[0], lam(z, self._map_seq(seq_of(T.beta(g.args[1], z)), f))))
            else:
                raise Unsupported('iteration over ' + g.op)
        return seq(*out)

    def x_For(self, n, st, exits):
        it = self.eval(n.iter, st)

        def body(s, val, ex):
            self.assign(n.target, val, s)
            return self.exec_block(n.body, s, ex)
        segs = self.iteration(st, it)
        r = self.run_loop(st, segs, body, exits, n.orelse)
        if any(x[0] != 'one' for x in segs):
            self.loop_bound(n)
        return r

    def loop_bound(self, n):
        """After a loop: functions defined inside it see the last iteration's variables."""
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in self.frames[-1].last:
                self.frames[-1].bound(x.id)

    def run_loop(self, st, segs, body, exits, orelse=(), brks=None):
        own, entry, n0 = brks is None, st, len(exits)
        brks = [] if own else brks
        pc0 = st.pc
        for s in segs:
            if st is None:
                break
            if s[0] == 'one':
                ex = []
                try:
                    r = body(st, s[1], ex)
                except Abrupt:
                    r = None
                for e in ex:
                    if e.kind == 'continue':
                        r = self.merge(self._relpc(e, r), e.st, r)
                    elif e.kind == 'break':
                        brks.append(e)
                    else:
                        exits.append(e)
                st = r
            elif s[0] == 'over':
                st = self.loop_over(st, s[1], s[2], body, exits, brks)
            elif s[0] == 'cond':
                c = s[1]
                a, b = st.copy(), st.copy()
                self.add_fact(a, c, True)
                self.add_fact(b, c, False)
                a.pc, b.pc = and_(a.pc, c), and_(b.pc, not_(c))
                ra = self.run_loop(a, s[2], body, exits, brks=brks)
                rb = self.run_loop(b, s[3], body, exits, brks=brks)
                st = self.merge(c, ra, rb)
        if st is not None and orelse:
            st = self.exec_block(orelse, st, exits)
        if own and brks:
            for e in brks[::-1]:
                st = self.merge(self.simp(e.pc, entry), e.st, st)
            if len(exits) == n0:
                st.pc = pc0
        return st

    def _relpc(self, e, r):
        return e.pc

    def loop_over(self, st, C, elem, body, exits, brks=None):
        if C.op == 'ite':
            c = C.args[0]
            a, b = st.copy(), st.copy()
            self.add_fact(a, c, True)
            self.add_fact(b, c, False)
            a.pc, b.pc = and_(a.pc, c), and_(b.pc, not_(c))
            ra = self.loop_over(a, C.args[1], elem, body, exits, brks)
            rb = self.loop_over(b, C.args[2], elem, body, exits, brks)
            return self.merge(c, ra, rb)
        if C.op == 'seq' and C is not NIL and not any(s.op in ('phiseq', 'segop') for s in C.args):
            return self.run_loop(st, self._segments_map(C, elem), body, exits, brks=brks)
        if C is NIL:
            return st
        b = T.fresh('e')
        T.ELEMS[b] = C
        if C.op == 'range':
            T.TYPES[b] = frozenset({'int'})
        self.elem_type(C, b, st)
        mut_env, mut_heap, cache = set(), {}, {}
        for attempt in range(9):
            s, phis, P = self._loop_entry(st, C, b, mut_env, mut_heap, cache)
            self.loopvars.append(b)
            sink = []
            self.sinks.append(sink)
            ex = []
            try:
                try:
                    r = self._run_elem(s.copy(), elem(b), body, ex)
                except Abrupt:
                    r = None
            finally:
                self.sinks.pop()
                self.loopvars.pop()
            # states flowing to the end of the iteration
            ends = [(e.pc, e.st) for e in ex if e.kind == 'continue']
            end = r
            for pc, es in ends:
                end = es if end is None else self.merge(self.simp(pc, s0facts(st, C, b, self)), es, end)
            ne, nh = self._mutated(st, s, end, phis, P, mut_env, mut_heap, b)
            allstates = [e.st for e in ex if e.kind in ('break', 'return')]
            for es in allstates:
                ne2, nh2 = self._mutated(st, s, es, phis, P, mut_env, mut_heap, b)
            news = self._note_writes(s, [end] + allstates, P, b)
            if ne <= mut_env and set(nh) <= set(mut_heap) and not news:
                break
            mut_env |= ne
            for o in nh:
                mut_heap.setdefault(o, None)
            if DEBUG:
                print('ATTEMPT', attempt, C, ne, nh, mut_env, mut_heap)
        else:
            raise Unsupported('loop does not stabilise')
        for k in phis:
            k2 = self.other_holder(st, k)
            if k2 != k and k2 in phis and phis[k2][0] is phis[k][0] and end is not None and end.env.get(k) is not end.env.get(k2):
                raise Unsupported('array held by two variables, one of them rebound in a loop')
        entry_pc = st.pc
        inC = s0facts(st, C, b, self)

        own = {}
        if end is not None:
            for o, marks in P.items():
                base = s.heap.get(o) or ((), ())
                for w in (ATTRS, ITEMS):
                    evs = end.heap[o][w][len(base[w]):] if o in end.heap else ()
                    if evs and all(ev[0] == 'set' and ev[1] is b for ev in evs):
                        before = self.lookup(st, o, b) if w == ITEMS else self.read_attr(st, o, b)
                        own[raw('phival', marks[w], b)] = T.strip_absent(before)

        def rel(pc):
            pc = self.simp(pc, inC)
            return subst(pc, own) if own else pc
        # exceptional exits inside the loop
        for e in sink:
            c = rel(e.pc)
            cond = T.exists(C, lam(b, c)) if T.contains(c, b) else and_(c, truthy(C))
            es = e.st.copy()
            es.pc = and_(entry_pc, cond)
            es.facts = {f: v for f, v in es.facts.items() if not T.contains(f, b)}
            self.add_fact(es, cond, True)
            e2 = Exit('raise', es.pc, es, e.val)
            self.sinks[-1].append(e2)
        early = [e for e in ex if e.kind in ('break', 'return')]
        noexc = or_(*[rel(e.pc) for e in sink]) if sink else FALSE
        if early:
            return self._loop_early(st, C, b, s, end, early, exits, phis, P, rel, brks)
        if end is None:
            # body never completes: the loop completes only when C is empty
            out = st.copy()
            self.add_fact(out, truthy(C), False)
            out.pc = and_(out.pc, not_(truthy(C)))
            return out
        end = self._drop_noexc(end, sink)
        return self._loop_exit(st, C, b, s, end, phis, P, noexc)

    def _drop_noexc(self, end, sink):
        return end

    def elem_type(self, C, b, st):
        ty = T.TYPES.get(raw('elemtype', C)) or T.column_type(C)
        if ty:
            T.TYPES[b] = ty

    def _segments_map(self, C, elem):
        out = []
        for s in self._segments(C):
            if s[0] == 'one':
                e = elem(s[1])
                out += self._segments(e)
            elif s[0] == 'over':
                def g(b, s=s):
                    inner = s[2](b)
                    res = []
                    for x in inner.args:
                        if x.op == 'one':
                            res.append(elem(x.args[0]))
                        elif x.op == 'cond':
                            res.append(seq(T.cond_seg(x.args[0], self._elem_seq(x.args[1], elem),
                                                      self._elem_seq(x.args[2], elem))))
                        else:
                            raise Unsupported('composed iteration')
                    return seq(*[y for z in res for y in z.args])
                out.append(('over', s[1], g))
            else:
                out.append(('cond', s[1], self._segments_map(seq(*[]), elem), []))
                raise Unsupported('conditional iteration')
        return out

    def _elem_seq(self, s, elem):
        out = []
        for x in s.args:
            if x.op != 'one':
                raise Unsupported('composed iteration')
            out.extend(elem(x.args[0]).args)
        return seq(*out)

    def _run_elem(self, s, vals, body, ex):
        """vals: seq of values produced for this element (usually one, possibly guarded)."""
        return self.run_loop_collect(s, self._segments(vals), body, ex)

    def run_loop_collect(self, s, segs, body, ex):
        for g in segs:
            if s is None:
                return None
            if g[0] == 'one':
                s = body(s, g[1], ex)
            elif g[0] == 'cond':
                c = self.simp(g[1], s)
                if c is TRUE:
                    s = self.run_loop_collect(s, g[2], body, ex)
                    continue
                if c is FALSE:
                    s = self.run_loop_collect(s, g[3], body, ex)
                    continue
                a, b = s.copy(), s.copy()
                self.add_fact(a, c, True)
                self.add_fact(b, c, False)
                a.pc, b.pc = and_(a.pc, c), and_(b.pc, not_(c))

                def go(st2, segs2):
                    try:
                        return self.run_loop_collect(st2, segs2, body, ex)
                    except Abrupt:
                        return None
                ra, rb = go(a, g[2]), go(b, g[3])
                pc = s.pc
                s = self.merge(c, ra, rb)
            else:
                s = self.loop_over(s, g[1], g[2], body, ex)
        return s

    def _loop_entry(self, st, C, b, mut_env, mut_heap, cache):
        """cache: the marks of this loop, shared by its attempts so that terms stay comparable."""
        s = st.copy()
        self.add_fact(s, in_(b, C) if C.op not in ('range',) else TRUE, True)
        phis, P = {}, {}
        for k in sorted(mut_env):
            if k in st.env and st.env[k] is not UNDEF:
                v = st.env[k]
                k2 = self.other_holder(st, k)
                k2 = k2 if k2 in mut_env and st.env.get(k2) is v else k
                p = cache.get(k2)
                if p is None:
                    p = cache[k2] = T.fresh('phi')
                if v.op == 'arr':
                    val = T.mkarr(v.args[0], lambda *ix, p=p: raw('elt', p, tuple(ix)))
                    phis[k] = (p, val)
                else:
                    if v in T.TYPES:
                        T.TYPES[p] = T.TYPES[v]
                    elif T.is_num(v):
                        T.TYPES[p] = frozenset({'int', 'float'})
                    phis[k] = (p, p)
                s.env[k] = phis[k][1]
            else:
                s.env.pop(k, None)
        for o in mut_heap:
            marks = cache.get(o)
            if marks is None:
                marks = cache[o] = (T.fresh('st'), T.fresh('st'))
            P[o] = marks
            e = s.heap.get(o) or ((), ())
            which = mut_heap[o]
            a = e[0] + (('phi', marks[0], TRUE),) if which is None or which[0] else e[0]
            i = e[1] + (('phi', marks[1], TRUE),) if which is None or which[1] else e[1]
            s.heap[o] = (a, i)
        return s, phis, P

    def other_holder(self, st, k):
        """The variable k shares its array with, if any."""
        src = st.env.get('@' + k)
        seen = k
        while src is not None and src.op == 'loc':
            seen = src.args[1] if src.args[0] is st.env.get('#frame') else '@wb|' + src.args[1]
            src = st.env.get('@' + seen) if seen != k else None
        return seen

    def _iter_local(self, o, st, b, phis, P):
        """Was object o created inside the current iteration?"""
        if o in st.heap or o in self.gheap:
            return False
        if o.op == 'ref':
            return True
        r = o
        while r.op in ('attr', 'item', 'titem', 'index'):
            r = r.args[0]
        if r.op not in ('ocall', 'ucall', 'draw', 'xcall', 'xmethod', 'emeth'):
            return False
        marks = {b} | {p for p, _ in phis.values()} | {m for ms in P.values() for m in ms}
        return any(x in marks for x in T.subterms(r))

    def _mutated(self, st, s, end, phis, P, mut_env, mut_heap, b):
        ne, nh = set(), set()
        if end is None:
            return ne, nh
        for k, v in end.env.items():
            if k.startswith('#'):
                continue
            cur = phis[k][1] if k in phis else st.env.get(k)
            if v is not cur:
                ne.add(k)
        for o, e in end.heap.items():
            if self._iter_local(o, st, b, phis, P):
                continue
            base = self._entry_log(st, o, P, mut_heap)
            if len(e[0]) != len(base[0]) or len(e[1]) != len(base[1]):
                nh.add(o)
                w = (len(e[0]) != len(base[0]), len(e[1]) != len(base[1]))
                if o in mut_heap:
                    old = mut_heap[o]
                    mut_heap[o] = w if old is None else (old[0] or w[0], old[1] or w[1])
        return ne, nh

    def _entry_log(self, st, o, P, mut_heap):
        e = st.heap.get(o) or ((), ())
        if o in P:
            which = mut_heap.get(o)
            a = e[0] + (('phi', P[o][0], TRUE),) if which is None or which[0] else e[0]
            i = e[1] + (('phi', P[o][1], TRUE),) if which is None or which[1] else e[1]
            return (a, i)
        return e

    def _loop_exit(self, st, C, b, s, end, phis, P, noexc):
        out = st.copy()
        inC = s0facts(st, C, b, self)
        # objects allocated inside the body are described by value
        local = {o for o in end.heap if self._iter_local(o, st, b, phis, P)}

        def close(t):
            if any(x in local for x in T.subterms(t)):
                t = self.reify_local(t, end, local)
            return self.simp(t, inC) if T.atoms(t) else t
        # counters: phi variables that advance by a loop-invariant amount
        sub_ = {}
        for k, (p, val) in phis.items():
            e = end.env.get(k, UNDEF)
            if e is UNDEF or val.op == 'arr':
                continue
            d = sub(e, p) if e.op == 'poly' and T.to_poly(e).get(((p, 1),)) == 1 else None
            if d is not None and not any(T.contains(d, q[0]) for q in phis.values()) and not T.contains(d, b):
                sub_[p] = add(st.env[k], mul(d, T.idxof(b)))

        # an iteration that only writes at its own element reads there what was stored before the loop
        for o, marks in P.items():
            base = s.heap.get(o) or ((), ())
            for w in (ATTRS, ITEMS):
                evs = end.heap[o][w][len(base[w]):] if o in end.heap else ()
                if evs and all(ev[0] == 'set' and ev[1] is b for ev in evs):
                    before = self.lookup(st, o, b) if w == ITEMS else self.read_attr(st, o, b)
                    sub_[raw('phival', marks[w], b)] = T.strip_absent(before) if before is not ABSENT else before

        def fin(t):
            t = close(t)
            return subst(t, sub_) if sub_ else t
        allp = [p for k, (p, _) in phis.items() if p not in sub_]
        for k, v in end.env.items():
            if k.startswith('#'):
                continue
            if k in phis:
                p, val = phis[k]
                if v is val:
                    continue
                init = st.env[k]
                out.env[k] = self._var_exit(C, b, init, p, val, v, sub_, fin, allp, st, P)
            elif st.env.get(k) is not v:
                e = fin(v)
                if any(T.contains(e, p) for p in allp):
                    out.env[k] = raw('unk', string('loop value'))
                else:
                    prev = st.env.get(k, UNDEF)
                    val2 = raw('lastof', C, lam(b, e)) if T.contains(e, b) else e
                    out.env[k] = val2 if prev is UNDEF else ite(truthy(C), val2, prev)
        for o, e in end.heap.items():
            if o in local:
                continue
            base = s.heap.get(o) or ((), ())
            new = list(out.heap.get(o) or ((), ()))
            for w in (ATTRS, ITEMS):
                evs = e[w][len(base[w]):]
                if evs:
                    evs = tuple(self.map_event(ev, fin) for ev in evs)
                    new[w] = new[w] + (('each', C, b, P[o][w] if o in P else None, evs),)
            out.heap[o] = tuple(new)
        tr = end.trace[len(s.trace):]
        if tr:
            out.trace = st.trace + (('each', C, b, None, tuple(self.map_event(ev, fin) for ev in tr)),)
        for k, v in end.draws.items():
            out.draws[k] = v
        if noexc is not FALSE and T.contains(noexc, b):
            ex_ = T.exists(C, lam(b, noexc))
            self.add_fact(out, ex_, False)
            out.pc = and_(out.pc, not_(ex_))
        elif noexc is not FALSE:
            self.add_fact(out, and_(noexc, truthy(C)), False)
            out.pc = and_(out.pc, not_(and_(noexc, truthy(C))))
        return out

    def reify_local(self, t, st, local):
        only = st.copy()
        only.heap = {o: e for o, e in st.heap.items() if o in local}
        keep, self._only = self._only, local
        try:
            return self._reify(t, only, (), True, {}) if self._has_objects(t, only) else t
        finally:
            self._only = keep

    def map_event(self, ev, f):
        if ev[0] == 'each':
            return ('each', f(ev[1]), ev[2], ev[3], tuple(self.map_event(e, f) for e in ev[4]))
        return tuple(f(x) if type(x) is Term and i > 0 else x for i, x in enumerate(ev))

    def _var_exit(self, C, b, init, p, val, v, sub_, fin, allp, st, P):
        if p in sub_:
            d = sub(v, p)
            return add(init, mul(fin(d), T.length(C)))
        e = fin(v)
        others = [q for q in allp if q is not p]
        if any(T.contains(e, q) for q in others):
            return raw('unk', string('mutually dependent loop values'))
        if val.op == 'arr':
            e = lift_choice(e)
            if e.op != 'arr' or e.args[0] != val.args[0]:
                return raw('unk', string('array rebuilt in loop'))
            # element-wise loop summary
            acc = T.fresh('acc')

            def elem(*ix):
                body = T.at(e, list(ix))
                body = subst(body, {raw('elt', p, tuple(ix)): acc})
                r = self.solve_fold(C, b, T.at(init, list(ix)), acc, body)
                if any(x.op == 'elt' and x.args[0] is p for x in T.subterms(r)):
                    return raw('unk', string('array loop'))
                return r
            return T.mkarr(val.args[0], elem)
        if not T.contains(e, p):
            return self.solve_fold(C, b, init, p, e)
        if e.op == 'frames':
            segs = e.args[0].args
            if segs and segs[0].op == 'one' and segs[0].args[0] is p and not any(T.contains(s, p) for s in segs[1:]):
                return self.M.frames(seq(*(self.M.frame_seq(self, init, st).args +
                                           T.cmap(C, lam(b, seq(*segs[1:]))).args)))
        if e.op == 'ite':
            r = self._ite_accum(C, b, init, p, e, st)
            if r is not None:
                return r
        if e.op == 'seq':
            segs = e.args
            if segs and segs[0].op == 'splice' and segs[0].args[0] is p and not any(T.contains(s, p) for s in segs[1:]):
                return seq(*(self.content(st, init).args + T.cmap(C, lam(b, seq(*segs[1:]))).args))
        if e.op == 'strcat' and e.args[0] is p:
            rest = T.strcat(*e.args[1:])
            if not T.contains(rest, p):
                return T.strcat(init, raw('joinmap', C, lam(b, rest)))
        return self.solve_fold(C, b, init, p, e)

    def _ite_accum(self, C, b, init, p, e, st):
        """Every branch extends the accumulator by some frames."""
        def ext(t):
            if t is p:
                return NIL
            if t.op == 'frames':
                segs = t.args[0].args
                if segs and segs[0].op == 'one' and segs[0].args[0] is p and not any(
                        T.contains(s, p) for s in segs[1:]):
                    return seq(*segs[1:])
                return None
            if t.op == 'ite':
                if T.contains(t.args[0], p):
                    return None
                x, y = ext(t.args[1]), ext(t.args[2])
                if x is None or y is None:
                    return None
                c = T.cond_seg(t.args[0], x, y)
                return c if c.op == 'seq' else seq(c)
            return None
        x = ext(e)
        if x is None or x is NIL:
            return None
        return self.M.frames(seq(*(self.M.frame_seq(self, init, st).args + T.cmap(C, lam(b, x)).args)))

    def _loop_early(self, st, C, b, s, end, early, exits, phis, P, rel, brks=None):
        if end is not None:
            changed = [k for k, v in end.env.items() if not k.startswith('#') and k in st.env and
                       (v is not (phis[k][1] if k in phis else st.env[k]))]
            live = [k for k in changed if any(k in e.st.env and e.st.env[k] is end.env[k] for e in early)]
            heapch = [o for o, e in end.heap.items() if not (o.op == 'ref' and o not in st.heap) and
                      e != (s.heap.get(o) or ((), ()))]
            if heapch or any(T.contains(v, phis[k][0]) for k in phis for v in end.env.values()):
                raise Unsupported('early exit from a loop with effects')
        out = None
        if end is not None:
            out = self._loop_exit(st, C, b, s, end, phis, P, FALSE)
        else:
            out = st.copy()
        hit = or_(*[rel(e.pc) for e in early])
        anyhit = T.exists(C, lam(b, hit)) if T.contains(hit, b) else and_(hit, truthy(C))
        first = {}

        def at_first(t):
            if not T.contains(t, b):
                return t
            return raw('first', C, lam(b, hit), lam(b, t))
        result = None
        for e in early:
            c = rel(e.pc)
            es = st.copy()
            for k, v in e.st.env.items():
                if k.startswith('#'):
                    continue
                if st.env.get(k) is not v:
                    if any(T.contains(v, phis[q][0]) for q in phis):
                        raise Unsupported('early exit depends on loop state')
                    es.env[k] = at_first(v)
            for o, ev in e.st.heap.items():
                base = s.heap.get(o) or ((), ())
                if o.op == 'ref' and o not in st.heap:
                    es.heap[o] = ev
                elif ev != base:
                    n2 = list(es.heap.get(o) or ((), ()))
                    for w in (ATTRS, ITEMS):
                        evs = ev[w][len(base[w]):]
                        n2[w] = n2[w] + tuple(self.map_event(x, at_first) for x in evs)
                    es.heap[o] = tuple(n2)
            cc = at_first(c) if len(early) > 1 else TRUE
            cond = and_(anyhit, cc)
            es.pc = and_(st.pc, cond)
            self.add_fact(es, anyhit, True)
            if e.kind == 'return':
                v = at_first(e.val) if e.val is not None else NONE
                exits.append(Exit('return', es.pc, es, v))
            elif brks is not None:
                brks.append(Exit('break', es.pc, es, None))
            else:
                result = es if result is None else self.merge(cc, es, result)
        self.add_fact(out, anyhit, False)
        out.pc = and_(out.pc, not_(anyhit))
        if result is not None:
            pc = st.pc
            r = self.merge(anyhit, result, out)
            if not any(e.kind == 'return' for e in early):
                r.pc = pc
            return r
        return out

    def x_While(self, n, st, exits):
        s = self._unroll(n, st, exits)
        if s is not None:
            return s
        try:
            return self.while_over(n, st, exits)
        finally:
            self.loop_bound(n)

    def while_over(self, n, st, exits):
        mut_env, mut_heap, cache = set(), {}, {}
        C = raw('iters', num(next(_ids)))
        b = T.fresh('e')
        for attempt in range(9):
            s, phis, P = self._loop_entry(st, C, b, mut_env, mut_heap, cache)
            s.facts.pop(in_(b, C), None)
            sink = []
            self.sinks.append(sink)
            ex = []
            self.loopvars.append(b)
            try:
                c = self.simp(self.cond(n.test, s), s)
                if c is FALSE and not mut_env and not mut_heap:
                    return st
                body_st = s.copy()
                self.add_fact(body_st, c, True)
                body_st.pc = and_(body_st.pc, c)
                try:
                    r = self.exec_block(n.body, body_st, ex)
                except Abrupt:
                    r = None
            finally:
                self.sinks.pop()
                self.loopvars.pop()
            end = r
            for e in ex:
                if e.kind == 'continue':
                    end = e.st if end is None else self.merge(self.simp(e.pc, st), e.st, end)
            ne, nh = self._mutated(st, s, end, phis, P, mut_env, mut_heap, b)
            if ne <= mut_env and set(nh) <= set(mut_heap):
                break
            mut_env |= ne
            for o in nh:
                mut_heap.setdefault(o, None)
        else:
            raise Unsupported('loop does not stabilise')
        if any(e.kind in ('break', 'return') for e in ex):
            raise Unsupported('early exit from a while loop')
        if end is None:
            raise Unsupported('while body never completes')
        # canonical loop descriptor over the loop-carried values the condition and the results depend on
        nxt = {k: end.env[k] for k in phis if k in end.env}
        order = []
        by_phi = {p: k for k, (p, v) in phis.items()}

        def visit(t):
            for x in self._dfs(t):
                k = by_phi.get(x)
                if k is not None and k not in order and k in nxt:
                    order.append(k)
                    visit(nxt[k])
        cond = c
        visit(cond)
        core = tuple(order)
        out = st.copy()

        def close(t):
            return self.reify(t, end)
        inits = tuple(self.reify(st.env[k], st) for k in order)

        def mkW(keys):
            body = raw('wbody', close(cond), tuple(close(nxt[k]) for k in keys))
            for k in reversed(keys):
                body = lam(phis[k][0], body)
            return raw('wloop', tuple(self.reify(st.env[k], st) for k in keys), body)
        W = mkW(order)
        for k, v in end.env.items():
            if k.startswith('#'):
                continue
            if k in phis:
                if v is phis[k][1]:
                    continue
                keys = list(order)
                if k not in keys:
                    keys2 = list(order)
                    todo = [k]
                    while todo:
                        q = todo.pop(0)
                        if q in keys2:
                            continue
                        keys2.append(q)
                        for x in self._dfs(nxt[q]):
                            kk = by_phi.get(x)
                            if kk is not None and kk not in keys2:
                                todo.append(kk)
                    Wk = mkW(keys2)
                    out.env[k] = raw('wval', num(keys2.index(k)), Wk)
                else:
                    out.env[k] = raw('wval', num(order.index(k)), W)
                if st.env[k] in T.TYPES:
                    T.TYPES[out.env[k]] = T.TYPES[st.env[k]]
            elif st.env.get(k) is not v:
                out.env[k] = raw('unk', string('while temp'))
        self.last_while = (W, order, phis, nxt, st, cond, end)
        it = raw('witer', W)
        local = {o for o in end.heap if self._iter_local(o, st, b, phis, P)}
        for o, e in end.heap.items():
            if o in local:
                continue
            base = s.heap.get(o) or ((), ())
            new = list(out.heap.get(o) or ((), ()))
            for w in (ATTRS, ITEMS):
                evs = e[w][len(base[w]):]
                if evs:
                    new[w] = new[w] + (('each', it, b, P[o][w] if o in P else None,
                                        tuple(self.map_event(x, lambda t: self.reify_local(t, end, local)) for x in evs)),)
            out.heap[o] = tuple(new)
        tr = end.trace[len(s.trace):]
        if tr:
            out.trace = st.trace + (('each', it, b, None, tr),)
        for e in sink:
            self.sinks[-1].append(Exit('raise', and_(st.pc, raw('exists', it, lam(b, self.simp(e.pc, st)))), e.st, e.val))
        if n.orelse:
            return self.exec_block(n.orelse, out, exits)
        return out

    def _unroll(self, n, st, exits):
        """Carry out a loop whose condition is decided on every pass."""
        s, k = st, 0
        mark = len(exits), len(self.sinks[-1]) if self.sinks else 0
        s = st.copy()
        try:
            while True:
                c = self.simp(self.cond(n.test, s), s)
                if c is FALSE:
                    break
                if c is not TRUE or k >= 64:
                    s = None
                    break
                k += 1
                ex = []
                s = self.exec_block(n.body, s, ex)
                if s is None or ex:
                    s = None
                    break
        except Abrupt:
            s = None
        if s is None or not k:
            del exits[mark[0]:]
            if self.sinks:
                del self.sinks[-1][mark[1]:]
            return self._unroll_few(n, st, exits)
        if n.orelse:
            return self.exec_block(n.orelse, s, exits)
        return s

    def _unroll_few(self, n, st, exits):
        """A loop that certainly ends within a few passes though it may end earlier."""
        if n.orelse:
            return None
        mark = len(self.sinks[-1]) if self.sinks else 0
        left, s, sure, away = [], st.copy(), False, []
        try:
            for k in range(6):
                c = self.simp(self.cond(n.test, s), s)
                if c is not TRUE:
                    out = s.copy()
                    self.add_fact(out, c, False)
                    left.append((not_(c), out))
                    if c is FALSE:
                        sure = True
                        break
                    self.add_fact(s, c, True)
                    s.pc = and_(s.pc, c)
                ex = []
                try:
                    r = self.exec_block(n.body, s, ex)
                except Abrupt:
                    if not ex:
                        raise
                    r = None
                for e in ex:
                    if e.kind == 'continue':
                        r = self.merge(e.pc, e.st, r)
                    elif e.kind == 'break':
                        left.append((self.simp(e.pc, st), e.st))
                    else:
                        away.append(e)
                s = r
                if s is None:
                    sure = True
                    break
        except Abrupt:
            left = None
        if not left or not sure:
            if self.sinks:
                del self.sinks[-1][mark:]
            return None
        exits.extend(away)
        r = left[-1][1]
        for c, out in left[-2::-1]:
            r = self.merge(c, out, r)
        if not away:
            r.pc = st.pc
        return r

    def _dfs(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return
        seen.add(t)
        if t.op == 'poly':
            for c, m in sorted(t.args, key=lambda x: (len(x[1]), abs(x[0]), show_key(x[1]))):
                for x, _ in m:
                    yield from self._dfs(x, seen)
            yield t
            return
        yield t
        for c in T.children(t.args):
            yield from self._dfs(c, seen)

    # ------------------------------------------------------------ expressions
    def cond(self, n, st):
        if isinstance(n, ast.BoolOp):
            acc = None
            isand = isinstance(n.op, ast.And)
            s = st
            facts0 = dict(st.facts)
            for v in n.values:
                c = self.simp(self.cond(v, st), st)
                acc = c if acc is None else (and_(acc, c) if isand else or_(acc, c))
                if acc is (FALSE if isand else TRUE):
                    break
                self.add_fact(st, c, isand)
            st.facts = facts0
            return acc
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st))
        return self.truth(self.eval(n, st), st)

    def truth(self, v, st):
        if v.op == 'ite':
            return ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
        kind = T.REFTYPE.get(v)
        if kind in (LIST, SET):
            return truthy(self.content(st, v))
        if kind is DICT:
            log = self.log_of(st, v, ITEMS)
            if not log:
                return FALSE
            if any(e[0] == 'set' and e[3] is TRUE for e in log):
                return TRUE
            if len(log) == 1 and log[0][0] == 'update' and log[0][2] is TRUE:
                return truthy(log[0][1])
            return truthy(self.reify(v, st))
        c = self.cls_of(v, st)
        if c is not None and v.op == 'ref':
            if self.p.method(c, '__bool__'):
                return truthy(self.call_func(self.p.method(c, '__bool__'), [v], {}, st))
            return TRUE
        self.types_of(v)
        if v.op in ('keysof',):
            return truthy(v.args[0])
        return truthy(v)

    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        v = m(n, st)
        if v.op == 'badshape' and T.surely_bad(v):
            self.raise_(st, TRUE, 'ValueError')
            raise Abrupt()
        if v.op == 'badshape' and (c := T.shapes_clash(v)) is not None:
            self.raise_(st, c, 'ValueError')
        elif v.op == 'ite' and v.args[2].op == 'ite' and v.args[2].args[2].op == 'ite' and v.args[2].args[2].args[2].op == 'badshape':
            w = v.args[2].args[2]
            self.raise_(st, T.shapes_clash(w.args[2]), 'ValueError')
            v = ite(v.args[0], v.args[1], ite(v.args[2].args[0], v.args[2].args[1], w.args[1]))
        return v

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return raw('ellipsis')
        return T.const(n.value)

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        if v is not None:
            if v is UNDEF:
                raise Unsupported(f'possibly undefined {n.id}')
            if v.op == 'ite' and st.facts:
                v = self.simp(v, st)
                if v is UNDEF:
                    raise Unsupported(f'undefined {n.id}')
            return v
        fr = self.frames[-1]
        if fr.closure is not None and n.id in fr.closure:
            if fr.home is not None and n.id in fr.home.last:
                k, v = fr.home.last[n.id]
                if k != fr.func.snap.get(n.id, 0):
                    # the enclosing function bound the name again after defining this one
                    if v is None or k < fr.func.snap.get(n.id, 0):
                        raise Unsupported(f'{n.id} is bound again after it was captured')
                    return v
            return fr.closure[n.id]
        r = self.p.resolve(fr.module, n.id)
        if r is not None:
            return self.rebound(st, raw('module', fr.module.name), n.id, self.global_value(r, f'{fr.module.name}.{n.id}'))
        if n.id in self.M.BUILTINS:
            return X('builtins.' + n.id)
        if n.id in ('__name__',):
            return string(fr.module.name)
        import builtins
        if hasattr(builtins, n.id):
            return X('builtins.' + n.id)
        raise Unsupported(f'unresolved name {n.id}')

    def rebound(self, st, o, name, v):
        """A module or class variable, v unless it was assigned since."""
        log = self.log_of(st, o, ATTRS)
        return self.simp(self.log_lookup(log, string(name), v), st) if log else v

    def global_value(self, r, key):
        if r is None:
            raise Unsupported(f'unresolved global {key}')
        if r[0] == 'func':
            return raw('fn', r[1].qual)
        if r[0] == 'cls':
            return raw('cls', r[1].qual)
        if r[0] == 'ext':
            return X(r[1])
        if r[0] == 'module':
            return raw('module', r[1])
        if r[0] == 'expr':
            return self.eval_global_expr(r[1], r[2])
        raise Unsupported(str(r))

    def eval_global_expr(self, module, node):
        k = (module.name, id(node))
        if k not in self.globals:
            self.globals[k] = raw('unk', string('recursive global'))
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == '_on_demand_import' \
                    and node.args and isinstance(node.args[0], ast.Constant):
                self.globals[k] = X(node.args[0].value)
                return self.globals[k]
            st = State()
            fr = Frame(None, module, None)
            saved = self.frames
            self.frames = [fr]
            self.sinks.append([])
            try:
                v = self.eval(node, st)
            finally:
                self.sinks.pop()
                self.frames = saved
            if v.op == 'ref' and (T.REFTYPE.get(v) is X('numpy.random.Generator') or self.p.static_container(node)):
                self.globals[k] = v
            else:
                self.globals[k] = self.reify(v, st)
            for o, e in st.heap.items():
                self.gheap[o] = e
        return self.globals[k]

    def e_Attribute(self, n, st):
        return self.getattr_(st, self.eval(n.value, st), n.attr, n)

    def e_Tuple(self, n, st):
        return self.sequence(n.elts, st)

    def e_List(self, n, st):
        s = self.sequence(n.elts, st)
        r = newref(LIST)
        evs = []
        for g in s.args:
            evs.append(('append', g.args[0], TRUE) if g.op == 'one' else ('extend', seq(g), TRUE))
        st.heap[r] = ((), tuple(evs))
        return r

    def sequence(self, elts, st):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                segs.extend(self.M.iter_seq(self, st, v).args)
            else:
                segs.append(one(self.eval(e, st)))
        return seq(*segs)

    def e_Set(self, n, st):
        r = newref(SET)
        s = self.sequence(n.elts, st)
        st.heap[r] = ((), tuple(('append', g.args[0], TRUE) if g.op == 'one' else ('extend', seq(g), TRUE) for g in s.args))
        return r

    def e_Dict(self, n, st):
        r = newref(DICT)
        st.heap[r] = ((), ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st)
                self.M.dict_method(self, st, r, 'update', [d], {})
            else:
                kk = self.eval(k, st)
                st.push(r, ITEMS, ('set', kk, self.eval(v, st), TRUE))
        return r

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.eval(v.value, st)
                if v.format_spec is not None:
                    x = raw('fmt', x, string(ast.dump(v.format_spec)))
                parts.append(x)
        if len(parts) == 1 and not T.is_str(parts[0]):
            return raw('strcat', parts[0])
        return T.strcat(*parts)

    def e_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def e_Lambda(self, n, st):
        return self.make_closure(n, st)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        return self.branch(st, c, lambda s: self.eval(n.body, s), lambda s: self.eval(n.orelse, s))

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(s, vals):
            v = self.eval(vals[0], s)
            if len(vals) == 1:
                return v
            c = self.truth(v, s)
            if isand:
                return self.branch(s, c, lambda s2: go(s2, vals[1:]), lambda s2: v if not T.is_bool(v) else FALSE)
            return self.branch(s, c, lambda s2: v if not T.is_bool(v) else TRUE, lambda s2: go(s2, vals[1:]))
        return go(st, n.values)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st))
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.USub):
            return self.M.ew(neg, v)
        if isinstance(n.op, ast.Invert):
            if self.M.gated_array(v):
                return self.M.ew(lambda e: not_(e if T.is_bool(e) else truthy_elem(e)), v)
            return T.elementwise(not_, v) if T.is_bool(v) or v.op == 'arr' else not_(truthy_elem(v))
        return v

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b, st)

    def binop(self, op, a, b, st):
        if isinstance(op, (ast.Add, ast.Mult)):
            la, lb = self._listlike(a), self._listlike(b)
            if isinstance(op, ast.Add) and (la or lb) and not (T.is_const(a) or T.is_const(b)):
                if la and lb:
                    r = newref(LIST) if LIST in (T.REFTYPE.get(a), T.REFTYPE.get(b)) else None
                    s = seq(*(self.content(st, a).args + self.content(st, b).args))
                    if r is None:
                        return s
                    st.heap[r] = ((), (('extend', s, TRUE),))
                    return r
                if self._listlike(a, True) or self._listlike(b, True):
                    r = newref(LIST)
                    s = seq(*(self.M.iter_seq(self, st, a).args + self.M.iter_seq(self, st, b).args))
                    st.heap[r] = ((), (('extend', s, TRUE),))
                    return r
            if isinstance(op, ast.Mult) and (la or lb):
                l, k = (a, b) if la else (b, a)
                if T.is_num(k):
                    s = self.content(st, l)
                    r = newref(LIST)
                    st.heap[r] = ((), (('extend', seq(*(s.args * int(k.args[1]))), TRUE),))
                    return r if T.REFTYPE.get(l) is LIST else seq(*(s.args * int(k.args[1])))
                return raw('seqrep', self.reify(l, st), k)
        if a.op == 'ite' and T.REFTYPE.get(a.args[1]) is not None or b.op == 'ite' and T.REFTYPE.get(b.args[1]) is not None:
            if a.op == 'ite':
                return self.split(st, a, lambda s, x: self.binop(op, x, b, s))
            return self.split(st, b, lambda s, x: self.binop(op, a, x, s))
        if self._arrayish(a) or self._arrayish(b):
            f = ARITH.get(type(op))
            if f is not None:
                return self.M.ew(f, a, b)
        if isinstance(op, ast.Add):
            if self._strlike(a) or self._strlike(b):
                return T.strcat(a, b)
            return add(a, b)
        if isinstance(op, ast.Sub):
            if T.REFTYPE.get(a) is SET:
                return raw('setdiff', self.reify(a, st), self.reify(b, st))
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.FloorDiv):
            return T.fdiv(a, b)
        if isinstance(op, ast.Mod):
            return T.mod(a, b)
        if isinstance(op, ast.BitAnd):
            if T.REFTYPE.get(a) is SET:
                return self.M.set_method(self, st, a, 'intersection', [b], {})
            if self.M.gated_array(a) or self.M.gated_array(b):
                return self.M.ew(lambda x, y: and_(self._b(x), self._b(y)), a, b)
            return T.elementwise(and_, self._b(a), self._b(b))
        if isinstance(op, ast.BitOr):
            if DICT in (T.REFTYPE.get(a), T.REFTYPE.get(b)) or a.op in ('dict', 'dictc'):
                r = newref(DICT)
                st.heap[r] = ((), ())
                for d in (a, b):
                    self.M.dict_method(self, st, r, 'update', [d], {})
                return r
            if SET in (T.REFTYPE.get(a), T.REFTYPE.get(b)) or 'set' in (a.op, b.op):
                if T.REFTYPE.get(a) is SET:
                    return self.M.set_method(self, st, a, 'union', [b], {})
                r = newref(SET)
                st.heap[r] = ((), tuple(('extend', self.M.iter_seq(self, st, x), TRUE) for x in (a, b)))
                return r
            return T.elementwise(or_, self._b(a), self._b(b))
        raise Unsupported(f'operator {type(op).__name__}')

    def _arrayish(self, t):
        return t.op == 'series' or self.M.gated_array(t)

    def _b(self, t):
        if t.op == 'arr' or T.is_bool(t) or t in (TRUE, FALSE):
            return t
        return raw('truthy', t)

    def _strlike(self, t):
        return T.is_str(t) or t.op == 'strcat' or (t in T.TYPES and T.TYPES[t] == frozenset({'str'}))

    def _listlike(self, t, sure=False):
        if T.REFTYPE.get(t) is LIST or t.op == 'seq':
            return True
        ty = self.types_of(t)
        return ty == frozenset({'list'})

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return out[0] if len(out) == 1 else and_(*out)

    def plain_object(self, t):
        """An object the code created, of a class that keeps identity comparison."""
        k = T.REFTYPE.get(t)
        if k is None or k.op != 'cls':
            return False
        c = self.p.classes.get(k.args[0])
        return c is not None and self.p.method(c, '__eq__') is None

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains_(st, a, b)
            return c if isinstance(op, ast.In) else not_(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = is_(a, b)
            return c if isinstance(op, ast.Is) else not_(c)
        if isinstance(op, (ast.Eq, ast.NotEq)) and self.plain_object(a) and self.plain_object(b):
            return is_(a, b) if isinstance(op, ast.Eq) else not_(is_(a, b))
        a2 = self.reify(a, st) if T.REFTYPE.get(a) in (LIST, DICT, SET) else a
        b2 = self.reify(b, st) if T.REFTYPE.get(b) in (LIST, DICT, SET) else b
        if self._arrayish(a2) or self._arrayish(b2):
            f = COMPARE.get(type(op))
            if f is not None:
                return self.M.ew(f, a2, b2)
        if isinstance(op, ast.Eq):
            return eq(a2, b2)
        if isinstance(op, ast.NotEq):
            return T.elementwise(not_, eq(a2, b2))
        if isinstance(op, ast.Lt):
            return lt(a2, b2)
        if isinstance(op, ast.Gt):
            return lt(b2, a2)
        if isinstance(op, ast.LtE):
            return T.elementwise(not_, lt(b2, a2))
        if isinstance(op, ast.GtE):
            return T.elementwise(not_, lt(a2, b2))
        raise Unsupported('comparison')

    def eval_index(self, n, st):
        if isinstance(n, ast.Slice):
            return self._slice_term(n, st)
        if isinstance(n, ast.Tuple):
            return seq(*[one(self.eval_index(e, st)) for e in n.elts])
        return self.eval(n, st)

    def _slice_term(self, n, st):
        p = [self.eval(x, st) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        return raw('slice', *p)

    def eval_keys(self, n, st):
        """Index expression as a list of axis keys."""
        elts = n.elts if isinstance(n, ast.Tuple) else [n]
        out = []
        for e in elts:
            if isinstance(e, ast.Slice):
                s = self._slice_term(e, st)
                out.append(('slice',) + s.args)
                continue
            v = self.eval(e, st)
            if v.op == 'slice':
                out.append(('slice',) + v.args)
            elif v.op == 'ellipsis':
                out.append('...')
            elif v is NONE or (v.op == 'ext' and v.args[0] == 'numpy.newaxis'):
                out.append('newaxis')
            elif v.op == 'seq' and not isinstance(n, ast.Tuple) and all(s.op == 'one' for s in v.args):
                out.extend(s.args[0] for s in v.args)
            else:
                out.append(v)
        return out

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        return self.subscript(st, o, n.slice)

    def subscript(self, st, o, sl):
        if o.op == 'ite':
            return self.split(st, o, lambda s, x: self.subscript(s, x, sl))
        kind = T.REFTYPE.get(o)
        if kind is None or kind.op == 'cls':
            if self.M.is_array(self, o) or self._has_slice(sl):
                if not (kind is None and o.op == 'seq'):
                    return self.M.array_get(self, st, o, self.eval_keys(sl, st))
        if isinstance(sl, ast.Slice) and (kind is LIST or o.op == 'seq'):
            return self.M.slice_seq(self, st, o, self._slice_term(sl, st))
        return self.getitem(st, o, self.eval_index(sl, st))

    def _has_slice(self, sl):
        if isinstance(sl, ast.Slice):
            return True
        return isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) or (
            isinstance(e, ast.Constant) and e.value in (None, Ellipsis)) for e in sl.elts)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        st.env[n.target.id] = v
        return v

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    # comprehensions ---------------------------------------------
    def comp(self, n, st, emit):
        """Run the generators of a comprehension; emit(state) performs the accumulation."""
        names = {t.id for g in n.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)}
        saved = {k: st.env[k] for k in names if k in st.env}
        for k in names:
            st.env.pop(k, None)

        def level(i, s, ex):
            if i == len(n.generators):
                emit(s)
                return s
            g = n.generators[i]
            it = self.eval(g.iter, s)

            def body(s2, val, ex2):
                self.assign(g.target, val, s2)
                c = and_(*[]) if not g.ifs else None
                if g.ifs:
                    fake = ast.BoolOp(ast.And(), list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0]
                    c = self.simp(self.cond(fake, s2), s2)
                    if c is FALSE:
                        return s2
                    if c is not TRUE:
                        a, b = s2.copy(), s2.copy()
                        self.add_fact(a, c, True)
                        self.add_fact(b, c, False)
                        a.pc = and_(a.pc, c)
                        try:
                            a = level(i + 1, a, ex2)
                        except Abrupt:
                            a = None
                        m = self.merge(c, a, b)
                        m.pc = s2.pc
                        return m
                return level(i + 1, s2, ex2)
            return self.run_loop(s, self.iteration(s, it), body, ex)
        fr = self.frames[-1]
        last = {k: fr.last[k] for k in names if k in fr.last}
        r = level(0, st, [])
        for k in names:
            if k in last:
                fr.last[k] = last[k]
            else:
                fr.last[k] = (0, None)
        if r is None:
            raise Abrupt()
        for k in names:
            r.env.pop(k, None)
        r.env.update(saved)
        if r is not st:
            st.become(r)

    def e_ListComp(self, n, st):
        r = newref(LIST)
        st.heap[r] = ((), ())

        def emit(s):
            v = self.eval(n.elt, s)
            s.push(r, ITEMS, ('append', v, TRUE))
        self.comp(n, st, emit)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        r = newref(SET)
        st.heap[r] = ((), ())
        self.comp(n, st, lambda s: s.push(r, ITEMS, ('append', self.eval(n.elt, s), TRUE)))
        return r

    def e_DictComp(self, n, st):
        r = newref(DICT)
        st.heap[r] = ((), ())

        def emit(s):
            k = self.eval(n.key, s)
            s.push(r, ITEMS, ('set', k, self.eval(n.value, s), TRUE))
        self.comp(n, st, emit)
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        self.sites += 1
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and n.func.id not in st.env:
            fr = self.frames[-1]
            return raw('superof', fr.selfterm if fr.selfterm is not None else NONE, raw('cls', fr.func.cls.qual))
        if isinstance(n.func, ast.Attribute):
            o = self.eval(n.func.value, st)
            if self.M.dropped(self, o, n.func.attr):
                return NONE
            args, kwargs = self.eval_args(n, st)
            self.argsrc = self.arg_sources(n, args, kwargs, st)
            if o.op == 'ext' and o.args[0].startswith('numpy') and kwargs.get('out', NONE) is not NONE and '**' not in kwargs:
                return self.into(n, o, args, kwargs, st)
            if o.op in ('arr', 'series') and n.func.attr in ('fill', 'sort', 'partition', 'put', 'itemset', 'resize', 'byteswap'):
                v = args[0] if n.func.attr == 'fill' and len(args) == 1 and not kwargs else None
                new = T.mkarr(o.args[0], lambda *ix: v) if v is not None and o.op == 'arr' else \
                    raw('arrm', n.func.attr, o, tuple(self.value_of(x, st) for x in args))
                self.replace_array(n.func.value, o, new, st)
                return NONE
            return self.call_method(st, o, n.func.attr, args, kwargs)
        f = self.eval(n.func, st)
        if self.M.dropped_fn(self, f):
            return NONE
        args, kwargs = self.eval_args(n, st)
        self.argsrc = self.arg_sources(n, args, kwargs, st)
        return self.call_value(f, args, kwargs, st)

    def into(self, n, o, args, kwargs, st):
        """numpy function with an `out` array."""
        kw = dict(kwargs)
        out = kw.pop('out')
        if out.op == 'seq' and len(out.args) == 1 and out.args[0].op == 'one':
            out = out.args[0].args[0]
        r = self.call_method(st, o, n.func.attr, args, kw)
        node = next(k.value for k in n.keywords if k.arg == 'out')
        if isinstance(node, ast.Tuple) and len(node.elts) == 1:
            node = node.elts[0]
        if out.op == 'arr' and r.op != 'arr':
            r = T.mkarr(out.args[0], lambda *ix: r)
        self.replace_array(node, out, r, st)
        return r

    def replace_array(self, node, old, new, st):
        if old.op not in ('arr', 'series') and self.root_input(old):
            st.push(old, ITEMS, ('inplace', new, TRUE))
        if isinstance(node, ast.Name) and node.id in st.env:
            self.changed_in_place(node.id, old, new, st)
        elif isinstance(node, (ast.Attribute, ast.Subscript)):
            self.assign(node, new, st)
        else:
            raise Unsupported('array changed in place')

    def arg_sources(self, n, args, kwargs, st):
        out = {}
        if not any(isinstance(a, ast.Starred) for a in n.args):
            for a, v in zip(n.args, args):
                if v.op in ('arr', 'series'):
                    out[v] = self.source(a, v, st)
        for k in n.keywords:
            v = kwargs.get(k.arg)
            if type(v) is T.Term and v.op in ('arr', 'series'):
                out[v] = self.source(k.value, v, st)
        return {k: v for k, v in out.items() if v is not None}

    def eval_args(self, n, st):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                s = self.M.iter_seq(self, st, v)
                if all(g.op == 'one' for g in s.args):
                    args.extend(g.args[0] for g in s.args)
                else:
                    args.append(raw('star', s))
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                d = self.reify_shallow(v, st)
                if d.op == 'dictc' and all(T.is_str(x) for x, _ in d.args):
                    for kk, vv in d.args:
                        kwargs[kk.args[1]] = vv
                else:
                    kwargs.setdefault('**', [])
                    kwargs['**'] = kwargs['**'] + [v]
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def reify_shallow(self, v, st):
        """Dictionary term whose values keep their heap identity."""
        if T.REFTYPE.get(v) is DICT:
            log = self.log_of(st, v, ITEMS)
            if all(e[0] == 'set' and e[3] is TRUE and T.is_const(e[1]) for e in log):
                d = {}
                for e in log:
                    d[e[1]] = e[2]
                return raw('dictc', *d.items())
        return v

    def call_method(self, st, o, name, args, kwargs):
        if o.op == 'ite':
            c = self.simp(o, st)
            if c.op != 'ite':
                return self.call_method(st, c, name, args, kwargs)
            return self.split(st, o, lambda s, x: self.call_method(s, x, name, args, kwargs))
        if o.op == 'superof':
            c = self.cls_of(o.args[0], st) or self.p.classes.get(o.args[1].args[0])
            owner = self.p.classes[o.args[1].args[0]]
            f = self.p.method(c, name, after=owner) if owner in self.p.mro(c) else None
            if f is None:
                if name == '__setattr__':
                    self.setattr_(st, o.args[0], args[0], args[1], raw_set=True)
                return NONE
            return self.call_func(f, [o.args[0]] + args, kwargs, st)
        if o.op in ('ext', 'module', 'cls'):
            if o.op == 'ext' and o.args[0] == 'builtins.object' and name == '__setattr__':
                self.setattr_(st, args[0], args[1], args[2], raw_set=True)
                return NONE
            f = self.getattr_(st, o, name)
            return self.call_value(f, args, kwargs, st)
        c = self.cls_of(o, st)
        if c is not None:
            f = self.p.method(c, name)
            if f is not None:
                if o.op == 'ref' and not f.static:
                    v = self.read_attr(st, o, string(name))
                    if v is not ABSENT:
                        # an instance attribute of the same name may hide the method
                        v = self.simp(v, st)
                        hidden = v if v is ABSENT else self.simp(not_(eq(v, ABSENT)), st)
                        if hidden is TRUE:
                            return self.call_value(T.strip_absent(v), args, kwargs, st)
                        if hidden is not ABSENT and hidden is not FALSE:
                            return self.call_value(ite(hidden, T.strip_absent(v), raw('bound', o, f.qual)), args, kwargs, st)
                if self.is_cut(f):
                    return self.opaque(st, f, [] if f.static else [o], args, kwargs, name, c)
                a = args if f.static else [o] + args
                return self.call_func(f, a, kwargs, st)
            if o.op == 'ref' or o.op == 'obj':
                v = self.getattr_(st, o, name)
                return self.call_value(v, args, kwargs, st)
            v = self.read_attr(st, o, string(name))
            return self.call_value(v, args, kwargs, st)
        r = self.M.method(self, st, o, name, args, kwargs)
        if r is not NotImplemented:
            return r
        if o.op != 'ref':
            log = self.log_of(st, o, ATTRS)
            if log:
                v = self.read_attr(st, o, string(name))
                if v is not raw('attr', o, name):
                    return self.call_value(v, args, kwargs, st)
        owners = self.p.method_owners(name)
        if owners:
            ms = [k.methods[name] for k in owners]
            if name in self.cut or len(owners) > 1:
                return self.opaque(st, ms[0], [o], args, kwargs, name, None, ms)
            return self.call_func(ms[0], [o] + args, kwargs, st)
        return self.M.generic_method(self, st, o, name, args, kwargs)

    def is_cut(self, f):
        return f.name in self.cut or f.qual in self.cut or (f.cls and f'{f.cls.name}.{f.name}' in self.cut)

    def opaque(self, st, f, recv, args, kwargs, name, c, alts=None):
        """Call kept opaque: bind arguments to parameter names so that call style does not matter."""
        for g in alts or [f]:
            self.opaqued[g.qual] = g
        env = self.bind_opaque(f, recv + args, kwargs, st, alts)
        if name == 'minimize' and dict(env).keys() >= {'func', 'extra_args'}:
            env = self.objective(st, dict(env))
        vals = tuple((k, self.value_of(v, st)) for k, v in env)
        t = raw('ocall', name, vals)
        if name in self.draw_methods:
            t = self.draw(st, t)
        self.trace_call(st, t)
        ann = f.node.returns
        if alts is None and ann is not None:
            ty = self.p.ann_types(f.module, ann)
            if '?' not in ty:
                T.TYPES[t] = ty
        if name in self.shapes:
            shape = self.shapes[name](dict(vals))
            if shape is not None:
                self.may_raise(st, t)
                return T.mkarr(tuple(shape), lambda *ix: raw('elt', t, tuple(ix)))
        return self.may_raise(st, t)

    def objective(self, st, env):
        """A search is described by the function of the unknown it minimises, however the other arguments are passed."""
        extra = env.pop('extra_args')
        func = env.pop('func')
        ks = self.keys(st, extra)
        if not ks.args or any(k.op != 'one' for k in ks.args):
            return [('func', func), ('extra_args', extra)] + list(env.items())
        like = self.getitem(st, extra, ks.args[0].args[0])
        z = T.fresh('unknown')
        x = T.mkarr(like.args[0], lambda *ix: raw('elt', z, tuple(ix))) if like.op == 'arr' else z
        if like.op != 'arr':
            T.TYPES[z] = frozenset({'float', 'int'})
        s = st.copy()
        self.sinks.append([])
        try:
            body = self.value_of(self.call_value(func, [x], {'**': [extra]}, s), s)
        finally:
            self.sinks.pop()
        shape = seq(*[one(d) for d in like.args[0]]) if like.op == 'arr' else raw('shapeof', self.value_of(like, st))
        return [('objective', lam(z, body)), ('shape', shape)] + list(env.items())

    def may_raise(self, st, t):
        """Inside a try block an opaque call may raise what the handlers catch."""
        names = [n for h in self.handlers for n in h]
        for n in dict.fromkeys(names):
            if not T.LIBS_OK[0] or t.op not in ('xcall', 'xmethod', 'xattr'):
                self.raise_(st, raw('exc', n, t), n)
        return t

    def draw(self, st, t):
        ctx = tuple(self.loopvars)
        key = (t, ctx)
        n = st.draws.get(key, 0)
        st.draws[key] = n + 1
        return raw('draw', t, n, ctx)

    def trace_call(self, st, t):
        st.trace = st.trace + (('call', t, TRUE),)

    def value_of(self, v, st):
        return self.valnorm(self.reify(v, st))

    def valnorm(self, t):
        o = T.ops(t)
        if 'dcopy' in o or 'scopy' in o:
            t = T.rewrite(t, lambda x: x.args[1] if x.op in ('dcopy', 'scopy') else None)
        return t

    def bind_opaque(self, f, args, kwargs, st, alts=None):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if alts:
            for g in alts[1:]:
                n2 = g.params()
                # same names are required only for the positions used
                names = names if len(names) <= len(n2) or names[:len(n2)] == n2 else names
        out = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            else:
                rest.append(v)
        stars = kwargs.get('**', [])
        for k, v in kwargs.items():
            if k != '**':
                out[k] = v
        for s in stars:
            for p in names + [p.arg for p in a.kwonlyargs]:
                if p not in out:
                    v = self.lookup(st, s, string(p))
                    if v is not ABSENT:
                        out[p] = T.strip_absent(v)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in defaults.items():
            if k not in out and alts is None:
                out[k] = self.eval_default(f, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in out and d is not None and alts is None:
                out[p.arg] = self.eval_default(f, d)
        order = names + sorted(k for k in out if k not in names)
        res = [(k, out[k]) for k in order if k in out]
        if rest:
            res.append(('*', seq(*[one(x) for x in rest])))
        return res

    def eval_default(self, f, d):
        if id(d) in f.defvals:
            return f.defvals[id(d)]
        return self.eval_global_expr(f.module, d)

    def call_value(self, f, args, kwargs, st):
        if f.op == 'ite':
            f = self.simp(f, st)
            if f.op == 'ite':
                return self.split(st, f, lambda s, x: self.call_value(x, args, kwargs, s))
        if f.op == 'fn':
            fn = self.find_fn(f.args[0])
            if self.is_cut(fn):
                return self.opaque(st, fn, [], args, kwargs, fn.name, None)
            return self.call_func(fn, args, kwargs, st)
        if f.op == 'bound':
            fn = self.find_fn(f.args[1])
            if self.is_cut(fn):
                return self.opaque(st, fn, [] if fn.static else [f.args[0]], args, kwargs, fn.name, None)
            return self.call_func(fn, (args if fn.static else [f.args[0]] + args), kwargs, st)
        if f.op == 'superattr':
            return self.call_method(st, f.args[0], f.args[1], args, kwargs)
        if f.op == 'emeth':
            return self.call_method(st, f.args[0], f.args[1], args, kwargs)
        if f.op == 'cls':
            return self.construct(f, args, kwargs, st)
        if f.op == 'clo':
            fn, closure, fr = self.closures[f]
            return self.call_func(fn, args, kwargs, st, closure=closure, cloterm=f)
        if f.op == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call_value(f.args[0], list(f.args[1]) + args, kw, st)
        if f.op == 'ext':
            return self.M.call_ext(self, st, f.args[0], args, kwargs)
        c = self.cls_of(f, st)
        if c is not None and self.p.method(c, '__call__'):
            return self.call_func(self.p.method(c, '__call__'), [f] + args, kwargs, st)
        if c is not None or T.is_const(f):
            self.raise_(st, TRUE, 'TypeError')
            raise Abrupt()
        if f.op == 'getter':
            vals = [self.getitem(st, args[0], k) for k in f.args[0]]
            return vals[0] if len(vals) == 1 else seq(*[one(v) for v in vals])
        return self.user_call(st, f, args, kwargs)

    def user_call(self, st, f, args, kwargs):
        kw = self.kwargs_term(st, kwargs)
        t = raw('ucall', self.value_of(f, st), tuple(self.value_of(a, st) for a in args), self.value_of(kw, st))
        if f.op in ('attr',) and f.args[1] == '_generator':
            t = self.draw(st, t)
        self.trace_call(st, t)
        if self.ucall_shape is not None:
            self.may_raise(st, t)
            return T.mkarr(tuple(self.ucall_shape), lambda *ix: raw('elt', t, tuple(ix)))
        return self.may_raise(st, t)

    def kwargs_term(self, st, kwargs):
        stars = kwargs.get('**', [])
        named = [(string(k), v) for k, v in kwargs.items() if k != '**']
        if not stars:
            named.sort(key=lambda kv: kv[0].args[1])
            return raw('dictc', *[(k, self.reify(v, st)) for k, v in named])
        z = T.fresh('kw')
        body = ABSENT
        for s in stars:
            v = self.lookup(st, s, z)
            body = ite(eq(v, ABSENT), body, T.strip_absent(v))
        for k, v in named:
            body = ite(eq(z, k), v, body)
        return T.mkdict(lam(z, self.reify(body, st)))

    def find_fn(self, qual):
        if not hasattr(self, '_fns'):
            self._fns = {}
            for m in self.p.modules.values():
                for b in m.bind.values():
                    if b[0] == 'func':
                        self._fns[b[1].qual] = b[1]
                    elif b[0] == 'cls':
                        for f in b[1].methods.values():
                            self._fns[f.qual] = f
        if qual in self._fns:
            return self._fns[qual]
        if qual.endswith('@plain'):
            return self.undecorated(self.find_fn(qual[:-6]))
        for c in self.p.classes.values():
            for f in c.methods.values():
                if f.qual == qual:
                    return f
        raise Unsupported(f'function {qual}')

    def construct(self, k, args, kwargs, st):
        c = self.p.classes.get(k.args[0])
        if c is None:
            raise Unsupported('class ' + k.args[0])
        if any(b.name in ('Exception', 'UserWarning') if hasattr(b, 'name') else b.split('.')[-1] in (
                'Exception', 'UserWarning', 'Warning') for x in self.p.mro(c) for b in self.p.bases(x)) or \
                any(isinstance(b, ast.Name) and b.id in ('Exception', 'UserWarning', 'Warning')
                    for x in self.p.mro(c) for b in x.node.bases):
            return raw('exobj', c.name)
        if c.name in self.cut or f'{c.name}.__init__' in self.cut:
            init = self.p.method(c, '__init__')
            env = self.bind_opaque(init, [NONE] + args, kwargs, st)[1:]
            t = raw('new', k, tuple((a, self.value_of(v, st)) for a, v in env))
            T.TYPES[t] = frozenset({'cls:' + c.qual})
            return t
        r = newref(k)
        st.heap[r] = ((), ())
        init = self.p.method(c, '__init__')
        if init is not None:
            self.call_func(init, [r] + args, kwargs, st)
        elif any(isinstance(d, ast.Name) and d.id == 'dataclass' or isinstance(d, ast.Call) for d in c.node.decorator_list):
            raise Unsupported('dataclass')
        return r

    def call_cached(self, f, args, kwargs, st):
        """functools.cache: the first result for equal arguments is given out again."""
        memo = raw('memo', f.qual)
        plain = self.undecorated(f)
        env = self.bind(plain, args, kwargs, st)
        for v in env.values():
            if T.REFTYPE.get(v) in (DICT, LIST, SET, FRAME) or self.M.is_array(self, v) or v.op in ('dict', 'dictc'):
                self.raise_(st, TRUE, 'TypeError')
                raise Abrupt()
        key = seq(*[one(env[k]) for k in sorted(env) if type(env[k]) is Term])
        v = self.log_lookup(self.log_of(st, memo, ITEMS), key, ABSENT)
        gone = self.simp(eq(v, ABSENT), st) if v is not ABSENT else TRUE

        def first(s):
            x = self.call_func(plain, args, kwargs, s)
            s.push(memo, ITEMS, ('set', key, x, TRUE))
            return x
        return self.branch(st, gone, first, lambda s: T.strip_absent(v))

    def undecorated(self, f):
        from .project import Func
        if f.plain:
            return f
        if getattr(f, 'bare', None) is None:
            f.bare = Func(f.node, f.module, f.cls, f.outer)
            f.bare.plain = True
            f.bare.qual = f.qual + '@plain'
            f.bare.defvals = f.defvals
            if hasattr(f, 'closure_env'):
                f.bare.closure_env = f.closure_env
        return f.bare

    def decorated(self, f):
        """The function after its (package-defined) decorators were applied."""
        k = ('decorated', f.qual)
        if k not in self.globals:
            st = State()
            saved = self.frames
            self.frames = [Frame(None, f.module, None)]
            self.sinks.append([])
            try:
                v = raw('fn', self.undecorated(f).qual)
                for d in reversed(f.wrappers):
                    v = self.call_value(self.eval(d, st), [v], {}, st)
            finally:
                self.sinks.pop()
                self.frames = saved
            for o, e in st.heap.items():
                self.gheap[o] = e
            self.globals[k] = v
        return self.globals[k]

    def call_func(self, f, args, kwargs, st, closure=None, cloterm=None):
        if not f.plain:
            if f.wrappers and closure is None and not f.prop:
                return self.call_value(self.decorated(f), args, kwargs, st)
            if f.cached and closure is None:
                return self.call_cached(f, args, kwargs, st)
        self.visited[f.qual] = self.visited.get(f.qual, 0) + 1
        if self.frames and self.frames[-1].module.name.startswith('spec.'):
            self.direct[f.qual] = f
        on_stack = sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node)
        limit = 8 if f.name.startswith('__') else 3
        if on_stack >= limit or self.depth > MAXDEPTH:
            env = self.bind_opaque(f, args, kwargs, st)
            t = raw('rec', f.name, tuple((k, self.value_of(v, st)) for k, v in env if k != 'self'))
            return t
        env = self.bind(f, args, kwargs, st)
        held = {}
        if self.argsrc:
            for k, v in list(env.items()):
                src = self.argsrc.get(v)
                if src is not None:
                    env['@' + k] = src
                    if src.op == 'loc':
                        held['@wb|' + src.args[1]] = v
            env.update(held)
            self.argsrc = {}
        if not self.frames:
            for k, v in list(env.items()):
                if v.op in ('arr', 'series') and self.root_input(eta_source(v)):
                    env['@' + k] = raw('inroot', eta_source(v))
        callee = st.copy()
        callee.env = env
        fid = raw('frame', next(_ids))
        callee.env['#frame'] = fid
        closure = closure if closure is not None else getattr(f, 'closure_env', None)
        fr = Frame(f, f.module, closure, cloterm)
        if f.cls is not None and not f.static and args and cloterm is None:
            fr.selfterm = args[0]
        elif cloterm is not None:
            outer = self.closures[cloterm][2]
            fr.selfterm = outer.selfterm
        if cloterm is not None:
            fr.home = self.closures[cloterm][2]
        self.frames.append(fr)
        self.depth += 1
        sink = []
        self.sinks.append(sink)
        exits = []
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.eval(f.node.body, callee)
                    exits.append(Exit('return', callee.pc, callee, v))
                    end = None
                except Abrupt:
                    end = None
            else:
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
                if gen:
                    y = newref(LIST)
                    callee.heap[y] = ((), ())
                    callee.env['#yield'] = y
                end = self.exec_block(f.node.body, callee, exits)
                if gen:
                    for e in exits:
                        e.val = y
                    if end is not None:
                        exits.append(Exit('return', end.pc, end, y))
                        end = None
        finally:
            self.sinks.pop()
            self.frames.pop()
            self.depth -= 1
        if end is not None:
            exits.append(Exit('return', end.pc, end, NONE))
        return self.finish_call(st, exits, sink, held)

    def finish_call(self, st, exits, sink, held=()):
        rets = [e for e in exits if e.kind == 'return']
        for e in sink:
            e2 = Exit('raise', e.pc, e.st, e.val)
            self._caller_env[id(e2)] = dict(st.env)
            self._keep = getattr(self, '_keep', [])
            self._keep.append(e2)
            self.sinks[-1].append(e2)
        if not rets:
            raise Abrupt()
        base = State()
        base.facts = dict(st.facts)
        for e in sink:
            self.add_fact(base, self.simp(e.pc, st), False)
        cur = rets[-1]
        val, s = cur.val, cur.st
        for e in reversed(rets[:-1]):
            c = self.simp(e.pc, base)
            val = ite(c, e.val, val)
            s = self.merge(c, e.st, s)
        env, pc = st.env, st.pc
        facts = base.facts
        st.become(s)
        back = {k[4:]: (held[k], s.env.get(k)) for k in held if s.env.get(k) is not held[k]}
        st.env = env
        st.facts = dict(facts)
        for k, (old, new) in back.items():
            if new is not None and env.get(k) is old:
                self.changed_in_place(k, old, new, st)
        if sink:
            for e in sink:
                pc = and_(pc, not_(self.simp(e.pc, State()) if False else e.pc))
            pc = self.simp_pc(pc)
        st.pc = pc
        return self.simp(val, st) if T.atoms(val) else val

    def simp_pc(self, pc):
        return pc

    def bind(self, f, args, kwargs, st):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        extra = []
        for i, v in enumerate(args):
            if v.op == 'star':
                raise Unsupported('star argument')
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        kwonly = [p.arg for p in a.kwonlyargs]
        stars = kwargs.get('**', [])
        more = []
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k in pos or k in kwonly:
                env[k] = v
            else:
                more.append((k, v))
        for s in stars:
            for p in pos + kwonly:
                if p not in env:
                    v = self.lookup(st, s, string(p))
                    if v is ABSENT:
                        continue
                    env[p] = v
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in pos + kwonly:
            v = env.get(p)
            if v is None:
                if p not in defaults:
                    if not stars:
                        self.raise_(st, TRUE, 'TypeError')
                        raise Abrupt()
                    raise Unsupported(f'missing argument {p} of {f.qual}')
                env[p] = self.eval_default(f, defaults[p])
            else:
                bad = eq(v, ABSENT) if v.op in ('ite', 'phival', 'var') else FALSE
                if bad is not FALSE and v.op == 'ite':
                    env[p] = ite(bad, self.eval_default(f, defaults[p]), T.strip_absent(v)) if p in defaults \
                        else T.strip_absent(v)
        if a.vararg:
            env[a.vararg.arg] = seq(*[one(x) for x in extra])
        elif extra:
            self.raise_(st, TRUE, 'TypeError')
            raise Abrupt()
        if a.kwarg:
            r = newref(DICT)
            evs = []
            for s in stars:
                d = self.reify_shallow(s, st)
                if d.op == 'dictc':
                    for k, v in d.args:
                        if k.args[1] not in pos + kwonly:
                            evs.append(('set', k, v, TRUE))
                else:
                    z = T.fresh('k')
                    v = self.lookup(st, s, z)
                    for p in pos + kwonly:
                        v = ite(eq(z, string(p)), ABSENT, v)
                    d2 = T.mkdict(lam(z, self.reify(v, st))) if pos or kwonly else self.reify(s, st)
                    evs.append(('update', d2, TRUE))
            for k, v in more:
                evs.append(('set', string(k), v, TRUE))
            st.heap[r] = ((), tuple(evs))
            env[a.kwarg.arg] = r
        elif more:
            self.raise_(st, TRUE, 'TypeError')
            raise Abrupt()
        return env


ARITH = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: T.div, ast.Pow: T.power, ast.FloorDiv: T.fdiv, ast.Mod: T.mod}
COMPARE = {ast.Eq: eq, ast.NotEq: lambda a, b: not_(eq(a, b)), ast.Lt: lt, ast.Gt: lambda a, b: lt(b, a),
           ast.LtE: lambda a, b: not_(lt(b, a)), ast.GtE: lambda a, b: not_(lt(a, b))}


def plain_path(n):
    """Names, attributes, constants and subscripts only: evaluating it again has no effect."""
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Subscript, ast.Load, ast.Tuple, ast.JoinedStr,
                              ast.FormattedValue)) for x in ast.walk(n))


def eta_source(t):
    """The array a term stands for, when it merely lists that array's elements."""
    if t.op == 'series':
        t = t.args[0]
    if t.op != 'arr':
        return t
    vs = [T.fresh('ix') for _ in t.args[0]]
    b = T.at(t, vs)
    if b.op == 'elt' and len(b.args[1]) == len(vs) and all(x is v or d is ONE and x is ZERO
                                                           for x, v, d in zip(b.args[1], vs, t.args[0])):
        return b.args[0]
    return t


def body_exits_changed(inner, exits, fin):
    return bool(inner)


def truthy_elem(v):
    return raw('truthy', v)


def show_key(m):
    return tuple(sorted(T.show(t, 6) for t, _ in m))


def lift_choice(e):
    """A choice between arrays of one shape as an array of choices."""
    if e.op != 'ite':
        return e
    a, b = lift_choice(e.args[1]), lift_choice(e.args[2])
    if a.op == b.op == 'arr' and a.args[0] == b.args[0]:
        return T.mkarr(a.args[0], lambda *ix: ite(e.args[0], T.at(a, list(ix)), T.at(b, list(ix))))
    return e


def s0facts(st, C, b, interp):
    """Facts that hold at the start of an iteration (used to express conditions relative to it)."""
    s = State()
    s.facts = dict(st.facts)
    interp.add_fact(s, in_(b, C) if C.op != 'range' else TRUE, True)
    return s


def walk_own(node):
    """Walk a function body without entering nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
