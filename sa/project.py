"""Loads the package under analysis from source: modules, classes, functions, name resolution, type annotations."""
from __future__ import annotations

import ast
import os

from . import terms as T


class AnchorMissing(Exception):
    """A public entry point named by a property is gone."""


PLAIN_DECOS = {'staticmethod', 'classmethod', 'property', 'cached_property', 'setter', 'deleter', 'getter', 'lru_cache', 'cache',
               'abstractmethod', 'overload', 'override', 'final', 'wraps', 'case', 'njit', 'jit', 'vectorize', 'contextmanager',
               'deprecated', 'no_type_check', 'singledispatch', 'total_ordering'}


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = f'{module.name}.{cls.name + "." if cls else ""}{self.name}'
        self.decos = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in
                      (x.func if isinstance(x, ast.Call) else x for x in getattr(node, 'decorator_list', []))]
        self.plain = False      # called without its decorators
        self.defvals = {}       # values of parameter defaults evaluated where a nested function is defined

    @property
    def static(self):
        return 'staticmethod' in self.decos

    @property
    def classm(self):
        return 'classmethod' in self.decos

    @property
    def prop(self):
        return any(d in ('property', 'cached_property') for d in self.decos)

    @property
    def cached(self):
        return any(d in ('lru_cache', 'cache') for d in self.decos)

    @property
    def wrappers(self):
        return [n for n, d in zip(getattr(self.node, 'decorator_list', []), self.decos) if d not in PLAIN_DECOS]

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args] + [p.arg for p in a.kwonlyargs]

    def where(self):
        return f'{self.module.rel}:{self.node.lineno} {self.qual}'


class Cls:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = f'{module.name}.{node.name}'
        self.methods, self.attrs = {}, {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in n.decorator_list):
                    self.methods[n.name + '@setter'] = Func(n, module, self)
                else:
                    self.methods[n.name] = Func(n, module, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value


class Unmatch(ast.NodeTransformer):
    """Rewrites match statements as if-chains; statements with patterns outside the handled ones stay as they are."""

    def visit_Match(self, node):
        self.generic_visit(node)
        name = f'match@{node.lineno}@{node.col_offset}'
        subj = ast.Name(name, ast.Load())
        parts = node.subject.elts if isinstance(node.subject, ast.Tuple) else None
        pre = []
        if parts is not None and not any(isinstance(p, ast.Starred) for p in parts):
            names = [f'{name}@{i}' for i in range(len(parts))]
            pre = [ast.Assign([ast.Name(n, ast.Store())], p) for n, p in zip(names, parts)]
            subj = ast.Tuple([ast.Name(n, ast.Load()) for n in names], ast.Load())
        elif isinstance(node.subject, ast.Name):
            subj = node.subject
        else:
            pre = [ast.Assign([ast.Name(name, ast.Store())], node.subject)]
        try:
            chain = []
            for c in reversed(node.cases):
                test, binds = self.pattern(c.pattern, subj)
                if c.guard is not None:
                    if binds:
                        raise NotImplementedError
                    test = c.guard if test is None else ast.BoolOp(ast.And(), [test, c.guard])
                body = [ast.Assign([ast.Name(n, ast.Store())], v) for n, v in binds] + c.body
                chain = body if test is None else [ast.If(test, body, chain)]
        except NotImplementedError:
            return node
        out = pre + (chain or [ast.Pass()])
        for o in out:
            for n in ast.walk(o):
                if 'lineno' in n._attributes and not hasattr(n, 'lineno'):
                    ast.copy_location(n, node)
        return out

    def pattern(self, p, subj):
        """(test or None when it always matches, names bound)"""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)]), []
        if isinstance(p, ast.MatchOr):
            alts = [self.pattern(q, subj) for q in p.patterns]
            if any(b for t, b in alts):
                raise NotImplementedError
            return (None if any(t is None for t, b in alts) else ast.BoolOp(ast.Or(), [t for t, b in alts])), []
        if isinstance(p, ast.MatchAs):
            test, binds = (None, []) if p.pattern is None else self.pattern(p.pattern, subj)
            return test, binds + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchClass) and not p.patterns:
            test = ast.Call(ast.Name('isinstance', ast.Load()), [subj, p.cls], [])
            binds = []
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                t, b = self.pattern(q, ast.Attribute(subj, a, ast.Load()))
                binds += b
                if t is not None:
                    test = ast.BoolOp(ast.And(), [test, t])
            return test, binds
        if isinstance(p, ast.MatchSequence) and isinstance(subj, ast.Tuple) and len(p.patterns) == len(subj.elts) \
                and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            tests, binds = [], []
            for q, e in zip(p.patterns, subj.elts):
                t, b = self.pattern(q, e)
                binds += b
                tests += [] if t is None else [t]
            return (None if not tests else tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)), binds
        raise NotImplementedError


def unmatch(tree):
    return ast.fix_missing_locations(Unmatch().visit(tree))


class Module:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.bind = {}          # name -> ('func', Func) | ('cls', Cls) | ('import', dotted) | ('from', mod, name) | ('expr', node)
        self.stars = []
        self.is_pkg = path.endswith('__init__.py')
        self._collect(tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bind[n.name] = ('func', Func(n, self))
            elif isinstance(n, ast.ClassDef):
                self.bind[n.name] = ('cls', Cls(n, self))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.bind[a.asname] = ('import', a.name)
                    else:
                        self.bind[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = self.absmod(n)
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(mod)
                    else:
                        self.bind[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ('expr', n.value)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for x, v in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name):
                                self.bind[x.id] = ('expr', v)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.bind[n.target.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(n.body)

    def absmod(self, n):
        if not n.level:
            return n.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def all_names(self):
        b = self.bind.get('__all__')
        if b and b[0] == 'expr' and isinstance(b[1], (ast.List, ast.Tuple)):
            return [e.value for e in b[1].elts if isinstance(e, ast.Constant)]
        return None


# Documented types of public attributes, used where the constructor does not show them
DOC_ATTRS = {
    'LatentVar': {
        'chp_vrtn_mdl': ('cls:gerabaldi.models.random_vars.RandomVar',),
        'deter_val': ('float',),
        'dev_vrtn_mdl': ('cls:gerabaldi.models.random_vars.RandomVar',),
        'lot_vrtn_mdl': ('cls:gerabaldi.models.random_vars.RandomVar',),
        'name': ('str',),
        'vrtn_type': ('str',),
    },
    'LatentMdl': {
        'compute': ('Callable', 'None'),
        'latent_vars': ('list',),
        'name': ('None', 'str'),
    },
    'MechMdl': {
        'time_unit': ('None', 'str'),
        'unitary': ('int',),
    },
    'CondShiftMdl': {
        'unitary': ('int',),
    },
    'DegPrmMdl': {
        'array_compute': ('bool',),
        'mech_mdl_list': ('list',),
        'time_unit': ('None', 'str'),
    },
    'DeviceMdl': {
        'name': ('None', 'str'),
        'prm_mdl_list': ('list',),
        'time_unit': ('None', 'str'),
    },
    'MeasInstrument': {
        'name': ('str',),
    },
    'EnvVrtnMdl': {
        'batch_vrtn_mdl': ('cls:gerabaldi.models.random_vars.RandomVar',),
        'chp_vrtn_mdl': ('cls:gerabaldi.models.random_vars.RandomVar',),
        'dev_vrtn_mdl': ('cls:gerabaldi.models.random_vars.RandomVar',),
        'name': ('str',),
        'vrtn_type': ('str',),
    },
    'PhysTestEnv': {
        'name': ('str',),
    },
    'RandomVar': {
        'name': ('None', 'str'),
    },
    'Deterministic': {
        'value': ('float',),
    },
    'Normal': {
        'mu': ('float',),
        'sigma': ('float',),
    },
    'Gamma': {
        'alpha': ('float',),
        'beta': ('float',),
    },
    'Uniform': {
        'start': ('float',),
        'stop': ('float',),
    },
    'SimReport': {
        'test_description': ('None', 'str'),
        'test_name': ('None', 'str'),
    },
    'SimState': {
        'elapsed': ('float', 'timedelta'),
    },
    'MeasSpec': {
        'conditions': ('dict',),
        'measurements': ('dict',),
        'name': ('str',),
    },
    'StrsSpec': {
        'conditions': ('dict',),
        'duration': ('float', 'timedelta'),
        'name': ('str',),
    },
    'TestSpec': {
        'description': ('str',),
        'name': ('str',),
        'num_chps': ('int',),
        'num_lots': ('int',),
        'steps': ('None', 'list'),
    },
}


class Project:
    def __init__(self, root='/repo', package='gerabaldi', extra=None):
        self.root, self.package = root, package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnchorMissing(f'package directory {base} not found')
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.add(name, p, rel)
        for name, p in (extra or {}).items():
            self.add(name, p, os.path.basename(p))
        self.classes = {}
        for m in self.modules.values():
            for k, b in m.bind.items():
                if b[0] == 'cls':
                    self.classes[b[1].qual] = b[1]
        self._mro = {}
        self._subclasses()
        self.loc = sum(len(open(m.path).read().splitlines()) for m in self.modules.values())

    def add(self, name, path, rel):
        src = open(path).read()
        self.modules[name] = Module(name, path, rel, unmatch(ast.parse(src, path)))

    # -------------------------------------------------- resolution
    def resolve(self, module, name, seen=None):
        """-> ('func', Func) | ('cls', Cls) | ('ext', dotted) | ('module', name) | ('expr', Module, node) | None"""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        b = module.bind.get(name)
        if b is None:
            for s in reversed(module.stars):
                m = self.modules.get(s)
                if m is not None:
                    r = self._star(m, name, seen)
                    if r is not None:
                        return r
            return None
        if b[0] in ('func', 'cls'):
            return b
        if b[0] == 'expr':
            return ('expr', module, b[1])
        if b[0] == 'import':
            return ('module', b[1]) if b[1] in self.modules else ('ext', b[1])
        mod, nm = b[1], b[2]
        if mod in self.modules:
            r = self.resolve(self.modules[mod], nm, seen)
            if r is not None:
                return r
        if f'{mod}.{nm}' in self.modules:
            return ('module', f'{mod}.{nm}')
        return ('ext', f'{mod}.{nm}')

    def _star(self, m, name, seen):
        names = m.all_names()
        if names is not None and name not in names:
            return None
        if name.startswith('_') and (names is None or name not in names):
            return None
        return self.resolve(m, name, seen)

    def attr_of_module(self, modname, name):
        m = self.modules[modname]
        r = self.resolve(m, name)
        if r is None and f'{modname}.{name}' in self.modules:
            return ('module', f'{modname}.{name}')
        return r

    def find(self, dotted):
        """Resolve a public dotted name such as gerabaldi.models.devices.LatentVar.gen_latent_vals."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = '.'.join(parts[:i])
            if m in self.modules:
                rest = parts[i:]
                if not rest:
                    return ('module', m)
                r = self.resolve(self.modules[m], rest[0])
                if r is None:
                    continue
                if len(rest) == 1:
                    return r
                if r[0] == 'cls' and len(rest) == 2:
                    f = self.method(r[1], rest[1])
                    if f is not None:
                        return ('func', f)
                break
        raise AnchorMissing(f'public name {dotted} not found in the source')

    # -------------------------------------------------- classes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(c.module, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.resolve(c.module, b.value.id)
                if m and m[0] == 'module':
                    r = self.attr_of_module(m[1], b.attr)
            if r and r[0] == 'cls':
                out.append(r[1])
            elif r and r[0] == 'ext':
                out.append(r[1])
        return out

    def mro(self, c):
        if c.qual not in self._mro:
            out = [c]
            for b in self.bases(c):
                if isinstance(b, Cls):
                    for x in self.mro(b):
                        if x in out:
                            out.remove(x)
                        out.append(x)
            self._mro[c.qual] = out
        return self._mro[c.qual]

    def method(self, c, name, after=None):
        seq = self.mro(c)
        if after is not None:
            seq = seq[seq.index(after) + 1:]
        for k in seq:
            if name in k.methods:
                return k.methods[name]
        return None

    MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort',
                'reverse', 'appendleft'}

    def written_names(self):
        """Names (variables or attributes) of containers that some statement of the program changes in place."""
        if not hasattr(self, '_written'):
            out = set()

            def name(t):
                if isinstance(t, ast.Name):
                    out.add(t.id)
                elif isinstance(t, ast.Attribute):
                    out.add(t.attr)
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        name(n.value)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.MUTATORS:
                        name(n.func.value)
                    elif isinstance(n, ast.AugAssign):
                        name(n.target)
                    elif isinstance(n, ast.Global):
                        out.update(n.names)
            self._written = out
        return self._written

    def static_container(self, node):
        """Is this module-level, class-level or default-value expression a container that is later changed in place?"""
        if not hasattr(self, '_bound'):
            self._bound = {}
            for m in self.modules.values():
                for k, b in m.bind.items():
                    if b[0] == 'expr':
                        self._bound[id(b[1])] = k
                    elif b[0] == 'cls':
                        for a, x in b[1].attrs.items():
                            self._bound[id(x)] = a
        if not (isinstance(node, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or
                isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and
                node.func.id in ('dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter')):
            return False
        k = self._bound.get(id(node))
        return k is None or k in self.written_names()

    def classattr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def _subclasses(self):
        for c in self.classes.values():
            t = T.raw('cls', c.qual)
            T.SUBCLASSES.setdefault(t, set()).add(t)
            for b in self.mro(c)[1:]:
                T.SUBCLASSES.setdefault(T.raw('cls', b.qual), set()).add(t)

    def cls_of(self, t):
        return self.classes.get(t.args[0]) if t.op == 'cls' else None

    def method_owners(self, name):
        """Classes of the package that define a method of this name themselves."""
        return [c for c in self.classes.values() if c.module.name.startswith(self.package) and name in c.methods]

    # -------------------------------------------------- annotations
    def ann_types(self, module, node):
        if node is None:
            return frozenset({'?'})
        if isinstance(node, ast.Constant):
            if node.value is None:
                return frozenset({'None'})
            if isinstance(node.value, str):
                try:
                    return self.ann_types(module, ast.parse(node.value, mode='eval').body)
                except SyntaxError:
                    return frozenset({'?'})
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.ann_types(module, node.left) | self.ann_types(module, node.right)
        if isinstance(node, ast.Subscript):
            if isinstance(node.value, ast.Name) and node.value.id in ('Optional',):
                return self.ann_types(module, node.slice) | {'None'}
            if isinstance(node.value, ast.Name) and node.value.id == 'Union' and isinstance(node.slice, ast.Tuple):
                r = frozenset()
                for e in node.slice.elts:
                    r |= self.ann_types(module, e)
                return r
            return self.ann_types(module, node.value)
        if isinstance(node, ast.Name):
            if node.id in ('int', 'float', 'str', 'dict', 'list', 'tuple', 'bool', 'set', 'bytes'):
                return frozenset({node.id})
            r = self.resolve(module, node.id)
            if r and r[0] == 'cls':
                return frozenset({'cls:' + r[1].qual})
            if r and r[0] == 'ext':
                n = r[1].split('.')[-1]
                return frozenset({n})
            return frozenset({'?'})
        if isinstance(node, ast.Attribute):
            if isinstance(node.value, ast.Name):
                r = self.resolve(module, node.value.id)
                if r and r[0] == 'module':
                    r2 = self.attr_of_module(r[1], node.attr)
                    if r2 and r2[0] == 'cls':
                        return frozenset({'cls:' + r2[1].qual})
                if r and r[0] == 'ext' and r[1] in ('logging',):
                    return frozenset({'obj'})
            return frozenset({node.attr})
        return frozenset({'?'})

    def attr_types(self, c, name):
        """Types of instance attribute `name`: class-level annotation, or constructor parameter stored into it."""
        for k in self.mro(c):
            for n in k.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    ty = self.ann_types(k.module, n.annotation)
                    return ty
            init = k.methods.get('__init__')
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        pairs = [(t, n.value)]
                        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple):
                            pairs = list(zip(t.elts, n.value.elts))
                        for tt, vv in pairs:
                            if isinstance(tt, ast.Attribute) and isinstance(tt.value, ast.Name) and \
                                    tt.value.id == 'self' and tt.attr == name:
                                r = self._expr_types(k.module, init, vv)
                                if r is not None:
                                    return r
        for k in self.mro(c):
            ty = DOC_ATTRS.get(k.name, {}).get(name) if k.module.name.startswith(self.package) else None
            if ty is not None:
                return frozenset(ty)
        return frozenset({'?'})

    def _expr_types(self, module, fn, v):
        if isinstance(v, ast.Name):
            a = fn.node.args
            allp = a.posonlyargs + a.args
            defaults = [None] * (len(allp) - len(a.defaults)) + list(a.defaults)
            for p, d in list(zip(allp, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if p.arg == v.id:
                    ty = self.ann_types(module, p.annotation)
                    if isinstance(d, ast.Constant) and d.value is None:
                        ty = ty | {'None'}
                    return ty
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            if v.func.id in ('dict', 'list', 'set'):
                return frozenset({v.func.id})
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return frozenset({'dict'})
        if isinstance(v, (ast.List, ast.ListComp)):
            return frozenset({'list'})
        if isinstance(v, ast.IfExp):
            x, y = self._expr_types(module, fn, v.body), self._expr_types(module, fn, v.orelse)
            return x | y if x and y else None
        return None
