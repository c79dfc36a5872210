"""Scenario construction: symbolic constructor arguments, observation points, evaluation."""
from . import ir, spec
from .arr import Arr, leaf, ShapeError, Unsupported, show_shape
from .interp import Interp, AbsRaise, Ref, ABSENT, ChoiceV
from . import interp as X

ALLMODS = ['geoana.em', 'geoana.em.static', 'geoana.em.fdem', 'geoana.em.tdem', 'geoana.em.tdem.reference',
           'geoana.gravity', 'geoana.kernels', 'geoana.spatial', 'geoana.utils', 'geoana.earthquake.oksar',
           'geoana.plotting_utils']


class World:
    """One abstract evaluation of the repository with its symbol facts."""

    _base = {}

    def __init__(self, repo=None, overlay=None, keep=False):
        """keep=True: stay in the current graph (several worlds compared)."""
        self.I = self.fresh(repo, overlay, keep)
        self.signs = {'mu_0': '+', 'epsilon_0': '+', 'G': '+', 'pi': '+', 'c_light': '+', 'hankel_base': '+'}
        self.units = dict(spec.CONST_UNITS)
        self.kinds = {}
        self.args = {}
        self.extent = {}         # concrete extents of otherwise generic axes

    @classmethod
    def fresh(cls, repo, overlay, keep):
        """An interpreter whose modules are loaded (loading is done once per process)."""
        b = cls._base.get('b')
        if b is None or b[0] != (repo, id(overlay) if overlay else None):
            ir.reset()
            I = Interp(repo, overlay)
            I.load('geoana')
            for m in ALLMODS:
                I.load(m)
            cls._base['b'] = b = ((repo, id(overlay) if overlay else None), ir.mark(), I)
        elif not keep:
            ir.rollback(b[1])
        B = b[2]
        I = Interp(repo, overlay)
        I.heap, I.nid, I.owners, I.mods = dict(B.heap), B.nid, dict(B.owners), dict(B.mods)
        I.assumptions, I.ext_unknown = set(B.assumptions), dict(B.ext_unknown)
        return I

    # ---- leaves
    def scalar(self, name, unit=spec.ONE, sign=None, kind='f', weak=True):
        n = ir.sym(name)
        self.units[name] = unit
        if sign:
            self.signs[name] = sign
        return self.I.arr(Arr((), lambda idx: n, kind, wk=weak), owner=('arg', name))

    def array(self, name, shape, unit=spec.ONE, sign=None, kind='f', owner=True):
        self.units[name] = unit
        if sign:
            self.signs[name] = sign
        a = leaf(name, tuple(self.extent.get(d, d) for d in shape), kind)
        return self.I.arr(a, owner=('arg', name) if owner else None)

    def value(self, name, p, kind='f', variant=None):
        """Abstract argument for parameter p."""
        k = p.kind
        if k == 's':
            return self.scalar(name, p.unit, p.sign, kind)
        if k in ('pos', 'posneg', 'pospos', 'vec', 'dir', 'posmin', 'posmax'):
            if k == 'dir' and variant in ('X', 'Y', 'Z', 'x', 'y', 'z'):
                return variant
            if k == 'posneg':
                self.signs[name, 2] = '-'
            elif k == 'pospos':
                self.signs[name, 2] = '+'
            return self.array(name, (3,), p.unit, kind=kind)
        if k == 'dirh' and variant in ('X', 'Y', 'x', 'y'):
            return variant
        if k in spec.FLATZ:
            a = leaf(name, (3,), kind)
            self.units[name] = p.unit
            return self.I.arr(Arr((3,), lambda idx: a.at(idx) if idx[0] != 2 else ir.const(0), kind), owner=('arg', name))
        if k == 'nodes':
            if variant == 'closed':
                a = leaf(name, (3, 3), kind)
                self.units[name] = p.unit
                return self.I.arr(Arr((4, 3), lambda idx: a.at((idx[0] % 3 if isinstance(idx[0], int) else idx[0], idx[1])), kind), owner=('arg', name))
            return self.array(name, (variant or 3, 3), p.unit, kind=kind)
        if k in ('freq', 'time'):
            if variant == 'array':
                return self.array(name, ('T',), p.unit, p.sign, kind=kind)
            if variant == 'single':
                return self.array(name, (1,), p.unit, p.sign, kind=kind)
            return self.scalar(name, p.unit, p.sign, kind)
        if k == 'freqs':
            return self.array(name, ('T',), p.unit, p.sign, kind=kind)
        if k == 'thick':
            n = variant if isinstance(variant, int) else 2
            return self.array(name, (n,), p.unit, p.sign, kind=kind)
        if k == 'layer':
            if isinstance(variant, tuple):
                form, n = variant
                if form == 'one':          # one value for all layers
                    return self.scalar(name, p.unit, p.sign, kind)
                return self.array(name, (n + 1, 'T'), p.unit, p.sign, kind=kind)       # a value per layer and frequency
            n = variant if isinstance(variant, int) else 2
            return self.array(name, (n + 1,), p.unit, p.sign, kind=kind)
        if k == 'xy':
            return self.points(name, variant if isinstance(variant, tuple) else ('N',), kind, dim=2)
        raise ValueError(k)

    def points(self, name='xyz', batch=('N',), kind='f', dim=3):
        self.units[name] = spec.M
        return self.array(name, tuple(batch) + (dim,), spec.M, kind=kind)

    # ---- objects
    def cls(self, src):
        m = self.I.load(src.mod)
        ns = self.I.heap[m.nsid]
        if src.cls not in ns:
            raise KeyError(f"{src.mod}.{src.cls} not exported")
        return ns[src.cls]

    def fn(self, f):
        m = self.I.load(f.mod)
        ns = self.I.heap[m.nsid]
        if f.name not in ns:
            raise KeyError(f"{f.mod}.{f.name} not exported")
        return ns[f.name]

    def ctor_args(self, src, variant=None, prefix='', skip=(), kind='f'):
        """variant: dict param -> variant."""
        variant = variant or {}
        kw = {}
        for n, p in src.params.items():
            if n in skip:
                continue
            v = self.value(prefix + n, p, kind, variant.get(n, variant.get('*' + p.kind)))
            kw[n] = v
        for n in ('quasistatic',):
            if n in variant:
                kw[n] = variant[n]
        return kw

    def build(self, src, variant=None, prefix='', kw=None, kind='f'):
        kw = kw if kw is not None else self.ctor_args(src, variant, prefix, kind=kind)
        return self.I.call(self.cls(src), [], kw)

    def prop(self, obj, name):
        return self.I.getattr(obj, name)

    def call(self, obj, name, *args, **kw):
        return self.I.call(self.I.getattr(obj, name), list(args), kw)

    def arr(self, v):
        return self.I.to_arr(v)


def obs_points(w, r, batch=('N',), name=None, kind='f'):
    """Observation points for a result spec."""
    if r.arg == 'xy':
        return w.points(name or 'xy', batch, kind, dim=3 if False else 2)
    name = name or 'xyz'
    if r.arg == 'xyzneg':
        w.signs[name, 2] = '-'
    elif r.arg == 'xyzpos':
        w.signs[name, 2] = '+'
    return w.points(name, batch, kind)


def cyl_points(w, batch=('N',), kind='f'):
    """Observation points given as (rho, phi, z)."""
    w.units.update(cyl_rho=spec.M, cyl_phi=spec.ONE, cyl_z=spec.M)
    w.signs['cyl_rho'] = '+'
    names = ('cyl_rho', 'cyl_phi', 'cyl_z')
    return w.I.arr(Arr(tuple(batch) + (3,), lambda idx: ir.sym(names[idx[-1]], idx[:-1]), kind), owner=('arg', 'xyz'))


_SIZES = {}


def sources():
    """Modules of the package (drawing apart)."""
    import os
    root = os.environ.get('GEOSTAT_REPO', '/repo')
    out = []
    for d, _, fs in os.walk(os.path.join(root, 'geoana')):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith('.py') and f != 'plotting_utils.py']
    return tuple(sorted(f for f in out if '/tests/' not in f and 'earthquake' not in f))



def size_constants(files, low=4, high=40):
    """Integers the source compares with, divides by, cuts or steps at: counts worth unrolling to.

    The number of wire nodes and of layers is unrolled; a branch that is only taken beyond some count
    is reached by unrolling past the constant it names."""
    return _size_constants(tuple(files), low, high)


def _size_constants(files, low, high):
    import ast
    import os
    import re
    root = os.environ.get('GEOSTAT_REPO', '/repo')
    key = root, files, low, high
    if key in _SIZES:
        return _SIZES[key]
    out = set()

    def ints(n):
        for q in ast.walk(n):
            if isinstance(q, ast.Constant) and type(q.value) is int and low <= q.value <= high:
                out.add(q.value)
    for f in files:
        p = os.path.join(root, f)
        if not os.path.exists(p):
            continue
        text = open(p, encoding='utf-8').read()
        if f.endswith('.py'):
            named = {}
            for n in ast.walk(ast.parse(text)):
                if isinstance(n, ast.Compare):
                    ints(n)
                    for q in ast.walk(n):
                        if isinstance(q, (ast.Name, ast.Attribute)):
                            named[q.id if isinstance(q, ast.Name) else q.attr] = 1
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                    ints(n.right)
                elif isinstance(n, ast.Slice):
                    for b in (n.lower, n.upper, n.step):
                        if b is not None:
                            ints(b)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'min', 'max', 'islice'):
                    for a in n.args:
                        ints(a)
            for n in ast.walk(ast.parse(text)):      # constants compared through a name
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                    if any((t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')) in named for t in n.targets):
                        ints(n.value)
        else:
            text = re.sub(r'//[^\n]*|/\*.*?\*/|#[^\n]*', '', text, flags=re.S)
            for q in re.finditer(r'(?:[<>]=?|[!=]=|%|\bmin\(|\bmax\(|\brange\()\s*(\d+)(?![\w.])', text):
                if low <= int(q.group(1)) <= high:
                    out.add(int(q.group(1)))
    _SIZES[key] = sorted(out)
    return _SIZES[key]


WIRE = ('geoana/em/static/wholespace.py', 'geoana/em/base.py')
LAYERS = ('geoana/em/fdem/layered.py', 'geoana/kernels/tranverse_electric_reflections.py', 'geoana/kernels/_extensions/rTE.pyx',
          'geoana/kernels/_extensions/_rTE.cpp')


def more_nodes():
    return sorted({k + d for k in size_constants(WIRE) for d in (0, 1, 2)} - {4})


def more_layers():
    """Further numbers of layers."""
    return sorted({k + d for k in size_constants(LAYERS) for d in (0, 1)} - {4})


def variants(src, deep=False):
    """Constructor variants explored."""
    base = [{}]
    ks = {p.kind for p in src.params.values()}
    if 'freq' in ks or 'time' in ks:
        base = [dict(b, **{'*freq': a, '*time': a}) for b in base for a in (None, 'array')]
    if 'epsilon' in src.params and 'freq' in ks or 'thick' in ks:
        base = [dict(b, quasistatic=q) for b in base for q in (False, True)]
    if 'nodes' in ks:
        base = [dict(b, **{'*nodes': n}) for b in base for n in ((None, 1, 2, 4, 'closed', *more_nodes()) if deep else (None, 1, 'closed'))]
    if 'thick' in ks:
        base = [dict(b, **{'*thick': n, '*layer': f}) for b in base for n, f in
                (((0, 0), (1, 1), (2, 2), (1, ('one', 1)), (1, ('each', 1)), (0, ('each', 0)), *((n - 1, n - 1) for n in more_layers())) if deep else ((1, 1),))]
    if deep and 'dirh' in ks:
        base = [dict(b, **{'*dirh': d}) for b in base for d in (None, 'X', 'Y')]
    if deep and 'dir' in ks:
        base = [dict(b, **{'*dir': d}) for b in base for d in (None, 'X', 'Y', 'Z')]
    return base


def optsets(r):
    out = [{}]
    for k, vs in r.opts.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def freq_dims(src, variant):
    for n, p in src.params.items():
        if p.kind in ('freq', 'time') and variant.get('*' + p.kind) == 'array':
            return ('T',)
        if p.kind in ('freq', 'time') and variant.get('*' + p.kind) == 'single':
            return (1,)
        if p.kind == 'freqs':
            return ('T',)
    return ()


class Case:
    """One interpreted public call: its value graph and the facts about its inputs."""

    def __init__(self, src, variant, method, opts, batch=('N',), kind='f', world=None, obj=None, whole=True):
        self.src, self.variant, self.method, self.opts, self.batch = src, variant, method, opts, batch
        self.w = w = world or World()
        self.r = r = src.methods[method]
        self.obj = obj if obj is not None else w.build(src, variant, kind=kind)
        if opts.get('coordinates') == 'cylindrical':
            self.x = cyl_points(w, batch, kind)
        else:
            self.x = obs_points(w, r, batch, kind=kind)
        v = w.call(self.obj, method, self.x, **opts)
        self.value = v
        vs = v if isinstance(v, tuple) else (v,)
        self.outs = []
        self.arrs = []
        for j, q in enumerate(vs):
            a = w.arr(q)
            self.arrs.append(a)
            if whole:
                for idx, n in a.generic().items():
                    self.outs.append((j, idx, n))

    @property
    def nodes(self):
        return [n for _, _, n in self.outs]

    @property
    def guards(self):
        return [(c, p) for c, p, _, _ in self.w.I.guards]

    def name(self):
        o = ','.join(f"{k}={v}" for k, v in self.opts.items())
        v = ','.join(f"{k.strip('*')}={v}" for k, v in self.variant.items() if v is not None)
        return f"{self.src.id}.{self.method}({o})" + (f" [{v}]" if v else '')


def all_cases(deep=False, only=None, **kw):
    """(label, thunk) for every public source method, option set and constructor variant."""
    for s in spec.SOURCES:
        if only and not only(s):
            continue
        for var in variants(s, deep):
            for m, r in s.methods.items():
                for o in optsets(r):
                    yield s, var, m, o


class FnCase:
    """One interpreted call of a public module-level function."""

    def __init__(self, f, variant, flags, world=None, kind='f', whole=True):
        self.src, self.variant, self.opts = f, variant, flags
        self.w = w = world or World()
        kw = {}
        for n, p in f.params.items():
            kw[n] = w.value(n, p, kind, variant.get('*' + p.kind))
        kw.update(flags)
        self.kw = kw
        self.value = v = w.I.call(w.fn(f), [], kw)
        a = w.arr(v)
        self.arrs = [a]
        self.outs = [(0, idx, n) for idx, n in a.generic().items()] if whole else []

    nodes = Case.nodes
    guards = Case.guards

    def name(self):
        o = ','.join(f"{k}={v}" for k, v in self.opts.items())
        v = ','.join(f"{k.strip('*')}={v}" for k, v in self.variant.items() if v is not None)
        return f"{self.src.id}({o})" + (f" [{v}]" if v else '')


def fn_cases(deep=False):
    for f in spec.FUNCTIONS:
        ks = {p.kind for p in f.params.values()}
        vs = [{}]
        if 'time' in ks or 'freq' in ks:
            vs = [{'*time': a, '*freq': a} for a in (None, 'array')]
        fl = [{}]
        for k, opts in f.flags.items():
            fl = [dict(x, **{k: o}) for x in fl for o in opts]
        for v in vs:
            for x in fl:
                yield f, v, x
