"""Abstract interpreter: Python AST -> gated-SSA value graph.

No code of the analysed repository is executed; the interpreter walks its
syntax trees, resolves names/classes/properties/calls inside the repository,
and models numpy/scipy operations symbolically (npmodel.py).  Branches on
undecided conditions are joined with gates; raising branches are dropped and
logged as guards.
"""
import ast
import builtins
import os
from fractions import Fraction

from . import ir
from .arr import (Arr, single, DimV, Sl, ShapeError, Unsupported, scalar, leaf, filled, ew, getitem, setitem,
                  reshape, transpose, squeeze, stack, gate_arr, broadcast_to, broadcast_shapes, promote, ORD,
                  dimval, undim, dim_add, is_basic, show_shape, matmul, reduce_, mask_key)
from .ir import GQ

REPO = os.environ.get("GEOSTAT_REPO", "/repo")


class AbsRaise(Exception):
    def __init__(self, exc, msg='', loc=None):
        super().__init__(f"{exc}: {msg}")
        self.exc, self.msg, self.loc = exc, msg, loc


# ------------------------------------------------------------------ values
class Ref:
    """Reference to a mutable heap cell; `path` is the list of view steps."""
    __slots__ = ("kind", "id", "path")

    def __init__(self, kind, id, path=()):
        self.kind, self.id, self.path = kind, id, path

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.kind, self.id, self.path) == (o.kind, o.id, o.path)

    def __hash__(self):
        return hash((self.kind, self.id, self.path))

    def __repr__(self):
        return f"<{self.kind}#{self.id}{'/view' if self.path else ''}>"


class FuncV:
    def __init__(self, node, mod, env, defaults, kwdefaults, name, cls=None):
        self.node, self.mod, self.env = node, mod, env
        self.defaults, self.kwdefaults, self.name, self.cls = defaults, kwdefaults, name, cls

    def __repr__(self):
        return f"<func {self.mod.name}.{self.name}>"


class MemoV:
    def __init__(self, func, id):
        self.func, self.id = func, id


class ClassV:
    def __init__(self, name, mod, bases, nsid):
        self.name, self.mod, self.bases, self.nsid = name, mod, bases, nsid
        self.mro = None

    def __repr__(self):
        return f"<class {self.mod.name}.{self.name}>"


class ModV:
    def __init__(self, name, path, nsid):
        self.name, self.path, self.nsid = name, path, nsid

    def __repr__(self):
        return f"<module {self.name}>"


class PropV:
    def __init__(self, fget, fset=None, cached=False, name=None):
        self.fget, self.fset, self.cached, self.name = fget, fset, cached, name


class StaticV:
    def __init__(self, f, cls=False):
        self.f, self.cls = f, cls


class BoundV:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExtV:
    """External (non-repository) dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<ext {self.name}>"


class ExtMeth:
    """Method of a modelled external object."""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class RotV:
    """scipy Rotation modelled by its 3x3 matrix of value-graph nodes."""
    def __init__(self, mat):
        self.mat = mat


class ChoiceV:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class OpaqueV:
    """External value without a model: carries what it was computed from."""
    __slots__ = ("name", "deps")

    def __init__(self, name, deps=()):
        self.name, self.deps = name, deps

    def __eq__(self, o):
        return isinstance(o, OpaqueV) and (o.name, o.deps) == (self.name, self.deps)

    def __hash__(self):
        return hash((self.name, self.deps))

    def __repr__(self):
        return f"<opaque {self.name}>"


class RecV(OpaqueV):
    """An object of a drawing library: the calls made on it are recorded."""

    def __init__(self, path, log):
        super().__init__('.'.join(map(str, path)))
        self.path, self.log = path, log

    def child(self, name):
        return RecV(self.path + (name,), self.log)

    def called(self, I, args, kwargs):
        r = RecV(self.path + (f"()#{len(self.log)}",), self.log)
        self.log.append(Draw(self.path, args, kwargs, r, ir.G.loc))
        return r


class MaskV(OpaqueV):
    """A masked array."""

    def __init__(self, data, mask):
        super().__init__('masked')
        self.data, self.mask = data, mask


class Draw:
    def __init__(self, path, args, kwargs, result, loc):
        self.path, self.args, self.kwargs, self.result, self.loc = path, args, kwargs, result, loc

    def __repr__(self):
        return f"{'.'.join(map(str, self.path))}({len(self.args)} args, {sorted(self.kwargs)})"


class NzV:
    """One index array of numpy.nonzero(mask)."""
    __slots__ = ('mask', 'k')

    def __init__(self, mask, k):
        self.mask, self.k = mask, k


class StrV:
    """String of unknown content."""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, StrV) and o.name == self.name

    def __hash__(self):
        return hash(('strv', self.name))


class ABSENT_:
    def __repr__(self):
        return "ABSENT"


ABSENT = ABSENT_()


# ------------------------------------------------------------------ outcomes
class O:
    __slots__ = ("k", "heap", "val", "c", "o1", "o2")

    def __init__(self, k, heap=None, val=None, c=None, o1=None, o2=None):
        self.k, self.heap, self.val, self.c, self.o1, self.o2 = k, heap, val, c, o1, o2


def is_num(v):
    return isinstance(v, (int, Fraction, GQ)) and not isinstance(v, bool)


EXT_NUMERIC_CONST = {
    'numpy.pi': 'pi', 'math.pi': 'pi', 'scipy.constants.pi': 'pi',
    'scipy.constants.mu_0': 'mu_0', 'scipy.constants.epsilon_0': 'epsilon_0',
    'scipy.constants.G': 'G', 'scipy.constants.gravitational_constant': 'G',
    'scipy.constants.c': 'c_light', 'scipy.constants.speed_of_light': 'c_light',
}


class Interp:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.heap = {}
        self.nid = 0
        self.owners = {}            # cell id -> owner tag
        self.mods = {}
        self.events = []
        self.guards = []
        self.assume = {}
        self.frames = []            # stack of (func name, file)
        self.file = None
        self.depth = 0
        self.steps = 0
        self.max_steps = 4_000_000
        self.visited = set()        # (module, func) analysed
        self.assumptions = set()
        self.ext_unknown = {}
        self.stubs = {}
        from . import npmodel
        self.np = npmodel
        self.overlay = overlay or {}
        self.compiled = {'_extensions', 'potential_field_prism'}     # extension modules taken as built

    # -------------------------------------------------------------- heap
    def new(self, kind, content):
        self.nid += 1
        self.heap[self.nid] = content
        return Ref(kind, self.nid)

    def arr(self, a, owner=None):
        r = self.new('arr', a)
        if owner is not None:
            self.owners[r.id] = owner
        return r

    def rd(self, ref):
        """Current Arr behind an array reference."""
        a = self.heap[ref.id]
        for st in ref.path:
            a = self.view_step(a, st)
        return a

    @staticmethod
    def view_step(a, st):
        if st[0] == 'ix':
            return getitem(a, st[1])
        if st[0] == 'reshape':
            return reshape(a, st[1], st[2])
        if st[0] == 'T':
            return transpose(a, st[1])
        if st[0] == 'squeeze':
            return squeeze(a, st[1])
        if st[0] == 'real':
            return ew(lambda x: ir.fn(st[0], x), a, kind='f') if a.kind == 'c' else a
        if st[0] == 'imag':
            return ew(lambda x: ir.fn(st[0], x), a, kind='f')
        raise Unsupported(f"view {st[0]}")

    def wr(self, ref, new):
        """Replace the content seen through ref by Arr new (in place)."""
        def rec(a, path):
            if not path:
                return Arr(a.shape, new.fn, a.kind) if new.kind != a.kind else new
            st = path[0]
            sub = rec(self.view_step(a, st), path[1:])
            if st[0] == 'ix':
                return setitem(a, st[1], sub)
            if st[0] == 'reshape':
                return reshape(sub, a.shape, st[2])
            if st[0] == 'T':
                inv = None
                if st[1] is not None:
                    inv = [0] * len(st[1])
                    for p, k in enumerate(st[1]):
                        inv[k] = p
                return transpose(sub, inv)
            if st[0] == 'squeeze':
                return reshape(sub, a.shape)
            raise Unsupported(f"store through {st[0]} view")
        self.event('write', ref.id)
        lo = self.heap[ref.id].lo
        r = rec(self.heap[ref.id], list(ref.path))
        self.heap[ref.id] = single(r) if lo else r

    def event(self, kind, *a):
        self.events.append((kind,) + a + (ir.G.loc,))

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        try:
            if type(a) is type(b) and not isinstance(a, (Fraction, GQ)) and a == b:
                return a
        except Exception:
            pass
        if is_num(a) and is_num(b) and type(a) is type(b) and a == b:
            return a
        if a is ABSENT:
            return b
        if b is ABSENT:
            return a
        na, nb = self.numlike(a), self.numlike(b)
        if na and nb:
            A, B = self.to_arr(a), self.to_arr(b)
            if A.shape == B.shape or A.shape == () or B.shape == ():
                try:
                    return self.arr(gate_arr(c, A, B))
                except ShapeError:
                    pass
        if isinstance(a, bool) and isinstance(b, bool):
            return self.arr(Arr((), lambda idx: ir.gate(c, ir.const(a), ir.const(b)), 'b', wk=True))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, RotV) and isinstance(b, RotV):
            return RotV(gate_arr(c, a.mat, b.mat))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'list' and a.id != b.id:
            la, lb = self.heap.get(a.id), self.heap.get(b.id)
            if la is not None and lb is not None and len(la) == len(lb):
                return self.new('list', tuple(self.merge_val(c, x, y) for x, y in zip(la, lb)))
        return ChoiceV(c, a, b)

    def numlike(self, v):
        return is_num(v) or isinstance(v, bool) or isinstance(v, DimV) or (isinstance(v, Ref) and v.kind == 'arr')

    def merge_heap(self, c, h1, h2):
        out = dict(h2)
        for k, v in h1.items():
            w = out.get(k, ABSENT)
            if w is v:
                continue
            if w is ABSENT:
                out[k] = v
        # content merge needs both heaps readable: use the union while merging
        self.heap = out
        for k, v in h1.items():
            w = h2.get(k, ABSENT)
            if w is v or w is ABSENT:
                continue
            if isinstance(v, Arr) and isinstance(w, Arr):
                if v.shape != w.shape:
                    raise Unsupported("array shape differs between branches")
                out[k] = gate_arr(c, v, w)
            elif isinstance(v, dict) and isinstance(w, dict):
                m = {}
                for key in list(v) + [x for x in w if x not in v]:
                    m[key] = self.merge_val(c, v.get(key, ABSENT), w.get(key, ABSENT))
                out[k] = m
            elif isinstance(v, tuple) and isinstance(w, tuple):
                if len(v) == len(w):
                    out[k] = tuple(self.merge_val(c, x, y) for x, y in zip(v, w))
                else:
                    raise Unsupported("list length differs between branches")
            else:
                raise Unsupported("heap merge")
        self.heap = out
        return out

    def mix(self, c, o1, o2):
        if o1.k == 'raise' and o2.k == 'raise':
            return o1
        if o1.k == 'raise':
            self.guards.append((c, True, o1.val, ir.G.loc))
            self.assume[c] = False
            return o2
        if o2.k == 'raise':
            self.guards.append((c, False, o2.val, ir.G.loc))
            self.assume[c] = True
            return o1
        if o1.k == o2.k and o1.k in ('fall', 'brk', 'cont'):
            return O(o1.k, self.merge_heap(c, o1.heap, o2.heap))
        if o1.k == o2.k == 'ret':
            h = self.merge_heap(c, o1.heap, o2.heap)
            self.heap = h
            v = self.merge_val(c, o1.val, o2.val)
            return O('ret', self.heap, v)
        return O('mix', c=c, o1=o1, o2=o2)

    def run(self, f):
        """Run f() catching an abstract raise as an outcome."""
        try:
            return f()
        except AbsRaise as e:
            return O('raise', self.heap, e)
        except ShapeError as e:
            return O('raise', self.heap, AbsRaise('ValueError', str(e), ir.G.loc))

    def branch(self, c, f1, f2):
        """Run two alternatives under condition node c and join them."""
        h0, a0 = self.heap, self.assume
        self.heap, self.assume = dict(h0), dict(a0)
        self.assume[c] = True
        o1 = self.run(f1)
        self.heap, self.assume = dict(h0), dict(a0)
        self.assume[c] = False
        o2 = self.run(f2)
        self.assume = dict(a0)
        o = self.mix(c, o1, o2)
        if o.k != 'mix':
            self.heap = o.heap
        return o

    def cont(self, o, k):
        if o.k == 'fall':
            self.heap = o.heap
            return self.run(k)
        if o.k == 'mix':
            a0 = self.assume
            self.assume = dict(a0)
            self.assume[o.c] = True
            o1 = self.cont(o.o1, k)
            self.assume = dict(a0)
            self.assume[o.c] = False
            o2 = self.cont(o.o2, k)
            self.assume = dict(a0)
            return self.mix(o.c, o1, o2)
        return o

    def lift(self, v, f):
        """Apply f to a possibly-gated value, joining results and heaps."""
        if not isinstance(v, ChoiceV):
            return f(v)
        t = self.assume.get(v.c)
        if t is True:
            return self.lift(v.a, f)
        if t is False:
            return self.lift(v.b, f)
        o = self.branch(v.c, lambda: O('ret', None, self.lift(v.a, f)) if False else self._ret(lambda: self.lift(v.a, f)),
                        lambda: self._ret(lambda: self.lift(v.b, f)))
        if o.k == 'raise':
            self.heap = o.heap
            raise o.val
        self.heap = o.heap
        return o.val

    def _ret(self, f):
        v = f()
        return O('ret', self.heap, v)

    # -------------------------------------------------------------- conversions
    def to_arr(self, v):
        if isinstance(v, bool):
            return scalar(v)
        if is_num(v):
            return scalar(v)
        if isinstance(v, DimV):
            n = ir.sym('dim:' + str(v.d))
            return Arr((), lambda idx: n, 'i', wk=True)
        if isinstance(v, Arr):
            return v
        if isinstance(v, Ref):
            if v.kind == 'arr':
                return self.rd(v)
            if v.kind == 'list':
                return self.seq_arr(self.heap[v.id])
            if v.kind == 'obj':
                cls = self.heap[v.id]['__class__']
                m = self.class_lookup(cls, '__array__')
                if m is not ABSENT:
                    return self.to_arr(self.call(BoundV(v, m), [], {}))
        if isinstance(v, tuple):
            return self.seq_arr(v)
        if isinstance(v, ChoiceV):
            A, B = self.to_arr(v.a), self.to_arr(v.b)
            return gate_arr(v.c, A, B)
        if v is None or isinstance(v, str):
            raise AbsRaise('TypeError', f"not numeric: {v!r}", ir.G.loc)
        if isinstance(v, ExtV) and v.name in EXT_NUMERIC_CONST:
            n = ir.sym(EXT_NUMERIC_CONST[v.name])
            return Arr((), lambda idx: n, 'f', wk=True)
        if isinstance(v, MaskV):
            return self.to_arr(v.data)
        if isinstance(v, (OpaqueV, StrV)):
            n = ir.unk('opaque:' + v.name, *[d for d in getattr(v, 'deps', ()) if isinstance(d, int)])
            raise Unsupported(f"opaque value {v.name} used as array")
        raise Unsupported(f"value {v!r} as array")

    def seq_arr(self, items):
        if not items:
            return Arr((0,), lambda idx: ir.const(0), 'f')
        arrs = [self.to_arr(x) for x in items]
        sh = broadcast_shapes(*[a.shape for a in arrs]) if len({a.shape for a in arrs}) > 1 else arrs[0].shape
        if len({a.shape for a in arrs}) > 1:
            raise AbsRaise('ValueError', 'inhomogeneous shape', ir.G.loc)
        return stack(arrs, 0)

    def truth(self, v):
        """True/False or a bool node."""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_num(v):
            return not (v == 0)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, DimV):
            return True
        if isinstance(v, Ref):
            if v.kind == 'arr':
                a = self.rd(v)
                n = a.ndim
                if any(d != 1 for d in a.shape):
                    if 0 in a.shape:
                        return False
                    raise AbsRaise('ValueError', 'truth value of an array is ambiguous', ir.G.loc)
                e = a.at((0,) * n)
                if a.kind != 'b':
                    e = ir.cmp('!=', e, ir.const(0))
                return self.truth_node(e)
            if v.kind in ('list',):
                return bool(self.heap[v.id])
            if v.kind == 'dict':
                return bool(self.heap[v.id])
            return True
        if isinstance(v, ChoiceV):
            ta, tb = self.truth(v.a), self.truth(v.b)
            na = ir.const(ta) if isinstance(ta, bool) else ta
            nb = ir.const(tb) if isinstance(tb, bool) else tb
            return self.truth_node(ir.gate(v.c, na, nb))
        if isinstance(v, OpaqueV):
            return self.truth_node(ir.unk('truth:' + v.name, *[d for d in v.deps if isinstance(d, int)]))
        if isinstance(v, StrV):
            return self.truth_node(ir.unk('truth:' + v.name))
        return True

    def truth_node(self, n):
        b = ir.bval(n)
        if b is not None:
            return b
        t = self.assume.get(n)
        if t is not None:
            return t
        k = ir.node(n)
        if k[0] == 'not':
            t = self.assume.get(k[1])
            if t is not None:
                return not t
        nn = ir.not_(n)
        t = self.assume.get(nn)
        if t is not None:
            return not t
        if k[0] == 'and':
            ts = [self.truth_node(x) for x in k[1:]]
            if False in ts:
                return False
            if all(t is True for t in ts):
                return True
        if k[0] == 'or':
            ts = [self.truth_node(x) for x in k[1:]]
            if True in ts:
                return True
            if all(t is False for t in ts):
                return False
        return n

    # -------------------------------------------------------------- modules
    def mod_path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        for e in ('.py', '.pyx'):
            if os.path.exists(p + e):
                return p + e
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.overlay:
            path, tree = self.overlay[name]
        else:
            path = self.mod_path(name)
            if path is None:
                raise AbsRaise('ModuleNotFoundError', name)
            if '._extensions' in name and name.split('.')[-1] not in self.compiled:
                raise AbsRaise('ImportError', name)
            if path.endswith('.pyx'):
                from . import cyth
                try:
                    tree = cyth.load(path)
                except (Unsupported, ImportError) as e:
                    self.compiled = self.compiled - {name.split('.')[-1]}
                    raise AbsRaise('ImportError', f"{name}: {e}")
            else:
                tree = ast.parse(open(path, encoding='utf-8').read(), path)
        if '.' in name:
            parent, last = name.rsplit('.', 1)
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        nsid = self.new('ns', {'__name__': name}).id
        m = ModV(name, path, nsid)
        self.mods[name] = m
        saved = (self.file, ir.G.loc, self.frames, self.assume)
        self.file = os.path.relpath(path, self.repo)
        self.frames = [('<module>', self.file)]
        self.assume = {}
        try:
            ctx = Ctx(m, nsid, None, '<module>')
            o = self.exec_block(tree.body, ctx)
            if o.k == 'raise':
                raise o.val
        except AbsRaise:
            self.mods.pop(name, None)
            raise
        finally:
            self.file, ir.G.loc, self.frames, self.assume = saved
        if '.' in name:
            ns = dict(self.heap[pm.nsid])
            ns.setdefault(last, m)
            self.heap[pm.nsid] = ns
        return m

    def import_name(self, modname, attr):
        """from modname import attr"""
        if modname.split('.')[0] == 'geoana' or modname in self.overlay:
            m = self.load(modname)
            ns = self.heap[m.nsid]
            if attr in ns:
                return ns[attr]
            sub = modname + '.' + attr
            if self.mod_path(sub) or sub in self.overlay:
                return self.load(sub)
            raise AbsRaise('ImportError', f"{attr} from {modname}", ir.G.loc)
        return self.ext(modname + '.' + attr)

    def ext(self, name):
        if name.split('.')[0] == 'numba':       # optional and not installed
            raise AbsRaise('ImportError', name, ir.G.loc)
        return self.np.resolve(self, name)

    # -------------------------------------------------------------- classes
    def class_ns(self, c):
        return self.heap[c.nsid]

    def compute_mro(self, c):
        seqs = [list(b.mro) for b in c.bases if isinstance(b, ClassV)] + [[b for b in c.bases if isinstance(b, ClassV)]]
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("MRO")
            out.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def class_lookup(self, c, name, after=None):
        mro = c.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            ns = self.class_ns(k)
            if name in ns:
                return ns[name]
        return ABSENT

    def instantiate(self, cls, args, kwargs):
        obj = self.new('obj', {'__class__': cls})
        nw = self.class_lookup(cls, '__new__')
        init = self.class_lookup(cls, '__init__')
        if init is ABSENT:
            if args or kwargs:
                if self.is_exc(cls):
                    return obj
                raise AbsRaise('TypeError', f"{cls.name}() takes no arguments", ir.G.loc)
        else:
            self.call(BoundV(obj, init), args, kwargs)
        return obj

    def is_exc(self, cls):
        return any(isinstance(b, ExtV) for k in cls.mro for b in k.bases)

    # -------------------------------------------------------------- attributes
    def getattr(self, v, name):
        if isinstance(v, ChoiceV):
            return self.lift(v, lambda x: self.getattr(x, name))
        if isinstance(v, Ref):
            if v.kind == 'obj':
                return self.obj_getattr(v, name)
            if v.kind == 'arr':
                return self.np.arr_attr(self, v, name)
            return ExtMeth(v, name)
        if isinstance(v, ModV):
            ns = self.heap[v.nsid]
            if name in ns:
                return ns[name]
            sub = v.name + '.' + name
            if sub in self.mods:
                return self.mods[sub]
            if self.mod_path(sub):
                return self.load(sub)
            raise AbsRaise('AttributeError', f"{v.name}.{name}", ir.G.loc)
        if isinstance(v, ClassV):
            if name == '__name__':
                return v.name
            if name == '__mro__':
                return tuple(v.mro)
            a = self.class_lookup(v, name)
            if a is ABSENT:
                if name in ('__init__', '__setattr__', '__new__', '__getattribute__'):
                    return ExtV('builtins.object.' + name)
                raise AbsRaise('AttributeError', f"{v.name}.{name}", ir.G.loc)
            if isinstance(a, StaticV):
                return BoundV(v, a.f) if a.cls else a.f
            return a
        if isinstance(v, SuperV):
            cls = self.heap[v.obj.id]['__class__'] if isinstance(v.obj, Ref) else v.obj
            a = self.class_lookup(cls, name, after=v.cls)
            if a is ABSENT:
                if name == '__init__':
                    return ExtV('builtins.object.__init__')
                if name == '__setattr__':
                    return BoundV(v.obj, ExtV('builtins.object.__setattr__'))
                if name == '__getattribute__':
                    return BoundV(v.obj, ExtV('builtins.object.__getattribute__'))
                raise AbsRaise('AttributeError', f"super().{name}", ir.G.loc)
            return self.bind_attr(v.obj, cls, a, name)
        if isinstance(v, ExtV):
            return self.ext(v.name + '.' + name)
        if isinstance(v, PropV):
            if name == 'setter':
                return ('propset', v)
            if name == 'getter':
                return ('propget', v)
            if name == 'fget':
                return v.fget
            if name == 'fset':
                return v.fset
            if name == 'deleter':
                return ('propdel', v)
        if isinstance(v, FuncV):
            if name == '__name__':
                return v.name
            if name == '__doc__':
                return StrV('doc')
            return OpaqueV('func.' + name)
        if isinstance(v, MemoV):
            return ExtMeth(v, name)
        if isinstance(v, BoundV) and name == '__func__':
            return v.func
        if isinstance(v, BoundV) and name == '__self__':
            return v.self_
        if isinstance(v, (str, StrV, tuple, RotV, OpaqueV, int, Fraction, GQ, DimV)) or v is None:
            if v is None:
                raise AbsRaise('AttributeError', f"None.{name}", ir.G.loc)
            if is_num(v) or isinstance(v, DimV):
                return self.np.num_attr(self, v, name)
            if isinstance(v, RecV):
                return v.child(name)
            if isinstance(v, OpaqueV):
                return self.np.opaque_attr(self, v, name)
            return ExtMeth(v, name)
        if isinstance(v, Sl):
            return {'start': v.a, 'stop': v.b, 'step': v.s}[name]
        raise Unsupported(f"attribute {name} of {v!r}")

    def bind_attr(self, obj, cls, a, name):
        if isinstance(a, PropV):
            if a.cached:
                d = self.heap[obj.id]
                if name in d:
                    return d[name]
                val = self.call(a.fget, [obj], {})
                d = dict(self.heap[obj.id])
                d[name] = val
                self.heap[obj.id] = d
                self.event('setattr', obj.id, name)
                return val
            return self.call(a.fget, [obj], {})
        if isinstance(a, StaticV):
            return BoundV(cls, a.f) if a.cls else a.f
        if isinstance(a, (FuncV, MemoV)):
            return BoundV(obj, a)
        if isinstance(a, Ref) and a.kind == 'obj':
            dcls = self.heap[a.id]['__class__']
            g = self.class_lookup(dcls, '__get__')
            if g is not ABSENT:
                return self.call(BoundV(a, g), [obj, cls], {})
        return a

    def obj_getattr(self, obj, name):
        d = self.heap[obj.id]
        cls = d['__class__']
        if name == '__class__':
            return cls
        a = self.class_lookup(cls, name)
        if isinstance(a, PropV) and not a.cached:
            return self.bind_attr(obj, cls, a, name)
        if isinstance(a, Ref) and a.kind == 'obj' and \
                self.class_lookup(self.heap[a.id]['__class__'], '__set__') is not ABSENT:
            return self.bind_attr(obj, cls, a, name)
        if name in d:
            v = d[name]
            return v
        if name == '__dict__':
            return ExtMeth(obj, '__dict__')
        if a is not ABSENT:
            return self.bind_attr(obj, cls, a, name)
        g = self.class_lookup(cls, '__getattr__')
        if g is not ABSENT:
            return self.call(BoundV(obj, g), [name], {})
        raise AbsRaise('AttributeError', f"{cls.name} has no attribute {name}", ir.G.loc)

    def setattr(self, v, name, val, raw=False):
        if isinstance(v, ChoiceV):
            return self.lift(v, lambda x: self.setattr(x, name, val))
        if isinstance(v, Ref) and v.kind == 'obj':
            cls = self.heap[v.id]['__class__']
            if not raw:
                s = self.class_lookup(cls, '__setattr__')
                if s is not ABSENT:
                    return self.call(BoundV(v, s), [name, val], {})
            a = self.class_lookup(cls, name)
            if isinstance(a, PropV) and not a.cached:
                if a.fset is None:
                    raise AbsRaise('AttributeError', f"can't set {name}", ir.G.loc)
                self.call(a.fset, [v, val], {})
                return
            if isinstance(a, Ref) and a.kind == 'obj':
                st = self.class_lookup(self.heap[a.id]['__class__'], '__set__')
                if st is not ABSENT:
                    return self.call(BoundV(a, st), [v, val], {})
            d = dict(self.heap[v.id])
            d[name] = val
            self.heap[v.id] = d
            self.event('setattr', v.id, name)
            return
        if isinstance(v, ModV):
            d = dict(self.heap[v.nsid])
            d[name] = val
            self.heap[v.nsid] = d
            self.event('setglobal', v.name, name)
            return
        if isinstance(v, ClassV):
            d = dict(self.heap[v.nsid])
            d[name] = val
            self.heap[v.nsid] = d
            self.event('setglobal', v.name, name)
            return
        if isinstance(v, Ref) and v.kind == 'arr':
            if name == 'shape':
                a = self.rd(v)
                sh = tuple(undim(x) for x in self.iterate(val)) if not is_num(val) else (val,)
                if v.path:
                    raise Unsupported("shape assignment on a view")
                self.event('write', v.id)
                self.heap[v.id] = reshape(a, sh)
                return
        if isinstance(v, (ExtV, OpaqueV, FuncV, ExtMeth)):
            return
        raise Unsupported(f"set attribute {name} on {v!r}")

    # -------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if isinstance(f, ChoiceV):
            return self.lift(f, lambda x: self.call(x, args, kwargs))
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, MemoV):
            return self.call_memo(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kwargs)
        if isinstance(f, ExtV):
            return self.np.call_ext(self, f.name, list(args), dict(kwargs))
        if isinstance(f, ExtMeth):
            return self.np.call_meth(self, f.obj, f.name, list(args), dict(kwargs))
        if isinstance(f, tuple) and f and f[0] == 'propset':
            return PropV(f[1].fget, args[0], f[1].cached, f[1].name)
        if isinstance(f, tuple) and f and f[0] == 'propget':
            return PropV(args[0], f[1].fset)
        if isinstance(f, tuple) and f and f[0] == 'propdel':
            return f[1]
        if isinstance(f, tuple) and f and f[0] == 'partial':
            kw = dict(f[3])
            kw.update(kwargs)
            return self.call(f[1], list(f[2]) + list(args), kw)
        if isinstance(f, Ref) and f.kind == 'obj':
            m = self.class_lookup(self.heap[f.id]['__class__'], '__call__')
            if m is not ABSENT:
                return self.call(BoundV(f, m), args, kwargs)
        if isinstance(f, RecV):
            return f.called(self, list(args), dict(kwargs))
        if isinstance(f, OpaqueV):
            return self.np.call_opaque(self, f, args, kwargs)
        if callable(f):
            return f(self, args, kwargs)
        raise AbsRaise('TypeError', f"{f!r} is not callable", ir.G.loc)

    def hkey(self, v):
        """Hashable identity of a value (for dict keys and memo tables)."""
        if isinstance(v, Ref):
            if v.kind == 'arr':
                a = self.rd(v)
                if a.ndim == 0:
                    n = a.at(())
                    c = ir.cval(n)
                    if c is not None:
                        return c
                    return ('n', n)
                raise AbsRaise('TypeError', 'unhashable type: numpy.ndarray', ir.G.loc)
            if v.kind in ('list', 'dict'):
                raise AbsRaise('TypeError', 'unhashable type', ir.G.loc)
            return ('ref', v.kind, v.id)
        if isinstance(v, tuple):
            return tuple(self.hkey(x) for x in v)
        if isinstance(v, ChoiceV):
            return ('choice', v.c, self.hkey(v.a), self.hkey(v.b))
        return v

    def call_memo(self, f, args, kwargs):
        key = (tuple(self.hkey(a) for a in args), tuple(sorted((k, self.hkey(v)) for k, v in kwargs.items())))
        table = self.heap[f.id]
        if key in table:
            return table[key]
        v = self.call(f.func, args, kwargs)
        t = dict(self.heap[f.id])
        t[key] = v
        self.heap[f.id] = t
        self.event('memo', f.id)
        return v

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        npos = len(params)
        for p, v in zip(params, args):
            env[p] = v
        extra = args[npos:]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise AbsRaise('TypeError', f"{f.name}() takes {npos} positional arguments", ir.G.loc)
        for p in params[len(args):]:
            if p in kwargs:
                env[p] = kwargs.pop(p)
        for p in params[:len(args)]:
            if p in kwargs:
                raise AbsRaise('TypeError', f"{f.name}() got multiple values for {p}", ir.G.loc)
        nd = len(f.defaults)
        for k, p in enumerate(params):
            if p not in env:
                j = k - (npos - nd)
                if j >= 0:
                    env[p] = f.defaults[j]
                else:
                    raise AbsRaise('TypeError', f"{f.name}() missing argument {p}", ir.G.loc)
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                raise AbsRaise('TypeError', f"{f.name}() missing keyword argument {p.arg}", ir.G.loc)
        if a.kwarg:
            env[a.kwarg.arg] = self.new('dict', dict(kwargs))
        elif kwargs:
            raise AbsRaise('TypeError', f"{f.name}() got an unexpected keyword argument {sorted(kwargs)[0]}", ir.G.loc)
        return env, params

    def call_func(self, f, args, kwargs):
        env, params = self.bind(f, args, kwargs)
        self.depth += 1
        if self.depth > 80:
            self.depth -= 1
            raise Unsupported("recursion depth")
        qual = (f.cls.name + '.' if f.cls else '') + f.name
        self.visited.add((f.mod.name, qual))
        saved = (self.file, ir.G.loc)
        self.file = os.path.relpath(f.mod.path, self.repo) if f.mod.path else f.mod.name
        envid = self.new('env', env).id
        ctx = Ctx(f.mod, envid, f, qual)
        ctx.parent = f.env
        ctx.first = params[0] if params else None
        self.frames.append((qual, self.file))
        a0 = self.assume
        self.assume = dict(a0)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, ctx)
                return v
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported("generator function")
            o = self.exec_block(f.node.body, ctx)
            o = self.fold_ret(o)
            self.heap = o.heap
            if o.k == 'raise':
                raise o.val
            return o.val
        finally:
            self.depth -= 1
            self.frames.pop()
            keep = self.assume
            self.assume = a0
            self.file, ir.G.loc = saved

    def fold_ret(self, o):
        if o.k == 'fall':
            return O('ret', o.heap, None)
        if o.k == 'mix':
            return self.mix(o.c, self.fold_ret(o.o1), self.fold_ret(o.o2))
        return o

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, ctx):
        for i, s in enumerate(stmts):
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step budget")
            o = self.exec_stmt(s, ctx)
            if o is None or o.k == 'fall':
                if o is not None:
                    self.heap = o.heap
                continue
            if o.k == 'mix':
                rest = stmts[i + 1:]
                return self.cont(o, lambda: self.exec_block(rest, ctx))
            return o
        return O('fall', self.heap)

    def setloc(self, n, ctx):
        ir.G.loc = (self.file, n.lineno, ctx.qual)

    def exec_stmt(self, s, ctx):
        self.setloc(s, ctx)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.file}:{s.lineno}")
        return m(s, ctx)

    def st_Expr(self, s, ctx):
        self.eval(s.value, ctx)

    def st_Pass(self, s, ctx):
        pass

    def st_Assign(self, s, ctx):
        v = self.eval(s.value, ctx)
        for t in s.targets:
            self.assign(t, v, ctx)

    def st_AnnAssign(self, s, ctx):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, ctx), ctx)

    def st_AugAssign(self, s, ctx):
        o = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, ctx)
            v = self.eval(s.value, ctx)
            self.assign(s.target, self.inplace(o, cur, v), ctx)
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value, ctx)
            cur = self.getattr(obj, s.target.attr)
            v = self.eval(s.value, ctx)
            self.setattr(obj, s.target.attr, self.inplace(o, cur, v))
        else:
            obj = self.eval(s.target.value, ctx)
            ix = self.eval(s.target.slice, ctx)
            cur = self.getitem(obj, ix)
            v = self.eval(s.value, ctx)
            r = self.inplace(o, cur, v)
            self.setitem(obj, ix, r)

    def inplace(self, o, cur, v):
        if isinstance(cur, ChoiceV):
            return self.lift(cur, lambda x: self.inplace(o, x, v))
        if isinstance(v, ChoiceV):
            return self.lift(v, lambda x: self.inplace(o, cur, x))
        if isinstance(cur, Ref) and cur.kind == 'arr':
            a = self.rd(cur)
            if a.ndim > 0 or not a.wk and cur.id in self.owners:
                b = self.to_arr(v)
                r = self.np.binop_arr(self, o, a, b)
                if r.shape != a.shape:
                    raise AbsRaise('ValueError', f"non-broadcastable output operand {show_shape(a.shape)} <- {show_shape(r.shape)}", ir.G.loc)
                if ORD[r.kind] > ORD[a.kind] and not (r.kind == 'f' and a.kind == 'f'):
                    if a.kind in ('i', 'b') and r.kind in ('f', 'c') or a.kind == 'f' and r.kind == 'c':
                        raise AbsRaise('TypeError', f"cannot cast in-place result from {r.kind} to {a.kind}", ir.G.loc)
                self.wr(cur, r)
                return cur
        if isinstance(cur, Ref) and cur.kind == 'list' and o == 'Add':
            self.event('write', cur.id)
            self.heap[cur.id] = self.heap[cur.id] + tuple(self.iterate(v))
            return cur
        return self.binop(o, cur, v)

    def assign(self, t, v, ctx):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, ctx)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, ctx), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, ctx), self.eval(t.slice, ctx), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, ChoiceV):
                # distribute the choice over the elements
                xs, ys = self.iterate(v.a), self.iterate(v.b)
                if len(xs) != len(ys):
                    raise Unsupported("unpack of gated sequences")
                items = [self.merge_val(v.c, x, y) for x, y in zip(xs, ys)]
            else:
                items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                n = len(items) - (len(t.elts) - 1)
                if n < 0:
                    raise AbsRaise('ValueError', 'not enough values to unpack', ir.G.loc)
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, ctx)
                self.assign(t.elts[k].value, self.new('list', tuple(items[k:k + n])), ctx)
                for e, x in zip(t.elts[k + 1:], items[k + n:]):
                    self.assign(e, x, ctx)
                return
            if len(items) != len(t.elts):
                raise AbsRaise('ValueError', 'unpack mismatch', ir.G.loc)
            for e, x in zip(t.elts, items):
                self.assign(e, x, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, ctx)
        else:
            raise Unsupported("assignment target")

    def store_name(self, name, v, ctx):
        eid = ctx.envid
        if name in ctx.globals:
            eid = ctx.mod.nsid
            self.event('setglobal', ctx.mod.name, name)
        elif name in ctx.nonlocals:
            p = ctx.parent
            while p is not None:
                if name in self.heap[p.envid]:
                    eid = p.envid
                    break
                p = p.parent
        d = dict(self.heap[eid])
        d[name] = v
        self.heap[eid] = d

    def lookup(self, name, ctx):
        c = ctx
        first = True
        while c is not None:
            if (first or not c.is_class) and name not in ctx.globals:
                d = self.heap[c.envid]
                if name in d and d[name] is not ABSENT:
                    return d[name]
            first = False
            c = c.parent
        d = self.heap[ctx.mod.nsid]
        if name in d:
            return d[name]
        if name == '__class__' and ctx.func is not None:
            return ctx.func.cls
        if name.startswith('__cy_'):
            from . import cyth
            return cyth.INTRINSICS[name]
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return {'True': True, 'False': False, 'None': None}[name]
            return ExtV('builtins.' + name)
        raise AbsRaise('NameError', name, ir.G.loc)

    def st_Return(self, s, ctx):
        v = self.eval(s.value, ctx) if s.value is not None else None
        return O('ret', self.heap, v)

    def st_Raise(self, s, ctx):
        name = 'Exception'
        if s.exc is None:
            name = ctx.handling or 'Exception'
            raise AbsRaise(name, 're-raise', ir.G.loc)
        e = s.exc
        tgt = e.func if isinstance(e, ast.Call) else e
        v = self.eval(tgt, ctx)
        if isinstance(v, ExtV):
            name = v.name.split('.')[-1]
        elif isinstance(v, ClassV):
            name = self.exc_name(v)
        elif isinstance(v, OpaqueV):
            name = v.name.split(':')[-1]
        elif isinstance(v, Ref) and v.kind == 'obj':
            name = self.exc_name(self.heap[v.id]['__class__'])
        raise AbsRaise(name, '', ir.G.loc)

    def exc_name(self, cls):
        for k in cls.mro:
            for b in k.bases:
                if isinstance(b, ExtV):
                    return b.name.split('.')[-1]
        return 'Exception'

    def st_Assert(self, s, ctx):
        t = self.truth(self.eval(s.test, ctx))
        if t is True:
            return
        if t is False:
            raise AbsRaise('AssertionError', '', ir.G.loc)
        self.guards.append((t, False, AbsRaise('AssertionError', '', ir.G.loc), ir.G.loc))
        self.assume[t] = True

    def st_If(self, s, ctx):
        t = self.truth(self.eval(s.test, ctx))
        if t is True:
            return self.exec_block(s.body, ctx)
        if t is False:
            return self.exec_block(s.orelse, ctx)
        return self.branch(t, lambda: self.exec_block(s.body, ctx), lambda: self.exec_block(s.orelse, ctx))

    def st_For(self, s, ctx):
        it = self.eval(s.iter, ctx)
        items = self.iterate(it)
        return self.loop(s, items, 0, ctx)

    def loop(self, s, items, i, ctx):
        while True:
            if i >= len(items):
                return self.exec_block(s.orelse, ctx)
            self.assign(s.target, items[i], ctx)
            o = self.exec_block(s.body, ctx)
            if o.k in ('fall', 'cont'):
                self.heap = o.heap
                i += 1
                continue
            if o.k == 'brk':
                return O('fall', o.heap)
            if o.k in ('ret', 'raise'):
                return o
            return self.fold_loop(o, lambda: self.loop(s, items, i + 1, ctx))

    def fold_loop(self, o, nxt):
        if o.k in ('fall', 'cont'):
            self.heap = o.heap
            return self.run(nxt)
        if o.k == 'brk':
            return O('fall', o.heap)
        if o.k == 'mix':
            a0 = self.assume
            self.assume = dict(a0)
            self.assume[o.c] = True
            o1 = self.fold_loop(o.o1, nxt)
            self.assume = dict(a0)
            self.assume[o.c] = False
            o2 = self.fold_loop(o.o2, nxt)
            self.assume = dict(a0)
            return self.mix(o.c, o1, o2)
        return o

    def st_While(self, s, ctx):
        return self.wloop(s, ctx, 0)

    def wloop(self, s, ctx, n):
        while True:
            if n > 400:
                raise Unsupported("while loop bound")
            t = self.truth(self.eval(s.test, ctx))
            if t is False:
                return self.exec_block(s.orelse, ctx)
            if t is not True:
                raise Unsupported("while loop with undecided condition")
            o = self.exec_block(s.body, ctx)
            n += 1
            if o.k in ('fall', 'cont'):
                self.heap = o.heap
                continue
            if o.k == 'brk':
                return O('fall', o.heap)
            if o.k in ('ret', 'raise'):
                return o
            return self.fold_loop(o, lambda: self.wloop(s, ctx, n))

    def st_Break(self, s, ctx):
        return O('brk', self.heap)

    def st_Continue(self, s, ctx):
        return O('cont', self.heap)

    def st_Delete(self, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.heap[ctx.envid])
                d.pop(t.id, None)
                self.heap[ctx.envid] = d
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, ctx)
                k = self.eval(t.slice, ctx)
                if isinstance(o, Ref) and o.kind == 'dict':
                    self.event('write', o.id)
                    d = dict(self.heap[o.id])
                    d.pop(self.hkey(k), None)
                    self.heap[o.id] = d
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, ctx)
                if not (isinstance(o, Ref) and o.kind == 'obj'):
                    raise Unsupported("del attribute")
                d = dict(self.heap[o.id])
                if t.attr not in d:
                    raise AbsRaise('AttributeError', t.attr, ir.G.loc)
                del d[t.attr]
                self.heap[o.id] = d
                self.event('setattr', o.id, t.attr)
            else:
                raise Unsupported("del")

    def exc_matches(self, exc, types, ctx):
        if types is None:
            return True
        names = []
        tv = self.eval(types, ctx)
        for t in (tv if isinstance(tv, tuple) else (tv,)):
            if isinstance(t, ExtV):
                names.append(t.name.split('.')[-1])
            elif isinstance(t, ClassV):
                names.append(self.exc_name(t))
        e = getattr(builtins, exc, None)
        for n in names:
            if n == exc:
                return True
            b = getattr(builtins, n, None)
            if isinstance(e, type) and isinstance(b, type) and issubclass(e, b):
                return True
            if n in ('Exception', 'BaseException'):
                return True
        return False

    def st_Try(self, s, ctx):
        o = self.run(lambda: self.exec_block(s.body, ctx))
        if o.k == 'raise':
            e = o.val
            self.heap = o.heap
            for h in s.handlers:
                if self.exc_matches(e.exc, h.type, ctx):
                    if h.name:
                        self.store_name(h.name, OpaqueV('exc:' + e.exc), ctx)
                    ctx2 = ctx
                    old = ctx.handling
                    ctx.handling = e.exc
                    try:
                        o = self.run(lambda: self.exec_block(h.body, ctx))
                    finally:
                        ctx.handling = old
                    break
        elif o.k in ('fall', 'mix') and s.orelse:
            o = self.cont(o, lambda: self.exec_block(s.orelse, ctx))
        if s.finalbody:
            if o.k == 'raise':
                self.heap = o.heap
                f = self.exec_block(s.finalbody, ctx)
                if f.k != 'fall':
                    return f
                raise o.val
            if o.k == 'fall':
                self.heap = o.heap
                return self.exec_block(s.finalbody, ctx)
            if o.k == 'ret':
                self.heap = o.heap
                f = self.exec_block(s.finalbody, ctx)
                if f.k == 'fall':
                    return O('ret', self.heap, o.val)
                return f
            raise Unsupported("finally with mixed outcomes")
        if o.k == 'raise':
            self.heap = o.heap
            raise o.val
        return o

    def st_With(self, s, ctx):
        for it in s.items:
            v = self.eval(it.context_expr, ctx)
            if isinstance(v, Ref) and v.kind == 'obj':
                m = self.getattr(v, '__enter__')
                v = self.call(m, [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, ctx)
        return self.exec_block(s.body, ctx)

    def st_Global(self, s, ctx):
        ctx.globals.update(s.names)

    def st_Nonlocal(self, s, ctx):
        ctx.nonlocals.update(s.names)

    def st_Import(self, s, ctx):
        for a in s.names:
            if a.name.split('.')[0] == 'geoana' or a.name in self.overlay:
                m = self.load(a.name)
                if a.asname:
                    self.store_name(a.asname, m, ctx)
                else:
                    top = self.mods[a.name.split('.')[0]]
                    self.store_name(a.name.split('.')[0], top, ctx)
            else:
                self.store_name(a.asname or a.name.split('.')[0], self.ext(a.name if a.asname else a.name.split('.')[0]), ctx)

    def st_ImportFrom(self, s, ctx):
        mod = s.module or ''
        if s.level:
            base = ctx.mod.name
            is_pkg = ctx.mod.path and ctx.mod.path.endswith('__init__.py')
            parts = base.split('.')
            drop = s.level - (1 if is_pkg else 0)
            if drop:
                parts = parts[:-drop]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                if mod.split('.')[0] == 'geoana':
                    m = self.load(mod)
                    ns = self.heap[m.nsid]
                    if '__all__' in ns:
                        names = self.iterate(ns['__all__'])
                    else:
                        names = [k for k in ns if not k.startswith('_')]
                    for k in names:
                        self.store_name(k, self.import_name(mod, k), ctx)
                    continue
                raise Unsupported("star import")
            self.store_name(a.asname or a.name, self.import_name(mod, a.name), ctx)

    def st_FunctionDef(self, s, ctx):
        f = self.mkfunc(s, ctx, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s.name, ctx)
        self.store_name(s.name, v, ctx)

    st_AsyncFunctionDef = None

    def mkfunc(self, s, ctx, name):
        defaults = []
        for d in s.args.defaults:
            v = self.eval(d, ctx)
            self.own_default(v, ctx, name)
            defaults.append(v)
        kwd = {}
        for p, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                v = self.eval(d, ctx)
                self.own_default(v, ctx, name)
                kwd[p.arg] = v
        return FuncV(s, ctx.mod, ctx if ctx.qual != '<module>' else None, defaults, kwd, name, ctx.cls)

    def own_default(self, v, ctx, name):
        if isinstance(v, Ref) and v.kind in ('arr', 'list', 'dict'):
            self.owners[v.id] = ('default', f"{ctx.qual}.{name}")

    def decorate(self, d, v, name, ctx):
        dv = self.eval(d, ctx)
        if isinstance(dv, ExtV):
            n = dv.name
            if n == 'builtins.property':
                return PropV(v, name=name)
            if n == 'builtins.staticmethod':
                return StaticV(v)
            if n == 'builtins.classmethod':
                return StaticV(v, cls=True)
            if n == 'functools.cached_property':
                return PropV(v, cached=True, name=name)
            if n in ('functools.lru_cache', 'functools.cache'):
                return MemoV(v, self.new('dict', {}).id)
            if n.startswith('abc.') or n.startswith('typing.') or n.startswith('functools.wraps') or n == 'numpy.vectorize':
                if n == 'numpy.vectorize':
                    raise Unsupported("np.vectorize")
                return v
        if isinstance(dv, OpaqueV):
            if dv.name.startswith('functools.lru_cache'):
                return MemoV(v, self.new('dict', {}).id)
            if dv.name.startswith('functools.wraps') or dv.name.startswith('warnings.'):
                return v
            raise Unsupported(f"decorator {dv.name}")
        return self.call(dv, [v], {})

    def st_ClassDef(self, s, ctx):
        bases = [self.eval(b, ctx) for b in s.bases]
        nsid = self.new('ns', {'__qualname__': s.name}).id
        cls = ClassV(s.name, ctx.mod, [b for b in bases if isinstance(b, (ClassV, ExtV))], nsid)
        cls.mro = self.compute_mro(cls)
        c2 = Ctx(ctx.mod, nsid, None, s.name)
        c2.parent = ctx if ctx.qual != '<module>' else None
        c2.is_class = True
        c2.cls = cls
        o = self.exec_block(s.body, c2)
        if o.k == 'raise':
            raise o.val
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s.name, ctx)
        self.store_name(s.name, v, ctx)

    # -------------------------------------------------------------- expressions
    def eval(self, n, ctx):
        loc = ir.G.loc
        if hasattr(n, 'lineno'):
            self.setloc(n, ctx)
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at {self.file}:{getattr(n, 'lineno', 0)}")
        try:
            v = m(n, ctx)
        except ShapeError as e:
            raise AbsRaise('ValueError', str(e), ir.G.loc)
        ir.G.loc = loc
        return v

    def ev_Constant(self, n, ctx):
        v = n.value
        if isinstance(v, (bool, str, type(None), int)) or v is Ellipsis:
            return v
        if isinstance(v, float):
            k = ir.named(v)
            if k is not None:
                return self.arr(Arr((), lambda idx: k, 'f', wk=True))
        if isinstance(v, (float, complex)):
            return ir.lit(v)
        return OpaqueV('const')

    def ev_Name(self, n, ctx):
        return self.lookup(n.id, ctx)

    def ev_Attribute(self, n, ctx):
        return self.getattr(self.eval(n.value, ctx), n.attr)

    def ev_Tuple(self, n, ctx):
        return tuple(self.eval_seq(n.elts, ctx))

    def ev_List(self, n, ctx):
        return self.new('list', tuple(self.eval_seq(n.elts, ctx)))

    def ev_Set(self, n, ctx):
        return tuple(self.eval_seq(n.elts, ctx))

    def eval_seq(self, elts, ctx):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, ctx)))
            else:
                out.append(self.eval(e, ctx))
        return out

    def ev_Dict(self, n, ctx):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, ctx)
                if isinstance(o, Ref) and o.kind == 'dict':
                    d.update(self.heap[o.id])
                else:
                    raise Unsupported("dict unpack")
            else:
                d[self.hkey(self.eval(k, ctx))] = self.eval(v, ctx)
        return self.new('dict', d)

    def ev_JoinedStr(self, n, ctx):
        for p in n.values:
            if isinstance(p, ast.FormattedValue):
                try:
                    v = self.eval(p.value, ctx)
                except (Unsupported,):
                    pass
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                try:
                    v = self.eval(p.value, ctx)
                except Unsupported:
                    return StrV('fstring')
                if isinstance(v, (str, int)) and p.format_spec is None:
                    parts.append(str(v))
                else:
                    return StrV('fstring')
        return ''.join(parts)

    def ev_FormattedValue(self, n, ctx):
        return StrV('fmt')

    def ev_Starred(self, n, ctx):
        raise Unsupported("starred")

    def ev_Lambda(self, n, ctx):
        f = self.mkfunc(n, ctx, '<lambda>')
        if f.env is None and ctx.qual != '<module>':
            f.env = ctx
        return f

    def ev_NamedExpr(self, n, ctx):
        v = self.eval(n.value, ctx)
        self.assign(n.target, v, ctx)
        return v

    def ev_IfExp(self, n, ctx):
        t = self.truth(self.eval(n.test, ctx))
        if t is True:
            return self.eval(n.body, ctx)
        if t is False:
            return self.eval(n.orelse, ctx)
        o = self.branch(t, lambda: self._ret(lambda: self.eval(n.body, ctx)),
                        lambda: self._ret(lambda: self.eval(n.orelse, ctx)))
        self.heap = o.heap
        if o.k == 'raise':
            raise o.val
        return o.val

    def ev_BoolOp(self, n, ctx):
        is_and = isinstance(n.op, ast.And)

        def rec(vals):
            v = self.eval(vals[0], ctx)
            if len(vals) == 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t is is_and:
                    return rec(vals[1:])
                return v
            h0, a0 = self.heap, self.assume
            self.assume = dict(a0)
            self.assume[t] = is_and
            try:
                w = rec(vals[1:])
            finally:
                self.assume = a0
            tw = self.truth(w)
            nw = ir.const(tw) if isinstance(tw, bool) else tw
            r = ir.and_(t, nw) if is_and else ir.or_(t, nw)
            return self.arr(Arr((), lambda idx: r, 'b', wk=True))
        return rec(n.values)

    def ev_UnaryOp(self, n, ctx):
        v = self.eval(n.operand, ctx)
        o = type(n.op).__name__
        return self.unop(o, v)

    def unop(self, o, v):
        if isinstance(v, ChoiceV):
            return self.lift(v, lambda x: self.unop(o, x))
        if o == 'Not':
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            r = ir.not_(t)
            return self.arr(Arr((), lambda idx: r, 'b', wk=True))
        if o == 'USub':
            if is_num(v):
                return ir.q_neg(v) if not isinstance(v, int) else -v
            if isinstance(v, DimV):
                return v  # only used for index arithmetic
            return self.arr(ew(ir.neg, self.to_arr(v)))
        if o == 'UAdd':
            return v
        if o == 'Invert':
            if isinstance(v, bool):
                return not v
            a = self.to_arr(v)
            if a.kind == 'b':
                return self.arr(ew(ir.not_, a, kind='b'))
            raise Unsupported("~ on non-bool")
        raise Unsupported(o)

    def ev_BinOp(self, n, ctx):
        a = self.eval(n.left, ctx)
        b = self.eval(n.right, ctx)
        self.setloc(n, ctx)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, o, a, b):
        if isinstance(a, ChoiceV) and not (self.numlike(a.a) and self.numlike(a.b)):
            return self.lift(a, lambda x: self.binop(o, x, b))
        if isinstance(b, ChoiceV) and not (self.numlike(b.a) and self.numlike(b.b)):
            return self.lift(b, lambda x: self.binop(o, a, x))
        return self.np.binop(self, o, a, b)

    def ev_Compare(self, n, ctx):
        left = self.eval(n.left, ctx)
        res = None
        for o, r in zip(n.ops, n.comparators):
            right = self.eval(r, ctx)
            self.setloc(n, ctx)
            v = self.compare(type(o).__name__, left, right)
            left = right
            if res is None:
                res = v
            else:
                t1, t2 = self.truth(res), self.truth(v)
                n1 = ir.const(t1) if isinstance(t1, bool) else t1
                n2 = ir.const(t2) if isinstance(t2, bool) else t2
                rr = ir.and_(n1, n2)
                bv = ir.bval(rr)
                res = bv if bv is not None else self.arr(Arr((), lambda idx, rr=rr: rr, 'b', wk=True))
        return res

    def compare(self, o, a, b):
        if isinstance(a, ChoiceV):
            return self.lift(a, lambda x: self.compare(o, x, b))
        if isinstance(b, ChoiceV):
            return self.lift(b, lambda x: self.compare(o, a, x))
        return self.np.compare(self, o, a, b)

    def ev_Call(self, n, ctx):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            if not n.args:
                if ctx.func is None or ctx.first is None:
                    raise Unsupported("super() outside method")
                c = ctx
                while c.func is not None and c.func.cls is None and c.parent is not None:
                    c = c.parent
                return SuperV(c.func.cls, self.heap[c.envid][c.first])
            args = [self.eval(a, ctx) for a in n.args]
            return SuperV(args[0], args[1])
        f = self.eval(n.func, ctx)
        args = self.eval_seq(n.args, ctx)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, ctx)
                if not (isinstance(d, Ref) and d.kind == 'dict'):
                    raise Unsupported("** of non-dict")
                new = self.heap[d.id]
            else:
                new = {k.arg: self.eval(k.value, ctx)}
            for x in new:
                if x in kwargs:
                    self.setloc(n, ctx)
                    raise AbsRaise('TypeError', f"multiple values for keyword argument {x!r}", ir.G.loc)
            kwargs.update(new)
        self.setloc(n, ctx)
        if isinstance(f, ExtV) and f.name in ('builtins.locals', 'builtins.vars', 'builtins.globals') and not args:
            raise Unsupported(f.name)
        return self.call(f, args, kwargs)

    def ev_Subscript(self, n, ctx):
        v = self.eval(n.value, ctx)
        ix = self.eval(n.slice, ctx)
        self.setloc(n, ctx)
        return self.getitem(v, ix)

    def ev_Slice(self, n, ctx):
        def g(x):
            if x is None:
                return None
            v = self.eval(x, ctx)
            if isinstance(v, Ref) and v.kind == 'arr':
                c = ir.cval(self.rd(v).at(()))
                if c is not None and c.denominator == 1:
                    return int(c)
                raise Unsupported("symbolic slice bound")
            if v is None:
                return None
            if isinstance(v, DimV):
                return v
            return undim(v)
        return Sl(g(n.lower), g(n.upper), g(n.step))

    def norm_index(self, ix):
        """Index value -> arr.py index form."""
        if isinstance(ix, tuple):
            out, j = [], 0
            while j < len(ix):
                if isinstance(ix[j], NzV):
                    m = ix[j].mask
                    run = ix[j:j + m.ndim]
                    if len(run) < m.ndim or any(not isinstance(q, NzV) or q.mask is not m or q.k != i for i, q in enumerate(run)):
                        raise Unsupported("partial index of nonzero")
                    out.append(m)
                    j += m.ndim
                else:
                    out.append(self.norm_index(ix[j]))
                    j += 1
            return tuple(out)
        if isinstance(ix, NzV):
            return self.norm_index((ix,))[0]
        if ix is None or ix is Ellipsis or isinstance(ix, (Sl, bool)):
            return ix
        if isinstance(ix, int):
            return ix
        if isinstance(ix, Fraction):
            raise AbsRaise('IndexError', 'float index', ir.G.loc)
        if isinstance(ix, Ref):
            if ix.kind == 'list':
                items = self.heap[ix.id]
                if items and all(isinstance(x, bool) for x in items):
                    return self.to_arr(ix)
                if all(isinstance(x, int) for x in items):
                    return list(items)
                a = self.to_arr(ix)
                return a
            if ix.kind == 'arr':
                a = self.rd(ix)
                if a.kind != 'b' and a.ndim == 0:
                    c = ir.cval(a.at(()))
                    if c is not None and c.denominator == 1:
                        return int(c)
                return a
        if isinstance(ix, DimV):
            raise Unsupported("symbolic extent as index")
        if isinstance(ix, ChoiceV):
            raise Unsupported("gated index")
        if isinstance(ix, ExtV) and ix.name == 'numpy.newaxis':
            return None
        raise Unsupported(f"index {ix!r}")

    def getitem(self, v, ix):
        if isinstance(v, ChoiceV):
            return self.lift(v, lambda x: self.getitem(x, ix))
        if isinstance(v, tuple):
            return self.seq_getitem(v, ix, tuple)
        if isinstance(v, str):
            if isinstance(ix, (int,)):
                return v[ix]
            if isinstance(ix, Sl):
                return v[ix.a:ix.b:ix.s]
        if isinstance(v, Ref):
            if v.kind == 'list':
                r = self.seq_getitem(self.heap[v.id], ix, list)
                return r
            if v.kind == 'dict':
                k = self.hkey(ix)
                d = self.heap[v.id]
                if k in d:
                    return d[k]
                raise AbsRaise('KeyError', str(k), ir.G.loc)
            if v.kind == 'arr':
                nix = self.norm_index(ix)
                a = self.rd(v)
                if is_basic(nix):
                    getitem(a, nix)          # shape check
                    return Ref('arr', v.id, v.path + (('ix', nix),))
                return self.arr(getitem(a, nix))
            if v.kind == 'obj':
                m = self.class_lookup(self.heap[v.id]['__class__'], '__getitem__')
                if m is not ABSENT:
                    return self.call(BoundV(v, m), [ix], {})
        if isinstance(v, ExtV) and v.name in ('numpy.r_', 'numpy.c_'):
            return self.np.call_ext(self, v.name, [ix], {})
        if isinstance(v, ExtV):
            return v   # typing subscripts
        if isinstance(v, ExtMeth) and v.name == '__dict__':
            d = self.heap[v.obj.id]
            if ix in d:
                return d[ix]
            raise AbsRaise('KeyError', str(ix), ir.G.loc)
        if isinstance(v, OpaqueV):
            return self.np.opaque_item(self, v, ix)
        if isinstance(v, (FuncV, ClassV)):
            raise Unsupported("subscript of function/class")
        if is_num(v) or v is None:
            raise AbsRaise('TypeError', 'not subscriptable', ir.G.loc)
        raise Unsupported(f"subscript of {v!r}")

    def seq_getitem(self, items, ix, kind):
        if isinstance(ix, Ref) and ix.kind == 'arr':
            ix = self.norm_index(ix)
        if isinstance(ix, bool):
            ix = int(ix)
        if isinstance(ix, int):
            if not -len(items) <= ix < len(items):
                raise AbsRaise('IndexError', 'sequence index out of range', ir.G.loc)
            return items[ix]
        if isinstance(ix, Sl):
            r = tuple(items)[ix.a:ix.b:ix.s]
            return r if kind is tuple else self.new('list', r)
        if isinstance(ix, tuple) or isinstance(ix, Ref):
            raise AbsRaise('TypeError', 'sequence indices must be integers', ir.G.loc)
        raise Unsupported("sequence index")

    def setitem(self, v, ix, val):
        if isinstance(v, ChoiceV):
            return self.lift(v, lambda x: self.setitem(x, ix, val))
        if isinstance(v, Ref):
            if v.kind == 'arr':
                nix = self.norm_index(ix)
                a = self.rd(v)
                b = self.to_arr(val)
                if ORD[b.kind] > ORD[a.kind]:
                    if not (b.kind == 'i' and a.kind == 'b'):
                        self.event('lossy', a.kind, b.kind)
                        b = ew(lambda x: ir.fn('cast_' + a.kind, x), b, kind=a.kind)
                self.wr(v, setitem(a, nix, b))
                return
            if v.kind == 'list':
                items = list(self.heap[v.id])
                if isinstance(ix, int):
                    items[ix] = val
                else:
                    raise Unsupported("list store")
                self.event('write', v.id)
                self.heap[v.id] = tuple(items)
                return
            if v.kind == 'dict':
                self.event('write', v.id)
                d = dict(self.heap[v.id])
                d[self.hkey(ix)] = val
                self.heap[v.id] = d
                return
            if v.kind == 'obj':
                m = self.class_lookup(self.heap[v.id]['__class__'], '__setitem__')
                if m is not ABSENT:
                    return self.call(BoundV(v, m), [ix, val], {})
        if isinstance(v, ExtMeth) and v.name == '__dict__':
            d = dict(self.heap[v.obj.id])
            d[ix] = val
            self.heap[v.obj.id] = d
            self.event('setattr', v.obj.id, ix)
            return
        if isinstance(v, OpaqueV):
            return
        raise AbsRaise('TypeError', f"{v!r} does not support item assignment", ir.G.loc)

    def iterate(self, v):
        """Python list of the items of an iterable."""
        if isinstance(v, tuple):
            if v and v[0] == 'partial' and len(v) == 4 and isinstance(v[3], tuple):
                raise Unsupported("iterate callable")
            return list(v)
        if isinstance(v, list):
            return v
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            if v.kind == 'list':
                return list(self.heap[v.id])
            if v.kind == 'dict':
                return list(self.heap[v.id])
            if v.kind == 'arr':
                a = self.rd(v)
                if a.ndim == 0:
                    raise AbsRaise('TypeError', 'iteration over a 0-d array', ir.G.loc)
                if not isinstance(a.shape[0], int):
                    raise Unsupported("iteration over a symbolic axis")
                return [Ref('arr', v.id, v.path + (('ix', (k,)),)) for k in range(a.shape[0])]
            if v.kind == 'obj':
                m = self.class_lookup(self.heap[v.id]['__class__'], '__iter__')
                if m is not ABSENT:
                    return self.iterate(self.call(BoundV(v, m), [], {}))
        if is_num(v) or v is None or isinstance(v, bool):
            raise AbsRaise('TypeError', 'not iterable', ir.G.loc)
        if isinstance(v, ChoiceV):
            raise Unsupported("iteration over gated value")
        raise Unsupported(f"iterate {v!r}")

    def comp(self, n, ctx, emit):
        c2 = Ctx(ctx.mod, self.new('env', {}).id, ctx.func, ctx.qual)
        c2.parent = ctx
        c2.first = ctx.first
        c2.globals, c2.nonlocals = set(), set()

        def rec(gens):
            if not gens:
                emit(c2)
                return
            g = gens[0]
            for item in self.iterate(self.eval(g.iter, c2)):
                self.assign(g.target, item, c2)
                ok = True
                for t in g.ifs:
                    tv = self.truth(self.eval(t, c2))
                    if tv is False:
                        ok = False
                        break
                    if tv is not True:
                        raise Unsupported("comprehension filter undecided")
                if ok:
                    rec(gens[1:])
        rec(n.generators)

    def ev_ListComp(self, n, ctx):
        out = []
        self.comp(n, ctx, lambda c: out.append(self.eval(n.elt, c)))
        return self.new('list', tuple(out))

    def ev_GeneratorExp(self, n, ctx):
        out = []
        self.comp(n, ctx, lambda c: out.append(self.eval(n.elt, c)))
        return tuple(out)

    ev_SetComp = ev_GeneratorExp

    def ev_DictComp(self, n, ctx):
        out = {}

        def emit(c):
            out[self.hkey(self.eval(n.key, c))] = self.eval(n.value, c)
        self.comp(n, ctx, emit)
        return self.new('dict', out)


class Ctx:
    """Static context of a frame."""
    def __init__(self, mod, envid, func, qual):
        self.mod, self.envid, self.func, self.qual = mod, envid, func, qual
        self.parent = None
        self.globals, self.nonlocals = set(), set()
        self.is_class = False
        self.cls = None
        self.first = None
        self.handling = None
