"""Symbolic n-d arrays over the scalar value graph.

An Arr has a concrete rank, dims that are ints or symbolic, a numeric kind
('b','i','f','c') and an element function idx -> scalar node.
"""
import itertools
from . import ir
from .ir import Fraction


class ShapeError(Exception):
    """Definite shape mismatch (numpy would raise)."""


class Unsupported(Exception):
    """The analysis has no model for this construct (result: undecided)."""


ORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def promote(*ks):
    ks = [k for k in ks if k is not None]
    return max(ks, key=ORD.get) if ks else 'f'


class Arr:
    __slots__ = ("shape", "fn", "kind", "memo", "loc", "wk", "gen", "order", "lo")

    def __init__(self, shape, fn, kind='f', wk=False):
        self.shape = tuple(shape)
        self.fn = fn
        self.kind = kind
        self.memo = {}
        self.gen = ir.G.gen
        self.loc = ir.G.loc
        self.wk = wk            # weak (python-scalar) kind
        self.lo = False         # held in single precision
        self.order = 'C'        # memory order: C, F or S (strided); followed only where pointers are taken

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        idx = tuple(idx)
        if self.gen != ir.G.gen:
            self.memo = {}
            self.gen = ir.G.gen
        r = self.memo.get(idx)
        if r is None:
            saved = ir.G.loc
            ir.G.loc = self.loc
            try:
                r = self.fn(idx)
            finally:
                ir.G.loc = saved
            self.memo[idx] = r
        return r

    def generic(self, prefix='i'):
        """Elements at generic indices: dict idx -> node."""
        out = {}

        def rec(pos, idx):
            if pos == len(self.shape):
                out[tuple(idx)] = self.at(tuple(idx))
                return
            d = self.shape[pos]
            if isinstance(d, int):
                for k in range(d):
                    rec(pos + 1, idx + [k])
            else:
                rec(pos + 1, idx + [('i', f"{prefix}{pos}")])
        rec(0, [])
        return out


def scalar(v, kind=None):
    n = ir.const(v)
    if kind is None:
        c = ir.cval(n)
        kind = 'c' if isinstance(v, ir.GQ) else 'b' if isinstance(v, bool) else 'i' if isinstance(v, int) else 'f'
    return Arr((), lambda idx: n, kind, wk=True)


def leaf(name, shape, kind='f'):
    return Arr(shape, lambda idx: ir.sym(name, idx), kind)


def filled(shape, v, kind):
    n = v if isinstance(v, int) and not isinstance(v, bool) and v < 0 else None
    c = ir.const(v)
    return Arr(shape, lambda idx: c, kind)


def dim_eq(a, b):
    return a == b


def broadcast_shapes(*shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            p = k - (nd - len(s))
            if p < 0:
                continue
            e = s[p]
            if e == 1:
                continue
            if d == 1:
                d = e
            elif d != e:
                raise ShapeError(f"cannot broadcast {' with '.join(map(show_shape, shapes))}")
        out.append(d)
    return tuple(out)


def show_shape(s):
    def sd(d):
        if isinstance(d, tuple):
            if d[0] == 'add':
                return f"{sd(d[1])}{d[2]:+d}"
            if d[0] == 'prod':
                return '*'.join(sd(x) for x in d[1])
            return d[0]
        return str(d)
    return '(' + ', '.join(sd(d) for d in s) + (',)' if len(s) == 1 else ')')


def bidx(idx, shape):
    """Project a result index onto an operand of given shape (broadcast)."""
    k = len(idx) - len(shape)
    return tuple(0 if d == 1 else i for i, d in zip(idx[k:], shape))


def broadcast_to(a, shape):
    if broadcast_shapes(a.shape, shape) != tuple(shape):
        raise ShapeError(f"cannot broadcast {show_shape(a.shape)} to {show_shape(shape)}")
    return Arr(shape, lambda idx: a.at(bidx(idx, a.shape)), a.kind)


def ew(f, *arrs, kind=None):
    shape = broadcast_shapes(*[a.shape for a in arrs])
    if kind is None:
        strong = [a.kind for a in arrs]
        kind = promote(*strong)
    r = Arr(shape, lambda idx: f(*[a.at(bidx(idx, a.shape)) for a in arrs]), kind,
            wk=all(a.wk for a in arrs))
    if any(a.order != 'C' for a in arrs):
        os = {a.order for a in arrs if len(a.shape) > 1}
        if len(shape) > 1:
            r.order = os.pop() if len(os) == 1 and 'S' not in os else '?'
    return r


def single(a):
    """The array rounded to single precision."""
    def f(n):
        c = ir.cval(n)
        if c is not None and c in (0, 1, -1) or ir.G.nodes[n][:2] == ('fn', 'cast_f32'):
            return n
        return ir.fn('cast_f32', n)
    r = ew(f, a, kind=a.kind)
    r.lo = True
    return r


# ---------------------------------------------------------------- dims
def dim_add(d, k):
    if k == 0:
        return d
    if isinstance(d, int):
        return d + k
    if isinstance(d, tuple) and d[0] == 'add':
        return dim_add(d[1], d[2] + k) if d[2] + k else d[1]
    return ('add', d, k)


def dim_prod(ds):
    fl, c = [], 1
    for d in ds:
        if isinstance(d, int):
            c *= d
        elif isinstance(d, tuple) and d[0] == 'prod':
            for e in d[1]:
                if isinstance(e, int):
                    c *= e
                else:
                    fl.append(e)
        else:
            fl.append(d)
    if c == 0:
        return 0
    if not fl:
        return c
    if c != 1:
        fl.append(c)
    if len(fl) == 1:
        return fl[0]
    return ('prod', tuple(fl))


def dim_factors(d):
    if isinstance(d, tuple) and d[0] == 'prod':
        return list(d[1])
    return [d] if d != 1 else []


def ix_off(i, k):
    if k == 0:
        return i
    if isinstance(i, int):
        return i + k
    if isinstance(i, tuple) and i[0] == 'off':
        return ix_off(i[1], i[2] + k)
    return ('off', i, k)


# ---------------------------------------------------------------- indexing
class Sl:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def key(self):
        return ('sl', self.a, self.b, self.s)

    def __eq__(self, o):
        return isinstance(o, Sl) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


def slice_plan(sl, d):
    """Returns (new_dim, f: new index -> old index, member: old index -> (cond|None, new index))."""
    a, b, s = sl.a, sl.b, sl.s
    if s is None:
        s = 1
    if isinstance(d, int):
        for v in (a, b):
            if v is not None and not isinstance(v, int):
                raise Unsupported("symbolic slice bound")
        r = range(d)[slice(a, b, s)]
        lst = list(r)
        inv = {o: n for n, o in enumerate(lst)}
        def f(i):
            if isinstance(i, int):
                return lst[i]
            if a in (None, 0) and s == 1:
                return i
            raise Unsupported("symbolic index into sliced int axis")
        def mem(o):
            if isinstance(o, int):
                return inv.get(o)
            if a in (None, 0) and len(lst) == d and s == 1:
                return o
            raise Unsupported("symbolic store index")
        return len(lst), f, mem
    # symbolic dim
    if s == -1 and a is None and b is None:
        return d, (lambda i: ('rev', i, d) if not (isinstance(i, tuple) and i[0] == 'rev') else i[1]), \
            (lambda o: ('rev', o, d) if not (isinstance(o, tuple) and o[0] == 'rev') else o[1])
    if s != 1:
        raise Unsupported("strided slice of symbolic axis")
    if isinstance(b, DimV) and b.d == d:
        b = None
    a = a or 0
    if b is None and isinstance(a, int) and a >= 0:
        if a == 0:
            return d, (lambda i: i), (lambda o: o)
        return dim_add(d, -a), (lambda i: ix_off(i, a)), (lambda o: ('maybe', ix_off(o, -a)))
    if isinstance(b, int) and b < 0 and isinstance(a, int) and a >= 0:
        return dim_add(d, b - a), (lambda i: ix_off(i, a)), (lambda o: ('maybe', ix_off(o, -a)))
    if isinstance(b, int) and b >= 0 and isinstance(a, int) and a >= 0:
        # extents are larger than any literal: the slice has a concrete length
        def g(i):
            if isinstance(i, int):
                return i + a
            raise Unsupported("generic index into a slice of known length")

        def mem(o):
            if isinstance(o, int):
                return o - a if a <= o < b else None
            raise Unsupported("generic store index")
        return max(b - a, 0), g, mem
    raise Unsupported("slice of symbolic axis")


class DimV:
    """Symbolic integer (array extent)."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, DimV) and o.d == self.d

    def __hash__(self):
        return hash(('dim', self.d))

    def __repr__(self):
        return f"Dim({self.d})"


def dimval(d):
    return d if isinstance(d, int) else DimV(d)


def undim(v):
    if isinstance(v, DimV):
        return v.d
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    raise Unsupported(f"not a dimension: {v!r}")


MASKS = {}          # masks of concrete shape that arrays have been selected with


def mask_key(m):
    return tuple(n for _, n in sorted(m.generic().items(), key=str))


def parse_index(shape, index):
    """Expand an index tuple into per-item plan entries.

    entries: ('new',) ('int', axis, k) ('sl', axis, Sl) ('list', axis, [ints]) ('mask', axis0, Arr)
             ('arr', axis, Arr)
    """
    if not isinstance(index, tuple):
        index = (index,)
    used = 0
    for it in index:
        if it is None or it is Ellipsis:
            continue
        if isinstance(it, Arr) and it.kind == 'b':
            used += it.ndim
        elif isinstance(it, bool):
            pass
        else:
            used += 1
    if used > len(shape):
        raise ShapeError(f"too many indices for array of shape {show_shape(shape)}")
    if not any(it is Ellipsis for it in index):
        index = index + (Ellipsis,)
    out, ax = [], 0
    for it in index:
        if it is None:
            out.append(('new',))
        elif it is Ellipsis:
            for _ in range(len(shape) - used):
                out.append(('sl', ax, Sl(None, None, None)))
                ax += 1
        elif isinstance(it, Arr) and it.kind == 'b':
            if it.shape != tuple(shape[ax:ax + it.ndim]):
                raise ShapeError(f"boolean index {show_shape(it.shape)} does not match {show_shape(shape[ax:ax+it.ndim])}")
            out.append(('mask', ax, it))
            ax += it.ndim
        elif isinstance(it, bool):
            out.append(('mask', ax, scalar(it)))
        elif isinstance(it, Sl):
            out.append(('sl', ax, it))
            ax += 1
        elif isinstance(it, int):
            d = shape[ax]
            if isinstance(d, int):
                if not -d <= it < d:
                    raise ShapeError(f"index {it} out of bounds for axis of size {d}")
                it %= d
            elif it < 0:
                it = ('last', it, d) if it != 0 else 0
            out.append(('int', ax, it))
            ax += 1
        elif isinstance(it, list):
            d = shape[ax]
            if isinstance(d, int):
                it = [k % d for k in it]
            out.append(('list', ax, it))
            ax += 1
        elif isinstance(it, tuple) and it and it[0] in ('i', 's'):
            out.append(('int', ax, it))
            ax += 1
        elif isinstance(it, Arr):
            out.append(('arr', ax, it))
            ax += 1
        else:
            raise Unsupported(f"index {it!r}")
    return out


def is_basic(index):
    if not isinstance(index, tuple):
        index = (index,)
    return all(it is None or it is Ellipsis or isinstance(it, (Sl, int)) and not isinstance(it, bool) for it in index)


def getitem(a, index):
    plan = parse_index(a.shape, index)
    nm = sum(1 for p in plan if p[0] in ('mask', 'list', 'arr'))
    if nm > 1 and any(p[0] == 'list' or p[0] == 'arr' for p in plan):
        if all(p[0] != 'arr' for p in plan) and sum(p[0] == 'mask' for p in plan) == 0:
            raise Unsupported("multiple fancy indices")
    shape, maps = [], []   # maps: list of (kind, ...) producing old indices
    for p in plan:
        if p[0] == 'new':
            shape.append(1)
            maps.append(('skip',))
        elif p[0] == 'int':
            maps.append(('fix', p[2]))
        elif p[0] == 'sl':
            nd, f, _ = slice_plan(p[2], a.shape[p[1]])
            shape.append(nd)
            maps.append(('map', f))
        elif p[0] == 'list':
            lst = p[2]
            shape.append(len(lst))
            maps.append(('map', lambda i, lst=lst: lst[i]))
        elif p[0] == 'arr':
            ia = p[2]
            if ia.ndim != 1 or not isinstance(ia.shape[0], int):
                raise Unsupported("integer array index")
            lst = []
            for k in range(ia.shape[0]):
                c = ir.cval(ia.at((k,)))
                if c is None:
                    raise Unsupported("symbolic integer array index")
                lst.append(int(c))
            shape.append(len(lst))
            maps.append(('map', lambda i, lst=lst: lst[i]))
        elif p[0] == 'mask':
            key = mask_key(p[2])
            if p[2].ndim and all(isinstance(d, int) for d in p[2].shape) and len(key) <= 64:
                MASKS[key] = p[2]
            shape.append(('cnt', key))
            maps.append(('mask', key, p[2].ndim))
    shape = tuple(shape)

    def f(idx):
        it = iter(idx)
        old = []
        for m in maps:
            if m[0] == 'skip':
                next(it)
            elif m[0] == 'fix':
                old.append(m[1])
            elif m[0] == 'map':
                old.append(m[1](next(it)))
            else:
                i = next(it)
                if isinstance(i, tuple) and i[0] == 'sel' and i[1] == m[1]:
                    old.extend(i[2])
                else:
                    old.extend(('selinv', m[1], i, k) for k in range(m[2]))
        return a.at(tuple(old))
    return Arr(shape, f, a.kind)


def setitem(a, index, val):
    plan = parse_index(a.shape, index)
    tshape, inv = [], []
    for p in plan:
        if p[0] == 'new':
            tshape.append(1)
            inv.append(('new',))
        elif p[0] == 'int':
            inv.append(('fix', p[2]))
        elif p[0] == 'sl':
            nd, f, mem = slice_plan(p[2], a.shape[p[1]])
            tshape.append(nd)
            inv.append(('mem', mem, nd))
        elif p[0] == 'list':
            lst = p[2]
            tshape.append(len(lst))
            inv.append(('mem', lambda o, lst=lst: (len(lst) - 1 - lst[::-1].index(o)) if o in lst else None, len(lst)))
        elif p[0] == 'mask':
            tshape.append(('cnt', mask_key(p[2])))
            inv.append(('mask', p[2], mask_key(p[2])))
        else:
            raise Unsupported("store through integer array")
    tshape = tuple(tshape)
    # numpy allows dropping leading 1s of the value
    vs = val.shape
    while len(vs) > len(tshape) and vs and vs[0] == 1:
        vs = vs[1:]
    if vs != val.shape:
        v0 = val
        drop = len(val.shape) - len(vs)
        val = Arr(vs, lambda idx: v0.at((0,) * drop + idx), v0.kind)
    if broadcast_shapes(tshape, val.shape) != tshape:
        raise ShapeError(f"could not broadcast {show_shape(val.shape)} into {show_shape(tshape)}")

    def f(idx):
        old = a.at(idx)
        pos, new, cond = 0, [], None
        for m in inv:
            if m[0] == 'new':
                new.append(0)
            elif m[0] == 'fix':
                o = idx[pos]
                pos += 1
                if o != m[1]:
                    if isinstance(o, int) and isinstance(m[1], int):
                        return old
                    if isinstance(o, tuple) and o[0] == 'last' or isinstance(m[1], tuple) and m[1][0] == 'last':
                        c = ir.unk('ixeq', str((o, m[1])))
                    else:
                        c = ir.unk('ixeq', str((o, m[1])))
                    cond = c if cond is None else ir.and_(cond, c)
            elif m[0] == 'mem':
                n = m[1](idx[pos])
                pos += 1
                if n is None:
                    return old
                if isinstance(n, tuple) and n[0] == 'maybe':
                    c = ir.unk('ixin', str(n))
                    cond = c if cond is None else ir.and_(cond, c)
                    n = n[1]
                new.append(n)
            else:
                mk, key = m[1], m[2]
                sub = idx[pos:pos + mk.ndim]
                pos += mk.ndim
                c = mk.at(sub)
                cond = c if cond is None else ir.and_(cond, c)
                new.append(('sel', key, tuple(sub)))
        nv = val.at(bidx(tuple(new), val.shape)) if val.shape else val.at(())
        return nv if cond is None else ir.gate(cond, nv, old)
    return Arr(a.shape, f, a.kind)


# ---------------------------------------------------------------- reshape
def reshape(a, shape, order='C'):
    shape = list(shape)
    total = dim_prod(a.shape)
    if -1 in shape:
        k = shape.index(-1)
        rest = dim_prod([d for j, d in enumerate(shape) if j != k])
        shape[k] = dim_div(total, rest)
    if dim_key(dim_prod(shape)) != dim_key(total):
        raise ShapeError(f"cannot reshape {show_shape(a.shape)} into {show_shape(shape)}")
    shape = tuple(shape)
    if shape == a.shape:
        return a
    if order == 'F':
        return transpose(reshape(transpose(a), tuple(reversed(shape))))
    # group matching: split both shapes into blocks with equal products
    blocks = []
    i = j = 0
    A, B = list(a.shape), list(shape)
    while i < len(A) or j < len(B):
        ai, bj = [], []
        if i < len(A) and j < len(B) and A[i] == B[j]:
            blocks.append(([i], [j]))
            i += 1
            j += 1
            continue
        if j < len(B) and B[j] == 1:
            blocks.append(([], [j]))
            j += 1
            continue
        if i < len(A) and A[i] == 1:
            blocks.append(([i], []))
            i += 1
            continue
        ai, bj = [i], [j]
        i += 1
        j += 1
        for _ in range(20):
            pa = dim_prod([A[k] for k in ai])
            pb = dim_prod([B[k] for k in bj])
            if dim_key(pa) == dim_key(pb):
                break
            fa, fb = len(dim_factors_all(pa)), len(dim_factors_all(pb))
            if isinstance(pa, int) and isinstance(pb, int):
                grow_a = pa < pb
            else:
                grow_a = fa < fb or (fa == fb and isinstance(pa, int))
            if grow_a and i < len(A):
                ai.append(i)
                i += 1
            elif j < len(B):
                bj.append(j)
                j += 1
            elif i < len(A):
                ai.append(i)
                i += 1
            else:
                raise Unsupported("reshape blocks")
        else:
            raise Unsupported("reshape blocks")
        blocks.append((ai, bj))

    def f(idx):
        old = [0] * len(A)
        for ai, bj in blocks:
            if not ai:
                continue
            if not bj:
                continue
            if len(ai) == 1 and len(bj) == 1:
                old[ai[0]] = idx[bj[0]]
                continue
            flat = flatten_ix([idx[k] for k in bj], [B[k] for k in bj])
            un = unflatten_ix(flat, [A[k] for k in ai])
            for k, v in zip(ai, un):
                old[k] = v
        return a.at(tuple(old))
    return Arr(shape, f, a.kind)


def flatten_ix(ix, dims):
    ix2, d2 = [], []
    for i, d in zip(ix, dims):
        if d == 1:
            continue
        if isinstance(i, tuple) and i[0] == 'flat':
            ix2.extend(i[1])
            d2.extend(i[2])
        else:
            ix2.append(i)
            d2.append(d)
    if not ix2:
        return 0
    if len(ix2) == 1:
        return ix2[0]
    if all(isinstance(i, int) for i in ix2) and all(isinstance(d, int) for d in d2[1:]):
        r = 0
        for i, d in zip(ix2, d2):
            r = (r * d if isinstance(d, int) else 0) + i if r else i
        # careful recompute
        r = ix2[0]
        for i, d in zip(ix2[1:], d2[1:]):
            r = r * d + i
        return r
    return ('flat', tuple(ix2), tuple(d2))


def unflatten_ix(ix, dims):
    real = [d for d in dims if d != 1]
    if isinstance(ix, tuple) and ix[0] == 'flat' and list(ix[2]) == real:
        it = iter(ix[1])
        return [0 if d == 1 else next(it) for d in dims]
    if len(real) == 1:
        return [0 if d == 1 else ix for d in dims]
    if isinstance(ix, int) and all(isinstance(d, int) for d in real[1:]):
        out = []
        r = ix
        for d in reversed(real[1:]):
            out.append(r % d)
            r //= d
        out.append(r)
        out.reverse()
        it = iter(out)
        return [0 if d == 1 else next(it) for d in dims]
    if isinstance(ix, tuple) and ix[0] == 'flat':
        # try to regroup prefix/suffix
        pass
    return [0 if d == 1 else ('unflat', ix, k, tuple(dims)) for k, d in enumerate(dims)]


def dim_factors_all(d):
    if isinstance(d, tuple) and d[0] == 'prod':
        return list(d[1])
    return [d]


def dim_key(d):
    if isinstance(d, tuple) and d[0] == 'prod':
        return ('prod',) + tuple(sorted(map(str, d[1])))
    return d


def dim_div(t, r):
    if isinstance(t, int) and isinstance(r, int):
        if r == 0 or t % r:
            raise ShapeError("cannot reshape")
        return t // r
    tf, rf = dim_factors_all(t), dim_factors_all(r)
    tf = list(tf)
    ci = 1
    for x in list(tf):
        if isinstance(x, int):
            ci *= x
            tf.remove(x)
    for x in rf:
        if isinstance(x, int):
            if ci % x:
                raise ShapeError("cannot reshape")
            ci //= x
        elif x in tf:
            tf.remove(x)
        else:
            raise ShapeError("cannot reshape: unknown extent")
    return dim_prod(tf + [ci])


def transpose(a, axes=None):
    n = a.ndim
    if axes is None:
        axes = tuple(reversed(range(n)))
    axes = tuple(x % n for x in axes)
    shape = tuple(a.shape[k] for k in axes)

    def f(idx):
        old = [None] * n
        for p, k in enumerate(axes):
            old[k] = idx[p]
        return a.at(tuple(old))
    r = Arr(shape, f, a.kind)
    if n >= 2 and axes != tuple(range(n)):
        rev = axes == tuple(reversed(range(n)))
        r.order = {'C': 'F', 'F': 'C', 'S': 'S'}.get(a.order, '?') if rev else '?'
    else:
        r.order = a.order
    return r


def squeeze(a, axis=None):
    n = a.ndim
    if axis is None:
        ax = {k for k, d in enumerate(a.shape) if d == 1}
    else:
        axis = axis if isinstance(axis, tuple) else (axis,)
        ax = {k % n for k in axis}
        for k in ax:
            if a.shape[k] != 1:
                raise ShapeError("cannot squeeze axis of size != 1")
    keep = [k for k in range(n) if k not in ax]

    def f(idx):
        old = [0] * n
        for p, k in enumerate(keep):
            old[k] = idx[p]
        return a.at(tuple(old))
    return Arr(tuple(a.shape[k] for k in keep), f, a.kind)


def stack(arrs, axis=0):
    sh = arrs[0].shape
    for b in arrs:
        if b.shape != sh:
            raise ShapeError("all input arrays must have the same shape")
    n = len(sh) + 1
    if not -n <= axis < n:
        raise ShapeError("axis out of bounds")
    axis %= n
    shape = sh[:axis] + (len(arrs),) + sh[axis:]

    def f(idx):
        k = idx[axis]
        if not isinstance(k, int):
            raise Unsupported("symbolic index on stacked axis")
        return arrs[k].at(idx[:axis] + idx[axis + 1:])
    return Arr(shape, f, promote(*[b.kind for b in arrs]))


def concatenate(arrs, axis=0):
    n = arrs[0].ndim
    axis %= n
    dims = []
    for b in arrs:
        if b.ndim != n or b.shape[:axis] + b.shape[axis + 1:] != arrs[0].shape[:axis] + arrs[0].shape[axis + 1:]:
            raise ShapeError("concatenate shape mismatch")
        dims.append(b.shape[axis])
    if len(arrs) == 1:
        return arrs[0]
    if not all(isinstance(d, int) for d in dims):
        dims2 = [d for d in dims if d != 0]
        if len(dims2) == 1:
            return [b for b in arrs if b.shape[axis] != 0][0]
        raise Unsupported("concatenate on symbolic axis")
    shape = arrs[0].shape[:axis] + (sum(dims),) + arrs[0].shape[axis + 1:]

    def f(idx):
        k = idx[axis]
        if not isinstance(k, int):
            raise Unsupported("symbolic index on concatenated axis")
        for b, d in zip(arrs, dims):
            if k < d:
                return b.at(idx[:axis] + (k,) + idx[axis + 1:])
            k -= d
        raise ShapeError("index")
    return Arr(shape, f, promote(*[b.kind for b in arrs]))


_fresh = [0]


def fresh(prefix='s'):
    _fresh[0] += 1
    return _fresh[0]


def canon_bound(dim, body_of):
    """Build a reduction with a canonical bound index (depends on nesting depth only)."""
    depth = _depth[0]
    _depth[0] += 1
    try:
        ix = ('s', depth)
        return ix, body_of(ix)
    finally:
        _depth[0] -= 1


_depth = [0]


def reduce_sum(a, axis=None, keepdims=False):
    return reduce_(a, axis, keepdims, 'sum')


def reduce_(a, axis, keepdims, how):
    n = a.ndim
    if axis is None:
        axes = tuple(range(n))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        for x in axes:
            if not -n <= x < n:
                raise ShapeError("axis out of bounds")
        axes = tuple(sorted(x % n for x in axes))
    keep = [k for k in range(n) if k not in axes]
    if keepdims:
        shape = tuple(1 if k in axes else a.shape[k] for k in range(n))
    else:
        shape = tuple(a.shape[k] for k in keep)
    kind = 'b' if how in ('any', 'all') else a.kind
    if how == 'sum' and kind == 'b':
        kind = 'i'

    def f(idx):
        base = [None] * n
        if keepdims:
            for k in keep:
                base[k] = idx[k]
        else:
            for p, k in enumerate(keep):
                base[k] = idx[p]

        def selected(key, k, ks=()):
            """Over the selected elements of an array of concrete shape."""
            m = MASKS[key]
            have, acc = ir.const(False), None
            for pos in itertools.product(*map(range, m.shape)):
                c = m.at(pos)
                if ir.bval(c) is False:
                    continue
                base[k] = ('sel', key, pos)
                e = rec(ks)
                if acc is None:
                    acc = e if ir.bval(c) is True else ir.gate(c, e, {'sum': ir.const(0), 'prod': ir.const(1), 'any': ir.const(False), 'all': ir.const(True)}.get(how, ir.G.mk('const', 'nan')))
                else:
                    acc = ir.gate(c, ir.gate(have, comb(how, acc, e), e), acc)
                have = ir.or_(have, c)
            return acc if acc is not None else ir.G.mk('const', 'nan')

        def rec(ks):
            if not ks:
                return a.at(tuple(base))
            k = ks[0]
            d = a.shape[k]
            if isinstance(d, int):
                acc = None
                if d > 64:           # a tree, not a chain
                    es = []
                    for v in range(d):
                        base[k] = v
                        es.append(rec(ks[1:]))
                    while len(es) > 1:
                        es = [comb(how, es[j], es[j + 1]) if j + 1 < len(es) else es[j] for j in range(0, len(es), 2)]
                    return es[0]
                for v in range(d):
                    base[k] = v
                    e = rec(ks[1:])
                    acc = e if acc is None else comb(how, acc, e)
                if acc is None:
                    return {'sum': ir.const(0), 'prod': ir.const(1), 'any': ir.const(False), 'all': ir.const(True)}[how]
                return acc

            if isinstance(d, tuple) and d[0] == 'cnt' and d[1] in MASKS:
                return selected(d[1], k, ks[1:])

            def body(ix):
                base[k] = ix
                return rec(ks[1:])
            ix, b = canon_bound(d, body)
            if how == 'sum':
                return ir.sumix(ix, d, b)
            if how in ('any', 'all'):
                if ir.bval(b) is not None:
                    return b
                return ir.G.mk(how + 'ix', ix, d, b)
            return ir.G.mk('redix', how, ix, d, b)
        return rec(list(axes))
    return Arr(shape, f, kind)


def comb(how, a, b):
    if how == 'sum':
        return ir.add(a, b)
    if how == 'prod':
        return ir.mul(a, b)
    if how == 'any':
        return ir.or_(a, b)
    if how == 'all':
        return ir.and_(a, b)
    if how == 'max':
        return ir.gate(ir.cmp('>=', a, b), a, b)
    if how == 'min':
        return ir.gate(ir.cmp('<=', a, b), a, b)
    raise Unsupported(how)


def contract(a, ka, b, kb):
    """sum_k a[..k..] b[..k..] with result axes a-rest + b-rest (np.dot/tensordot)."""
    if a.shape[ka] != b.shape[kb]:
        raise ShapeError(f"shapes {show_shape(a.shape)} and {show_shape(b.shape)} not aligned")
    na, nb = a.ndim, b.ndim
    ra = [k for k in range(na) if k != ka]
    rb = [k for k in range(nb) if k != kb]
    shape = tuple(a.shape[k] for k in ra) + tuple(b.shape[k] for k in rb)
    d = a.shape[ka]

    def f(idx):
        ia = [None] * na
        ib = [None] * nb
        for p, k in enumerate(ra):
            ia[k] = idx[p]
        for p, k in enumerate(rb):
            ib[k] = idx[len(ra) + p]

        def term(v):
            ia[ka] = v
            ib[kb] = v
            return ir.mul(a.at(tuple(ia)), b.at(tuple(ib)))
        if isinstance(d, int):
            acc = ir.const(0)
            for v in range(d):
                acc = ir.add(acc, term(v))
            return acc
        ix, body = canon_bound(d, term)
        return ir.sumix(ix, d, body)
    return Arr(shape, f, promote(a.kind, b.kind))


def dot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return ew(ir.mul, a, b)
    return contract(a, a.ndim - 1, b, b.ndim - 1 if b.ndim == 1 else b.ndim - 2)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError("matmul: operand has no dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if b.ndim == 1:
        return contract(a, a.ndim - 1, b, 0)
    if a.ndim == 1:
        return contract(a, 0, b, b.ndim - 2)
    # batched
    sa, sb = 'ij', 'jk'
    return einsum('...ij,...jk->...ik', [a, b])


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        letters = [c for c in lhs if c.isalpha()]
        rhs = ('...' if '...' in lhs else '') + ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = lhs.split(',')
    if len(ins) != len(ops):
        raise ShapeError("einsum operand count")
    dims, ell = {}, []
    for s, a in zip(ins, ops):
        core = s.replace('...', '')
        ne = a.ndim - len(core)
        if ne < 0 or ('...' not in s and ne != 0):
            raise ShapeError("einsum operand rank")
        pre = s.index('...') if '...' in s else len(core)
        eshape = a.shape[pre:pre + ne]
        ell.append(eshape)
        sh = a.shape[:pre] + a.shape[pre + ne:]
        for c, d in zip(core, sh):
            if c in dims and dims[c] != d:
                if dims[c] == 1:
                    dims[c] = d
                elif d != 1:
                    raise ShapeError("einsum dimension mismatch")
            else:
                dims.setdefault(c, d)
    E = broadcast_shapes(*ell) if ell else ()
    core = rhs.replace('...', '')
    rp = rhs.index('...') if '...' in rhs else 0
    shape = tuple(dims[c] for c in core[:rp]) + (E if '...' in rhs else ()) + tuple(dims[c] for c in core[rp:])
    summed = [c for c in dims if c not in core]

    def f(idx):
        ne = len(E) if '...' in rhs else 0
        env = dict(zip(core[:rp], idx[:rp]))
        eix = idx[rp:rp + ne]
        env.update(zip(core[rp:], idx[rp + ne:]))

        def term():
            r = None
            for s, a, es in zip(ins, ops, ell):
                c2 = s.replace('...', '')
                pre = s.index('...') if '...' in s else len(c2)
                ii = [env[c] for c in c2[:pre]] + list(bidx(tuple(eix), es) if es else ()) + [env[c] for c in c2[pre:]]
                ii = [0 if d == 1 else v for v, d in zip(ii, a.shape)]
                e = a.at(tuple(ii))
                r = e if r is None else ir.mul(r, e)
            return r

        def rec(cs):
            if not cs:
                return term()
            c = cs[0]
            d = dims[c]
            if isinstance(d, int):
                acc = ir.const(0)
                for v in range(d):
                    env[c] = v
                    acc = ir.add(acc, rec(cs[1:]))
                return acc

            def body(ix):
                env[c] = ix
                return rec(cs[1:])
            ix, b = canon_bound(d, body)
            return ir.sumix(ix, d, b)
        return rec(summed)
    return Arr(shape, f, promote(*[a.kind for a in ops]))


def cross(a, b, axis=-1):
    if axis not in (-1, a.ndim - 1):
        raise Unsupported("cross axis")
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        if a.shape[-1] not in (2, 3) or b.shape[-1] not in (2, 3):
            raise ShapeError("incompatible dimensions for cross product")
        raise Unsupported("2-d cross")
    sh = broadcast_shapes(a.shape[:-1], b.shape[:-1]) + (3,)

    def f(idx):
        k = idx[-1]
        i, j = (k + 1) % 3, (k + 2) % 3

        def A(m):
            return a.at(bidx(idx[:-1], a.shape[:-1]) + (m,))

        def B(m):
            return b.at(bidx(idx[:-1], b.shape[:-1]) + (m,))
        return ir.sub(ir.mul(A(i), B(j)), ir.mul(A(j), B(i)))
    return Arr(sh, f, promote(a.kind, b.kind))


def gate_arr(c, a, b):
    sh = broadcast_shapes(a.shape, b.shape)
    if a.shape != b.shape and not (a.shape == () or b.shape == ()):
        raise ShapeError("gated shapes differ")
    return Arr(sh, lambda idx: ir.gate(c, a.at(bidx(idx, a.shape)), b.at(bidx(idx, b.shape))),
               promote(a.kind, b.kind))
