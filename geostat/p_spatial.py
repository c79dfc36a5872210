"""C18 coordinate conversions, rotations and grid helpers."""
from . import ir, gf, diff, scen
from .arr import Arr, leaf, show_shape, ShapeError
from .expr import E, V, sym, sqrt
from .interp import AbsRaise
from .p_field import eq, zero, rng
from .p_struct import W, check
from .p_state import same

SP, UT = 'geoana.spatial', 'geoana.utils'
I0 = ('i', 'i0')


class WS(W):
    def f(self, name, *a, mod=SP, **k):
        m = self.I.load(mod)
        ns = self.I.heap[m.nsid]
        return self.I.call(ns[name], list(a), k)

    def vals(self, v):
        return list(self.w.arr(v).generic().values())

    def pts(self, name, comps, batch=('N',), kind='f'):
        """Array whose last index runs over the named symbols."""
        return self.I.arr(Arr(tuple(batch) + (len(comps),), lambda idx: ir.sym(comps[idx[-1]], idx[:-1]), kind), owner=('arg', name))

    def given(self, name, shape, kind='f'):
        return self.w.array(name, shape, kind=kind)


def sgn(w, **kw):
    w.w.signs.update(kw)


CYL = ('rho', 'phi', 'zeta')
SPH = ('r', 'phi', 'theta')
FX = dict(rho=rng(.2, 3), phi=rng(-3, 3), theta=rng(.1, 3), r=rng(.2, 3))


def chk(ck, rule, name, mk, fixed=None, **kw):
    def m(w):
        w.__class__ = WS
        return mk(w)
    check(ck, rule, name, m, fixed, **kw)


def run(ck):
    ck.raising = True
    conversions(ck)
    rotations(ck)
    helpers(ck)
    grids(ck)


def conversions(ck):
    R = 'coordinates'
    for d in (2, 3):
        for b in ((), ('N',), ('N', 'M')):
            t = f"(…, {d}) {show_shape(tuple(b) + (d,))}"

            def fwd(w):
                g = w.given('xyz', tuple(b) + (d,))
                out = w.w.arr(w.f('cartesian_to_cylindrical', g))
                if tuple(out.shape) != tuple(b) + (d,):
                    return [(ir.const(0), ir.const(1))]
                ix = tuple(('i', f"i{k}") for k in range(len(b)))
                x, y = sym('xyz', *ix, 0), sym('xyz', *ix, 1)
                want = [root(x * x + y * y), ir.fn('arctan2', y.n, x.n)]
                if d == 3:
                    want.append(ir.sym('xyz', ix + (2,)))
                return eq(list(out.generic().values()), want)
            chk(ck, R, f"cartesian_to_cylindrical {t}: (sqrt(x²+y²), atan2(y, x), z)", fwd)

            def back(w):
                g = w.pts('g', CYL[:d], b)
                out = w.w.arr(w.f('cylindrical_to_cartesian', g))
                if tuple(out.shape) != tuple(b) + (d,):
                    return [(ir.const(0), ir.const(1))]
                ix = tuple(('i', f"i{k}") for k in range(len(b)))
                r, p = ir.sym('rho', ix), ir.sym('phi', ix)
                want = [ir.mul(r, ir.fn('cos', p)), ir.mul(r, ir.fn('sin', p))] + ([ir.sym('zeta', ix)] if d == 3 else [])
                return eq(list(out.generic().values()), want)
            chk(ck, R, f"cylindrical_to_cartesian {t}: (rho cos, rho sin, z)", back)

            def rnd(w):
                g = w.given('xyz', tuple(b) + (d,))
                return eq(w.vals(w.f('cylindrical_to_cartesian', w.f('cartesian_to_cylindrical', g))), w.vals(g))
            chk(ck, R, f"Cartesian → cylindrical → Cartesian {t}", rnd)

            def vinv(w):
                g = w.given('xyz', tuple(b) + (d,))
                v = w.given('vec', tuple(b) + (d,))
                c = w.f('cartesian_to_cylindrical', g)
                u = w.f('cartesian_to_cylindrical', g, v)
                return eq(w.vals(w.f('cylindrical_to_cartesian', c, u)), w.vals(v))
            chk(ck, R, f"vectors Cartesian → cylindrical → Cartesian {t}", vinv)

            def vinv2(w):
                g = w.pts('g', CYL[:d], b)
                sgn(w, rho='+')
                v = w.given('vec', tuple(b) + (d,))
                c = w.f('cylindrical_to_cartesian', g)
                u = w.f('cylindrical_to_cartesian', g, v)
                return eq(w.vals(w.f('cartesian_to_cylindrical', c, u)), w.vals(v))
            chk(ck, R, f"vectors cylindrical → Cartesian → cylindrical {t}", vinv2, FX)
    for b in ((), ('N',), ('N', 'M')):
        t = show_shape(tuple(b) + (3,))
        ix = tuple(('i', f"i{k}") for k in range(len(b)))

        def sfwd(w):
            g = w.given('xyz', tuple(b) + (3,))
            out = w.w.arr(w.f('cartesian_to_spherical', g))
            if tuple(out.shape) != tuple(b) + (3,):
                return [(ir.const(0), ir.const(1))]
            x, y, z = (sym('xyz', *ix, k) for k in range(3))
            rho = root(x * x + y * y)
            return eq(list(out.generic().values()), [root(x * x + y * y + z * z), ir.fn('arctan2', y.n, x.n), ir.fn('arctan2', rho, z.n)])
        chk(ck, R, f"cartesian_to_spherical {t}: (r, azimuth, angle from z)", sfwd)

        def sback(w):
            g = w.pts('g', SPH, b)
            out = w.w.arr(w.f('spherical_to_cartesian', g))
            r, p, th = (ir.sym(n, ix) for n in SPH)
            want = [ir.mul(ir.mul(r, ir.fn('sin', th)), ir.fn('cos', p)), ir.mul(ir.mul(r, ir.fn('sin', th)), ir.fn('sin', p)),
                    ir.mul(r, ir.fn('cos', th))]
            return eq(list(out.generic().values()), want)
        chk(ck, R, f"spherical_to_cartesian {t}: (r sin cos, r sin sin, r cos)", sback)

        def srnd(w):
            g = w.given('xyz', tuple(b) + (3,))
            return eq(w.vals(w.f('spherical_to_cartesian', w.f('cartesian_to_spherical', g))), w.vals(g))
        chk(ck, R, f"Cartesian → spherical → Cartesian {t}", srnd)

        def svinv(w):
            g = w.given('xyz', tuple(b) + (3,))
            v = w.given('vec', tuple(b) + (3,))
            u = w.f('cartesian_to_spherical', g, v)
            return eq(w.vals(w.f('spherical_to_cartesian', w.f('cartesian_to_spherical', g), u)), w.vals(v))
        chk(ck, R, f"vectors Cartesian → spherical → Cartesian {t}", svinv)

        def radial(w):
            """The position vector is radial."""
            g = w.given('xyz', tuple(b) + (3,))
            x, y, z = (sym('xyz', *ix, k) for k in range(3))
            rho = root(x * x + y * y)
            return (eq(w.vals(w.f('cartesian_to_spherical', g, g)), [root(x * x + y * y + z * z), ir.const(0), ir.const(0)])
                    + eq(w.vals(w.f('cartesian_to_cylindrical', g, g)), [rho, ir.const(0), z.n]))
        chk(ck, R, f"position vectors are radial {t}", radial)
    # points where the angles are degenerate
    x, y, z, o = 'px', 'py', 'pz', 0
    for name, where in (('on the z axis', (o, o, z)), ('at the origin', (o, o, o)), ('on the x axis', (x, o, o)), ('on the y axis', (o, y, o)),
                     ('on the negative x axis', (-2, o, z)), ('with y = 0', (x, o, z)), ('with x = 0', (o, y, z)), ('with z = 0', (x, y, o))):
        for sysn in ('cylindrical', 'spherical'):
            def special():
                w = W()
                w.__class__ = WS
                pt = [ir.sym(c) if isinstance(c, str) else ir.const(c) for c in where]
                g = w.arr('g', lambda idx: pt[idx[-1]], (1, 3))
                v = w.given('vec', (1, 3))
                c = w.f('cartesian_to_' + sysn, g)
                u = w.f('cartesian_to_' + sysn, g, v)
                bp, bv = w.f(sysn + '_to_cartesian', c), w.f(sysn + '_to_cartesian', c, u)
                ck.note(w.w)
                nm = f"Cartesian → {sysn} → Cartesian {name}"
                outs = [n for q in (c, u, bp, bv) for n in w.vals(q)]
                for k in range(4):
                    wit = gf.Witness((ck.seed, 'special', k), w.w.signs)
                    for n in outs:
                        try:
                            wit.val(n)
                        except gf.Reject:
                            return ck.bad(R, nm, "a coordinate or component is not finite", ir.where(n))
                res = gf.decide(eq(w.vals(bp), list(pt)) + eq(w.vals(bv), w.vals(v)), w.w.signs, w.guards, seed=ck.seed, ncell=12, samples=2)
                ck.verdict(R, nm, res, ir.where(res.idx[0]) if res.idx else (), 'the point and vector given and the ones after the round trip')
            ck.obligation(R, f"{sysn} {name}", special)
    # unit vectors are the normalised derivatives of the position
    for sysn, names, scale in (('cylindrical', CYL, ('1', 'rho', '1')), ('spherical', SPH, ('1', 'r sin', 'r'))):
        for k in range(3):
            def jac(w):
                g = w.pts('g', names)
                pos = w.vals(w.f(sysn + '_to_cartesian', g))
                v = w.arr('e', lambda idx: ir.const(1 if idx[-1] == k else 0), ('N', 3))
                e = w.vals(w.f(sysn + '_to_cartesian', g, v))
                d = diff.diff(pos, diff.wrt(names[k]))
                h = {'1': ir.const(1), 'rho': ir.sym('rho', (I0,)), 'r': ir.sym('r', (I0,)),
                     'r sin': ir.mul(ir.sym('r', (I0,)), ir.fn('sin', ir.sym('theta', (I0,))))}[scale[k]]
                return eq(d, [ir.mul(h, x) for x in e])
            chk(ck, R, f"{sysn} unit vector {names[k]} is the direction in which {names[k]} grows", jac)
    # linearity of the vector forms, and aliases
    for n in ('cylindrical_to_cartesian', 'cartesian_to_cylindrical', 'spherical_to_cartesian', 'cartesian_to_spherical'):
        def orth(w):
            g = w.given('xyz', ('N', 3))
            a, b = w.given('va', ('N', 3)), w.given('vb', ('N', 3))
            p, q = w.vals(w.f(n, g, a)), w.vals(w.f(n, g, b))
            dot = lambda x, y: ir.add(ir.add(ir.mul(x[0], y[0]), ir.mul(x[1], y[1])), ir.mul(x[2], y[2]))
            return [(dot(p, q), dot(w.vals(a), w.vals(b)))]
        chk(ck, R, f"{n} keeps lengths and angles of vectors", orth)

        def alias(w):
            g = w.given('xyz', ('N', 3))
            a = w.given('va', ('N', 3))
            m = n.replace('_to_', '_2_')
            return eq(w.vals(w.f(n, g)), w.vals(w.f(m, g))) + eq(w.vals(w.f(n, g, a)), w.vals(w.f(m, g, a))) + \
                eq(w.vals(w.f(n, g, vec=a)), w.vals(w.f(m, g, vec=a)))
        chk(ck, R, f"{n}: deprecated alias", alias)

        def integer(w):
            a = w.vals(w.f(n, w.given('xyz', ('N', 3), 'i'), w.given('va', ('N', 3), 'i')))
            b = w.vals(w.f(n, w.given('xyz', ('N', 3)), w.given('va', ('N', 3))))
            c = w.vals(w.f(n, w.given('xyz', ('N', 3), 'i')))
            d = w.vals(w.f(n, w.given('xyz', ('N', 3))))
            return eq(a, b) + eq(c, d)
        chk(ck, R, f"{n}: integer input", integer)

        def pure():
            w = W()
            w.__class__ = WS
            g, a = w.given('xyz', ('N', 3)), w.given('va', ('N', 3))
            b = {k: list(w.I.heap[r.id].generic().values()) for k, r in (('grid', g), ('vec', a))}
            w.f(n, g)
            w.f(n, g, a)
            ck.note(w.w)
            for k, r in (('grid', g), ('vec', a)):
                same(ck, 'input unchanged', f"{n}: {k}", w.w, b[k], list(w.I.heap[r.id].generic().values()), f"the caller's {k} before and after the call")
        ck.obligation('input unchanged', n, pure)


def root(e):
    return sqrt(e).n


def mat(v, w):
    a = w.w.arr(v)
    return [[a.at((i, j)) for j in range(3)] for i in range(3)]


def dot3(x, y):
    return ir.add(ir.add(ir.mul(x[0], y[0]), ir.mul(x[1], y[1])), ir.mul(x[2], y[2]))


def unit(w, name):
    x = [ir.sym(name, (k,)) for k in range(3)]
    v = V(*[E(i) for i in x])
    n = v.norm().n
    return [ir.div(i, n) for i in x]


def rotations(ck):
    R = 'rotation matrix'

    def setup(w, **k):
        a, b = w.given('na', (3,)), w.given('nb', (3,))
        return a, b, w.f('rotation_matrix_from_normals', a, b, **k)

    def maps(w):
        a, b, r = setup(w)
        M = mat(r, w)
        u, v = unit(w, 'na'), unit(w, 'nb')
        return [(dot3(M[i], u), v[i]) for i in range(3)]

    def orth(w):
        a, b, r = setup(w)
        M = mat(r, w)
        return [(dot3(M[i], M[j]), ir.const(int(i == j))) for i in range(3) for j in range(i, 3)]

    def det(w):
        a, b, r = setup(w)
        M = mat(r, w)
        c = [ir.sub(ir.mul(M[1][1], M[2][2]), ir.mul(M[1][2], M[2][1])), ir.sub(ir.mul(M[1][2], M[2][0]), ir.mul(M[1][0], M[2][2])),
             ir.sub(ir.mul(M[1][0], M[2][1]), ir.mul(M[1][1], M[2][0]))]
        return [(dot3(M[0], c), ir.const(1))]

    def rotobj(w):
        a, b, r = setup(w)
        M = mat(r, w)
        o = w.f('rotation_matrix_from_normals', a, b, as_matrix=False)
        m2 = w.I.call(w.I.getattr(o, 'as_matrix'), [], {})
        return [(x, y) for p, q in zip(M, mat(m2, w)) for x, y in zip(p, q)]
    for n, f in (('maps v0 to v1', maps), ('is orthogonal', orth), ('has determinant 1', det), ('matrix and Rotation object agree', rotobj)):
        chk(ck, R, f"rotation_matrix_from_normals {n}", f)
    # parallel, anti-parallel and axis-aligned pairs
    ax = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), '-x': (-1, 0, 0), '-y': (0, -1, 0), '-z': (0, 0, -1)}
    for p, u in ax.items():
        for q, v in ax.items():
            def axes(w):
                s, t = ir.sym('len_a'), ir.sym('len_b')
                sgn(w, len_a='+', len_b='+')
                a = w.v3('na', [ir.mul(s, ir.const(c)) for c in u])
                b = w.v3('nb', [ir.mul(t, ir.const(c)) for c in v])
                M = mat(w.f('rotation_matrix_from_normals', a, b), w)
                cu, cv = [ir.const(c) for c in u], [ir.const(c) for c in v]
                out = [(dot3(M[i], cu), cv[i]) for i in range(3)]
                out += [(dot3(M[i], M[j]), ir.const(int(i == j))) for i in range(3) for j in range(i, 3)]
                c = [ir.sub(ir.mul(M[1][1], M[2][2]), ir.mul(M[1][2], M[2][1])), ir.sub(ir.mul(M[1][2], M[2][0]), ir.mul(M[1][0], M[2][2])),
                     ir.sub(ir.mul(M[1][0], M[2][1]), ir.mul(M[1][1], M[2][0]))]
                return out + [(dot3(M[0], c), ir.const(1))]
            chk(ck, R, f"rotation from {p} to {q} is proper", axes)

    def anti(w):
        """Any vector and its opposite."""
        a = w.given('na', (3,))
        b = w.v3('nb', [ir.neg(ir.sym('na', (k,))) for k in range(3)])
        M = mat(w.f('rotation_matrix_from_normals', a, b), w)
        u = unit(w, 'na')
        return [(dot3(M[i], u), ir.neg(u[i])) for i in range(3)] + \
            [(dot3(M[i], M[j]), ir.const(int(i == j))) for i in range(3) for j in range(i, 3)]
    chk(ck, R, "rotation of a vector to its opposite is proper", anti)

    def same_v(w):
        a = w.given('na', (3,))
        M = mat(w.f('rotation_matrix_from_normals', a, a), w)
        return [(M[i][j], ir.const(int(i == j))) for i in range(3) for j in range(3)]
    chk(ck, R, "rotation of a vector to itself is the identity", same_v)

    def pts(w):
        x, a, b, o = w.given('xyz', ('N', 3)), w.given('na', (3,)), w.given('nb', (3,)), w.given('x0', (3,))
        M = mat(w.f('rotation_matrix_from_normals', a, b), w)
        d = [ir.sub(ir.sym('xyz', (I0, k)), ir.sym('x0', (k,))) for k in range(3)]
        return eq(w.vals(w.f('rotate_points_from_normals', x, a, b, o)), [ir.add(dot3(M[i], d), ir.sym('x0', (i,))) for i in range(3)])
    chk(ck, R, "rotate_points_from_normals turns points about x0", pts)

    def ptsd(w):
        x, a, b = w.given('xyz', ('N', 3)), w.given('na', (3,)), w.given('nb', (3,))
        M = mat(w.f('rotation_matrix_from_normals', a, b), w)
        d = [ir.sym('xyz', (I0, k)) for k in range(3)]
        return eq(w.vals(w.f('rotate_points_from_normals', x, a, b)), [dot3(M[i], d) for i in range(3)])
    chk(ck, R, "rotate_points_from_normals turns about the origin by default", ptsd)

    def pure():
        for n, mk in (('rotation_matrix_from_normals', lambda w: (w.given('na', (3,)), w.given('nb', (3,)))),
                      ('rotate_points_from_normals', lambda w: (w.given('xyz', ('N', 3)), w.given('na', (3,)), w.given('nb', (3,)), w.given('x0', (3,))))):
            w = WS()
            a = mk(w)
            b = [list(w.I.heap[r.id].generic().values()) for r in a]
            w.f(n, *a)
            ck.note(w.w)
            for k, r in enumerate(a):
                same(ck, 'input unchanged', f"{n}: argument {k}", w.w, b[k], list(w.I.heap[r.id].generic().values()),
                     "the caller's array before and after the call")
    ck.obligation('input unchanged', 'rotations', pure)


def helpers(ck):
    R = 'helper'
    X = [ir.sym('xyz', (I0, k)) for k in range(3)]

    def vd(w):
        x, o = w.given('xyz', ('N', 3)), w.given('origin', (3,))
        d = [ir.sub(ir.sym('xyz', (I0, k)), ir.sym('origin', (k,))) for k in range(3)]
        z = [ir.sym('xyz', (I0, k)) for k in range(3)]
        return eq(w.vals(w.f('vector_distance', x, o)), d) + eq(w.vals(w.f('vector_distance', x)), z)
    chk(ck, R, "vector_distance = xyz - origin (origin 0 by default)", vd)

    def dist(w):
        x, o = w.given('xyz', ('N', 3)), w.given('origin', (3,))
        d = V(*[E(ir.sub(ir.sym('xyz', (I0, k)), ir.sym('origin', (k,)))) for k in range(3)])
        z = V(*[E(ir.sym('xyz', (I0, k))) for k in range(3)])
        return eq(w.vals(w.f('distance', x, o)), [d.norm().n]) + eq(w.vals(w.f('distance', x)), [z.norm().n])
    chk(ck, R, "distance = |xyz - origin|", dist)

    def mag(w):
        out = []
        for b in ((), ('N',), ('N', 'M')):
            ix = tuple(('i', f"i{k}") for k in range(len(b)))
            z = V(*[E(ir.sym('xyz', ix + (k,))) for k in range(3)])
            out += eq(w.vals(w.f('vector_magnitude', w.given('xyz', tuple(b) + (3,)))), [z.norm().n])
        return out
    chk(ck, R, "vector_magnitude = Euclidean norm of the last axis", mag)

    def dot(w):
        x, v = w.given('xyz', ('N', 3)), w.given('vector', (3,))
        return eq(w.vals(w.f('vector_dot', x, v)), [dot3([ir.sym('xyz', (I0, k)) for k in range(3)], [ir.sym('vector', (k,)) for k in range(3)])])
    chk(ck, R, "vector_dot", dot)
    for d in (2, 3):
        def rep(w):
            a = w.w.arr(w.f('repeat_scalar', w.given('s', ('N',)), d))
            if tuple(a.shape) != ('N', d):
                return [(ir.const(0), ir.const(1))]
            return eq(list(a.generic().values()), [ir.sym('s', (I0,))] * d)
        chk(ck, R, f"repeat_scalar to {d} columns", rep)


def grids(ck):
    R = 'grid'
    sizes = {1: (3,), 2: (2, 3), 3: (2, 3, 4)}
    for n, sh in sizes.items():
        for aslist in (False, True):
            for vec in (True, False):
                def nd(w):
                    args = [w.given(f"ax{k}", (s,)) for k, s in enumerate(sh)]
                    a = [w.I.new('list', tuple(args))] if aslist else args
                    v = w.f('ndgrid', *a, mod=UT, vector=vec)
                    if n == 1:
                        return eq(w.vals(v), [ir.sym('ax0', (i,)) for i in range(sh[0])])
                    import itertools
                    pts = [tuple(reversed(ix)) for ix in itertools.product(*[range(s) for s in reversed(sh)])]   # first index fastest
                    if vec:
                        g = w.w.arr(v)
                        tot = len(pts)
                        if tuple(g.shape) != (tot, n):
                            return [(ir.const(0), ir.const(1))]
                        return [(g.at((j, k)), ir.sym(f"ax{k}", (p[k],))) for j, p in enumerate(pts) for k in range(n)]
                    out = []
                    for k, q in enumerate(v):
                        g = w.w.arr(q)
                        flat = [g.at(tuple(ix)) for ix in itertools.product(*[range(s) for s in g.shape])]
                        if sorted(g.shape) != sorted(sh):
                            return [(ir.const(0), ir.const(1))]
                        # axes in the order of numpy broadcasting: last coordinate last
                        for ix in itertools.product(*[range(s) for s in sh]):
                            out.append((g.at(ix), ir.sym(f"ax{k}", (ix[k],))))
                    return out
                chk(ck, R, f"ndgrid of {n} {'listed ' if aslist else ''}axes, vector={vec}: first coordinate varies fastest", nd)
    for nd_ in (1, 2, 3):
        def mk(w):
            a = w.given('a', (2, 3))
            g = w.w.arr(w.f('mkvc', a, nd_, mod=UT))
            if tuple(g.shape) != (6,) + (1,) * (nd_ - 1):
                return [(ir.const(0), ir.const(1))]
            return [(g.at((j,) + (0,) * (nd_ - 1)), ir.sym('a', (j % 2, j // 2))) for j in range(6)]
        chk(ck, R, f"mkvc to {nd_} dimensions: column-major", mk)

    def dim(w):
        out = []
        for d in (2, 3):
            a = w.given('a', ('N', d))
            out += eq(w.vals(w.f('check_xyz_dim', a, d, mod=UT)), w.vals(a))
            parts = tuple(w.I.arr(Arr(('N',), lambda idx, k=k: ir.sym('a', idx + (k,)), 'f')) for k in range(d))
            out += eq(w.vals(w.f('check_xyz_dim', parts, d, mod=UT)), w.vals(a))
        return out
    chk(ck, R, "check_xyz_dim returns the points, from an array or a tuple of coordinates", dim)
    for shp, d in ((('N', 2), 3), (('N', 4), 3), (('N', 3), 2), ((2,), 3)):
        def rej():
            w = WS()
            a = w.given('a', shp)
            try:
                w.f('check_xyz_dim', a, d, mod=UT)
            except AbsRaise:
                return ck.ok(R, f"check_xyz_dim rejects {show_shape(shp)} for dim={d}")
            ck.bad(R, f"check_xyz_dim rejects {show_shape(shp)} for dim={d}", 'accepted')
        ck.obligation(R, f"check_xyz_dim rejects {show_shape(shp)} for dim={d}", rej)
    for n in (0, 1, 2, 3):
        def app(w):
            g = w.w.arr(w.f('append_ndim', w.given('a', ('N',)), n, mod=UT))
            if tuple(g.shape) != ('N',) + (1,) * n:
                return [(ir.const(0), ir.const(1))]
            return eq(list(g.generic().values()), [ir.sym('a', (I0,))])
        chk(ck, R, f"append_ndim by {n}", app)
