"""C08 decomposition and superposition, C09 interface conditions, C15 consistency between sources."""
from fractions import Fraction as F
from . import ir, gf, scen, spec, diff
from .arr import Arr
from .expr import E, V, sym
from .p_field import regions, rng, eq, sc, minus, zero, REGIONS

S, FD, TD, GV = 'static.', 'fdem.', 'tdem.', 'gravity.'


class W:
    """A world in which several objects are evaluated on the same points."""

    def __init__(self):
        self.w = scen.World()
        self.I = self.w.I

    def arr(self, name, comps, shape, kind='f'):
        """Array argument whose elements are nodes: comps(idx) -> node."""
        return self.I.arr(Arr(shape, comps, kind), owner=('arg', name))

    def v3(self, name, nodes):
        nodes = list(nodes)
        return self.arr(name, lambda idx: nodes[idx[0]], (3,))

    def make(self, sid, kw=None, var=None, drop=(), **over):
        src = spec.BYID[sid]
        a = kw if kw is not None else self.w.ctor_args(src, var)
        for d in drop:
            a.pop(d, None)
        a.update(over)
        return self.w.build(src, kw=a)

    def run(self, obj, m, *args, **opts):
        v = self.w.call(obj, m, *args, **opts)
        vs = v if isinstance(v, tuple) else (v,)
        return [list(self.w.arr(q).generic().values()) for q in vs]

    def fn(self, fid, **kw):
        f = spec.BYFN[fid]
        v = self.I.call(self.w.fn(f), [], kw)
        return list(self.w.arr(v).generic().values())

    @property
    def guards(self):
        return [(c, p) for c, p, _, _ in self.I.guards]


def check(ck, rule, name, mk, fixed=None, modes=('plain', 'mid'), samples=2, cover=gf.COVER, world=None):
    """mk(W) -> pairs (or list of alternatives under 'alts')."""
    def go():
        w = (world or W)()
        pairs = mk(w)
        ck.note(w.w)
        res = gf.decide(pairs, w.w.signs, w.guards, samples=samples, ncell=30, modes=modes if fixed is None else ('plain',),
                        seed=ck.seed, fixed=fixed, cover=cover)
        ck.verdict(rule, name, res, [x for p in (res.idx or ())[:1] for x in ir.where(p)], 'both sides')
    ck.obligation(rule, name, go)


def add2(a, b):
    return [ir.add(x, y) for x, y in zip(a, b)]


def sub2(a, b):
    return [ir.sub(x, y) for x, y in zip(a, b)]


# ------------------------------------------------------------------ C08
DEFAULT_FIELD = {S + 'ElectrostaticSphere': 'all', S + 'MagnetostaticSphere': 'all',
                 FD + 'MagneticDipoleHalfSpace': 'secondary', FD + 'MagneticDipoleLayeredHalfSpace': 'secondary'}


def run_decomposition(ck):
    R = 'decomposition'
    for sid in (S + 'ElectrostaticSphere', S + 'MagnetostaticSphere'):
        src = spec.BYID[sid]
        for m, r in src.methods.items():
            if 'field' not in r.opts:
                continue
            for rg, fx in regions(src).items():
                def parts(w):
                    o = w.make(sid)
                    x = w.w.points()
                    g = lambda f: w.run(o, m, x, field=f)[0]
                    return o, x, g('total'), g('primary'), g('secondary')

                def tot(w):
                    o, x, t, p, s = parts(w)
                    return eq(t, add2(p, s))

                def allf(w):
                    o, x, t, p, s = parts(w)
                    a = w.run(o, m, x, field='all')
                    if len(a) != 3:
                        return [(ir.const(len(a)), ir.const(3))]
                    return eq(a[0], t) + eq(a[1], p) + eq(a[2], s)

                def dflt(w):
                    o, x, t, p, s = parts(w)
                    a = w.run(o, m, x)
                    if len(a) != 3:
                        return [(ir.const(len(a)), ir.const(3))]
                    return eq(a[0], t) + eq(a[1], p) + eq(a[2], s)
                check(ck, R, f"{sid}.{m} {rg}: total = primary + secondary", tot, fx)
                check(ck, R, f"{sid}.{m} {rg}: all = (total, primary, secondary)", allf, fx)
                check(ck, R, f"{sid}.{m} {rg}: default = all", dflt, fx)
    # primary field of dipoles over a half-space is the free-space dipole
    for q in (True, False):
        for a in (None, 'array'):
            var = {'*freq': a, 'quasistatic': q}

            def half(w):
                kw = w.w.ctor_args(spec.BYID[FD + 'MagneticDipoleHalfSpace'], var)
                o = w.make(FD + 'MagneticDipoleHalfSpace', kw)
                xy = w.w.points('xy', ('N',), dim=2)
                t, s = w.run(o, 'magnetic_field', xy, field='total')[0], w.run(o, 'magnetic_field', xy, field='secondary')[0]
                z = w.arr('xyz', lambda idx: ir.sym('xy', idx) if idx[-1] != 2 else ir.const(0), ('N', 3))
                d = w.make(S + 'MagneticDipoleWholeSpace', {k: kw[k] for k in ('location', 'orientation', 'moment')})
                h = w.run(d, 'magnetic_field', z)[0]
                h = reindex(h) if a else h
                return eq(sub2(t, s), h)
            check(ck, R, f"{FD}MagneticDipoleHalfSpace [{a or 'scalar'}, quasistatic={q}]: total - secondary = free-space dipole", half)

            def hdef(w):
                o = w.make(FD + 'MagneticDipoleHalfSpace', var=var)
                xy = w.w.points('xy', ('N',), dim=2)
                return eq(w.run(o, 'magnetic_field', xy)[0], w.run(o, 'magnetic_field', xy, field='secondary')[0])
            check(ck, R, f"{FD}MagneticDipoleHalfSpace [{a or 'scalar'}, quasistatic={q}]: default = secondary", hdef)
        for n in (0, 1, 2, *(k - 1 for k in scen.more_layers())):
            var = {'*thick': n, '*layer': n, 'quasistatic': q}

            def lay(w):
                kw = w.w.ctor_args(spec.BYID[FD + 'MagneticDipoleLayeredHalfSpace'], var)
                o = w.make(FD + 'MagneticDipoleLayeredHalfSpace', kw)
                w.w.signs['xyz', 2] = '+'
                x = w.w.points()
                t, s = w.run(o, 'magnetic_field', x, field='total')[0], w.run(o, 'magnetic_field', x, field='secondary')[0]
                d = w.make(S + 'MagneticDipoleWholeSpace', {k: kw[k] for k in ('location', 'orientation', 'moment')})
                return eq(sub2(t, s), reindex(w.run(d, 'magnetic_field', x)[0]))
            check(ck, R, f"{FD}MagneticDipoleLayeredHalfSpace [{n + 1} layers, quasistatic={q}]: total - secondary = free-space dipole", lay)

            def ldef(w):
                o = w.make(FD + 'MagneticDipoleLayeredHalfSpace', var=var)
                w.w.signs['xyz', 2] = '+'
                x = w.w.points()
                return eq(w.run(o, 'magnetic_field', x)[0], w.run(o, 'magnetic_field', x, field='secondary')[0])
            check(ck, R, f"{FD}MagneticDipoleLayeredHalfSpace [{n + 1} layers, quasistatic={q}]: default = secondary", ldef)
    for fid in (FD + 'vertical_magnetic_field_horizontal_loop', FD + 'vertical_magnetic_flux_horizontal_loop'):
        for a in (None, 'array'):
            def loop(w):
                f = spec.BYFN[fid]
                kw = {n: w.w.value(n, p, 'f', a if p.kind == 'freq' else None) for n, p in f.params.items()}
                t, s = w.fn(fid, **kw, secondary=False), w.fn(fid, **kw, secondary=True)
                d = w.fn(fid, **kw)
                c = w.make(S + 'CircularLoopWholeSpace', dict(mu=kw['mu'], radius=kw['radius'], orientation='Z', current=kw['current']))
                # centre of the loop: the field of the static loop, by its closed form
                h = ir.div(ir.mul(ir.sym('current'), ir.sym('turns')), ir.mul(ir.const(2), ir.sym('radius')))
                if 'flux' in fid:
                    h = ir.mul(h, ir.sym('mu'))
                return eq(sub2(t, s), [h]) + eq(d, s)
            check(ck, R, f"{fid} [{a or 'scalar'}]: total - secondary = static loop; default is secondary", loop)
    # image electrode
    DC = ('potential', 'electric_field', 'current_density')
    for m in DC:
        def image(w):
            kw = w.w.ctor_args(spec.BYID[S + 'PointCurrentHalfSpace'])
            o = w.make(S + 'PointCurrentHalfSpace', dict(kw))
            w.w.signs['xyz', 2] = '-'
            x = w.w.points()
            p = w.make(S + 'PointCurrentWholeSpace', dict(kw))
            loc = w.v3('image', [ir.sym('location', (0,)), ir.sym('location', (1,)), ir.neg(ir.sym('location', (2,)))])
            q = w.make(S + 'PointCurrentWholeSpace', dict(kw, location=loc))
            return eq(w.run(o, m, x)[0], add2(w.run(p, m, x)[0], w.run(q, m, x)[0]))
        check(ck, R, f"{S}PointCurrentHalfSpace.{m}: source plus mirror image", image)

        def ab(w):
            kw = w.w.ctor_args(spec.BYID[S + 'DipoleHalfSpace'])
            o = w.make(S + 'DipoleHalfSpace', dict(kw))
            w.w.signs['xyz', 2] = '-'
            x = w.w.points()
            mk = lambda l: w.make(S + 'PointCurrentHalfSpace', dict(rho=kw['rho'], current=kw['current'], location=kw[l]))
            return eq(w.run(o, m, x)[0], sub2(w.run(mk('location_a'), m, x)[0], w.run(mk('location_b'), m, x)[0]))
        check(ck, R, f"{S}DipoleHalfSpace.{m}: A electrode minus B electrode", ab)

        def mn(w):
            o = w.make(S + 'DipoleHalfSpace')
            w.w.signs['xyz', 2] = '-'
            w.w.signs['xyz_n', 2] = '-'
            x, y = w.w.points(), w.w.points('xyz_n')
            return eq(w.run(o, m, x, y)[0], sub2(w.run(o, m, x)[0], w.run(o, m, y)[0]))
        check(ck, R, f"{S}DipoleHalfSpace.{m}: M minus N", mn)
    # line currents
    LM = ('scalar_potential', 'vector_potential', 'magnetic_field', 'magnetic_flux_density', 'electric_field', 'current_density')
    for m in LM:
        for n in (3, 4, *scen.more_nodes()):
            def segs(w):
                kw = w.w.ctor_args(spec.BYID[S + 'LineCurrentWholeSpace'], {'*nodes': n})
                x = w.w.points()
                t = w.run(w.make(S + 'LineCurrentWholeSpace', dict(kw)), m, x)[0]
                s = [ir.const(0)] * len(t)
                for i in range(n - 1):
                    p = w.arr('nodes', lambda idx, i=i: ir.sym('nodes', (idx[0] + i, idx[1])), (2, 3))
                    s = add2(s, w.run(w.make(S + 'LineCurrentWholeSpace', dict(kw, nodes=p)), m, x)[0])
                return eq(t, s)
            check(ck, R, f"{S}LineCurrentWholeSpace.{m} {n} nodes: sum over its segments", segs)

        def rev(w):
            kw = w.w.ctor_args(spec.BYID[S + 'LineCurrentWholeSpace'])
            x = w.w.points()
            t = w.run(w.make(S + 'LineCurrentWholeSpace', dict(kw)), m, x)[0]
            p = w.arr('nodes', lambda idx: ir.sym('nodes', (2 - idx[0], idx[1])), (3, 3))
            return eq(w.run(w.make(S + 'LineCurrentWholeSpace', dict(kw, nodes=p)), m, x)[0], minus(t))
        check(ck, R, f"{S}LineCurrentWholeSpace.{m}: reversed wire", rev)

        def split(w):
            """A node inserted on a segment changes nothing."""
            kw = w.w.ctor_args(spec.BYID[S + 'LineCurrentWholeSpace'], {'*nodes': 2})
            x = w.w.points()
            t = w.run(w.make(S + 'LineCurrentWholeSpace', dict(kw)), m, x)[0]
            f = F(3, 7)

            def el(idx):
                a, b = ir.sym('nodes', (0, idx[1])), ir.sym('nodes', (1, idx[1]))
                return a if idx[0] == 0 else b if idx[0] == 2 else ir.add(ir.mul(ir.const(1 - f), a), ir.mul(ir.const(f), b))
            return eq(w.run(w.make(S + 'LineCurrentWholeSpace', dict(kw, nodes=w.arr('nodes', el, (3, 3)))), m, x)[0], t)
        check(ck, R, f"{S}LineCurrentWholeSpace.{m}: node inserted on a segment", split)

        def empty(w):
            """A closed loop feeds no current into the ground."""
            kw = w.w.ctor_args(spec.BYID[S + 'LineCurrentWholeSpace'], {'*nodes': 'closed'})
            x = w.w.points()
            return zero(w.run(w.make(S + 'LineCurrentWholeSpace', kw), m, x)[0])
        if m in ('scalar_potential', 'electric_field', 'current_density'):
            check(ck, R, f"{S}LineCurrentWholeSpace.{m}: closed loop has no galvanic field", empty)
    # prisms cut in two
    for sid in (GV + 'Prism', S + 'MagneticPrism'):
        for m in spec.BYID[sid].methods:
            for ax in range(3):
                def cut(w):
                    kw = w.w.ctor_args(spec.BYID[sid])
                    x = w.w.points()
                    t = w.run(w.make(sid, dict(kw)), m, x)[0]
                    w.w.signs['cutw'] = '+'
                    c = ir.add(ir.sym('min_location', (ax,)), ir.sym('cutw'))
                    lo = w.v3('lo', [ir.sym('max_location', (k,)) if k != ax else c for k in range(3)])
                    hi = w.v3('hi', [ir.sym('min_location', (k,)) if k != ax else c for k in range(3)])
                    a = w.run(w.make(sid, dict(kw, max_location=lo)), m, x)[0]
                    b = w.run(w.make(sid, dict(kw, min_location=hi)), m, x)[0]
                    return eq(t, add2(a, b))
                check(ck, R, f"{sid}.{m}: cut in two along {'xyz'[ax]}", cut, dict(
                    min_location=rng(-2, -1), max_location=rng(2, 3), cutw=rng(.5, 2), xyz=lambda r: r.uniform(4, 9) * r.choice((-1, 1))))


def reindex(nodes):
    """Observation index of an array of shape (N, ..) moved behind a leading frequency index."""
    def f(n):
        k = ir.node(n)
        if k[0] == 'sym' and ('i', 'i0') in k[2]:
            return ir.sym(k[1], tuple(('i', 'i1') if q == ('i', 'i0') else q for q in k[2]))
    return ir.substitute(nodes, f)


# ------------------------------------------------------------------ C09
def resolve(nodes, wit):
    """Graph with every gate on the position replaced by the branch taken in the witness's cell."""
    memo = {}
    for n in ir.topo(list(nodes)):
        k = ir.node(n)
        if k[0] == 'gate' and any(ir.op(m) == 'sym' and ir.node(m)[1] == 'xyz' for m in ir.topo([k[1]])):
            memo[n] = memo[k[2] if wit.truth(k[1], {}) else k[3]]
        else:
            kids = ir.children(n)
            memo[n] = ir.rebuild(n, [memo[c] for c in kids]) if kids else n
    return [memo[n] for n in nodes]


def cell(w, nodes, fx, seed=7):
    ws = gf.cells(nodes, w.w.signs, w.guards, 4, ('plain',), None, seed, fx, cover=())
    return ws[0]


def on_surface(nodes):
    """Observation point anywhere on the sphere: radius = distance to the centre."""
    X = [ir.sym('xyz', (('i', 'i0'), k)) for k in range(3)]
    d = V(*[E(ir.sub(x, ir.sym('location', (k,)))) for k, x in enumerate(X)])
    r = d.norm().n

    def f(n):
        k = ir.node(n)
        if k[0] == 'sym' and k[1] == 'radius':
            return r
    return ir.substitute(nodes, f), d


def close(delta):
    """Points at a relative distance delta from the surface (outside if positive)."""
    d = (1.3, -0.7, 2.1)
    fx = {('xyz', (('i', 'i0'), k)): d[k] + c for k, c in enumerate((.4, .9, -.8))}
    fx.update({('location', (k,)): c for k, c in enumerate((.4, .9, -.8))})
    fx['radius'] = sum(x * x for x in d) ** .5 / (1 + delta)
    return fx


def run_interfaces(ck):
    R = 'interface'
    sides = {'': (dict(radius=rng(9, 12)), dict(radius=rng(.01, .03)))}
    for e in (1e-2, 1e-4, 1e-7):
        sides[f" at a distance of {e:g} radii"] = close(-e), close(e)

    for where, (ins, out) in sides.items():
        interfaces(ck, R, ins, out, where)
    for sid in (S + 'PointCurrentHalfSpace', S + 'DipoleHalfSpace'):
        for m in ('electric_field', 'current_density'):
            def surf(w):
                x = w.arr('xyz', lambda idx: ir.sym('xyz', idx) if idx[-1] != 2 else ir.const(0), ('N', 3))
                return [(w.run(w.make(sid), m, x)[0][2], ir.const(0))]
            check(ck, R, f"{sid}.{m}: no flow through the surface z = 0", surf)


def interfaces(ck, R, ins, out, where):
    def check(ck, rule, name, mk):
        return globals()['check'](ck, rule, name + where, mk)

    def both(w, sid, m, **o):
        ob = w.make(sid)
        n = w.run(ob, m, w.w.points(), **o)[0]
        a, b = resolve(n, cell(w, n, ins)), resolve(n, cell(w, n, out))
        (a, d), (b, _) = on_surface(a), on_surface(b)
        return a, b, d

    def dotn(v, d):
        return V(*[E(x) for x in v]).dot(d).n
    for sid, pot, e, j in ((S + 'ElectrostaticSphere', 'potential', 'electric_field', 'current_density'),
                           (S + 'MagnetostaticSphere', 'potential', 'magnetic_field', 'magnetic_flux_density')):
        for f in ('total', 'primary', 'secondary'):
            check(ck, R, f"{sid}.{pot} ({f}): continuous across the surface", lambda w: eq(*both(w, sid, pot, field=f)[:2]))

            def tang(w):
                a, b, d = both(w, sid, e, field=f)
                x = V(*[E(i) for i in sub2(a, b)]).cross(d)
                return zero(x.nodes())
            check(ck, R, f"{sid}.{e} ({f}): tangential component continuous", tang)

            def norm(w):
                a, b, d = both(w, sid, j, field=f)
                return [(dotn(a, d), dotn(b, d))]
            check(ck, R, f"{sid}.{j} ({f}): normal component continuous", norm)

    def charge(w):
        a, b, d = both(w, S + 'ElectrostaticSphere', 'electric_field', field='total')
        ob = w.make(S + 'ElectrostaticSphere')
        n = w.run(ob, 'charge_density', w.w.points())[0]
        q = resolve(n, cell(w, n, dict(radius=rng(2, 2.001), xyz=lambda r: 1.1547, location=rng(0, .0001))))
        (q, _) = on_surface(q)
        jump = ir.sub(dotn(b, d), dotn(a, d))
        return [(q[0], ir.mul(ir.sym('epsilon_0'), ir.div(jump, d.norm().n)))]
    check(ck, R, f"{S}ElectrostaticSphere.charge_density: epsilon_0 times the jump of the normal electric field", charge)
    for m in ('gravitational_potential', 'gravitational_field'):
        check(ck, R, f"{GV}Sphere.{m}: continuous across the surface", lambda w: eq(*both(w, GV + 'Sphere', m)[:2]))
