"""C21: sources agree wherever their physics coincides."""
from fractions import Fraction as F
from . import ir, spec, diff
from .arr import Arr
from .expr import E, V
from .p_field import rng, eq, sc, minus, zero, REGIONS
from .p_struct import W as W0, check, add2, sub2, reindex, S, FD, TD, GV

R = 'agreement'
I1 = ('i', 'i0')


class W(W0):
    def num(self, node, kind='f'):
        n = node.n if isinstance(node, E) else node
        return self.I.arr(Arr((), lambda idx: n, kind, wk=True))

    def at(self, name, nodes):
        """One observation point with the given coordinates."""
        return self.v3(name, [x.n if isinstance(x, E) else x for x in nodes])

    def kw(self, sid, var=None):
        return self.w.ctor_args(spec.BYID[sid], var)


def chk(ck, name, mk, fixed=None, **k):
    check(ck, R, name, mk, fixed, world=W, **k)


def s3(name):
    return [ir.sym(name, (k,)) for k in range(3)]


def x3():
    return [ir.sym('xyz', (I1, k)) for k in range(3)]


def along(nodes, o):
    """(o . grad) of a vector or scalar field of the observation point."""
    g = [diff.diff(nodes, diff.wrt('xyz', k)) for k in range(3)]
    return [dotn([g[k][j] for k in range(3)], o) for j in range(len(nodes))]


def dotn(a, b):
    r = ir.const(0)
    for p, q in zip(a, b):
        r = ir.add(r, ir.mul(p, q))
    return r


def unit(o):
    n = V(*[E(k) for k in o]).norm().n
    return [ir.div(k, n) for k in o]


def sh(*a):
    r = ir.const(1)
    for k in a:
        r = ir.mul(r, ir.sym(k) if isinstance(k, str) else k)
    return r


def run(ck):
    gravity(ck)
    static(ck)
    direct_current(ck)
    spheres(ck)
    frequency(ck)
    reciprocity(ck)
    half_space(ck)
    functions(ck)


# ------------------------------------------------------------------ gravity and magnetic prism
def gravity(ck):
    for m in spec.BYID[GV + 'Sphere'].methods:
        def ball(w):
            kw = w.kw(GV + 'Sphere')
            o = w.make(GV + 'Sphere', dict(kw))
            x = w.w.points()
            vol = E(ir.sym('radius')) ** 3 * E(ir.sym('pi')) * F(4, 3)
            p = w.make(GV + 'PointMass', dict(mass=w.num(vol * E(ir.sym('rho'))), location=kw['location']))
            return eq(w.run(o, m, x)[0], w.run(p, m, x)[0])
        chk(ck, f"gravity.Sphere.{m} outside = gravity.PointMass of its mass", ball, REGIONS['Sphere']['outside'])

    k = lambda: ir.div(ir.const(1), sh(ir.const(4), 'pi', 'G', 'rho'))
    for rg, fx in REGIONS['MagneticPrism'].items():
        def both(w):
            kw = w.kw(S + 'MagneticPrism')
            m = w.make(S + 'MagneticPrism', dict(kw))
            g = w.make(GV + 'Prism', dict(min_location=kw['min_location'], max_location=kw['max_location'], rho=w.w.scalar('rho')))
            return m, g, w.w.points()
        M = lambda: s3('magnetization')
        if rg == 'anywhere':
            continue

        def pot(w):
            m, g, x = both(w)
            return eq(w.run(m, 'scalar_potential', x)[0], [ir.mul(k(), dotn(w.run(g, 'gravitational_field', x)[0], M()))])
        chk(ck, f"static.MagneticPrism.scalar_potential {rg} = Poisson's relation with gravity.Prism", pot, fx)

        def fld(w):
            m, g, x = both(w)
            t = w.run(g, 'gravitational_gradient', x)[0]
            return eq(w.run(m, 'magnetic_field', x)[0], [ir.mul(k(), dotn(t[3 * i:3 * i + 3], M())) for i in range(3)])
        chk(ck, f"static.MagneticPrism.magnetic_field {rg} = Poisson's relation with gravity.Prism", fld, fx)


# ------------------------------------------------------------------ static sources
def static(ck):
    for m in ('magnetic_field', 'magnetic_flux_density'):
        def pole(w):
            kw = w.kw(S + 'MagneticDipoleWholeSpace')
            x = w.w.points()
            d = w.run(w.make(S + 'MagneticDipoleWholeSpace', dict(kw)), m, x)[0]
            p = w.run(w.make(S + 'MagneticPoleWholeSpace', dict(kw)), m, x)[0]
            return eq(d, minus(along(p, unit(s3('orientation')))))
        chk(ck, f"static.MagneticDipoleWholeSpace.{m} = derivative of the pole along the dipole", pole)

    def rec(w):
        kw = w.kw(S + 'MagneticDipoleWholeSpace')
        a = w.run(w.make(S + 'MagneticDipoleWholeSpace', dict(kw)), 'magnetic_field', w.at('other', s3('other')))[0]
        b = w.run(w.make(S + 'MagneticDipoleWholeSpace', dict(kw, location=w.at('other', s3('other')), orientation=w.at('turned', s3('turned')))),
                  'magnetic_field', w.at('place', s3('location')))[0]
        return [(dotn(a, unit(s3('turned'))), dotn(b, unit(s3('orientation'))))]
    chk(ck, "static.MagneticDipoleWholeSpace.magnetic_field: reciprocity", rec)

    def axis(w):
        # the loop seen on its axis: I a^2 / 2 (a^2 + z^2)^(3/2)
        kw = w.kw(S + 'CircularLoopWholeSpace')
        o = w.make(S + 'CircularLoopWholeSpace', dict(kw, orientation='Z'))
        z = [E(c) for c in s3('location')]
        h = w.run(o, 'magnetic_field', w.at('axis', [z[0], z[1], z[2] + E(ir.sym('height'))]))[0]
        a, q = E(ir.sym('radius')), E(ir.sym('height'))
        return eq(h, [ir.const(0), ir.const(0), (E(ir.sym('current')) * a * a / 2 / (a * a + q * q) ** F(3, 2)).n])
    chk(ck, "static.CircularLoopWholeSpace.magnetic_field on its axis", axis, modes=('plain',))


def direct_current(ck):
    SIG = lambda: ir.div(ir.const(1), ir.sym('sigma'))
    for m, p in (('scalar_potential', 'potential'), ('electric_field', 'electric_field'), ('current_density', 'current_density')):
        for n in (2, 3):
            def ends(w):
                kw = w.kw(S + 'LineCurrentWholeSpace', {'*nodes': n})
                x = w.w.points()
                t = w.run(w.make(S + 'LineCurrentWholeSpace', dict(kw)), m, x)[0]
                e = [w.run(w.make(S + 'PointCurrentWholeSpace', dict(rho=w.num(SIG()), current=kw['current'],
                                                                    location=w.v3('end', [ir.sym('nodes', (i, k)) for k in range(3)]))), p, x)[0]
                     for i in (0, n - 1)]
                return eq(t, sub2(e[1], e[0]))
            chk(ck, f"static.LineCurrentWholeSpace.{m} of {n} nodes = electrodes at its ends", ends)
    for m in ('potential', 'electric_field', 'current_density'):
        def surface(w):
            kw = w.kw(S + 'PointCurrentHalfSpace')
            loc = w.v3('on top', [ir.sym('location', (0,)), ir.sym('location', (1,)), ir.const(0)])
            w.w.signs['xyz', 2] = '-'
            x = w.w.points()
            h = w.run(w.make(S + 'PointCurrentHalfSpace', dict(kw, location=loc)), m, x)[0]
            f = w.run(w.make(S + 'PointCurrentWholeSpace', dict(kw, location=loc)), m, x)[0]
            return eq(h, sc(ir.const(2), f))
        chk(ck, f"static.PointCurrentHalfSpace.{m} of an electrode on the surface = twice the whole space", surface)
    for sid in (S + 'PointCurrentWholeSpace', S + 'PointCurrentHalfSpace'):
        def swap(w):
            kw = w.kw(sid)
            if 'Half' in sid:
                w.w.signs['other', 2] = '-'
            a = w.run(w.make(sid, dict(kw)), 'potential', w.at('other', s3('other')))[0]
            b = w.run(w.make(sid, dict(kw, location=w.at('other', s3('other')))), 'potential', w.at('place', s3('location')))[0]
            return eq(a, b)
        chk(ck, f"{sid}.potential: electrode and receiver interchanged", swap)

    def four(w):
        sid = S + 'DipoleHalfSpace'
        kw = w.kw(sid)
        for q in ('m', 'n'):
            w.w.signs[q, 2] = '-'
        A, B, M, N = (lambda q=q: w.at(q, s3(q)) for q in ('location_a', 'location_b', 'm', 'n'))
        a = w.run(w.make(sid, dict(kw)), 'potential', M(), N())[0]
        b = w.run(w.make(sid, dict(kw, location_a=M(), location_b=N())), 'potential', A(), B())[0]
        return eq(a, b)
    chk(ck, "static.DipoleHalfSpace.potential: current and potential electrodes interchanged", four)


# ------------------------------------------------------------------ spheres
def spheres(ck):
    es, ms = S + 'ElectrostaticSphere', S + 'MagnetostaticSphere'
    pairs = (('potential', 'potential'), ('electric_field', 'magnetic_field'), ('current_density', 'magnetic_flux_density'))
    for rg, fx in REGIONS['ElectrostaticSphere'].items():
        for f in ('total', 'primary', 'secondary'):
            for a, b in pairs:
                def dual(w):
                    kw = w.kw(es)
                    x = w.w.points()
                    e = w.run(w.make(es, dict(kw)), a, x, field=f)[0]
                    k2 = dict(kw, mu_sphere=kw['sigma_sphere'], mu_background=kw['sigma_background'])
                    for q in ('sigma_sphere', 'sigma_background'):
                        k2.pop(q)
                    return eq(e, w.run(w.make(ms, k2), b, x, field=f)[0])
                chk(ck, f"{es}.{a} ({f}) {rg} and {ms}.{b} are the same function", dual, fx)
        for sid, in_, bg, ms_ in ((es, 'sigma_sphere', 'sigma_background', ('potential', 'electric_field', 'current_density')),
                                  (ms, 'mu_sphere', 'mu_background', ('potential', 'magnetic_field', 'magnetic_flux_density'))):
            for m in ms_:
                def none(w):
                    kw = w.kw(sid)
                    o = w.make(sid, dict(kw, **{in_: kw[bg]}))
                    x = w.w.points()
                    return zero(w.run(o, m, x, field='secondary')[0]) + eq(w.run(o, m, x, field='total')[0], w.run(o, m, x, field='primary')[0])
                chk(ck, f"{sid}.{m} {rg}: no contrast, no response", none, fx)
    fx = REGIONS['MagnetostaticSphere']['outside']
    for m in ('magnetic_field', 'magnetic_flux_density'):
        def dip(w):
            kw = w.kw(ms)
            x = w.w.points()
            s = w.run(w.make(ms, dict(kw)), m, x, field='secondary')[0]
            mi, mb, a = E(ir.sym('mu_sphere')), E(ir.sym('mu_background')), E(ir.sym('radius'))
            mom = E(ir.sym('pi')) * 4 * a ** 3 * (mi - mb) / (mi + mb * 2) * V(*[E(q) for q in s3('primary_field')]).norm()
            d = w.make(S + 'MagneticDipoleWholeSpace', dict(mu=w.num(mb), location=kw['location'], orientation=kw['primary_field'], moment=w.num(mom)))
            return eq(s, w.run(d, m, x)[0])
        chk(ck, f"{ms}.{m} (secondary) outside = induced magnetic dipole", dip, fx)


# ------------------------------------------------------------------ frequency domain
WS = {FD + 'ElectricDipoleWholeSpace': ('vector_potential', 'electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density'),
      FD + 'MagneticDipoleWholeSpace': ('vector_potential', 'electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density'),
      FD + 'HarmonicPlaneWave': ('electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density'),
      FD + 'MagneticDipoleHalfSpace': ('magnetic_field',)}


def frequency(ck):
    for sid, ms in WS.items():
        for m in ms:
            for a in (None, 'array'):
                def qs(w):
                    kw = w.kw(sid, {'*freq': a})
                    x = w.w.points('xy', dim=2) if sid.endswith('HalfSpace') else w.w.points()
                    q = w.run(w.make(sid, dict(kw, quasistatic=True)), m, x)[0]
                    kw = dict(kw, epsilon=w.num(ir.const(0)))
                    return eq(q, w.run(w.make(sid, dict(kw, quasistatic=False)), m, x)[0])
                chk(ck, f"{sid}.{m} [{a or 'scalar'} frequency]: quasistatic = no displacement current", qs)
    for fid in ('wavenumber', 'skin_depth', 'sigma_hat'):
        def qf(w):
            kw = {n: w.w.value(n, p) for n, p in spec.BYFN[FD + fid].params.items()}
            return eq(w.fn(FD + fid, **kw, quasistatic=True), w.fn(FD + fid, **dict(kw, epsilon=w.num(ir.const(0))), quasistatic=False))
        if fid != 'skin_depth':
            chk(ck, f"fdem.{fid}: quasistatic = no displacement current", qf)
    # zero frequency
    for q in (True, False):
        for m in ('magnetic_field', 'magnetic_flux_density'):
            def dc(w):
                kw = w.kw(FD + 'MagneticDipoleWholeSpace')
                x = w.w.points()
                f = w.run(w.make(FD + 'MagneticDipoleWholeSpace', dict(kw, frequency=w.num(ir.const(0)), quasistatic=q)), m, x)[0]
                s = w.make(S + 'MagneticDipoleWholeSpace', {k: v for k, v in kw.items() if k != 'frequency'})
                return eq(f, w.run(s, m, x)[0])
            chk(ck, f"fdem.MagneticDipoleWholeSpace.{m} [quasistatic={q}] at zero frequency = static dipole", dc)

        for m in ('electric_field', 'current_density'):
            def none(w):
                kw = w.kw(FD + 'MagneticDipoleWholeSpace')
                return zero(w.run(w.make(FD + 'MagneticDipoleWholeSpace', dict(kw, frequency=w.num(ir.const(0)), quasistatic=q)), m, w.w.points())[0])
            chk(ck, f"fdem.MagneticDipoleWholeSpace.{m} [quasistatic={q}] at zero frequency = 0", none)

            def electrodes(w):
                kw = w.kw(FD + 'ElectricDipoleWholeSpace')
                x = w.w.points()
                f = w.run(w.make(FD + 'ElectricDipoleWholeSpace', dict(kw, frequency=w.num(ir.const(0)), quasistatic=q)), m, x)[0]
                p = w.make(S + 'PointCurrentWholeSpace', dict(rho=w.num(ir.div(ir.const(1), ir.sym('sigma'))), current=kw['current'], location=kw['location']))
                return eq(f, sc(ir.neg(ir.sym('length')), along(w.run(p, m, x)[0], unit(s3('orientation')))))
            chk(ck, f"fdem.ElectricDipoleWholeSpace.{m} [quasistatic={q}] at zero frequency = derivative of a point electrode", electrodes)

        for m in ('magnetic_field', 'magnetic_flux_density'):
            def biot(w):
                kw = w.kw(FD + 'ElectricDipoleWholeSpace')
                f = w.run(w.make(FD + 'ElectricDipoleWholeSpace', dict(kw, frequency=w.num(ir.const(0)), quasistatic=q)), m, w.w.points())[0]
                d = V(*[E(a) - E(b) for a, b in zip(x3(), s3('location'))])
                o = V(*[E(k) for k in unit(s3('orientation'))])
                c = E(ir.sym('current')) * E(ir.sym('length')) / (E(ir.sym('pi')) * 4) / d.norm() ** 3
                if 'flux' in m:
                    c = c * E(ir.sym('mu'))
                return eq(f, [(c * E(n)).n for n in o.cross(d).nodes()])
            chk(ck, f"fdem.ElectricDipoleWholeSpace.{m} [quasistatic={q}] at zero frequency = Biot-Savart", biot)


# ------------------------------------------------------------------ reciprocity
def reciprocity(ck):
    def other(w, sid, kw, name):
        return w.make(sid, dict(kw, location=w.at('other', s3('other')), orientation=w.at('turned', s3('turned'))))
    for q in (True, False):
        for sid, m in ((FD + 'MagneticDipoleWholeSpace', 'magnetic_field'), (FD + 'ElectricDipoleWholeSpace', 'electric_field')):
            def rec(w):
                kw = w.kw(sid, {'quasistatic': q})
                a = w.run(w.make(sid, dict(kw)), m, w.at('other', s3('other')))[0]
                b = w.run(other(w, sid, kw, m), m, w.at('place', s3('location')))[0]
                return [(dotn(a, unit(s3('turned'))), dotn(b, unit(s3('orientation'))))]
            chk(ck, f"{sid}.{m} [quasistatic={q}]: source and receiver interchanged", rec)

        def cross(w):
            e, h = FD + 'ElectricDipoleWholeSpace', FD + 'MagneticDipoleWholeSpace'
            kw = w.kw(e, {'quasistatic': q})
            k2 = {k: v for k, v in kw.items() if k not in ('current', 'length')}
            k2['moment'] = w.w.scalar('moment')
            a = w.run(w.make(e, dict(kw)), 'magnetic_field', w.at('other', s3('other')))[0]
            b = w.run(other(w, h, k2, h), 'electric_field', w.at('place', s3('location')))[0]
            iwm = sh(ir.const(ir.GQ(0, 1)), ir.const(2), 'pi', 'frequency', 'mu', 'moment')
            return [(ir.neg(ir.mul(iwm, dotn(a, unit(s3('turned'))))), sh('current', 'length', dotn(b, unit(s3('orientation')))))]
        chk(ck, f"fdem.ElectricDipoleWholeSpace.magnetic_field and fdem.MagneticDipoleWholeSpace.electric_field [quasistatic={q}]: reciprocal", cross)

    def tdem(w):
        sid = TD + 'ElectricDipoleWholeSpace'
        kw = w.kw(sid)
        a = w.run(w.make(sid, dict(kw)), 'electric_field', w.at('other', s3('other')))[0]
        b = w.run(other(w, sid, kw, ''), 'electric_field', w.at('place', s3('location')))[0]
        return [(dotn(a, unit(s3('turned'))), dotn(b, unit(s3('orientation'))))]
    chk(ck, "tdem.ElectricDipoleWholeSpace.electric_field: source and receiver interchanged", tdem)


# ------------------------------------------------------------------ half-spaces
def half_space(ck):
    sid = FD + 'MagneticDipoleLayeredHalfSpace'
    for q in (True, False):
        for n in (1, 2):
            for f in ('secondary', 'total'):
                def uniform(w):
                    kw = w.kw(sid, {'*thick': n, '*layer': 0, 'quasistatic': q})
                    w.w.signs['xyz', 2] = '+'
                    x = w.w.points()
                    pick = lambda name, k: w.arr(name, lambda idx: ir.sym(name, (0,)), (k,))
                    one = dict(kw, thickness=w.arr('none', lambda idx: ir.const(0), (0,)))
                    a = w.run(w.make(sid, one), 'magnetic_field', x, field=f)[0]
                    many = dict(kw, **{p: pick(p, n + 1) for p in ('sigma', 'mu', 'epsilon')})
                    return eq(w.run(w.make(sid, many), 'magnetic_field', x, field=f)[0], a)
                chk(ck, f"{sid}.magnetic_field ({f}) [{n + 1} equal layers, quasistatic={q}] = half-space", uniform)

        def refine(w):
            kw = w.kw(sid, {'*thick': 1, '*layer': 1, 'quasistatic': q})
            w.w.signs['xyz', 2] = '+'
            x = w.w.points()
            a = w.run(w.make(sid, dict(kw)), 'magnetic_field', x)[0]
            t = ir.sym('thickness', (0,))
            parts = [ir.mul(t, ir.const(F(2, 7))), ir.mul(t, ir.const(F(5, 7)))]
            cut = dict(kw, thickness=w.arr('parts', lambda idx: parts[idx[0]], (2,)),
                       **{p: w.arr(p, lambda idx, p=p: ir.sym(p, (max(idx[0] - 1, 0),)), (3,)) for p in ('sigma', 'mu', 'epsilon')})
            return eq(w.run(w.make(sid, cut), 'magnetic_field', x)[0], a)
        chk(ck, f"{sid}.magnetic_field [quasistatic={q}]: a layer cut in two", refine)


# ------------------------------------------------------------------ functions and classes
def functions(ck):
    cls = TD + 'VerticalMagneticDipoleHalfSpace'
    for m, f in (('magnetic_field', 'magnetic_field_vertical_magnetic_dipole'), ('magnetic_field_time_derivative', 'magnetic_field_time_deriv_magnetic_dipole'),
                 ('magnetic_flux_density', 'magnetic_flux_vertical_magnetic_dipole'), ('magnetic_flux_time_derivative', 'magnetic_flux_time_deriv_magnetic_dipole')):
        for a in (None, 'array'):
            def same(w):
                kw = w.kw(cls, {'*time': a})
                o = w.make(cls, dict(kw))
                x = w.w.points('xy', dim=2)
                d = w.arr('offset', lambda idx: ir.sub(ir.sym('xy', idx), ir.sym('location', (idx[-1],))), ('N', 2))
                return eq(w.run(o, m, x)[0], w.fn(TD + f, t=kw['time'], xy=d, sigma=kw['sigma'], mu=kw['mu'], moment=kw['moment']))
            chk(ck, f"{cls}.{m} [{a or 'scalar'} time] = tdem.{f}", same)
    # Ward and Hohmann's formulas
    TR = 'tdreference.'
    for f, hz, hp in (('magnetic_field_vertical_magnetic_dipole', 'hz_from_vert_4_69a', 'hp_from_vert_4_72'),
                      ('magnetic_field_time_deriv_magnetic_dipole', 'dhz_from_vert_4_70', 'dhp_from_vert_4_74')):
        def wh(w):
            kw = {n: w.w.value(n, p) for n, p in spec.BYFN[TD + f].params.items() if n != 'xy'}
            xy = [E(ir.sym('x')), E(ir.sym('y'))]
            h = w.fn(TD + f, **kw, xy=w.arr('xy', lambda idx: xy[idx[0]].n, (2,)))
            rho = (xy[0] * xy[0] + xy[1] * xy[1]) ** F(1, 2)
            th = w.fn(TD + 'theta', time=kw['t'], sigma=kw['sigma'], mu=kw['mu'])[0]
            ex = dict(sigma=kw['sigma'], mu=kw['mu']) if hz.startswith('d') else {}
            z = w.fn(TR + hz, m=kw['moment'], theta=w.num(th), rho=w.num(rho), **ex)[0]
            ex = dict(t=kw['t']) if hp.startswith('d') else {}
            r = w.fn(TR + hp, m=kw['moment'], theta=w.num(th), rho=w.num(rho), **ex)[0]
            # the formulas are for z downwards; the derivatives for current switched on
            if f != 'magnetic_field_vertical_magnetic_dipole':
                z = ir.neg(z)
            return eq(h, [(E(ir.neg(r)) * xy[0] / rho).n, (E(ir.neg(r)) * xy[1] / rho).n, z])
        chk(ck, f"tdem.{f} = Ward and Hohmann's {hz} and {hp}", wh)
    # class properties and module functions
    for sid, prop, f in ((FD + 'ElectricDipoleWholeSpace', 'omega', 'omega'), (FD + 'ElectricDipoleWholeSpace', 'sigma_hat', 'sigma_hat'),
                         (FD + 'ElectricDipoleWholeSpace', 'wavenumber', 'wavenumber'), (FD + 'ElectricDipoleWholeSpace', 'skin_depth', 'skin_depth'),
                         (TD + 'ElectricDipoleWholeSpace', 'theta', 'theta'), (TD + 'ElectricDipoleWholeSpace', 'diffusion_distance', 'diffusion_distance')):
        fid = sid.split('.')[0] + '.' + f
        F_ = spec.BYFN[fid]
        for a in (None, 'array'):
            for q in ((True, False) if 'quasistatic' in F_.flags else (None,)):
                def prp(w):
                    kw = w.kw(sid, {'*freq': a, '*time': a, **({} if q is None else {'quasistatic': q})})
                    o = w.make(sid, dict(kw))
                    v = list(w.w.arr(w.w.prop(o, prop)).generic().values())
                    return eq(v, w.fn(fid, **{n: kw[n] for n in F_.params}, **({} if q is None else {'quasistatic': q})))
                chk(ck, f"{sid}.{prop} [{a or 'scalar'}{'' if q is None else f', quasistatic={q}'}] = {fid}", prp)

    for q in ('field', 'flux'):
        def centre(w):
            fid = f'{FD}vertical_magnetic_{q}_horizontal_loop'
            kw = {n: w.w.value(n, p) for n, p in spec.BYFN[fid].params.items()}
            d = ir.sub(w.fn(fid, **kw, secondary=False)[0], w.fn(fid, **kw, secondary=True)[0])
            c = w.make(S + 'CircularLoopWholeSpace', dict(mu=kw['mu'], radius=kw['radius'], orientation='Z', current=kw['current']))
            h = w.run(c, 'magnetic_field' if q == 'field' else 'magnetic_flux_density', w.at('centre', [ir.const(0)] * 3))[0]
            return [(d, ir.mul(ir.sym('turns'), h[2]))]
        chk(ck, f"fdem.vertical_magnetic_{q}_horizontal_loop: primary part = static.CircularLoopWholeSpace at its centre", centre, modes=('plain',))
