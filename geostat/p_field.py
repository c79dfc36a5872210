"""C05 field equations, C06 potentials and derivatives, C07 constitutive relations, C10 gradient tensors."""
import functools
from fractions import Fraction as F
from . import ir, gf, scen, spec, diff

add, sub, mul, neg, div = ir.add, ir.sub, ir.mul, ir.neg, ir.div
S, FD, TD, GV = 'static.', 'fdem.', 'tdem.', 'gravity.'


def Z(v=0):
    return ir.const(v)


def I():
    return ir.const(ir.GQ(0, 1))


def rng(lo, hi):
    return lambda r: r.uniform(lo, hi)


def outside_prism():
    return dict(min_location=rng(-2, -.4), max_location=rng(.4, 2), xyz=lambda r: r.choice((-1, 1)) * r.uniform(2.5, 5))


def point(roots, name='xyz'):
    """Coordinates of the observation point of the graph below roots."""
    ix = {ir.node(n)[2][:-1] for n in ir.topo(list(roots)) if ir.node(n)[0] == 'sym' and ir.node(n)[1] == name}
    return [[ir.sym(name, i + (k,)) for k in range(3)] for i in sorted(ix, key=repr)]


def ball(inside):
    def where(roots):
        out = []
        for p in point(roots):
            r2 = ir.const(0)
            for k in range(3):
                d = sub(p[k], ir.sym('location', (k,)))
                r2 = add(r2, mul(d, d))
            out.append(ir.cmp('<' if inside else '>', r2, mul(ir.sym('radius'), ir.sym('radius'))))
        return out
    return where


def box(inside):
    def where(roots):
        cs = [ir.cmp('<', ir.sym('min_location', (k,)), ir.sym('max_location', (k,))) for k in range(3)]
        for p in point(roots):
            o = '<' if inside else '<='
            c = [ir.cmp(o, ir.sym('min_location', (k,)), p[k]) for k in range(3)]
            c += [ir.cmp(o, p[k], ir.sym('max_location', (k,))) for k in range(3)]
            cs += c if inside else [ir.not_(functools.reduce(ir.and_, c))]
        return cs
    return where


def sphere():
    return {'inside': gf.Region(dict(radius=rng(9, 12)), ball(True)), 'outside': gf.Region(dict(radius=rng(.01, .03)), ball(False))}


def prism():
    return {'inside': gf.Region(dict(min_location=rng(-9, -3), max_location=rng(3, 9)), box(True)),
            'outside': gf.Region(outside_prism(), box(False)), 'anywhere': None}


REGIONS = {'ElectrostaticSphere': sphere(), 'MagnetostaticSphere': sphere(), 'Sphere': sphere(),
           'Prism': prism(), 'MagneticPrism': prism()}


def regions(src):
    return REGIONS.get(src.cls, {'': None})


class Multi:
    """Several methods of one source evaluated on the same points."""

    def __init__(self, sid, variant=None, opts=None, batch=('N',)):
        self.src = spec.BYID[sid]
        self.variant, self.opts, self.batch = variant or {}, opts or {}, batch
        self.w = None
        self.cache = {}

    def ready(self):
        if self.w is None:
            w = scen.World()
            self.obj = w.build(self.src, self.variant)
            self.w = w

    def __getitem__(self, m):
        if m not in self.cache:
            self.ready()
            o = {k: v for k, v in self.opts.items() if k in self.src.methods[m].opts}
            c = scen.Case(self.src, self.variant, m, o, self.batch, 'f', self.w, self.obj)
            self.cache[m] = [n for j, _, n in c.outs if j == 0]
        return self.cache[m]

    @property
    def guards(self):
        return [(c, p) for c, p, _, _ in self.w.I.guards]

    def input(self, name):
        """Node of a scalar or per-sample input."""
        for m in self.cache.values():
            for n in ir.topo(m):
                k = ir.node(n)
                if k[0] == 'sym' and k[1] == name:
                    return n
        return ir.sym(name)

    def name(self):
        v = ','.join(f"{k.strip('*')}={v}" for k, v in list(self.variant.items()) + list(self.opts.items()) if v is not None)
        return self.src.id + (f" [{v}]" if v else '')


def settle(ck, M, rule, what, mk, region='', fixed=None, samples=2, wide=True, known=None):
    """mk() -> pairs; record the verdict.  known() -> pairs that hold as long as the listed finding is the only deviation."""
    name = M.name() + (f" {region}" if region else '')

    def go():
        M.ready()
        pairs = mk()
        ck.note(M.w)
        res = gf.decide(pairs, M.w.signs, M.guards, samples=samples, ncell=30,
                        modes=('plain',) if region else ('plain', 'mid'), seed=ck.seed, fixed=fixed,
                        main_only=M.src.cls == 'CircularLoopWholeSpace' and rule != 'constitutive',
                        cover=gf.COVER if rule == 'constitutive' else ('wide', 'near', 'far'))
        tag = ''
        if res.status == 'differ' and known is not None:
            q = gf.decide(known(), M.w.signs, M.guards, samples=samples, ncell=30, seed=ck.seed, fixed=fixed)
            tag = '' if q.status == 'equal' else ' (not the listed finding)'
        ck.verdict(rule, f"{name}: {what}{tag}", res, [x for p in (res.idx or ())[:1] for x in ir.where(p)], what + ': both sides')
    ck.obligation(rule, f"{name}: {what}", go)


def settle_const(ck, M, rule, what, mk, region, fixed):
    """mk() -> (node, value): node is constant in space and equals value.

    Sums of arctangents are constant only piecewise: the gradient is decided
    in the field, the constant of each branch cell from the ordering witness."""
    name = M.name() + (f" {region}" if region else '')

    def go():
        M.ready()
        node, val = mk()
        ck.note(M.w)
        d = sub(node, val)
        res = gf.decide([(d, Z())], M.w.signs, M.guards, samples=2, ncell=12, modes=('plain',), seed=ck.seed, fixed=fixed)
        if res.status == 'undecided':
            res = gf.decide(zero(diff.grad(d)), M.w.signs, M.guards, samples=2, ncell=12, modes=('plain',), seed=ck.seed,
                            fixed=fixed, cover=('wide', 'near', 'far'))
            if res.status == 'equal':
                for w in gf.cells([d], M.w.signs, M.guards, 12, ('plain',), None, ck.seed, fixed):
                    if not gf.agrees(w, node, val):
                        res.status = 'differ'
        ck.verdict(rule, f"{name}: {what}", res, ir.where(node), what + ': both sides')
    ck.obligation(rule, f"{name}: {what}", go)


def eq(a, b):
    if len(a) != len(b):
        return [(ir.const(len(a)), ir.const(len(b)))]
    return list(zip(a, b))


def zero(v):
    return [(x, Z()) for x in v]


def sc(c, v):
    return [mul(c, x) for x in v]


def minus(v):
    return [neg(x) for x in v]


def dt(v, name='time'):
    return diff.diff(v, diff.wrt(name))


def sigma_hat(M):
    s = ir.sym('sigma')
    if M.variant.get('quasistatic'):
        return s
    return add(s, mul(I(), mul(omega(M), ir.sym('epsilon'))))


def omega(M):
    return mul(mul(Z(2), ir.sym('pi')), M.input('frequency'))


def fvars(kind):
    for a in (None, 'array'):
        if kind == 'freq':
            for q in (True, False):
                yield {'*freq': a, 'quasistatic': q}
        else:
            yield {'*time': a}


LINEV = [{'*nodes': n} for n in (1, 2, 3, 'closed')]
SPHFIELDS = [{'field': f} for f in ('total', 'primary', 'secondary')]


# ------------------------------------------------------------------ C05
def run_equations(ck):
    R = 'field-equation'
    for sid in (S + 'MagneticDipoleWholeSpace', S + 'MagneticPoleWholeSpace', S + 'CircularLoopWholeSpace'):
        M = Multi(sid)
        B = lambda: M['magnetic_flux_density']
        settle(ck, M, R, 'div B = 0', lambda: zero([diff.div_(B())]))
        settle(ck, M, R, 'curl H = 0', lambda: zero(diff.curl(M['magnetic_field'])))
    for v in LINEV:
        M = Multi(S + 'LineCurrentWholeSpace', v)
        settle(ck, M, R, 'div B = 0', lambda: zero([diff.div_(M['magnetic_flux_density'])]))
        if v['*nodes'] != 1:         # a single node is a point current without its feeding wire
            settle(ck, M, R, 'curl H = J', lambda: eq(diff.curl(M['magnetic_field']), M['current_density']))
        settle(ck, M, R, 'div J = 0', lambda: zero([diff.div_(M['current_density'])]))
    for sid in (S + 'PointCurrentWholeSpace', S + 'PointCurrentHalfSpace', S + 'DipoleHalfSpace'):
        M = Multi(sid)
        settle(ck, M, R, 'div J = 0', lambda: zero([diff.div_(M['current_density'])]))
        settle(ck, M, R, 'curl E = 0', lambda: zero(diff.curl(M['electric_field'])))
    for sid, e, j in ((S + 'ElectrostaticSphere', 'electric_field', 'current_density'),
                      (S + 'MagnetostaticSphere', 'magnetic_field', 'magnetic_flux_density')):
        for o in SPHFIELDS:
            for rg, fx in regions(spec.BYID[sid]).items():
                M = Multi(sid, {}, o)
                settle(ck, M, R, f'div {j} = 0', lambda: zero([diff.div_(M[j])]), rg, fx)
                settle(ck, M, R, f'curl {e} = 0', lambda: zero(diff.curl(M[e])), rg, fx)
    for rg, fx in regions(spec.BYID[S + 'MagneticPrism']).items():
        M = Multi(S + 'MagneticPrism')
        settle(ck, M, R, 'div B = 0', lambda: zero([diff.div_(M['magnetic_flux_density'])]), rg, fx)
        settle(ck, M, R, 'curl H = 0', lambda: zero(diff.curl(M['magnetic_field'])), rg, fx)
    for v in fvars('freq'):
        for cls in ('ElectricDipoleWholeSpace', 'MagneticDipoleWholeSpace', 'HarmonicPlaneWave'):
            M = Multi(FD + cls, v)
            E = lambda: M['electric_field']
            # listed finding: E of the electric dipole is sigma_hat / sigma times what it should be
            settle(ck, M, R, 'curl E = -i omega B',
                   lambda: eq(diff.curl(E()), minus(sc(mul(I(), omega(M)), M['magnetic_flux_density']))),
                   known=lambda: eq(sc(M.input('sigma'), diff.curl(E())),
                                    minus(sc(mul(sigma_hat(M), mul(I(), omega(M))), M['magnetic_flux_density']))))
            settle(ck, M, R, 'curl H = (sigma + i omega eps) E',
                   lambda: eq(diff.curl(M['magnetic_field']), sc(sigma_hat(M), E())),
                   known=lambda: eq(diff.curl(M['magnetic_field']), sc(M.input('sigma'), E())))
            settle(ck, M, R, 'div B = 0', lambda: zero([diff.div_(M['magnetic_flux_density'])]))
            settle(ck, M, R, 'div J = 0', lambda: zero([diff.div_(M['current_density'])]))
    for v in fvars('time'):
        for cls in ('ElectricDipoleWholeSpace', 'TransientPlaneWave'):
            M = Multi(TD + cls, v)
            settle(ck, M, R, 'curl E = -dB/dt', lambda: eq(diff.curl(M['electric_field']), minus(dt(M['magnetic_flux_density']))))
            settle(ck, M, R, 'curl H = J', lambda: eq(diff.curl(M['magnetic_field']), M['current_density']))
            settle(ck, M, R, 'div B = 0', lambda: zero([diff.div_(M['magnetic_flux_density'])]))
            settle(ck, M, R, 'div J = 0', lambda: zero([diff.div_(M['current_density'])]))
    for cls in ('PointMass', 'Sphere', 'Prism'):
        for rg, fx in regions(spec.BYID[GV + cls]).items():
            if rg == 'anywhere':
                continue
            M = Multi(GV + cls)
            g = lambda: M['gravitational_field']
            if rg == 'inside':
                settle_const(ck, M, R, 'div g = -4 pi G rho',
                             lambda: (diff.div_(g()), mul(mul(Z(-4), ir.sym('pi')), mul(ir.sym('G'), ir.sym('rho')))), rg, fx)
            else:
                settle_const(ck, M, R, 'div g = 0', lambda: (diff.div_(g()), Z()), rg, fx)
            settle(ck, M, R, 'curl g = 0', lambda: zero(diff.curl(g())), rg, fx)


# ------------------------------------------------------------------ C06
def run_derivatives(ck):
    R = 'derivative'
    for sid, v in [(S + 'MagneticDipoleWholeSpace', {}), (S + 'CircularLoopWholeSpace', {})] + [(S + 'LineCurrentWholeSpace', v) for v in LINEV]:
        M = Multi(sid, v)
        settle(ck, M, R, 'B = curl A', lambda: eq(M['magnetic_flux_density'], diff.curl(M['vector_potential'])))
    for v in LINEV:
        M = Multi(S + 'LineCurrentWholeSpace', v)
        settle(ck, M, R, 'E = -grad V', lambda: eq(M['electric_field'], minus(diff.grad(M['scalar_potential'][0]))))
    for sid in (S + 'PointCurrentWholeSpace', S + 'PointCurrentHalfSpace', S + 'DipoleHalfSpace'):
        M = Multi(sid)
        settle(ck, M, R, 'E = -grad V', lambda: eq(M['electric_field'], minus(diff.grad(M['potential'][0]))))
    for sid, e in ((S + 'ElectrostaticSphere', 'electric_field'), (S + 'MagnetostaticSphere', 'magnetic_field')):
        for o in SPHFIELDS:
            for rg, fx in regions(spec.BYID[sid]).items():
                M = Multi(sid, {}, o)
                settle(ck, M, R, f'{e} = -grad potential', lambda: eq(M[e], minus(diff.grad(M['potential'][0]))), rg, fx)
    for rg, fx in regions(spec.BYID[S + 'MagneticPrism']).items():
        M = Multi(S + 'MagneticPrism')
        settle(ck, M, R, 'H = grad potential', lambda: eq(M['magnetic_field'], diff.grad(M['scalar_potential'][0])), rg, fx)
        settle(ck, M, R, 'gradient tensor = grad H', lambda: tensor(M['magnetic_field'], M['magnetic_field_gradient']), rg, fx)
    for v in fvars('freq'):
        M = Multi(FD + 'ElectricDipoleWholeSpace', v)
        settle(ck, M, R, 'H = curl A', lambda: eq(M['magnetic_field'], diff.curl(M['vector_potential'])))
        M = Multi(FD + 'MagneticDipoleWholeSpace', v)
        settle(ck, M, R, 'E = -curl F', lambda: eq(M['electric_field'], minus(diff.curl(M['vector_potential']))))
    for v in fvars('time'):
        M = Multi(TD + 'ElectricDipoleWholeSpace', v)
        settle(ck, M, R, 'H = curl A', lambda: eq(M['magnetic_field'], diff.curl(M['vector_potential'])))
        settle(ck, M, R, 'dH/dt', lambda: eq(M['magnetic_field_time_deriv'], dt(M['magnetic_field'])))
        settle(ck, M, R, 'dB/dt', lambda: eq(M['magnetic_flux_density_time_deriv'], dt(M['magnetic_flux_density'])))
        M = Multi(TD + 'VerticalMagneticDipoleHalfSpace', v)
        settle(ck, M, R, 'dH/dt', lambda: eq(M['magnetic_field_time_derivative'], dt(M['magnetic_field'])))
        settle(ck, M, R, 'dB/dt', lambda: eq(M['magnetic_flux_time_derivative'], dt(M['magnetic_flux_density'])))
        for a, b in (('vertical_magnetic_field_horizontal_loop', 'vertical_magnetic_field_time_deriv_horizontal_loop'),
                     ('vertical_magnetic_flux_horizontal_loop', 'vertical_magnetic_flux_time_deriv_horizontal_loop'),
                     ('magnetic_field_vertical_magnetic_dipole', 'magnetic_field_time_deriv_magnetic_dipole'),
                     ('magnetic_flux_vertical_magnetic_dipole', 'magnetic_flux_time_deriv_magnetic_dipole')):
            fpair(ck, R, TD + a, TD + b, v, 't')
    for cls in ('PointMass', 'Sphere', 'Prism'):
        for rg, fx in regions(spec.BYID[GV + cls]).items():
            M = Multi(GV + cls)
            settle(ck, M, R, 'g = grad U', lambda: eq(M['gravitational_field'], diff.grad(M['gravitational_potential'][0])), rg, fx)
            settle(ck, M, R, 'gradient tensor = grad g', lambda: tensor(M['gravitational_field'], M['gravitational_gradient']), rg, fx)


def tensor(vec, T):
    J = diff.jac(vec)
    return [(T[3 * a + b], J[a][b]) for a in range(3) for b in range(3)]


def fpair(ck, rule, fa, fb, v, wrt):
    name = f"{fb} [{'array' if any(v.values()) else 'scalar'}]: d/d{wrt} of {fa}"

    def go():
        c1 = scen.FnCase(spec.BYFN[fa], v, {})
        c2 = scen.FnCase(spec.BYFN[fb], v, {}, world=c1.w)
        ck.note(c2.w)
        res = gf.decide(eq(c2.nodes, dt(c1.nodes, wrt)), c2.w.signs, c2.guards, samples=2, ncell=30, seed=ck.seed,
                        modes=('plain', 'mid'), cover=('wide', 'near', 'far'))
        ck.verdict(rule, name, res, [x for p in (res.idx or ())[:1] for x in ir.where(p)], 'both')
    ck.obligation(rule, name, go)


# ------------------------------------------------------------------ C07
def run_constitutive(ck):
    R = 'constitutive'
    mu = lambda: ir.sym('mu')
    for sid in (S + 'MagneticDipoleWholeSpace', S + 'MagneticPoleWholeSpace', S + 'CircularLoopWholeSpace'):
        for o in ({'coordinates': 'cartesian'}, {'coordinates': 'cylindrical'}):
            M = Multi(sid, {}, o)
            settle(ck, M, R, 'B = mu H', lambda: eq(M['magnetic_flux_density'], sc(mu(), M['magnetic_field'])))
    for v in LINEV:
        M = Multi(S + 'LineCurrentWholeSpace', v)
        settle(ck, M, R, 'B = mu H', lambda: eq(M['magnetic_flux_density'], sc(mu(), M['magnetic_field'])))
        settle(ck, M, R, 'J = sigma E', lambda: eq(M['current_density'], sc(ir.sym('sigma'), M['electric_field'])))
    for sid in (S + 'PointCurrentWholeSpace', S + 'PointCurrentHalfSpace', S + 'DipoleHalfSpace'):
        M = Multi(sid)
        settle(ck, M, R, 'rho J = E', lambda: eq(sc(ir.sym('rho'), M['current_density']), M['electric_field']))
    for o in SPHFIELDS:
        if o['field'] == 'secondary':
            continue
        for rg, fx in regions(spec.BYID[S + 'ElectrostaticSphere']).items():
            M = Multi(S + 'ElectrostaticSphere', {}, o)
            s = 'sigma_background' if rg == 'outside' or o['field'] == 'primary' else 'sigma_sphere'
            settle(ck, M, R, f'J = {s} E', lambda: eq(M['current_density'], sc(ir.sym(s), M['electric_field'])), rg, fx)
            M = Multi(S + 'MagnetostaticSphere', {}, o)
            s = s.replace('sigma', 'mu')
            settle(ck, M, R, f'B = {s} H', lambda: eq(M['magnetic_flux_density'], sc(ir.sym(s), M['magnetic_field'])), rg, fx)
    for rg, fx in regions(spec.BYID[S + 'MagneticPrism']).items():
        if rg == 'anywhere':
            continue
        M = Multi(S + 'MagneticPrism')
        if rg == 'inside':
            settle(ck, M, R, 'B = mu_0 (H + M)', lambda: eq(M['magnetic_flux_density'], [
                mul(ir.sym('mu_0'), add(h, ir.sym('magnetization', (k,)))) for k, h in enumerate(M['magnetic_field'])]), rg, fx)
        else:
            settle(ck, M, R, 'B = mu_0 H', lambda: eq(M['magnetic_flux_density'], sc(ir.sym('mu_0'), M['magnetic_field'])), rg, fx)
    for kind, ids in (('freq', (FD + 'ElectricDipoleWholeSpace', FD + 'MagneticDipoleWholeSpace', FD + 'HarmonicPlaneWave')),
                      ('time', (TD + 'ElectricDipoleWholeSpace', TD + 'TransientPlaneWave'))):
        for v in fvars(kind):
            for sid in ids:
                M = Multi(sid, v)
                settle(ck, M, R, 'J = sigma E', lambda: eq(M['current_density'], sc(ir.sym('sigma'), M['electric_field'])))
                settle(ck, M, R, 'B = mu H', lambda: eq(M['magnetic_flux_density'], sc(mu(), M['magnetic_field'])))
                if sid == TD + 'ElectricDipoleWholeSpace':
                    settle(ck, M, R, 'dB/dt = mu dH/dt', lambda: eq(M['magnetic_flux_density_time_deriv'],
                                                                   sc(mu(), M['magnetic_field_time_deriv'])))
    for v in fvars('time'):
        M = Multi(TD + 'VerticalMagneticDipoleHalfSpace', v)
        settle(ck, M, R, 'B = mu H', lambda: eq(M['magnetic_flux_density'], sc(mu(), M['magnetic_field'])))
        settle(ck, M, R, 'dB/dt = mu dH/dt', lambda: eq(M['magnetic_flux_time_derivative'], sc(mu(), M['magnetic_field_time_derivative'])))
    pairs = [(FD + 'vertical_magnetic_field_horizontal_loop', FD + 'vertical_magnetic_flux_horizontal_loop', 'freq', ({'secondary': True}, {'secondary': False})),
             (TD + 'vertical_magnetic_field_horizontal_loop', TD + 'vertical_magnetic_flux_horizontal_loop', 'time', ({},)),
             (TD + 'vertical_magnetic_field_time_deriv_horizontal_loop', TD + 'vertical_magnetic_flux_time_deriv_horizontal_loop', 'time', ({},)),
             (TD + 'magnetic_field_vertical_magnetic_dipole', TD + 'magnetic_flux_vertical_magnetic_dipole', 'time', ({},)),
             (TD + 'magnetic_field_time_deriv_magnetic_dipole', TD + 'magnetic_flux_time_deriv_magnetic_dipole', 'time', ({},))]
    for fh, fb, kind, fl in pairs:
        for flags in fl:
            for a in (None, 'array'):
                fmu(ck, R, fh, fb, {'*' + kind: a}, flags)


def fmu(ck, rule, fh, fb, v, flags):
    name = f"{fb} {flags} [{'array' if any(v.values()) else 'scalar'}]: B = mu H"

    def go():
        c1 = scen.FnCase(spec.BYFN[fh], v, flags)
        c2 = scen.FnCase(spec.BYFN[fb], v, flags, world=c1.w)
        ck.note(c2.w)
        res = gf.decide(eq(c2.nodes, sc(ir.sym('mu'), c1.nodes)), c2.w.signs, c2.guards, samples=2, ncell=30, seed=ck.seed,
                        modes=('plain', 'mid'), cover=('wide', 'near', 'far'))
        ck.verdict(rule, name, res, [x for p in (res.idx or ())[:1] for x in ir.where(p)], 'both')
    ck.obligation(rule, name, go)


# ------------------------------------------------------------------ C10
def run_tensors(ck):
    R = 'tensor'
    for sid, m, g in ((GV + 'PointMass', 'gravitational_gradient', 1), (GV + 'Sphere', 'gravitational_gradient', 1),
                      (GV + 'Prism', 'gravitational_gradient', 1), (S + 'MagneticPrism', 'magnetic_field_gradient', 0)):
        for rg, fx in regions(spec.BYID[sid]).items():
            if rg == 'anywhere':
                continue
            M = Multi(sid)
            settle(ck, M, R, 'symmetric', lambda: [(M[m][1], M[m][3]), (M[m][2], M[m][6]), (M[m][5], M[m][7])], rg, fx)
            if rg == 'inside' and g:
                val = lambda: mul(mul(Z(-4), ir.sym('pi')), mul(ir.sym('G'), ir.sym('rho')))
            else:
                val = Z
            settle_const(ck, M, R, 'trace', lambda: (add(add(M[m][0], M[m][4]), M[m][8]), val()), rg, fx)
