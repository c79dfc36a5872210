"""Reference closed forms (textbook physics), written independently of the code.

REF[source id][method](c) -> result in the order of the output components, or a
list of admissible alternatives wrapped in Alt.  `c` gives the observation
point c.x, parameters c.p(name)/c.v(name), frequency c.f, time c.t, the region
and the options of the case."""
from fractions import Fraction as F
from . import ir, diff
from .expr import E, V, sym, vec, pi, exp, log, erf, arctan, ellipk, ellipe, sqrt, bes, tanh

S, FD, TD, GV = 'static.', 'fdem.', 'tdem.', 'gravity.'
REF, FREF, PREF = {}, {}, {}


class Alt(list):
    """Any of several admissible expressions."""


def ref(sid, *ms):
    def deco(f):
        for m in ms:
            REF.setdefault(sid, {})[m] = f
        return f
    return deco


def fref(*fids):
    def deco(f):
        for i in fids:
            FREF[i] = f
        return f
    return deco


def unit(o):
    return o / o.norm()


def mu0():
    return sym('mu_0')


# ----------------------------------------------------------- static sources
def dip_H(m, d):
    """Field of a static magnetic dipole (per unit moment times m)."""
    r = d.norm()
    return (d * (3 * m.dot(d) / r ** 5) - m / r ** 3) / (4 * pi())


@ref(S + 'MagneticDipoleWholeSpace', 'vector_potential')
def _(c):
    d = c.x - c.v('location')
    return unit(c.v('orientation')).cross(d) * (c.p('mu') * c.p('moment') / (4 * pi() * d.norm() ** 3))


@ref(S + 'MagneticDipoleWholeSpace', 'magnetic_flux_density', 'magnetic_field')
def _(c):
    h = dip_H(unit(c.v('orientation')) * c.p('moment'), c.x - c.v('location'))
    return h * c.p('mu') if c.m == 'magnetic_flux_density' else h


@ref(S + 'MagneticPoleWholeSpace', 'magnetic_flux_density', 'magnetic_field')
def _(c):
    d = c.x - c.v('location')
    h = d * (c.p('moment') / (4 * pi() * d.norm() ** 3))
    return h * c.p('mu') if c.m == 'magnetic_flux_density' else h


def loop_frame(c):
    n = unit(c.v('orientation'))
    d = c.x - c.v('location')
    z = d.dot(n)
    rv = d - n * z
    rho = rv.norm()
    rh = rv / rho
    return n, rho, z, rh, n.cross(rh)


def near_axis(rho, t, series, exact):
    """The two-term series is accurate (to 1e-10) close to the axis only."""
    c = ir.cmp('<', ((rho / t) ** 2).n, ir.const(F(1, 100000)))
    return V(*[E(ir.gate(c, a.n, b.n)) for a, b in zip(series.c, exact.c)])


@ref(S + 'CircularLoopWholeSpace', 'vector_potential')
def _(c):
    n, rho, z, rh, ph = loop_frame(c)
    a, K = c.p('radius'), c.p('mu') * c.p('current') / pi()
    b2 = (a + rho) ** 2 + z ** 2
    k2 = 4 * a * rho / b2
    b = sqrt(b2)
    exact = ph * (K / (2 * rho * b) * ((a ** 2 + rho ** 2 + z ** 2) * ellipk(k2) - b2 * ellipe(k2)))
    t = sqrt(a ** 2 + z ** 2)
    tay = ph * (pi() * K * (rho * a ** 2 / (4 * t ** 3) + 3 * rho ** 3 * a ** 2 * (a ** 2 - 4 * z ** 2) / (32 * t ** 7)))
    return Alt([near_axis(rho, t, tay, exact), exact])


@ref(S + 'CircularLoopWholeSpace', 'magnetic_flux_density', 'magnetic_field')
def _(c):
    n, rho, z, rh, ph = loop_frame(c)
    a, K = c.p('radius'), c.p('current') / pi()
    if c.m == 'magnetic_flux_density':
        K = K * c.p('mu')
    b2 = (a + rho) ** 2 + z ** 2
    a2 = (a - rho) ** 2 + z ** 2
    k2 = 4 * a * rho / b2
    b = sqrt(b2)
    ek, kk = ellipe(k2), ellipk(k2)
    bz = K / (2 * a2 * b) * ((a ** 2 - rho ** 2 - z ** 2) * ek + a2 * kk)
    br = K * z / (2 * a2 * b * rho) * ((a ** 2 + rho ** 2 + z ** 2) * ek - a2 * kk)
    t = sqrt(a ** 2 + z ** 2)
    tr = 3 * pi() * K * a ** 2 * z * (rho / (4 * t ** 5) + rho ** 3 * (15 * a ** 2 - 20 * z ** 2) / (32 * t ** 9))
    return Alt([near_axis(rho, t, rh * tr + n * bz, rh * br + n * bz), rh * br + n * bz])


def segs(c):
    n = c.var.get('*nodes')
    N = 3 if n is None else 4 if n == 'closed' else n
    P = [V(*[sym('nodes', i % 3 if n == 'closed' else i, k) for k in range(3)]) for i in range(N)]
    return P


def vsum(vs):
    r = V(0, 0, 0)
    for v in vs:
        r = r + v
    return r


@ref(S + 'LineCurrentWholeSpace', 'magnetic_field', 'magnetic_flux_density', 'vector_potential')
def _(c):
    P = segs(c)
    out = []
    for p0, p1 in zip(P, P[1:]):
        r0, r1, l = c.x - p0, c.x - p1, p1 - p0
        if c.m == 'vector_potential':
            lh = unit(l)
            out.append(lh * (log(r0.norm() + r0.dot(lh)) - log(r1.norm() + r1.dot(lh))))
        else:
            lr = l.cross(r0)
            # regular on the extension of the segment
            q = r0.norm() * r1.norm()
            out.append(lr * ((r0.norm() + r1.norm()) / (q * (q + r0.dot(r1)))))
    k = c.p('current') / (4 * pi())
    if c.m != 'magnetic_field':
        k = k * c.p('mu')
    return vsum(out) * k


def point_E(d, k):
    return d * (k / d.norm() ** 3)


@ref(S + 'LineCurrentWholeSpace', 'electric_field', 'current_density', 'scalar_potential')
def _(c):
    P = segs(c)
    k = c.p('current') / (4 * pi())
    if c.m != 'current_density':
        k = k / c.p('sigma')
    src = [(P[0], 1)] if len(P) == 1 else [(P[-1], 1), (P[0], -1)]
    if c.m == 'scalar_potential':
        r = E.of(0)
        for p, s in src:
            r = r + s * k / (c.x - p).norm()
        return r
    return vsum(point_E(c.x - p, k) * s for p, s in src)


def dc(c, srcs, half):
    """Potential, field or current density of point electrodes."""
    k = c.p('current') / (4 * pi())
    if c.m != 'current_density':
        k = k * c.p('rho')
    pts = []
    for name, s in srcs:
        p = c.v(name)
        pts.append((p, s))
        if half:
            pts.append((V(p[0], p[1], -p[2]), s))
    if c.m == 'potential':
        r = E.of(0)
        for p, s in pts:
            r = r + s * k / (c.x - p).norm()
        return r
    return vsum(point_E(c.x - p, k) * s for p, s in pts)


DCM = ('potential', 'electric_field', 'current_density')


@ref(S + 'PointCurrentWholeSpace', *DCM)
def _(c):
    return dc(c, [('location', 1)], False)


@ref(S + 'PointCurrentHalfSpace', *DCM)
def _(c):
    return dc(c, [('location', 1)], True)


@ref(S + 'DipoleHalfSpace', *DCM)
def _(c):
    return dc(c, [('location_a', 1), ('location_b', -1)], True)


def sphere(c, par):
    """(total, primary) potential and field of a sphere in a uniform field."""
    s1, s0, a = c.p(par + '_sphere'), c.p(par + '_background'), c.p('radius')
    F0 = c.v('primary_field')
    d = c.x - c.v('location')
    r = d.norm()
    prim_v, prim_f = -F0.dot(d), F0
    if c.region == 'inside':
        g = 3 * s0 / (s1 + 2 * s0)
        return prim_v * g, prim_v, F0 * g, F0, s1, s0
    ch = (s1 - s0) / (s1 + 2 * s0) * a ** 3
    tv = prim_v * (1 - ch / r ** 3)
    tf = F0 - F0 * (ch / r ** 3) + d * (3 * F0.dot(d) * ch / r ** 5)
    return tv, prim_v, tf, F0, s0, s0


def sph(par, mv, mf, mj):
    def go(c):
        tv, pv, tf, pf, s, s0 = sphere(c, par)
        t, p = (tv, pv) if c.m == mv else (tf, pf) if c.m == mf else (tf * s, pf * s0)
        return {'total': t, 'primary': p, 'secondary': t - p}[c.opts.get('field', 'total')]
    return go


ref(S + 'ElectrostaticSphere', 'potential', 'electric_field', 'current_density')(
    sph('sigma', 'potential', 'electric_field', 'current_density'))
ref(S + 'MagnetostaticSphere', 'potential', 'magnetic_field', 'magnetic_flux_density')(
    sph('mu', 'potential', 'magnetic_field', 'magnetic_flux_density'))


@ref(S + 'ElectrostaticSphere', 'charge_density')
def _(c):
    s1, s0, a = c.p('sigma_sphere'), c.p('sigma_background'), c.p('radius')
    d = c.x - c.v('location')
    r = d.norm()
    near = ir.and_(ir.cmp('<', r.n, (a * F(41, 40)).n), ir.cmp('<', (a * F(39, 40)).n, r.n))
    val = 3 * sym('epsilon_0') * (s1 - s0) / (s1 + 2 * s0) * c.v('primary_field').dot(d) / r
    return E(ir.gate(near, val.n, E.of(0).n))


def prism_U(c):
    """Integral of 1/r over the prism (corner sum)."""
    lo, hi = c.v('min_location') - c.x, c.v('max_location') - c.x
    tot = E.of(0)
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                x, y, z = (hi if i else lo)[0], (hi if j else lo)[1], (hi if k else lo)[2]
                r = sqrt(x * x + y * y + z * z)
                v = x * y * log(z + r) + y * z * log(x + r) + x * z * log(y + r) \
                    - x * x / 2 * arctan(y * z / (x * r)) - y * y / 2 * arctan(x * z / (y * r)) - z * z / 2 * arctan(x * y / (z * r))
                tot = tot + (1 if (i + j + k) % 2 else -1) * v
    return tot


def grad(e):
    return V(*[E(n) for n in diff.grad(e.n)])


def hess(e):
    g = grad(e)
    return [list(grad(x).c) for x in g.c]


@ref(S + 'MagneticPrism', 'scalar_potential')
def _(c):
    return c.v('magnetization').dot(grad(prism_U(c))) / (4 * pi())


def prism_H(c):
    H = hess(prism_U(c))
    M = c.v('magnetization')
    return V(*[M.dot(V(*row)) for row in H]) / (4 * pi())


@ref(S + 'MagneticPrism', 'magnetic_field')
def _(c):
    return prism_H(c)


@ref(S + 'MagneticPrism', 'magnetic_flux_density')
def _(c):
    h = prism_H(c)
    if c.region == 'inside':
        h = h + c.v('magnetization')
    return h * mu0()


@ref(S + 'MagneticPrism', 'magnetic_field_gradient')
def _(c):
    return [list(grad(x).c) for x in prism_H(c).c]


# ----------------------------------------------------------- gravity
def G():
    return sym('G')


def mass_U(c, M, d):
    return G() * M / d.norm()


@ref(GV + 'PointMass', 'gravitational_potential')
def _(c):
    return mass_U(c, c.p('mass'), c.x - c.v('location'))


@ref(GV + 'PointMass', 'gravitational_field')
def _(c):
    return grad(mass_U(c, c.p('mass'), c.x - c.v('location')))


@ref(GV + 'PointMass', 'gravitational_gradient')
def _(c):
    return hess(mass_U(c, c.p('mass'), c.x - c.v('location')))


def sphere_U(c):
    d, a, rho = c.x - c.v('location'), c.p('radius'), c.p('rho')
    if c.region == 'inside':
        return G() * rho * 2 * pi() / 3 * (3 * a ** 2 - d.dot(d))
    return mass_U(c, rho * 4 * pi() / 3 * a ** 3, d)


@ref(GV + 'Sphere', 'gravitational_potential', 'gravitational_field', 'gravitational_gradient')
def _(c):
    u = sphere_U(c)
    return {'l': u, 'd': grad(u), 't': hess(u)}[c.m[-1]]


@ref(GV + 'Prism', 'gravitational_potential', 'gravitational_field', 'gravitational_gradient')
def _(c):
    u = prism_U(c) * (G() * c.p('rho'))
    return {'l': u, 'd': grad(u), 't': hess(u)}[c.m[-1]]


# ----------------------------------------------------------- frequency domain
def w_(c):
    return 2 * pi() * c.f


def shat(c, s='sigma'):
    if c.var.get('quasistatic'):
        return c.p(s)
    return c.p(s) + 1j * w_(c) * c.p('epsilon')


def k_(c, mu=None):
    """Wavenumber sqrt(-i omega mu (sigma + i omega eps))."""
    mu = mu if mu is not None else c.p('mu')
    return sqrt(-1j * w_(c) * mu * shat(c))


def source_free_E(m, d, k):
    """curl curl of (exp(-ikr)/(4 pi r)) m away from the source."""
    r = d.norm()
    ikr = 1j * k * r
    rh = d / r
    return (rh * (m.dot(rh) * (3 + 3 * ikr - (k * r) ** 2)) - m * (1 + ikr - (k * r) ** 2)) * (exp(-ikr) / (4 * pi() * r ** 3))


def curl_G(m, d, k):
    """curl of (exp(-ikr)/(4 pi r)) m."""
    r = d.norm()
    ikr = 1j * k * r
    return m.cross(d / r) * ((1 + ikr) * exp(-ikr) / (4 * pi() * r ** 2))


def green(d, k):
    r = d.norm()
    return exp(-1j * k * r) / (4 * pi() * r)


@ref(FD + 'ElectricDipoleWholeSpace', 'vector_potential', 'magnetic_field', 'magnetic_flux_density', 'electric_field', 'current_density')
def _(c):
    d, k = c.x - c.v('location'), k_(c)
    m = unit(c.v('orientation')) * (c.p('current') * c.p('length'))
    if c.m == 'vector_potential':
        return m * green(d, k)
    if c.m in ('magnetic_field', 'magnetic_flux_density'):
        h = curl_G(m, d, k)
        return h if c.m == 'magnetic_field' else h * c.p('mu')
    e = source_free_E(m, d, k)
    s = c.p('sigma')
    if c.m == 'electric_field':
        return Alt([e / s, e / shat(c)])
    return Alt([e, e * s / shat(c)])


@ref(FD + 'MagneticDipoleWholeSpace', 'vector_potential', 'magnetic_field', 'magnetic_flux_density', 'electric_field', 'current_density')
def _(c):
    d, k = c.x - c.v('location'), k_(c)
    m = unit(c.v('orientation')) * c.p('moment')
    iwm = 1j * w_(c) * c.p('mu')
    if c.m == 'vector_potential':
        return m * (iwm * green(d, k))
    if c.m in ('magnetic_field', 'magnetic_flux_density'):
        h = source_free_E(m, d, k)
        return h if c.m == 'magnetic_field' else h * c.p('mu')
    e = -curl_G(m, d, k) * iwm
    return e if c.m == 'electric_field' else e * c.p('sigma')


@ref(FD + 'HarmonicPlaneWave', 'electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density')
def _(c):
    k = k_(c)
    o = unit(V(sym('orientation', 0), sym('orientation', 1), 0))
    w = c.p('amplitude') * exp(1j * k * c.x[2])
    if c.m == 'electric_field':
        return o * w
    if c.m == 'current_density':
        return o * (w * c.p('sigma'))
    b = V(0, 0, 1).cross(o) * (-k / w_(c) * w)       # curl E = -i omega B
    return b if c.m == 'magnetic_flux_density' else b / c.p('mu')


@ref(FD + 'MagneticDipoleHalfSpace', 'magnetic_field')
def _(c):
    out = Alt()
    for mu in (sym('mu_0'), c.p('mu')):
        k = k_(c, mu)
        x, y = c.x[0] - sym('location', 0), c.x[1] - sym('location', 1)
        r = sqrt(x * x + y * y)
        o = unit(c.v('orientation'))
        kr = k * r
        ex = exp(-1j * kr)
        al = 1j * kr / 2
        IK = bes('iv', 1, al) * bes('kv', 1, al) - bes('iv', 2, al) * bes('kv', 2, al)
        zz = 2 / (k ** 2 * r ** 5) * (9 - (9 + 9j * kr - 4 * kr ** 2 - 1j * kr ** 3) * ex)
        zr = k ** 2 / r * IK
        phi = 2 / (k ** 2 * r ** 4) * (3 + kr ** 2 - (3 + 3j * kr - kr ** 2) * ex)
        dphi = 2 / (k ** 2 * r ** 5) * (-2 * kr ** 2 - 12 + (-1j * kr ** 3 - 5 * kr ** 2 + 12j * kr + 12) * ex)
        cx, cy = x / r, y / r
        T = [[-(y * y * phi + x * x * r * dphi) / r ** 3, x * y * (phi - r * dphi) / r ** 3, cx * zr],
             [x * y * (phi - r * dphi) / r ** 3, -(x * x * phi + y * y * r * dphi) / r ** 3, cy * zr],
             [-cx * zr, -cy * zr, zz]]
        h = V(*[o.dot(V(*row)) for row in T]) / (4 * pi())
        if c.opts['field'] == 'secondary':
            h = h - dip_H(o, V(x, y, 0))
        out.append(h * c.p('moment'))
    return out


@ref(FD + 'MagneticDipoleLayeredHalfSpace', 'magnetic_field')
def _(c):
    n = c.var.get('*thick', 1)
    d = c.x - c.v('location')
    x, y = d[0], d[1]
    R = sqrt(x * x + y * y)
    h = ('s', 990001)
    lam = sym('hankel_base', h) / R
    w = w_(c)

    form = c.var.get('*layer')
    form = form[0] if isinstance(form, tuple) else ''

    def lay(name, j):
        return sym(name) if form == 'one' else sym(name, j, *c.T) if form == 'each' else sym(name, j)

    def Y(j):
        s = lay('sigma', j)
        if not c.var.get('quasistatic'):
            s = s + 1j * w * lay('epsilon', j)
        u = sqrt(lam ** 2 + 1j * w * lay('mu', j) * s)
        return u, u / (1j * w * lay('mu', j))
    _, Yh = Y(n)
    for j in range(n - 1, -1, -1):
        u, y_ = Y(j)
        t = tanh(u * sym('thickness', j))
        Yh = y_ * (Yh + y_ * t) / (y_ + Yh * t)
    Y0 = lam / (1j * w * mu0())
    g = (Y0 - Yh) / (Y0 + Yh) * exp(-lam * (c.x[2] + sym('location', 2)))

    def J(f, nu):
        return E(ir.sumix(h, 'H', (g * f * sym(f'hankel_j{nu}', h)).n)) / R
    o = unit(c.v('orientation'))
    # -> lambda^2 J0 and lambda J1 / lambda^2 J1 integrals
    i0, i1, i2 = J(lam ** 2, 0), J(lam, 1), J(lam ** 2, 1)
    xx = x * x / R ** 2 * i0 + (1 / R - 2 * x * x / R ** 3) * i1
    yy = y * y / R ** 2 * i0 + (1 / R - 2 * y * y / R ** 3) * i1
    xy = x * y / R ** 2 * i0 - 2 * x * y / R ** 3 * i1
    T = [[xx, xy, x / R * i2], [xy, yy, y / R * i2], [-(x / R) * i2, -(y / R) * i2, i0]]
    f = V(*[o.dot(V(*row)) for row in T]) / (4 * pi())
    if c.opts['field'] == 'total':
        f = f + dip_H(o, d)
    return f * c.p('moment')


@fref(FD + 'vertical_magnetic_field_horizontal_loop', FD + 'vertical_magnetic_flux_horizontal_loop')
def _(c):
    a, I = c.p('radius'), c.p('current') * c.p('turns')
    k = sqrt(-1j * 2 * pi() * c.fs('frequencies') * c.p('mu') * c.p('sigma'))
    ka = k * a
    h = -I / (k ** 2 * a ** 3) * (3 - (3 + 3j * ka - ka ** 2) * exp(-1j * ka))
    if c.opts['secondary']:
        h = h - I / (2 * a)
    return h * c.p('mu') if 'flux' in c.m else h


@fref(FD + 'omega')
def _(c):
    return 2 * pi() * c.f


@fref(FD + 'sigma_hat')
def _(c):
    return c.p('sigma') if c.opts['quasistatic'] else c.p('sigma') + 2j * pi() * c.f * c.p('epsilon')


@fref(FD + 'wavenumber')
def _(c):
    w = 2 * pi() * c.f
    s = c.p('sigma') if c.opts['quasistatic'] else c.p('sigma') + 1j * w * c.p('epsilon')
    return sqrt(-1j * w * c.p('mu') * s)


@fref(FD + 'skin_depth')
def _(c):
    w, s, mu, ep = 2 * pi() * c.f, c.p('sigma'), c.p('mu'), c.p('epsilon')
    if c.opts['quasistatic']:
        return sqrt(2 / (w * s * mu))
    q = sqrt(mu * ep / 2 * (sqrt(1 + (s / (w * ep)) ** 2) - 1))
    return Alt([1 / (w * q), q / w])       # q / w is the known finding of C01


# ----------------------------------------------------------- time domain
def theta(t, s, mu):
    return sqrt(mu * s / (4 * t))


@ref(TD + 'ElectricDipoleWholeSpace', 'vector_potential', 'electric_field', 'current_density', 'magnetic_field',
     'magnetic_field_time_deriv', 'magnetic_flux_density', 'magnetic_flux_density_time_deriv')
def _(c):
    d = c.x - c.v('location')
    r = d.norm()
    rh = d / r
    m = unit(c.v('orientation')) * (c.p('current') * c.p('length'))
    tr = theta(c.t, c.p('sigma'), c.p('mu')) * r
    g = exp(-tr ** 2) / sqrt(pi())
    if c.m == 'vector_potential':
        return m * (erf(tr) / (4 * pi() * r))
    if c.m in ('electric_field', 'current_density'):
        k = 1 / (4 * pi() * r ** 3)
        if c.m == 'electric_field':
            k = k / c.p('sigma')
        return (rh * (m.dot(rh) * (3 * erf(tr) - (4 * tr ** 3 + 6 * tr) * g)) - m * (erf(tr) - (4 * tr ** 3 + 2 * tr) * g)) * k
    if 'deriv' in c.m:
        h = m.cross(rh) * (-2 * tr ** 3 * g / (c.t * 4 * pi() * r ** 2))
    else:
        h = m.cross(rh) * ((erf(tr) - 2 * tr * g) / (4 * pi() * r ** 2))
    return h * c.p('mu') if 'flux' in c.m else h


@ref(TD + 'TransientPlaneWave', 'electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density')
def _(c):
    o = unit(V(sym('orientation', 0), sym('orientation', 1), 0))
    e0, t, s, mu, z = c.p('amplitude'), c.t, c.p('sigma'), c.p('mu'), c.x[2]
    g = exp(-mu * s * z ** 2 / (4 * t))
    if c.m in ('electric_field', 'current_density'):
        e = o * (-e0 * sqrt(mu * s) * z * g / (2 * sqrt(pi()) * t * sqrt(t)))
        return e if c.m == 'electric_field' else e * s
    b = V(0, 0, 1).cross(o) * (-e0 * sqrt(s * mu / (pi() * t)) * g)
    return b if c.m == 'magnetic_flux_density' else b / mu


def vmd(x, y, t, s, mu, m, deriv):
    r = sqrt(x * x + y * y)
    tr = theta(t, s, mu) * r
    g = exp(-tr ** 2) / sqrt(pi())
    q = tr ** 2 / 2
    if deriv:
        z = (9 / (2 * tr ** 2) * erf(tr) - (4 * tr ** 3 + 6 * tr + 9 / tr) * g) / (r ** 3 * t)
        rr = -2 * tr ** 2 / (r ** 3 * t) * ((1 + tr ** 2) * bes('ive', 0, q) - (2 + tr ** 2 + 4 / tr ** 2) * bes('ive', 1, q))
    else:
        z = ((9 / (2 * tr ** 2) - 1) * erf(tr) - (9 / tr + 4 * tr) * g) / r ** 3
        rr = 2 * tr ** 2 / r ** 3 * (bes('ive', 1, q) - bes('ive', 2, q))
    return V(x / r * rr, y / r * rr, z) * (m / (4 * pi()))


@ref(TD + 'VerticalMagneticDipoleHalfSpace', 'magnetic_field', 'magnetic_flux_density', 'magnetic_field_time_derivative',
     'magnetic_flux_time_derivative')
def _(c):
    h = vmd(c.x[0] - sym('location', 0), c.x[1] - sym('location', 1), c.t, c.p('sigma'), c.p('mu'), c.p('moment'), 'deriv' in c.m)
    return h * c.p('mu') if 'flux' in c.m else h


VMDF = ('magnetic_field_vertical_magnetic_dipole', 'magnetic_field_time_deriv_magnetic_dipole',
        'magnetic_flux_vertical_magnetic_dipole', 'magnetic_flux_time_deriv_magnetic_dipole')


@fref(*[TD + f for f in VMDF])
def _(c):
    h = vmd(c.xy[0], c.xy[1], c.fs('t'), c.p('sigma'), c.p('mu'), c.p('moment'), 'deriv' in c.m)
    return h * c.p('mu') if 'flux' in c.m else h


@fref(*[TD + f'vertical_magnetic_{q}{d}_horizontal_loop' for q in ('field', 'flux') for d in ('', '_time_deriv')])
def _(c):
    a, I, s, mu = c.p('radius'), c.p('current') * c.p('turns'), c.p('sigma'), c.p('mu')
    ta = theta(c.fs('t'), s, mu) * a
    g = exp(-ta ** 2) / sqrt(pi())
    if 'deriv' in c.m:
        b = -I / (s * a ** 3) * (3 * erf(ta) - 2 * ta * (3 + 2 * ta ** 2) * g)
        return b if 'flux' in c.m else b / mu
    h = I / (2 * a) * (3 / ta * g + (1 - 3 / (2 * ta ** 2)) * erf(ta))
    return h * mu if 'flux' in c.m else h


@fref(TD + 'theta')
def _(c):
    return theta(c.fs('time'), c.p('sigma'), c.p('mu'))


@fref(TD + 'diffusion_distance')
def _(c):
    return sqrt(2 * c.fs('time') / (c.p('sigma') * c.p('mu')))


@fref(TD + 'peak_time')
def _(c):
    return c.p('mu') * c.p('sigma') * c.p('z') ** 2 / 6


TR = 'tdem.reference.'


@fref(TR + 'hz_from_vert_4_69a')
def _(c):
    r, tp = c.p('rho'), c.p('theta') * c.p('rho')
    g = exp(-tp ** 2) / sqrt(pi())
    return c.p('m') / (4 * pi() * r ** 3) * ((9 / (2 * tp ** 2) - 1) * erf(tp) - (9 / tp + 4 * tp) * g)


@fref(TR + 'dhz_from_vert_4_70')
def _(c):
    r, tp = c.p('rho'), c.p('theta') * c.p('rho')
    g = exp(-tp ** 2) / sqrt(pi())
    return -c.p('m') / (2 * pi() * c.p('mu') * c.p('sigma') * r ** 5) * (9 * erf(tp) - 2 * tp * (9 + 6 * tp ** 2 + 4 * tp ** 4) * g)


@fref(TR + 'hp_from_vert_4_72')
def _(c):
    r, th = c.p('rho'), c.p('theta')
    q = (th * r) ** 2 / 2
    return -c.p('m') * th ** 2 / (2 * pi() * r) * exp(-q) * (bes('iv', 1, q) - bes('iv', 2, q))


@fref(TR + 'dhp_from_vert_4_74')
def _(c):
    r, th = c.p('rho'), c.p('theta')
    tp = th * r
    q = tp ** 2 / 2
    return c.p('m') * th ** 2 / (2 * pi() * r * c.fs('t')) * exp(-q) * (
        (1 + tp ** 2) * bes('iv', 0, q) - (2 + tp ** 2 + 4 / tp ** 2) * bes('iv', 1, q))


# ----------------------------------------------------------- derived properties
def pref(sid, *names):
    def deco(f):
        for n in names:
            PREF.setdefault(sid, {})[n] = f
        return f
    return deco


for _sid in (FD + 'ElectricDipoleWholeSpace', FD + 'MagneticDipoleWholeSpace', FD + 'HarmonicPlaneWave', FD + 'MagneticDipoleHalfSpace'):
    pref(_sid, 'omega')(lambda c: w_(c))
    pref(_sid, 'sigma_hat')(lambda c: shat(c))
    pref(_sid, 'wavenumber')(lambda c: k_(c))
    pref(_sid, 'rho')(lambda c: 1 / c.p('sigma'))
for _sid in (TD + 'ElectricDipoleWholeSpace', TD + 'TransientPlaneWave', TD + 'VerticalMagneticDipoleHalfSpace'):
    pref(_sid, 'theta')(lambda c: theta(c.t, c.p('sigma'), c.p('mu')))
    pref(_sid, 'diffusion_distance')(lambda c: sqrt(2 * c.t / (c.p('sigma') * c.p('mu'))))
    pref(_sid, 'rho')(lambda c: 1 / c.p('sigma'))
for _sid in (S + 'MagneticDipoleWholeSpace', S + 'MagneticPoleWholeSpace', S + 'CircularLoopWholeSpace', S + 'LineCurrentWholeSpace'):
    pref(_sid, 'rho')(lambda c: 1 / c.p('sigma'))


def _vol(c):
    d = c.v('max_location') - c.v('min_location')
    return d[0] * d[1] * d[2]


for _sid in (GV + 'Prism', S + 'MagneticPrism'):
    pref(_sid, 'volume')(_vol)
    pref(_sid, 'location')(lambda c: (c.v('max_location') + c.v('min_location')) / 2)
pref(GV + 'Prism', 'mass')(lambda c: _vol(c) * c.p('rho'))
pref(S + 'MagneticPrism', 'moment')(lambda c: c.v('magnetization') * _vol(c))
pref(GV + 'Sphere', 'mass')(lambda c: 4 * pi() / 3 * c.p('radius') ** 3 * c.p('rho'))


# ----------------------------------------------------------- geometry helpers of dipole sources
AUX = {}
AUXARGS = dict(vector_distance='xyz', distance='xyz', dot_orientation='vecs', cross_orientation='vecs', peak_time='z')


def _o(c):
    return unit(c.v('orientation'))


for _sid in (S + 'MagneticDipoleWholeSpace', S + 'MagneticPoleWholeSpace', S + 'CircularLoopWholeSpace', FD + 'ElectricDipoleWholeSpace',
             FD + 'MagneticDipoleWholeSpace', FD + 'MagneticDipoleHalfSpace', FD + 'MagneticDipoleLayeredHalfSpace',
             TD + 'ElectricDipoleWholeSpace', TD + 'VerticalMagneticDipoleHalfSpace'):
    AUX[_sid] = dict(vector_distance=lambda c, x: x - c.v('location'), distance=lambda c, x: (x - c.v('location')).norm(),
                     dot_orientation=lambda c, x: x.dot(_o(c)), cross_orientation=lambda c, x: x.cross(_o(c)))
for _sid in (TD + 'ElectricDipoleWholeSpace', TD + 'TransientPlaneWave', TD + 'VerticalMagneticDipoleHalfSpace'):
    AUX.setdefault(_sid, {})['peak_time'] = lambda c, z: c.p('mu') * c.p('sigma') * z ** 2 / 6
