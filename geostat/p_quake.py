"""C20 earthquake model: simulation grid, surface displacement (Okada 1985), line of sight, parameters."""
from fractions import Fraction as F
from . import ir, gf, scen, spec
from .arr import Arr, ShapeError, show_shape
from .expr import E, V, sym, pi, sqrt, log, arctan, sin, cos
from .interp import AbsRaise
from .p_field import rng
from .p_state import nodes_of, scribble, array_args

MOD = 'geoana.earthquake.oksar'
VEC2 = ('O', 'U', 'V', 'center')
SCAL = ('depth_top', 'depth_bottom', 'strike', 'dip', 'rake', 'slip', 'length', 'beta', 'mu')
FIX = dict(O=rng(-4, 4), U=rng(-4, 4), V=rng(-4, 4), center=rng(-3, 3), depth_top=rng(.3, 1), depth_bottom=rng(1.6, 3),
           strike=rng(5, 355), dip=rng(10, 80), rake=rng(-170, 170), slip=rng(.2, 3), length=rng(.5, 4), beta=rng(.5, 3), mu=rng(.5, 3),
           mid=rng(1.1, 1.5), rake2=rng(-170, 170), shift=rng(-3, 3))


class W(scen.World):
    def get(self, name):
        return self.I.heap[self.I.load(MOD).nsid][name]

    def quake(self, shape=(2, 3), **over):
        kw = {n: self.array(n, (2,), spec.M) for n in VEC2}
        for n in SCAL:
            kw[n] = self.scalar(n, sign=None if n == 'rake' else '+')
        kw['shape'] = tuple(shape)
        kw.update(over)
        self.kw = kw
        return self.I.call(self.get('Oksar'), [], dict(kw))

    def num(self, e):
        return self.I.arr(Arr((), lambda idx: e.n, 'f', wk=True))

    def pair(self, a, b):
        ns = [a.n, b.n]
        return self.I.arr(Arr((2,), lambda idx: ns[idx[0]], 'f'))


def grid(shape):
    """Points O + a U + b V, a varying fastest."""
    nx, ny = shape
    t = lambda k, n: F(k, n - 1) if n > 1 else F(0)
    return [[sym('O', c) + sym('U', c) * t(i, nx) + sym('V', c) * t(j, ny) for c in range(2)] for j in range(ny) for i in range(nx)]


def okada(x, y, vertical=False):
    """Surface displacement of a rectangular fault (Okada 1985, eqs. 25-30); the fault plane passes through the surface at
    `center`, strikes clockwise from north and dips to the right of the strike direction."""
    rad = pi() / 180
    th = (sym('strike') + 90) * rad
    c, s = cos(th), sin(th)
    dx, dy = x - sym('center', 0), y - sym('center', 1)
    X, Y = c * dx - s * dy, s * dx + c * dy
    if vertical:
        sd, cd, sdip = E.of(-1), E.of(0), E.of(1)
    else:
        sdip = sin(sym('dip') * rad)
        sd, cd = -sdip, cos(sym('dip') * rad)
    rk = (sym('rake') + 90) * rad
    U1, U2 = -sym('slip') * sin(rk), sym('slip') * cos(rk)
    half = sym('length') / 2
    a = sym('mu') / (sym('beta') + sym('mu'))
    p, q = Y * cd, Y * sd
    tot = V(0, 0, 0)
    for xi, s1 in ((X + half, 1), (X - half, -1)):
        for et, s2 in ((p - sym('depth_top') / sdip, 1), (p - sym('depth_bottom') / sdip, -1)):
            R = sqrt(xi * xi + et * et + q * q)
            yt, dt = et * cd + q * sd, et * sd - q * cd
            Xq = sqrt(xi * xi + q * q)
            tt = arctan(xi * et / (q * R))
            if vertical:
                I1 = -a / 2 * xi * q / (R + dt) ** 2
                I3 = a / 2 * (et / (R + dt) + yt * q / (R + dt) ** 2 - log(R + et))
                I4 = -a * q / (R + dt)
                I5 = -a * xi * sd / (R + dt)
            else:
                I5 = a * 2 / cd * arctan((et * (Xq + q * cd) + Xq * (R + Xq) * sd) / (xi * (R + Xq) * cd))
                I4 = a / cd * (log(R + dt) - sd * log(R + et))
                I3 = a * (yt / (cd * (R + dt)) - log(R + et)) + sd / cd * I4
                I1 = -a / cd * xi / (R + dt) - sd / cd * I5
            I2 = -a * log(R + et) - I3
            ss = V(xi * q / (R * (R + et)) + tt + I1 * sd, yt * q / (R * (R + et)) + q * cd / (R + et) + I2 * sd,
                   dt * q / (R * (R + et)) + q * sd / (R + et) + I4 * sd)
            ds = V(q / R - I3 * sd * cd, yt * q / (R * (R + xi)) + cd * tt - I1 * sd * cd,
                   dt * q / (R * (R + xi)) + sd * tt - I5 * sd * cd)
            tot = tot + (ss * U1 + ds * U2) * (E.of(-s1 * s2) / (2 * pi()))
    u = tot
    return V(c * u[0] + s * u[1], c * u[1] - s * u[0], u[2])


def settle(ck, rule, name, w, a, b, what, **kw):
    if len(a) != len(b):
        return ck.bad(rule, name, f"{len(a)} values, {len(b)} expected")
    res = gf.decide(list(zip(a, b)), w.signs, [(c, p) for c, p, _, _ in w.I.guards], samples=kw.pop('samples', 2), ncell=16,
                    modes=('plain',), seed=ck.seed, fixed=kw.pop('fixed', FIX), **kw)
    return ck.verdict(rule, name, res, [x for p in (res.idx or ())[:1] for x in ir.where(p)], what)


def ob(ck, rule, name, go):
    def run():
        try:
            go()
        except AbsRaise as e:
            ck.bad(rule, name, f"documented input raises {e}", [str(e.loc)])
    ck.obligation(rule, name, run)


def run(ck):
    for shape in ((2, 3), (3, 2), (4, 1), (1, 1)):
        nm = f"Oksar.simulation_grid of shape {shape}"

        def g():
            w = W()
            o = w.quake(shape)
            a = w.arr(w.prop(o, 'simulation_grid'))
            ck.note(w)
            want = grid(shape)
            if tuple(a.shape) != (len(want), 2):
                return ck.bad('grid', nm, f"shape {show_shape(a.shape)}, {(len(want), 2)} expected")
            settle(ck, 'grid', nm, w, list(a.generic().values()), [x.n for p in want for x in p], 'grid points and O + a U + b V')
        ob(ck, 'grid', nm, g)
    for shape, vert in (((1, 1), False), ((2, 1), False), ((1, 2), False), ((1, 1), True)):
        for k in range(shape[0] * shape[1]):
            nm = f"Oksar.displacement_vector at point {k} of a {shape} grid" + (', vertical fault' if vert else '')

            def disp():
                w = W()
                over = dict(dip=90) if vert else {}
                o = w.quake(shape, **over)
                a = w.arr(w.prop(o, 'displacement_vector'))
                ck.note(w)
                pts = grid(shape)
                if tuple(a.shape) != (len(pts), 3):
                    return ck.bad('Okada', nm, f"shape {show_shape(a.shape)}, {(len(pts), 3)} expected")
                settle(ck, 'Okada', nm, w, [a.at((k, c)) for c in range(3)], okada(*pts[k], vert).nodes(), "displacement and Okada's solution")
            ob(ck, 'Okada', nm, disp)
    scales(ck)
    structure(ck)
    parameters(ck)
    interferogram(ck)
    los(ck)


REAL = dict(O=rng(6e5, 7e5), U=rng(2e4, 9e4), V=rng(2e4, 9e4), center=rng(6.2e5, 7.9e5), depth_top=rng(1e3, 3e3), depth_bottom=rng(8e3, 1.5e4),
            strike=rng(5, 355), dip=rng(10, 80), rake=rng(-170, 170), slip=rng(.2, 3), length=rng(5e3, 2e4), beta=rng(2e10, 4e10), mu=rng(2e10, 4e10))


def displacement(w, o):
    return list(w.arr(w.prop(o, 'displacement_vector')).generic().values())


def scales(ck):
    """Parameters of the size of a real event; other special values."""
    cases = {'realistic size': (REAL, {}), 'strike 0': (FIX, dict(strike=0)), 'strike 360': (FIX, dict(strike=360)), 'rake 0': (FIX, dict(rake=0)),
             'rake 90': (FIX, dict(rake=90)), 'rake 180': (FIX, dict(rake=180)), 'dip 45': (FIX, dict(dip=45)), 'steep dip': (dict(FIX, dip=rng(85, 89.9)), {}),
             'shallow dip': (dict(FIX, dip=rng(.5, 5)), {}), 'fault to the surface': (FIX, dict(depth_top=0)),
             'long fault': (dict(FIX, length=rng(50, 90)), {}), 'large slip': (dict(FIX, slip=rng(50, 90)), {})}
    for tag, (fx, over) in cases.items():
        nm = f"Oksar.displacement_vector, {tag}"

        def go():
            w = W()
            o = w.quake((1, 1), **over)
            a = displacement(w, o)
            ck.note(w)
            u = okada(*grid((1, 1))[0]).nodes()

            def leaf(n):
                k = ir.node(n)
                if k[0] == 'sym' and k[1] in over:
                    return ir.const(over[k[1]])
            settle(ck, 'Okada', nm, w, a, ir.substitute(u, leaf), "displacement and Okada's solution", fixed=fx)
        ob(ck, 'Okada', nm, go)
    nm = "Oksar: default parameters"

    def defaults():
        w = W()
        kw = {n: w.array(n, (2,), spec.M) for n in VEC2}
        o = w.I.call(w.get('Oksar'), [], dict(kw, depth_top=w.scalar('depth_top', sign='+')))
        for n, v in dict(depth_bottom=10000, strike=0, dip=45, rake=90, slip=F(1, 2), length=10000, beta=3 * 10 ** 10, mu=3 * 10 ** 10).items():
            settle(ck, 'defaults', f"{nm}: {n}", w, nodes_of(w, w.prop(o, n)), [ir.const(v)], f"default and documented {n}")
        settle(ck, 'defaults', f"{nm}: shape", w, nodes_of(w, w.prop(o, 'shape')), [ir.const(300), ir.const(300)], 'default and documented shape')
    ob(ck, 'defaults', nm, defaults)


def structure(ck):
    def cut():
        w = W()
        u = displacement(w, w.quake((1, 1)))
        a = displacement(w, w.quake((1, 1), depth_bottom=w.scalar('mid', sign='+')))
        b = displacement(w, w.quake((1, 1), depth_top=w.scalar('mid', sign='+')))
        ck.note(w)
        settle(ck, 'superposition', 'Oksar: fault cut at a depth', w, u, [ir.add(x, y) for x, y in zip(a, b)], 'whole fault and its two parts',
               samples=1)
    ob(ck, 'superposition', 'Oksar: fault cut at a depth', cut)

    def linear():
        w = W()
        u = displacement(w, w.quake((1, 1)))
        v = displacement(w, w.quake((1, 1), slip=w.num(sym('slip') * 3)))
        z = displacement(w, w.quake((1, 1), slip=0))
        ck.note(w)
        settle(ck, 'linear', 'Oksar: displacement in slip', w, v + z, [ir.mul(ir.const(3), x) for x in u] + [ir.const(0)] * 3, 'three times the slip')
    ob(ck, 'linear', 'Oksar: displacement in slip', linear)

    def move():
        w = W()
        u = displacement(w, w.quake((1, 1)))
        sh = [sym('shift', k) for k in range(2)]
        v = displacement(w, w.quake((1, 1), O=w.pair(*[sym('O', k) + sh[k] for k in range(2)]),
                                    center=w.pair(*[sym('center', k) + sh[k] for k in range(2)])))
        ck.note(w)
        settle(ck, 'translation', 'Oksar: grid and fault moved together', w, u, v, 'displacement before and after')
    ob(ck, 'translation', 'Oksar: grid and fault moved together', move)


RANGES = dict(depth_top=((-1e-9, -3.), (0., .5)), strike=((-1e-3, 360.5, -90.), (0., 17., 359., 360.)), dip=((-.01, 90.1, 180.), (0., 33., 90.)),
              rake=((-180.5, 181., 400.), (-180., -17., 0., 170., 180.)), slip=((-.1, -9.), (0., .1, 30.)), length=((-.1, -1e5), (0., 1., 1e6)),
              depth_bottom=((.1, .29, 0.), (1.1, 5., 1e5)), beta=((), (1., 1e10)), mu=((), (1., 1e10)))


def parameters(ck):
    from .p_valid import verdict_at
    for n in VEC2 + SCAL:
        nm = f"Oksar.{n}"

        def read():
            w = W()
            o = w.quake((2, 1))
            settle(ck, 'reads back', nm, w, nodes_of(w, w.kw[n]), nodes_of(w, w.prop(o, n)), f"{n} as given and as read back")
            new = w.array('new_' + n, (2,)) if n in VEC2 else w.scalar('new_' + n, sign='+')
            displacement(w, o)
            w.I.setattr(o, n, new)
            want = nodes_of(w, new)
            fx = dict(FIX)
            fx['new_' + n] = FIX[n]
            settle(ck, 'reads back', nm + ' after setting', w, want, nodes_of(w, w.prop(o, n)), f"{n} as set and as read back", fixed=fx)
            for p in VEC2 + SCAL:
                if p != n:
                    settle(ck, 'reads back', f"Oksar.{p} after setting {n}", w, nodes_of(w, w.kw[p]), nodes_of(w, w.prop(o, p)),
                           f"{p} before and after setting {n}", fixed=fx)
            fresh = W.quake(w, (2, 1), **{n: new})
            ck.note(w)
            a, b = displacement(w, fresh), displacement(w, o)
            for k in (0, 1):       # one point at a time
                settle(ck, 'settable', f"{nm}: displacement of point {k} after setting", w, a[3 * k:3 * k + 3], b[3 * k:3 * k + 3],
                       f"displacement of a model constructed with {n} and of one whose {n} was set", fixed=fx, samples=1)
            if n in VEC2:
                scribble(w, new, n)
                settle(ck, 'owns its parameters', nm, w, want, nodes_of(w, w.prop(o, n)), f"{n} after the caller overwrote its array", fixed=fx)
        ob(ck, 'reads back', nm, read)
        if n in RANGES:
            for how in ('constructor', 'setter'):
                def rngs():
                    bad, good = RANGES[n]
                    for v in bad + good:
                        w = W()
                        x = w.scalar('given')
                        try:
                            if how == 'constructor':
                                w.quake((1, 1), **{n: x})
                            else:
                                o = w.quake((1, 1))
                                del w.I.guards[:]
                                w.I.setattr(o, n, x)
                            r = verdict_at(w.I.guards, w.signs, dict(FIX, given=v))
                        except AbsRaise:
                            r = True
                        if n == 'depth_top' and how == 'constructor' and v > 1:
                            continue
                        if r is None:
                            return ck.undecided('range', f"{nm} by {how}", f"guard not decided at {v}")
                        if r != (v in bad):
                            return ck.bad('range', f"{nm} by {how}", f"{n} = {v} is {'rejected' if r else 'accepted'}")
                    ck.ok('range', f"{nm} by {how}")
                ck.obligation('range', f"{nm} by {how}", rngs)
        else:
            for shp in ((), (3,), (2, 2)):
                def shapes():
                    w = W()
                    o = w.quake((1, 1))
                    try:
                        w.I.setattr(o, n, w.array('given', shp))
                    except (AbsRaise, ShapeError):
                        return ck.ok('range', f"{nm} of shape {show_shape(shp)}")
                    ck.bad('range', f"{nm} of shape {show_shape(shp)}", 'wrong shape accepted')
                ck.obligation('range', f"{nm} of shape {show_shape(shp)}", shapes)

    def pure():
        w = W()
        o = w.quake((1, 1))
        args = array_args(w.kw)
        before = {n: nodes_of(w, r) for n, r in args.items()}
        v = w.prop(o, 'displacement_vector')
        first = list(w.arr(v).generic().values())
        g = w.prop(o, 'simulation_grid')
        scribble(w, v, 'u')
        scribble(w, g, 'g')
        ck.note(w)
        settle(ck, 'repeatable', 'Oksar.displacement_vector', w, first, displacement(w, o), 'first and second evaluation')
        for n, r in args.items():
            settle(ck, 'input unchanged', f"Oksar: {n}", w, before[n], nodes_of(w, r), f"the caller's {n} before and after")
    ob(ck, 'repeatable', 'Oksar.displacement_vector', pure)


FLOATS = ('ref_incidence', 'satellite_azimuth', 'satellite_altitude', 'scaling', 'satellite_fringe_interval', 'local_earth_radius', 'local_rigidity')
STRS = ('title', 'processed_by', 'description', 'event_country', 'event_name', 'copyright', 'data_source', 'satellite_name', 'event_gcmt_id')
DATES = ('date1', 'date2', 'processed_date', 'event_date')
PAIRS = ('location', 'pixel_size', 'ref')


def gram(w, **over):
    kw = {n: w.scalar(n, sign='+') for n in FLOATS}
    kw.update({n: w.array(n, (2,)) for n in PAIRS})
    kw.update({n: 'text of ' + n for n in STRS})
    import datetime
    kw.update({n: datetime.datetime(1995, 1 + k, 2 + k) for k, n in enumerate(DATES)})
    kw.update(data=w.array('data', (6,)), location_UTM_zone=35, shape=(2, 3))
    kw.update(over)
    w.kw = kw
    return w.I.call(w.get('EarthquakeInterferogram'), [], dict(kw))


def interferogram(ck):
    def same(rule, nm, w, a, b, what):
        if isinstance(a, (str, int, tuple)) or type(a).__name__ == 'datetime':
            if type(b).__name__ == 'OpaqueV' or type(b).__name__ == 'StrV':
                return ck.undecided(rule, nm, 'value not followed')
            return ck.ok(rule, nm) if a == b else ck.bad(rule, nm, f"{what}: {a!r} and {b!r}")
        return settle(ck, rule, nm, w, nodes_of(w, a), nodes_of(w, b), what, fixed={})
    names = FLOATS + PAIRS + STRS + DATES + ('data', 'location_UTM_zone', 'shape')

    def build():
        w = W()
        o = gram(w)
        ck.note(w)
        for n in names:
            same('reads back', f"EarthquakeInterferogram.{n}", w, w.kw[n], w.prop(o, n), f"{n} as given and as read back")
    ob(ck, 'reads back', 'EarthquakeInterferogram', build)
    for n in names:
        def setit():
            import datetime
            w = W()
            o = gram(w)
            new = w.scalar('new', sign='+') if n in FLOATS else w.array('new', (2,)) if n in PAIRS else 'new text' if n in STRS else \
                datetime.datetime(2001, 2, 3) if n in DATES else w.array('new', (6,)) if n == 'data' else 17 if n == 'location_UTM_zone' else (3, 2)
            w.I.setattr(o, n, new)
            ck.note(w)
            for p in names:
                same('reads back', f"EarthquakeInterferogram.{p} after setting {n}", w, new if p == n else w.kw[p], w.prop(o, p),
                     f"{p} expected and as read back")
            if n in DATES:
                for text, want in (('1995-09-30T18:05:07Z', datetime.datetime(1995, 9, 30, 18, 5, 7)), ('1995-09-30', datetime.datetime(1995, 9, 30)),
                                   ('1995/09/30', datetime.datetime(1995, 9, 30))):
                    w.I.setattr(o, n, text)
                    same('dates', f"EarthquakeInterferogram.{n} = {text!r}", w, want, w.prop(o, n), 'date given and as read back')
            if n in PAIRS + ('data',):
                want = nodes_of(w, new)
                scribble(w, new, n)
                settle(ck, 'owns its parameters', f"EarthquakeInterferogram.{n}", w, want, nodes_of(w, w.prop(o, n)),
                       f"{n} after the caller overwrote its array", fixed={})
        ob(ck, 'reads back', f"EarthquakeInterferogram.{n}", setit)
        bad = {}
        if n in PAIRS:
            bad = {'shape (3,)': lambda w: w.array('given', (3,)), "'abc'": lambda w: 'abc'}
        elif n in FLOATS:
            bad = {"'abc'": lambda w: 'abc', 'an array': lambda w: w.array('given', (3,))}
        elif n == 'shape':
            bad = {'(1, 2, 3)': lambda w: (1, 2, 3), "'abc'": lambda w: 'abc'}
        elif n in DATES:
            bad = {"'yesterday'": lambda w: 'yesterday'}
        for tag, mk in bad.items():
            def reject():
                w = W()
                o = gram(w)
                try:
                    w.I.setattr(o, n, mk(w))
                except (AbsRaise, ShapeError):
                    return ck.ok('range', f"EarthquakeInterferogram.{n} = {tag}")
                ck.bad('range', f"EarthquakeInterferogram.{n} = {tag}", 'accepted')
            ck.obligation('range', f"EarthquakeInterferogram.{n} = {tag}", reject)


def los(ck):
    fx = dict(ref=rng(1, 3), ref_incidence=rng(20, 45), satellite_azimuth=rng(185, 200), satellite_altitude=rng(.1, .15), local_earth_radius=rng(.9, 1.1),
              place=rng(1, 3))
    for form in ('one', 'list'):
        nm = f"EarthquakeInterferogram.get_LOS_vector of {form} location" + ('s' if form == 'list' else '')

        def go():
            w = W()
            o = gram(w)
            if form == 'one':
                pts = w.array('place', (3,))
                loc = [(sym('place', 0), sym('place', 1))]
            else:
                pts = w.I.new('list', [w.array('place', (2,)), w.array('place2', (2,))])
                loc = [(sym(q, 0), sym(q, 1)) for q in ('place', 'place2')]
            a = w.arr(w.call(o, 'get_LOS_vector', pts))
            ck.note(w)
            shp = (3,) if form == 'one' else (3, 2)
            if tuple(a.shape) != shp:
                return ck.bad('line of sight', nm, f"shape {show_shape(a.shape)}, {shp} expected")

            def ll(x, y):
                z = [x.n, y.n, ir.const(35), ir.const(True)]
                return E(ir.unk('utm_lat', *z)) * pi() / 180, E(ir.unk('utm_lon', *z)) * pi() / 180
            rad = pi() / 180
            lat0, lon0 = ll(sym('ref', 0), sym('ref', 1))
            az = sym('satellite_azimuth') * rad
            k = sym('local_earth_radius') / (sym('local_earth_radius') + sym('satellite_altitude'))
            inc = sym('ref_incidence') * rad
            pole = V(sin(az) * sin(lat0) * cos(lon0) - cos(az) * sin(lon0), sin(az) * sin(lat0) * sin(lon0) + cos(az) * cos(lon0), -sin(az) * cos(lat0))
            want = []
            for x, y in loc:
                lat, lon = ll(x, y)
                # sine of the angle from the great circle of the track: n.p = cos(90 + d)
                d = E(ir.fn('arccos', pole.dot(V(cos(lon) * cos(lat), sin(lon) * cos(lat), sin(lat))).n)) - pi() / 2
                b = inc - E(ir.fn('arcsin', (k * sin(inc)).n)) - d
                al = arctan(sin(b) / (cos(b) - k))
                want.append([-cos(az) * sin(al), sin(az) * sin(al), cos(al)])
            if form == 'list':
                # each location of a list as it would be alone
                each = [w.arr(w.call(o, 'get_LOS_vector', w.array(q, (2,)))) for q in ('place', 'place2')]
                want = [[E(v.at((c,))) for c in range(3)] for v in each]
            for c in range(3):
                for j in range(len(loc)):
                    got = a.at((c,) if form == 'one' else (c, j))
                    settle(ck, 'line of sight', f"{nm}: component {c}" + (f" of location {j}" if form == 'list' else ''), w, [got], [want[j][c].n],
                           'look direction and its definition', fixed=dict(fx, place2=rng(1, 3)))
            for j in range(len(loc) if form == 'one' else 0):
                gs = [E(a.at((c,) if form == 'one' else (c, j))) for c in range(3)]
                settle(ck, 'line of sight', f"{nm}: unit length" + (f" {j}" if form == 'list' else ''), w, [(gs[0] * gs[0] + gs[1] * gs[1] + gs[2] * gs[2]).n],
                       [ir.const(1)], 'length of the vector and 1', fixed=dict(fx, place2=rng(1, 3)))
        ob(ck, 'line of sight', nm, go)
