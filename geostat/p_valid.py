"""C17 invalid input is rejected and leaves the source as it was."""
from . import ir, gf, scen, spec
from .arr import Arr, ShapeError, leaf, show_shape
from .interp import AbsRaise
from .p_field import rng
from .p_state import label, nodes_of, evaluate, obs, ORDERED

POS = (1e-12, 1e-3, 0.7, 1.0, 25.0, 1e6, 1e12)
NEG = (-1e-12, -0.4, -1.0, -30.0, -1e9)
S, FD, TD, GV = 'static.', 'fdem.', 'tdem.', 'gravity.'
EMS = [s.id for s in spec.SOURCES if 'sigma' in s.params and s.params['sigma'].kind == 's']
# (source, parameter) -> (rejected values, accepted values)
RANGE = {}
for _s in EMS:
    RANGE[_s, 'sigma'] = RANGE[_s, 'mu'] = (NEG + (0.0,), POS)
    RANGE[_s, 'epsilon'] = (NEG, POS + (0.0,))
for _s in (S + 'PointCurrentHalfSpace', S + 'DipoleHalfSpace'):
    RANGE[_s, 'rho'] = (NEG + (0.0,), POS)
RANGE[S + 'CircularLoopWholeSpace', 'radius'] = (NEG + (0.0,), POS)
for _s in (S + 'ElectrostaticSphere', S + 'MagnetostaticSphere', GV + 'Sphere'):
    RANGE[_s, 'radius'] = (NEG, POS)
for _p in ('sigma_sphere', 'sigma_background'):
    RANGE[S + 'ElectrostaticSphere', _p] = (NEG + (0.0,), POS)
for _p in ('mu_sphere', 'mu_background'):
    RANGE[S + 'MagnetostaticSphere', _p] = (NEG + (0.0,), POS)
for _s in (FD, TD):
    RANGE[_s + 'ElectricDipoleWholeSpace', 'length'] = (NEG + (0.0,), POS)
for _s in spec.SOURCES:
    for _n, _p in _s.params.items():
        if _p.kind in ('freq', 'time', 'freqs'):
            RANGE[_s.id, _n] = (NEG, POS)
        elif _p.kind == 's' and (_s.id, _n) not in RANGE:
            RANGE[_s.id, _n] = ((), POS + NEG + (0.0,))
RANGE[S + 'PointCurrentWholeSpace', 'rho'] = (NEG, POS)
RANGE[FD + 'MagneticDipoleLayeredHalfSpace', 'thickness'] = (NEG, POS)
RANGE[FD + 'MagneticDipoleLayeredHalfSpace', 'sigma'] = (NEG + (0.0,), POS)
for _p in ('mu', 'epsilon'):       # relative to free space, taken as .5 here
    RANGE[FD + 'MagneticDipoleLayeredHalfSpace', _p] = ((-1., 0., .1, .4), (.5, .7, 1., 30.))
# scalars are shapeless; vectors have shape (3,)
BADSHAPE = {'s': (('N',), (2,), (3,)), 'pos': ((), (2,), (4,), (2, 3)), 'freq': ((2, 2),), 'time': ((2, 2),), 'freqs': ((2, 2),),
            'nodes': ((3, 2), (2, 4), (2, 2, 3))}
for _k in ('posneg', 'pospos', 'vec', 'dir', 'dirh', 'posz0', 'posmin', 'posmax'):
    BADSHAPE[_k] = BADSHAPE['pos']


def verdict_at(guards, signs, fixed, seed=1):
    """Does some guard reject the input at a witness with the given values?"""
    out = []
    for j in range(3):
        w = gf.Witness((seed, 'valid', j), signs, 'plain', None, fixed)
        hit = lost = False
        for c, p, e, loc in guards:
            try:
                if w.truth(c, {}) == p:
                    hit = True
            except (gf.Reject, gf.Undecided):
                lost = True
        if lost and not hit:
            return None
        out.append(hit)
    return out[0] if len(set(out)) == 1 else None


def run(ck):
    for s in spec.SOURCES:
        var = scen.variants(s)[0]
        for p, P in s.params.items():
            for how in ('constructor', 'setter'):
                if (s.id, p) in RANGE:
                    ranges(ck, s, var, p, P, how)
                shapes(ck, s, var, p, P, how)
            atomic(ck, s, var, p, P)
        points(ck, s, var)
        options(ck, s, var)
    special(ck)


def give(w, s, var, p, v, how):
    """Pass v for parameter p by the constructor or by its setter; returns the source."""
    kw = w.ctor_args(s, var)
    if how == 'constructor':
        kw[p] = v
        return w.build(s, kw=kw)
    ob = w.build(s, kw=kw)
    del w.I.guards[:]
    w.I.setattr(ob, p, v)
    return ob


DOMAIN = dict(ORDERED, mu_0=.5, epsilon_0=.5)


def ranges(ck, s, var, p, P, how):
    nm = f"{s.id}.{p} by {how}"
    bad, good = RANGE[s.id, p]

    def one():
        for v in bad + good:
            w = scen.World()
            P2 = spec.P(P.kind, P.unit, None)
            x = w.value('given', P2, 'f', var.get(p, var.get('*' + P.kind)))
            try:
                give(w, s, var, p, x, how)
                fixed = dict(DOMAIN, given=v)
                if 'Layered' in s.cls:
                    fixed.update(mu=rng(1, 3), epsilon=rng(1, 3))
                r = verdict_at(w.I.guards, w.signs, fixed)
            except (AbsRaise, ShapeError) as e:
                r = True
            ck.note(w)
            if r is None:
                ck.undecided('range', nm, f'guard not decided at {v}')
                return
            if r != (v in bad):
                return ck.bad('range', nm, f"{p} = {v} is {'rejected' if r else 'accepted'}")
        ck.ok('range', nm, f"{len(bad)} rejected and {len(good)} accepted regions")
    ck.obligation('range', nm, one)


def raises(ck, rule, nm, w, go, what):
    """go() must raise whatever the values are."""
    try:
        go()
    except AbsRaise as e:
        ck.note(w)
        return ck.ok(rule, nm, str(e)[:80])
    except ShapeError as e:
        ck.note(w)
        return ck.ok(rule, nm, f"ValueError: {e}"[:80])
    ck.note(w)
    return ck.bad(rule, nm, f"{what} is accepted")


def wrong(w, P, shp):
    return w.I.arr(leaf('given', shp, 'f'))


def shapes(ck, s, var, p, P, how):
    if P.kind not in BADSHAPE:
        return
    for shp in BADSHAPE[P.kind]:
        nm = f"{s.id}.{p} of shape {show_shape(shp)} by {how}"

        def one():
            w = scen.World()
            raises(ck, 'wrong shape', nm, w, lambda: give(w, s, var, p, wrong(w, P, shp), how), f"{p} of shape {show_shape(shp)}")
        ck.obligation('wrong shape', nm, one)
    for v in ('abc', None) if P.kind == 's' else ('abc',):
        nm = f"{s.id}.{p} = {v!r} by {how}"

        def typ():
            w = scen.World()
            raises(ck, 'wrong type', nm, w, lambda: give(w, s, var, p, v, how), f"{p} = {v!r}")
        ck.obligation('wrong type', nm, typ)


def atomic(ck, s, var, p, P):
    """A rejected assignment leaves the parameter and the fields as they were."""
    cases = []
    if (s.id, p) in RANGE and not (P.kind == 'layer' and p != 'sigma'):
        for v in RANGE[s.id, p][0][1:2]:
            cases.append((f"{v}", lambda w, v=v: const_value(w, P, var, p, v)))
    for shp in BADSHAPE.get(P.kind, ())[-1:]:
        cases.append((f"shape {show_shape(shp)}", lambda w, shp=shp: wrong(w, P, shp)))
    cases.append(("'abc'", lambda w: 'abc'))
    for tag, mk in cases:
        nm = f"{s.id}.{p}: rejected assignment ({tag})"

        def one():
            w = scen.World()
            ob = w.build(s, var)
            m = next(iter(s.methods))
            o = scen.optsets(s.methods[m])[0]
            x = obs(w, s, m, o)
            f0 = evaluate(w, s, ob, m, o, x)
            v0 = nodes_of(w, w.prop(ob, p))
            try:
                w.I.setattr(ob, p, mk(w))
            except (AbsRaise, ShapeError):
                pass
            else:
                return ck.undecided('atomic', nm, 'not rejected')
            ck.note(w)
            g = [(c, q) for c, q, _, _ in w.I.guards]
            pairs = list(zip(v0, nodes_of(w, w.prop(ob, p)))) + list(zip(f0, evaluate(w, s, ob, m, o, x)))
            res = gf.decide(pairs, w.signs, g, seed=ck.seed, ncell=8, samples=1)
            ck.verdict('atomic', nm, res, ir.where(res.idx[0]) if res.idx else (), f"{p} and {m} before and after the rejected assignment")
        ck.obligation('atomic', nm, one)


def const_value(w, P, var, p, v):
    c = ir.const(v)
    if P.kind in ('freq', 'time', 's'):
        return w.I.arr(Arr((), lambda idx: c, 'f', wk=True))
    if P.kind == 'layer':
        return w.I.arr(Arr((2,), lambda idx: c, 'f'))
    return w.I.arr(Arr((2,), lambda idx: c, 'f'))


def points(ck, s, var):
    for m, r in s.methods.items():
        if r.arg == 'xy' or 'Layered' in s.cls:
            continue
        for shp in (('N', 2), ('N', 4), (2,)):
            nm = f"{s.id}.{m} at points of shape {show_shape(shp)}"

            def one():
                w = scen.World()
                ob = w.build(s, var)
                x = w.I.arr(leaf('xyz', shp, 'f'))
                raises(ck, 'wrong points', nm, w, lambda: w.call(ob, m, x), f"xyz of shape {show_shape(shp)}")
            ck.obligation('wrong points', nm, one)


def options(ck, s, var):
    for m, r in s.methods.items():
        for k in r.opts:
            if k != 'coordinates':
                continue          # an unknown field= is treated as the default
            nm = f"{s.id}.{m} with {k}='bogus'"

            def one():
                w = scen.World()
                ob = w.build(s, var)
                x = obs(w, s, m, {})
                raises(ck, 'unknown option', nm, w, lambda: w.call(ob, m, x, **{k: 'bogus'}), f"{k}='bogus'")
            ck.obligation('unknown option', nm, one)
    for p, P in s.params.items():
        if P.kind in ('dir', 'dirh'):
            for v in ('W', '', 'XY') + (('Z', 'z') if P.kind == 'dirh' else ()):
                for how in ('constructor', 'setter'):
                    nm = f"{s.id}.{p} = {v!r} by {how}"

                    def one():
                        w = scen.World()
                        raises(ck, 'unknown option', nm, w, lambda: give(w, s, var, p, v, how), f"{p}={v!r}")
                    ck.obligation('unknown option', nm, one)


def zsign(ck, s, p, how, bad, good):
    """Vertical position of a source or receiver of a half-space."""
    nm = f"{s.id}: vertical position of {p} by {how}"
    var = scen.variants(s)[0]

    def one():
        for v in bad + good:
            w = scen.World()
            try:
                if how == 'evaluation':
                    ob = w.build(s, var)
                    m = p.split('.')[0]
                    w.signs.pop(('xyz', 2), None)
                    del w.I.guards[:]
                    x = w.points('given')
                    y = w.points('other')
                    w.signs['other', 2] = '-'
                    a = (y, x) if p.endswith('.n') else (x,)
                    w.call(ob, m, *a)
                else:
                    give(w, s, var, p, w.array('given', (3,)), how)
                fx = {'mu_0': .5, 'epsilon_0': .5, 'mu': rng(1, 3), 'epsilon': rng(1, 3)}
                fx.update({('given', i): v for i in ((2,), (('i', 'i0'), 2), (0, 2), (1, 2))})
                r = verdict_z(w.I.guards, w.signs, fx, v)
            except AbsRaise:
                r = True
            ck.note(w)
            if r is None:
                return ck.undecided('half-space', nm, f'guard not decided at {v}')
            if r != (v in bad):
                return ck.bad('half-space', nm, f"z = {v} is {'rejected' if r else 'accepted'}")
        ck.ok('half-space', nm)
    ck.obligation('half-space', nm, one)


def verdict_z(guards, signs, fixed, v):
    class Wz(gf.Witness):
        def symval(self, name, idx):
            if name == 'given' and idx and idx[-1] == 2:
                return v
            return super().symval(name, idx)
    out = set()
    for j in range(3):
        w = Wz((1, 'z', j), signs, 'plain', None, {k: q for k, q in fixed.items() if isinstance(k, str)})
        hit = False
        for c, p, e, loc in guards:
            try:
                hit |= w.truth(c, {}) == p
            except (gf.Reject, gf.Undecided):
                return None
        out.add(hit)
    return out.pop() if len(out) == 1 else None


def special(ck):
    up, down = (1e-9, .5, 30.), (-1e-9, -.5, -30.)
    pc, dh = spec.BYID[S + 'PointCurrentHalfSpace'], spec.BYID[S + 'DipoleHalfSpace']
    for how in ('constructor', 'setter'):
        zsign(ck, pc, 'location', how, up, down + (0.,))
        zsign(ck, dh, 'location_a', how, up, down + (0.,))
        zsign(ck, dh, 'location_b', how, up, down + (0.,))
    for m in pc.methods:
        zsign(ck, pc, m, 'evaluation', up, down + (0.,))
        zsign(ck, dh, m, 'evaluation', up, down + (0.,))
        zsign(ck, dh, m + '.n', 'evaluation', up, down + (0.,))
    lay = spec.BYID[FD + 'MagneticDipoleLayeredHalfSpace']
    zsign(ck, lay, 'location', 'constructor', down, up + (0.,))
    zsign(ck, lay, 'magnetic_field', 'evaluation', down, up + (0.,))
    zsign(ck, spec.BYID[FD + 'MagneticDipoleHalfSpace'], 'location', 'constructor', down + up, (0.,))
    for sid in (FD + 'HarmonicPlaneWave', TD + 'TransientPlaneWave'):
        for how in ('constructor', 'setter'):
            zsign(ck, spec.BYID[sid], 'orientation', how, up + down, (0.,))
    for sid in (S + 'MagneticPrism', GV + 'Prism'):
        s = spec.BYID[sid]
        for k in range(3):
            nm = f"{sid}: corners out of order along {'xyz'[k]}"

            def one():
                w = scen.World()
                w.build(s, {})
                for lo, hi, want in ((1., 2., False), (2., 1., True), (1., 1., True)):
                    fx = {}
                    for j in range(3):
                        fx['min_location', (j,)], fx['max_location', (j,)] = (lo, hi) if j == k else (-1., 1.5)
                    r = verdict_at(w.I.guards, w.signs, fx)
                    if r is None:
                        return ck.undecided('corners', nm, 'guard not decided')
                    if r != want:
                        return ck.bad('corners', nm, f"corners {lo} and {hi} are {'rejected' if r else 'accepted'}")
                ck.note(w)
                ck.ok('corners', nm)
            ck.obligation('corners', nm, one)
