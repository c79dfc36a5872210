"""C23: plot2Ddata draws what it is given.

The function is interpreted with a recording drawing library and uninterpreted interpolants: what reaches the drawing
library (coordinates, values, levels, limits, options, the axes) is compared with the definition, for every grid value.
"""
import itertools
from fractions import Fraction as F
from . import ir, gf, scen, p_quake
from .arr import Arr, ShapeError, Unsupported, comb
from .checklib import Broken
from .interp import AbsRaise, MaskV, OpaqueV, RecV, Ref, is_num

MOD = 'geoana.plotting_utils'
NPTS = 4
DEF = dict(vec=False, nx=2, ny=3, ncontour=10, scale='linear', method='linear', level=False, shade=False, dataloc=False)


class Stage:
    """A world whose drawing library records and whose interpolants are uninterpreted."""

    def __init__(self, w=None):
        self.w = w or scen.World()
        self.I = I = self.w.I
        self.log = []
        self.table = {}
        I.stubs = {'matplotlib': self.draw, 'scipy.interpolate': self.interp, 'numpy.ma': self.masked}

    # -- libraries
    def draw(self, I, name, args, kw):
        r = RecV(tuple(name.split('.')[1:]), self.log).called(I, args, kw)
        if name.split('.')[-1] == 'subplots' and not args:
            return (r.child('figure'), r.child('axes'))
        return r

    def masked(self, I, name, args, kw):
        f = name.split('.')[-1]
        if f in ('masked_array', 'array', 'MaskedArray'):
            a = list(args)
            data = a[0] if a else kw.pop('data')
            mask = a[1] if len(a) > 1 else kw.pop('mask', None)
            if kw or len(a) > 2:
                raise Unsupported(f)
            return MaskV(data, mask) if mask is not None else data
        if f == 'masked_where' and len(args) == 2:
            return MaskV(args[1], args[0])
        if f == 'masked_invalid' and len(args) == 1:
            A = I.to_arr(args[0])
            return MaskV(args[0], I.arr(Arr(A.shape, lambda idx: ir.or_(ir.unk('isnan', A.at(idx)), ir.unk('isinf', A.at(idx))), 'b')))
        raise Unsupported(f"numpy.ma.{f}")

    def interp(self, I, name, args, kw):
        kind = name.split('.')[-1]
        a = list(args) + [kw.pop(n) for n in ('points', 'values')[len(args):] if n in kw]
        if kind == 'griddata' and len(a) in (2, 3):
            xi = a[2] if len(a) == 3 else kw.pop('xi')
            k = {'linear': 'LinearNDInterpolator', 'nearest': 'NearestNDInterpolator'}.get(kw.pop('method', 'linear'))
            if kw or k is None:
                raise Unsupported('griddata with options')
            return self.interpolant(k, a[0], a[1])(I, [xi], {})
        if kind == 'NearestNDInterpolator' and len(a) == 2:
            a.append(kw.pop('rescale', False))
            kw.pop('tree_options', None)
            if a.pop() is not False:
                kind += '(rescaled)'
        if kind not in ('LinearNDInterpolator', 'NearestNDInterpolator', 'CloughTocher2DInterpolator', 'NearestNDInterpolator(rescaled)') \
                or kw or len(a) != 2:
            raise Unsupported(f"{kind} with options")
        return self.interpolant(kind, a[0], a[1])

    def interpolant(self, kind, points, values):
        P, V = self.points(points), self.I.to_arr(values)
        if len(P.shape) != 2 or P.shape[1] != 2 or P.shape[0] != V.shape[0]:
            raise AbsRaise('ValueError', f"{kind}: points {P.shape}, values {V.shape}", ir.G.loc)

        def F_(I, args, kw):
            X = self.points(args[0] if len(args) == 1 else tuple(args))
            if X.shape[-1] != 2:
                raise AbsRaise('ValueError', 'number of dimensions in xi', ir.G.loc)
            lead, tail = tuple(X.shape[:-1]), tuple(V.shape[1:])

            def at(idx):
                x = [X.at(tuple(idx[:len(lead)]) + (k,)) for k in range(2)]
                return self.value(kind, P, V, tuple(idx[len(lead):]), x)
            return I.arr(Arr(lead + tail, at, V.kind if kind.startswith('Nearest') else 'f'))
        return F_

    def value(self, kind, P, V, col, x):
        """Interpolated value at a point: nan outside of the hull of the data, and infinite data stay infinite."""
        n = P.shape[0]
        key = (kind, tuple(P.at((i, k)) for i in range(n) for k in range(2)), tuple(V.at((i,) + col) for i in range(n)))
        f = self.table.setdefault(key, f"interp{len(self.table)}:{kind}")
        v = ir.fn(f, *x)
        if V.kind == 'b':
            return ir.cmp('>', v, ir.const(0))
        if kind.startswith('Nearest'):
            return v
        out = ir.cmp('>', ir.fn('interp:out', *x), ir.const(F(12, 10)))
        far = ir.cmp('>', ir.fn(f + ':inf:out', *x), ir.const(F(14, 10)))
        return ir.gate(out, ir.G.mk('const', 'nan'), ir.gate(far, ir.G.mk('const', 'inf'), v))

    def points(self, v):
        """An array whose last axis lists coordinates, from an array or a tuple of coordinate arrays."""
        if isinstance(v, tuple):
            cs = [self.I.to_arr(x) for x in v]
            sh = max((tuple(c.shape) for c in cs), key=len)
            return Arr(sh + (len(cs),), lambda idx: cs[idx[-1]].at(tuple(idx[:-1])), 'f')
        return self.I.to_arr(v)

    # -- the call
    def call(self, opts, cols=3):
        w, I = self.w, self.I
        m = I.load(MOD)
        f = I.heap[m.nsid].get('plot2Ddata')
        if f is None:
            raise Broken('plot2Ddata is gone')
        self.opts = dict(DEF, **opts)
        self.xyz = w.array('xyz', (NPTS, cols))
        self.data = w.array('data', (NPTS, 2) if self.opts['vec'] else (NPTS,))
        kw = {}
        self.dicts = {}
        for k, v in opts.items():
            if k == 'ax':
                v = self.ax = RecV(('ax',), self.log)
            elif k == 'mask':
                v = self.mask = w.array('mask', (NPTS,), kind='b')
            elif isinstance(v, dict):
                v = I.new('dict', {a: self.given(b) for a, b in v.items()})
                self.dicts[k] = (v, dict(I.heap[v.id]))
            else:
                v = self.given(v)
            kw[k] = v
        for k in ('nx', 'ny'):
            kw.setdefault(k, DEF[k])
        self.before = self.state()
        self.ret = I.call(f, [self.xyz, self.data], kw)
        return self.ret

    def given(self, v):
        """Option values: numbers by value, text as text, ('s', name) a symbol, lists as arrays."""
        if isinstance(v, tuple) and v and v[0] == 's':
            return self.w.scalar(v[1])
        if isinstance(v, list):
            return self.I.arr(self.I.to_arr(tuple(v)))
        return F(v) if isinstance(v, float) else v

    def state(self):
        I = self.I
        return {n: list(I.to_arr(getattr(self, n)).generic().values()) for n in ('xyz', 'data', 'mask') if hasattr(self, n)}

    def node(self, v):
        """Scalar node of a number or a 0-d array."""
        return self.I.to_arr(v).at(())


# ------------------------------------------------------------------ definition
class Want:
    def __init__(self, st):
        self.st = st
        o = self.o = st.opts
        X = st.I.to_arr(st.xyz)
        self.P = Arr((NPTS, 2), lambda idx: X.at(idx), 'f')
        self.x = self.axis(0, o['nx'])
        self.y = self.axis(1, o['ny'])
        self.shape = (o['ny'], o['nx'])
        D = st.I.to_arr(st.data)
        kind = 'NearestNDInterpolator' if o['method'] == 'nearest' else 'LinearNDInterpolator'
        self.comp = [self.grid(lambda x: st.value(kind, self.P, D, c, x)) for c in (((0,), (1,)) if o['vec'] else ((),))]
        if o['vec']:
            self.Z = {p: ir.fn('sqrt', ir.add(ir.mul(self.comp[0][p], self.comp[0][p]), ir.mul(self.comp[1][p], self.comp[1][p])))
                      for p in self.comp[0]}
        else:
            self.Z = self.comp[0]
        if o['scale'] == 'log':
            self.Z = {p: ir.fn('abs', v) for p, v in self.Z.items()}
        self.fin = {p: ir.not_(ir.or_(ir.unk('isnan', v), ir.unk('isinf', v))) for p, v in self.Z.items()}
        if hasattr(st, 'mask'):
            M = st.I.to_arr(st.mask)
            self.M = self.grid(lambda x: st.value('NearestNDInterpolator', self.P, M, (), x))
        self.lim = [self.limit(0), self.limit(1)]

    def axis(self, k, n):
        vs = [self.P.at((i, k)) for i in range(NPTS)]
        lo, hi = vs[0], vs[0]
        for v in vs[1:]:
            lo, hi = comb('min', lo, v), comb('max', hi, v)
        return [ir.add(lo, ir.mul(ir.sub(hi, lo), ir.const(F(i, n - 1)))) if n > 1 else lo for i in range(n)]

    def grid(self, f):
        return {(j, i): f([self.x[i], self.y[j]]) for j in range(self.shape[0]) for i in range(self.shape[1])}

    def limit(self, k):
        o, how = self.o, ('min', 'max')[k]
        if o.get('clim') is not None:
            ns = [self.st.node(self.st.given(v)) for v in o['clim']]
            return comb(how, *ns)
        c = o.get('contourOpts') or {}
        if ('vmin', 'vmax')[k] in c:
            return self.st.node(self.st.given(c[('vmin', 'vmax')[k]]))
        have, acc = ir.const(False), ir.G.mk('const', 'nan')
        for p in self.Z:
            acc = ir.gate(self.fin[p], ir.gate(have, comb(how, acc, self.Z[p]), self.Z[p]), acc)
            have = ir.or_(have, self.fin[p])
        return acc

    def levels(self):
        n = self.o['ncontour']
        a, b = self.lim
        if self.o['scale'] == 'log':
            a, b = (ir.div(ir.fn('log', v), ir.G.mk('fn', 'log', ir.const(10))) for v in (a, b))
        v = [ir.add(a, ir.mul(ir.sub(b, a), ir.const(F(i, n)))) for i in range(n + 1)]
        return [ir.pow_(ir.const(10), x) for x in v] if self.o['scale'] == 'log' else v

    def shade(self, Z):
        """Relief shading of the surface drawn."""
        az, alt = (self.o.get(k, d) for k, d in (('shade_azimuth', -45), ('shade_angle_altitude', 45)))
        az, alt = (self.st.node(self.st.given(v)) for v in (az, alt))
        pi, c = ir.sym('pi'), ir.const
        az = ir.div(ir.mul(ir.sub(c(360), az), pi), c(180))
        alt = ir.div(ir.mul(alt, pi), c(180))

        def grad(p, k):
            n, i = self.shape[k], p[k]
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            q = lambda j: p[:k] + (j,) + p[k + 1:]
            return ir.div(ir.sub(Z[q(hi)], Z[q(lo)]), c(hi - lo))

        def at(p):
            x, y = grad(p, 0), grad(p, 1)
            slope = ir.sub(ir.div(pi, c(2)), ir.fn('arctan', ir.fn('sqrt', ir.add(ir.mul(x, x), ir.mul(y, y)))))
            asp = ir.fn('arctan2', ir.neg(x), y)
            s, co = (lambda z: ir.fn('sin', z)), (lambda z: ir.fn('cos', z))
            v = ir.add(ir.mul(s(alt), s(slope)), ir.mul(ir.mul(co(alt), co(slope)), co(ir.sub(ir.sub(az, ir.div(pi, c(2))), asp))))
            return ir.div(ir.mul(c(255), ir.add(v, c(1))), c(2))
        return {p: at(p) for p in Z}


# ------------------------------------------------------------------ obligations
class Fail(Exception):
    pass


class Case:
    """One combination of options."""

    def __init__(self, ck, name, opts, cols=3):
        self.ck, self.name, self.opts, self.cols = ck, name, opts, cols

    def run(self):
        ck, nm = self.ck, self.name
        st = self.st = Stage()
        try:
            st.call(self.opts, self.cols)
        except AbsRaise as e:
            return ck.bad('drawing succeeds', nm, f"documented options raise {e}", [str(e.loc)])
        except ShapeError as e:
            return ck.bad('drawing succeeds', nm, f"documented options fail: {e}", [str(ir.G.loc)])
        ck.note(st.w)
        ck.ok('drawing succeeds', nm)
        self.want = Want(st)
        for rule, f in (('surface', self.surface), ('levels', self.levels), ('streamlines', self.streams), ('contour lines', self.lines),
                        ('shading', self.shading), ('data locations', self.locs), ('figure', self.figure), ('result', self.result),
                        ('arguments', self.args)):
            try:
                r = f()
            except Fail as e:
                ck.bad(rule, nm, str(e), [str(self.at)] if getattr(self, 'at', None) else ())
                continue
            except (Unsupported, ShapeError, gf.Undecided, gf.Reject) as e:
                ck.undecided(rule, nm, f"{type(e).__name__}: {e}")
                continue
            if r is not False:
                ck.ok(rule, nm)

    # -- helpers
    def owner(self):
        """Path prefix of the axes drawn on: the caller's, or new ones."""
        return self.st.ret[1]

    def drawn(self, *names):
        out = []
        for d in self.st.log:
            if d.path[-1] not in names:
                continue
            host = d.path[:-1]
            if 'ax' in self.opts:
                if host != ('ax',):
                    raise Fail(f"{d.path[-1]} is not called on the axes given")
            elif host != self.newaxes():
                if host != ('pyplot',):
                    raise Fail(f"{d.path[-1]} is not called on the axes returned")
            out.append(d)
        return out

    def newaxes(self):
        r = self.st.ret
        return r[1].path if isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], RecV) else None

    def equal(self, rule, pairs, what, guards=()):
        """Record a verdict for one group of pairs; True when equal or undecided."""
        ck = self.ck
        gs = [(c, p) for c, p, _, _ in self.st.I.guards] + list(guards)
        res = gf.decide(pairs, self.st.w.signs, gs, seed=ck.seed, ncell=16, samples=1, modes=('plain',), cover=())
        ck.samples += res.samples
        ck.cells += res.cells
        if res.status == 'differ':
            raise Fail(f"{what} differ from the definition" + (f" when {res.info}" if res.info else ''))
        if res.status != 'equal':
            raise gf.Undecided(f"{what}: {res.info}")

    def coords(self, d, rule):
        I, w = self.st.I, self.want
        self.at = d.loc
        if len(d.args) < 3:
            raise Fail(f"{d.path[-1]} is called without coordinates")
        A, B = (I.to_arr(a) for a in d.args[:2])
        ny, nx = w.shape
        if tuple(A.shape) == (ny, nx) and tuple(B.shape) == (ny, nx):
            pairs = [(A.at((j, i)), w.x[i]) for j in range(ny) for i in range(nx)] + [(B.at((j, i)), w.y[j]) for j in range(ny) for i in range(nx)]
        elif tuple(A.shape) == (nx,) and tuple(B.shape) == (ny,):
            pairs = [(A.at((i,)), w.x[i]) for i in range(nx)] + [(B.at((j,)), w.y[j]) for j in range(ny)]
        else:
            raise Fail(f"coordinates have shapes {tuple(A.shape)} and {tuple(B.shape)} on a grid of {nx} by {ny} points")
        self.equal(rule, pairs, f"coordinates given to {d.path[-1]}")

    def finite(self, *which):
        return [(self.want.fin[p], True) for p in self.want.Z] + [(ir.not_(ir.or_(ir.unk('isnan', v), ir.unk('isinf', v))), True)
                                                                for g in which for v in g.values()]

    def grid(self, d, k, want, what, rule, masked=False):
        I, w = self.st.I, self.want
        z = d.args[k]
        m = None
        if isinstance(z, MaskV):
            z, m = z.data, I.to_arr(z.mask)
        A = I.to_arr(z)
        if tuple(A.shape) != w.shape:
            raise Fail(f"{what}: shape {tuple(A.shape)} on a grid of shape {w.shape}")
        self.equal(rule, [(A.at(p), v) for p, v in want.items()], what, self.finite())
        if masked:
            if m is None:
                raise Fail(f"{what}: the mask is not applied")
            if tuple(m.shape) != w.shape:
                raise Fail(f"{what}: mask of shape {tuple(m.shape)}")
            self.equal(rule, [(as_num(m.at(p)), as_num(v)) for p, v in w.M.items()], f"mask of {what}")
        elif m is not None and 'mask' not in self.opts:
            raise gf.Undecided('masked without a mask')

    def main(self):
        ds = self.drawn('contourf')
        if not ds:
            raise Fail("no filled contours are drawn")
        return ds[0]

    def option(self, d, name, default=None):
        return d.kwargs.get(name, default)

    def same_option(self, d, user):
        """The caller's options reach the drawing call."""
        for k, v in user.items():
            if k in ('vmin', 'vmax'):
                continue
            if k not in d.kwargs:
                raise Fail(f"option {k} of the caller does not reach {d.path[-1]}")
            g = d.kwargs[k]
            e = self.st.given(v)
            if isinstance(e, Ref) or is_num(e) and not isinstance(e, bool):
                A, B = self.st.I.to_arr(g), self.st.I.to_arr(e)
                if tuple(A.shape) != tuple(B.shape):
                    raise Fail(f"option {k} of the caller does not reach {d.path[-1]}")
                self.equal('', list(zip(A.generic().values(), B.generic().values())), f"option {k} of {d.path[-1]}")
            elif g != e:
                raise Fail(f"option {k}={e!r} of the caller reaches {d.path[-1]} as {g!r}")

    # -- rules
    def surface(self):
        d = self.main()
        self.coords(d, 'surface')
        self.grid(d, 2, self.want.Z, 'values of the filled contours', 'surface', 'mask' in self.opts)
        self.same_option(d, self.opts.get('contourOpts') or {})
        n = len(self.drawn('contourf'))
        if n != (2 if self.opts.get('shade') else 1):
            raise Fail(f"{n} filled contour plots are drawn")

    def levels(self):
        st, d = self.st, self.main()
        self.at = d.loc
        user = self.opts.get('contourOpts') or {}
        lv = d.args[3] if len(d.args) > 3 else d.kwargs.get('levels')
        if 'levels' not in user:
            if lv is None:
                raise Fail("no levels are passed")
            L = st.I.to_arr(lv)
            want = self.want.levels()
            if tuple(L.shape) != (len(want),):
                raise Fail(f"levels of shape {tuple(L.shape)}, not {len(want)}")
            self.clean([L.at((i,)) for i in range(len(want))], 'levels')
            self.equal('levels', [(L.at((i,)), v) for i, v in enumerate(want)], 'levels', self.some())
        if 'norm' in user:
            return
        norm = d.kwargs.get('norm')
        got = [d.kwargs.get('vmin'), d.kwargs.get('vmax')]
        log = None
        if isinstance(norm, RecV):
            c = next((x for x in st.log if x.result is norm), None)
            if c is None:
                raise gf.Undecided('norm')
            log = {'Normalize': False, 'LogNorm': True}.get(c.path[-1])
            if log is None:
                raise gf.Undecided('norm ' + c.path[-1])
            a = list(c.args) + [None, None]
            n2 = [c.kwargs.get('vmin', a[0]), c.kwargs.get('vmax', a[1])]
            if any(g is not None for g in got) and any(g is not None for g in n2):
                raise Fail("limits are passed both with the norm and as options")
            got = [g if g is not None else x for g, x in zip(got, n2)]
        elif isinstance(norm, str):
            log = {'linear': False, 'log': True}.get(norm)
        elif norm is None:
            log = False
        if log is None:
            raise gf.Undecided('norm')
        if log != (self.st.opts['scale'] == 'log'):
            raise Fail(f"a {'logarithmic' if log else 'linear'} colour scale is used")
        for g, v, nm in zip(got, self.want.lim, ('lower', 'upper')):
            if g is None:
                raise Fail(f"the {nm} colour limit is not passed")
            self.clean([st.node(g)], f"the {nm} colour limit")
            self.equal('levels', [(st.node(g), v)], f"{nm} colour limits", self.some())

    def some(self):
        any_ = ir.const(False)
        for c in self.want.fin.values():
            any_ = ir.or_(any_, c)
        return [(any_, True)]

    def clean(self, nodes, what):
        """Grid points without data do not reach the limits."""
        if not gf.nanny(*nodes):
            return
        seen = 0
        any_ = self.some()[0][0]
        for s in range(40):
            w = gf.Witness(s, self.st.w.signs)
            try:
                if not w.truth(any_, {}):
                    continue
                bad = [w.nonfinite(n, {}) for n in nodes]
            except gf.NaNCompared:
                raise Fail(f"{what}: grid points without data enter")
            except gf.Reject:
                continue
            seen += 1
            if any(bad):
                raise Fail(f"{what}: grid points without finite data enter")
        self.ck.samples += seen

    def streams(self):
        ds = self.drawn('streamplot')
        if not self.st.opts['vec']:
            if ds:
                raise Fail("streamlines of scalar data")
            return False
        if len(ds) != 1:
            raise Fail(f"{len(ds)} streamline plots")
        d = ds[0]
        self.coords(d, 'streamlines')
        if len(d.args) < 4:
            raise Fail("components are not passed")
        for k, c in enumerate(self.want.comp):
            self.grid(d, 2 + k, c, f"component {k} of the streamlines", 'streamlines')
        self.same_option(d, self.opts.get('streamplotOpts') or {})
        self.above(d, 'streamplotOpts')

    def above(self, d, opt):
        """Drawn above the filled contours."""
        if 'zorder' in (self.opts.get(opt) or {}) or 'zorder' in (self.opts.get('contourOpts') or {}):
            return
        a, b = d.kwargs.get('zorder'), self.main().kwargs.get('zorder')
        if is_num(a) and is_num(b) and not a > b:
            raise Fail(f"{d.path[-1]} is drawn below the filled contours")

    def lines(self):
        ds = self.drawn('contour')
        if not self.st.opts['level']:
            if ds:
                raise Fail("contour lines that were not asked for")
            return False
        if len(ds) != 1:
            raise Fail(f"{len(ds)} contour line plots")
        d = ds[0]
        self.coords(d, 'contour lines')
        self.grid(d, 2, self.want.Z, 'values of the contour lines', 'contour lines', 'mask' in self.opts)
        user = self.opts.get('levelOpts') or {}
        self.same_option(d, user)
        if 'levels' not in user:
            lv = d.args[3] if len(d.args) > 3 else d.kwargs.get('levels')
            if lv is None:
                raise Fail("no levels are passed to contour")
            L = self.st.I.to_arr(lv)
            want = self.want.levels()
            if tuple(L.shape) != (len(want),):
                raise Fail(f"levels of shape {tuple(L.shape)}, not {len(want)}")
            self.equal('levels', [(L.at((i,)), v) for i, v in enumerate(want)], 'levels of the contour lines', self.some())
        self.above(d, 'levelOpts')

    def shading(self):
        if not self.opts.get('shade'):
            return False
        ds = self.drawn('contourf')
        if len(ds) < 2:
            raise Fail("no shading is drawn")
        d = ds[1]
        self.coords(d, 'shading')
        Z = self.st.I.to_arr(ds[0].args[2])
        self.relief(d, Z)
        n = d.args[3] if len(d.args) > 3 else d.kwargs.get('levels')
        want = self.opts.get('shade_ncontour', 100)
        if n is None or not is_num(n) or n != want:
            raise Fail(f"{n} shading contours instead of {want}")
        self.same_option(d, self.opts.get('shadeOpts') or {})
        self.above(d, 'shadeOpts')

    def relief(self, d, Z):
        """The shading in terms of the surface drawn (whose own values the surface rule settles)."""
        w, cells = self.want, {p: Z.at(p) for p in self.want.Z}
        z = d.args[2]
        A = self.st.I.to_arr(z.data if isinstance(z, MaskV) else z)
        if tuple(A.shape) == w.shape and len(set(cells.values())) == len(cells):
            m = {n: ir.sym('cell', p) for p, n in cells.items() if ir.cval(n) is None}
            got = ir.substitute([A.at(p) for p in cells], m.get)
            want = list(w.shade({p: m.get(n, n) for p, n in cells.items()}).values())
            if all(gf.decide([(a, b)], self.st.w.signs, seed=self.ck.seed, ncell=8, samples=1, modes=('plain',), cover=()).status == 'equal' for a, b in zip(got, want)):
                return
        self.grid(d, 2, w.shade(cells), 'shading', 'shading')

    def locs(self):
        ds = self.drawn('plot', 'scatter')
        if not self.st.opts['dataloc']:
            if ds:
                raise Fail("data locations that were not asked for")
            return False
        if len(ds) != 1:
            raise Fail(f"{len(ds)} plots of the data locations")
        d = ds[0]
        self.at = d.loc
        I = self.st.I
        if len(d.args) < 2:
            raise Fail("data locations are not passed")
        for k in range(2):
            A = I.to_arr(d.args[k])
            if tuple(A.shape) != (NPTS,):
                raise Fail("not one marker for each location")
            self.equal('data locations', [(A.at((i,)), self.want.P.at((i, k))) for i in range(NPTS)], f"coordinate {k} of the data locations")

    def figure(self):
        st = self.st
        ds = [d for d in st.log if d.path[-1] == 'savefig']
        name = self.opts.get('figname')
        if not name:
            if ds:
                raise Fail("a figure is saved without a name")
            return False
        if len(ds) != 1:
            raise Fail(f"the figure is saved {len(ds)} times")
        d = ds[0]
        self.at = d.loc
        got = d.args[0] if d.args else d.kwargs.get('fname')
        if got != name:
            raise Fail(f"saved as {got!r}, not {name!r}")
        host = d.path[:-1]
        if 'ax' in self.opts:
            good = host == ('ax', 'figure') or host[:2] == ('ax', 'get_figure')
        else:
            good = host[0] == 'pyplot'
        if not good:
            raise Fail(f"saves {'.'.join(host)}, not the figure of the axes")
        off = [x for x in st.log if x.path[-1] == 'axis' and x.args[:1] and x.args[0] in ('off', False) or x.path[-1] == 'set_axis_off']
        if 'ax' in self.opts and any(x.path[:-1] != ('ax',) for x in off):
            raise Fail("the axes switched off are not the axes given")
        if any(x.path[-1] in ('contourf', 'contour', 'streamplot', 'plot', 'scatter') for x in st.log[st.log.index(d):]):
            raise Fail("drawn after the figure is saved")

    def result(self):
        st, r = self.st, self.st.ret
        n = 3 if st.opts['level'] else 2
        if not isinstance(r, tuple) or len(r) != n:
            raise Fail(f"{len(r) if isinstance(r, tuple) else r!r} results instead of {n}")
        if not isinstance(r[0], RecV) or r[0] is not self.main().result:
            raise Fail("the first result is not the filled contour plot")
        if 'ax' in self.opts:
            if not isinstance(r[1], RecV) or r[1].path != ('ax',):
                raise Fail("the second result is not the axes given")
        elif not isinstance(r[1], RecV) or not {'subplot', 'subplots', 'axes', 'gca', 'add_subplot', 'add_axes'} & set(r[1].path):
            raise Fail("the second result is not the new axes")
        if n == 3 and r[2] is not self.drawn('contour')[0].result:
            raise Fail("the third result is not the contour line plot")

    def args(self):
        st, I = self.st, self.st.I
        for k, (ref, was) in st.dicts.items():
            now = I.heap[ref.id]
            if set(now) != set(was) or any(now[x] is not was[x] and now[x] != was[x] for x in was):
                raise Fail(f"{k} of the caller is changed")
        for n, v in st.state().items():
            if v != st.before[n]:
                raise Fail(f"{n} of the caller is changed")
        f = I.heap[I.load(MOD).nsid]['plot2Ddata']
        for ref in defaults(f):
            if isinstance(ref, Ref) and ref.kind in ('dict', 'list') and I.heap[ref.id]:
                raise Fail("a default argument is changed")


def defaults(f):
    """Default values of a (decorated) function."""
    for _ in range(4):
        d = getattr(f, 'defaults', None)
        if d is not None:
            return list(d.values()) if isinstance(d, dict) else list(d)
        f = getattr(f, 'func', None)
    return []


def as_num(c):
    return ir.gate(c, ir.const(1), ir.const(0))


# ------------------------------------------------------------------ maps of the earthquake module
class Map:
    """Meshes drawn by the interferogram and the fault model."""

    def __init__(self, ck, name, method, opts, zeros=(), eq=False):
        self.ck, self.name, self.method, self.opts, self.zeros, self.eq = ck, name, method, opts, zeros, eq

    def run(self):
        ck, nm = self.ck, self.name
        w = p_quake.W()
        st = self.st = Stage(w)
        nx, ny = self.shape = (2, 3)
        self.sym = lambda n, *ix: ir.sym(n, ix)
        data = Arr((6,), lambda idx: ir.const(0) if idx[0] in self.zeros else ir.sym('data', idx), 'f')
        gram = p_quake.gram(w, data=w.I.arr(data), shape=(nx, ny)) if self.eq or self.method != 'plot_displacement' else None
        obj = gram
        kw = dict(self.opts)
        if self.method == 'plot_displacement':
            obj = w.quake((nx, ny))
            if self.eq:
                kw['eq'] = gram
        if 'ax' in kw:
            kw['ax'] = RecV(('ax',), st.log)
        if 'opacity' in kw or 'mask_opacity' in kw:
            k = 'opacity' if 'opacity' in kw else 'mask_opacity'
            kw[k] = w.scalar('opacity', sign='+')
        try:
            ret = w.call(obj, self.method, **kw)
        except AbsRaise as e:
            return ck.bad('drawing succeeds', nm, f"documented options raise {e}", [str(e.loc)])
        except ShapeError as e:
            return ck.bad('drawing succeeds', nm, f"documented options fail: {e}", [str(ir.G.loc)])
        ck.note(w)
        ck.ok('drawing succeeds', nm)
        ds = [d for d in st.log if d.path[-1] in ('pcolormesh', 'pcolor', 'imshow')]
        self.guards = [(c, p) for c, p, _, _ in w.I.guards]
        try:
            host = {d.path[:-1] for d in ds}
            if 'ax' in kw and host - {('ax',)}:
                raise Fail("drawn on other axes than those given")
            want = 2 if self.method == 'plot_displacement' and self.eq else 1
            if any(d.path[-1] != 'pcolormesh' for d in ds):
                raise gf.Undecided(ds[0].path[-1])
            if len(ds) != want:
                raise Fail(f"{len(ds)} meshes are drawn")
            flat = [r for r in (ret if isinstance(ret, tuple) else (ret,))]
            if len(flat) != want or any(r is not d.result for r, d in zip(flat, ds)):
                raise Fail("the results are not the meshes drawn")
            ck.ok('result', nm)
        except Fail as e:
            return ck.bad('result', nm, str(e))
        except gf.Undecided as e:
            return ck.undecided('result', nm, str(e))
        if self.method == 'plot_displacement':
            self.part('displacement', self.displacement, ds[0], w, obj, gram)
            if self.eq:
                self.part('mask', self.masked, ds[1])
        elif self.method == 'plot_interferogram':
            self.part('interferogram', self.image, ds[0])
        else:
            self.part('mask', self.masked, ds[0])

    def part(self, rule, f, *a):
        try:
            f(*a)
        except Fail as e:
            return self.ck.bad(rule, self.name, str(e), [str(a[0].loc)])
        except (Unsupported, ShapeError, gf.Undecided, gf.Reject) as e:
            return self.ck.undecided(rule, self.name, f"{type(e).__name__}: {e}")
        self.ck.ok(rule, self.name)

    def equal(self, alts, what, fixed=None):
        res = gf.decide_any(alts, self.st.w.signs, self.guards, seed=self.ck.seed, ncell=12, samples=1, modes=('plain',), cover=(), fixed=fixed)
        self.ck.samples += res.samples
        self.ck.cells += res.cells
        if res.status == 'differ':
            raise Fail(f"{what} differ from the definition" + (f" when {res.info}" if res.info else ''))
        if res.status != 'equal':
            raise gf.Undecided(f"{what}: {res.info}")

    def mesh(self, d, xe, ye, val, shown, what, values=True, fixed=None):
        """Cells (i, j) between the edges hold val(i, j) where shown(i, j) and nothing elsewhere."""
        I = self.st.I
        nx, ny = self.shape
        if len(d.args) < 3:
            raise Fail("edges are not passed")
        X, Y = (I.to_arr(a) for a in d.args[:2])
        if tuple(X.shape) not in ((nx + 1,), (ny + 1, nx + 1)) or tuple(Y.shape) not in ((ny + 1,), (ny + 1, nx + 1)):
            raise Fail(f"edges of shapes {tuple(X.shape)} and {tuple(Y.shape)} for {nx} by {ny} cells")
        z, m = d.args[2], None
        if isinstance(z, MaskV):
            z, m = z.data, I.to_arr(z.mask)
        Z = I.to_arr(z)
        if tuple(Z.shape) != (ny, nx):
            raise Fail(f"values of shape {tuple(Z.shape)} for {nx} by {ny} cells")
        alts = []
        for flip in (False, True):
            r = lambda j: ny - 1 - j if flip else j
            pairs = []
            for i in range(nx + 1):
                pairs += [(X.at((i,)) if X.ndim == 1 else X.at((j, i)), xe[i]) for j in ((0,) if X.ndim == 1 else range(ny + 1))]
            for j in range(ny + 1):
                y = ye[ny - j] if flip else ye[j]
                pairs += [(Y.at((j,)) if Y.ndim == 1 else Y.at((j, i)), y) for i in ((0,) if Y.ndim == 1 else range(nx + 1))]
            for j in range(ny):
                for i in range(nx):
                    here = shown(i, r(j))
                    v = Z.at((j, i))
                    hide = ir.or_(ir.unk('isnan', v), m.at((j, i)) if m is not None else ir.const(False))
                    pairs.append((as_num(hide), ir.const(0 if here else 1)))
                    if here and values:
                        pairs.append((v, val(i, r(j))))
            alts.append(pairs)
        self.equal(alts, what, fixed)

    def edges(self):
        """Edges of the pixels of the interferogram: the location is its upper left corner."""
        nx, ny = self.shape
        s = self.sym
        return ([ir.add(s('location', 0), ir.mul(ir.const(i), s('pixel_size', 0))) for i in range(nx + 1)],
                [ir.sub(s('location', 1), ir.mul(ir.const(ny - j), s('pixel_size', 1))) for j in range(ny + 1)])

    def datum(self, i, j):
        """Index of the pixel in row j counted from the south."""
        nx, ny = self.shape
        return i + nx * (ny - 1 - j)

    def shown(self, i, j):
        return self.datum(i, j) not in self.zeros

    def limits(self, d, lo, hi, fixed=None, cells=()):
        st = self.st
        for k, v in (('vmin', lo), ('vmax', hi)):
            if k not in d.kwargs:
                raise Fail(f"{k} is not passed")
            got = st.node(d.kwargs[k])
            if cells:
                # in terms of the cells drawn, which are compared on their own
                m = {n: ir.sym('cell', (i,)) for i, n in enumerate(cells) if ir.cval(n) is None}
                a, b = ir.substitute([got, v], m.get)
                if gf.decide([(a, b)], st.w.signs, seed=self.ck.seed, ncell=12, samples=1, modes=('plain',), cover=()).status == 'equal':
                    continue
            self.equal([[(got, v)]], k, fixed)

    def image(self, d):
        xe, ye = self.edges()
        wrap = self.opts.get('wrap', True)
        fr = ir.sym('satellite_fringe_interval')
        plain = lambda i, j: ir.mul(ir.sym('data', (self.datum(i, j),)), ir.sym('scaling'))
        val = (lambda i, j: ir.fn('mod', plain(i, j), fr)) if wrap else plain
        self.mesh(d, xe, ye, val, self.shown, 'pixels')
        if wrap:
            return self.limits(d, ir.const(0), fr)
        nx, ny = self.shape
        vs = [plain(i, j) for j in range(ny) for i in range(nx) if self.shown(i, j)]
        lo, hi = vs[0], vs[0]
        for v in vs[1:]:
            lo, hi = comb('min', lo, v), comb('max', hi, v)
        self.limits(d, lo, hi)

    def masked(self, d):
        xe, ye = self.edges()
        self.mesh(d, xe, ye, None, lambda i, j: not self.shown(i, j), 'pixels without data', values=False)
        cm = d.kwargs.get('cmap')
        c = next((x for x in self.st.log if isinstance(cm, RecV) and x.result is cm), None)
        if c is None or c.path[-1] != 'ListedColormap':
            raise gf.Undecided('colours')
        cols = self.st.I.iterate(c.args[0] if c.args else c.kwargs['colors'])
        got = self.st.node(self.st.I.iterate(cols[0])[3])
        self.equal([[(got, self.opacity())]], 'opacity')

    def opacity(self):
        return ir.sym('opacity') if 'opacity' in self.opts or 'mask_opacity' in self.opts else ir.const(F(2, 10))

    def displacement(self, d, w, obj, gram):
        nx, ny = self.shape
        s = self.sym
        xe = [ir.add(s('O', 0), ir.mul(s('U', 0), ir.const(F(i, nx)))) for i in range(nx + 1)]
        ye = [ir.add(s('O', 1), ir.mul(s('V', 1), ir.const(F(j, ny)))) for j in range(ny + 1)]
        D = w.arr(w.prop(obj, 'displacement_vector'))
        G = w.arr(w.prop(obj, 'simulation_grid'))
        fr = ir.sym('satellite_fringe_interval')
        wrap = self.opts.get('wrap', True) and gram is not None

        memo = {}

        def val(i, j):
            k = i + nx * j
            if k not in memo:
                u = [D.at((k, c)) for c in range(3)]
                if gram is None:
                    memo[k] = u[2]
                else:
                    p = w.I.arr(Arr((2,), lambda idx: G.at((k,) + idx), 'f'))
                    L = w.arr(w.call(gram, 'get_LOS_vector', p))
                    v = ir.add(ir.add(ir.mul(u[0], L.at((0,))), ir.mul(u[1], L.at((1,)))), ir.mul(u[2], L.at((2,))))
                    memo[k] = ir.fn('mod', v, fr) if wrap else v
            return memo[k]
        fx = dict(p_quake.FIX, ref=p_quake.rng(1, 3), ref_incidence=p_quake.rng(20, 45), satellite_azimuth=p_quake.rng(185, 200),
                  satellite_altitude=p_quake.rng(.1, .15), local_earth_radius=p_quake.rng(.9, 1.1), satellite_fringe_interval=p_quake.rng(.02, .03))
        self.mesh(d, xe, ye, val, lambda i, j: True, 'displacements', fixed=fx)
        if wrap:
            return self.limits(d, ir.const(0), fr, fx)
        z = d.args[2]
        Z = w.arr(z.data if isinstance(z, MaskV) else z)
        vs = [Z.at((j, i)) for j in range(ny) for i in range(nx)]
        lo, hi = vs[0], vs[0]
        for v in vs[1:]:
            lo, hi = comb('min', lo, v), comb('max', hi, v)
        self.limits(d, lo, hi, fx, vs)


def maps(ck):
    A = dict(ax=True)
    for ax in (A, {}):
        t = ', axes given' if ax else ''
        for z in ((), (1,), (0, 3)):
            tz = f", {len(z)} pixels without data" if z else ''
            for wrap in (True, False):
                yield Map(ck, f"plot_interferogram(wrap={wrap}){t}{tz}", 'plot_interferogram', dict(ax, wrap=wrap), z)
            yield Map(ck, f"plot_mask(){t}{tz}", 'plot_mask', dict(ax), z)
            yield Map(ck, f"plot_mask(opacity){t}{tz}", 'plot_mask', dict(ax, opacity=True), z)
        for wrap in (True, False):
            yield Map(ck, f"plot_displacement(wrap={wrap}){t}", 'plot_displacement', dict(ax, wrap=wrap))
            yield Map(ck, f"plot_displacement(eq, wrap={wrap}){t}", 'plot_displacement', dict(ax, wrap=wrap), (1,), True)
        yield Map(ck, f"plot_displacement(eq, mask_opacity){t}", 'plot_displacement', dict(ax, mask_opacity=True), (2,), True)

def cases():
    """Names and options: every kind of data, interpolation and scale with every further option."""
    A = dict(ax=True)
    extra = [('', {}), ('(n, 2) locations', {}), ('clim', dict(clim=[1, 5])), ('clim in any order', dict(clim=[5, 1])),
             ('vmin', dict(contourOpts=dict(vmin=F(1, 100)))), ('vmax', dict(contourOpts=dict(vmax=90))),
             ('vmin, vmax', dict(contourOpts=dict(vmin=1, vmax=5))),
             ('clim and equal vmin, vmax', dict(clim=[1, 5], contourOpts=dict(vmin=1, vmax=5))),
             ('contourOpts', dict(contourOpts=dict(cmap='viridis', levels=[1, 2, 3], zorder=7))),
             ('contourOpts with vmin', dict(contourOpts=dict(cmap='viridis', alpha=F(1, 2), vmin=1))),
             ('ncontour', dict(ncontour=3)), ('grid', dict(nx=4, ny=2)),
             ('level', dict(level=True)), ('level and clim', dict(level=True, clim=[1, 5])),
             ('levelOpts', dict(level=True, levelOpts=dict(levels=[1, 2], colors='k', zorder=9))),
             ('levelOpts, default levels', dict(level=True, levelOpts=dict(colors='k'))),
             ('mask', dict(mask=True)), ('mask, level', dict(mask=True, level=True)),
             ('shade', dict(shade=True)), ('shade options', dict(shade=True, shade_ncontour=7, shade_azimuth=('s', 'azim'),
                                                                shade_angle_altitude=('s', 'alti'), shadeOpts=dict(cmap='jet'))),
             ('dataloc', dict(dataloc=True)), ('figname', dict(figname='a.png')),
             ('everything', dict(mask=True, level=True, shade=True, dataloc=True, figname='a.png', clim=[1, 5]))]
    zero = [('clim from 0', dict(clim=[0, 5])), ('clim to 0', dict(clim=[-5, 0])), ('vmin 0', dict(contourOpts=dict(vmin=0))),
            ('vmax 0', dict(contourOpts=dict(vmax=0))), ('clim and vmin 0', dict(clim=[0, 5], contourOpts=dict(vmin=0))),
            ('clim and vmax 0', dict(clim=[-5, 0], contourOpts=dict(vmax=0))), ('negative limits', dict(contourOpts=dict(vmin=-5, vmax=-1)))]
    for vec, method, scale in itertools.product((False, True), ('linear', 'nearest'), ('linear', 'log')):
        base = dict(vec=vec, method=method, scale=scale)
        t = f"{'vector' if vec else 'scalar'} data, {method}, {scale} scale"
        for n, e in extra + (zero if scale == 'linear' else []) + ([('streamplotOpts', dict(streamplotOpts=dict(color='r', density=2)))] if vec else []):
            yield (t + (', ' + n if n else ''), dict(base, **A, **e), 2 if n.startswith('(n, 2)') else 3)
        for n, e in (('new axes', {}), ('new axes, figname', dict(figname='a.png')), ('new axes, level', dict(level=True))):
            yield f"{t}, {n}", dict(base, **e), 3


def run(ck):
    ck.raising = True
    for name, opts, cols in cases():
        ck.obligation('drawing succeeds', name, lambda: Case(ck, name, opts, cols).run())
    for vec in (False, True):
        for n, o in (('vmin', dict(clim=[1, 5], contourOpts=dict(vmin=2))), ('vmax', dict(clim=[1, 5], contourOpts=dict(vmax=6))),
                     ('vmin', dict(clim=[0, 5], contourOpts=dict(vmin=2))), ('vmin', dict(clim=[1, 5], contourOpts=dict(vmin=0))),
                     ('vmax', dict(clim=[-5, 0], contourOpts=dict(vmax=1))), ('vmax', dict(clim=[-5, -1], contourOpts=dict(vmax=0)))):
            def go():
                st = Stage()
                nm = f"{'vector' if vec else 'scalar'} data, clim={o['clim']}, {o['contourOpts']}"
                try:
                    st.call(dict(vec=vec, ax=True, **o))
                except AbsRaise:
                    return ck.ok('conflicting limits', nm)
                ck.note(st.w)
                ck.bad('conflicting limits', nm, f"clim and a different {n} are accepted")
            ck.obligation('conflicting limits', f"{vec} {n}", go)
    for mp in maps(ck):
        ck.obligation('drawing succeeds', mp.name, mp.run)
