"""C19 reflection and prism kernels: definitions, derivatives, and agreement of the compiled and the Python versions."""
from fractions import Fraction as F
from . import ir, gf, diff, cpp, scen
from . import sym as symm
from .arr import Arr, Unsupported, ShapeError, show_shape, leaf
from .expr import E, sym, tanh, sqrt
from .interp import AbsRaise
from .p_field import eq, rng
from .p_struct import W, check
from .p_state import same

PK, RK = 'geoana.kernels.potential_field_prism', 'geoana.kernels.tranverse_electric_reflections'
EXT = 'geoana.kernels._extensions.'
NAMES = ('prism_f', 'prism_fz', 'prism_fzz', 'prism_fzx', 'prism_fzy', 'prism_fzzz', 'prism_fxxy', 'prism_fxxz', 'prism_fxyz')
I1 = ir.GQ(0, 1)
SIZES = [(1, 1, 1), (1, 2, 3), (2, 1, 2), (2, 2, 1), (2, 3, 2), (3, 2, 2), (3, 1, 1), (4, 2, 1)]


def sizes():
    """Counts unrolled to, with those beyond the constants that the kernels compare with."""
    more = [k for k in scen.more_layers() if k <= 18]
    return SIZES + [q for k in more for q in ((k, 1, 1), (1, k, 1), (1, 1, k))]


class WK(W):
    def fn(self, mod, name):
        if mod.startswith(EXT):
            self.I.compiled = self.I.compiled | {'rTE', 'potential_field_prism'}
        m = self.I.load(mod)
        return self.I.heap[m.nsid][name]

    def call(self, mod, name, *a):
        return self.I.call(self.fn(mod, name), list(a), {})

    def res(self, v):
        vs = v if isinstance(v, tuple) else (v,)
        return [self.w.arr(q) for q in vs]


def chk(ck, rule, name, mk, fixed=None, **kw):
    def m(w):
        w.__class__ = WK
        return mk(w)
    check(ck, rule, name, m, fixed, **kw)


def guarded(ck, rule, nm, f):
    """Memory errors and unexpected exceptions are violations."""
    def go():
        try:
            f()
        except cpp.MemError as e:
            ck.bad(rule, nm, f"memory error: {e}", [e.loc])
        except AbsRaise as e:
            ck.bad(rule, nm, f"raises {e}", [str(e.loc)])
        except ShapeError as e:
            ck.bad(rule, nm, f"raises ValueError: {e}", [str(ir.G.loc)])
    ck.obligation(rule, nm, go)


# ------------------------------------------------------------------ prism kernels
def prisms(ck):
    for n in NAMES:
        def two(w):
            x = [w.w.array(c, ('N',)) for c in 'xyz']
            a = w.res(w.call(EXT + 'potential_field_prism', n, *x))[0]
            b = w.res(w.call(PK, '_' + n, *x))[0]
            return eq(list(a.generic().values()), list(b.generic().values()))
        chk(ck, 'compiled equals Python', n, two, samples=3)
    # the mixed derivative of each indefinite integral is its integrand (up to the documented sign)
    ker = {'prism_f': ('', -1), 'prism_fz': ('z', 1), 'prism_fzz': ('zz', -1), 'prism_fzx': ('zx', -1), 'prism_fzy': ('zy', -1), 'prism_fzzz': ('zzz', 1),
           'prism_fxxy': ('xxy', 1), 'prism_fxxz': ('xxz', 1), 'prism_fxyz': ('xyz', 1)}
    for mod, pre in ((EXT + 'potential_field_prism', ''), (PK, '_')):
        for n, (by, sg) in ker.items():
            def integrand(w):
                x = [w.w.array(c, ('N',)) for c in 'xyz']
                v = list(w.res(w.call(mod, pre + n, *x))[0].generic().values())
                s = [E(ir.sym(c, (('i', 'i0'),))) for c in 'xyz']
                g = [ir.mul(ir.const(sg), (1 / sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2])).n)]
                for c in by:
                    g = diff.diff(g, diff.wrt(c))
                for c in 'xyz':
                    v = diff.diff(v, diff.wrt(c))
                return eq(v, g)
            chk(ck, 'indefinite integral', f"{pre}{n} integrates d/d{by or '-'} of 1/r ({'compiled' if not pre else 'Python'})", integrand)


# ------------------------------------------------------------------ reflection kernels
def cplx(name, re_sign=None):
    def f(idx):
        return ir.add(ir.sym(name + '_re', idx), ir.mul(ir.const(I1), ir.sym(name + '_im', idx)))
    return f


def inputs(w, L, T, K, cx=True, order='C'):
    w.w.signs.update(freq='+', lam='+', thick='+', sig_re='+', mu_re='+', sig='+', mu='+')

    def mk(name, shape, fn, kind):
        a = Arr(shape, fn, kind)
        a.order = order
        return w.I.arr(a, owner=('arg', name))
    if cx:
        s, m = mk('sigma', (L, T), cplx('sig'), 'c'), mk('mu', (L, T), cplx('mu'), 'c')
    else:
        s, m = mk('sigma', (L, T), lambda i: ir.sym('sig', i), 'f'), mk('mu', (L, T), lambda i: ir.sym('mu', i), 'f')
    return [mk('freq', (T,), lambda i: ir.sym('freq', i), 'f'), mk('lam', (K,), lambda i: ir.sym('lam', i), 'f'), s, m,
            mk('thick', (L - 1,), lambda i: ir.sym('thick', i), 'f')]


def mu0(nodes):
    """mu_0 = 4e-7 pi, as in the C++ source (the CODATA value differs by 5e-10)."""
    return symm.sub_sym(nodes, lambda n, i: ir.mul(ir.const(F(4, 10 ** 7)), ir.sym('pi')) if n == 'mu_0' else None)


def reference(L, t, k, sig, mu):
    """Ward and Hohmann (1988): admittance recursion from the bottom layer up."""
    om = 2 * sym('pi') * sym('freq', t)
    lam = sym('lam', k)
    Y, u = [], []
    for l in range(L):
        s, m = E(sig((l, t))), E(mu((l, t)))
        u.append(sqrt(lam * lam + E(ir.const(I1)) * om * m * s))
        Y.append(u[-1] / (E(ir.const(I1)) * om * m))
    h = Y[-1]
    for l in reversed(range(L - 1)):
        th = tanh(u[l] * sym('thick', l))
        h = Y[l] * (h + Y[l] * th) / (Y[l] + h * th)
    Y0 = lam / (E(ir.const(I1)) * om * sym('mu_0'))
    return ((Y0 - h) / (Y0 + h)).n


def decide(ck, rule, nm, w, pairs, what):
    ck.note(w.w)
    res = gf.decide(pairs, w.w.signs, w.guards, seed=ck.seed, ncell=20, samples=2)
    ck.verdict(rule, nm, res, ir.where(res.idx[0]) if res.idx else (), what)


IMPL = (('Python', RK, '_'), ('compiled', EXT + 'rTE', ''))


def forward(ck, rule='reflection coefficient', impls=IMPL):
    for impl, mod, pre in impls:
        for L, T, K in sizes():
            for order in (('C', 'F', 'S') if impl == 'compiled' and L * T > 1 else ('C',)):
                for cx in (True, False):
                    nm = f"rTE_forward ({impl}) of {L} layers, {T} frequencies, {K} wavenumbers, {'complex' if cx else 'real'} properties, {order} order"

                    def one():
                        w = WK()
                        a = inputs(w, L, T, K, cx, order)
                        out = w.res(w.call(mod, pre + 'rTE_forward', *a))[0]
                        if tuple(out.shape) != (T, K) or out.kind != 'c':
                            return ck.bad(rule, nm, f"returns {show_shape(out.shape)} of type '{out.kind}', complex ({T}, {K}) documented")
                        sg, m = w.I.rd(a[2]).at, w.I.rd(a[3]).at
                        got = [out.at((t, k)) for t in range(T) for k in range(K)]
                        want = [reference(L, t, k, sg, m) for t in range(T) for k in range(K)]
                        decide(ck, rule, nm, w, eq(mu0(got), mu0(want)), 'the result and the admittance recursion')
                    guarded(ck, rule, nm, one)


def gradient(ck, rule='reflection gradient', impls=IMPL):
    for impl, mod, pre in impls:
        for L, T, K in sizes():
            if L * T * K > 8 and impl == 'Python':
                continue
            for order in (('C', 'F', 'S') if impl == 'compiled' and L * T > 1 else ('C',)):
                nm = f"rTE_gradient ({impl}) of {L} layers, {T} frequencies, {K} wavenumbers, {order} order"

                def one():
                    w = WK()
                    a = inputs(w, L, T, K, False, order)
                    out = w.res(w.call(mod, pre + 'rTE_gradient', *a))
                    shp = [(L, T, K), (L - 1, T, K), (L, T, K)]
                    if [tuple(o.shape) for o in out] != shp or any(o.kind != 'c' for o in out):
                        return ck.bad(rule, nm, f"returns {[show_shape(o.shape) for o in out]}, {[show_shape(s) for s in shp]} documented")
                    pairs = []
                    for t in range(T):
                        for k in range(K):
                            f = reference(L, t, k, lambda i: ir.sym('sig', i), lambda i: ir.sym('mu', i))
                            for o, name, n in zip(out, ('sig', 'thick', 'mu'), (L, L - 1, L)):
                                for l in range(n):
                                    ix = (l,) if name == 'thick' else (l, t)
                                    d = diff.diff([f], lambda s, i: s == name and i == ix)[0]
                                    pairs.append((o.at((l, t, k)), d))
                    decide(ck, rule, nm, w, list(zip(mu0([p for p, _ in pairs]), mu0([q for _, q in pairs]))),
                           'the gradient and the derivative of the reflection coefficient')
                guarded(ck, rule, nm, one)


def invariants(ck):
    R = 'layer algebra'
    for impl, mod, pre in IMPL:
        for L in (1, 2, 3):
            for at in range(L):
                nm = f"rTE_forward ({impl}): splitting layer {at} of {L} changes nothing"

                def split():
                    w = WK()
                    a = inputs(w, L, 2, 1)
                    s, m = w.I.rd(a[2]), w.I.rd(a[3])
                    up = lambda i: (i[0] if i[0] <= at else i[0] - 1,) + tuple(i[1:])
                    h = [ir.sym('thick', (l,)) for l in range(L - 1)]
                    if at < L - 1:
                        h[at:at + 1] = [ir.mul(ir.sym('part'), h[at]), ir.mul(ir.sub(ir.const(1), ir.sym('part')), h[at])]
                    else:
                        h.append(ir.sym('cut'))
                    w.w.signs.update(part='+', cut='+')
                    b = [a[0], a[1], w.I.arr(Arr((L + 1, 2), lambda i: s.at(up(i)), 'c')), w.I.arr(Arr((L + 1, 2), lambda i: m.at(up(i)), 'c')),
                         w.I.arr(Arr((L,), lambda i: h[i[0]], 'f'))]
                    p = w.res(w.call(mod, pre + 'rTE_forward', *a))[0]
                    q = w.res(w.call(mod, pre + 'rTE_forward', *b))[0]
                    decide(ck, R, nm, w, eq(list(p.generic().values()), list(q.generic().values())), 'the coefficients before and after the split')
                guarded(ck, R, nm, split)
        nm = f"rTE_forward ({impl}): layers of free space do not reflect"

        def free():
            w = WK()
            a = inputs(w, 2, 2, 2)
            z = w.I.arr(Arr((2, 2), lambda i: ir.const(0), 'c'))
            m = w.I.arr(Arr((2, 2), lambda i: ir.mul(ir.const(F(4, 10 ** 7)), ir.sym('pi')), 'c'))
            p = w.res(w.call(mod, pre + 'rTE_forward', a[0], a[1], z, m, a[4]))[0]
            decide(ck, R, nm, w, [(n, ir.const(0)) for n in mu0(list(p.generic().values()))], 'the coefficient and 0')
        guarded(ck, R, nm, free)


def effects(ck):
    R = 'input unchanged'
    for impl, mod, pre in IMPL:
        for f in ('rTE_forward', 'rTE_gradient'):
            for order in ('C', 'F'):
                def pure():
                    w = WK()
                    a = inputs(w, 2, 2, 2, True, order)
                    b = [list(w.I.heap[r.id].generic().values()) for r in a]
                    w.call(mod, pre + f, *a)
                    ck.note(w.w)
                    for r, v, n in zip(a, b, ('frequencies', 'lamb', 'sigma', 'mu', 'thicknesses')):
                        same(ck, R, f"{f} ({impl}, {order} order): {n}", w.w, v, list(w.I.heap[r.id].generic().values()), 'the array before and after the call')
                guarded(ck, R, f"{f} ({impl}, {order} order)", pure)
    for n in NAMES:
        def pure():
            for mod, pre in ((EXT + 'potential_field_prism', ''), (PK, '_')):
                w = WK()
                x = [w.w.array(c, ('N',)) for c in 'xyz']
                b = [list(w.I.heap[r.id].generic().values()) for r in x]
                w.call(mod, pre + n, *x)
                for r, v, c in zip(x, b, 'xyz'):
                    same(ck, R, f"{pre}{n}: {c}", w.w, v, list(w.I.heap[r.id].generic().values()), 'the array before and after the call')
        guarded(ck, R, n, pure)


def rejects(ck):
    """Inconsistent array sizes never reach the compiled code."""
    R = 'sizes checked'
    cases = {'sigma has fewer layers': (2, 2, 2, dict(sigma=(1, 2))), 'sigma has more layers': (2, 2, 2, dict(sigma=(3, 2))),
             'sigma has fewer frequencies': (2, 2, 2, dict(sigma=(2, 1))), 'mu has fewer layers': (2, 2, 2, dict(mu=(1, 2))),
             'mu has fewer frequencies': (2, 2, 2, dict(mu=(2, 1))), 'mu and sigma have more frequencies': (2, 2, 2, dict(mu=(2, 3), sigma=(2, 3))),
             'too few thicknesses': (3, 2, 2, dict(thick=(1,))), 'too many thicknesses': (2, 2, 2, dict(thick=(3,))),
             'no frequencies': (1, 2, 2, dict(freq=(0,))), 'no wavenumbers': (1, 2, 2, dict(lam=(0,))),
             'sigma is a vector': (2, 2, 2, dict(sigma=(2,))), 'mu is a vector': (2, 2, 2, dict(mu=(2,))),
             'mu is transposed': (2, 3, 2, dict(mu=(3, 2)))}
    for f in ('rTE_forward', 'rTE_gradient'):
        for what, (L, T, K, ch) in cases.items():
            nm = f"{f} (compiled): {what}"

            def one():
                w = WK()
                a = inputs(w, L, T, K)
                for k, n in enumerate(('freq', 'lam', 'sigma', 'mu', 'thick')):
                    if n in ch:
                        a[k] = w.I.arr(leaf(n, ch[n], 'c' if k in (2, 3) else 'f'))
                try:
                    w.call(EXT + 'rTE', f, *a)
                except AbsRaise as e:
                    ck.note(w.w)
                    return ck.ok(R, nm, str(e)[:60])
                except cpp.MemError as e:
                    return ck.bad(R, nm, f"memory error: {e}", [e.loc])
                ck.bad(R, nm, 'accepted')
            guarded(ck, R, nm, one)


def run(ck):
    prisms(ck)
    forward(ck)
    gradient(ck)
    invariants(ck)
    effects(ck)
    rejects(ck)
