"""Closed forms: C11 static, C12 frequency domain, C13 time domain, C14 gravity."""
from . import ir, gf, scen, spec, refs
from .arr import show_shape
from .expr import E, V, sym
from .interp import AbsRaise
from .p_field import regions, rng, REGIONS
from .p_state import fired, LAYERS, PRISM, concrete, concrete_fn, plainest

NEAR = {'main': None, 'near axis': dict(radius=rng(9e3, 1.1e4))}
SHELL = {'shell': dict(radius=rng(2, 3), xyz=rng(-2.2, 2.2), location=rng(-.1, .1)), 'inside': dict(radius=rng(9, 12)),
         'outside': dict(radius=rng(.01, .03))}


class C:
    """Names of the inputs of one case, for the reference expressions."""

    def __init__(self, src, m, var, opts, region, T, arg='xyz'):
        self.src, self.m, self.var, self.opts, self.region = src, m, var, opts, region
        self.T = (('i', 'i0'),) if T else ()
        self.N = (('i', 'i1' if T else 'i0'),)
        self.arg = arg

    def p(self, name):
        return sym(name)

    def v(self, name):
        p = self.src.params.get(name)
        if p is not None and p.kind in spec.FLATZ:
            return V(sym(name, 0), sym(name, 1), 0)
        return V(*[sym(name, k) for k in range(3)])

    @property
    def x(self):
        return V(*[sym(self.arg, *self.N, k) for k in range(2 if self.arg == 'xy' else 3)])

    xy = x

    def fs(self, name):
        return sym(name, *self.T)

    @property
    def f(self):
        return self.fs('frequency')

    @property
    def t(self):
        return self.fs('time')


def flat(v):
    if isinstance(v, V):
        return v.nodes()
    if isinstance(v, E):
        return [v.n]
    return [x for y in v for x in (flat(y) if isinstance(y, (list, V)) else [E.of(y).n])]


def settle(ck, name, w, guards, nodes, want, fixed):
    alts = []
    for a in (want if isinstance(want, refs.Alt) else [want]):
        b = flat(a)
        if len(b) != len(nodes):
            ck.bad('closed-form', name, f'{len(nodes)} components returned, {len(b)} documented')
            return
        alts.append(list(zip(nodes, b)))
    res = gf.decide_any(alts, w.signs, guards, samples=2, ncell=30, modes=('plain',) if fixed else ('plain', 'mid', 'deg'),
                        seed=ck.seed, fixed=fixed)
    ck.verdict('closed-form', name, res, [x for p in (res.idx or ())[:1] for x in ir.where(p)],
               'returned value and documented closed form')


def run_methods(ck, prefix):
    deep = True
    for s in spec.SOURCES:
        if not s.id.startswith(prefix):
            continue
        table = refs.REF.get(s.id, {})
        for var in scen.variants(s, deep):
            for m, r in s.methods.items():
                if m not in table:
                    continue
                regs = NEAR if s.cls == 'CircularLoopWholeSpace' else SHELL if m == 'charge_density' else regions(s)
                for o in scen.optsets(r):
                    if plainest(var):
                        concrete(ck, 'closed-form in any batch', s, var, m, o)
                        if o.get('coordinates') != 'cylindrical' and o.get('field') != 'all':
                            special(ck, s, var, m, o)
                    if o.get('coordinates') == 'cylindrical' or o.get('field') == 'all':
                        continue
                    for rg, fx in regs.items():
                        if rg == 'anywhere' and m == 'magnetic_flux_density':
                            continue
                        one(ck, s, var, m, o, rg, fx)


def one(ck, s, var, m, o, rg, fx):
    nm = f"{s.id}.{m} {o} {var} {rg}"

    def go():
        try:
            c = scen.Case(s, var, m, o, batch=('N',))
        except AbsRaise as e:
            return ck.bad('closed-form', nm, f"documented input raises {e}", [str(e.loc)])
        ck.note(c.w)
        g = fired(c.w.I.guards, c.w.signs, fixed=LAYERS if 'Layered' in s.cls else None)
        if g:
            return ck.bad('closed-form', nm, f"documented input raises {g[1]} when {ir.show(g[0], 4)}", [str(g[2])])
        T = bool(scen.freq_dims(s, var))
        ctx = C(s, m, var, o, rg, T, 'xy' if s.methods[m].arg == 'xy' else 'xyz')
        want = variant_dir(s, var, refs.REF[s.id][m], ctx)
        settle(ck, f"{c.name()} {rg}".strip(), c.w, c.guards, c.nodes, want, fx)
    ck.obligation('closed-form', nm, go)


THROUGH = {'abs', 'real', 'imag', 'conj', 'sqrt', 'cast_f32'}


def spreads(roots, z):
    """Does the quotient with a zero divisor reach a result through operations that keep it infinite or undefined?"""
    bad, seen = {z}, {z}
    for n in ir.topo(list(roots)):
        if any(c in seen for c in ir.children(n)):
            seen.add(n)
        if ir.op(n) == 'gate' and ir.node(n)[1] in seen:
            return False            # tested for by the code
        kids = [c for c in ir.children(n) if c in bad] if ir.op(n) != 'gate' else [c for c in ir.node(n)[2:] if c in bad]
        if not kids or n == z:
            continue
        k = ir.node(n)
        if k[0] in ('add', 'sub', 'mul', 'neg', 'gate') or k[0] == 'fn' and k[1] in THROUGH or k[0] == 'div' and k[2] not in bad \
                or k[0] == 'pow' and ir.cval(k[2]) is not None and not isinstance(ir.cval(k[2]), ir.GQ) and ir.cval(k[2]) > 0:
            bad.add(n)
        else:
            return False
    return any(r in bad for r in roots)


def placements(s, c, m):
    """Observation points on the symmetry lines and planes of the source: name, position by component."""
    N = c.N
    X = [sym(c.arg, *N, k) for k in range(3)]
    for a in ('location', 'location_a', 'location_b', 'min_location', 'max_location', 'nodes'):
        if a not in s.params or s.params[a].kind == 'posz0' and c.arg == 'xy':
            continue
        for i in ((0, 1, 2) if a == 'nodes' else (None,)):
            A = [sym(a, k) if i is None else sym(a, i, k) for k in range(3)]
            t = a if i is None else f"node {i}"
            for mask in ((1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
                if a in ('min_location', 'max_location') and sum(mask) > 1 and s.methods[m].rank:
                    continue
                yield f"{', '.join(n for n, q in zip('xyz', mask) if q)} of {t}", [A[k] if mask[k] else X[k] for k in range(3)]
            if a == 'location' and ('Sphere' in s.cls and m != 'charge_density' or s.cls == 'CircularLoopWholeSpace'):
                yield "centre", A
            if a == 'location' and 'orientation' in s.params:
                O = [sym('orientation', k) for k in range(3)]
                for sg in (1, -1):
                    yield f"axis of the source {'+-'[sg < 0]}", [A[k] + O[k] * sym('along') * sg for k in range(3)]
    if 'nodes' in s.params:
        P = [[sym('nodes', i, k) for k in range(3)] for i in range(3)]
        for i, j in ((0, 1), (1, 0), (1, 2), (2, 1)):
            yield f"extension of the wire beyond node {j}", [P[j][k] + (P[j][k] - P[i][k]) * sym('along') for k in range(3)]


def special(ck, s, var, m, o):
    """The value at points on symmetry lines and planes is defined where the closed form is, and is the closed form."""
    R = 'closed-form at special points'

    def go():
        c = scen.Case(s, var, m, o, batch=('N',))
        c.w.signs['along'] = '+'
        T = bool(scen.freq_dims(s, var))
        if s.methods[m].arg == 'xy':
            return
        ck.note(c.w)
        regs = regions(s)
        for rg, fx in (regs.items() if 'Sphere' in s.cls and m != 'charge_density' else [('main', None)]):
            ctx = C(s, m, var, o, rg, T, 'xyz')
            want = variant_dir(s, var, refs.REF[s.id][m], ctx)
            alts = [flat(a) for a in (want if isinstance(want, refs.Alt) else [want])]
            if s.cls.endswith('Prism'):
                fx = dict(PRISM, xyz=rng(-5, 5))
            for name, pos in placements(s, ctx, m):
                if name == 'centre' and rg == 'outside':
                    continue
                at(c, f"{c.name()} {rg} at {name}", ctx, alts, pos, fx)

    def at(c, nm, ctx, alts, pos, fx):
        def f(n):
            k = ir.node(n)
            if k[0] == 'sym' and k[1] == ctx.arg and isinstance(k[2][-1], int):
                return E.of(pos[k[2][-1]]).n
        got, alts = ir.substitute(c.nodes, f), [ir.substitute(a, f) for a in alts]
        res = None
        for j in range(4):
            wit = gf.Witness((ck.seed, 'special', j), c.w.signs, fixed=fx)
            wit.strict = True
            try:
                if any(wit.truth(q, {}) == p for q, p in c.guards):
                    continue
                gf.run_sample(wit, alts[0], (ck.seed, j, 'ref'), 6, 1.0)
            except (gf.Undecided, gf.Reject):
                continue
            try:
                gf.run_sample(wit, got, (ck.seed, j, 'got'), 6, 1.0)
            except gf.Undecided as e:
                z = getattr(e, 'zero', None)
                if z is not None and spreads(got, z):
                    res = z
                    break
                continue
            except gf.Reject:
                continue
            try:
                for ref in alts:
                    v, _ = gf.run_sample(wit, got + ref, (ck.seed, j, 'both'), 6, 1.0)
                    diff = [i for i in range(len(got)) if v[i] != v[len(got) + i]]
                    if not diff:
                        break
                else:
                    res = -1
                    ck.bad(R, nm, f"component {diff[0]} is not the documented value", ir.where(got[diff[0]]))
                    return
            except (gf.Undecided, gf.Reject):
                pass
            res = True
            break
        if res is True:
            ck.ok(R, nm)
        elif res is not None:
            ck.bad(R, nm, f"the divisor of {ir.show(res, 4)} is zero where the documented solution is finite", ir.where(res))
    ck.obligation(R, f"{s.id}.{m} {o}", go)


def variant_dir(s, var, f, ctx):
    """Axis names stand for unit vectors."""
    d = var.get('*dir') or var.get('*dirh')
    if not d:
        return f(ctx)
    val = {'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1)}[d]

    def sub(n):
        k = ir.node(n)
        if k[0] == 'sym' and k[1] == 'orientation':
            return ir.const(val[k[2][-1]])
        return None
    out = f(ctx)
    conv = lambda a: ListV(ir.substitute(flat(a), sub))
    return refs.Alt([conv(a) for a in out]) if isinstance(out, refs.Alt) else conv(out)


class ListV(list):
    def __init__(self, nodes):
        super().__init__(E(n) for n in nodes)


def run_props(ck, prefix):
    for sid, table in refs.PREF.items():
        if not sid.startswith(prefix):
            continue
        s = spec.BYID[sid]
        for var in scen.variants(s):
            for name, f in table.items():
                def go():
                    w = scen.World()
                    obj = w.build(s, var)
                    a = w.arr(w.prop(obj, name))
                    ck.note(w)
                    nodes = list(a.generic().values())
                    T = bool(scen.freq_dims(s, var))
                    ctx = C(s, name, var, {}, '', T)
                    nm = f"{sid}.{name} {var}"
                    settle(ck, nm, w, [(c, p) for c, p, _, _ in w.I.guards], nodes, f(ctx), None)
                ck.obligation('closed-form', f"{sid}.{name} {var}", go)


def run_aux(ck, prefix):
    """Geometry helpers and peak time of the sources."""
    for sid, table in refs.AUX.items():
        if not sid.startswith(prefix):
            continue
        s = spec.BYID[sid]
        for m, f in table.items():
            for b in ((), ('N',)):
                arg = refs.AUXARGS[m]
                nm = f"{sid}.{m} for {arg} of shape {show_shape(b + (() if arg == 'z' else (3,)))}"

                def go():
                    w = scen.World()
                    obj = w.build(s, scen.variants(s)[0])
                    x = w.array(arg, b + (() if arg == 'z' else (3,)))
                    a = w.arr(w.call(obj, m, x))
                    ck.note(w)
                    ix = tuple(('i', f'i{k}') for k in range(len(b)))
                    xs = sym(arg, *ix) if arg == 'z' else V(*[sym(arg, *ix, k) for k in range(3)])
                    want = f(C(s, m, {}, {}, '', False), xs)
                    shp = b + ((3,) if isinstance(want, V) else ())
                    if tuple(a.shape) != shp:
                        return ck.bad('closed-form', nm, f"shape {show_shape(a.shape)} returned, {show_shape(shp)} expected")
                    settle(ck, nm, w, [(c, p) for c, p, _, _ in w.I.guards], list(a.generic().values()), want, None)
                ck.obligation('closed-form', nm, go)


def run_functions(ck, prefix):
    for f, var, fl in scen.fn_cases(True):
        if not f.id.startswith(prefix) or f.id not in refs.FREF:
            continue
        concrete_fn(ck, 'closed-form in any batch', f, var, fl)

        def go():
            c = scen.FnCase(f, var, fl)
            ck.note(c.w)
            T = any(p.kind in ('freq', 'time') and var.get('*' + p.kind) == 'array' for p in f.params.values())
            ctx = C(f, f.name, var, fl, '', T, 'xy')
            settle(ck, c.name(), c.w, c.guards, c.nodes, refs.FREF[f.id](ctx), None)
        ck.obligation('closed-form', f"{f.id} {var} {fl}", go)


def run_static(ck):
    run_methods(ck, 'static.')
    run_props(ck, 'static.')
    run_aux(ck, 'static.')


def run_fdem(ck):
    run_methods(ck, 'fdem.')
    run_props(ck, 'fdem.')
    run_aux(ck, 'fdem.')
    run_functions(ck, 'fdem.')
    from . import p_kernels
    p_kernels.forward(ck, 'reflection coefficient')


def run_tdem(ck):
    run_methods(ck, 'tdem.')
    run_props(ck, 'tdem.')
    run_aux(ck, 'tdem.')
    run_functions(ck, 'tdem.')


def run_gravity(ck):
    run_methods(ck, 'gravity.')
    run_props(ck, 'gravity.')
