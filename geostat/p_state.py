"""C15 shapes and batches, C16 purity and history independence."""
import itertools
from . import ir, gf, scen, spec, sym, refs
from .arr import Arr, ShapeError, show_shape
from .interp import AbsRaise, Ref
from .expr import E, V
from .p_field import rng

OBS = ('xyz', 'xy', 'cyl_rho', 'cyl_phi', 'cyl_z')
BATCHES = ((), ('N',), ('N', 'M'), (1,))


ORDERED = dict(min_location=rng(-9, 0), max_location=rng(0.001, 9))      # corners of a prism
LAYERS = dict(mu_0=.5, epsilon_0=.5, mu=rng(.5, 9), epsilon=rng(.5, 9))   # layers are at least as permeable as free space


def label(var):
    v = ','.join(f"{k.strip('*')}={v}" for k, v in (var or {}).items() if v is not None)
    return f" [{v}]" if v else ''


def fired(guards, signs, seed=1, fixed=None, n=40, modes=('plain', 'wide')):
    """A guard that rejects an input of the documented domain."""
    for mode in modes:
        for j in range(n):
            w = gf.Witness((seed, mode, j), signs, mode, None, fixed or ORDERED)
            for c, p, e, loc in guards:
                try:
                    if w.truth(c, {}) == p:
                        return c, e, loc
                except (gf.Reject, gf.Undecided):
                    continue
    return None


def expected(src, var, m, o, b):
    r = src.methods[m]
    s = scen.freq_dims(src, var) + tuple(b) + (3,) * r.rank
    return s


SQUEEZED = ('MagneticDipoleHalfSpace', 'MagneticDipoleLayeredHalfSpace')      # a single point comes back without its axis


def drop1(shape):
    return tuple(d for d in shape if d != 1)


def relabel(nodes, T, old, new):
    """Observation index of batch shape `old` replaced by that of batch shape `new`."""
    a = tuple(('i', f"i{k + T}") for k in range(len(old)))
    b = tuple(0 if new[k] == 1 else ('i', f"i{k + T}") for k in range(len(new)))

    def f(name, idx):
        if name in OBS and idx[:len(a)] == a:
            return ir.sym(name, b + idx[len(a):])
    return sym.sub_sym(nodes, f)


def extents():
    """(batch, number of frequencies or times): coincident extents, no points, and counts around those the source names."""
    out = [((3,), 3), ((2,), 2), ((2, 3), 2), ((0,), 2)]
    for k in scen.size_constants(scen.sources(), 4, 1 << 15)[:6]:
        out += [((k + 1,), 2), ((2 * k + 1,), 2), ((2,), k + 1)] + ([((k,), 2)] if k < 100 else [])
    return out


def probes(shape):
    """Indices looked at: both ends and, in long axes, next to the counts the source names."""
    ax = []
    for n in shape:
        c = {0, n - 1} | {i for k in scen.size_constants(scen.sources(), 4, 1 << 15) for i in (k - 1, k, k + 1) if 0 <= i < n} if n > 3 else set(range(n))
        ax.append(sorted(c))
    return itertools.product(*ax)


def concrete(ck, rule, s, var, m, o):
    """The value at a point, frequency and time does not depend on how many there are."""
    Tax = scen.freq_dims(s, var)
    fnames = {n: p.kind for n, p in s.params.items() if p.kind in ('freq', 'time', 'freqs')}
    layered = 'Layered' in s.cls
    for b, nt in extents():
        if nt != 2 and b == (2,) and not Tax:
            continue
        if layered and len(b) != 1 or s.cls in SQUEEZED and b == (0,):
            continue
        nm = f"{s.id}.{m}({','.join(f'{k}={v}' for k, v in o.items())}){label(var)} at points {show_shape(b + (3,))}" + (f", {nt} {'times' if 'time' in fnames else 'frequencies'}" if Tax else '')

        def one():
            w = scen.World()
            w.extent = {'T': nt}
            try:
                c = scen.Case(s, var, m, o, batch=b, world=w, whole=False)
            except AbsRaise as e:
                return ck.bad(rule, nm, f"documented input raises {e}", [str(e.loc)])
            except ShapeError as e:
                return ck.bad(rule, nm, f"documented input raises ValueError: {e}", [str(ir.G.loc)])
            ck.note(w)
            want = tuple(nt for _ in Tax) + b + (3,) * s.methods[m].rank
            for a in c.arrs:
                if tuple(a.shape) != want:
                    return ck.bad(rule, nm, f"shape {show_shape(a.shape)} returned, {show_shape(want)} documented")
            if 0 in want:
                return ck.ok(rule, nm, show_shape(want))
            v = KeepWorld(w)
            v.extent = {'T': 1}
            rb = (1,) if s.cls in SQUEEZED or Tax else ()
            ref = scen.Case(s, var, m, o, batch=rb, world=v)
            pairs = []
            for t in probes(tuple(nt for _ in Tax)):
                for p in probes(b):
                    def f(name, idx):
                        if name in OBS:
                            return ir.sym(name, p + idx[len(rb):])
                        if t and name in fnames:
                            return ir.sym(name, t)
                        if t and len(idx) == 2 and name in s.params and s.params[name].kind == 'layer':
                            return ir.sym(name, (idx[0],) + t)
                    wanted = sym.sub_sym(ref.nodes, f)
                    comps = list(itertools.product(*(range(3) for _ in range(s.methods[m].rank))))
                    got = [a.at(t + p + q) for a in c.arrs for q in comps]
                    if len(got) != len(wanted):
                        raise gf.Undecided('results of one point')
                    pairs += list(zip(got, wanted))
            res = gf.decide([q for q in pairs if q[0] != q[1]] or pairs[:1], w.signs, c.guards + ref.guards, seed=ck.seed, ncell=12, samples=1)
            ck.verdict(rule, nm, res, ir.where(res.idx[0]) if res.idx else (), 'the value at a point and the value of the same point evaluated alone')
        ck.obligation(rule, nm, one)


def concrete_fn(ck, rule, f, var, fl):
    """The same for a function."""
    kinds = {p.kind for p in f.params.values()}
    T = any(var.get('*' + k) == 'array' for k in kinds)
    if not T and 'xy' not in kinds:
        return
    fnames = [n for n, p in f.params.items() if p.kind in ('freq', 'time')]
    for b, nt in extents():
        if len(b) != 1 or b == (0,) or nt != 2 and b == (2,) and not T:
            continue
        nm = f"{f.id}({','.join(f'{k}={v}' for k, v in fl.items())}){label(var)}" + (f" at {b[0]} points" if 'xy' in kinds else '') + (f", {nt} frequencies or times" if T else '')

        def one():
            w = scen.World()
            w.extent = {'T': nt, 'N': b[0]}
            try:
                c = scen.FnCase(f, var, fl, world=w, whole=False)
            except AbsRaise as e:
                return ck.bad(rule, nm, f"documented input raises {e}", [str(e.loc)])
            except ShapeError as e:
                return ck.bad(rule, nm, f"documented input raises ValueError: {e}", [str(ir.G.loc)])
            ck.note(w)
            v = KeepWorld(w)
            v.extent = {'T': 1, 'N': 1}
            ref = scen.FnCase(f, var, fl, world=v)
            R = ref.arrs[0].shape
            S = c.arrs[0].shape
            ax = ((nt,) if T else ()) + (b if 'xy' in kinds else ())
            if f.name == 'sigma_hat' and fl.get('quasistatic'):
                ax = ()              # the conductivity itself
            if len(R) != len(S) or tuple(S) != ax + tuple(R[len(ax):]):
                return ck.bad(rule, nm, f"shape {show_shape(S)} returned", ir.where(ref.nodes[0]))
            pairs = []
            for q in probes(ax):
                t = q[:1] if T else ()
                p = q[len(t):]

                def g(name, idx):
                    if name in OBS:
                        return ir.sym(name, p + idx[1:])
                    if t and name in fnames:
                        return ir.sym(name, t)
                comps = list(itertools.product(*(range(d) for d in R[len(ax):])))
                pairs += list(zip([c.arrs[0].at(q + e) for e in comps], sym.sub_sym(ref.nodes, g)))
            res = gf.decide([q for q in pairs if q[0] != q[1]] or pairs[:1], w.signs, c.guards + ref.guards, seed=ck.seed, ncell=12, samples=1)
            ck.verdict(rule, nm, res, ir.where(res.idx[0]) if res.idx else (), 'the value and the value of the same point, frequency and time evaluated alone')
        ck.obligation(rule, nm, one)


def plainest(var):
    """Variants in which extents are explored."""
    return not (var.get('*dir') or var.get('*dirh') or any(k in var for k in ('*freq', '*time')) and not (var.get('*freq') or var.get('*time')))


def run_shapes(ck):
    rule = 'shape'
    for s, var, m, o in scen.all_cases(True):
        if plainest(var):
            concrete(ck, 'extent', s, var, m, o)
    for f, var, fl in scen.fn_cases(True):
        concrete_fn(ck, 'extent', f, var, fl)
    for s, var, m, o in scen.all_cases(True):
        if var.get('*dir') or var.get('*dirh'):
            continue
    for s, var, m, o in scen.all_cases(True):
        if var.get('*dir') or var.get('*dirh'):
            continue
        only = (('N',), (1,)) if 'Layered' in s.cls else BATCHES
        for b in only:
            for kind in 'fi':
                nm = f"{s.id}.{m}({','.join(f'{k}={v}' for k, v in o.items())}){label(var)} at {'integer' if kind == 'i' else 'float'} points {show_shape(tuple(b) + (3,))}"

                def one():
                    try:
                        c = scen.Case(s, var, m, o, batch=b, kind=kind)
                    except AbsRaise as e:
                        return ck.bad(rule, nm, f"documented input raises {e}", [str(e.loc)])
                    except ShapeError as e:
                        return ck.bad(rule, nm, f"documented input raises ValueError: {e}", [str(ir.G.loc)])
                    ck.note(c.w)
                    g = fired(c.w.I.guards, c.w.signs, fixed=LAYERS if 'Layered' in s.cls else None)
                    if g:
                        return ck.bad(rule, nm, f"documented input raises {g[1]} when {ir.show(g[0], 4)}", [str(g[2])])
                    want = expected(s, var, m, o, b)
                    n = 3 if o.get('field') == 'all' else 1
                    if len(c.arrs) != n:
                        return ck.bad(rule, nm, f"{len(c.arrs)} arrays returned, {n} documented")
                    for a in c.arrs:
                        if tuple(a.shape) != want and not (b == (1,) and s.cls in SQUEEZED and drop1(a.shape) == drop1(want)):
                            return ck.bad(rule, nm, f"shape {show_shape(a.shape)} returned, {show_shape(want)} documented",
                                          ir.where(c.nodes[0]))
                        if a.kind not in 'fc':
                            return ck.bad(rule, nm, f"result of type '{a.kind}', not floating point", ir.where(c.nodes[0]))
                    if b == ('N',) and kind == 'f':
                        return ck.ok(rule, nm, show_shape(want))
                    # the value at a point is that of the (N, 3) float evaluation
                    T = len(scen.freq_dims(s, var))
                    ref = scen.Case(s, var, m, o, batch=('N',), world=KeepWorld(c.w))
                    want_n = relabel(ref.nodes, T, ('N',), b)
                    res = gf.decide(list(zip(c.nodes, want_n)), c.w.signs, c.guards, seed=ck.seed, ncell=20, samples=2)
                    ck.verdict(rule, nm, res, ir.where(res.idx[0]) if res.idx else (),
                               'the value at a point and the value of the same point evaluated in an (N, 3) float array')
                ck.obligation(rule, nm, one)
        if any(var.get('*' + p.kind) == 'array' for p in s.params.values()):
            v1 = {k: 'single' if v == 'array' else v for k, v in var.items()}
            nm1 = f"{s.id}.{m}({','.join(f'{k}={v}' for k, v in o.items())}){label(v1)}"

            def single():
                try:
                    c = scen.Case(s, v1, m, o)
                except AbsRaise as e:
                    return ck.bad(rule, nm1, f"documented input raises {e}", [str(e.loc)])
                except ShapeError as e:
                    return ck.bad(rule, nm1, f"documented input raises ValueError: {e}", [str(ir.G.loc)])
                want = expected(s, v1, m, o, ('N',))
                for a in c.arrs:
                    if tuple(a.shape) != want and not (s.cls in SQUEEZED and drop1(a.shape) == drop1(want)):
                        return ck.bad(rule, nm1, f"shape {show_shape(a.shape)} returned, {show_shape(want)} documented",
                                      ir.where(c.nodes[0]))
                ck.ok(rule, nm1, show_shape(want))
            ck.obligation(rule, nm1, single)
        if o == scen.optsets(s.methods[m])[0] and only is BATCHES and s.id != 'fdem.MagneticDipoleHalfSpace':
            nm = f"{s.id}.{m}{label(var)} with points as a tuple of coordinates, vectors as lists"

            def forms():
                c = scen.Case(s, var, m, o)
                w = KeepWorld(c.w)
                x = obs(w, s, m, o)
                a = w.I.heap[x.id]
                parts = tuple(w.I.arr(Arr(a.shape[:-1], lambda idx, k=k: a.at(idx + (k,)), a.kind)) for k in range(a.shape[-1]))
                kw = w.ctor_args(s, var)
                for n, q in array_args(kw).items():
                    if w.I.heap[q.id].shape == (3,):
                        kw[n] = w.I.new('list', [w.I.arr(Arr((), lambda idx, k=k, b=w.I.heap[q.id]: b.at((k,)), 'f', wk=True)) for k in range(3)])
                try:
                    got = evaluate(w, s, w.build(s, kw=kw), m, o, parts)
                except AbsRaise as e:
                    return ck.bad(rule, nm, f"documented input raises {e}", [str(e.loc)])
                same(ck, rule, nm, c.w, c.nodes, got, 'results for array input and for the same values in tuples and lists')
            ck.obligation(rule, nm, forms)
    for f, var, fl in scen.fn_cases(True):
        for kind in 'fi':
            nm = f"{f.id}({','.join(f'{k}={v}' for k, v in fl.items())}){label(var)} {'integer' if kind == 'i' else 'float'} input"

            def one():
                try:
                    c = scen.FnCase(f, var, fl, kind=kind)
                except AbsRaise as e:
                    return ck.bad(rule, nm, f"documented input raises {e}", [str(e.loc)])
                except ShapeError as e:
                    return ck.bad(rule, nm, f"documented input raises ValueError: {e}", [str(ir.G.loc)])
                ck.note(c.w)
                g = fired(c.w.I.guards, c.w.signs)
                if g:
                    return ck.bad(rule, nm, f"documented input raises {g[1]} when {ir.show(g[0], 4)}", [str(g[2])])
                T = ('T',) if any(v == 'array' for k, v in var.items() if any(p.kind == k[1:] for p in f.params.values())) else ()
                want = T + (('N', 3) if any(p.kind == 'xy' for p in f.params.values()) else ())
                if f.name == 'sigma_hat' and fl.get('quasistatic'):
                    want = ()        # the conductivity itself
                a = c.arrs[0]
                if tuple(a.shape) != want:
                    return ck.bad(rule, nm, f"shape {show_shape(a.shape)} returned, {show_shape(want)} expected", ir.where(c.nodes[0]))
                if kind == 'i':
                    ref = scen.FnCase(f, var, fl, world=KeepWorld(c.w))
                    res = gf.decide(list(zip(c.nodes, ref.nodes)), c.w.signs, c.guards, seed=ck.seed, ncell=20, samples=2)
                    return ck.verdict(rule, nm, res, ir.where(res.idx[0]) if res.idx else (), 'results for integer and float input')
                ck.ok(rule, nm, show_shape(want))
            ck.obligation(rule, nm, one)


class KeepWorld(scen.World):
    """A second evaluation in the same graph."""

    def __init__(self, w):
        super().__init__(keep=True)
        self.signs, self.units = w.signs, w.units


# ------------------------------------------------------------------ C16
READABLE = {}


def same(ck, rule, nm, w, a, b, what, **kw):
    """Equal node lists?"""
    if len(a) != len(b):
        return ck.bad(rule, nm, f"{what}: {len(a)} and {len(b)} values")
    res = gf.decide(list(zip(a, b)), w.signs, [(c, p) for c, p, _, _ in w.I.guards], seed=ck.seed, ncell=12, samples=1, **kw)
    return ck.verdict(rule, nm, res, ir.where(res.idx[0]) if res.idx else (), what)


def nodes_of(w, v):
    vs = v if isinstance(v, tuple) else (v,)
    return [n for q in vs for n in w.arr(q).generic().values()]


def changed(w, ref, name):
    """Components of an argument array that no longer hold the caller's values."""
    a = w.I.heap[ref.id]
    out = []
    for idx, n in a.generic().items():
        out.append((idx, n))
    return out


def snapshot(w, refs):
    return {n: list(w.I.heap[r.id].generic().values()) for n, r in refs.items()}


def array_args(d):
    return {n: r for n, r in d.items() if isinstance(r, Ref) and r.kind == 'arr'}


def evaluate(w, src, obj, m, o, x):
    return nodes_of(w, w.call(obj, m, x, **o))


def obs(w, src, m, o):
    if o.get('coordinates') == 'cylindrical':
        return scen.cyl_points(w)
    return scen.obs_points(w, src.methods[m])


def scribble(w, ref, tag):
    """The caller overwrites an array it owns (or was given)."""
    a = w.I.heap[ref.id]
    w.I.heap[ref.id] = Arr(a.shape, lambda idx: ir.sym('scribble_' + tag, idx), a.kind)


def first_opts(r):
    return scen.optsets(r)


def run_purity(ck):
    for s in spec.SOURCES:
        for var in scen.variants(s):
            base = f"{s.id}{label(var)}"

            # constructor and evaluation leave the caller's arrays alone
            for m, r in s.methods.items():
                for o in scen.optsets(r):
                    nm = f"{s.id}.{m}({','.join(f'{k}={v}' for k, v in o.items())}){label(var)}"

                    def pure():
                        w = scen.World()
                        kw = w.ctor_args(s, var)
                        args = array_args(kw)
                        before = snapshot(w, args)
                        ob = w.build(s, kw=dict(kw))
                        x = obs(w, s, m, o)
                        args['xyz'] = x
                        before['xyz'] = snapshot(w, {'x': x})['x']
                        first = evaluate(w, s, ob, m, o, x)
                        ck.note(w)
                        after = snapshot(w, args)
                        for n in args:
                            same(ck, 'input unchanged', f"{nm}: {n}", w, before[n], after[n],
                                 f"the caller's {n} before and after the call")
                    ck.obligation('input unchanged', nm, pure)

                    def repeat():
                        w = scen.World()
                        kw = w.ctor_args(s, var)
                        ob = w.build(s, kw=dict(kw))
                        x = obs(w, s, m, o)
                        v = w.call(ob, m, x, **o)
                        first = nodes_of(w, v)
                        # what the caller does to the returned arrays must not reach the source
                        for j, q in enumerate(v if isinstance(v, tuple) else (v,)):
                            if isinstance(q, Ref) and q.kind == 'arr':
                                scribble(w, q, f"result{j}")
                        x2 = obs(w, s, m, o)
                        again = evaluate(w, s, ob, m, o, x2)
                        same(ck, 'repeatable', nm, w, first, again, 'first and second evaluation (the first result overwritten in between)')
                        same(ck, 'repeatable', nm + ': points', w, snapshot(w, {'x': x})['x'], snapshot(w, {'x': x2})['x'],
                             'the points before and after overwriting the result')
                    ck.obligation('repeatable', nm, repeat)

                    def owned():
                        w = scen.World()
                        kw = w.ctor_args(s, var)
                        ob = w.build(s, kw=dict(kw))
                        x = obs(w, s, m, o)
                        kw2 = w.ctor_args(s, var)
                        ob2 = w.build(s, kw=dict(kw2))
                        want = evaluate(w, s, ob2, m, o, x)
                        for n, q in array_args(kw).items():
                            if w.I.heap[q.id].shape != ():
                                scribble(w, q, n)
                        same(ck, 'owns its parameters', nm, w, want, evaluate(w, s, ob, m, o, x),
                             "evaluation after the caller overwrote the arrays it passed to the constructor")
                    if not o or o == scen.optsets(r)[0]:
                        ck.obligation('owns its parameters', nm, owned)

            # evaluation of one method does not change another
            ms = list(s.methods)
            for m1 in ms:
                def inter():
                    w = scen.World()
                    ob = w.build(s, var)
                    for o1 in scen.optsets(s.methods[m1]):
                        w.call(ob, m1, obs(w, s, m1, o1), **o1)
                    for m2 in ms:
                        o2 = scen.optsets(s.methods[m2])[0]
                        x = obs(w, s, m2, o2)
                        fresh = w.build(s, var)
                        same(ck, 'evaluation order', f"{base}: {m2} after {m1}", w, evaluate(w, s, fresh, m2, o2, x),
                             evaluate(w, s, ob, m2, o2, x), f"{m2} of a new source and of one whose {m1} was evaluated")
                if len(ms) > 1:
                    ck.obligation('evaluation order', f"{base}: after {m1}", inter)

            # setting a parameter = constructing with it, also after evaluations
            for p, P in s.params.items():
                for evald in (False, True):
                    nm = f"{base}: set {p}" + (' after evaluation' if evald else '')

                    def setp():
                        for m, r in s.methods.items():
                            o = scen.optsets(r)[0]
                            w = scen.World()
                            kw = w.ctor_args(s, var)
                            start = dict(kw)
                            start[p] = w.value('old_' + p, P, 'f', var.get(p, var.get('*' + P.kind)))
                            if ('old_' + p) not in w.signs and w.signs.get(p):
                                w.signs['old_' + p] = w.signs[p]
                            ob = w.build(s, kw=start)
                            x = obs(w, s, m, o)
                            if evald:
                                w.call(ob, m, x, **o)
                            try:
                                w.I.setattr(ob, p, kw[p])
                            except AbsRaise as e:
                                return ck.bad('settable', nm, f"setting a valid {p} raises {e}", [str(e.loc)])
                            fresh = w.build(s, kw=w.ctor_args(s, var))
                            same(ck, 'settable', f"{nm}: {m}", w, evaluate(w, s, fresh, m, o, x), evaluate(w, s, ob, m, o, x),
                                 f"{m} of a source constructed with {p} and of one whose {p} was set",
                                 fixed=PRISM if P.kind in ('posmin', 'posmax') else None)
                    ck.obligation('settable', nm, setp)

            # derived quantities follow the parameters they are computed from
            ders = list(refs.PREF.get(s.id, ())) + [n for n in s.props if n not in refs.PREF.get(s.id, ())]
            ders = [n for n in ders if not (n == 'skin_depth' and not var.get('quasistatic'))]
            for p, P in s.params.items():
                for d in ders:
                    nm = f"{base}: {d} after setting {p}"

                    def derived():
                        w = scen.World()
                        kw = w.ctor_args(s, var)
                        start = dict(kw)
                        start[p] = w.value('old_' + p, P, 'f', var.get(p, var.get('*' + P.kind)))
                        if ('old_' + p) not in w.signs and w.signs.get(p):
                            w.signs['old_' + p] = w.signs[p]
                        ob = w.build(s, kw=start)
                        w.prop(ob, d)
                        w.I.setattr(ob, p, kw[p])
                        fresh = w.build(s, kw=w.ctor_args(s, var))
                        ck.note(w)
                        same(ck, 'settable', nm, w, nodes_of(w, w.prop(fresh, d)), nodes_of(w, w.prop(ob, d)),
                             f"{d} of a source constructed with {p} and of one whose {p} was set",
                             fixed=PRISM if P.kind in ('posmin', 'posmax') else None)
                    ck.obligation('settable', nm, derived)

            # the reciprocal parameter and the quasistatic switch
            if 'rho' in refs.PREF.get(s.id, ()):
                def recip():
                    for m, r in s.methods.items():
                        o = scen.optsets(r)[0]
                        w = scen.World()
                        kw = w.ctor_args(s, var)
                        ob = w.build(s, kw=dict(kw))
                        rho = w.scalar('rho', spec.OHM_M, '+')
                        x = obs(w, s, m, o)
                        evaluate(w, s, ob, m, o, x)
                        w.I.setattr(ob, 'rho', rho)
                        kw['sigma'] = w.I.arr(Arr((), lambda idx: ir.div(ir.const(1), ir.sym('rho')), 'f', wk=True))
                        fresh = w.build(s, kw=kw)
                        ck.note(w)
                        same(ck, 'settable', f"{base}: set rho: {m}", w, evaluate(w, s, fresh, m, o, x), evaluate(w, s, ob, m, o, x),
                             f"{m} of a source constructed with sigma = 1/rho and of one whose rho was set")
                    same(ck, 'reads back', f"{base}: rho", w, nodes_of(w, rho), nodes_of(w, w.prop(ob, 'rho')), 'rho as set and as read back')
                ck.obligation('settable', f"{base}: set rho", recip)
            if s.id == 'gravity.Sphere':
                def weigh():
                    for m, r in s.methods.items():
                        o = scen.optsets(r)[0]
                        w = scen.World()
                        kw = w.ctor_args(s, var)
                        ob = w.build(s, kw=dict(kw))
                        mass = w.scalar('mass', spec.KG, None)
                        x = obs(w, s, m, o)
                        evaluate(w, s, ob, m, o, x)
                        w.I.setattr(ob, 'mass', mass)
                        R = E(ir.sym('radius'))
                        rho = E(ir.sym('mass')) * 3 / (4 * refs.pi() * R * R * R)
                        kw['rho'] = w.I.arr(Arr((), lambda idx: rho.n, 'f', wk=True))
                        fresh = w.build(s, kw=kw)
                        ck.note(w)
                        same(ck, 'settable', f"{base}: set mass: {m}", w, evaluate(w, s, fresh, m, o, x), evaluate(w, s, ob, m, o, x),
                             f"{m} of a source constructed with the density of that mass and of one whose mass was set")
                    same(ck, 'reads back', f"{base}: mass", w, nodes_of(w, mass), nodes_of(w, w.prop(ob, 'mass')), 'mass as set and as read back')
                ck.obligation('settable', f"{base}: set mass", weigh)
            if 'quasistatic' in var:
                def switch():
                    for m, r in s.methods.items():
                        o = scen.optsets(r)[0]
                        w = scen.World()
                        ob = w.build(s, dict(var, quasistatic=not var['quasistatic']))
                        x = obs(w, s, m, o)
                        evaluate(w, s, ob, m, o, x)
                        w.I.setattr(ob, 'quasistatic', var['quasistatic'])
                        fresh = w.build(s, var)
                        ck.note(w)
                        same(ck, 'settable', f"{base}: set quasistatic: {m}", w, evaluate(w, s, fresh, m, o, x), evaluate(w, s, ob, m, o, x),
                             f"{m} of a source constructed with quasistatic={var['quasistatic']} and of one on which it was set")
                ck.obligation('settable', f"{base}: set quasistatic", switch)

            # parameters read back
            def readback(ext=None):
                w = scen.World()
                if ext:
                    w.extent = ext
                kw = w.ctor_args(s, var)
                ob = w.build(s, kw=dict(kw))
                for p, P in s.params.items():
                    if P.kind in ('dir', 'dirh'):
                        a = w.I.heap[kw[p].id]
                        v = V(*[E(a.at((k,))) for k in range(3)])
                        same(ck, 'reads back', f"{base}: {p}", w, (v / v.norm()).nodes(), nodes_of(w, w.prop(ob, p)),
                             f"{p} (normalized) as given and as read back")
                        for nme, unit in zip('xyzXYZ', ((1, 0, 0), (0, 1, 0), (0, 0, 1)) * 2):
                            if P.kind == 'dirh' and nme in 'zZ':
                                continue
                            w.I.setattr(ob, p, nme)
                            same(ck, 'reads back', f"{base}: {p} = {nme!r}", w, [ir.const(u) for u in unit], nodes_of(w, w.prop(ob, p)),
                                 f"axis {nme} and {p} as read back")
                        continue
                    got = nodes_of(w, w.prop(ob, p))
                    want = nodes_of(w, kw[p])
                    if P.kind in ('freq', 'time') or len(got) == len(want):
                        same(ck, 'reads back', f"{base}: {p}", w, want, got, f"{p} as given and as read back")
            ck.obligation('reads back', base, readback)
            if scen.freq_dims(s, var):
                ck.obligation('reads back', base + ' (3 values)', lambda: readback({'T': 3}))

            # two sources do not share state
            def shared():
                for m, r in s.methods.items():
                    o = scen.optsets(r)[0]
                    w = scen.World()
                    a = w.build(s, var)
                    x = obs(w, s, m, o)
                    want = evaluate(w, s, a, m, o, x)
                    b = w.build(s, var, prefix='other_')
                    for k, v in list(w.signs.items()):
                        pass
                    evaluate(w, s, b, m, o, x)
                    same(ck, 'separate sources', f"{base}: {m}", w, want, evaluate(w, s, a, m, o, x),
                         f"{m} before and after another source was constructed and evaluated")
            ck.obligation('separate sources', base, shared)
    for f, var, fl in scen.fn_cases(True):
        nm = f"{f.id}({','.join(f'{k}={v}' for k, v in fl.items())}){label(var)}"

        def fpure():
            w = scen.World()
            kw = {n: w.value(n, p, 'f', var.get('*' + p.kind)) for n, p in f.params.items()}
            args = array_args(kw)
            before = snapshot(w, args)
            fn = w.fn(f)
            v = w.I.call(fn, [], dict(kw, **fl))
            first = nodes_of(w, v)
            ck.note(w)
            after = snapshot(w, args)
            for n in args:
                same(ck, 'input unchanged', f"{nm}: {n}", w, before[n], after[n], f"the caller's {n} before and after the call")
            same(ck, 'repeatable', nm, w, first, nodes_of(w, w.I.call(fn, [], dict(kw, **fl))), 'first and second evaluation')
        ck.obligation('input unchanged', nm, fpure)


PRISM = dict(min_location=rng(-9, -1), max_location=rng(1, 9), old_min_location=rng(-9, -1), old_max_location=rng(1, 9))
