"""C01: SI dimensional homogeneity."""
from fractions import Fraction as F
from . import ir, gf, spec, scen, sym
from .spec import ONE, mulU, show_unit

ANY = 'any'
TOP = 'top'
PASS = {'abs', 'real', 'imag', 'conj', 'cast_f', 'cast_i', 'cast_c', 'nan_to_num', 'round', 'rint'}
PURE = {'exp', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'erf', 'arccos', 'arcsin', 'arctan', 'iv', 'ive', 'kv', 'kve',
        'jv', 'yv', 'ellipk', 'ellipe', 'arctanh', 'arcsinh', 'arccosh', 'sinc'}


def infer(roots, units):
    """Bottom-up dimension inference. Returns (unit map, issues, log nodes)."""
    U, issues, logs = {}, [], []

    def join(n, us, what):
        us = [u for u in us if u != ANY]
        if TOP in us:
            return TOP
        if not us:
            return ANY
        if any(u != us[0] for u in us):
            issues.append((n, f"{what} of {' and '.join(show_unit(u) for u in us)}"))
            return TOP
        return us[0]

    for n in ir.topo(roots):
        k = ir.node(n)
        o = k[0]
        ch = [U[c] for c in ir.children(n)]
        if o == 'const':
            u = ANY if isinstance(k[1], F) and k[1] == 0 or k[1] in ('nan', 'inf') else ONE
        elif o == 'sym':
            u = units.get(k[1], ONE)
        elif o in ('add', 'sub'):
            u = join(n, ch, 'sum')
        elif o == 'cmp':
            join(n, ch, 'comparison')
            u = ONE
        elif o == 'gate':
            u = join(n, ch[1:], 'branches')
        elif o in ('mul', 'div'):
            if TOP in ch:
                u = TOP
            elif ANY in ch:
                u = ANY
            else:
                u = mulU(ch[0], ch[1], 1 if o == 'mul' else -1)
        elif o == 'neg':
            u = ch[0]
        elif o == 'pow':
            e = ir.cval(k[2])
            if ch[0] in (ANY, TOP):
                u = ch[0]
            elif isinstance(e, F):
                u = tuple(x * e for x in ch[0])
            elif ch[0] == ONE:
                u = ONE
            else:
                issues.append((n, f"variable power of {show_unit(ch[0])}"))
                u = TOP
        elif o in ('sumix', 'redix'):
            u = ch[0]
        elif o == 'fn':
            f = k[1]
            if f in PASS:
                u = ch[0]
            elif f == 'sign':
                u = ONE
            elif f in ('arctan2', 'angle', 'heaviside'):
                if f == 'arctan2':
                    join(n, ch, 'arctan2')
                u = ONE
            elif f in ('log', 'xlogy'):
                a = ch[-1]
                if a not in (ANY, TOP, ONE):
                    logs.append((n, a))
                u = ONE if f == 'log' else ch[0]
            elif f in ('copysign', 'mod'):
                u = ch[0]
            elif f == 'cbrt':
                u = ch[0] if ch[0] in (ANY, TOP) else tuple(x / 3 for x in ch[0])
            else:
                for c in ch:
                    if c not in (ANY, TOP, ONE):
                        issues.append((n, f"{f}() of a quantity in {show_unit(c)}"))
                u = ONE
        elif o in ('and', 'or', 'not', 'anyix', 'allix'):
            u = ONE
        else:
            u = ANY if o == 'unk' else ONE
        U[n] = u
    return U, issues, logs


def scaled(nodes, units):
    """Graph with every input scaled by its unit in free base units."""
    base = [ir.sym('unit_' + b) for b in ('m', 'kg', 's', 'A')]

    def fac(u):
        r = ir.const(1)
        for b, e in zip(base, u):
            if e:
                r = ir.mul(r, ir.pow_(b, ir.const(e)))
        return r

    def f(name, idx):
        u = units.get(name, ONE)
        if u == ONE:
            return None
        return ir.mul(ir.sym(name, idx), fac(u))
    return sym.sub_sym(nodes, f), fac


def scaled_logs(nodes, units, U, logs):
    """As scaled, with log(c u) = log(u) + (log c) for arguments u of one dimension (log of the base units: free symbols)."""
    _, fac = scaled([], units)
    lam = [ir.sym('lambda_' + b) for b in ('m', 'kg', 's', 'A')]
    ln = dict(logs)
    m = {}
    for n in ir.topo(nodes):
        k = ir.node(n)
        kids = [m[c] for c in ir.children(n)]
        if k[0] == 'sym':
            u = units.get(k[1], ONE)
            m[n] = n if u == ONE else ir.mul(n, fac(u))
            continue
        if n in ln:
            t = ir.fn('log', ir.children(n)[-1])
            for b, e in zip(lam, ln[n]):
                if e:
                    t = ir.add(t, ir.mul(ir.const(e), b))
            m[n] = ir.mul(kids[0], t) if k[1] == 'xlogy' else t
            continue
        m[n] = n if all(a == b for a, b in zip(kids, ir.children(n))) else ir.rebuild(n, kids)
    return [m[n] for n in nodes]


def gauge(nodes, U, logs):
    """Graph in which log(u) -> log(u) + (unit of u) . lambda."""
    lam = [ir.sym('lambda_' + b) for b in ('m', 'kg', 's', 'A')]
    ln = {n: u for n, u in logs}
    m = {}
    for n in ir.topo(nodes):
        kids = [m[c] for c in ir.children(n)]
        r = n if all(a == b for a, b in zip(kids, ir.children(n))) else ir.rebuild(n, kids)
        if n in ln:
            s = ir.const(0)
            for b, e in zip(lam, ln[n]):
                if e:
                    s = ir.add(s, ir.mul(ir.const(e), b))
            if ir.node(n)[1] == 'xlogy':
                s = ir.mul(s, kids[0])
            r = ir.add(r, s)
        m[n] = r
    return [m[n] for n in nodes]


def settled(nodes):
    """Graph in which x is 0 wherever a branch has established x == 0 (a zero has any dimension)."""
    m = {}
    zero = ir.const(0)
    for n in ir.topo(nodes):
        kids = [m[c] for c in ir.children(n)]
        k = ir.node(n)
        if k[0] == 'gate':
            c = ir.node(kids[0])
            if c[0] == 'cmp' and c[1] in ('==', '!='):
                x = c[2] if c[3] == zero else c[3] if c[2] == zero else None
                j = 1 if c[1] == '==' else 2
                if x is not None and ir.op(x) != 'const' and x in ir.topo([kids[j]]):
                    kids[j] = ir.substitute([kids[j]], lambda q: zero if q == x else None)[0]
        m[n] = n if all(a == b for a, b in zip(kids, ir.children(n))) else ir.rebuild(n, kids)
    return [m[n] for n in nodes]


def run_case(ck, c, unit, label):
    units = c.w.units
    rule = 'dimension'
    nodes = settled(c.nodes)
    U, issues, logs = infer(nodes, units)
    bad_root = [n for n in nodes if U[n] not in (ANY, TOP) and U[n] != unit]
    if not issues and not bad_root and not logs:
        ck.ok(rule, label, f"{show_unit(unit)} by inference over {len(U)} nodes")
        return
    signs = dict(c.w.signs, **{'unit_' + b: '+' for b in ('m', 'kg', 's', 'A')})
    if not issues and not bad_root:
        g = gauge(nodes, U, logs)
        res = gf.decide(list(zip(nodes, g)), signs, c.guards, seed=ck.seed, cover=('wide', 'near', 'far'))
        ck.verdict(rule, label, res, ir.where(logs[0][0]),
                   f"result depends on the unit inside log ({ir.show(logs[0][0], 4)}):")
        return
    sc, fac = scaled(nodes, units)
    if logs:
        sc = scaled_logs(nodes, units, U, logs)
    pairs = [(s, ir.mul(n, fac(unit))) for s, n in zip(sc, nodes)]
    res = gf.decide(pairs, signs, c.guards, seed=ck.seed, cover=('wide', 'near', 'far'))
    if res.status == 'differ':
        if issues:
            n, what = issues[0]
            ck.bad(rule, label, f"{what}: {ir.show(n, 5)}", ir.where(n))
        else:
            n = bad_root[0]
            ck.bad(rule, label, f"result has unit {show_unit(U[n])}, expected {show_unit(unit)}", ir.where(n))
        ck.samples += res.samples
    else:
        ck.verdict(rule, label, res)


def run(ck):
    deep = True
    for s, var, m, o in scen.all_cases(deep):
        def one():
            c = scen.Case(s, var, m, o, batch=('N',))
            ck.note(c.w)
            run_case(ck, c, s.methods[m].unit, c.name())
        ck.obligation('dimension', f"{s.id}.{m} {o} {var}", one)
    for s in spec.SOURCES:
        for var in scen.variants(s):
            for p, (u, rank) in s.props.items():
                def one():
                    w = scen.World()
                    ob = w.build(s, var)
                    a = w.arr(w.prop(ob, p))
                    c = type('C', (), {})()
                    c.w, c.nodes, c.guards = w, list(a.generic().values()), [(x, q) for x, q, _, _ in w.I.guards]
                    ck.note(w)
                    run_case(ck, c, u, f"{s.id}.{p} {vname(var)}")
                ck.obligation('dimension', f"{s.id}.{p} {vname(var)}", one)
    for f, var, fl in scen.fn_cases(deep):
        def one():
            c = scen.FnCase(f, var, fl)
            ck.note(c.w)
            run_case(ck, c, f.unit, c.name())
        ck.obligation('dimension', f"{f.id} {fl} {var}", one)


def vname(v):
    return ','.join(f"{k.strip('*')}={x}" for k, x in v.items() if x is not None)
