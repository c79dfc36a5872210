"""Formal differentiation of value-graph nodes with respect to one real input symbol.

Branch conditions (gates) are differentiated branchwise: the derivative holds
in the interior of every branch cell."""
from fractions import Fraction as F
from . import ir
from .arr import Unsupported

C = ir.const
add, sub, mul, div, neg, pow_, fn = ir.add, ir.sub, ir.mul, ir.div, ir.neg, ir.pow_, ir.fn


def _pw(n, e):
    return pow_(n, C(F(e)))


def dfn(n, k, d):
    f = k[1]
    kids = ir.children(n)
    x = kids[0]
    dx = d[x]
    if f == 'exp':
        return mul(n, dx)
    if f == 'log':
        return div(dx, x)
    if f == 'sin':
        return mul(fn('cos', x), dx)
    if f == 'cos':
        return neg(mul(fn('sin', x), dx))
    if f == 'tan':
        return mul(add(C(1), mul(n, n)), dx)
    if f == 'sinh':
        return mul(fn('cosh', x), dx)
    if f == 'cosh':
        return mul(fn('sinh', x), dx)
    if f == 'tanh':
        return mul(sub(C(1), mul(n, n)), dx)
    if f == 'arctan':
        return div(dx, add(C(1), mul(x, x)))
    if f == 'arcsin':
        return div(dx, _pw(sub(C(1), mul(x, x)), F(1, 2)))
    if f == 'arccos':
        return neg(div(dx, _pw(sub(C(1), mul(x, x)), F(1, 2))))
    if f == 'arctanh':
        return div(dx, sub(C(1), mul(x, x)))
    if f == 'arcsinh':
        return div(dx, _pw(add(C(1), mul(x, x)), F(1, 2)))
    if f == 'arctan2':
        y, x = kids
        return div(sub(mul(x, d[y]), mul(y, d[x])), add(mul(x, x), mul(y, y)))
    if f == 'erf':
        return mul(mul(div(C(2), _pw(ir.sym('pi'), F(1, 2))), fn('exp', neg(mul(x, x)))), dx)
    if f == 'erfc':
        return neg(mul(mul(div(C(2), _pw(ir.sym('pi'), F(1, 2))), fn('exp', neg(mul(x, x)))), dx))
    if f in ('real', 'imag', 'conj'):
        return fn(f, dx)
    if f == 'abs':
        return mul(fn('sign', x), dx)
    if f in ('sign', 'heaviside', 'rint', 'round', 'floor', 'ceil', 'trunc', 'floordiv'):
        return C(0)
    if f == 'copysign':
        return mul(mul(fn('sign', x), fn('sign', kids[1])), dx)
    if f == 'xlogy':
        y = kids[1]
        return add(mul(dx, fn('log', y)), mul(x, div(d[y], y)))
    if f in ('cast_f', 'cast_c'):
        return dx
    if f == 'ellipk':
        return mul(div(sub(fn('ellipe', x), mul(sub(C(1), x), n)), mul(mul(C(2), x), sub(C(1), x))), dx)
    if f == 'ellipe':
        return mul(div(sub(n, fn('ellipk', x)), mul(C(2), x)), dx)
    if f in ('iv', 'kv', 'jv', 'yv', 'ive', 'kve'):
        nu, z = kids
        c = ir.cval(nu)
        if c is None or d[nu] != C(0):
            raise Unsupported('derivative in the order of a Bessel function')
        up = fn(f, C(c + 1), z)
        base = add(up if f in ('iv', 'ive') else neg(up), mul(div(nu, z), n))
        r = mul(base, d[z])
        if f == 'ive':
            r = sub(r, mul(mul(fn('sign', fn('real', z)), fn('real', d[z])), n))
        if f == 'kve':
            r = add(r, mul(n, d[z]))
        return r
    raise Unsupported(f'derivative of {f}')


def diff(roots, pred):
    """Derivatives of roots; pred(name, idx) tells the symbol of differentiation."""
    d = {}
    zero = C(0)
    saved = ir.G.loc
    for n in ir.topo(list(roots)):
        k = ir.node(n)
        o = k[0]
        ls = ir.G.locs.get(n)
        ir.G.loc = ls[0] if ls else saved
        if o == 'const':
            r = zero
        elif o == 'sym':
            r = C(1) if pred(k[1], k[2]) else zero
        elif all(d[c] == zero for c in ir.children(n)) or o in ('cmp', 'and', 'or', 'not', 'anyix', 'allix'):
            r = zero
        elif o == 'add':
            r = add(d[k[1]], d[k[2]])
        elif o == 'sub':
            r = sub(d[k[1]], d[k[2]])
        elif o == 'neg':
            r = neg(d[k[1]])
        elif o == 'mul':
            r = add(mul(d[k[1]], k[2]), mul(k[1], d[k[2]]))
        elif o == 'div':
            a, b = k[1], k[2]
            if d[b] == zero:
                r = div(d[a], b)
            else:
                r = div(sub(mul(d[a], b), mul(a, d[b])), mul(b, b))
        elif o == 'pow':
            a, b = k[1], k[2]
            c = ir.cval(b)
            if c is not None:
                r = mul(mul(b, pow_(a, C(ir.q_add(c, -1)))), d[a])
            else:
                r = mul(n, add(mul(d[b], fn('log', a)), mul(b, div(d[a], a))))
        elif o == 'gate':
            r = ir.gate(k[1], d[k[2]], d[k[3]])
        elif o == 'fn':
            r = dfn(n, k, d)
        elif o == 'sumix':
            r = ir.sumix(k[1], k[2], d[k[3]])
        else:
            raise Unsupported(f'derivative of {o}')
        d[n] = r
    ir.G.loc = saved
    return [d[r] for r in roots]


def wrt(name, comp=None):
    """Predicate for the symbol `name` (component `comp` of its last axis)."""
    return lambda n, i: n == name and (comp is None or i[-1] == comp)


def grad(node, name='xyz'):
    return [diff([node], wrt(name, k))[0] for k in range(3)]


def jac(vec, name='xyz'):
    """J[k][c] = d vec[c] / d x_k"""
    return [diff(vec, wrt(name, k)) for k in range(3)]


def div_(vec, name='xyz'):
    J = jac(vec, name)
    return add(add(J[0][0], J[1][1]), J[2][2])


def curl(vec, name='xyz'):
    J = jac(vec, name)
    return [sub(J[1][2], J[2][1]), sub(J[2][0], J[0][2]), sub(J[0][1], J[1][0])]
