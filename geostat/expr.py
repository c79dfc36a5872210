"""Readable construction of reference expressions as value-graph nodes."""
from fractions import Fraction as F
from . import ir


class E:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    @staticmethod
    def of(v):
        if isinstance(v, E):
            return v
        if isinstance(v, complex):
            return E(ir.const(ir.GQ(F(v.real), F(v.imag))))
        if isinstance(v, float):
            return E(ir.const(F(str(v))))
        return E(ir.const(v))

    def __add__(self, o):
        return E(ir.add(self.n, E.of(o).n))

    def __radd__(self, o):
        return E.of(o) + self

    def __sub__(self, o):
        return E(ir.sub(self.n, E.of(o).n))

    def __rsub__(self, o):
        return E.of(o) - self

    def __mul__(self, o):
        return NotImplemented if isinstance(o, V) else E(ir.mul(self.n, E.of(o).n))

    def __rmul__(self, o):
        return E.of(o) * self

    def __truediv__(self, o):
        return E(ir.div(self.n, E.of(o).n))

    def __rtruediv__(self, o):
        return E.of(o) / self

    def __neg__(self):
        return E(ir.neg(self.n))

    def __pow__(self, k):
        return E(ir.pow_(self.n, ir.const(F(k))))

    def fn(self, name):
        return E(ir.fn(name, self.n))


def f_(name):
    return lambda x: E(ir.fn(name, E.of(x).n))


exp, log, erf, arctan, ellipk, ellipe, tanh = map(f_, ('exp', 'log', 'erf', 'arctan', 'ellipk', 'ellipe', 'tanh'))
cos, sin, real = map(f_, ('cos', 'sin', 'real'))


def sqrt(x):
    return E(ir.pow_(E.of(x).n, ir.const(F(1, 2))))


def bes(kind, nu, z):
    return E(ir.fn(kind, ir.const(nu), E.of(z).n))


def sym(name, *idx):
    return E(ir.sym(name, idx))


def pi():
    return sym('pi')


I1 = 1j


class V:
    """3-vector of expressions."""
    __slots__ = ('c',)

    def __init__(self, *c):
        self.c = [E.of(x) for x in c]

    def __add__(self, o):
        return V(*[a + b for a, b in zip(self.c, o.c)])

    def __sub__(self, o):
        return V(*[a - b for a, b in zip(self.c, o.c)])

    def __neg__(self):
        return V(*[-a for a in self.c])

    def __mul__(self, s):
        return V(*[a * s for a in self.c])

    __rmul__ = __mul__

    def __truediv__(self, s):
        return V(*[a / s for a in self.c])

    def dot(self, o):
        r = self.c[0] * o.c[0]
        for a, b in zip(self.c[1:], o.c[1:]):
            r = r + a * b
        return r

    def cross(self, o):
        a, b = self.c, o.c
        return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])

    def norm(self):
        return sqrt(self.dot(self))

    def __getitem__(self, k):
        return self.c[k]

    def nodes(self):
        return [x.n for x in self.c]


def vec(name, n=3):
    return V(*[sym(name, k) for k in range(n)])


def mat_nodes(rows):
    return [E.of(x).n for r in rows for x in r]
