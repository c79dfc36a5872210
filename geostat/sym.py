"""Graph transformations used by the field properties."""
from fractions import Fraction as F
from . import ir, spec

QROT = None


def rotation():
    """Exact rational rotation (unit quaternion 1+2i+3j+4k)."""
    w, x, y, z = map(F, (1, 2, 3, 4))
    n = w * w + x * x + y * y + z * z
    return [[(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n],
            [2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n],
            [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n]]


def rotation_z():
    c, s = F(3, 5), F(4, 5)
    return [[c, -s, F(0)], [s, c, F(0)], [F(0), F(0), F(1)]]


def lincomb(cs, ns):
    r = ir.const(0)
    for c, n in zip(cs, ns):
        r = ir.add(r, ir.mul(ir.const(c), n))
    return r


def sub_sym(roots, f):
    """Replace symbols: f(name, idx) -> node or None."""
    def leaf(n):
        k = ir.node(n)
        if k[0] == 'sym':
            return f(k[1], k[2])
        return None
    return ir.substitute(roots, leaf)


def vec_names(src, kinds):
    return {n for n, p in src.params.items() if p.kind in kinds}
