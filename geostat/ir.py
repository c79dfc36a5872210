"""Hash-consed scalar value graph (gated SSA) shared by every analysis.

A node is an int; NODES[n] is a tuple (op, *args).  Leaves:
  ('const', Fraction|GQ|bool|str)      literal ('nan'/'inf' as str)
  ('sym', name, idx)                   input quantity, element `idx`
Interior:
  add sub mul div neg pow fn cmp and or not gate sumix anyix allix redix unk
"""
import math
from fractions import Fraction


class GQ:
    """Gaussian rational (exact complex literal)."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re = Fraction(re)
        self.im = Fraction(im)

    def __eq__(self, o):
        o = gq(o)
        return o is not None and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return f"({self.re}+{self.im}j)"


def gq(v):
    if isinstance(v, GQ):
        return v
    if isinstance(v, bool):
        return GQ(int(v))
    if isinstance(v, (int, Fraction)):
        return GQ(v)
    return None


def simp_gq(v):
    if isinstance(v, GQ) and v.im == 0:
        return v.re
    return v


def q_add(a, b):
    a, b = gq(a), gq(b)
    return simp_gq(GQ(a.re + b.re, a.im + b.im))


def q_neg(a):
    a = gq(a)
    return simp_gq(GQ(-a.re, -a.im))


def q_mul(a, b):
    a, b = gq(a), gq(b)
    return simp_gq(GQ(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))


def q_inv(a):
    a = gq(a)
    d = a.re * a.re + a.im * a.im
    return simp_gq(GQ(a.re / d, -a.im / d))


def q_iszero(a):
    a = gq(a)
    return a.re == 0 and a.im == 0


def q_pow(a, n):
    if n < 0:
        return q_pow(q_inv(a), -n)
    r = Fraction(1)
    for _ in range(n):
        r = q_mul(r, a)
    return r


class Graph:
    def __init__(self):
        self.nodes = []
        self.index = {}
        self.locs = {}          # node -> list of (file, line, func)
        self.loc = None         # current location, set by the interpreter
        self.gen = 0            # bumped whenever nodes are dropped

    def mk(self, *key):
        n = self.index.get(key)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(key)
            self.index[key] = n
            if self.loc is not None:
                self.locs[n] = [self.loc]
        elif self.loc is not None:
            ls = self.locs.setdefault(n, [])
            if len(ls) < 6 and self.loc not in ls:
                ls.append(self.loc)
        return n


G = Graph()


def reset():
    """Start a new graph (drops all nodes)."""
    G.nodes = []
    G.index = {}
    G.locs = {}
    G.loc = None
    G.gen += 1


def mark():
    return len(G.nodes)


def rollback(base):
    """Drop every node created after mark()."""
    for k in G.nodes[base:]:
        del G.index[k]
    del G.nodes[base:]
    G.locs = {n: l for n, l in G.locs.items() if n < base}
    G.loc = None
    G.gen += 1


def op(n):
    return G.nodes[n][0]


def node(n):
    return G.nodes[n]


def const(v):
    if isinstance(v, bool):
        return G.mk('const', 'True' if v else 'False')
    if isinstance(v, int):
        v = Fraction(v)
    if isinstance(v, float):
        v = lit(v)
    v = simp_gq(v)
    return G.mk('const', v)


def lit(x):
    """Exact value of a source literal."""
    if isinstance(x, bool) or isinstance(x, int):
        return x
    if isinstance(x, float):
        if x != x:
            return 'nan'
        if x in (float('inf'), float('-inf')):
            return 'inf'
        return Fraction(repr(x))
    if isinstance(x, complex):
        return GQ(Fraction(repr(x.real)), Fraction(repr(x.imag)))
    return x


PHYS = {6.6743e-11: 'G', 1.25663706127e-06: 'mu_0', 8.8541878188e-12: 'epsilon_0', 299792458.0: 'c_light'}
_R = [Fraction(a, b) for a in (1, 2, 3, 4, 6, 8, 180, 360) for b in (1, 2, 3, 4, 6, 8, 180, 360) if Fraction(a, b).limit_denominator(10 ** 4) and (a == 1 or b == 1 or a < 9 and b < 9)]


def named(x):
    """Node of a literal that spells out a multiple of a power of pi, sqrt(2) or a physical constant; None for any other."""
    if x in PHYS:
        return sym(PHYS[x])
    if x == 0 or len(repr(abs(x)).split('e')[0].replace('.', '').strip('0')) < 12:
        return None
    y = abs(x)
    for base, mk in ((math.pi, lambda: sym('pi')), (1 / math.pi, lambda: div(const(1), sym('pi'))),
                     (math.sqrt(math.pi), lambda: pow_(sym('pi'), const(Fraction(1, 2)))),
                     (1 / math.sqrt(math.pi), lambda: pow_(sym('pi'), const(Fraction(-1, 2)))),
                     (math.sqrt(2), lambda: pow_(const(2), const(Fraction(1, 2))))):
        for r in _R:
            if abs(y / (float(r) * base) - 1) < 4e-14:
                return mul(const(r if x > 0 else -r), mk())
    return None


def sym(name, idx=()):
    return G.mk('sym', name, tuple(idx))


def cval(n):
    """Constant number of n or None."""
    k = G.nodes[n]
    if k[0] == 'const' and isinstance(k[1], (Fraction, GQ)):
        return k[1]
    return None


def bval(n):
    k = G.nodes[n]
    if k[0] == 'const' and k[1] in ('True', 'False'):
        return k[1] == 'True'
    return None


TRUE = lambda: const(True)
FALSE = lambda: const(False)


def add(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(q_add(ca, cb))
    if ca is not None and q_iszero(ca):
        return b
    if cb is not None and q_iszero(cb):
        return a
    return G.mk('add', a, b)


def sub(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(q_add(ca, q_neg(cb)))
    if cb is not None and q_iszero(cb):
        return a
    if ca is not None and q_iszero(ca):
        return neg(b)
    return G.mk('sub', a, b)


def neg(a):
    c = cval(a)
    if c is not None:
        return const(q_neg(c))
    if op(a) == 'neg':
        return node(a)[1]
    return G.mk('neg', a)


def mul(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(q_mul(ca, cb))
    for c, o in ((ca, b), (cb, a)):
        if c is not None:
            if q_iszero(c):
                return const(0)
            if gq(c) == GQ(1):
                return o
    return G.mk('mul', a, b)


def div(a, b):
    ca, cb = cval(a), cval(b)
    if cb is not None and not q_iszero(cb):
        if ca is not None:
            return const(q_mul(ca, q_inv(cb)))
        if gq(cb) == GQ(1):
            return a
    if ca is not None and q_iszero(ca) and cb is None:
        return const(0)
    return G.mk('div', a, b)


def pow_(a, b):
    ca, cb = cval(a), cval(b)
    if isinstance(cb, Fraction):
        if cb == 1:
            return a
        if cb == 0:
            return const(1)
        if ca is not None and cb.denominator == 1 and abs(cb) < 40 and not (q_iszero(ca) and cb < 0):
            return const(q_pow(ca, int(cb)))
    return G.mk('pow', a, b)


def fn(name, *args):
    a0 = cval(args[0]) if args and isinstance(args[0], int) else None
    if name == 'sqrt':
        return pow_(args[0], const(Fraction(1, 2)))
    if a0 is not None and len(args) == 1:
        if q_iszero(a0):
            if name in ('sin', 'tan', 'arctan', 'arcsin', 'erf', 'sinh', 'tanh', 'abs', 'real', 'imag', 'conj'):
                return const(0)
            if name in ('cos', 'exp', 'cosh'):
                return const(1)
        if name == 'log' and a0 == 1:
            return const(0)
        z = gq(a0)
        if name == 'real':
            return const(z.re)
        if name == 'imag':
            return const(z.im)
        if name == 'conj':
            return const(GQ(z.re, -z.im))
        if name == 'abs' and z.im == 0:
            return const(abs(z.re))
        if name == 'sign' and z.im == 0:
            return const((z.re > 0) - (z.re < 0))
    return G.mk('fn', name, *args)


_CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
        '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
SIGN_ORACLE = [None]     # optional function node -> set of possible signs


def cmp(o, a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        if o in ('==', '!='):
            return const(_CMP[o](gq(ca), gq(cb)))
        if isinstance(ca, Fraction) and isinstance(cb, Fraction):
            return const(_CMP[o](ca, cb))
    if a == b and o in ('==', '<=', '>='):
        return const(True)
    if a == b and o in ('!=', '<', '>'):
        return const(False)
    if SIGN_ORACLE[0] is not None:
        s = SIGN_ORACLE[0](a, b)
        if s is not None:
            r = {_CMP[o](x, 0) for x in s}
            if len(r) == 1:
                return const(r.pop())
    return G.mk('cmp', o, a, b)


def not_(a):
    v = bval(a)
    if v is not None:
        return const(not v)
    k = node(a)
    if k[0] == 'not':
        return k[1]
    if k[0] == 'cmp':
        inv = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
        return cmp(inv[k[1]], k[2], k[3])
    return G.mk('not', a)


def and_(a, b):
    va, vb = bval(a), bval(b)
    if va is False or vb is False:
        return const(False)
    if va is True:
        return b
    if vb is True:
        return a
    if a == b:
        return a
    return G.mk('and', *sorted((a, b)))


def or_(a, b):
    va, vb = bval(a), bval(b)
    if va is True or vb is True:
        return const(True)
    if va is False:
        return b
    if vb is False:
        return a
    if a == b:
        return a
    return G.mk('or', *sorted((a, b)))


def gate(c, a, b):
    v = bval(c)
    if v is True:
        return a
    if v is False:
        return b
    if a == b:
        return a
    k = node(c)
    if k[0] == 'not':
        return gate(k[1], b, a)
    # collapse nested gates on the same condition
    ka = node(a)
    if ka[0] == 'gate' and ka[1] == c:
        a = ka[2]
    kb = node(b)
    if kb[0] == 'gate' and kb[1] == c:
        b = kb[3]
    if a == b:
        return a
    va, vb = bval(a), bval(b)
    if va is True and vb is False:
        return c
    if va is False and vb is True:
        return not_(c)
    return G.mk('gate', c, a, b)


def free_ix(n, _memo={}):
    raise NotImplementedError


def sumix(ix, dim, body):
    return G.mk('sumix', ix, dim, body)


def unk(name, *args):
    return G.mk('unk', name, *args)


def children(n):
    k = G.nodes[n]
    o = k[0]
    if o in ('const', 'sym'):
        return ()
    if o == 'fn' or o == 'unk':
        return tuple(a for a in k[2:] if isinstance(a, int))
    if o == 'cmp':
        return k[2:]
    if o in ('sumix', 'anyix', 'allix'):
        return (k[3],)
    if o == 'redix':
        return (k[4],)
    return k[1:]


def rebuild(n, kids):
    """Same operator with new children (smart constructors applied)."""
    k = G.nodes[n]
    o = k[0]
    if o in ('const', 'sym'):
        return n
    if o in ('fn', 'unk'):
        it = iter(kids)
        args = [next(it) if isinstance(a, int) else a for a in k[2:]]
        return fn(k[1], *args) if o == 'fn' else unk(k[1], *args)
    if o == 'cmp':
        return cmp(k[1], *kids)
    if o == 'redix':
        return G.mk('redix', k[1], k[2], k[3], kids[0])
    if o in ('sumix', 'anyix', 'allix'):
        if o != 'sumix' and bval(kids[0]) is not None:
            return kids[0]
        return G.mk(o, k[1], k[2], kids[0])
    return {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'neg': neg, 'pow': pow_,
            'and': and_, 'or': or_, 'not': not_, 'gate': gate}[o](*kids)


def topo(roots):
    """Post-order list of all nodes reachable from roots."""
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        stack.append((n, True))
        for c in children(n):
            if c not in seen:
                stack.append((c, False))
    return out


def substitute(roots, leaf):
    """Rebuild roots replacing leaves: leaf(n) -> node or None."""
    saved = G.loc
    m = {}
    for n in topo(roots):
        ls = G.locs.get(n)
        G.loc = ls[0] if ls else saved
        r = leaf(n)
        if r is not None:
            m[n] = r
            continue
        kids = children(n)
        m[n] = n if all(m[c] == c for c in kids) else rebuild(n, [m[c] for c in kids])
    G.loc = saved
    return [m[r] for r in roots]


def symbols(roots):
    return {node(n)[1] for n in topo(roots) if op(n) == 'sym'}


def show(n, depth=6):
    k = G.nodes[n]
    o = k[0]
    if o == 'const':
        return str(k[1])
    if o == 'sym':
        return k[1] + (str(list(k[2])) if k[2] else '')
    if depth <= 0:
        return '…'
    s = [show(c, depth - 1) for c in children(n)]
    inf = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**', 'and': '&', 'or': '|'}
    if o in inf:
        return '(' + inf[o].join(s) + ')'
    if o == 'cmp':
        return f"({s[0]}{k[1]}{s[1]})"
    if o == 'neg':
        return f"(-{s[0]})"
    if o in ('fn', 'unk'):
        return f"{k[1]}({', '.join(s)})"
    if o == 'gate':
        return f"if({s[0]}; {s[1]}; {s[2]})"
    return f"{o}({', '.join(map(str, k[1:-1]))}; {s[-1]})"


def where(n):
    ls = G.locs.get(n) or []
    return [f"{f}:{l} in {fu}" for f, l, fu in ls]
