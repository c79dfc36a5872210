"""Deciding equality of value-graph nodes: random interpretation over GF(P)[i].

The analysed expressions are interpreted in a finite field that behaves like
the complex numbers for the algebra used in this code base:

* -1 is a non-residue of P, so i is adjoined and conj/real/imag are exact;
  chi(v) (the quadratic character) plays the role of sign(v): it is
  multiplicative, chi(-1) = -1 and chi(2..23) = +1.  sqrt(v) is the residue
  root, hence sqrt(a b) = sqrt(a) sqrt(b) and sqrt(a^2) = |a| hold exactly.
* exp is the homomorphism (re, im) -> g^re u^im with re taken in GF(Q1),
  im in GF(Q2), Q1 | P-1, Q2 | P+1, so exp(a + b) = exp(a) exp(b),
  cos^2 + sin^2 = 1, ... hold exactly.
* other functions are uninterpreted up to parity and order recurrences.

Every identity of that algebra is preserved, so different fingerprints of
two expressions prove that no such identity equates them; equal fingerprints
are wrong with probability about degree / 2^45 per sample.

Branch conditions are resolved by a `Witness`: one ordering of the inputs
(a point of the input domain) that tells which side of each comparison it
lies on; the field sample must carry the same signs.
"""
import cmath
import math
import time
import random
import struct
from fractions import Fraction

from . import ir
from .fields import FIELDS
from .arr import Unsupported


class Reject(Exception):
    """Sample does not satisfy the sign constraints / is degenerate."""


class DivZero(Reject):
    """A divisor is zero; node: where."""
    node = None


class NaNCompared(Reject):
    """A branch depends on the order of a nan."""


class Undecided(Exception):
    pass


EFFORT = [1]      # thorough runs draw this many times more samples and witnesses
F = Fraction
HALF = F(1, 2)


# ------------------------------------------------------------------ common evaluator
_fb = {}
_fbgen = [-1]


def free_bound(n):
    """Bound indices ('s', k) a node depends on."""
    if _fbgen[0] != ir.G.gen:
        _fb.clear()
        _fbgen[0] = ir.G.gen
    if n in _fb:
        return _fb[n]
    for m in ir.topo([n]):
        if m in _fb:
            continue
        k = ir.node(m)
        s = frozenset()
        for c in ir.children(m):
            s |= _fb[c]
        if k[0] == 'sym':
            s |= ix_bound(k[2])
        elif k[0] in ('fn', 'unk'):
            pass
        elif k[0] in ('sumix', 'anyix', 'allix'):
            s -= {k[1]}
        elif k[0] == 'redix':
            s -= {k[2]}
        _fb[m] = s
    return _fb[n]


def ix_bound(ix):
    if isinstance(ix, tuple):
        if len(ix) == 2 and ix[0] == 's' and isinstance(ix[1], int):
            return frozenset([ix])
        s = frozenset()
        for x in ix:
            s |= ix_bound(x)
        return s
    return frozenset()


def ix_resolve(ix, env, sizes):
    """Index with bound indices replaced by their instance."""
    if isinstance(ix, tuple):
        if len(ix) == 2 and ix[0] == 's' and isinstance(ix[1], int):
            return env.get(ix, ix)
        r = tuple(ix_resolve(x, env, sizes) for x in ix)
        if len(r) == 3 and r[0] == 'off' and isinstance(r[1], int) and isinstance(r[2], int):
            return r[1] + r[2]
        if len(r) == 3 and r[0] == 'rev' and isinstance(r[1], int):
            return dim_size(r[2], sizes) - 1 - r[1]
        return r
    return ix


def dim_size(d, sizes):
    if isinstance(d, int):
        return d
    if isinstance(d, tuple):
        if d[0] == 'add':
            return max(dim_size(d[1], sizes) + d[2], 1)
        if d[0] == 'prod':
            r = 1
            for x in d[1]:
                r *= dim_size(x, sizes)
            return r
        return sizes.get(d[0] if isinstance(d[0], str) else str(d), 2)
    return sizes.get(d, 2)


class Ev:
    """Lazy iterative evaluator; gates follow self.truth."""

    def __init__(self, sizes=None):
        self.memo = {}
        self.sizes = sizes or {}

    def key(self, n, env):
        if not env:
            return n
        fb = free_bound(n)
        if not fb:
            return n
        return (n,) + tuple(sorted((b, env[b]) for b in fb if b in env))

    def val(self, root, env=None):
        env = env or {}
        memo = self.memo
        rk = self.key(root, env)
        if rk in memo:
            return memo[rk]
        stack = [root]
        while stack:
            n = stack[-1]
            kn = self.key(n, env)
            if kn in memo:
                stack.pop()
                continue
            kids = self.kids(n, env)
            miss = [c for c in kids if self.key(c, env) not in memo]
            if miss:
                stack.extend(miss)
                continue
            try:
                memo[kn] = self.compute(n, [memo[self.key(c, env)] for c in kids], env)
            except DivZero as e:
                e.node = e.node or n
                raise
            stack.pop()
        return memo[rk]

    def kids(self, n, env):
        k = ir.node(n)
        o = k[0]
        if o == 'gate':
            return (k[2],) if self.truth(k[1], env) else (k[3],)
        if o in ('sumix', 'anyix', 'allix', 'redix', 'const', 'sym', 'cmp', 'and', 'or', 'not'):
            return ()
        if o == 'fn':
            if k[1] == 'xlogy':
                c = ir.cval(k[2])
                return k[2:] if c is None or not ir.q_iszero(c) else (k[2],)
            if k[1] in LAZY:
                return ()
        return ir.children(n)


LAZY = {'exp', 'cos', 'sin', 'tan', 'sinh', 'cosh', 'tanh', 'log', 'ive', 'kve'}


def nanny(*ns):
    """Can a nan or inf literal reach one of these nodes?"""
    if NANNY.get('gen') != ir.G.gen:
        NANNY.clear()
        NANNY['gen'] = ir.G.gen
    memo = NANNY
    for n in ns:
        if n not in memo:
            todo = [n]
            while todo:
                m = todo[-1]
                if m in memo:
                    todo.pop()
                    continue
                kids = ir.children(m)
                miss = [c for c in kids if c not in memo]
                if miss:
                    todo += miss
                    continue
                memo[m] = any(memo[c] for c in kids) or ir.op(m) == 'const' and ir.node(m)[1] in ('nan', 'inf')
                todo.pop()
    return any(memo[n] for n in ns)


NANNY = {}


# ------------------------------------------------------------------ witness (ordering of inputs)
def _hashfloat(key):
    return 0.5 + random.Random(repr(key)).random()


OBSERVED = ('xyz', 'xy', 'xyz_m', 'xyz_n')
ANCHORS = ('location', 'location_a', 'location_b', 'nodes', 'min_location', 'max_location')
KEEP = ('pi', 'mu_0', 'epsilon_0', 'G')
NOZERO = ('nodes',)


def find_anchors(roots):
    out = set()
    for n in ir.topo(list(roots)):
        k = ir.node(n)
        if k[0] == 'sym' and k[1] in ANCHORS and k[2] and all(isinstance(i, int) for i in k[2]):
            out.add((k[1], k[2][:-1]))
    return sorted(out)


class Witness(Ev):
    """A point of the input domain; only its orderings and signs are used."""

    def __init__(self, seed, signs, mode='plain', sizes=None, fixed=None, anchors=()):
        super().__init__(sizes)
        self.seed, self.signs, self.mode = seed, signs, mode
        self.syms = {}
        self.fixed = fixed or {}
        self.anchors = anchors
        self.alias = {}
        self.strict = False

    def anchor(self, name, idx, r):
        """Input the observation coordinate is placed at (or close to)."""
        if not self.anchors or not idx or not isinstance(idx[-1], int):
            return None
        a = random.Random(repr((self.seed, 'anchor'))).choice(self.anchors)
        return a[0], a[1] + (idx[-1],)

    def special(self, name, idx, r):
        """Coordinates of the modes near, far and deg (None: as in plain mode)."""
        m = self.mode
        if name in OBSERVED:
            a = self.anchor(name, idx, r)
            w = random.Random(repr((self.seed, 'scale')))
            if m == 'far':
                return r.uniform(0.3, 2.0) * r.choice((-1, 1)) * 10 ** w.uniform(1, 6)
            if a is None:
                return 0.0 if m == 'deg' and r.random() < 0.4 else None
            if m == 'near':
                return self.symval(*a) + r.uniform(0.3, 2.0) * r.choice((-1, 1)) * 10 ** w.uniform(-7, -1)
            if m == 'deg' and r.random() < w.choice((0.15, 0.4, 0.75)):
                self.alias[name, idx] = a
                return self.symval(*a)
        elif name == 'nodes' and m in ('near', 'deg') and len(idx) == 2 and all(isinstance(i, int) for i in idx) and idx[0]:
            # a wire whose segments follow the axes, or with nodes close to each other
            w = random.Random(repr((self.seed, name, 'from')))
            kind, at = w.random(), w.choice((0, idx[0] - 1))
            if m == 'near':
                if kind < 0.5:
                    return self.symval(name, (at, idx[1])) + r.uniform(0.3, 2.0) * r.choice((-1, 1)) * 10 ** w.uniform(-7, -1)
            elif kind < 0.6:
                if random.Random(repr((self.seed, name, idx[0]))).randrange(3) != idx[1]:
                    q = name, (idx[0] - 1, idx[1])
                    while q in self.alias or self.symval(*q) is None:
                        q = self.alias[q]
                    self.alias[name, idx] = q
                    return self.symval(*q)
        elif m == 'deg' and self.signs.get(name) is None and name not in KEEP and name not in NOZERO:
            vector = bool(idx) and isinstance(idx[-1], int)
            if vector and self.signs.get((name, idx[-1])) is None:
                w = random.Random(repr((self.seed, name)))
                if w.random() < 0.5 and idx[-1] in w.sample(range(3), w.choice((1, 2))):
                    return 0.0
        return None

    def symval(self, name, idx):
        key = (name, idx)
        v = self.syms.get(key)
        if v is None:
            r = random.Random(repr((self.seed, key)))
            if name == 'pi':
                v = math.pi
            elif self.mode in ('near', 'far', 'deg') and not self.fixed and self.special(name, idx, r) is not None:
                r = random.Random(repr((self.seed, key)))
                v = self.special(name, idx, r)
                s = self.signs.get(name)
                if s is None and idx:
                    s = self.signs.get((name, idx[-1]))
                if key not in self.alias and (s == '+' and v < 0 or s == '-' and v > 0):
                    v = -v
            elif (name, idx) in self.fixed:
                v = self.fixed[name, idx]
            elif name in self.fixed:
                f = self.fixed[name]
                v = f(r) if callable(f) else f
            else:
                v = r.uniform(0.3, 2.0) * r.choice((-1, 1))
                if self.mode == 'wide':
                    if r.random() < 0.4:
                        v *= 10 ** r.uniform(-5, 5)
                elif self.mode == 'mid':
                    v *= 10 ** r.uniform(-1, 1)
                s = self.signs.get(name)
                if s is None and idx:
                    s = self.signs.get((name, idx[-1]))
                if s == '+':
                    v = abs(v)
                elif s == '-':
                    v = -abs(v)
            self.syms[key] = v
        return v

    def truth(self, n, env):
        fb = free_bound(n)
        key = ('t', n) + tuple(sorted((b, env[b]) for b in fb if b in env))
        r = self.memo.get(key)
        if r is not None:
            return r
        k = ir.node(n)
        o = k[0]
        if o == 'const':
            r = k[1] == 'True' if k[1] in ('True', 'False') else not ir.q_iszero(k[1])
        elif o == 'not':
            r = not self.truth(k[1], env)
        elif o == 'and':
            r = all(self.truth(x, env) for x in k[1:])
        elif o == 'or':
            r = any(self.truth(x, env) for x in k[1:])
        elif o == 'gate':
            r = self.truth(k[2] if self.truth(k[1], env) else k[3], env)
        elif o == 'cmp' and nanny(k[2], k[3]) and (self.nonfinite(k[2], env) or self.nonfinite(k[3], env)):
            x, y = self.nonfinite(k[2], env), self.nonfinite(k[3], env)
            if 'nan' in (x, y) and k[1] not in ('==', '!='):
                raise NaNCompared('nan compared')
            if k[1] not in ('==', '!='):
                raise Reject('inf compared')
            r = (x == y == 'inf') == (k[1] == '==')
        elif o == 'cmp':
            a, b = self.val(k[2], env), self.val(k[3], env)
            if k[1] in ('==', '!='):
                d = abs(a - b)
                if d != 0 and d < 1e-9 * (abs(a) + abs(b)):
                    raise Reject('tie')
                r = (d == 0) == (k[1] == '==')
            else:
                if isinstance(a, complex):
                    a = a.real
                if isinstance(b, complex):
                    b = b.real
                d = a - b
                if abs(d) < 1e-9 * (abs(a) + abs(b)) and d != 0:
                    raise Reject('tie')
                r = ir._CMP[k[1]](d, 0)
        elif o in ('anyix', 'allix'):
            rs = [self.truth(k[3], dict(env, **{}) | {k[1]: j}) for j in range(dim_size(k[2], self.sizes))]
            r = any(rs) if o == 'anyix' else all(rs)
        elif o == 'unk':
            if k[1] in ('isfinite', 'isnan', 'isinf') and len(k) == 3 and nanny(k[2]):
                x = self.nonfinite(k[2], env)
                r = x is None if k[1] == 'isfinite' else x == k[1][2:]
            elif k[1] == 'isfinite':
                r = True
            elif k[1] in ('isnan', 'isinf', 'isclose', 'ixeq'):
                r = False
            elif k[1] == 'ixin':
                r = True
            else:
                r = _hashfloat((self.seed, k[1])) > 1.0
        else:
            v = self.val(n, env)
            r = v != 0
        self.memo[key] = r
        return r

    def nonfinite(self, n, env):
        """'nan', 'inf' or None (finite), propagated through the branches taken."""
        if not nanny(n):
            return None
        k = ir.node(n)
        if k[0] == 'const':
            return k[1] if k[1] in ('nan', 'inf') else None
        if k[0] == 'gate':
            return self.nonfinite(k[2] if self.truth(k[1], env) else k[3], env)
        s = [self.nonfinite(c, env) for c in ir.children(n)]
        return 'nan' if 'nan' in s else 'inf' if 'inf' in s else None

    def compute(self, n, a, env):
        try:
            return self._compute(n, a, env)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Reject('undefined at witness')

    def _compute(self, n, a, env):
        k = ir.node(n)
        o = k[0]
        if o == 'const':
            v = k[1]
            if isinstance(v, Fraction):
                return float(v)
            if isinstance(v, ir.GQ):
                return complex(float(v.re), float(v.im))
            if v in ('True', 'False'):
                return 1.0 if v == 'True' else 0.0
            if v == 'inf':
                return math.inf
            raise Reject(str(v))
        if o == 'sym':
            return self.symval(k[1], ix_resolve(k[2], env, self.sizes))
        if o == 'add':
            return a[0] + a[1]
        if o == 'sub':
            return a[0] - a[1]
        if o == 'mul':
            return a[0] * a[1]
        if o == 'div':
            return a[0] / a[1]
        if o == 'neg':
            return -a[0]
        if o == 'gate':
            return a[0]
        if o in ('cmp', 'and', 'or', 'not', 'anyix', 'allix'):
            return 1.0 if self.truth(n, env) else 0.0
        if o == 'sumix':
            return sum(self.val(k[3], env | {k[1]: j}) for j in range(dim_size(k[2], self.sizes)))
        if o == 'redix':
            vs = [self.val(k[4], env | {k[2]: j}) for j in range(dim_size(k[3], self.sizes))]
            if k[1] == 'max':
                return max(vs)
            if k[1] == 'min':
                return min(vs)
            if k[1] == 'prod':
                r = 1
                for v in vs:
                    r *= v
                return r
            return _hashfloat((k[1], tuple(vs)))
        if o == 'pow':
            if isinstance(a[0], complex) or (a[0] < 0 and a[1] != int(a[1].real if isinstance(a[1], complex) else a[1])):
                if not isinstance(a[0], complex):
                    raise Reject('negative base')
                return a[0] ** a[1]
            return a[0] ** a[1]
        if o == 'unk':
            return _hashfloat((k[1], tuple(map(str, k[2:])) if not a else tuple(round(x.real, 9) for x in a)))
        f = k[1]
        if f in LAZY:
            a = [self.val(c, env) for c in ir.children(n)]
        x = a[0] if a else None
        cx = any(isinstance(v, complex) for v in a)
        if f in ('exp', 'cos', 'sin', 'tan', 'sinh', 'cosh', 'tanh', 'arctan', 'arcsin', 'arccos', 'log',
                 'arctanh', 'arcsinh', 'arccosh'):
            g = f.replace('arc', 'a')
            if f == 'exp' and not cx and x < -600:
                return 0.0
            if f == 'exp' and not cx and x > 600:
                raise Reject('overflow')
            return getattr(cmath if cx else math, g)(x)
        if f == 'abs':
            return abs(x)
        if f == 'sign':
            return 0.0 if x == 0 else (1.0 if x > 0 else -1.0)
        if f == 'real':
            return x.real
        if f == 'imag':
            return x.imag
        if f == 'conj':
            return x.conjugate()
        if f == 'angle':
            return cmath.phase(x)
        if f == 'arctan2':
            return math.atan2(a[0], a[1])
        if f == 'copysign':
            return math.copysign(a[0], a[1])
        if f == 'heaviside':
            return 0.0 if x < 0 else (1.0 if x > 0 else a[1])
        if f == 'erf':
            return math.erf(x) if not cx else _hashfloat(('erf', str(x)))
        if f == 'xlogy':
            return 0.0 if x == 0 else x * (cmath if cx else math).log(a[1])
        if f == 'cast_f32':
            r = lambda v: struct.unpack('f', struct.pack('f', v))[0]
            return complex(r(x.real), r(x.imag)) if cx else r(x)
        if f.startswith('cast_'):
            return float(math.trunc(x)) if f == 'cast_i' and not cx else x
        if f == 'cbrt':
            return math.copysign(abs(x) ** (1 / 3), x)
        if f == 'mod':
            return a[0] % a[1]
        if f == 'floordiv':
            return a[0] // a[1]
        if f in ('rint', 'round'):
            return float(round(x))
        if f in ('ellipk', 'ellipe') and not cx and x < 1:
            return _ellip(f, x)
        r = _hashfloat((f, tuple(f"{v:.9g}" for v in a)))
        if f.startswith('interp') and not f.endswith(':out'):
            return r * (1 if _hashfloat((f, 'sign', r)) > 1 else -1)
        return r


# ------------------------------------------------------------------ linear decomposition of exponents
def pimono(n):
    """(c, e) when n is the constant c times pi**e."""
    c = ir.cval(n)
    if c is not None and not isinstance(c, bool):
        return c, 0
    k = ir.node(n)
    o = k[0]
    if o == 'sym':
        return (F(1), 1) if k[1] == 'pi' else None
    if o == 'neg':
        a = pimono(k[1])
        return a and (ir.q_neg(a[0]), a[1])
    if o in ('mul', 'div'):
        a = pimono(k[1])
        b = a and pimono(k[2])
        if not b:
            return None
        if o == 'mul':
            return ir.q_mul(a[0], b[0]), a[1] + b[1]
        return None if ir.q_iszero(b[0]) else (ir.q_mul(a[0], ir.q_inv(b[0])), a[1] - b[1])
    return None


def _ellip(f, m):
    a, b, c, s, t = 1.0, math.sqrt(1 - m), None, m / 2, 1.0
    for _ in range(40):
        c = (a - b) / 2
        a, b = (a + b) / 2, math.sqrt(a * b)
        t *= 2
        s += t * c * c / 2
        if abs(c) < 1e-17:
            break
    k = math.pi / (2 * a)
    return k if f == 'ellipk' else k * (1 - s)


def lin(n, c=F(1)):
    """n*c as list of (coef, node) through add/sub/neg and multiplication or division by constants and powers of pi."""
    out = []
    stack = [(n, c, 0)]
    while stack:
        m, c, e = stack.pop()
        k = ir.node(m)
        o = k[0]
        if o == 'add':
            stack += [(k[1], c, e), (k[2], c, e)]
            continue
        if o == 'sub':
            stack += [(k[1], c, e), (k[2], ir.q_neg(c), e)]
            continue
        if o == 'neg':
            stack.append((k[1], ir.q_neg(c), e))
            continue
        if o in ('mul', 'div'):
            b = pimono(k[2])
            if b and not (o == 'div' and ir.q_iszero(b[0])):
                stack.append((k[1], ir.q_mul(c, b[0] if o == 'mul' else ir.q_inv(b[0])), e + (b[1] if o == 'mul' else -b[1])))
                continue
            a = o == 'mul' and pimono(k[1])
            if a:
                stack.append((k[2], ir.q_mul(c, a[0]), e + a[1]))
                continue
        if o == 'sym' and k[1] == 'pi':
            m, e = ir.const(1), e + 1
        if e:
            if ir.cval(m) is not None:
                c, m = ir.q_mul(c, ir.cval(m)), ir.const(1)
            pi = ir.sym('pi')
            for _ in range(abs(e)):
                m = (pi if e > 0 and ir.cval(m) == 1 else ir.mul(m, pi)) if e > 0 else ir.div(m, pi)
        out.append((c, m))
    return out


def factors(n):
    """n as product of (node, exponent) through mul/div/neg/pow-rational/abs; constants kept as nodes."""
    out, neg = [], False
    stack = [(n, F(1))]
    while stack:
        m, e = stack.pop()
        k = ir.node(m)
        o = k[0]
        if o == 'mul':
            stack += [(k[1], e), (k[2], e)]
        elif o == 'div':
            stack += [(k[1], e), (k[2], -e)]
        elif o == 'neg':
            stack.append((k[1], e))
        elif o == 'pow' and isinstance(ir.cval(k[2]), Fraction):
            stack.append((k[1], e * ir.cval(k[2])))
        elif o == 'fn' and k[1] == 'abs':
            stack.append((k[2], e))
        else:
            out.append((m, e))
    return out


# ------------------------------------------------------------------ the finite field interpretation
_gens = {}


def _gen(P, Q1, Q2):
    t = _gens.get(P)
    if t is None:
        g = 1
        b = 2
        while g == 1:
            b += 1
            g = pow(b, (P - 1) // Q1, P)
        # element of order Q2 in the norm-1 group
        b = 1
        while True:
            b += 1
            z = (b, 1)
            zi = cinv(z, P)
            w = cmul((b, P - 1), zi, P)      # conj(z)/z has norm 1
            u = cpow(w, (P + 1) // Q2, P)
            if u != (1, 0):
                break
        _gens[P] = t = (g, u)
    return t


def cmul(a, b, p):
    return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)


def cinv(a, p):
    d = pow(a[0] * a[0] + a[1] * a[1], -1, p)
    return (a[0] * d % p, -a[1] * d % p)


def cpow(a, n, p):
    r = (1, 0)
    while n:
        if n & 1:
            r = cmul(r, a, p)
        a = cmul(a, a, p)
        n >>= 1
    return r


class GFEv(Ev):
    def __init__(self, p, wit, seed, sub=None, gens=None, name='P', sizes=None):
        super().__init__(sizes)
        self.p, self.wit, self.seed, self.sub, self.gens, self.name = p, wit, seed, sub, gens, name
        self.useed = seed            # seed of the uninterpreted functions
        self.syms = {}
        self.cons = []
        self.ulist = {}
        self.collect = False

    # -- element helpers: int = real, tuple = complex
    def chi(self, v):
        v %= self.p
        if v == 0:
            return 0
        return 1 if pow(v, (self.p - 1) // 2, self.p) == 1 else -1

    def norm(self, v):
        return v[0] if isinstance(v, tuple) and v[1] == 0 else v

    def add(self, a, b):
        p = self.p
        if isinstance(a, int):
            if isinstance(b, int):
                return (a + b) % p
            return ((a + b[0]) % p, b[1])
        if isinstance(b, int):
            return ((a[0] + b) % p, a[1])
        return self.norm(((a[0] + b[0]) % p, (a[1] + b[1]) % p))

    def neg(self, a):
        return -a % self.p if isinstance(a, int) else (-a[0] % self.p, -a[1] % self.p)

    def mul(self, a, b):
        p = self.p
        if isinstance(a, int):
            if isinstance(b, int):
                return a * b % p
            return self.norm((a * b[0] % p, a * b[1] % p))
        if isinstance(b, int):
            return self.norm((b * a[0] % p, b * a[1] % p))
        return self.norm(cmul(a, b, p))

    def inv(self, a):
        try:
            if isinstance(a, int):
                return pow(a, -1, self.p)
            return cinv(a, self.p)
        except ValueError:
            raise DivZero('division by zero')

    def ipow(self, a, n):
        if n < 0:
            return self.ipow(self.inv(a), -n)
        if isinstance(a, int):
            return pow(a, n, self.p)
        return self.norm(cpow(a, n, self.p))

    def const(self, c):
        p = self.p
        if isinstance(c, Fraction):
            return c.numerator % p * pow(c.denominator, -1, p) % p
        return self.norm((self.const(c.re), self.const(c.im)))

    def rsqrt(self, v):
        """root of a real residue, itself a residue."""
        if v == 0:
            return 0
        if self.chi(v) != 1:
            if self.collect:
                return self.uf('root', v)
            raise Reject('non-residue')
        return pow(v, (self.p + 1) // 4, self.p)

    def csqrt(self, v):
        """principal root: real part a residue."""
        if isinstance(v, int):
            if v == 0:
                return 0
            if self.chi(v) == 1 or self.collect:
                return self.rsqrt(v)
            return (0, self.rsqrt(-v % self.p))
        if self.collect:
            return self.uf('croot', v, cx=True)
        p = self.p
        n = (v[0] * v[0] + v[1] * v[1]) % p
        m = self.rsqrt(n)
        h = pow(2, -1, p)
        for mm in (m, -m % p):
            t = (v[0] + mm) * h % p
            if self.chi(t) == 1:
                x = self.rsqrt(t)
                y = v[1] * pow(2 * x, -1, p) % p
                return (x, y)
        raise Reject('root')

    # -- symbols and uninterpreted functions
    def rnd(self, *key):
        r = random.Random(repr((self.seed if key[0] == 'sym' else self.useed, self.p) + key))
        return r.randrange(1, self.p)

    def symval(self, name, idx):
        key = (name, idx)
        v = self.syms.get(key)
        if v is None:
            w = self.wit.symval(name, idx)
            a = self.wit.alias.get(key)
            if w == 0:
                v = 0
            elif a is not None:
                v = self.symval(*a)
            else:
                v = self.rnd('sym', key)
                if self.chi(v) != (1 if w > 0 else -1):
                    v = -v % self.p
            self.syms[key] = v
        return v

    def uf(self, name, *args, cx=None):
        """uninterpreted function of field values."""
        c = any(isinstance(a, tuple) for a in args) if cx is None else cx
        v = self.rnd('uf', name, args)
        if c:
            v = (v, self.rnd('uf2', name, args))
        return v

    def odd(self, name, a):
        if isinstance(a, int):
            if a == 0:
                return 0
            s = self.chi(a)
            return self.uf(name, a * s % self.p) * s % self.p
        b = self.neg(a)
        if repr(b) < repr(a):
            return self.neg(self.uf(name, b))
        return self.uf(name, a)

    def sgn(self, n, env, v):
        """sign of real value v of node n; constrains the sample to the witness's sign."""
        w = self.wit.val(n, env)
        if isinstance(w, complex):
            if abs(w.imag) > 1e-9 * abs(w):
                raise Undecided('sign of complex')
            w = w.real
        if v % self.p == 0:
            return 0
        if abs(w) < 1e-200:
            raise Reject('tie')
        self.need(n, env, 'real', 1 if w > 0 else -1)
        if self.collect:
            return 1 if w > 0 else -1
        c = self.chi(v)
        if c != (1 if w > 0 else -1):
            raise Reject('sign')
        return c

    def need(self, n, env, kind, sign):
        k = (n, tuple(sorted(env.items())), kind)
        if k not in self.ulist:
            self.ulist[k] = sign
            self.cons.append((n, env, kind, sign))

    def holds(self, n, env, kind, sign):
        """Does this sample satisfy a recorded constraint?"""
        v = self.val(n, env)
        if kind == 'real':
            # zero: the sign seen was rounding (or an inconsistent sample)
            return not isinstance(v, tuple) and self.chi(v) in (sign, 0)
        if kind == 're':
            return isinstance(v, tuple) and self.chi(v[0]) == sign
        if kind in ('asin', 'atan'):
            return not isinstance(v, tuple) and self.chi(1 + (v * v if kind == 'atan' else -v * v)) != -1
        if not isinstance(v, tuple):
            return True
        if kind == 'norm':
            return self.chi(v[0] * v[0] + v[1] * v[1]) == 1
        # imaginary part of the principal root
        r = self.csqrt(v)
        return not isinstance(r, tuple) or self.chi(r[1]) == sign

    def truth(self, n, env):
        t = self.wit.truth(n, env)
        if (self.wit.mode == 'deg' or self.wit.strict) and not self.collect:
            self.exact(n, env)
        return t

    def exact(self, n, env):
        """At a degenerate witness a difference may be rounding only: then the field decides that it is zero."""
        k = ir.node(n)
        if k[0] in ('not', 'and', 'or'):
            for x in k[1:]:
                self.exact(x, env)
        elif k[0] == 'cmp' and (n, 'exact') not in self.memo:
            self.memo[n, 'exact'] = True
            a, b = self.wit.val(k[2], env), self.wit.val(k[3], env)
            if a != b and abs(a - b) < 1e-9:
                try:
                    x, y = self.val(k[2], env), self.val(k[3], env)
                except (Undecided, Reject):
                    return
                if x == y:
                    raise Undecided('a comparison of equal values at the witness')

    # -- exp
    def exp(self, terms, env):
        """exp(sum c*t)."""
        r = 1
        rest = []
        todo = list(terms)[::-1]
        while todo:
            c, t = todo.pop()
            k = ir.node(t)
            z = ir.gq(c)
            if k[0] == 'gate':
                todo += lin(k[2] if self.truth(k[1], env) else k[3], c)[::-1]
                continue
            if k[0] == 'fn' and k[1] == 'mod' and z.re == 0:
                m = pimono(k[3])
                if m and m[1] == 1 and not isinstance(m[0], ir.GQ) and (F(m[0]) * z.im / 2).denominator == 1:
                    todo += lin(k[2], c)[::-1]       # whole turns
                    continue
            if k[0] == 'const' and isinstance(k[1], (Fraction, ir.GQ)):
                rest.append((c, t))
                continue
            if k[0] == 'fn' and k[1] in ('arctan2', 'arctan', 'arccos', 'arcsin', 'angle') and z.re == 0 and (z.im * 2).denominator == 1:
                ph = self.phase(k, env)
                if (z.im).denominator == 1:
                    r = self.mul(r, self.ipow(ph, int(z.im)))
                else:
                    r = self.mul(r, self.ipow(self.csqrt(ph), int(2 * z.im)))
                continue
            if k[0] == 'fn' and k[1] == 'log' and z.im == 0 and (2 * z.re).denominator == 1:
                v = self.val(k[2], env)
                r = self.mul(r, self.ipow(v, int(z.re)) if z.re.denominator == 1 else self.ipow(self.root(k[2], env, v), int(2 * z.re)))
                continue
            if k[0] == 'sym' and k[1] == 'pi' and z.re == 0 and (12 * z.im).denominator == 1:
                r = self.mul(r, self.piphase(z.im))
                continue
            rest.append((c, t))
        if rest:
            if self.sub is None:
                key = 0
                for c, t in rest:
                    key = self.add(key, self.mul(self.const(ir.gq(c)) if isinstance(c, ir.GQ) else self.const(c), self.val(t, env)))
                re, im = key if isinstance(key, tuple) else (key, 0)
                # exp(a + ib): an unknown of a times an unknown unit phase of b
                if re:
                    n = self.chi(re) * re % self.p
                    e = self.uf('exp', n)
                    r = self.mul(r, e if n == re else self.inv(e))
                if im:
                    n = self.chi(im) * im % self.p
                    z = (self.uf('phase', n), self.uf('phase2', n))
                    e = self.mul(z, self.inv((z[0], -z[1] % self.p)))
                    r = self.mul(r, e if n == im else self.inv(e))
                return r
            s1, s2 = self.sub
            re = im = 0
            for c, t in rest:
                z = ir.gq(c)
                v1, v2 = s1.val(t, env), s2.val(t, env)
                v1 = s1.mul(s1.const(z), v1)
                v2 = s2.mul(s2.const(z), v2)
                re += v1 if isinstance(v1, int) else v1[0]
                im += 0 if isinstance(v2, int) else v2[1]
            g, u = self.gens
            r = self.mul(r, pow(g, re % s1.p, self.p))
            if im % s2.p:
                r = self.mul(r, self.norm(cpow(u, im % s2.p, self.p)))
        return r

    def piphase(self, q):
        """exp(i*pi*q), q multiple of 1/12 (only multiples of 1/6 or 1/4 are used)."""
        t = (q % 2) * 12
        if t.denominator != 1:
            raise Undecided('phase')
        t = int(t)
        s2, s3 = self.rsqrt(2), self.rsqrt(3)
        h = pow(2, -1, self.p)
        # exp(i pi/12) = cos15 + i sin15
        c15 = (pow(self.rsqrt(2), -1, self.p) * h * (s3 + 1)) % self.p
        s15 = (pow(s2, -1, self.p) * h * (s3 - 1)) % self.p
        return self.norm(cpow((c15, s15), t, self.p))

    def phase(self, k, env):
        f = k[1]
        if f == 'arctan2':
            y, x = self.val(k[2], env), self.val(k[3], env)
            if isinstance(x, tuple) or isinstance(y, tuple):
                raise Undecided('complex arctan2')
            if x == 0 and y == 0:
                return 1
            return self.norm((x * self.inv(self.rsqrt((x * x + y * y) % self.p)) % self.p,
                              y * self.inv(self.rsqrt((x * x + y * y) % self.p)) % self.p))
        v = self.val(k[2], env)
        if f == 'angle':
            if isinstance(v, int):
                v = (v, 0)
            if v[0] == 0 and v[1] == 0:
                return 1
            m = self.inv(self.rsqrt((v[0] ** 2 + v[1] ** 2) % self.p))
            return self.norm((v[0] * m % self.p, v[1] * m % self.p))
        if isinstance(v, tuple):
            raise Undecided('complex ' + f)
        q = (1 + v * v if f == 'arctan' else 1 - v * v) % self.p
        self.need(k[2], env, 'atan' if f == 'arctan' else 'asin', 1)
        if self.collect and self.chi(q) == -1:
            z = (self.uf('phase', q), self.uf('phase2', q))
            return self.mul(z, self.inv((z[0], -z[1] % self.p)))
        if f == 'arctan':
            m = self.inv(self.rsqrt((1 + v * v) % self.p))
            return self.norm((m, v * m % self.p))
        m = self.rsqrt((1 - v * v) % self.p)
        return self.norm((v, m) if f == 'arccos' else (m, v))

    def root(self, n, env, v):
        """principal sqrt of node n with value v, signs tied to the witness."""
        fs = factors(n)
        if self.wit.mode == 'deg' and ir.op(n) in ('add', 'sub'):      # one square of a sum left over
            left = [m for _, m in lin(n) if self.val(m, env)]
            if len(left) == 1 and left[0] != n:
                fs = factors(left[0])
        for m, e in fs:
            if m == n:
                continue
            mv = self.val(m, env)
            if isinstance(mv, int):
                if ir.cval(m) is None and e.denominator == 1 and e % 2 == 0 and mv:
                    self.sgn(m, env, mv)
            else:
                w = self.wit.val(m, env)
                if isinstance(w, complex) and e.denominator == 1 and e % 2 == 0:
                    self.match(m, env, 're', mv[0], w.real)
        w = self.wit.val(n, env)
        if isinstance(v, int):
            if v == 0:
                return 0
            if isinstance(w, complex) and w.imag == 0:
                w = w.real
            if isinstance(w, complex):
                raise Reject('kind')
            self.sgn(n, env, v)
            return self.csqrt(v)
        self.need(n, env, 'norm', 1)
        ws = cmath.sqrt(w)
        if abs(ws.imag) > 1e-12 * abs(ws):
            self.need(n, env, 'im', 1 if ws.imag > 0 else -1)
        s = self.csqrt(v)
        if isinstance(s, tuple) and abs(ws.imag) > 1e-12 * abs(ws):
            self.match(n, env, 'im', s[1], ws.imag)
        return s

    def match(self, n, env, kind, v, w):
        if v == 0 or abs(w) < 1e-200:
            return
        self.need(n, env, kind, 1 if w > 0 else -1)
        if not self.collect and self.chi(v) != (1 if w > 0 else -1):
            raise Reject('sign')

    def log(self, n, env):
        r = 0
        for m, e in factors(n):
            k = ir.node(m)
            if e.denominator > 64:
                raise Undecided('log exponent')
            ce = self.const(e)
            if k[0] == 'fn' and k[1] == 'exp':
                r = self.add(r, self.mul(ce, self.val(k[2], env)))
                continue
            c = ir.cval(m)
            if isinstance(c, Fraction):
                if c == 0:
                    raise Reject('log 0')
                for pr, ex in primes(abs(c)):
                    r = self.add(r, self.mul(ce, ex * self.uf('log', pr) % self.p))
                continue
            v = self.val(m, env)
            if isinstance(v, tuple):
                # complex: no splitting
                v = self.val(n, env)
                return self.uf('log', v)
            if v == 0:
                raise Reject('log 0')
            s = self.chi(v)
            v = v * s % self.p
            if v == 1:
                continue
            r = self.add(r, self.mul(ce, self.rlog(v)))
        return r

    def rlog(self, v):
        """log of a real value; additive over the multiplicative relations between up to four logs of the sample."""
        p = self.p
        if not hasattr(self, 'logs'):
            # value -> log; products of up to two known arguments -> log
            self.logs = {2: self.uf('log', 2)}
            self.logp = {1: 0}
            self.logprod(2, 0)
        if v in self.logs:
            return self.logs[v]
        r = None
        if len(self.logs) <= 40:
            if v in self.logp:
                r = self.logp[v]
            else:
                for w, lw in self.logs.items():
                    for x, sg in ((v * w % p, -1), (v * pow(w, -1, p) % p, 1)):
                        if x in self.logp:
                            r = (self.logp[x] + sg * lw) % p
                            break
                    if r is not None:
                        break
        if r is None:
            r = self.uf('log', v)
            self.logs[v] = r
            if len(self.logs) <= 40:
                self.logprod(v, r)
        else:
            self.logs[v] = r
        return r

    def logprod(self, v, r):
        p = self.p
        r = self.logs[v]
        iv = pow(v, -1, p)
        for w, lw in list(self.logs.items()):
            iw = pow(w, -1, p)
            for a, b, x in ((1, 1, v * w), (1, -1, v * iw), (-1, 1, iv * w), (-1, -1, iv * iw)):
                self.logp.setdefault(x % p, (a * r + b * lw) % p)
        for x, y in ((v, r), (iv, -r)):
            self.logp.setdefault(x, y % p)

    # -- node semantics
    def compute(self, n, a, env):
        k = ir.node(n)
        o = k[0]
        if o == 'const':
            v = k[1]
            if isinstance(v, (Fraction, ir.GQ)):
                return self.const(v)
            if v in ('True', 'False'):
                return 1 if v == 'True' else 0
            return self.uf('lit', v)
        if o == 'sym':
            return self.symval(k[1], ix_resolve(k[2], env, self.sizes))
        if o == 'add':
            return self.add(a[0], a[1])
        if o == 'sub':
            return self.add(a[0], self.neg(a[1]))
        if o == 'mul':
            return self.mul(a[0], a[1])
        if o == 'div':
            if a[0] == 0 and a[1] != 0:
                return 0
            return self.mul(a[0], self.inv(a[1]))
        if o == 'neg':
            return self.neg(a[0])
        if o == 'gate':
            return a[0]
        if o in ('cmp', 'and', 'or', 'not', 'anyix', 'allix'):
            return 1 if self.truth(n, env) else 0
        if o == 'sumix':
            r = 0
            for j in range(dim_size(k[2], self.sizes)):
                r = self.add(r, self.val(k[3], env | {k[1]: j}))
            return r
        if o == 'redix':
            js = range(dim_size(k[3], self.sizes))
            if k[1] in ('max', 'min'):
                ws = [self.wit.val(k[4], env | {k[2]: j}) for j in js]
                j = ws.index(max(ws) if k[1] == 'max' else min(ws))
                return self.val(k[4], env | {k[2]: j})
            vs = [self.val(k[4], env | {k[2]: j}) for j in js]
            if k[1] == 'prod':
                r = 1
                for v in vs:
                    r = self.mul(r, v)
                return r
            return self.uf('red:' + k[1], tuple(vs))
        if o == 'pow':
            return self.pow(k, a, env)
        if o == 'unk':
            return self.uf('unk:' + k[1], tuple(map(str, [x for x in k[2:] if not isinstance(x, int)])), *a, cx=any(isinstance(x, tuple) for x in a))
        return self.fn(n, k, a, env)

    def pow(self, k, a, env):
        e = ir.cval(k[2])
        if e is None:
            if isinstance(a[1], int) and a[1] < 64:
                return self.ipow(a[0], a[1])
            # a^b = exp(b log a): uninterpreted
            return self.uf('pow', a[0], a[1])
        if isinstance(e, ir.GQ):
            return self.uf('pow', a[0], a[1])
        d = e.denominator
        if d == 1:
            if abs(e) > 10 ** 6:
                raise Undecided('huge power')
            return self.ipow(a[0], int(e))
        if d == 2:
            return self.ipow(self.root(k[1], env, a[0]), int(e * 2))
        if d in (3, 6, 4) and isinstance(a[0], int):
            v = a[0]
            if v == 0:
                return 0
            self.sgn(k[1], env, v)
            if d % 2 == 0:
                v = self.rsqrt(v)
                if d == 4:
                    v = self.rsqrt(v)
            if d % 3 == 0:
                v = pow(v, pow(3, -1, self.p - 1), self.p)
            return self.ipow(v, int(e * d))
        return self.uf('pow', a[0], a[1])

    def fn(self, n, k, a, env):
        f = k[1]
        p = self.p
        kids = ir.children(n)
        if f == 'exp':
            return self.exp(lin(k[2]), env)
        if f in ('cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh'):
            c = ir.GQ(0, 1) if f in ('cos', 'sin', 'tan') else F(1)
            e = self.exp(lin(k[2], c), env)
            ei = self.inv(e)
            s, d = self.add(e, ei), self.add(e, self.neg(ei))
            if f in ('cos', 'cosh'):
                return self.mul(s, pow(2, -1, p))
            if f == 'sinh':
                return self.mul(d, pow(2, -1, p))
            if f == 'sin':
                return self.mul(d, self.inv((0, 2)))
            r = self.mul(d, self.inv(s))
            return r if f == 'tanh' else self.mul(r, (0, p - 1))
        if f == 'log':
            return self.log(k[2], env)
        if f == 'xlogy':
            if a[0] == 0:
                return 0
            return self.mul(a[0], self.log(k[3], env))
        if f == 'abs':
            v = a[0]
            if isinstance(v, tuple):
                self.need(k[2], env, 'norm', 1)
                return self.rsqrt((v[0] ** 2 + v[1] ** 2) % p)
            for m, e in factors(k[2]):
                if ir.cval(m) is None and e.denominator == 1:
                    mv = self.val(m, env)
                    if isinstance(mv, int) and mv:
                        self.sgn(m, env, mv)
            s = self.sgn(k[2], env, v)
            return v * s % p
        if f == 'sign':
            if isinstance(a[0], tuple):
                return self.uf('sign', a[0])
            return self.sgn(k[2], env, a[0]) % p
        if f == 'real':
            return a[0] if isinstance(a[0], int) else a[0][0]
        if f == 'imag':
            return 0 if isinstance(a[0], int) else a[0][1]
        if f == 'conj':
            return a[0] if isinstance(a[0], int) else (a[0][0], -a[0][1] % p)
        if f in ('arctan2', 'angle'):
            if f == 'arctan2':
                y, x = a[0], a[1]
                wy, wx = self.wit.val(k[2], env), self.wit.val(k[3], env)
                if isinstance(x, tuple) or isinstance(y, tuple):
                    raise Undecided('complex arctan2')
            else:
                z = a[0] if isinstance(a[0], tuple) else (a[0], 0)
                w = complex(self.wit.val(k[2], env))
                x, y, wx, wy = z[0], z[1], w.real, w.imag
            pi = self.symval('pi', ())
            if x == 0:
                if y == 0:
                    return 0
                return pi * pow(2, -1, p) * (1 if wy > 0 else -1) % p
            r = self.odd('arctan', y * self.inv(x) % p)
            if wx < 0:
                r += pi if (wy > 0 or y == 0) else -pi
            return r % p
        if f in ('arctan', 'arcsin', 'erf', 'arctanh', 'arcsinh', 'sinc_', 'cbrt'):
            if f == 'cbrt':
                return pow(a[0], pow(3, -1, p - 1), p)
            if f == 'arctanh':
                return self.odd('arctanh', a[0])
            return self.odd(f, a[0])
        if f == 'copysign':
            s0 = self.sgn(k[2], env, a[0])
            s1 = self.sgn(k[3], env, a[1])
            return a[0] * s0 * s1 % p
        if f == 'heaviside':
            s = self.sgn(k[2], env, a[0])
            return 1 if s > 0 else 0 if s < 0 else a[1]
        if f in ('ive', 'kve'):
            z = self.val(k[3], env)
            nu = self.val(k[2], env)
            base = self.bessel(f[:2], k, [nu, z])
            if f == 'kve':
                return self.mul(base, self.exp(lin(k[3]), env))
            if isinstance(z, tuple) or isinstance(self.wit.val(k[3], env), complex):
                w = self.wit.val(k[3], env)
                w = w.real
            else:
                w = self.wit.val(k[3], env)
            s = 1 if w > 0 else -1
            re = ir.fn('real', k[3])
            return self.mul(base, self.exp(lin(re, F(-s)), env))
        if f in ('iv', 'kv', 'jv', 'yv'):
            return self.bessel(f, k, a)
        if f in ('cast_f', 'cast_c', 'nan_to_num'):
            return a[0]
        if f in ('ellipk', 'ellipe') and a[0] == 0:
            return self.mul(self.symval('pi', ()), pow(2, -1, p))
        return self.uf(f, *a)

    def bessel(self, f, k, a):
        nu = ir.cval(k[2])
        z = a[1]
        if not isinstance(nu, Fraction) or nu.denominator != 1:
            if isinstance(nu, Fraction) and nu.denominator == 2:
                return self.uf(f + str(nu), z)
            return self.uf(f, *a)
        nu = int(nu)
        if f in ('iv', 'kv'):
            nu = abs(nu)

        def base(m):
            if f in ('iv', 'jv'):
                if m == 0:
                    if z == 0:
                        return 1
                    return self.even(f + '0', z)
                return self.odd(f + '1', z)
            return self.uf(f + str(m), z)
        sg = 1
        if nu < 0:
            sg = -1 if nu % 2 else 1
            nu = -nu
        b0, b1 = base(0), base(1)
        if nu == 0:
            r = b0
        else:
            zi = self.inv(z) if nu > 1 else None
            for m in range(1, nu):
                t = self.mul(2 * m, self.mul(zi, b1))
                if f == 'iv':
                    nx = self.add(b0, self.neg(t))
                elif f == 'kv':
                    nx = self.add(b0, t)
                else:
                    nx = self.add(t, self.neg(b0))
                b0, b1 = b1, nx
            r = b1
        return r if sg == 1 else self.neg(r)

    def even(self, name, a):
        b = self.neg(a)
        if isinstance(a, int):
            return self.uf(name, a * self.chi(a) % self.p)
        return self.uf(name, b if repr(b) < repr(a) else a)


def primes(q):
    out = []
    for num, s in ((q.numerator, 1), (q.denominator, -1)):
        d = 2
        while num > 1 and d < 5000:
            e = 0
            while num % d == 0:
                num //= d
                e += 1
            if e:
                out.append((d, e * s))
            d += 1
        if num > 1:
            out.append((num, s))
    return out


# ------------------------------------------------------------------ decision
class Result:
    def __init__(self, status, info='', idx=None, samples=0, cells=0):
        self.status, self.info, self.idx, self.samples, self.cells = status, info, idx, samples, cells

    def __repr__(self):
        return f"{self.status} {self.info} samples={self.samples} cells={self.cells}"


def mk_sample(wit, seed, tri, syms=None):
    P, Q1, Q2 = FIELDS[tri % len(FIELDS)]
    s1 = GFEv(Q1, wit, (seed, 1), name='Q1', sizes=wit.sizes)
    s2 = GFEv(Q2, wit, (seed, 2), name='Q2', sizes=wit.sizes)
    ev = GFEv(P, wit, (seed, 0), sub=(s1, s2), gens=_gen(P, Q1, Q2), name='P', sizes=wit.sizes)
    if syms:
        for e in (ev, s1, s2):
            e.syms = dict(syms[e.name])
    return ev


def levels(cons, evf):
    """Group sign constraints by the symbols they newly involve: list of (new symbols, constraints)."""
    info = []
    for c in cons:
        e = evf()
        e.collect = True
        try:
            e.val(c[0], c[1])
        except Reject:
            pass
        info.append((c, set(e.syms)))
    out, seen = [], set()
    rest = sorted(info, key=lambda t: len(t[1]))
    while rest:
        # next constraint: fewest unseen symbols
        rest.sort(key=lambda t: len(t[1] - seen))
        c, ss = rest.pop(0)
        new = ss - seen
        if not new and out:
            out[-1][1].append(c)
        else:
            out.append((sorted(new, key=repr), [c]))
        seen |= new
    return out


def solve(field, mk, cons, cache, end=None):
    """Symbol values of one field satisfying all sign constraints."""
    key = (field, tuple((c[0], tuple(sorted(c[1].items())), c[2]) for c in cons))
    lv = cache.get(key)
    if lv is None:
        lv = cache[key] = levels(cons, lambda: mk({}, 0))
    for restart in range(6):
        syms = {}
        ok = True
        for li, (new, cs) in enumerate(lv):
            lim = 60 * 2 ** min(len(cs), 12)
            for t in range(lim):
                if end and t % 16 == 15 and time.time() > end:
                    return None
                e = mk(syms, (restart, li, t))
                try:
                    if all(e.holds(*c) for c in cs):
                        for s in new:
                            syms[s] = e.syms[s] if s in e.syms else e.symval(*s)
                        break
                except Reject:
                    continue
            else:
                ok = False
                break
        if ok:
            return syms
    return None


def run_sample(wit, roots, seed, tries=24, budget=20.0):
    """Evaluate roots in one field sample whose signs agree with the witness."""
    cons = {'P': [], 'Q1': [], 'Q2': []}
    cache = {}
    last = None
    end = time.time() + budget
    base = abs(hash(repr(seed))) if False else sum(map(ord, repr(seed)))
    for t in range(tries):
        if time.time() > end:
            raise Undecided(f'time limit ({last})')
        tri = base + t
        P, Q1, Q2 = FIELDS[tri % len(FIELDS)]
        # collect constraints (fields differ only in which samples satisfy them)
        if t % 8 == 0 or not any(cons.values()):
            for j in range(20):
                ev = mk_sample(wit, (seed, t, 'c', j), tri)
                for e in (ev,) + ev.sub:
                    e.collect = True
                    e.cons = cons[e.name]
                    e.ulist = {(c[0], tuple(sorted(c[1].items())), c[2]): 1 for c in e.cons}
                try:
                    for r in roots:
                        ev.val(r)
                    break
                except Reject as x:
                    last = x
        syms = {}
        for name, p in (('Q1', Q1), ('Q2', Q2), ('P', P)):
            def mk(sy, sd):
                e = GFEv(p, wit, (seed, t, name, sd), name=name, sizes=wit.sizes)
                if name == 'P':
                    # the exponents are those of the final sample
                    e.sub = (GFEv(Q1, wit, ((seed, t), 1), name='Q1', sizes=wit.sizes), GFEv(Q2, wit, ((seed, t), 2), name='Q2', sizes=wit.sizes))
                    e.gens = _gen(P, Q1, Q2)
                    for q in e.sub:
                        q.syms = dict(syms[q.name])
                e.useed = ((seed, t), {'P': 0, 'Q1': 1, 'Q2': 2}[name])
                e.syms = dict(sy)
                return e
            if cons[name]:
                r = solve(name, mk, cons[name], cache, end)
                if r is None:
                    last = f"constraints of {name}"
                    break
                syms[name] = r
            else:
                syms[name] = {}
        else:
            ev = mk_sample(wit, (seed, t), tri, syms)
            for e in (ev,) + ev.sub:
                e.cons = cons[e.name]
                e.ulist = {(c[0], tuple(sorted(c[1].items())), c[2]): 1 for c in e.cons}
            try:
                return [ev.val(r) for r in roots], ev
            except Reject as x:
                last = x
                continue
    e = Undecided(f"no field sample ({last}, {sum(map(len, cons.values()))} sign constraints)")
    e.zero = getattr(last, 'node', None)
    raise e


def atoms(roots):
    """Comparisons that some gate below roots depends on."""
    out, seen = [], set()
    for m in ir.topo(list(roots)):
        if ir.op(m) == 'gate':
            for q in ir.topo([ir.node(m)[1]]):
                if q not in seen and ir.op(q) in ('cmp', 'anyix', 'allix'):
                    seen.add(q)
                    if ir.op(q) != 'cmp' or not free_bound(q):
                        out.append(q)
    return out


def cells(roots, signs, guards=(), n=60, modes=('plain', 'wide'), sizes=None, seed=0, fixed=None, maxcells=24, per=4, cover=()):
    """Distinct branch cells (as witnesses) of the graph below roots.

    modes: sampled uniformly; cover: extra modes used only to find witnesses
    for comparisons whose other outcome has not been seen."""
    conds = [m for m in ir.topo(list(roots)) if ir.op(m) == 'gate']
    out, seen = [], set()
    anchors = find_anchors(roots)
    pol = {}
    fold = folds(roots)
    sides = {}       # input -> signs it took in the witnesses kept

    def fresh(w):
        new = [(k, v > 0) for k, v in w.syms.items() if isinstance(v, float) and v and len(sides.get(k, ())) < 2
               and (v > 0) not in sides.get(k, ())]
        for k, t in new:
            sides.setdefault(k, set()).add(t)
        return bool(new)

    def accept(w, mode):
        new = fold and fresh(w)
        sig = tuple(sorted((k, v) for k, v in w.memo.items() if isinstance(k, tuple) and k[0] == 't' and len(k) == 2
                           and ir.op(k[1]) == 'cmp'))
        for k, v in sig:
            pol.setdefault(k[1], set()).add(v)
        if sig in seen:
            for q in out:
                if q.sig == sig:
                    q.count += 1
                    if len(q.more) < per - 1 or new and len(q.more) < per + 3:
                        q.more.append(w)
            return
        seen.add(sig)
        w.sig, w.count, w.more = sig, 1, []
        w.extra = mode in EXTRA
        out.append(w)

    def allowed(w):
        return not any(w.truth(c, {}) == p for c, p in guards)

    for mode in modes:
        tot = n if conds else ((max(per, 8) if fold else per) if mode == modes[0] else 0)
        bad = 0
        j = 0
        while tot > 0 and j < 6 * n:
            j += 1
            w = Witness((seed, mode, j), signs, mode, sizes, fixed, anchors)
            try:
                if not allowed(w):
                    bad += 1
                    if bad > 3 * n:
                        guards = ()
                    continue
                for r in roots:
                    w.val(r)
            except Reject:
                bad += 1
                continue
            tot -= 1
            accept(w, mode)
            if len(out) >= maxcells:
                return out
    region = fixed.guards(roots) if isinstance(fixed, Region) else []
    if cover and conds and (not fixed or region):
        guards = list(guards) + region
        want = [a for a in atoms(roots) if len(pol.get(a, ())) < 2]
        for mode in cover:
            for j in range(40):
                if not want or len(out) >= maxcells + 16:
                    break
                w = Witness((seed, 'cover', mode, j), signs, mode, sizes, None, anchors)
                hit = False
                for a in want:
                    try:
                        t = w.truth(a, {})
                    except (Reject, Undecided):
                        continue
                    if t not in pol.get(a, ()):
                        hit = True
                if not hit:
                    continue
                try:
                    if not allowed(w):
                        continue
                    for r in roots:
                        w.val(r)
                except (Reject, Undecided):
                    continue
                accept(w, mode)
                want = [a for a in want if len(pol.get(a, ())) < 2]
        hunt([a for a in want if len(pol.get(a, ())) < 2], roots, out, allowed, accept, pol, signs, sizes)
        edges(roots, out, allowed, accept, signs, sizes, maxcells + 32, 24 if region else 0, seed, anchors)
    return out


def folds(roots):
    """Does a value depend on the sign of another other than by a comparison (absolute value, root of a square)?"""
    for m in ir.topo(list(roots)):
        k = ir.node(m)
        if k[0] == 'fn' and k[1] in ('abs', 'sign', 'sqrt', 'hypot', 'angle', 'arctan2'):
            return True
        if k[0] == 'pow':
            e = ir.cval(k[2])
            if e is None or isinstance(e, ir.GQ) or F(e).denominator != 1:
                return True
    return False


def hunt(want, roots, out, allowed, accept, pol, signs, sizes, limit=8, budget=3.0):
    """Witnesses for outcomes not seen yet: inputs of a comparison scaled up and down by many orders of magnitude."""
    base = [w for w in out if not w.alias and w.mode != 'deg'][:2]
    end = time.time() + budget
    want = [a for a in want if ir.op(a) == 'cmp' and ir.node(a)[1] not in ('==', '!=')]
    every = [a for a in atoms(roots) if ir.op(a) == 'cmp']
    exact = [a for a in every if ir.node(a)[1] in ('==', '!=')]
    sums = [m for m in ir.topo(every) if ir.op(m) == 'add'] if want else []

    def cancels(w):
        for m in sums:
            try:
                if abs(w.val(m)) < 1e-9 * max(abs(w.val(q)) for q in ir.children(m)):
                    return True
            except (Reject, Undecided):
                pass
    for a in want[:limit]:
        names = sorted({ir.node(m)[1] for m in ir.topo([a]) if ir.op(m) == 'sym'} - {'pi', 'mu_0', 'epsilon_0', 'G', 'c_light'})
        obs = [n for n in names if n in OBSERVED]
        groups = ([obs] if obs else []) + [[n] for n in names if n not in obs]
        found = False
        for u in base:
            for g in groups:
                for e in (4, -4, 8, -8, 12, -12, 18, -18, 30, -30):
                    if found or time.time() > end:
                        break
                    w = Witness((u.seed, 'hunt', e), signs, 'far', sizes, {k: v * 10.0 ** e if k[0] in g else v for k, v in u.syms.items()}, ())
                    try:
                        if w.truth(a, {}) in pol.get(a, ()) or not allowed(w):
                            continue
                        if any(w.truth(q, {}) != u.truth(q, {}) for q in exact) or cancels(w):
                            continue         # cancellation, not equality
                        for r in roots:
                            w.val(r)
                    except (Reject, Undecided, OverflowError, ZeroDivisionError, ValueError):
                        continue
                    accept(w, 'far')
                    found = True


def edges(roots, out, allowed, accept, signs, sizes, most, free=0, seed=0, anchors=(), limit=12, budget=4.0):
    """Witnesses close to the boundary of each comparison, on both sides.

    Two comparisons that differ only between nearby boundaries (r > R and r > 1.001 R) have the same
    outcome almost everywhere; the cells between them lie along the boundary of either."""
    base = [w for w in out if not w.alias and w.mode != 'deg' and 0.0 not in w.syms.values()]
    # a boundary of the region may be the boundary looked for: its other side is no cell, but an end of a line
    base += [Witness((seed, 'edge', j), signs, ('plain', 'wide', 'near')[j % 3], sizes, None, anchors) for j in range(free)]
    end = time.time() + budget
    done = 0
    for a in atoms(roots):
        if ir.op(a) != 'cmp' or ir.node(a)[1] in ('==', '!='):
            continue
        sides = {}
        for w in base:
            try:
                sides.setdefault(w.truth(a, {}), w)
            except (Reject, Undecided):
                pass
        if len(sides) < 2:
            continue
        done += 1
        if done > limit or time.time() > end or len(out) >= most:
            return
        u, v = sides[True], sides[False]
        keys = set(u.syms) | set(v.syms)
        try:
            ends = {k: (u.symval(*k), v.symval(*k)) for k in keys}
        except (Reject, Undecided):
            continue

        def at(t):
            return Witness((u.seed, 'edge', a, t), signs, 'edge', sizes, {k: x + t * (y - x) for k, (x, y) in ends.items()}, ())
        lo, hi = 0.0, 1.0
        try:
            for _ in range(44):
                mid = (lo + hi) / 2
                if at(mid).truth(a, {}):
                    lo = mid
                else:
                    hi = mid
        except (Reject, Undecided):
            pass
        if hi - lo > 1e-6:
            continue
        for d in (1e-2, 1e-4, 1e-6):
            for t in (lo - d, hi + d):
                if not 0 < t < 1:
                    continue
                w = at(t)
                try:
                    if not allowed(w):
                        continue
                    for r in roots:
                        w.val(r)
                except (Reject, Undecided):
                    continue
                accept(w, 'edge')


class Region(dict):
    """Inputs sampled in part of the domain; where(roots) -> conditions that hold exactly there."""

    def __init__(self, inputs, where):
        super().__init__(inputs)
        self.where = where

    def guards(self, roots):
        return [(c, False) for c in self.where(roots)]


EXTRA = ('near', 'far', 'deg', 'wide', 'edge')
COVER = ('wide', 'near', 'far', 'deg')


def agrees(w, a, b, floor=()):
    """Do both sides coincide (to rounding) at the witness?  Then the field's
    algebra lacks an identity that the code uses and no verdict is given."""
    try:
        va, vb = w.val(a), w.val(b)
        scale = max([abs(va), abs(vb)] + [1e-3 * abs(w.val(x)) for x in floor] + [abs(w.val(m)) for x in (a, b) for _, m in lin(x)])
    except (Reject, ZeroDivisionError, OverflowError, ValueError):
        return False
    return abs(va - vb) <= 1e-9 * scale


def decide(pairs, signs, guards=(), samples=4, ncell=60, modes=('plain', 'wide'), sizes=None, seed=1, fixed=None,
           main_only=False, tries=24, cover=COVER):
    """Are all pairs of nodes equal as functions of their symbols?"""
    return decide_any([pairs], signs, guards, samples, ncell, modes, sizes, seed, fixed, main_only, tries, cover)


def decide_any(alts, signs, guards=(), samples=4, ncell=60, modes=('plain', 'wide'), sizes=None, seed=1, fixed=None,
               main_only=False, tries=24, cover=COVER):
    """In every branch cell, do all pairs of one of the alternatives agree?"""
    samples, ncell = samples * EFFORT[0], ncell * EFFORT[0]
    alts = [[(a, b) for a, b in pairs if a != b] for pairs in alts]
    if any(not pairs for pairs in alts):
        return Result('equal', 'identical value numbers', samples=0, cells=0)
    roots = [x for ab in alts[0] for x in ab]
    try:
        ws = cells(roots, signs, guards, ncell, modes, sizes, seed, fixed, per=samples, cover=cover)
    except Undecided as e:
        return Result('undecided', str(e))
    if not ws:
        return Result('undecided', 'no witness of the input domain')
    if main_only:
        m = max(w.count for w in ws)
        ws = [w for w in ws if w.count >= 0.1 * m]
    done = 0
    und = None
    skipped = 0
    for w0 in ws:
        for s, w in enumerate([w0] + (w0.more[:1] if w0.extra else w0.more)):
            verdicts = []
            for pairs in alts:
                v = one_alt(w, pairs, (seed, s, w.seed), 6 if w0.extra else tries, 3.0 if w0.extra else 20.0)
                verdicts.append(v)
                if v[0] == 'equal':
                    break
            if verdicts[-1][0] == 'equal':
                done += 1
                continue
            v = [x for x in verdicts if x[0] == 'und']
            if v:
                if w0.extra:
                    skipped += 1
                else:
                    und = v[0][1]
                break
            return Result('differ', describe(w0.sig), idx=verdicts[0][1],
                          samples=done, cells=len(ws))
    if und or not done:
        return Result('undecided', und or 'no cell decided', samples=done, cells=len(ws))
    return Result('equal', samples=done, cells=len(ws) - skipped)


def describe(sig):
    """The branch conditions that say most about a cell: not the plain signs of single inputs."""
    full = [(c, t) for c, t in sig if len(ir.topo([c[1]])) > 4]
    return '; '.join(f"{ir.show(c[1], 4)} is {t}" for c, t in (full or list(sig))[:4])


def one_alt(w, pairs, seed, tries, budget):
    roots = [x for ab in pairs for x in ab]
    try:
        for r in roots:
            w.val(r)
        vals, ev = run_sample(w, roots, seed, tries, budget)
    except (Undecided, Reject) as e:
        return 'und', str(e)
    for j, ab in enumerate(pairs):
        if vals[2 * j] != vals[2 * j + 1]:
            if agrees(w, *ab, floor=roots if w.mode == 'deg' else ()):
                return 'und', 'the field sees a difference that the ordering witness does not'
            return 'differ', ab
    return 'equal', None
