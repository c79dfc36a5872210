"""Value graphs of the C++ kernels, from clang's typed syntax tree.

Integers, pointers and control flow are concrete (array extents are small constants); floating-point and complex
values are nodes of the value graph.  Conditions on values fork and merge.  Reads of uninitialised storage and
indices outside an object are reported as memory errors.
"""
import json
import os
import shutil
import subprocess
from fractions import Fraction
from . import ir
from .arr import Unsupported

HALF = Fraction(1, 2)
PI = 3.141592653589793
MU0 = 1.25663706e-6


class MemError(Exception):
    def __init__(self, msg, loc):
        super().__init__(msg)
        self.loc = loc


class N:
    """A floating-point or complex value."""
    __slots__ = ('n', 'cx')

    def __init__(self, n, cx=False):
        self.n, self.cx = n, cx


UNINIT = type('Uninit', (), {'__repr__': lambda s: 'uninitialised'})()


class Cell:
    __slots__ = ('v', 'what')

    def __init__(self, v=UNINIT, what=''):
        self.v, self.what = v, what


class Buf:
    """Storage of consecutive elements."""
    __slots__ = ('name', 'cells')

    def __init__(self, name, cells):
        self.name, self.cells = name, cells


class P:
    __slots__ = ('buf', 'off')

    def __init__(self, buf, off):
        self.buf, self.off = buf, off


def clang():
    for c in ('/usr/bin/clang++-18', '/usr/bin/clang++', 'clang++'):
        if shutil.which(c):
            return c
    raise Unsupported('clang++ not found')


def top_decls(path):
    """Top-level declarations from the first one of the project on (the dump is pretty-printed, one per block)."""
    cmd = [clang(), '-fsyntax-only', '-std=c++17', '-Xclang', '-ast-dump=json', path]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    d = os.path.dirname(path).encode()
    buf, on = [], False
    skip = (b'"name": "std",', b'"name": "__gnu_cxx",')
    for line in p.stdout:
        if line == b'    {\n':
            buf = [line]
        elif line in (b'    },\n', b'    }\n'):
            buf.append(b'    }')
            if not on and any(b'"file": "' in x and d in x for x in buf[:14]):
                on = True
            if on and not any(x.strip() in skip for x in buf[:40]):
                yield json.loads(b''.join(buf))
            buf = []
        else:
            buf.append(line)
    err = p.stderr.read()
    if p.wait():
        raise Unsupported('clang rejects the source: ' + err.decode(errors='replace')[:300])


CACHE = {}


def load(path):
    if path not in CACHE:
        u = Unit(path)
        CACHE[path] = u
    return CACHE[path]


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'size_t': (64, False),
        'std::size_t': (64, False), 'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'char': (8, True),
        'unsigned char': (8, False), 'bool': (1, False), 'ptrdiff_t': (64, True), 'ssize_t': (64, True), 'size_type': (64, False),
        'unsigned short': (16, False), 'int64_t': (64, True)}


def bare(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:].strip()
        elif t.endswith(' const') or t.endswith('*const'):
            t = t[:-5].strip()
        elif t.endswith('&'):
            t = t.rstrip('&').strip()
        else:
            return t


def is_complex(t):
    return 'complex' in t and 'vector' not in t and not bare(t).endswith('*')


def is_float(t):
    return bare(t) in ('double', 'float', 'long double')


def wrap(v, t):
    w = INTS.get(bare(t))
    if w is None or isinstance(v, bool):
        return v
    b, s = w
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


class Unit:
    def __init__(self, path):
        self.path = path
        self.ids, self.defs, self.globals = {}, {}, {}
        self.fns = {}
        for d in top_decls(path):
            self.scan(d, '')

    def scan(self, d, ns):
        k = d.get('kind')
        if k == 'NamespaceDecl':
            for c in d.get('inner', ()):
                self.scan(c, ns + d['name'] + '::' if d.get('name') else ns)
        elif k in ('FunctionTemplateDecl', 'LinkageSpecDecl'):
            for c in d.get('inner', ()):
                self.scan(c, ns)
        elif k in ('FunctionDecl', 'CXXMethodDecl'):
            m = d.get('mangledName') or ns + d.get('name', '')
            self.ids[d['id']] = m
            if any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())):
                self.defs[m] = d
                self.fns[d.get('name')] = d
        elif k == 'VarDecl':
            self.globals[d['id']] = d


class Ret(Exception):
    pass


class Cpp:
    def __init__(self, unit, steps=2_000_000):
        self.u = unit
        self.journal = None
        self.steps = steps
        self.line = None
        self.sv = {}

    # ---------------------------------------------------------- storage
    def loc(self):
        return f"{os.path.basename(self.u.path)}:{self.line}"

    def set(self, c, v):
        if self.journal is not None and c not in self.journal:
            self.journal[c] = c.v
        c.v = v

    def get(self, c):
        if c.v is UNINIT:
            raise MemError(f"{c.what or 'a variable'} is read before it is set", self.loc())
        return c.v

    def at(self, p, i=0):
        if not isinstance(p, P):
            raise MemError('null pointer dereferenced', self.loc())
        k = p.off + i
        if not 0 <= k < len(p.buf.cells):
            raise MemError(f"{p.buf.name}[{k}] is outside its {len(p.buf.cells)} elements", self.loc())
        return p.buf.cells[k]

    def default(self, t, name):
        """Storage for a variable of type t."""
        b = bare(t)
        if 'vector<' in b:
            return Buf(name, [])
        if is_complex(t):
            return Cell(N(ir.const(0), True), name)
        return Cell(UNINIT, name)

    # ---------------------------------------------------------- calls
    def call(self, name, args):
        d = self.u.fns.get(name.split('::')[-1])
        if d is None:
            raise Unsupported(f"C++ function {name} not found")
        return self.invoke(d, args)

    def invoke(self, d, args):
        env = {}
        ps = [c for c in d['inner'] if c['kind'] == 'ParmVarDecl']
        for p, a in zip(ps, args):
            t = qt(p)
            if t.rstrip().endswith('&'):
                env[p['id']] = a if isinstance(a, (Cell, Buf)) else Cell(a, p.get('name', ''))
            elif isinstance(a, Buf):
                env[p['id']] = Buf(a.name, [Cell(c.v, c.what) for c in a.cells])
            else:
                v = self.get(a) if isinstance(a, Cell) else a
                env[p['id']] = Cell(self.conv(v, t), p.get('name', ''))
        body = next(c for c in d['inner'] if c['kind'] == 'CompoundStmt')
        k, v = self.block(body.get('inner', []), env)
        return v if k == 'ret' else None

    def conv(self, v, t):
        b = bare(t)
        if isinstance(v, bool) and b != 'bool':
            v = int(v)
        if is_complex(t):
            return N(v.n if isinstance(v, N) else ir.const(v), True)
        if is_float(t):
            n = v.n if isinstance(v, N) else ir.const(v)
            return N(ir.fn('cast_f32', n) if b == 'float' else n)
        if isinstance(v, int) and not isinstance(v, bool):
            return wrap(v, t)
        if b in INTS and isinstance(v, N):
            c = ir.cval(v.n)
            if isinstance(c, Fraction):
                return wrap(int(c), t)
            raise Unsupported('value converted to an integer')
        return v

    # ---------------------------------------------------------- statements
    def block(self, stmts, env):
        """-> (kind, value); kind in fall, ret, break, continue."""
        for i, s in enumerate(stmts):
            k = s.get('kind')
            if k == 'IfStmt':
                inner = [c for c in s['inner']]
                if s.get('hasInit') or s.get('hasVar'):
                    raise Unsupported('if with initialiser')
                c = self.cond(self.rv(inner[0], env))
                if isinstance(c, bool):
                    r = self.block([inner[1]], env) if c else self.block(inner[2:3], env) if len(inner) > 2 else ('fall', None)
                    if r[0] != 'fall':
                        return r
                    continue
                rest = stmts[i + 1:]
                return self.fork(c, lambda: self.block([inner[1]] + rest, env), lambda: self.block(inner[2:3] + rest, env))
            r = self.stmt(s, env)
            if r[0] != 'fall':
                return r
        return 'fall', None

    def fork(self, c, f, g):
        saved = self.journal
        self.journal = j1 = {}
        r1 = f()
        v1 = {x: x.v for x in j1}
        for x, o in j1.items():
            x.v = o
        self.journal = j2 = {}
        r2 = g()
        v2 = {x: x.v for x in j2}
        for x, o in j2.items():
            x.v = o
        self.journal = saved
        if r1[0] != r2[0]:
            raise Unsupported(f"control flow ({r1[0]} or {r2[0]}) depends on a value")
        for x in list(dict.fromkeys(list(v1) + list(v2))):
            a, b = v1.get(x, x.v), v2.get(x, x.v)
            self.set(x, self.merge(c, a, b))
        return r1[0], self.merge(c, r1[1], r2[1])

    def merge(self, c, a, b):
        if a is b or a == b:
            return a
        if isinstance(a, N) and isinstance(b, N):
            return N(ir.gate(c, a.n, b.n), a.cx or b.cx)
        if a is UNINIT or b is UNINIT:
            return a if b is UNINIT else b
        if isinstance(a, P) and isinstance(b, P) and a.buf is b.buf and a.off == b.off:
            return a
        raise Unsupported('integer or pointer depends on a value')

    def cond(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, P):
            return True
        n = v.n if ir.op(v.n) in ('cmp', 'and', 'or', 'not') else ir.cmp('!=', v.n, ir.const(0))
        b = ir.bval(n)
        return n if b is None else b

    def stmt(self, s, env):
        self.steps -= 1
        if self.steps < 0:
            raise Unsupported('too many steps')
        k = s.get('kind')
        self.where(s)
        if k == 'CompoundStmt':
            return self.block(s.get('inner', []), env)
        if k == 'DeclStmt':
            for d in s.get('inner', ()):
                if d['kind'] == 'VarDecl':
                    self.decl(d, env)
                elif d['kind'] not in ('TypedefDecl', 'TypeAliasDecl', 'UsingDirectiveDecl', 'UsingDecl', 'EmptyDecl', 'StaticAssertDecl'):
                    raise Unsupported('declaration ' + d['kind'])
            return 'fall', None
        if k == 'ForStmt':
            init, var, c, inc, body = s['inner']
            if init:
                self.stmt(init, env)
            while not c or self.concrete(self.rv(c, env)):
                r = self.block([body], env)
                if r[0] == 'ret':
                    return r
                if r[0] == 'break':
                    break
                if inc:
                    self.ev(inc, env)
            return 'fall', None
        if k in ('WhileStmt', 'DoStmt'):
            c, body = (s['inner'] if k == 'WhileStmt' else s['inner'][::-1])
            first = k == 'DoStmt'
            while first or self.concrete(self.rv(c, env)):
                first = False
                r = self.block([body], env)
                if r[0] == 'ret':
                    return r
                if r[0] == 'break':
                    break
            return 'fall', None
        if k == 'CXXForRangeStmt':
            return self.for_range(s, env)
        if k == 'IfStmt':
            return self.block([s], env)
        if k == 'ReturnStmt':
            return 'ret', (self.rv(s['inner'][0], env) if s.get('inner') else None)
        if k == 'BreakStmt':
            return 'break', None
        if k == 'ContinueStmt':
            return 'continue', None
        if k in ('NullStmt',) or not s:
            return 'fall', None
        if k == 'AttributedStmt':
            return self.stmt(s['inner'][-1], env)
        self.ev(s, env)
        return 'fall', None

    def concrete(self, v):
        self.steps -= 1
        if self.steps < 0:
            raise Unsupported('too many steps')
        c = self.cond(v)
        if not isinstance(c, bool):
            raise Unsupported('loop condition depends on a value')
        return c

    def for_range(self, s, env):
        inner = [c for c in s['inner'] if c]
        body = inner[-1]
        var = next(c for c in reversed(inner[:-1]) if c['kind'] == 'DeclStmt')['inner'][0]
        rng = next(c for c in inner if c['kind'] == 'DeclStmt')['inner'][0]
        b = self.ev(rng['inner'][0], env)
        if not isinstance(b, Buf):
            raise Unsupported('range for')
        for c in b.cells:
            env[var['id']] = c if qt(var).rstrip().endswith('&') else Cell(self.get(c), var.get('name', ''))
            r = self.block([body], env)
            if r[0] == 'ret':
                return r
            if r[0] == 'break':
                break
        return 'fall', None

    def decl(self, d, env):
        t, name = qt(d), d.get('name', '')
        init = [c for c in d.get('inner', ()) if 'Attr' not in c['kind'] and c['kind'] != 'FullComment']
        if d.get('storageClass') == 'static':
            if d['id'] in self.sv:
                env[d['id']] = self.sv[d['id']]
                return
        if t.rstrip().endswith('&'):
            env[d['id']] = self.lv(init[0], env)
            return
        b = bare(t)
        if b.endswith(']'):
            n = int(b[b.rindex('[') + 1:-1])
            cells = [self.default(b[:b.rindex('[')].strip(), f"{name}[{k}]") for k in range(n)]
            if init and init[0]['kind'] == 'InitListExpr':
                vals = [self.rv(x, env) for x in init[0].get('inner', ())]
                for c, v in zip(cells, vals):
                    c.v = v
                for c in cells[len(vals):]:
                    c.v = N(ir.const(0))
            env[d['id']] = Buf(name, cells)
            return
        if not init:
            env[d['id']] = self.default(t, name)
            return
        v = self.ev(init[0], env)
        if isinstance(v, Buf):
            v = Buf(name, [Cell(c.v, f"{name}[{k}]") for k, c in enumerate(v.cells)])
            env[d['id']] = v
        else:
            if isinstance(v, Cell):
                v = self.get(v)
            env[d['id']] = Cell(self.conv(v, t), name)
        if d.get('storageClass') == 'static':
            self.sv[d['id']] = env[d['id']]

    def where(self, s):
        for q in (s.get('range', {}).get('begin', {}), s.get('loc', {})):
            q = q.get('expansionLoc', q)
            if 'line' in q:
                self.line = q['line']
                return

    # ---------------------------------------------------------- expressions
    def rv(self, e, env):
        v = self.ev(e, env)
        return self.get(v) if isinstance(v, Cell) else v

    def lv(self, e, env):
        v = self.ev(e, env)
        return v if isinstance(v, (Cell, Buf)) else Cell(v, '')

    def ev(self, e, env):
        self.where(e)
        f = getattr(self, 'e_' + e['kind'], None)
        if f is None:
            raise Unsupported('C++ ' + e['kind'])
        return f(e, env)

    def first(self, e, env):
        return self.ev(e['inner'][0], env)

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = first
    e_SubstNonTypeTemplateParmExpr = first

    def e_FloatingLiteral(self, e, env):
        x = float(e['value'])
        if x == PI:
            return N(ir.sym('pi'))
        if x and abs(x / MU0 - 1) < 1e-8:
            return N(ir.mul(ir.const(Fraction(4, 10 ** 7)), ir.sym('pi')))
        for m, d in ((2, 1), (4, 1), (1, 2), (1, 4)):
            if x == PI * m / d:
                return N(ir.mul(ir.const(Fraction(m, d)), ir.sym('pi')))
        return N(ir.const(x))

    def e_IntegerLiteral(self, e, env):
        return int(e['value'])

    def e_CXXBoolLiteralExpr(self, e, env):
        return bool(e['value'])

    def e_GNUNullExpr(self, e, env):
        return None

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_DeclRefExpr(self, e, env):
        r = e['referencedDecl']
        i = r['id']
        if i in env:
            return env[i]
        if i in self.u.globals:
            if i not in self.sv:
                g = {}
                self.decl(self.u.globals[i], g)
                self.sv[i] = g[i]
            return self.sv[i]
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', i, r.get('name'))
        raise Unsupported(f"C++ name {r.get('name')}")

    def e_ImplicitCastExpr(self, e, env):
        ck = e.get('castKind')
        v = self.ev(e['inner'][0], env)
        if ck == 'LValueToRValue':
            return self.get(v) if isinstance(v, Cell) else v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UserDefinedConversion', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase'):
            return v
        if ck == 'ArrayToPointerDecay':
            return P(v, 0) if isinstance(v, Buf) else v
        if isinstance(v, Cell):
            v = self.get(v)
        if ck == 'NullToPointer':
            return None
        if ck == 'BitCast':
            return v
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            c = self.cond(v)
            return c if isinstance(c, bool) else N(c)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
            return self.conv(v, qt(e))
        if ck == 'ToVoid':
            return None
        raise Unsupported('cast ' + str(ck))

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXConstructExpr(self, e, env):
        t = qt(e)
        a = [x for x in e.get('inner', ()) if x['kind'] != 'CXXDefaultArgExpr']
        if 'vector<' in t:
            if not a:
                return Buf('vector', [])
            v = self.ev(a[0], env)
            if isinstance(v, Buf):
                return Buf(v.name, [Cell(c.v, c.what) for c in v.cells])
            if isinstance(v, Cell):
                v = self.get(v)
            if isinstance(v, P):
                w = self.rv(a[1], env)
                return Buf('vector', [Cell(self.get(self.at(v, k)), '') for k in range(w.off - v.off)])
            if v < 0 or v > 1 << 20:
                raise MemError(f"vector of {v} elements", self.loc())
            x = self.rv(a[1], env) if len(a) > 1 else N(ir.const(0), 'complex' in t)
            return Buf('vector', [Cell(x, '') for _ in range(v)])
        if is_complex(t):
            vs = [self.rv(x, env) for x in a]
            if not vs:
                return N(ir.const(0), True)
            ns = [v.n if isinstance(v, N) else ir.const(v) for v in vs]
            if len(ns) == 1:
                return N(ns[0], True)
            return N(ir.add(ns[0], ir.mul(ir.const(ir.GQ(0, 1)), ns[1])), True)
        if len(a) == 1:
            return self.ev(a[0], env)
        raise Unsupported('construction of ' + t)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, e, env):
        a = e.get('inner', [])
        if len(a) == 1:
            return self.ev(a[0], env)
        raise Unsupported('initialiser list')

    def e_CXXScalarValueInitExpr(self, e, env):
        return self.conv(0, qt(e))

    def e_ConditionalOperator(self, e, env):
        c = self.cond(self.rv(e['inner'][0], env))
        if isinstance(c, bool):
            return self.ev(e['inner'][1 if c else 2], env)
        return self.fork(c, lambda: ('fall', self.rv(e['inner'][1], env)), lambda: ('fall', self.rv(e['inner'][2], env)))[1]

    def e_ArraySubscriptExpr(self, e, env):
        a, i = self.ev(e['inner'][0], env), self.rv(e['inner'][1], env)
        if isinstance(a, Cell):
            a = self.get(a)
        if isinstance(a, Buf):
            a = P(a, 0)
        if isinstance(i, P):
            a, i = i, a
        return self.at(a, i)

    def e_UnaryOperator(self, e, env):
        op = e['opcode']
        x = e['inner'][0]
        if op == '&':
            v = self.lv(x, env)
            if isinstance(v, Buf):
                return P(v, 0)
            for b in self.bufs(env):
                for k, c in enumerate(b.cells):
                    if c is v:
                        return P(b, k)
            return P(Buf(v.what, [v]), 0)
        if op == '*':
            return self.at(self.rv(x, env))
        if op in ('++', '--'):
            c = self.lv(x, env)
            o = self.get(c)
            d = 1 if op == '++' else -1
            if isinstance(o, P):
                n = P(o.buf, o.off + d)
            elif isinstance(o, N):
                n = N(ir.add(o.n, ir.const(d)), o.cx)
            else:
                n = wrap(o + d, qt(x))
            self.set(c, n)
            return o if e.get('isPostfix') else c
        v = self.rv(x, env)
        if op == '-':
            return N(ir.neg(v.n), v.cx) if isinstance(v, N) else wrap(-v, qt(e))
        if op == '+':
            return v
        if op == '!':
            c = self.cond(v)
            return (not c) if isinstance(c, bool) else N(ir.not_(c))
        if op == '~':
            return wrap(~v, qt(e))
        raise Unsupported('unary ' + op)

    def bufs(self, env):
        seen = []
        for v in env.values():
            if isinstance(v, Buf):
                seen.append(v)
            elif isinstance(v, Cell) and isinstance(v.v, P):
                seen.append(v.v.buf)
        return seen

    def e_BinaryOperator(self, e, env):
        op = e['opcode']
        x, y = e['inner']
        if op == ',':
            self.ev(x, env)
            return self.ev(y, env)
        if op in ('&&', '||'):
            c = self.cond(self.rv(x, env))
            if isinstance(c, bool):
                if c == (op == '||'):
                    return c
                d = self.cond(self.rv(y, env))
                return d if isinstance(d, bool) else N(d)
            d = self.cond(self.rv(y, env))
            dn = ir.const(d) if isinstance(d, bool) else d
            return N((ir.and_ if op == '&&' else ir.or_)(c, dn))
        if op == '=':
            v = self.rv(y, env)
            return self.store(self.lv(x, env), v, qt(x))
        return self.arith(op, self.rv(x, env), self.rv(y, env), qt(e))

    def store(self, c, v, t):
        if isinstance(c, Buf):
            if not isinstance(v, Buf):
                raise Unsupported('vector assignment')
            c.cells = [Cell(q.v, q.what) for q in v.cells]
            return c
        self.set(c, self.conv(v, t))
        return c

    def e_CompoundAssignOperator(self, e, env):
        x, y = e['inner']
        v = self.rv(y, env)
        c = self.lv(x, env)
        ct = e.get('computeResultType', {})
        r = self.arith(e['opcode'][:-1], self.get(c), v, ct.get('desugaredQualType', ct.get('qualType', qt(x))))
        return self.store(c, r, qt(x))

    def arith(self, op, a, b, t):
        if isinstance(a, P) or isinstance(b, P) or a is None or b is None:
            if op == '+':
                return P(a.buf, a.off + b) if isinstance(a, P) else P(b.buf, b.off + a)
            if op == '-':
                return P(a.buf, a.off - b) if not isinstance(b, P) else a.off - b.off
            same = (a is None and b is None) or (isinstance(a, P) and isinstance(b, P) and a.buf is b.buf and a.off == b.off)
            if op == '==':
                return same
            if op == '!=':
                return not same
            if isinstance(a, P) and isinstance(b, P) and a.buf is b.buf:
                return {'<': a.off < b.off, '<=': a.off <= b.off, '>': a.off > b.off, '>=': a.off >= b.off}[op]
            raise Unsupported('pointer ' + op)
        if isinstance(a, N) or isinstance(b, N):
            cx = any(isinstance(v, N) and v.cx for v in (a, b))
            x, y = (v.n if isinstance(v, N) else ir.const(v) for v in (a, b))
            if op in ('+', '-', '*', '/'):
                return N({'+': ir.add, '-': ir.sub, '*': ir.mul, '/': ir.div}[op](x, y), cx)
            if op in ('<', '<=', '>', '>=', '==', '!='):
                n = ir.cmp(op, x, y)
                c = ir.bval(n)
                return N(n) if c is None else c
            raise Unsupported('operator ' + op)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if op in ('/', '%'):
            if b == 0:
                raise MemError('integer division by zero', self.loc())
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return wrap(q if op == '/' else a - q * b, t)
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b,
             '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}.get(op)
        if r is None:
            raise Unsupported('operator ' + op)
        return wrap(r(), t)

    def e_CXXOperatorCallExpr(self, e, env):
        f = self.ev(e['inner'][0], env)
        op = f[2][len('operator'):].strip()
        a = e['inner'][1:]
        if f[1] in self.u.ids and self.u.ids[f[1]] in self.u.defs:
            return self.invoke(self.u.defs[self.u.ids[f[1]]], [self.ev(x, env) for x in a])
        if op == '[]':
            b, i = self.ev(a[0], env), self.rv(a[1], env)
            if isinstance(b, Buf):
                return self.at(P(b, 0), i)
            raise Unsupported('operator[]')
        if op == '=':
            v = self.ev(a[1], env)
            if isinstance(v, Cell):
                v = self.get(v)
            return self.store(self.lv(a[0], env), v, qt(a[0]))
        if op in ('+=', '-=', '*=', '/='):
            v = self.rv(a[1], env)
            c = self.lv(a[0], env)
            return self.store(c, self.arith(op[0], self.get(c), v, qt(a[0])), qt(a[0]))
        vs = [self.rv(x, env) for x in a]
        if len(vs) == 1:
            v = vs[0]
            if op == '-':
                return N(ir.neg(v.n), v.cx)
            if op == '+':
                return v
        elif op in ('+', '-', '*', '/', '==', '!='):
            return self.arith(op, vs[0], vs[1], '')
        raise Unsupported('operator ' + op)

    def e_CXXMemberCallExpr(self, e, env):
        m = e['inner'][0]
        name = m.get('name')
        o = self.ev(m['inner'][0], env)
        a = e['inner'][1:]
        if isinstance(o, Buf):
            if name == 'size':
                return len(o.cells)
            if name == 'empty':
                return not o.cells
            if name in ('data', 'begin', 'cbegin'):
                return P(o, 0)
            if name in ('end', 'cend'):
                return P(o, len(o.cells))
            if name == 'at':
                return self.at(P(o, 0), self.rv(a[0], env))
            if name == 'back':
                return self.at(P(o, len(o.cells) - 1))
            if name == 'front':
                return self.at(P(o, 0))
            if name in ('push_back', 'emplace_back') and self.journal is None:
                o.cells = o.cells + [Cell(self.rv(a[0], env), '')]
                return None
            if name == 'reserve':
                return None
            if name == 'resize' and self.journal is None:
                n = self.rv(a[0], env)
                o.cells = (o.cells + [Cell(N(ir.const(0), True), '') for _ in range(n)])[:n]
                return None
            if name == 'assign' and self.journal is None:
                n, x = self.rv(a[0], env), self.rv(a[1], env)
                o.cells = [Cell(x, '') for _ in range(n)]
                return None
        else:
            v = self.get(o) if isinstance(o, Cell) else o
            if isinstance(v, N) and not a and name in ('real', 'imag'):
                return N(ir.fn(name, v.n))
        raise Unsupported('method ' + str(name))

    def e_MemberExpr(self, e, env):
        raise Unsupported('member ' + str(e.get('name')))

    def e_CXXDefaultArgExpr(self, e, env):
        if e.get('inner'):
            return self.ev(e['inner'][0], env)
        raise Unsupported('default argument')

    def e_UnaryExprOrTypeTraitExpr(self, e, env):
        raise Unsupported('sizeof')

    MATH = {'exp': 'exp', 'tanh': 'tanh', 'sinh': 'sinh', 'cosh': 'cosh', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
            'abs': 'abs', 'fabs': 'abs', 'real': 'real', 'imag': 'imag', 'conj': 'conj', 'atan': 'arctan', 'arg': 'angle', 'atan2': 'arctan2'}

    def e_CallExpr(self, e, env):
        f = self.ev(e['inner'][0], env)
        if not (isinstance(f, tuple) and f[0] == 'fn'):
            raise Unsupported('indirect call')
        a = [x for x in e['inner'][1:] if x['kind'] != 'CXXDefaultArgExpr']
        m = self.u.ids.get(f[1])
        if m in self.u.defs:
            if len(a) != len(e['inner']) - 1:
                raise Unsupported('default arguments')
            return self.invoke(self.u.defs[m], [self.ev(x, env) for x in a])
        name = f[2]
        if name in ('move', 'forward'):
            return self.ev(a[0], env)
        if name in ('fill', 'fill_n', 'copy', 'swap', 'printf', 'malloc', 'free', 'memset', 'memcpy'):
            return self.lib(name, a, env)
        vs = [self.rv(x, env) for x in a]
        cx = any(isinstance(v, N) and v.cx for v in vs)
        ns = [v.n if isinstance(v, N) else ir.const(v) for v in vs]
        if name == 'sqrt':
            return N(ir.pow_(ns[0], ir.const(HALF)), cx)
        if name == 'pow':
            return N(ir.pow_(ns[0], ns[1]), cx)
        if name == 'norm':
            return N(ir.mul(ns[0], ir.fn('conj', ns[0])))
        if name == 'log1p':
            return N(ir.fn('log', ir.add(ir.const(1), ns[0])), cx)
        if name == 'expm1':
            return N(ir.sub(ir.fn('exp', ns[0]), ir.const(1)), cx)
        if name in self.MATH:
            return N(ir.fn(self.MATH[name], *ns), cx and name not in ('abs', 'real', 'imag', 'arg'))
        if name in ('max', 'min', 'fmax', 'fmin'):
            if all(isinstance(v, int) for v in vs):
                return (max if 'max' in name else min)(vs)
            return N(ir.gate(ir.cmp('>=' if 'max' in name else '<=', ns[0], ns[1]), ns[0], ns[1]))
        if name in ('isnan', 'isinf'):
            return False
        if name == 'isfinite':
            return True
        raise Unsupported(f"C++ function {name}")

    def lib(self, name, a, env):
        if name == 'swap':
            x, y = self.lv(a[0], env), self.lv(a[1], env)
            if isinstance(x, Buf):
                x.cells, y.cells = y.cells, x.cells
                return None
            p, q = self.get(x), self.get(y)
            self.set(x, q)
            self.set(y, p)
            return None
        if name in ('fill', 'fill_n'):
            p, q, v = (self.rv(x, env) for x in a)
            n = q.off - p.off if isinstance(q, P) else q
            for k in range(n):
                self.set(self.at(p, k), v)
            return None
        if name == 'copy':
            p, q, d = (self.rv(x, env) for x in a)
            for k in range(q.off - p.off):
                self.set(self.at(d, k), self.get(self.at(p, k)))
            return None
        raise Unsupported(name)
