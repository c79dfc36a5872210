"""Cython modules as Python syntax trees.

Cython's own parser reads the .pyx file; its tree is rewritten as a Python tree that the abstract interpreter runs.
C types become conversions, memory views checks of rank, pointers and external C++ functions intrinsics.
"""
import math
import ast
import glob
import os
import sys
from . import ir
from .arr import Arr, Unsupported, broadcast_shapes, bidx, leaf

PATHS = ('/opt/venv/lib/python3.12/site-packages', '/usr/lib/python3/dist-packages')
LIBM = {'sqrt': 'sqrt', 'log': 'log', 'atan': 'arctan', 'atan2': 'arctan2', 'exp': 'exp', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
        'fabs': 'abs', 'pow': 'power', 'hypot': 'hypot', 'log1p': 'log1p', 'expm1': 'expm1', 'tanh': 'tanh', 'sinh': 'sinh', 'cosh': 'cosh',
        'asin': 'arcsin', 'acos': 'arccos', 'asinh': 'arcsinh', 'acosh': 'arccosh', 'atanh': 'arctanh', 'M_PI': 'pi', 'isnan': 'isnan',
        'isfinite': 'isfinite', 'isinf': 'isinf', 'copysign': 'copysign', 'log10': 'log10', 'cbrt': 'cbrt', 'fmax': 'maximum', 'fmin': 'minimum',
        'signbit': 'signbit', 'floor': 'floor', 'ceil': 'ceil', 'fmod': 'fmod', 'erf': None, 'HUGE_VAL': 'inf', 'INFINITY': 'inf', 'NAN': 'nan'}
INT = {'int', 'long', 'Py_ssize_t', 'size_t', 'ssize_t', 'intp_t', 'int64_t', 'int32_t', 'unsigned', 'short', 'char', 'npy_intp', 'bint'}
TREES = {}


def compiler():
    try:
        import Cython.Compiler.Main    # noqa
    except ImportError:
        for p in PATHS:
            if os.path.isdir(os.path.join(p, 'Cython')):
                sys.path.append(p)
                break
        import Cython.Compiler.Main    # noqa


def parse(path):
    compiler()
    import io
    from Cython.Compiler import Main, Options, Errors
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = Options.CompilationOptions(Options.default_options, language_level=3)
    ctx = Main.Context.from_options(opts)
    sd = FileSourceDescriptor(path, os.path.basename(path))
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        Errors.init_thread()
        scope = ctx.find_module('x', pos=(sd, 1, 0), need_pxd=0)
        return ctx.parse(sd, scope, pxd=0, full_module_name='x')
    except Errors.CompileError as e:
        raise Unsupported(f"Cython rejects {os.path.basename(path)}: {e}")
    finally:
        sys.stderr = err


def load(path):
    """Python module tree of a .pyx file."""
    key = (path, open(path, encoding='utf-8').read())
    if key not in TREES:
        c = Conv(path)
        t = parse(path)
        m = ast.Module(body=c.stmts(t.body) or [ast.Pass()], type_ignores=[])
        ast.fix_missing_locations(m)
        TREES[key] = m
    return TREES[key]


def kind(n):
    return type(n).__name__


CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, 'is': ast.Is, 'is_not': ast.IsNot,
       'in': ast.In, 'not_in': ast.NotIn, '<>': ast.NotEq}
BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow, '@': ast.MatMult,
       '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}


def name(n):
    return ast.Name(n, ast.Load())


def callx(f, *a, **k):
    return ast.Call(name(f), list(a), [ast.keyword(x, y) for x, y in k.items()])


class Conv:
    def __init__(self, path):
        self.path = path
        self.types = {}          # typedefs
        self.vars = [{}]         # C types of variables, innermost scope last

    def un(self, n, what=None):
        raise Unsupported(f"Cython {what or kind(n)} ({os.path.basename(self.path)}:{n.pos[1]})")

    # ------------------------------------------------------------ types
    def ctype(self, t):
        k = kind(t)
        if k == 'CSimpleBaseTypeNode':
            if t.name is None:
                return 'object'
            b = self.types.get(t.name, t.name)
            if b in ('double', 'float64_t', 'double_t', 'npy_float64'):
                return 'double'
            if b in ('float', 'float32_t', 'npy_float32'):
                return 'float'
            if b in INT:
                return 'int'
            if b in ('complex128_t', 'complex_t', 'npy_complex128', 'complex'):
                return 'complex'
            return b if b in ('void', 'object', 'bool') else 'object'
        if k == 'MemoryViewSliceTypeNode':
            return ('view', len(t.axes), self.ctype(t.base_type_node))
        if k == 'TemplatedTypeNode':
            return 'complex' if 'complex' in str(getattr(t.base_type_node, 'name', '')) else 'object'
        if k == 'CConstTypeNode' or k == 'CConstOrVolatileTypeNode':
            return self.ctype(t.base_type)
        if k == 'CComplexBaseTypeNode':
            return self.ctype(t.base_type) if kind(t.declarator) == 'CNameDeclaratorNode' else 'pointer'
        return 'object'

    def declname(self, d):
        """(name, type modifier)"""
        k = kind(d)
        if k == 'CNameDeclaratorNode':
            return d.name, None
        if k == 'CPtrDeclaratorNode':
            return self.declname(d.base)[0], 'pointer'
        if k == 'CReferenceDeclaratorNode':
            return self.declname(d.base)[0], 'pointer'
        if k == 'CArrayDeclaratorNode':
            return self.declname(d.base)[0], 'array'
        self.un(d)

    def coerce(self, v, t):
        if t == 'int':
            return callx('__cy_int', v)
        if t == 'float':
            return callx('__cy_float32', v)
        if t == 'double':
            return callx('__cy_double', v)
        if isinstance(t, tuple):
            return callx('__cy_view', v, ast.Constant(t[1]), ast.Constant(t[2]))
        return v

    def vtype(self, n):
        for d in reversed(self.vars):
            if n in d:
                return d[n]
        return None

    # ------------------------------------------------------------ statements
    def stmts(self, n):
        if n is None:
            return []
        if kind(n) == 'StatListNode':
            return [x for s in n.stats for x in self.stmts(s)]
        f = getattr(self, 's_' + kind(n), None)
        if f is None:
            self.un(n)
        r = f(n)
        r = r if isinstance(r, list) else [r] if r is not None else []
        for x in r:
            for y in ast.walk(x):
                if isinstance(y, (ast.stmt, ast.expr)) and not hasattr(y, 'lineno'):
                    y.lineno = y.end_lineno = n.pos[1]
                    y.col_offset = y.end_col_offset = 0
        return r

    def body(self, n):
        return self.stmts(n) or [ast.Pass()]

    def s_CImportStatNode(self, n):
        return None

    def s_FromCImportStatNode(self, n):
        out = []
        for im in n.imported_names:
            nm, asn = im[1], im[2]
            if n.module_name in ('libc.math', 'libcpp.complex', 'libcpp.cmath', 'numpy.math'):
                t = LIBM.get(nm)
                if t:
                    out.append(ast.ImportFrom('numpy', [ast.alias(t, asn or nm)], 0))
        return out

    def s_CTypeDefNode(self, n):
        b = n.base_type
        nm = self.declname(n.declarator)[0]
        self.types[nm] = 'complex128_t' if kind(b) == 'TemplatedTypeNode' else self.types.get(b.name, b.name)

    def s_CDefExternNode(self, n):
        out = []
        st = n.body.stats if kind(n.body) == 'StatListNode' else [n.body]
        for s in st:
            if kind(s) != 'CVarDefNode':
                continue
            for d in s.declarators:
                while kind(d) != 'CFuncDeclaratorNode' and hasattr(d, 'base'):
                    d = d.base
                if kind(d) == 'CFuncDeclaratorNode':
                    b = d.base
                    out.append(ast.Assign([ast.Name(b.name, ast.Store())],
                                          callx('__cy_extern', ast.Constant(str(b.cname or b.name)))))
        return out

    def args(self, n, decls):
        a, defaults, pre = [], [], []
        scope = {}
        for x in decls:
            nm, mod = self.declname(x.declarator)
            t = mod or self.ctype(x.base_type)
            if nm == '' and kind(x.base_type) == 'CSimpleBaseTypeNode':
                nm, t = x.base_type.name, 'object'
            a.append(ast.arg(nm))
            if x.default is not None:
                defaults.append(self.x(x.default))
            if t not in ('object', 'pointer', 'complex', 'double'):
                scope[nm] = t
                pre.append(ast.Assign([ast.Name(nm, ast.Store())], self.coerce(name(nm), t)))
            elif t == 'double':
                scope[nm] = t
        return ast.arguments([], a, None, [], [], None, defaults), scope, pre

    def deco(self, n):
        out = []
        for d in n.decorators or ():
            e = d.decorator
            if kind(e) == 'AttributeNode' and e.attribute == 'ufunc':
                out.append(name('__cy_ufunc'))
            elif kind(e) == 'NameNode' and e.name == 'ufunc':
                out.append(name('__cy_ufunc'))
        return out

    def fn(self, n, nm, decls, rtype=None):
        args, scope, pre = self.args(n, decls)
        self.vars.append(scope)
        self.ret = rtype
        try:
            b = self.body(n.body)
        finally:
            self.vars.pop()
        return ast.FunctionDef(nm, args, pre + b, self.deco(n), None, None)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while kind(d) != 'CFuncDeclaratorNode':
            d = d.base
        return self.fn(n, self.declname(d.base)[0], d.args, self.ctype(n.base_type))

    def s_DefNode(self, n):
        if n.star_arg or n.starstar_arg:
            self.un(n, 'star arguments')
        return self.fn(n, n.name, n.args)

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nm, mod = self.declname(d)
            if mod == 'array':
                self.un(d)
            t = mod or self.ctype(n.base_type)
            self.vars[-1][nm] = t
            e = d
            while kind(e) == 'CPtrDeclaratorNode':
                e = e.base
            if getattr(e, 'default', None) is not None:
                out.append(ast.Assign([ast.Name(nm, ast.Store())], self.coerce(self.x(e.default), t)))
        return out

    def s_ExprStatNode(self, n):
        return ast.Expr(self.x(n.expr))

    def target(self, n):
        e = self.x(n)
        for y in [e] + (list(e.elts) if isinstance(e, (ast.Tuple, ast.List)) else []):
            y.ctx = ast.Store()
        return e

    def s_SingleAssignmentNode(self, n):
        if kind(n.rhs) == 'ImportNode':
            m = n.rhs.module_name.value
            return ast.Import([ast.alias(str(m), n.lhs.name)])
        v = self.x(n.rhs)
        if kind(n.lhs) == 'NameNode':
            v = self.coerce(v, self.vtype(n.lhs.name))
        return ast.Assign([self.target(n.lhs)], v)

    def s_CascadedAssignmentNode(self, n):
        out = [ast.Assign([ast.Name('__cy_tmp', ast.Store())], self.x(n.rhs))]
        for l in n.lhs_list:
            t = self.vtype(l.name) if kind(l) == 'NameNode' else None
            out.append(ast.Assign([self.target(l)], self.coerce(name('__cy_tmp'), t)))
        return out

    def s_ParallelAssignmentNode(self, n):
        tmp, out = [], []
        for i, s in enumerate(n.stats):
            tmp.append(ast.Assign([ast.Name(f'__cy_t{i}', ast.Store())], self.x(s.rhs)))
            t = self.vtype(s.lhs.name) if kind(s.lhs) == 'NameNode' else None
            out.append(ast.Assign([self.target(s.lhs)], self.coerce(name(f'__cy_t{i}'), t)))
        return tmp + out

    def s_InPlaceAssignmentNode(self, n):
        op = BIN[n.operator]()
        if kind(n.lhs) == 'NameNode' and self.vtype(n.lhs.name) in ('int', 'float', 'double'):
            return ast.Assign([self.target(n.lhs)], self.coerce(ast.BinOp(self.x(n.lhs), op, self.x(n.rhs)), self.vtype(n.lhs.name)))
        return ast.AugAssign(self.target(n.lhs), op, self.x(n.rhs))

    def s_IfStatNode(self, n):
        els = self.stmts(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            els = [ast.If(self.x(c.condition), self.body(c.body), els)]
        return els

    def s_ReturnStatNode(self, n):
        v = self.x(n.value) if n.value is not None else None
        if v is not None and self.ret in ('int', 'float'):
            v = self.coerce(v, self.ret)
        return ast.Return(v)

    def s_GILStatNode(self, n):
        return self.stmts(n.body)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.x(n.exc_type) if n.exc_type is not None else None, None)

    def s_AssertStatNode(self, n):
        return ast.Assert(self.x(n.condition), None)

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        return ast.For(self.target(n.target), self.x(seq), self.body(n.body), self.stmts(n.else_clause))

    def s_WhileStatNode(self, n):
        return ast.While(self.x(n.condition), self.body(n.body), self.stmts(n.else_clause))

    def s_FromImportStatNode(self, n):
        m = n.module.module_name.value
        out = []
        for nm, tgt in n.items:
            out.append(ast.ImportFrom(str(m), [ast.alias(nm, tgt.name)], 0))
        return out

    def s_DefaultNonPyStat(self, n):
        return None

    # ------------------------------------------------------------ expressions
    def x(self, n):
        f = getattr(self, 'x_' + kind(n), None)
        if f is None:
            if hasattr(n, 'operator') and hasattr(n, 'operand1') and n.operator in BIN:
                return self.at(n, ast.BinOp(self.x(n.operand1), BIN[n.operator](), self.x(n.operand2)))
            self.un(n)
        return self.at(n, f(n))

    def at(self, n, e):
        e.lineno = e.end_lineno = n.pos[1]
        e.col_offset = e.end_col_offset = 0
        return e

    def x_NameNode(self, n):
        return name(n.name)

    def x_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def x_IntNode(self, n):
        return ast.Constant(int(n.value, 0))

    def x_ImagNode(self, n):
        return ast.Constant(complex(0, float(n.value)))

    def x_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def x_NoneNode(self, n):
        return ast.Constant(None)

    x_NullNode = x_NoneNode

    def x_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    x_StringNode = x_IdentifierStringNode = x_UnicodeNode

    def x_JoinedStrNode(self, n):
        return ast.Constant('message')

    def x_PrimaryCmpNode(self, n):
        ops, cs = [CMP[n.operator]()], [self.x(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            cs.append(self.x(c.operand2))
            c = c.cascade
        return ast.Compare(self.x(n.operand1), ops, cs)

    def x_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.x(n.operand1), self.x(n.operand2)])

    def x_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.x(n.operand))

    def x_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.x(n.operand))

    def x_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.x(n.operand))

    def x_CondExprNode(self, n):
        return ast.IfExp(self.x(n.condition if hasattr(n, 'condition') else n.test), self.x(n.true_val), self.x(n.false_val))

    def x_SimpleCallNode(self, n):
        return ast.Call(self.x(n.function), [self.x(a) for a in n.args], [])

    def x_GeneralCallNode(self, n):
        kw = []
        k = n.keyword_args
        if k is not None:
            if kind(k) != 'DictNode':
                self.un(k)
            for i in k.key_value_pairs:
                kw.append(ast.keyword(str(i.key.value), self.x(i.value)))
        if kind(n.positional_args) != 'TupleNode':
            self.un(n)
        return ast.Call(self.x(n.function), [self.x(a) for a in n.positional_args.args], kw)

    def x_AttributeNode(self, n):
        return ast.Attribute(self.x(n.obj), n.attribute, ast.Load())

    def x_IndexNode(self, n):
        return ast.Subscript(self.x(n.base), self.x(n.index), ast.Load())

    def x_SliceIndexNode(self, n):
        return ast.Subscript(self.x(n.base), ast.Slice(self.x(n.start) if n.start else None, self.x(n.stop) if n.stop else None), ast.Load())

    def x_SliceNode(self, n):
        f = lambda v: None if kind(v) == 'NoneNode' else self.x(v)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def x_TupleNode(self, n):
        return ast.Tuple([self.x(a) for a in n.args], ast.Load())

    def x_ListNode(self, n):
        return ast.List([self.x(a) for a in n.args], ast.Load())

    def x_AmpersandNode(self, n):
        o = n.operand
        if kind(o) == 'IndexNode':
            return callx('__cy_addr', self.x(o.base), self.x(o.index))
        self.un(n)

    def x_TypecastNode(self, n):
        v = self.x(n.operand)
        mod = self.declname(n.declarator)[1] if n.declarator is not None else None
        return v if mod else self.coerce(v, self.ctype(n.base_type))


# ---------------------------------------------------------------- intrinsics
def cy_ufunc(I, args, kw):
    return scalar_ufunc(args[0], 'f')


def scalar_ufunc(f, kind):
    def u(I, a, kw):
        if kw:
            raise Unsupported('ufunc keywords')
        arrs = [I.to_arr(v) for v in a]
        sh = broadcast_shapes(*[x.shape for x in arrs])

        heap = I.heap
        lazy = math.prod(d for d in sh if isinstance(d, int)) > 100      # long concrete arrays: only the elements looked at

        def at(idx, want_kind=False):
            saved = (I.heap, I.assume, list(I.guards), list(I.events), I.frames, I.file, ir.G.loc, I.depth)
            I.assume = {}
            if lazy:
                I.heap = heap
            try:
                ns = [x.at(bidx(idx, x.shape)) for x in arrs]
                v = I.call(f, [I.arr(Arr((), lambda _, n=n: n, 'f' if kind == 'f' else x.kind, wk=True)) for n, x in zip(ns, arrs)], {})
                r = I.to_arr(v)
                return r.kind if want_kind else r.at(())
            finally:
                I.heap, I.assume, g, e, I.frames, I.file, ir.G.loc, I.depth = saved
                I.guards[:] = g
                I.events[:] = e
        r = Arr(sh, at, kind or at(tuple(0 if isinstance(d, int) else ('i', f'v{j}') for j, d in enumerate(sh)), True))
        if not lazy:
            r.generic()
        return I.arr(r)
    return u


def cy_int(I, args, kw):
    v = args[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int) or v is None:
        return v
    a = I.to_arr(v)
    if a.kind in 'bi':
        return v
    return I.arr(Arr((), lambda idx: ir.fn('cast_i', a.at(())), 'i', wk=True))


def cy_double(I, args, kw):
    v = args[0]
    a = I.to_arr(v)
    if a.kind == 'c':
        raise Unsupported('complex to double')
    return v if a.kind == 'f' else I.arr(Arr((), lambda idx: a.at(()), 'f', wk=True))


def cy_float32(I, args, kw):
    a = I.to_arr(args[0])
    return I.arr(Arr((), lambda idx: ir.fn('cast_f32', a.at(())), 'f', wk=True))


def cy_view(I, args, kw):
    from .interp import AbsRaise
    v, nd, t = args
    a = I.rd(v)
    if a.ndim != nd:
        raise AbsRaise('ValueError', f"buffer has {a.ndim} dimensions, {nd} expected", ir.G.loc)
    if {'double': 'f', 'complex': 'c', 'int': 'i'}.get(t, a.kind) != a.kind:
        raise AbsRaise('ValueError', f"buffer of type {a.kind}", ir.G.loc)
    return v


class Ptr:
    """Address of an element of an array."""
    def __init__(self, ref, idx):
        self.ref, self.idx = ref, idx


def cy_addr(I, args, kw):
    from .interp import AbsRaise
    v, idx = args
    a = I.rd(v)
    ix = tuple(int_of(I, k) for k in (idx if isinstance(idx, tuple) else (idx,)))
    if len(ix) != a.ndim:
        raise Unsupported('address of a slice')
    if any(not isinstance(d, int) for d in a.shape):
        raise Unsupported('address in an array of unknown extent')
    for k, d in zip(ix, a.shape):
        if not -d <= k < d:
            raise AbsRaise('IndexError', 'index out of bounds', ir.G.loc)
    return Ptr(v, tuple(k % d for k, d in zip(ix, a.shape)))


def int_of(I, v):
    if isinstance(v, int):
        return v
    c = ir.cval(I.to_arr(v).at(()))
    if c is None or c.denominator != 1:
        raise Unsupported('index depends on a value')
    return int(c)


def memory(a):
    """Indices of an array in the order of memory; None marks memory between elements."""
    import itertools
    o = a.order
    sh = a.shape
    if o == 'F':
        return [tuple(reversed(ix)) for ix in itertools.product(*[range(d) for d in reversed(sh)])]
    ixs = list(itertools.product(*[range(d) for d in sh]))
    if o == '?':
        raise Unsupported('memory order not known')
    if o == 'S':
        return [x for ix in ixs for x in (ix, None)]
    return ixs


def cy_extern(I, args, kw):
    nm = args[0]

    def call(I, a, kw):
        from . import cpp
        d = os.path.join(I.repo, 'geoana', 'kernels', '_extensions')
        unit = None
        for p in sorted(glob.glob(os.path.join(d, '*.cpp')) + glob.glob(os.path.join(d, '*.cc')) + glob.glob(os.path.join(d, '*.c'))):
            u = cpp.load(p)
            if nm.split('::')[-1] in u.fns:
                unit = u
        if unit is None:
            raise Unsupported(f"external function {nm}")
        bufs, out = {}, []
        for v in a:
            if isinstance(v, Ptr):
                key = (v.ref.id, v.ref.path)
                if key not in bufs:
                    arr = I.rd(v.ref)
                    mem = memory(arr)
                    cells = []
                    for ix in mem:
                        n = ir.sym('gap', (len(cells),)) if ix is None else arr.at(ix)
                        uninit = ir.node(n)[0] == 'unk'
                        cells.append(cpp.Cell(cpp.UNINIT if uninit else cpp.N(n, arr.kind == 'c'), f"element {ix}"))
                    bufs[key] = (v.ref, mem, cpp.Buf('argument', cells))
                ref, mem, b = bufs[key]
                out.append(cpp.P(b, mem.index(v.idx)))
            elif v is None:
                out.append(None)
            elif isinstance(v, bool) or isinstance(v, int):
                out.append(v)
            else:
                arr = I.to_arr(v)
                n = arr.at(())
                c = ir.cval(n)
                out.append(int(c) if arr.kind in 'bi' and c is not None else cpp.N(n, arr.kind == 'c'))
        m = cpp.Cpp(unit)
        I.visited.add((os.path.relpath(unit.path, I.repo), nm))
        m.call(nm, out)
        for ref, mem, b in bufs.values():
            vals = {}
            for ix, c in zip(mem, b.cells):
                if ix is not None:
                    vals[ix] = c.v.n if c.v is not cpp.UNINIT else None
            arr = I.rd(ref)

            def at(idx, vals=vals, arr=arr):
                n = vals[tuple(idx)]
                return ir.unk('uninitialised element', *[ir.const(k) for k in idx]) if n is None else n
            new = Arr(arr.shape, at, arr.kind)
            new.order = arr.order
            I.wr(ref, new)
        return None
    return call


INTRINSICS = {'__cy_ufunc': cy_ufunc, '__cy_int': cy_int, '__cy_double': cy_double, '__cy_float32': cy_float32, '__cy_view': cy_view,
              '__cy_addr': cy_addr, '__cy_extern': cy_extern}
