"""Symbolic models of numpy / scipy / builtins used by the analysed code.

Every model maps abstract values to abstract values; an external function
without a model yields an OpaqueV (nothing is concluded from it).
"""
import itertools
import math
from fractions import Fraction

from . import ir, gf
from .arr import (Arr, single, DimV, Sl, ShapeError, Unsupported, scalar, filled, ew, getitem, reshape, transpose,
                  squeeze, stack, concatenate, broadcast_to, broadcast_shapes, promote, ORD, dimval, undim,
                  dim_add, dim_prod, show_shape, matmul, reduce_, dot, einsum, cross, bidx, contract, leaf, comb)
from .ir import GQ
from . import interp as X

HALF = Fraction(1, 2)


def _I():
    return X


def is_num(v):
    return isinstance(v, (int, Fraction, GQ)) and not isinstance(v, bool)


def isarr(v):
    return isinstance(v, X.Ref) and v.kind == 'arr'


def islist(v):
    return isinstance(v, X.Ref) and v.kind == 'list'


def isdict(v):
    return isinstance(v, X.Ref) and v.kind == 'dict'


def isobj(v):
    return isinstance(v, X.Ref) and v.kind == 'obj'


def err(exc, msg=''):
    raise X.AbsRaise(exc, msg, ir.G.loc)


# ------------------------------------------------------------------ resolve
_CONST_NONE = {'numpy.newaxis'}
_ALIAS_MODS = {
    'numpy.core': 'numpy', 'numpy.lib': 'numpy', 'numpy.ma': 'numpy.ma',
}


def resolve(I, name):
    if name in _CONST_NONE:
        return None
    if name in X.EXT_NUMERIC_CONST:
        n = ir.sym(X.EXT_NUMERIC_CONST[name])
        return I.arr(Arr((), lambda idx: n, 'f', wk=True))
    if name in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        n = ir.G.mk('const', 'nan')
        return I.arr(Arr((), lambda idx: n, 'f', wk=True))
    if name in ('numpy.inf', 'math.inf'):
        n = ir.G.mk('const', 'inf')
        return I.arr(Arr((), lambda idx: n, 'f', wk=True))
    if name in ('numpy.e', 'math.e'):
        n = ir.fn('exp', ir.const(1))
        n = ir.G.mk('fn', 'exp', ir.const(1))
        return I.arr(Arr((), lambda idx: n, 'f', wk=True))
    if name in ('typing.TYPE_CHECKING',):
        return False
    return X.ExtV(name)


# ------------------------------------------------------------------ dtype
_DT = {
    'float': 'f', 'float64': 'f', 'float32': 'f', 'double': 'f', 'float_': 'f', 'longdouble': 'f', 'floating': 'f',
    'complex': 'c', 'complex128': 'c', 'complex64': 'c', 'cdouble': 'c', 'complex_': 'c', 'complexfloating': 'c',
    'int': 'i', 'int64': 'i', 'int32': 'i', 'intp': 'i', 'uint8': 'i', 'integer': 'i', 'int_': 'i', 'int8': 'i',
    'bool': 'b', 'bool_': 'b', 'f8': 'f', 'c16': 'c', 'f4': 'f', 'f2': 'f', 'c8': 'c', 'F': 'c', 'e': 'f', 'half': 'f', 'single': 'f', 'csingle': 'c', 'float16': 'f', 'f': 'f', 'd': 'f', 'i8': 'i', 'i': 'i',
}


def dtype_kind(v):
    if v is None:
        return None
    if isinstance(v, X.ExtV):
        if v.name.startswith('dtype:'):
            return v.name[6:]
        k = _DT.get(v.name.split('.')[-1])
        if k:
            return k
        if v.name.endswith('object') or v.name.endswith('object_'):
            raise Unsupported("object dtype")
    if isinstance(v, str) and v.lstrip('<>=') in _DT:
        return _DT[v.lstrip('<>=')]
    raise Unsupported(f"dtype {v!r}")


def lossy32(v):
    n = v.name.split('.')[-1] if isinstance(v, X.ExtV) else v.lstrip('<>=') if isinstance(v, str) else ''
    return n in ('float32', 'float16', 'complex64', 'half', 'single', 'csingle', 'f4', 'f2', 'c8', 'f', 'F', 'e')


def cast(a, kind):
    if kind is None or kind == a.kind:
        return a
    if ORD[kind] >= ORD[a.kind]:
        return Arr(a.shape, a.fn, kind)
    if kind == 'b':
        return ew(lambda x: ir.cmp('!=', x, ir.const(0)), a, kind='b')
    return ew(lambda x: ir.fn('cast_' + kind, x), a, kind=kind)


# ------------------------------------------------------------------ elementwise
def mkew(f, kind=None, minkind='f'):
    def g(I, *vs):
        arrs = [I.to_arr(v) for v in vs]
        if kind is None:
            k = promote(minkind, *[a.kind for a in arrs]) if minkind else promote(*[a.kind for a in arrs])
        else:
            k = kind
        return ew(f, *arrs, kind=k)
    return g


def f1(name):
    return mkew(lambda x: ir.fn(name, x))


def sqrt_(x):
    return ir.pow_(x, ir.const(HALF))


def absnode(x):
    return ir.fn('abs', x)


def maxn(a, b):
    return ir.gate(ir.cmp('>=', a, b), a, b)


def minn(a, b):
    return ir.gate(ir.cmp('<=', a, b), a, b)


def isclose_n(a, b, rtol=None, atol=None):
    """|a - b| <= atol + rtol |b|."""
    if a == b:
        return ir.const(True)
    rtol = ir.const(Fraction(1, 10 ** 5)) if rtol is None else rtol
    atol = ir.const(Fraction(1, 10 ** 8)) if atol is None else atol
    return ir.cmp('<=', ir.fn('abs', ir.sub(a, b)), ir.add(atol, ir.mul(rtol, ir.fn('abs', b))))


def isclose_arr(I, args, kw):
    x, y, rt, at = pick(args, kw, ['a', 'b', 'rtol', 'atol'])
    tol = [None if t is None else I.to_arr(t).at(()) for t in (rt, at)]
    return ew(lambda a, b: isclose_n(a, b, *tol), I.to_arr(x), I.to_arr(y), kind='b')


UNARY = {
    'sqrt': mkew(sqrt_), 'exp': f1('exp'), 'log': f1('log'), 'sin': f1('sin'), 'cos': f1('cos'), 'tan': f1('tan'),
    'arctan': f1('arctan'), 'arcsin': f1('arcsin'), 'arccos': f1('arccos'), 'sinh': f1('sinh'), 'cosh': f1('cosh'),
    'tanh': f1('tanh'), 'arctanh': f1('arctanh'), 'arcsinh': f1('arcsinh'), 'arccosh': f1('arccosh'),
    'atan': f1('arctan'), 'asin': f1('arcsin'), 'acos': f1('arccos'), 'atanh': f1('arctanh'),
    'asinh': f1('arcsinh'), 'acosh': f1('arccosh'),
    'erf': f1('erf'), 'log10': mkew(lambda x: ir.div(ir.fn('log', x), ir.G.mk('fn', 'log', ir.const(10)))),
    'log1p': mkew(lambda x: ir.fn('log', ir.add(ir.const(1), x))),
    'expm1': mkew(lambda x: ir.sub(ir.fn('exp', x), ir.const(1))),
    'erfc': mkew(lambda x: ir.sub(ir.const(1), ir.fn('erf', x))),
    'square': mkew(lambda x: ir.pow_(x, ir.const(2)), minkind=None),
    'negative': mkew(ir.neg, minkind=None), 'positive': mkew(lambda x: x, minkind=None),
    'reciprocal': mkew(lambda x: ir.div(ir.const(1), x)),
    'deg2rad': mkew(lambda x: ir.div(ir.mul(x, ir.sym('pi')), ir.const(180))),
    'radians': mkew(lambda x: ir.div(ir.mul(x, ir.sym('pi')), ir.const(180))),
    'rad2deg': mkew(lambda x: ir.div(ir.mul(x, ir.const(180)), ir.sym('pi'))),
    'degrees': mkew(lambda x: ir.div(ir.mul(x, ir.const(180)), ir.sym('pi'))),
    'ellipk': f1('ellipk'), 'ellipe': f1('ellipe'), 'gamma': f1('gamma'),
    'j0': mkew(lambda x: ir.fn('jv', ir.const(0), x)), 'j1': mkew(lambda x: ir.fn('jv', ir.const(1), x)),
    'i0': mkew(lambda x: ir.fn('iv', ir.const(0), x)), 'i1': mkew(lambda x: ir.fn('iv', ir.const(1), x)),
    'k0': mkew(lambda x: ir.fn('kv', ir.const(0), x)), 'k1': mkew(lambda x: ir.fn('kv', ir.const(1), x)),
    'i0e': mkew(lambda x: ir.fn('ive', ir.const(0), x)), 'i1e': mkew(lambda x: ir.fn('ive', ir.const(1), x)),
    'sign': mkew(lambda x: ir.fn('sign', x), minkind=None),
    'isnan': mkew(lambda x: ir.unk('isnan', x) if ir.cval(x) is None else ir.const(False), kind='b'),
    'isfinite': mkew(lambda x: ir.unk('isfinite', x) if ir.cval(x) is None else ir.const(True), kind='b'),
    'isinf': mkew(lambda x: ir.unk('isinf', x) if ir.cval(x) is None else ir.const(False), kind='b'),
    'logical_not': mkew(lambda x: ir.not_(x), kind='b'), 'invert': mkew(lambda x: ir.not_(x), kind='b'),
    'floor': f1('floor'), 'ceil': f1('ceil'), 'rint': f1('rint'), 'trunc': f1('trunc'),
    'nan_to_num': f1('nan_to_num'), 'sinc': f1('sinc'), 'cbrt': mkew(lambda x: ir.fn('cbrt', x)),
}
BINARY = {
    'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow',
    'float_power': 'Pow', 'matmul': 'MatMult', 'floor_divide': 'FloorDiv', 'mod': 'Mod', 'remainder': 'Mod',
    'pow': 'Pow', 'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr',
}
BIN2 = {
    'arctan2': mkew(lambda a, b: ir.fn('arctan2', a, b)), 'atan2': mkew(lambda a, b: ir.fn('arctan2', a, b)),
    'hypot': mkew(lambda a, b: sqrt_(ir.add(ir.pow_(a, ir.const(2)), ir.pow_(b, ir.const(2))))),
    'maximum': mkew(maxn, minkind=None), 'minimum': mkew(minn, minkind=None),
    'fmax': mkew(maxn, minkind=None), 'fmin': mkew(minn, minkind=None),
    'logical_and': mkew(lambda a, b: ir.and_(a, b), kind='b'),
    'logical_or': mkew(lambda a, b: ir.or_(a, b), kind='b'),
    'xlogy': mkew(lambda a, b: ir.const(0) if ir.cval(a) is not None and ir.q_iszero(ir.cval(a)) else ir.fn('xlogy', a, b)),
    'ive': mkew(lambda a, b: ir.fn('ive', a, b)), 'iv': mkew(lambda a, b: ir.fn('iv', a, b)),
    'kv': mkew(lambda a, b: ir.fn('kv', a, b)), 'kve': mkew(lambda a, b: ir.fn('kve', a, b)),
    'jv': mkew(lambda a, b: ir.fn('jv', a, b)), 'yv': mkew(lambda a, b: ir.fn('yv', a, b)),
    'jn': mkew(lambda a, b: ir.fn('jv', a, b)), 'kn': mkew(lambda a, b: ir.fn('kv', a, b)),
    'copysign': mkew(lambda a, b: ir.fn('copysign', a, b)),
    'greater': mkew(lambda a, b: ir.cmp('>', a, b), kind='b'),
    'greater_equal': mkew(lambda a, b: ir.cmp('>=', a, b), kind='b'),
    'less': mkew(lambda a, b: ir.cmp('<', a, b), kind='b'),
    'less_equal': mkew(lambda a, b: ir.cmp('<=', a, b), kind='b'),
    'equal': mkew(lambda a, b: ir.cmp('==', a, b), kind='b'),
    'not_equal': mkew(lambda a, b: ir.cmp('!=', a, b), kind='b'),
    'heaviside': mkew(lambda a, b: ir.fn('heaviside', a, b)),
}


def norm_arr(a, axis=None, keepdims=False):
    if a.kind == 'c':
        sq = ew(lambda x: ir.pow_(absnode(x), ir.const(2)), a, kind='f')
    else:
        sq = ew(lambda x: ir.pow_(x, ir.const(2)), a, kind='f')
    s = reduce_(sq, axis, keepdims, 'sum')
    return ew(sqrt_, s, kind='f')


# ------------------------------------------------------------------ binop
def arith(o):
    return {'Add': ir.add, 'Sub': ir.sub, 'Mult': ir.mul, 'Div': ir.div, 'Pow': ir.pow_}.get(o)


def binop_arr(I, o, A, B):
    if o == 'MatMult':
        return matmul(A, B)
    f = arith(o)
    kind = promote(A.kind, B.kind)
    if f is not None:
        if o == 'Div':
            kind = promote('f', kind)
            if A.kind == 'b' or B.kind == 'b':
                pass
        if kind == 'b':
            if o == 'Mult':
                return ew(ir.and_, A, B, kind='b')
            if o == 'Add':
                return ew(ir.or_, A, B, kind='b')
        if A.kind == 'b' or B.kind == 'b':
            A, B = [ew(lambda x: ir.gate(x, ir.const(1), ir.const(0)), x, kind='i') if x.kind == 'b' else x for x in (A, B)]
        if o == 'Pow' and kind == 'i' and A.wk and B.wk:
            return ew(f, A, B, kind='f')
        if o == 'Pow' and kind == 'i' and not (A.wk and B.wk):
            if B.ndim == 0:
                c = ir.cval(B.at(()))
                if isinstance(c, Fraction) and c < 0:
                    err('ValueError', 'integers to negative integer powers are not allowed')
        return ew(f, A, B, kind=kind)
    if o in ('BitAnd', 'BitOr', 'BitXor'):
        if A.kind == 'b' and B.kind == 'b':
            if o == 'BitXor':
                return ew(lambda a, b: ir.or_(ir.and_(a, ir.not_(b)), ir.and_(ir.not_(a), b)), A, B, kind='b')
            return ew(ir.and_ if o == 'BitAnd' else ir.or_, A, B, kind='b')
        raise Unsupported("bitwise op on non-bool")
    if o == 'Mod':
        return ew(lambda a, b: ir.fn('mod', a, b), A, B, kind=kind)
    if o == 'FloorDiv':
        return ew(lambda a, b: ir.fn('floordiv', a, b), A, B, kind=kind)
    raise Unsupported(f"operator {o}")


def exact(v):
    return is_num(v) or isinstance(v, bool)


def repeat_count(I, v):
    """An element of an integer array repeats a sequence like an int."""
    A = I.rd(v)
    c = ir.cval(A.at(())) if A.ndim == 0 and A.kind == 'i' else None
    return int(c) if c is not None and getattr(c, 'denominator', 0) == 1 else v


def binop(I, o, a, b):
    if isinstance(a, bool) and isinstance(b, bool) and o in ('BitAnd', 'BitOr', 'BitXor'):
        return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[o]
    if exact(a) and exact(b):
        r = exact_op(I, o, a, b)
        if r is not None:
            return r
    if isinstance(a, DimV) or isinstance(b, DimV):
        r = dim_op(I, o, a, b)
        if r is not None:
            return r
    if isinstance(a, str) or isinstance(a, X.StrV) or isinstance(b, (str, X.StrV)):
        if o == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if o == 'Mod' and isinstance(a, (str, X.StrV)):
            return X.StrV('fmt')
        if o == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, (str, X.StrV)) and isinstance(b, (str, X.StrV)):
            return X.StrV('cat')
        err('TypeError', 'unsupported operand types')
    if isinstance(a, tuple) and isinstance(b, tuple) and o == 'Add':
        return a + b
    if islist(a) and islist(b) and o == 'Add':
        return I.new('list', I.heap[a.id] + I.heap[b.id])
    if o == 'Mult' and (isinstance(a, tuple) or islist(a)) and isarr(b):
        b = repeat_count(I, b)
    if o == 'Mult' and (isinstance(b, tuple) or islist(b)) and isarr(a):
        a = repeat_count(I, a)
    if (isinstance(a, tuple) or islist(a)) and o == 'Mult' and isinstance(b, int):
        it = a if isinstance(a, tuple) else I.heap[a.id]
        return it * b if isinstance(a, tuple) else I.new('list', it * b)
    if (isinstance(b, tuple) or islist(b)) and o == 'Mult' and isinstance(a, int):
        return binop(I, o, b, a)
    if isinstance(a, X.OpaqueV) or isinstance(b, X.OpaqueV):
        return X.OpaqueV('op', ())
    if isinstance(a, X.RotV) and isinstance(b, X.RotV) and o == 'Mult':
        return X.RotV(dot(a.mat, b.mat))
    if a is None or b is None:
        err('TypeError', 'unsupported operand type NoneType')
    if isobj(a) or isobj(b):
        names = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'MatMult': 'matmul'}
        if isobj(a) and o in names:
            m = I.class_lookup(I.heap[a.id]['__class__'], f'__{names[o]}__')
            if m is not X.ABSENT:
                return I.call(X.BoundV(a, m), [b], {})
        if isobj(b) and o in names:
            m = I.class_lookup(I.heap[b.id]['__class__'], f'__r{names[o]}__')
            if m is not X.ABSENT:
                return I.call(X.BoundV(b, m), [a], {})
    if not any(isarr(v) for v in (a, b)) and not any(isinstance(v, (X.ChoiceV, DimV)) for v in (a, b)) \
            and any(isinstance(v, tuple) or islist(v) for v in (a, b)):
        err('TypeError', 'unsupported operand types')
    r = binop_arr(I, o, I.to_arr(a), I.to_arr(b))
    return I.arr(r)


def exact_op(I, o, a, b):
    a = int(a) if isinstance(a, bool) else a
    b = int(b) if isinstance(b, bool) else b
    if isinstance(a, int) and isinstance(b, int):
        if o == 'Add':
            return a + b
        if o == 'Sub':
            return a - b
        if o == 'Mult':
            return a * b
        if o == 'FloorDiv' and b:
            return a // b
        if o == 'Mod' and b:
            return a % b
        if o == 'Pow':
            return a ** b if b >= 0 else Fraction(a) ** b if a else None
        if o == 'BitAnd':
            return a & b
        if o == 'BitOr':
            return a | b
        if o == 'LShift':
            return a << b
        if o == 'RShift':
            return a >> b
    if o == 'Add':
        return ir.q_add(a, b)
    if o == 'Sub':
        return ir.q_add(a, ir.q_neg(b))
    if o == 'Mult':
        return ir.q_mul(a, b)
    if o == 'Div':
        if ir.q_iszero(b):
            err('ZeroDivisionError')
        return ir.q_mul(a, ir.q_inv(b))
    if o == 'Pow' and isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1 and abs(b) < 400:
        if ir.q_iszero(a) and b < 0:
            err('ZeroDivisionError')
        return ir.q_pow(a, int(b))
    if o in ('FloorDiv', 'Mod') and not isinstance(a, GQ) and not isinstance(b, GQ) and b:
        return Fraction(a // b) if o == 'FloorDiv' else Fraction(a) % Fraction(b)
    return None


def dim_op(I, o, a, b):
    if o == 'Add':
        if isinstance(a, DimV) and isinstance(b, int):
            return dimval(dim_add(a.d, b))
        if isinstance(b, DimV) and isinstance(a, int):
            return dimval(dim_add(b.d, a))
    if o == 'Sub' and isinstance(a, DimV):
        if isinstance(b, int):
            return dimval(dim_add(a.d, -b))
        if isinstance(b, DimV):
            if a.d == b.d:
                return 0
    if o == 'Mult':
        if isinstance(a, (DimV, int)) and isinstance(b, (DimV, int)):
            return dimval(dim_prod([undim(a), undim(b)]))
    if all(isinstance(v, (DimV, int)) for v in (a, b)) and o in ('FloorDiv', 'Mod'):
        raise Unsupported("extent arithmetic")
    return None


# ------------------------------------------------------------------ compare
_OPS = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}


def bool_arr(I, n):
    b = ir.bval(n)
    if b is not None:
        return b
    return I.arr(Arr((), lambda idx: n, 'b', wk=True))


def same_obj(I, a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, X.Ref) and isinstance(b, X.Ref):
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        if type(a) is type(b):
            return a == b
        return False
    if isinstance(a, X.ExtV) and isinstance(b, X.ExtV):
        return a == b
    if isinstance(a, (X.ExtV, X.ClassV, X.FuncV)) or isinstance(b, (X.ExtV, X.ClassV, X.FuncV)):
        return False
    return None


def compare(I, o, a, b):
    if o in ('Is', 'IsNot'):
        r = same_obj(I, a, b)
        if r is None:
            if type(a) is not type(b):
                r = False
            else:
                raise Unsupported("identity of values")
        return r if o == 'Is' else not r
    if o in ('In', 'NotIn'):
        r = contains(I, a, b)
        if o == 'In':
            return r
        return (not r) if isinstance(r, bool) else bool_arr(I, ir.not_(I.truth(r)))
    op = _OPS[o]
    if isinstance(a, X.ExtV) or isinstance(b, X.ExtV):
        if isinstance(a, X.ExtV) and a.name.startswith('dtype:') or isinstance(b, X.ExtV) and b.name.startswith('dtype:'):
            try:
                r = dtype_kind(a) == dtype_kind(b)
            except Unsupported:
                raise
            return r if o == 'Eq' else not r
        r = a == b
        return r if o == 'Eq' else not r
    if isinstance(a, (X.OpaqueV,)) or isinstance(b, (X.OpaqueV,)):
        return X.OpaqueV('cmp', ())
    if isinstance(a, X.StrV) or isinstance(b, X.StrV):
        if isinstance(a, (str, X.StrV)) and isinstance(b, (str, X.StrV)):
            if isinstance(a, X.StrV) and isinstance(b, X.StrV) and a == b:
                return o == 'Eq'
            # an unknown string is, by construction of the scenarios, none of the documented keywords
            return o == 'NotEq'
        return o == 'NotEq'
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if o in ('Eq', 'NotEq'):
            return o == 'NotEq'
        err('TypeError', 'comparison of str')
    if a is None or b is None:
        if o in ('Eq', 'NotEq'):
            r = a is None and b is None
            return r if o == 'Eq' else not r
        err('TypeError', 'comparison with None')
    if isinstance(a, (tuple,)) or isinstance(b, (tuple,)) or (islist(a) and islist(b)):
        if not (isarr(a) or isarr(b)):
            return seq_compare(I, o, a, b)
    if isinstance(a, DimV) or isinstance(b, DimV):
        if isinstance(a, (DimV, int)) and isinstance(b, (DimV, int)):
            return dim_compare(I, op, a, b)
    if exact(a) and exact(b):
        ga, gb = ir.gq(a), ir.gq(b)
        if op == '==':
            return ga == gb
        if op == '!=':
            return not (ga == gb)
        if ga.im != 0 or gb.im != 0:
            err('TypeError', 'ordering of complex')
        return ir._CMP[op](ga.re, gb.re)
    if isobj(a) or isobj(b) or isdict(a) or isdict(b) or isinstance(a, (X.ClassV, X.FuncV, X.ModV)) or \
            isinstance(b, (X.ClassV, X.FuncV, X.ModV)):
        if isobj(a):
            m = I.class_lookup(I.heap[a.id]['__class__'], '__eq__')
            if m is not X.ABSENT and o in ('Eq', 'NotEq'):
                r = I.call(X.BoundV(a, m), [b], {})
                return r if o == 'Eq' else I.unop('Not', r)
        if o in ('Eq', 'NotEq'):
            r = a is b or (isinstance(a, X.Ref) and a == b)
            return r if o == 'Eq' else not r
        err('TypeError', 'unorderable')
    if not isarr(a) and not isarr(b) and (islist(a) or islist(b)):
        if o in ('Eq', 'NotEq'):
            return o == 'NotEq'
        err('TypeError', 'unorderable')
    A, B = I.to_arr(a), I.to_arr(b)
    if (A.kind == 'c' or B.kind == 'c') and op not in ('==', '!='):
        if A.wk and B.wk:
            err('TypeError', 'ordering of complex')
    r = ew(lambda x, y: ir.cmp(op, x, y), A, B, kind='b')
    if r.ndim == 0 and A.wk and B.wk:
        bv = ir.bval(r.at(()))
        if bv is not None:
            return bv
    return I.arr(r)


def dim_compare(I, op, a, b):
    da, db = undim(a), undim(b)
    if da == db:
        return op in ('==', '<=', '>=')
    I.assumptions.add("array extents are generic (larger than any literal and pairwise distinct)")
    if op == '==':
        return False
    if op == '!=':
        return True
    if isinstance(da, int):
        return op in ('<', '<=')
    if isinstance(db, int):
        return op in ('>', '>=')
    if isinstance(da, tuple) and da[0] == 'add' and da[1] == db:
        return ir._CMP[op](da[2], 0)
    if isinstance(db, tuple) and db[0] == 'add' and db[1] == da:
        return ir._CMP[op](0, db[2])
    raise Unsupported("ordering of symbolic extents")


def seq_compare(I, o, a, b):
    def items(v):
        if isinstance(v, tuple):
            return v
        if islist(v):
            return I.heap[v.id]
        return None
    ia, ib = items(a), items(b)
    if type(a) is not type(b) or ia is None or ib is None:
        if o in ('Eq', 'NotEq'):
            return o == 'NotEq'
        err('TypeError', 'unorderable')
    if o in ('Eq', 'NotEq'):
        if len(ia) != len(ib):
            return o == 'NotEq'
        acc = ir.const(True)
        for x, y in zip(ia, ib):
            t = I.truth(I.compare('Eq', x, y))
            acc = ir.and_(acc, ir.const(t) if isinstance(t, bool) else t)
        if o == 'NotEq':
            acc = ir.not_(acc)
        return bool_arr(I, acc)
    if all(isinstance(x, int) for x in ia + ib):
        return {'<': ia < ib, '<=': ia <= ib, '>': ia > ib, '>=': ia >= ib}[_OPS[o]]
    raise Unsupported("sequence ordering")


def contains(I, a, b):
    if isinstance(b, str):
        if isinstance(a, str):
            return a in b
        if isinstance(a, X.StrV):
            return False
        err('TypeError', "'in <string>'")
    if isdict(b):
        return I.hkey(a) in I.heap[b.id]
    if isinstance(b, X.ExtMeth):
        if b.name == '__dict__':
            return a in I.heap[b.obj.id]
    if isinstance(b, list):
        b = tuple(b)
    if isinstance(b, tuple) or islist(b):
        it = b if isinstance(b, tuple) else I.heap[b.id]
        acc = ir.const(False)
        for x in it:
            if isinstance(x, (str, X.StrV)) and not isinstance(a, (str, X.StrV)):
                if isarr(a) and I.rd(a).ndim:
                    continue
                continue
            if x is None or a is None:
                if x is a:
                    return True
                continue
            t = I.truth(I.compare('Eq', a, x))
            if t is True:
                return True
            acc = ir.or_(acc, ir.const(t) if isinstance(t, bool) else t)
        return bool_arr(I, acc)
    if isinstance(b, X.OpaqueV):
        return X.OpaqueV('in')
    if isarr(b):
        r = I.compare('Eq', b, a)
        if isinstance(r, bool):
            return r
        return bool_arr(I, reduce_(I.rd(r), None, False, 'any').at(()))
    raise Unsupported("membership")


# ------------------------------------------------------------------ attributes
ARR_METHODS = {
    'any', 'all', 'sum', 'prod', 'mean', 'min', 'max', 'nonzero', 'reshape', 'ravel', 'flatten', 'copy', 'astype', 'squeeze',
    'transpose', 'dot', 'conj', 'conjugate', 'tolist', 'item', 'fill', 'repeat', 'swapaxes', 'round', 'cumsum',
    'clip', 'nonzero', 'sort', 'argmin', 'argmax', 'view', 'put', 'resize', 'setflags', 'is_integer', 'std', 'var',
    'itemset', 'take', 'trace', 'diagonal', 'cumprod', '__len__', '__getitem__', '__setitem__', '__iter__',
    '__add__', '__mul__', '__sub__', '__truediv__', '__array__', 'argsort', 'tobytes', 'byteswap', '__abs__',
}


def arr_attr(I, ref, name):
    a = I.rd(ref)
    if name == 'shape':
        if a.wk:
            err('AttributeError', f"'float' object has no attribute '{name}'")
        return tuple(dimval(d) for d in a.shape)
    if name in ('ndim', 'size', 'dtype', 'T', 'flat', 'nbytes', 'itemsize', 'flags', 'strides') and a.wk:
        err('AttributeError', f"'float' object has no attribute '{name}'")
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return dimval(dim_prod(a.shape))
    if name == 'dtype':
        return X.ExtV('dtype:' + a.kind)
    if name == 'T':
        return X.Ref('arr', ref.id, ref.path + (('T', None),))
    if name == 'real':
        if a.kind != 'c':
            return ref
        return X.Ref('arr', ref.id, ref.path + (('real',),))
    if name == 'imag':
        if a.kind != 'c':
            return I.arr(filled(a.shape, 0, a.kind))
        return X.Ref('arr', ref.id, ref.path + (('imag',),))
    if name in ARR_METHODS:
        return X.ExtMeth(ref, name)
    if name in ('flags', 'base', 'strides', 'flat', 'data', 'nbytes', 'itemsize'):
        return X.OpaqueV('ndarray.' + name)
    err('AttributeError', f"ndarray has no attribute '{name}'")


def num_attr(I, v, name):
    if name == 'real':
        if isinstance(v, GQ):
            return v.re
        return v
    if name == 'imag':
        if isinstance(v, GQ):
            return v.im
        return 0
    if name in ('conjugate', 'is_integer', 'bit_length', 'as_integer_ratio', '__class__', 'item'):
        return X.ExtMeth(v, name)
    if name == 'denominator' or name == 'numerator':
        raise Unsupported(name)
    err('AttributeError', f"number has no attribute '{name}'")


def opaque_attr(I, v, name):
    return X.OpaqueV(v.name + '.' + name, v.deps)


def opaque_item(I, v, ix):
    return X.OpaqueV(v.name + '[]', v.deps)


def call_opaque(I, f, args, kwargs):
    return X.OpaqueV(f.name + '()', f.deps)


# ------------------------------------------------------------------ helpers
def as_int(I, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isarr(v):
        a = I.rd(v)
        if a.ndim == 0:
            c = ir.cval(a.at(()))
            if isinstance(c, Fraction) and c.denominator == 1:
                return int(c)
    raise Unsupported(f"integer argument {v!r}")


def axis_arg(I, v):
    if v is None:
        return None
    if isinstance(v, tuple) or islist(v):
        return tuple(as_int(I, x) for x in I.iterate(v))
    return as_int(I, v)


def shape_arg(I, v):
    if isinstance(v, (int, DimV)) and not isinstance(v, bool):
        return (undim(v),)
    if isarr(v):
        a = I.rd(v)
        if a.ndim == 0:
            return (as_int(I, v),)
    out = []
    for x in I.iterate(v):
        if isinstance(x, DimV):
            out.append(x.d)
        else:
            out.append(as_int(I, x))
    return tuple(out)


def view(ref, step):
    return X.Ref('arr', ref.id, ref.path + (step,))


def as_ref(I, v):
    """Array reference of v (fresh cell unless v already is an array)."""
    if isarr(v) and not I.rd(v).wk:
        return v
    a = I.to_arr(v)
    return I.arr(Arr(a.shape, a.fn, a.kind))


def asarray(I, v, dtype=None, copy=None):
    k = dtype_kind(dtype)
    if lossy32(dtype):
        q = I.to_arr(v)
        return I.arr(single(Arr(q.shape, q.fn, promote('f', q.kind))))
    if isarr(v) and not I.rd(v).wk:
        a = I.rd(v)
        if (k is None or k == a.kind) and not copy:
            return v
        if k is not None and ORD[k] < ORD[a.kind]:
            if k in ('f', 'i') and a.kind == 'c':
                err('TypeError', 'cannot convert complex to float')   # ComplexWarning: value lost
            I.event('lossy', k, a.kind)
        b = cast(a, k)
        return I.arr(Arr(b.shape, b.fn, b.kind))
    if isobj(v):
        m = I.class_lookup(I.heap[v.id]['__class__'], '__array__')
        if m is X.ABSENT:
            err('TypeError', 'object cannot be converted to array')
    if isinstance(v, (str, X.StrV)):
        if k in ('f', 'i', 'c', 'b'):
            err('ValueError', 'could not convert string to float')
        return X.OpaqueV('strarray')
    if v is None:
        if k == 'f':
            n = ir.G.mk('const', 'nan')
            return I.arr(Arr((), lambda idx: n, 'f'))
        if k is not None:
            err('TypeError', 'None')
        return X.OpaqueV('nonearray')
    if isdict(v):
        if k is not None:
            err('TypeError', 'float() argument must be a real number, not dict')
        return X.OpaqueV('dictarray')
    if isinstance(v, X.OpaqueV):
        return X.OpaqueV('array', v.deps)
    if islist(v) or isinstance(v, tuple):
        flat = flatten(I, v)
        if any(isinstance(x, (str, X.StrV)) for x in flat):
            if k is not None:
                err('ValueError', 'could not convert string')
            return X.OpaqueV('strarray')
        if any(isinstance(x, X.OpaqueV) for x in flat):
            return X.OpaqueV('array')
        if any(x is None or isdict(x) for x in flat):
            if k is not None and not any(isdict(x) for x in flat) and k == 'f':
                raise Unsupported("None in array")
            err('TypeError', 'object array')
    a = I.to_arr(v)
    if k is not None and ORD[k] < ORD[a.kind]:
        if a.kind == 'c' and k != 'b':
            err('TypeError', 'cannot convert complex to float')
        I.event('lossy', k, a.kind)
    b = cast(a, k)
    return I.arr(Arr(b.shape, b.fn, b.kind))


def flatten(I, v):
    out = []
    for x in I.iterate(v):
        if isinstance(x, tuple) or islist(x):
            out.extend(flatten(I, x))
        else:
            out.append(x)
    return out


def garbage(like):
    """Elements that numpy leaves uninitialised."""
    return Arr(like.shape, lambda idx: ir.unk('uninitialised', str(idx)), like.kind)


def pick(args, kwargs, names, defaults=None):
    out = []
    for i, n in enumerate(names):
        if i < len(args):
            out.append(args[i])
        elif n in kwargs:
            out.append(kwargs.pop(n))
        else:
            out.append((defaults or {}).get(n))
    return out


def red(I, v, how, args, kwargs):
    if isinstance(v, (X.OpaqueV,)):
        return X.OpaqueV(how)
    axis, _dt, _out, keep = pick(args, kwargs, ['axis', 'dtype', 'out', 'keepdims']) if how not in ('any', 'all', 'max', 'min') \
        else pick(args, kwargs, ['axis', 'out', '_', 'keepdims'])
    a = I.to_arr(v)
    if how in ('any', 'all') and a.kind != 'b':
        a = ew(lambda x: ir.cmp('!=', x, ir.const(0)), a, kind='b')
    if how == 'mean':
        r = reduce_(cast(a, promote('f', a.kind)), axis_arg(I, axis), bool(keep), 'sum')
        ax = axis_arg(I, axis)
        axs = range(a.ndim) if ax is None else (ax if isinstance(ax, tuple) else (ax,))
        d = dim_prod([a.shape[k] for k in axs])
        dn = ir.const(d) if isinstance(d, int) else ir.sym('dim:' + str(d))
        r = ew(lambda x: ir.div(x, dn), r, kind=promote('f', a.kind))
    else:
        r = reduce_(a, axis_arg(I, axis), bool(keep), how)
    if r.ndim == 0:
        e = r.at(())
        bv = ir.bval(e)
        if bv is not None:
            return bv
    return I.arr(r)


def cumsum(I, v, axis=None):
    a = I.to_arr(v)
    if axis is None:
        if a.ndim > 1:
            raise Unsupported("flattened cumsum")
        axis = 0
    axis %= max(a.ndim, 1)
    if not isinstance(a.shape[axis], int):
        def f(idx):
            return ir.unk('cumsum', a.at(idx))
        raise Unsupported("cumsum over symbolic axis")

    def f(idx):
        k = idx[axis]
        if not isinstance(k, int):
            raise Unsupported("cumsum index")
        acc = None
        for j in range(k + 1):
            e = a.at(idx[:axis] + (j,) + idx[axis + 1:])
            acc = e if acc is None else ir.add(acc, e)
        return acc
    return I.arr(Arr(a.shape, f, a.kind if a.kind != 'b' else 'i'))


def diff(I, v, axis=-1):
    a = I.to_arr(v)
    axis %= a.ndim
    hi = [Sl(None, None, None)] * a.ndim
    lo = list(hi)
    hi[axis] = Sl(1, None, None)
    lo[axis] = Sl(None, -1, None)
    return I.arr(ew(ir.sub, getitem(a, tuple(hi)), getitem(a, tuple(lo))))


def quat_matrix(q):
    """3x3 rotation matrix of the normalised quaternion (x, y, z, w)."""
    def el(k):
        return q.at((k,))

    def build():
        x, y, z, w = (el(k) for k in range(4))
        m = ir.mul
        n2 = None
        for c in (x, y, z, w):
            t = m(c, c)
            n2 = t if n2 is None else ir.add(n2, t)
        two = ir.const(2)

        def off(p, qq, s):
            t = ir.add(p, qq) if s > 0 else ir.sub(p, qq)
            return ir.div(m(two, t), n2)

        def dia(p, qq):
            return ir.sub(ir.const(1), ir.div(m(two, ir.add(p, qq)), n2))
        return [
            [dia(m(y, y), m(z, z)), off(m(x, y), m(z, w), -1), off(m(x, z), m(y, w), 1)],
            [off(m(x, y), m(z, w), 1), dia(m(x, x), m(z, z)), off(m(y, z), m(x, w), -1)],
            [off(m(x, z), m(y, w), -1), off(m(y, z), m(x, w), 1), dia(m(x, x), m(y, y))],
        ]
    mat = build()
    return Arr((3, 3), lambda idx: mat[idx[0]][idx[1]], 'f')


def tile(I, v, reps):
    a = I.to_arr(v)
    reps = list(shape_arg(I, reps))
    n = max(a.ndim, len(reps))
    reps = [1] * (n - len(reps)) + reps
    sh = (1,) * (n - a.ndim) + a.shape
    b = reshape(a, sh) if sh != a.shape else a
    out = []
    for d, r in zip(sh, reps):
        out.append(r if d == 1 else d if r == 1 else ('bad',))
    if ('bad',) in out:
        # int * int repeats
        out = []
        for d, r in zip(sh, reps):
            if d == 1:
                out.append(r)
            elif r == 1:
                out.append(d)
            elif isinstance(d, int) and isinstance(r, int):
                out.append(d * r)
            else:
                raise Unsupported("tile")

        def f(idx):
            return b.at(tuple(0 if d == 1 else (i if r == 1 else i % d) for i, d, r in zip(idx, sh, reps)))
        return I.arr(Arr(tuple(out), f, b.kind))
    return I.arr(Arr(tuple(out), lambda idx: b.at(tuple(0 if d == 1 else i for i, d in zip(idx, sh))), b.kind))


def index_trick(I, ix, col):
    items = ix if isinstance(ix, tuple) else (ix,)
    axis_str = None
    arrs = []
    for it in items:
        if isinstance(it, str):
            raise Unsupported("string in index trick")
        if isinstance(it, Sl):
            a, b, s = it.a or 0, it.b, 1 if it.s is None else it.s
            if isinstance(s, GQ):
                n = int(abs(s.im))
                arrs.append(I.to_arr(call_ext(I, 'numpy.linspace', [a, b, n], {})))
                continue
            arrs.append(I.to_arr(call_ext(I, 'numpy.arange', [a, b, s], {})))
            continue
        arrs.append(I.to_arr(it))
    if col:
        arrs = [getitem(getitem(a, (None,)), (Ellipsis, None)) if a.ndim == 0 else getitem(a, (Ellipsis, None)) if a.ndim == 1 else a
                for a in arrs]
        return I.arr(concatenate(arrs, -1))
    arrs = [getitem(a, (None,)) if a.ndim == 0 else a for a in arrs]
    return I.arr(concatenate(arrs, 0))


def pyscalar(I, v, k, name):
    """float()/int()/complex() of v."""
    if isinstance(v, (str,)):
        try:
            x = {'f': float, 'i': int, 'c': complex}[k](v)
        except ValueError:
            err('ValueError', f'could not convert string to {name}')
        if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
            n = ir.G.mk('const', 'nan' if x != x else 'inf')
            return I.arr(Arr((), lambda idx: n, 'f', wk=True))
        return ir.lit(x) if not isinstance(x, int) else x
    if isinstance(v, X.StrV):
        err('ValueError', f'could not convert string to {name}')
    if isinstance(v, X.OpaqueV):
        return X.OpaqueV(name, v.deps)
    if v is None or isinstance(v, tuple) or (isinstance(v, X.Ref) and v.kind != 'arr') or \
            isinstance(v, (X.ClassV, X.FuncV, X.ExtV, X.ModV)):
        if isobj(v):
            m = I.class_lookup(I.heap[v.id]['__class__'], f'__{name}__')
            if m is not X.ABSENT:
                return I.call(X.BoundV(v, m), [], {})
        err('TypeError', f'{name}() argument must be a string or a number')
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {'f': Fraction(v), 'i': v, 'c': GQ(v)}[k]
    if isinstance(v, Fraction):
        return {'f': v, 'i': int(v) if k == 'i' else 0, 'c': GQ(v)}[k]
    if isinstance(v, GQ):
        if k == 'c':
            return v
        err('TypeError', f"{name}() argument must be real, not complex")
    if isinstance(v, DimV):
        if k == 'i':
            return v
        return I.arr(cast(I.to_arr(v), k))
    a = I.to_arr(v)
    if any(d != 1 for d in a.shape):
        err('TypeError', 'only length-1 arrays can be converted to Python scalars')
    if a.ndim > 0:
        err('TypeError', 'only 0-dimensional arrays can be converted to Python scalars')
    if a.kind == 'c' and k != 'c':
        err('TypeError', f"{name}() argument must be real, not complex")
    if a.kind == 'b':
        a = ew(lambda x: ir.gate(x, ir.const(1), ir.const(0)), a, kind='i')
    e = a.at((0,) * a.ndim)
    if k == 'i' and a.kind == 'f':
        e = ir.fn('cast_i', e)
    return I.arr(Arr((), lambda idx: e, k, wk=True))


def type_of(I, v):
    if isinstance(v, bool):
        return X.ExtV('builtins.bool')
    if isinstance(v, int):
        return X.ExtV('builtins.int')
    if isinstance(v, Fraction):
        return X.ExtV('builtins.float')
    if isinstance(v, GQ):
        return X.ExtV('builtins.complex')
    if isinstance(v, (str, X.StrV)):
        return X.ExtV('builtins.str')
    if v is None:
        return X.ExtV('builtins.NoneType')
    if isinstance(v, tuple):
        return X.ExtV('builtins.tuple')
    if isinstance(v, X.Ref):
        if v.kind == 'list':
            return X.ExtV('builtins.list')
        if v.kind == 'dict':
            return X.ExtV('builtins.dict')
        if v.kind == 'obj':
            return I.heap[v.id]['__class__']
        if v.kind == 'arr':
            a = I.rd(v)
            if a.wk:
                return X.ExtV('builtins.' + {'f': 'float', 'i': 'int', 'c': 'complex', 'b': 'bool'}[a.kind])
            if a.ndim == 0:
                return X.ExtV('numpy.' + {'f': 'float64', 'i': 'int64', 'c': 'complex128', 'b': 'bool_'}[a.kind])
            return X.ExtV('numpy.ndarray')
    if isinstance(v, X.RotV):
        return X.ExtV('scipy.spatial.transform.Rotation')
    if type(v).__name__ == 'datetime':
        return X.ExtV('datetime.datetime')
    if isinstance(v, DimV):
        return X.ExtV('builtins.int')
    if isinstance(v, (X.FuncV, X.BoundV)):
        return X.ExtV('types.FunctionType')
    if isinstance(v, X.ClassV):
        return X.ExtV('builtins.type')
    raise Unsupported(f"type of {v!r}")


_SUB = {
    'builtins.bool': {'builtins.int', 'numbers.Number', 'numbers.Integral', 'numbers.Real'},
    'builtins.int': {'numbers.Number', 'numbers.Integral', 'numbers.Real', 'numbers.Complex'},
    'builtins.float': {'numbers.Number', 'numbers.Real', 'numbers.Complex'},
    'builtins.complex': {'numbers.Number', 'numbers.Complex'},
    'numpy.float64': {'builtins.float', 'numpy.floating', 'numpy.number', 'numpy.generic', 'numbers.Number', 'numbers.Real', 'numbers.Complex'},
    'numpy.int64': {'numpy.integer', 'numpy.number', 'numpy.generic', 'numbers.Number', 'numbers.Integral', 'numbers.Real'},
    'numpy.complex128': {'builtins.complex', 'numpy.complexfloating', 'numpy.number', 'numpy.generic', 'numbers.Number', 'numbers.Complex'},
    'numpy.bool_': {'numpy.generic'},
    'builtins.list': {'collections.abc.Sequence', 'collections.abc.Iterable', 'typing.Sequence', 'typing.Iterable'},
    'builtins.tuple': {'collections.abc.Sequence', 'collections.abc.Iterable', 'typing.Sequence', 'typing.Iterable'},
    'numpy.ndarray': {'collections.abc.Iterable'},
    'builtins.dict': {'collections.abc.Mapping', 'collections.abc.Iterable'},
    'builtins.str': {'collections.abc.Sequence', 'collections.abc.Iterable'},
}


def isinstance_(I, v, t):
    ts = I.iterate(t) if isinstance(t, tuple) else [t]
    if isinstance(v, X.OpaqueV):
        return X.OpaqueV('isinstance')
    if isinstance(v, X.ChoiceV):
        return I.lift(v, lambda x: isinstance_(I, x, t))
    tv = type_of(I, v)
    for c in ts:
        if isinstance(c, tuple):
            if isinstance_(I, v, c):
                return True
            continue
        if isinstance(tv, X.ClassV):
            if isinstance(c, X.ClassV) and c in tv.mro:
                return True
            if isinstance(c, X.ExtV) and c.name == 'builtins.object':
                return True
            continue
        if isinstance(c, X.ExtV):
            if c.name == 'builtins.object' or c.name == tv.name or c.name in _SUB.get(tv.name, ()):
                return True
    return False


# ------------------------------------------------------------------ calls
EXC = {'ValueError', 'TypeError', 'Exception', 'RuntimeError', 'NotImplementedError', 'AttributeError', 'IndexError',
       'KeyError', 'ImportError', 'ModuleNotFoundError', 'AssertionError', 'ZeroDivisionError', 'OSError', 'IOError',
       'ArithmeticError', 'Warning', 'UserWarning', 'DeprecationWarning', 'FutureWarning', 'RuntimeWarning',
       'StopIteration', 'LookupError', 'NameError', 'OverflowError', 'FloatingPointError'}


def call_ext(I, name, args, kwargs):
    # gated arguments: distribute unless numeric
    for i, a in enumerate(args):
        if isinstance(a, X.ChoiceV):
            return I.lift(a, lambda x: call_ext(I, name, args[:i] + [x] + args[i + 1:], kwargs))
    for k, a in list(kwargs.items()):
        if isinstance(a, X.ChoiceV):
            return I.lift(a, lambda x: call_ext(I, name, args, {**kwargs, k: x}))
    parts = name.split('.')
    top, last = parts[0], parts[-1]
    for k in range(len(parts), 0, -1) if I.stubs else ():
        st = I.stubs.get('.'.join(parts[:k]))
        if st is not None:
            return st(I, name, args, kwargs)
    if top == 'numpy' and any(isinstance(a, X.MaskV) for a in args):
        args = [a.data if isinstance(a, X.MaskV) else a for a in args]
    if top == 'builtins':
        return call_builtin(I, name[len('builtins.'):], args, kwargs)
    if name.startswith('dtype:'):
        return X.OpaqueV('dtype()')
    if top in ('numpy', 'math', 'scipy', 'cmath'):
        if name.startswith('numpy.ma.') or name.startswith('numpy.random.'):
            return X.OpaqueV(name)
        r = call_np(I, name, last, args, kwargs)
        if r is not NotImplemented:
            return r
    if top == 'warnings' or name == 'builtins.print':
        if last == 'warn':
            return None
    if top == 'functools':
        if last == 'partial':
            return ('partial', args[0], tuple(args[1:]), kwargs)
        if last == 'reduce':
            seq = I.iterate(args[1])
            acc = args[2] if len(args) > 2 else seq.pop(0)
            for x in seq:
                acc = I.call(args[0], [acc, x], {})
            return acc
        if last in ('lru_cache', 'cache'):
            if args and isinstance(args[0], (X.FuncV,)):
                return X.MemoV(args[0], I.new('dict', {}).id)
            return X.OpaqueV('functools.lru_cache')
        if last == 'wraps':
            return X.OpaqueV('functools.wraps')
        if last == 'cached_property':
            return X.PropV(args[0], cached=True, name=getattr(args[0], 'name', None))
    if top == 'copy' and last in ('copy', 'deepcopy'):
        return copy_value(I, args[0], last == 'deepcopy')
    if top == 'operator':
        ops = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow', 'matmul': 'MatMult'}
        if last in ops:
            return I.binop(ops[last], *args)
        if last == 'attrgetter':
            return lambda I_, a, k: I_.getattr(a[0], args[0])
        if last == 'itemgetter':
            return lambda I_, a, k: I_.getitem(a[0], args[0])
        if last == 'neg':
            return I.unop('USub', args[0])
    if top == 'itertools':
        if last == 'product':
            import itertools
            rep = kwargs.get('repeat', 1)
            return [tuple(t) for t in itertools.product(*[I.iterate(a) for a in args], repeat=rep)]
        if last == 'chain':
            out = []
            for a in args:
                out.extend(I.iterate(a))
            return out
        if last in ('permutations', 'combinations'):
            import itertools
            return [tuple(t) for t in getattr(itertools, last)(I.iterate(args[0]), *args[1:])]
    if name == 'utm.to_latlon':        # geodesy: uninterpreted
        names = ['easting', 'northing', 'zone_number', 'zone_letter', 'northern']
        kw = dict(zip(names, args), **kwargs)
        vs = [I.to_arr(kw[n]) for n in names if kw.get(n) is not None]
        return tuple(I.arr(ew(lambda *a, q=q: ir.unk('utm_' + q, *a), *vs, kind='f')) for q in ('lat', 'lon'))
    if name == 'datetime.datetime.strptime' and all(isinstance(a, str) for a in args):
        import datetime
        try:
            return datetime.datetime.strptime(*args)
        except ValueError as e:
            err('ValueError', str(e))
    if name == 'libdlf.hankel.key_101_2009' or name.startswith('libdlf.'):
        return tuple(I.arr(leaf(f'hankel_{k}', ('H',))) for k in ('base', 'j0', 'j1'))
    if last in EXC:
        return X.OpaqueV('exc:' + last)
    I.ext_unknown[name] = I.ext_unknown.get(name, 0) + 1
    # an unmodelled callee may write to the mutable arguments it gets
    return X.OpaqueV(name, ())


def copy_value(I, v, deep):
    if isarr(v):
        a = I.rd(v)
        return I.arr(Arr(a.shape, a.fn, a.kind, wk=a.wk))
    if islist(v):
        return I.new('list', tuple(copy_value(I, x, deep) if deep else x for x in I.heap[v.id]))
    if isdict(v):
        return I.new('dict', {k: copy_value(I, x, deep) if deep else x for k, x in I.heap[v.id].items()})
    if isobj(v):
        return I.new('obj', {k: copy_value(I, x, deep) if deep and k != '__class__' else x for k, x in I.heap[v.id].items()})
    if isinstance(v, tuple):
        return tuple(copy_value(I, x, deep) if deep else x for x in v)
    return v


def call_builtin(I, n, args, kwargs):
    if n == 'len':
        v = args[0]
        if isinstance(v, (tuple, str, list)):
            return len(v)
        if islist(v) or isdict(v):
            return len(I.heap[v.id])
        if isarr(v):
            a = I.rd(v)
            if a.ndim == 0:
                err('TypeError', 'len() of unsized object')
            return dimval(a.shape[0])
        if isobj(v):
            m = I.class_lookup(I.heap[v.id]['__class__'], '__len__')
            if m is not X.ABSENT:
                return I.call(X.BoundV(v, m), [], {})
            err('TypeError', 'no len()')
        if isinstance(v, X.OpaqueV):
            return X.OpaqueV('len')
        if isinstance(v, X.StrV):
            raise Unsupported("len of unknown string")
        err('TypeError', 'object has no len()')
    if n == 'range':
        if any(isinstance(a, DimV) for a in args):
            raise Unsupported("range over a symbolic extent")
        return list(range(*[as_int(I, a) for a in args]))
    if n == 'enumerate':
        st = as_int(I, args[1] if len(args) > 1 else kwargs.get('start', 0))
        return [(i + st, v) for i, v in enumerate(I.iterate(args[0]))]
    if n == 'zip':
        return [tuple(t) for t in zip(*[I.iterate(a) for a in args])]
    if n == 'abs':
        v = args[0]
        if isinstance(v, (int, Fraction)):
            return abs(v)
        a = I.to_arr(v)
        return I.arr(ew(absnode, a, kind='f' if a.kind == 'c' else a.kind))
    if n in ('min', 'max'):
        items = I.iterate(args[0]) if len(args) == 1 else args
        if 'key' in kwargs:
            raise Unsupported("min/max key")
        if all(isinstance(x, (int, Fraction)) for x in items):
            return min(items) if n == 'min' else max(items)
        acc = I.to_arr(items[0])
        for x in items[1:]:
            acc = ew(minn if n == 'min' else maxn, acc, I.to_arr(x))
        return I.arr(acc)
    if n == 'sum':
        acc = args[1] if len(args) > 1 else kwargs.get('start', 0)
        for x in I.iterate(args[0]):
            acc = I.binop('Add', acc, x)
        return acc
    if n in ('any', 'all'):
        acc = ir.const(n == 'all')
        for x in I.iterate(args[0]):
            t = I.truth(x)
            t = ir.const(t) if isinstance(t, bool) else t
            acc = ir.and_(acc, t) if n == 'all' else ir.or_(acc, t)
        return bool_arr(I, acc)
    if n == 'isinstance':
        return isinstance_(I, args[0], args[1])
    if n == 'issubclass':
        a, b = args
        bs = b if isinstance(b, tuple) else (b,)
        if isinstance(a, X.ClassV):
            return any(x in a.mro for x in bs if isinstance(x, X.ClassV))
        raise Unsupported("issubclass")
    if n == 'hasattr':
        try:
            I.getattr(args[0], args[1])
            return True
        except X.AbsRaise as e:
            if e.exc == 'AttributeError':
                return False
            raise
    if n == 'getattr':
        if not isinstance(args[1], str):
            raise Unsupported("getattr with unknown name")
        if len(args) > 2:
            try:
                return I.getattr(args[0], args[1])
            except X.AbsRaise as e:
                if e.exc == 'AttributeError':
                    return args[2]
                raise
        return I.getattr(args[0], args[1])
    if n == 'setattr':
        if not isinstance(args[1], str):
            raise Unsupported("setattr with unknown name")
        I.setattr(args[0], args[1], args[2])
        return None
    if n == 'delattr':
        raise Unsupported("delattr")
    if n == 'type':
        if len(args) == 1:
            return type_of(I, args[0])
        raise Unsupported("type()")
    if n == 'print':
        return None
    if n in ('str', 'repr', 'format', 'ascii', 'chr', 'bin', 'hex'):
        if n == 'str' and args and isinstance(args[0], (str, int)) and not isinstance(args[0], bool):
            return str(args[0])
        return X.StrV(n)
    if n == 'float':
        return pyscalar(I, args[0], 'f', 'float') if args else Fraction(0)
    if n == 'int':
        return pyscalar(I, args[0], 'i', 'int') if args else 0
    if n == 'complex':
        if len(args) == 2:
            return I.binop('Add', args[0], I.binop('Mult', GQ(0, 1), args[1]))
        return pyscalar(I, args[0], 'c', 'complex')
    if n == 'bool':
        t = I.truth(args[0]) if args else False
        return t if isinstance(t, bool) else bool_arr(I, t)
    if n == 'list':
        return I.new('list', tuple(I.iterate(args[0])) if args else ())
    if n in ('tuple', 'set', 'frozenset'):
        return tuple(I.iterate(args[0])) if args else ()
    if n == 'dict':
        d = {}
        if args:
            if isdict(args[0]):
                d.update(I.heap[args[0].id])
            else:
                for kv in I.iterate(args[0]):
                    k, v = I.iterate(kv)
                    d[I.hkey(k)] = v
        d.update(kwargs)
        return I.new('dict', d)
    if n == 'sorted':
        it = I.iterate(args[0])
        if all(isinstance(x, (int, Fraction)) for x in it) or all(isinstance(x, str) for x in it):
            if 'key' in kwargs:
                raise Unsupported("sorted key")
            return I.new('list', tuple(sorted(it, reverse=bool(kwargs.get('reverse', False)))))
        raise Unsupported("sorted")
    if n == 'reversed':
        return list(reversed(I.iterate(args[0])))
    if n == 'map':
        seqs = [I.iterate(a) for a in args[1:]]
        return [I.call(args[0], list(t), {}) for t in zip(*seqs)]
    if n == 'filter':
        out = []
        for x in I.iterate(args[1]):
            t = I.truth(I.call(args[0], [x], {}) if args[0] is not None else x)
            if not isinstance(t, bool):
                raise Unsupported("filter")
            if t:
                out.append(x)
        return out
    if n == 'iter':
        return list(I.iterate(args[0]))
    if n == 'callable':
        return isinstance(args[0], (X.FuncV, X.BoundV, X.ClassV, X.ExtV, X.ExtMeth)) or callable(args[0])
    if n == 'property':
        return X.PropV(args[0] if args else kwargs.get('fget'), args[1] if len(args) > 1 else kwargs.get('fset'))
    if n == 'staticmethod':
        return X.StaticV(args[0])
    if n == 'classmethod':
        return X.StaticV(args[0], cls=True)
    if n == 'object':
        raise Unsupported("object()")
    if n == 'object.__init__':
        if kwargs or len(args) > 1:
            raise X.AbsRaise('TypeError', "object.__init__() takes exactly one argument (the instance to initialize)", ir.G.loc)
        return None
    if n == 'object.__setattr__':
        I.setattr(args[0], args[1], args[2], raw=True)
        return None
    if n == 'object.__getattribute__':
        return I.obj_getattr(args[0], args[1])
    if n == 'slice':
        a = [None if x is None else as_int(I, x) for x in args]
        if len(a) == 1:
            return Sl(None, a[0], None)
        return Sl(*(a + [None] * (3 - len(a))))
    if n == 'pow':
        return I.binop('Pow', args[0], args[1])
    if n == 'round':
        if isinstance(args[0], int):
            return args[0]
        a = I.to_arr(args[0])
        return I.arr(ew(lambda x: ir.fn('rint', x), a))
    if n == 'id':
        return X.OpaqueV('id')
    if n == 'hash':
        return X.OpaqueV('hash')
    if n == 'NotImplemented':
        raise Unsupported("NotImplemented")
    if n.split('.')[-1] in EXC:
        return X.OpaqueV('exc:' + n.split('.')[-1])
    if n.startswith('dict.') or n.startswith('list.') or n.startswith('str.'):
        return call_meth(I, args[0], n.split('.')[-1], args[1:], kwargs)
    I.ext_unknown['builtins.' + n] = I.ext_unknown.get('builtins.' + n, 0) + 1
    return X.OpaqueV('builtins.' + n)


def has_opaque(I, args, kwargs):
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, X.OpaqueV):
            return True
        if islist(a) or isinstance(a, tuple):
            try:
                if any(isinstance(x, X.OpaqueV) for x in flatten(I, a)):
                    return True
            except (Unsupported, X.AbsRaise):
                pass
    return False


def finish(I, r, out):
    """Deliver an elementwise result, honouring out=."""
    if out is None:
        return I.arr(r)
    if isinstance(out, tuple):
        out = out[0]
    tgt = I.rd(out)
    if r.shape != tgt.shape:
        r = broadcast_to(r, tgt.shape)
    if ORD[r.kind] > ORD[tgt.kind]:
        err('TypeError', 'cannot cast ufunc output')
    I.wr(out, r)
    return out


def call_np(I, name, last, args, kwargs):
    opaque = has_opaque(I, args, kwargs)
    if opaque and last not in ('array', 'asarray', 'errstate'):
        return X.OpaqueV(name)
    if name.startswith('scipy.spatial.transform.Rotation'):
        return rot_ctor(I, last, args, kwargs)
    if name.startswith('scipy.interpolate') or name.startswith('scipy.integrate') or name.startswith('scipy.optimize'):
        return NotImplemented
    kw = dict(kwargs)
    sub = name.split('.')
    if last in UNARY and len(args) >= 1:
        out = kw.pop('out', args[1] if len(args) > 1 else None)
        wh = kw.pop('where', None)
        if wh is not None and wh is not True:
            r = UNARY[last](I, args[0])
            w, o = I.to_arr(wh), garbage(r) if out is None else I.rd(out)
            r = ew(ir.gate, w, r, o, kind=promote(r.kind, o.kind))
            return finish(I, r, out)
        if any(isinstance(a, (str, X.StrV)) or a is None for a in args[:1]):
            err('TypeError', f'ufunc {last} not supported')
        return finish(I, UNARY[last](I, args[0]), out)
    if last in BINARY and len(args) >= 2:
        out = kw.pop('out', args[2] if len(args) > 2 else None)
        wh = kw.pop('where', None)
        r = binop_arr(I, BINARY[last], I.to_arr(args[0]), I.to_arr(args[1]))
        if wh is not None and wh is not True:
            o = garbage(r) if out is None else I.rd(out)
            r = ew(ir.gate, I.to_arr(wh), r, o, kind=promote(r.kind, o.kind))
        return finish(I, r, out)
    if last in BIN2 and len(args) >= 2:
        out = kw.pop('out', args[2] if len(args) > 2 else None)
        return finish(I, BIN2[last](I, args[0], args[1]), out)
    h = NPF.get(last)
    if h is not None:
        return h(I, args, kw)
    if last in ('float64', 'float32', 'double'):
        return asarray(I, args[0], X.ExtV('numpy.float32' if last == 'float32' else 'numpy.float64'))
    if last in ('complex128',):
        return asarray(I, args[0], X.ExtV('numpy.complex128'))
    if last in ('int64', 'int32', 'intp'):
        return asarray(I, args[0], X.ExtV('numpy.int64'))
    if last in ('errstate', 'seterr', 'printoptions', 'set_printoptions'):
        return X.OpaqueV(name)
    if last == 'r_':
        return index_trick(I, args[0], False)
    if last == 'c_':
        return index_trick(I, args[0], True)
    return NotImplemented


def rot_ctor(I, last, args, kwargs):
    if last == 'from_matrix':
        a = I.to_arr(args[0])
        if a.shape != (3, 3):
            err('ValueError', 'rotation matrix shape')
        return X.RotV(a)
    if last == 'from_quat':
        a = I.to_arr(args[0])
        if a.shape != (4,):
            err('ValueError', 'quaternion shape')
        return X.RotV(quat_matrix(a))
    if last == 'identity':
        return X.RotV(Arr((3, 3), lambda idx: ir.const(1 if idx[0] == idx[1] else 0), 'f'))
    raise Unsupported(f"Rotation.{last}")


# ---- numpy functions with their own handler
NPF = {}


def npf(*names):
    def d(f):
        for n in names:
            NPF[n] = f
        return f
    return d


@npf('asarray', 'asanyarray', 'asarray_chkfinite')
def _asarray(I, a, k):
    x, dt = pick(a, k, ['a', 'dtype'])
    if x is None and 'object' in k:
        x = k['object']
    return kept(I, asarray(I, x, dt), x, k.get('order', a[2] if len(a) > 2 else None))


def kept(I, r, src, order=None):
    """Result r of copying or converting src: memory order as asked for, or that of the source."""
    if not isarr(r):
        return r
    o = order.upper() if isinstance(order, str) else 'K'
    if o in ('C', 'F'):
        return ordered(I, r, o)
    so = I.rd(src).order if isarr(src) else 'C'
    return r if so in ('C', 'S') else ordered(I, r, so)


def ordered(I, r, order):
    """Array r in the given memory order (a copy unless it already is)."""
    q = I.rd(r)
    if q.order == order or (q.ndim < 2 and q.order != 'S'):
        return r
    n = Arr(q.shape, q.fn, q.kind)
    n.order = order
    return I.arr(n)


@npf('asfortranarray')
def _asfort(I, a, k):
    return ordered(I, _asarray(I, a, k), 'F')


@npf('ascontiguousarray')
def _ascont(I, a, k):
    return ordered(I, _asarray(I, a, k), 'C')


@npf('require')
def _require(I, a, k):
    x, dt, req = pick(a, k, ['a', 'dtype', 'requirements'])
    r = asarray(I, x, dt)
    q = I.heap[req.id] if isinstance(req, X.Ref) else req
    q = [q] if isinstance(q, str) else list(q or ())
    for f in q:
        if not isinstance(f, str):
            raise Unsupported('requirements')
        f = f.upper()
        if f in ('F', 'F_CONTIGUOUS', 'FORTRAN'):
            r = ordered(I, r, 'F')
        elif f in ('C', 'C_CONTIGUOUS', 'CONTIGUOUS'):
            r = ordered(I, r, 'C')
    return r


@npf('array')
def _array(I, a, k):
    x, dt, cp = pick(a, k, ['object', 'dtype', 'copy'])
    ndmin = k.get('ndmin', 0)
    r = asarray(I, x, dt, copy=True)
    if isarr(r) and isinstance(ndmin, int):
        while I.rd(r).ndim < ndmin:
            r = view(r, ('ix', (None,)))
    if isarr(r) and isarr(x) and r.id == x.id and cp is not False:
        q = I.rd(r)
        r = I.arr(Arr(q.shape, q.fn, q.kind))
    return kept(I, r, x, k.get('order'))


@npf('copy')
def _copy(I, a, k):
    q = I.to_arr(a[0])
    return kept(I, I.arr(Arr(q.shape, q.fn, q.kind)), a[0], k.get('order', a[1] if len(a) > 1 else None))


@npf('atleast_1d')
def _al1(I, a, k):
    out = []
    for x in a:
        r = as_ref(I, x)
        out.append(view(r, ('ix', (None,))) if I.rd(r).ndim == 0 else r)
    return out[0] if len(out) == 1 else I.new('list', tuple(out))


@npf('atleast_2d')
def _al2(I, a, k):
    r = as_ref(I, a[0])
    n = I.rd(r).ndim
    if n == 0:
        return view(r, ('ix', (None, None)))
    if n == 1:
        return view(r, ('ix', (None,)))
    return r


@npf('squeeze')
def _squeeze(I, a, k):
    x, ax = pick(a, k, ['a', 'axis'])
    r = as_ref(I, x)
    st = ('squeeze', axis_arg(I, ax))
    squeeze(I.rd(r), st[1])
    return view(r, st)


@npf('reshape')
def _reshape(I, a, k):
    x, sh, order = pick(a, k, ['a', 'shape', 'order'], {'order': 'C'})
    if sh is None:
        sh = k.get('newshape')
    r = as_ref(I, x)
    s = shape_arg(I, sh)
    q = reshape(I.rd(r), s, order or 'C')
    return view(r, ('reshape', q.shape, order or 'C'))


@npf('ravel')
def _ravel(I, a, k):
    x, order = pick(a, k, ['a', 'order'], {'order': 'C'})
    r = as_ref(I, x)
    q = reshape(I.rd(r), (-1,), order)
    return view(r, ('reshape', q.shape, order))


@npf('transpose', 'permute_dims')
def _transpose(I, a, k):
    x, ax = pick(a, k, ['a', 'axes'])
    r = as_ref(I, x)
    return view(r, ('T', None if ax is None else tuple(z % I.rd(r).ndim for z in axis_arg(I, ax))))


@npf('swapaxes')
def _swapaxes(I, a, k):
    r = as_ref(I, a[0])
    n = I.rd(r).ndim
    p, q = as_int(I, a[1]) % n, as_int(I, a[2]) % n
    ax = list(range(n))
    ax[p], ax[q] = ax[q], ax[p]
    return view(r, ('T', tuple(ax)))


@npf('moveaxis')
def _moveaxis(I, a, k):
    x, s, d = pick(a, k, ['a', 'source', 'destination'])
    r = as_ref(I, x)
    n = I.rd(r).ndim
    s = axis_arg(I, s)
    d = axis_arg(I, d)
    s = s if isinstance(s, tuple) else (s,)
    d = d if isinstance(d, tuple) else (d,)
    s = [v % n for v in s]
    d = [v % n for v in d]
    order = [v for v in range(n) if v not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return view(r, ('T', tuple(order)))


@npf('rollaxis')
def _rollaxis(I, a, k):
    raise Unsupported("rollaxis")


@npf('expand_dims')
def _expand(I, a, k):
    x, ax = pick(a, k, ['a', 'axis'])
    r = as_ref(I, x)
    n = I.rd(r).ndim
    ax = axis_arg(I, ax)
    ax = ax if isinstance(ax, tuple) else (ax,)
    m = n + len(ax)
    s = {v % m for v in ax}
    return view(r, ('ix', tuple(None if j in s else Sl(None, None, None) for j in range(m))))


@npf('broadcast_to')
def _bto(I, a, k):
    return I.arr(broadcast_to(I.to_arr(a[0]), shape_arg(I, a[1])))


@npf('broadcast_arrays')
def _barr(I, a, k):
    arrs = [I.to_arr(x) for x in a]
    sh = broadcast_shapes(*[x.shape for x in arrs])
    return tuple(I.arr(broadcast_to(x, sh)) for x in arrs)


@npf('broadcast_shapes')
def _bsh(I, a, k):
    return tuple(dimval(d) for d in broadcast_shapes(*[shape_arg(I, x) for x in a]))


def _mk(v):
    def f(I, a, k):
        sh, dt = pick(a, k, ['shape', 'dtype'])
        kk = dtype_kind(dt) or 'f'
        if v is None:
            n = ir.unk('uninit')
            q = Arr(shape_arg(I, sh), lambda idx: n, kk)
        else:
            q = filled(shape_arg(I, sh), bool(v) if kk == 'b' else v, kk)
        q.lo = lossy32(dt)
        o = k.get('order', a[2] if len(a) > 2 else 'C')
        if isinstance(o, str):
            q.order = o.upper() if o.upper() in 'CF' else 'C'
        return I.arr(q)
    return f


NPF['zeros'] = _mk(0)
NPF['ones'] = _mk(1)
NPF['empty'] = _mk(None)


def _mklike(v):
    def f(I, a, k):
        x, dt, _o, _s, shp = pick(a, k, ['a', 'dtype', 'order', 'subok', 'shape'])
        q = I.to_arr(x)
        kk = dtype_kind(dt) or q.kind
        sh = q.shape if shp is None else shape_arg(I, shp)
        if v is None:
            n = ir.unk('uninit')
            r = Arr(sh, lambda idx: n, kk)
        else:
            r = filled(sh, bool(v) if kk == 'b' else v, kk)
        r.lo = lossy32(dt) or dt is None and q.lo
        return I.arr(r)
    return f


NPF['zeros_like'] = _mklike(0)
NPF['ones_like'] = _mklike(1)
NPF['empty_like'] = _mklike(None)


@npf('full')
def _full(I, a, k):
    sh, v, dt = pick(a, k, ['shape', 'fill_value', 'dtype'])
    q = cast(I.to_arr(v), dtype_kind(dt))
    r = Arr(shape_arg(I, sh), broadcast_to(q, shape_arg(I, sh)).fn, q.kind)
    return I.arr(single(r) if lossy32(dt) else r)


@npf('full_like')
def _full_like(I, a, k):
    x, v, dt = pick(a, k, ['a', 'fill_value', 'dtype'])
    b = I.to_arr(x)
    kk = dtype_kind(dt) or b.kind
    q = I.to_arr(v)
    if ORD[q.kind] > ORD[kk]:
        I.event('lossy', kk, q.kind)
    q = cast(q, kk)
    r = Arr(b.shape, broadcast_to(q, b.shape).fn, kk)
    return I.arr(single(r) if lossy32(dt) else r)


@npf('eye', 'identity')
def _eye(I, a, k):
    n = as_int(I, a[0])
    m = as_int(I, a[1]) if len(a) > 1 and a[1] is not None else n
    kk = dtype_kind(k.get('dtype')) or 'f'
    return I.arr(Arr((n, m), lambda idx: ir.const(1 if idx[0] == idx[1] else 0), kk))


@npf('diag')
def _diag(I, a, k):
    q = I.to_arr(a[0])
    if q.ndim == 1 and isinstance(q.shape[0], int):
        return I.arr(Arr((q.shape[0],) * 2, lambda idx: q.at((idx[0],)) if idx[0] == idx[1] else ir.const(0), q.kind))
    if q.ndim == 2:
        return I.arr(Arr((q.shape[0],), lambda idx: q.at((idx[0], idx[0])), q.kind))
    raise Unsupported("diag")


@npf('arange')
def _arange(I, a, k):
    if any(isinstance(x, DimV) for x in a):
        if len(a) == 1:
            d = a[0].d
            return I.arr(Arr((d,), lambda idx: ir.unk('arange', str(idx[0])), 'i'))
        raise Unsupported("arange over symbolic extent")
    vals = [x if isinstance(x, (int, Fraction)) else ir.cval(I.to_arr(x).at(())) for x in a]
    if any(v is None for v in vals):
        raise Unsupported("arange with symbolic bounds")
    st, en, step = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else 1)
    n = max(0, math.ceil(Fraction(en - st) / Fraction(step)))
    kind = 'i' if all(isinstance(v, int) for v in (st, en, step)) else 'f'
    return I.arr(Arr((n,), lambda idx: ir.const(Fraction(st) + Fraction(step) * idx[0]), kind))


@npf('linspace')
def _linspace(I, a, k):
    s, e, n, ep = pick(a, k, ['start', 'stop', 'num', 'endpoint'], {'num': 50, 'endpoint': True})
    n = as_int(I, n)
    S, E = I.to_arr(s), I.to_arr(e)
    if S.ndim or E.ndim:
        raise Unsupported("linspace arrays")
    m = n - 1 if ep else n
    return I.arr(Arr((n,), lambda idx: ir.add(S.at(()), ir.mul(ir.sub(E.at(()), S.at(())), ir.const(Fraction(idx[0], m)))) if m else S.at(()), 'f'))


@npf('logspace')
def _logspace(I, a, k):
    base = k.pop('base', None)
    x = I.rd(_linspace(I, a[:4], k))
    b = ir.const(10) if base is None else I.to_arr(base).at(())
    return I.arr(Arr(x.shape, lambda idx: ir.pow_(b, x.at(idx)), 'f'))


@npf('geomspace')
def _geomspace(I, a, k):
    s, e, n = pick(a, k, ['start', 'stop', 'num'], {'num': 50})
    n = as_int(I, n)
    S, E = I.to_arr(s), I.to_arr(e)
    if S.ndim or E.ndim or n < 2:
        raise Unsupported("geomspace")
    return I.arr(Arr((n,), lambda idx: ir.mul(S.at(()), ir.pow_(ir.div(E.at(()), S.at(())), ir.const(Fraction(idx[0], n - 1)))), 'f'))


@npf('gradient')
def _gradient(I, a, k):
    """Central differences with unit spacing, one-sided at the ends."""
    f, ax = pick(a[:1], k, ['f', 'axis'])
    A = I.to_arr(f)
    if len(a) > 1 or k or ax is not None or not all(isinstance(d, int) and d > 1 for d in A.shape):
        raise Unsupported('gradient')

    def along(j):
        n = A.shape[j]

        def at(idx):
            i = idx[j]
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            d = ir.sub(A.at(idx[:j] + (hi,) + idx[j + 1:]), A.at(idx[:j] + (lo,) + idx[j + 1:]))
            return ir.div(d, ir.const(hi - lo)) if hi - lo > 1 else d
        return I.arr(Arr(A.shape, at, 'f'))
    out = [along(j) for j in range(A.ndim)]
    return out[0] if A.ndim == 1 else I.new('list', out)


@npf('meshgrid')
def _meshgrid(I, a, k):
    ind = k.get('indexing', 'xy')
    arrs = [I.to_arr(x) for x in a]
    arrs = [reshape(x, (1,)) if x.ndim == 0 else x for x in arrs]
    n = len(arrs)
    sh = [x.shape[0] for x in arrs]
    pos = list(range(n))
    if ind == 'xy' and n >= 2:
        sh[0], sh[1] = sh[1], sh[0]
        pos[0], pos[1] = 1, 0
    return I.new('list', tuple(
        I.arr(Arr(tuple(sh), (lambda idx, x=x, p=pos[j]: x.at((idx[p],))), x.kind)) for j, x in enumerate(arrs)))


@npf('stack')
def _stack(I, a, k):
    x, ax = pick(a, k, ['arrays', 'axis'], {'axis': 0})
    return I.arr(stack([I.to_arr(v) for v in I.iterate(x)], as_int(I, ax)))


@npf('concatenate', 'concat')
def _concat(I, a, k):
    x, ax = pick(a, k, ['arrays', 'axis'], {'axis': 0})
    arrs = [I.to_arr(v) for v in I.iterate(x)]
    for q in arrs:
        if q.ndim == 0:
            err('ValueError', 'zero-dimensional arrays cannot be concatenated')
    return I.arr(concatenate(arrs, as_int(I, ax)))


@npf('append')
def _append(I, a, k):
    x, y, ax = pick(a, k, ['arr', 'values', 'axis'])
    A, B = I.to_arr(x), I.to_arr(y)
    if ax is None:
        A, B = reshape(A, (-1,)), reshape(B, (-1,))
        return I.arr(concatenate([A, B], 0))
    return I.arr(concatenate([A, B], as_int(I, ax)))


@npf('vstack')
def _vstack(I, a, k):
    arrs = [I.to_arr(v) for v in I.iterate(a[0])]
    arrs = [getitem(q, (None, None)) if q.ndim == 0 else getitem(q, (None,)) if q.ndim == 1 else q for q in arrs]
    return I.arr(concatenate(arrs, 0))


@npf('hstack')
def _hstack(I, a, k):
    arrs = [I.to_arr(v) for v in I.iterate(a[0])]
    arrs = [getitem(q, (None,)) if q.ndim == 0 else q for q in arrs]
    return I.arr(concatenate(arrs, 0 if arrs[0].ndim == 1 else 1))


@npf('column_stack')
def _colstack(I, a, k):
    arrs = [I.to_arr(v) for v in I.iterate(a[0])]
    arrs = [getitem(q, (Ellipsis, None)) if q.ndim == 1 else q for q in arrs]
    return I.arr(concatenate(arrs, 1))


@npf('dstack')
def _dstack(I, a, k):
    raise Unsupported("dstack")


@npf('tile')
def _tile(I, a, k):
    return tile(I, *pick(a, k, ['A', 'reps']))


@npf('repeat')
def _repeat(I, a, k):
    x, n, ax = pick(a, k, ['a', 'repeats', 'axis'])
    q = I.to_arr(x)
    if isinstance(n, DimV):
        rep = n.d
    else:
        rep = as_int(I, n)
    if ax is None:
        if q.ndim == 0 or q.shape == (1,):
            return I.arr(Arr((rep,), lambda idx: q.at((0,) * q.ndim), q.kind))
        raise Unsupported("repeat")
    ax = as_int(I, ax) % q.ndim
    if q.shape[ax] != 1:
        raise Unsupported("repeat")
    sh = q.shape[:ax] + (rep,) + q.shape[ax + 1:]
    return I.arr(Arr(sh, lambda idx: q.at(idx[:ax] + (0,) + idx[ax + 1:]), q.kind))


@npf('norm')
def _norm(I, a, k):
    x, o, ax, keep = pick(a, k, ['x', 'ord', 'axis', 'keepdims'])
    if o not in (None, 2):
        raise Unsupported("norm order")
    if isinstance(x, (str, X.StrV)) or x is None:
        err('TypeError', 'norm')
    q = I.to_arr(x)
    if o == 2 and ax is None and q.ndim > 1:
        raise Unsupported("matrix 2-norm")
    return I.arr(norm_arr(q, axis_arg(I, ax), bool(keep)))


@npf('dot')
def _dot(I, a, k):
    return I.arr(dot(I.to_arr(a[0]), I.to_arr(a[1])))


@npf('vdot', 'inner')
def _inner(I, a, k):
    A, B = I.to_arr(a[0]), I.to_arr(a[1])
    if A.ndim == 0 or B.ndim == 0:
        return I.arr(ew(ir.mul, A, B))
    return I.arr(contract(A, A.ndim - 1, B, B.ndim - 1))


@npf('vecdot')
def _vecdot(I, a, k):
    A, B = I.to_arr(a[0]), I.to_arr(a[1])
    return I.arr(reduce_(ew(ir.mul, A, B), -1, False, 'sum'))


@npf('outer')
def _outer(I, a, k):
    A, B = reshape(I.to_arr(a[0]), (-1,)), reshape(I.to_arr(a[1]), (-1,))
    return I.arr(ew(ir.mul, getitem(A, (Ellipsis, None)), getitem(B, (None,))))


@npf('tensordot')
def _tensordot(I, a, k):
    x, y, ax = pick(a, k, ['a', 'b', 'axes'], {'axes': 2})
    A, B = I.to_arr(x), I.to_arr(y)
    if ax == 1:
        return I.arr(contract(A, A.ndim - 1, B, 0))
    if isinstance(ax, tuple) or islist(ax):
        p, q = I.iterate(ax)
        p = axis_arg(I, p)
        q = axis_arg(I, q)
        p = p[0] if isinstance(p, tuple) and len(p) == 1 else p
        q = q[0] if isinstance(q, tuple) and len(q) == 1 else q
        if isinstance(p, int) and isinstance(q, int):
            return I.arr(contract(A, p % A.ndim, B, q % B.ndim))
    raise Unsupported("tensordot")


@npf('einsum')
def _einsum(I, a, k):
    if not isinstance(a[0], str):
        raise Unsupported("einsum")
    return I.arr(einsum(a[0], [I.to_arr(v) for v in a[1:]]))


@npf('cross')
def _cross(I, a, k):
    x, y, _1, _2, _3, ax = pick(a, k, ['a', 'b', 'axisa', 'axisb', 'axisc', 'axis'])
    A, B = I.to_arr(x), I.to_arr(y)
    ax = -1 if ax is None else as_int(I, ax)
    if A.ndim == 0 or B.ndim == 0:
        err('ValueError', 'cross of scalars')
    if ax not in (-1, max(A.ndim, B.ndim) - 1):
        raise Unsupported("cross axis")
    return I.arr(cross(A, B))


@npf('kron')
def _kron(I, a, k):
    A, B = I.to_arr(a[0]), I.to_arr(a[1])
    n = max(A.ndim, B.ndim)
    A = reshape(A, (1,) * (n - A.ndim) + A.shape)
    B = reshape(B, (1,) * (n - B.ndim) + B.shape)
    sh = []
    for p, q in zip(A.shape, B.shape):
        if p != 1 and q != 1 and not (isinstance(p, int) and isinstance(q, int)):
            raise Unsupported("kron")
        sh.append(dim_prod([p, q]))

    def f(idx):
        ia, ib = [], []
        for i, p, q in zip(idx, A.shape, B.shape):
            if q == 1:
                ia.append(i)
                ib.append(0)
            elif p == 1:
                ia.append(0)
                ib.append(i)
            else:
                ia.append(i // q)
                ib.append(i % q)
        return ir.mul(A.at(tuple(ia)), B.at(tuple(ib)))
    return I.arr(Arr(tuple(sh), f, promote(A.kind, B.kind)))


def nonzero(I, v):
    m = I.to_arr(v)
    if m.ndim == 0:
        err('ValueError', 'Calling nonzero on 0d arrays is not allowed')
    if m.kind != 'b':
        m = ew(lambda x: ir.cmp('!=', x, ir.const(0)), m, kind='b')
    m.generic()
    return tuple(X.NzV(m, k) for k in range(m.ndim))


@npf('nonzero')
def _nonzero(I, a, k):
    return nonzero(I, a[0])


@npf('flatnonzero')
def _flatnonzero(I, a, k):
    r = nonzero(I, a[0])
    if len(r) != 1:
        raise Unsupported("flatnonzero of several axes")
    return r[0]


@npf('copyto')
def _copyto(I, a, k):
    d, v, w = pick(a, k, ['dst', 'src', 'where'], {'where': True})
    k.pop('casting', None)
    if w is True:
        I.setitem(d, Ellipsis, v)
        return None
    o = I.rd(d)
    I.setitem(d, Ellipsis, I.arr(ew(ir.gate, I.to_arr(w), I.to_arr(v), o, kind=promote(I.to_arr(v).kind, o.kind))))
    return None


@npf('putmask')
def _putmask(I, a, k):
    d, m, v = pick(a, k, ['a', 'mask', 'values'])
    o, b = I.rd(d), I.to_arr(v)
    if b.ndim and b.shape != o.shape:
        raise Unsupported("putmask with repeated values")
    I.setitem(d, Ellipsis, I.arr(ew(ir.gate, I.to_arr(m), b, o, kind=promote(b.kind, o.kind))))
    return None


@npf('polyval')
def _polyval(I, a, k):
    p, x = pick(a, k, ['p', 'x'])
    x = I.to_arr(x)
    acc = scalar(0)
    for c in I.iterate(p):
        acc = binop_arr(I, 'Add', binop_arr(I, 'Mult', acc, x), I.to_arr(c))
    return I.arr(acc)


@npf('vectorize')
def _vectorize(I, a, k):
    f, otypes = pick(a, k, ['pyfunc', 'otypes'])

    def u(I, args, kw):
        from . import cyth
        return cyth.scalar_ufunc(f, None if otypes is None else 'f')(I, args, kw)
    return u


@npf('where')
def _where(I, a, k):
    if len(a) == 1 and not k:
        return nonzero(I, a[0])
    if len(a) != 3:
        raise Unsupported("where keywords")
    c, x, y = (I.to_arr(v) for v in a)
    if c.kind != 'b':
        c = ew(lambda v: ir.cmp('!=', v, ir.const(0)), c, kind='b')
    return I.arr(ew(ir.gate, c, x, y, kind=promote(x.kind, y.kind)))


@npf('select')
def _select(I, a, k):
    cs, vs, d = pick(a, k, ['condlist', 'choicelist', 'default'], {'default': 0})
    acc = I.to_arr(d)
    for c, v in reversed(list(zip(I.iterate(cs), I.iterate(vs)))):
        acc = ew(ir.gate, I.to_arr(c), I.to_arr(v), acc, kind=promote(I.to_arr(v).kind, acc.kind))
    return I.arr(acc)


@npf('piecewise')
def _piecewise(I, a, k):
    raise Unsupported("piecewise")


@npf('clip')
def _clip(I, a, k):
    x, lo, hi = pick(a, k, ['a', 'min', 'max'])
    if lo is None:
        lo = k.get('a_min')
    if hi is None:
        hi = k.get('a_max')
    r = I.to_arr(x)
    if lo is not None:
        r = ew(maxn, r, I.to_arr(lo))
    if hi is not None:
        r = ew(minn, r, I.to_arr(hi))
    return finish(I, r, k.get('out'))


@npf('abs', 'absolute', 'fabs')
def _abs(I, a, k):
    if isinstance(a[0], (str, X.StrV)) or a[0] is None:
        err('TypeError', 'abs')
    q = I.to_arr(a[0])
    return finish(I, ew(absnode, q, kind='f' if q.kind == 'c' else q.kind), k.get('out', a[1] if len(a) > 1 else None))


@npf('real')
def _real(I, a, k):
    if isarr(a[0]) and not I.rd(a[0]).wk:
        return arr_attr(I, a[0], 'real')
    q = I.to_arr(a[0])
    return I.arr(ew(lambda x: ir.fn('real', x), q, kind='f') if q.kind == 'c' else q)


@npf('imag')
def _imag(I, a, k):
    if isarr(a[0]) and not I.rd(a[0]).wk:
        return arr_attr(I, a[0], 'imag')
    q = I.to_arr(a[0])
    return I.arr(ew(lambda x: ir.fn('imag', x), q, kind='f') if q.kind == 'c' else filled(q.shape, 0, q.kind))


@npf('conj', 'conjugate')
def _conj(I, a, k):
    q = I.to_arr(a[0])
    return I.arr(ew(lambda x: ir.fn('conj', x), q) if q.kind == 'c' else q)


@npf('angle')
def _angle(I, a, k):
    return I.arr(ew(lambda x: ir.fn('angle', x), I.to_arr(a[0]), kind='f'))


@npf('shape')
def _shape(I, a, k):
    return tuple(dimval(d) for d in I.to_arr(a[0]).shape)


@npf('ndim')
def _ndim(I, a, k):
    if isinstance(a[0], (str, X.StrV)) or a[0] is None:
        return 0
    return I.to_arr(a[0]).ndim


@npf('size')
def _size(I, a, k):
    return dimval(dim_prod(I.to_arr(a[0]).shape))


for _h, _names in {'sum': ('sum', 'nansum'), 'prod': ('prod',), 'any': ('any',), 'all': ('all',),
                   'max': ('max', 'amax'), 'min': ('min', 'amin'), 'mean': ('mean', 'average')}.items():
    def _mkred(h):
        def f(I, a, k):
            if h == 'prod' and not isarr(a[0]):
                it = I.iterate(a[0])
                if all(isinstance(x, (int, DimV)) and not isinstance(x, bool) for x in it):
                    return dimval(dim_prod([undim(x) for x in it]))
            return red(I, a[0], h, a[1:], k)
        return f
    for _n in _names:
        NPF[_n] = _mkred(_h)


@npf('nanmin')
def _nanmin(I, a, k):
    return nanred(I, a, k, 'min')


@npf('nanmax')
def _nanmax(I, a, k):
    return nanred(I, a, k, 'max')


def nanred(I, a, k, how):
    A = I.to_arr(a[0])
    if len(a) == 1 and not k and all(isinstance(d, int) for d in A.shape):
        ns = [A.at(p) for p in itertools.product(*map(range, A.shape))]
        if gf.nanny(*ns):
            have, acc = ir.const(False), ir.G.mk('const', 'nan')
            for n in ns:
                c = ir.not_(ir.unk('isnan', n))
                acc = ir.gate(c, ir.gate(have, comb(how, acc, n), n), acc)
                have = ir.or_(have, c)
            return I.arr(Arr((), lambda idx: acc, A.kind))
    return red(I, a[0], how, a[1:], k)


@npf('allclose')
def _allclose(I, a, k):
    return bool_arr(I, reduce_(isclose_arr(I, a, k), None, False, 'all').at(()))


@npf('isclose')
def _isclose(I, a, k):
    return I.arr(isclose_arr(I, a, k))


@npf('array_equal')
def _array_equal(I, a, k):
    A, B = I.to_arr(a[0]), I.to_arr(a[1])
    if A.shape != B.shape:
        return False
    return bool_arr(I, reduce_(ew(lambda x, y: ir.cmp('==', x, y), A, B, kind='b'), None, False, 'all').at(()))


@npf('cumsum')
def _cumsum(I, a, k):
    x, ax = pick(a, k, ['a', 'axis'])
    return cumsum(I, x, None if ax is None else as_int(I, ax))


@npf('diff')
def _diff(I, a, k):
    x, n, ax = pick(a, k, ['a', 'n', 'axis'], {'n': 1, 'axis': -1})
    r = x
    for _ in range(as_int(I, n)):
        r = diff(I, r, as_int(I, ax))
    return r


@npf('flip', 'flipud', 'fliplr')
def _flip(I, a, k):
    r = as_ref(I, a[0])
    n = I.rd(r).ndim
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    ax = as_int(I, ax) % n
    return view(r, ('ix', tuple(Sl(None, None, -1) if j == ax else Sl(None, None, None) for j in range(n))))


@npf('roll')
def _roll(I, a, k):
    x, s, ax = pick(a, k, ['a', 'shift', 'axis'])
    q = I.to_arr(x)
    s = as_int(I, s)
    if ax is None and q.ndim != 1:
        raise Unsupported("roll")
    ax = 0 if ax is None else as_int(I, ax) % q.ndim
    d = q.shape[ax]
    if not isinstance(d, int):
        raise Unsupported("roll on symbolic axis")
    return I.arr(Arr(q.shape, lambda idx: q.at(idx[:ax] + ((idx[ax] - s) % d,) + idx[ax + 1:]), q.kind))


@npf('take')
def _take(I, a, k):
    x, ix, ax = pick(a, k, ['a', 'indices', 'axis'])
    if ax is None:
        raise Unsupported("take")
    r = as_ref(I, x)
    n = I.rd(r).ndim
    ax = as_int(I, ax) % n
    return I.getitem(r, tuple([Sl(None, None, None)] * ax + [ix]))


@npf('split', 'array_split')
def _split(I, a, k):
    x, n, ax = pick(a, k, ['ary', 'n', 'axis'], {'axis': 0})
    r = as_ref(I, x)
    q = I.rd(r)
    ax = as_int(I, ax) % q.ndim
    n = as_int(I, n if n is not None else k.get('indices_or_sections'))
    d = q.shape[ax]
    if not isinstance(d, int) or d % n:
        raise Unsupported("split")
    w = d // n
    return I.new('list', tuple(view(r, ('ix', tuple([Sl(None, None, None)] * ax + [Sl(j * w, (j + 1) * w, None)]))) for j in range(n)))


@npf('unstack')
def _unstack(I, a, k):
    x, ax = pick(a, k, ['x', 'axis'], {'axis': 0})
    r = as_ref(I, x)
    q = I.rd(r)
    ax = as_int(I, ax) % q.ndim
    if not isinstance(q.shape[ax], int):
        raise Unsupported("unstack")
    return tuple(view(r, ('ix', tuple([Sl(None, None, None)] * ax + [j]))) for j in range(q.shape[ax]))


@npf('iscomplexobj')
def _iscplx(I, a, k):
    return I.to_arr(a[0]).kind == 'c'


@npf('isrealobj')
def _isreal(I, a, k):
    return I.to_arr(a[0]).kind != 'c'


@npf('isscalar')
def _isscalar(I, a, k):
    v = a[0]
    if is_num(v) or isinstance(v, (bool, str, X.StrV, DimV)):
        return True
    return isarr(v) and I.rd(v).ndim == 0


@npf('issubdtype')
def _issubdtype(I, a, k):
    k1 = dtype_kind(a[0])
    n2 = a[1].name.split('.')[-1] if isinstance(a[1], X.ExtV) else str(a[1])
    fam = {'floating': 'f', 'inexact': 'fc', 'integer': 'i', 'number': 'ifc', 'complexfloating': 'c'}
    if n2 in fam:
        return k1 in fam[n2]
    return k1 == dtype_kind(a[1])


@npf('result_type', 'promote_types')
def _result_type(I, a, k):
    ks = []
    for v in a:
        try:
            ks.append(dtype_kind(v) if isinstance(v, (X.ExtV, str)) else I.to_arr(v).kind)
        except Unsupported:
            raise
    return X.ExtV('dtype:' + promote(*ks))


@npf('dtype')
def _dtype(I, a, k):
    return X.ExtV('dtype:' + (dtype_kind(a[0]) or 'f'))


@npf('may_share_memory', 'shares_memory')
def _share(I, a, k):
    return isarr(a[0]) and isarr(a[1]) and a[0].id == a[1].id


@npf('fill_diagonal', 'put', 'place')
def _mutators(I, a, k):
    if 'dst' in k:
        a = [k['dst']] + list(a)
    if isarr(a[0]):
        I.event('write', a[0].id)
    raise Unsupported("in-place numpy helper")


@npf('inv', 'solve', 'eig', 'svd', 'det', 'pinv', 'eigh', 'lstsq')
def _linalg(I, a, k):
    raise Unsupported("linear algebra routine")


def sorted_nodes(ns):
    """A network of exchanges."""
    ns = list(ns)
    for i in range(len(ns)):
        for j in range(i % 2, len(ns) - 1, 2):
            c = ir.cmp('<=', ns[j], ns[j + 1])
            ns[j], ns[j + 1] = ir.gate(c, ns[j], ns[j + 1]), ir.gate(c, ns[j + 1], ns[j])
    return ns


def sort_axis(q, ax):
    if q.kind == 'c':
        raise Unsupported("sort of complex values")
    ax %= q.ndim
    n = q.shape[ax]
    if not isinstance(n, int) or n > 8:
        raise Unsupported("sort of a long axis")
    memo = {}

    def at(idx):
        r = idx[:ax] + idx[ax + 1:]
        if r not in memo:
            memo[r] = sorted_nodes(q.at(r[:ax] + (j,) + r[ax:]) for j in range(n))
        if not isinstance(idx[ax], int):
            raise Unsupported("generic element of a sorted axis")
        return memo[r][idx[ax]]
    return Arr(q.shape, at, q.kind)


@npf('sort')
def _sort(I, a, k):
    x, ax = pick(a, k, ['a', 'axis'], {'axis': -1})
    q = I.to_arr(x)
    if ax is None:
        q = getitem_flat(q)
        ax = 0
    if q.ndim == 0:
        err('AxisError', 'axis -1 is out of bounds for array of dimension 0')
    return I.arr(sort_axis(q, as_int(I, ax)))


@npf('unique')
def _unique(I, a, k):
    if len(a) > 1 or k:
        raise Unsupported("unique with options")
    q = I.to_arr(a[0])
    I.assumptions.add('the values given to unique are distinct')
    return I.arr(sort_axis(getitem_flat(q), 0))


def getitem_flat(q):
    if q.ndim == 1:
        return q
    if not all(isinstance(d, int) for d in q.shape):
        raise Unsupported("flat order of a symbolic shape")
    ps = list(itertools.product(*map(range, q.shape)))
    return Arr((len(ps),), lambda idx: q.at(ps[idx[0]]), q.kind)


@npf('argsort', 'searchsorted', 'interp', 'argmin', 'argmax', 'histogram', 'convolve',
     'trapz', 'trapezoid', 'apply_along_axis', 'median', 'percentile', 'insert', 'delete')
def _uns(I, a, k):
    raise Unsupported("numpy routine without a model")


# ------------------------------------------------------------------ methods
def call_meth(I, o, name, args, kwargs):
    for i, a in enumerate(args):
        if isinstance(a, X.ChoiceV) and not isarr(o):
            return I.lift(a, lambda x: call_meth(I, o, name, args[:i] + [x] + args[i + 1:], kwargs))
    if isinstance(o, str):
        if name == 'format':
            return X.StrV('fmt')
        if name in ('upper', 'lower', 'strip', 'title', 'capitalize', 'casefold', 'lstrip', 'rstrip', 'startswith', 'endswith',
                    'replace', 'isdigit', 'count', 'find', 'index', 'isidentifier', 'zfill', 'removeprefix', 'removesuffix', 'isupper', 'islower') \
                and all(isinstance(a, (str, int)) for a in args):
            return getattr(o, name)(*args)
        if name == 'split' and all(isinstance(a, str) for a in args):
            return I.new('list', tuple(o.split(*args)))
        if name == 'join':
            it = I.iterate(args[0])
            if all(isinstance(x, str) for x in it):
                return o.join(it)
            return X.StrV('join')
        raise Unsupported(f"str.{name}")
    if isinstance(o, X.StrV):
        if name in ('startswith', 'endswith', 'isdigit'):
            return X.OpaqueV('strtest')
        return X.StrV(o.name)
    if isinstance(o, X.MemoV):
        if name == 'cache_clear':
            I.heap[o.id] = {}
            return None
        raise Unsupported("memo attribute")
    if isinstance(o, X.RotV):
        if name == 'apply':
            v, inv = pick(args, kwargs, ['vectors', 'inverse'], {'inverse': False})
            a = I.to_arr(v)
            if a.ndim > 2 or a.ndim == 0 or a.shape[-1] != 3:
                err('ValueError', 'Expected input of shape (3,) or (P, 3)')
            M = o.mat
            return I.arr(dot(a, M if inv else transpose(M)))
        if name == 'as_matrix':
            return I.arr(o.mat)
        if name == 'inv':
            return X.RotV(transpose(o.mat))
        raise Unsupported(f"Rotation.{name}")
    if islist(o):
        items = I.heap[o.id]
        if name == 'append':
            I.event('write', o.id)
            I.heap[o.id] = items + (args[0],)
            return None
        if name == 'extend':
            I.event('write', o.id)
            I.heap[o.id] = items + tuple(I.iterate(args[0]))
            return None
        if name == 'insert':
            I.event('write', o.id)
            it = list(items)
            it.insert(as_int(I, args[0]), args[1])
            I.heap[o.id] = tuple(it)
            return None
        if name == 'pop':
            I.event('write', o.id)
            it = list(items)
            r = it.pop(*[as_int(I, a) for a in args])
            I.heap[o.id] = tuple(it)
            return r
        if name in ('reverse', 'clear'):
            I.event('write', o.id)
            I.heap[o.id] = tuple(reversed(items)) if name == 'reverse' else ()
            return None
        if name == 'copy':
            return I.new('list', items)
        if name in ('sort', 'remove'):
            I.event('write', o.id)
            raise Unsupported(f"list.{name}")
        if name == 'index' or name == 'count':
            if all(isinstance(x, (str, int)) for x in items) and isinstance(args[0], (str, int)):
                return getattr(items, name)(args[0])
        if name == '__len__':
            return len(items)
        raise X.AbsRaise('AttributeError', f"list has no attribute {name}", ir.G.loc) if not hasattr(list, name) else Unsupported(f"list.{name}")
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return getattr(o, name)(*args)
        if name == 'add' or name == 'update':
            raise Unsupported("set mutation")
        raise X.AbsRaise('AttributeError', f"tuple has no attribute {name}", ir.G.loc)
    if isdict(o):
        d = I.heap[o.id]
        if name == 'get':
            return d.get(I.hkey(args[0]), args[1] if len(args) > 1 else None)
        if name == 'items':
            return [(k, v) for k, v in d.items()]
        if name == 'keys':
            return list(d)
        if name == 'values':
            return list(d.values())
        if name == 'copy':
            return I.new('dict', dict(d))
        if name == 'update':
            I.event('write', o.id)
            n = dict(d)
            if args:
                if not isdict(args[0]):
                    raise Unsupported("dict.update")
                n.update(I.heap[args[0].id])
            n.update(kwargs)
            I.heap[o.id] = n
            return None
        if name == 'pop':
            k = I.hkey(args[0])
            if k in d:
                I.event('write', o.id)
                n = dict(d)
                r = n.pop(k)
                I.heap[o.id] = n
                return r
            if len(args) > 1:
                return args[1]
            err('KeyError', str(k))
        if name == 'setdefault':
            k = I.hkey(args[0])
            if k in d:
                return d[k]
            I.event('write', o.id)
            n = dict(d)
            n[k] = args[1] if len(args) > 1 else None
            I.heap[o.id] = n
            return n[k]
        if name == 'clear':
            I.event('write', o.id)
            I.heap[o.id] = {}
            return None
        raise Unsupported(f"dict.{name}")
    if isarr(o):
        return arr_meth(I, o, name, args, kwargs)
    if isinstance(o, X.Ref) and o.kind == 'obj' and name == '__dict__':
        raise Unsupported("__dict__ call")
    if isinstance(o, X.ExtMeth) and o.name == '__dict__':
        d = I.heap[o.obj.id]
        if name == 'get':
            return d.get(args[0], args[1] if len(args) > 1 else None)
        if name == 'pop':
            if args[0] in d:
                n = dict(d)
                r = n.pop(args[0])
                I.heap[o.obj.id] = n
                I.event('setattr', o.obj.id, args[0])
                return r
            if len(args) > 1:
                return args[1]
            err('KeyError')
        if name == 'copy':
            return I.new('dict', {k: v for k, v in d.items() if k != '__class__'})
        if name == 'items':
            return [(k, v) for k, v in d.items() if k != '__class__']
        if name == 'update':
            n = dict(d)
            n.update(I.heap[args[0].id])
            I.heap[o.obj.id] = n
            I.event('setattr', o.obj.id, '*')
            return None
        raise Unsupported(f"__dict__.{name}")
    if isinstance(o, bool) or is_num(o) and not isinstance(o, int):
        # numpy scalar
        if name in ('any', 'all', 'sum', 'min', 'max', 'astype', 'copy', 'squeeze', 'ravel', 'flatten', 'reshape', 'mean', 'prod', 'tolist'):
            return arr_meth(I, I.arr(I.to_arr(o)), name, args, kwargs)
    if is_num(o) or isinstance(o, DimV):
        if name == 'conjugate':
            return GQ(o.re, -o.im) if isinstance(o, GQ) else o
        if name == 'item':
            return o
        raise Unsupported(f"number.{name}")
    if isinstance(o, X.ExtMeth):
        return X.OpaqueV(f"{o.name}.{name}")
    raise Unsupported(f"method {name} of {o!r}")


def arr_meth(I, o, name, args, kwargs):
    a = I.rd(o)
    if a.wk and name not in ('conjugate', 'item', 'is_integer', '__add__', '__mul__', '__sub__', '__truediv__', '__abs__'):
        err('AttributeError', f"'float' object has no attribute '{name}'")
    kw = dict(kwargs)
    if name in ('any', 'all', 'sum', 'prod', 'mean', 'min', 'max'):
        return red(I, o, name, args, kw)
    if name in ('reshape', 'view'):
        if name == 'view':
            raise Unsupported("ndarray.view")
        order = kw.get('order', 'C')
        sh = shape_arg(I, args[0]) if len(args) == 1 else shape_arg(I, tuple(args))
        q = reshape(a, sh, order)
        return view(o, ('reshape', q.shape, order))
    if name == 'ravel':
        order = args[0] if args else kw.get('order', 'C')
        q = reshape(a, (-1,), order)
        return view(o, ('reshape', q.shape, order))
    if name == 'nonzero':
        return nonzero(I, o)
    if name == 'flatten':
        order = args[0] if args else kw.get('order', 'C')
        q = reshape(a, (-1,), order)
        return I.arr(Arr(q.shape, q.fn, q.kind))
    if name == 'copy':
        return kept(I, I.arr(Arr(a.shape, a.fn, a.kind)), o, args[0] if args else kw.get('order', 'C'))
    if name == 'astype':
        if lossy32(args[0] if args else kw.get('dtype')):
            return I.arr(single(Arr(a.shape, a.fn, promote('f', a.kind))))
        k = dtype_kind(args[0] if args else kw.get('dtype'))
        if kw.get('copy') is False and k == a.kind:
            return o
        if ORD[k] < ORD[a.kind]:
            I.event('lossy', k, a.kind)
        b = cast(a, k)
        return kept(I, I.arr(Arr(b.shape, b.fn, b.kind)), o, args[1] if len(args) > 1 else kw.get('order'))
    if name == 'squeeze':
        return NPF['squeeze'](I, [o] + args, kw)
    if name == 'transpose':
        if not args:
            return view(o, ('T', None))
        return NPF['transpose'](I, [o, args[0] if len(args) == 1 else tuple(args)], kw)
    if name in ('dot', 'conj', 'conjugate', 'repeat', 'swapaxes', 'cumsum', 'clip', 'take', 'argmin', 'argmax', 'argsort', 'nonzero'):
        return NPF[name](I, [o] + args, kw)
    if name == 'item':
        if args:
            raise Unsupported("item(index)")
        if any(d != 1 for d in a.shape):
            err('ValueError', 'can only convert an array of size 1')
        e = a.at((0,) * a.ndim)
        return I.arr(Arr((), lambda idx: e, a.kind, wk=True))
    if name == 'tolist':
        def rec(q):
            if q.ndim == 0:
                e = q.at(())
                return I.arr(Arr((), lambda idx: e, q.kind, wk=True))
            if not isinstance(q.shape[0], int):
                raise Unsupported("tolist of symbolic axis")
            return I.new('list', tuple(rec(getitem(q, (j,))) for j in range(q.shape[0])))
        return rec(a)
    if name == 'fill':
        v = I.to_arr(args[0])
        I.wr(o, broadcast_to(cast(v, a.kind) if ORD[v.kind] > ORD[a.kind] else v, a.shape))
        return None
    if name == 'sort':
        if a.ndim == 0:
            err('AxisError', 'axis -1 is out of bounds for array of dimension 0')
        I.wr(o, sort_axis(a, as_int(I, args[0] if args else kw.get('axis', -1))))
        return None
    if name in ('put', 'resize', 'itemset'):
        I.event('write', o.id)
        raise Unsupported(f"ndarray.{name}")
    if name == 'setflags':
        return None
    if name == '__len__':
        return dimval(a.shape[0])
    if name == '__getitem__':
        return I.getitem(o, args[0])
    if name == '__setitem__':
        return I.setitem(o, args[0], args[1])
    if name in ('__add__', '__sub__', '__mul__', '__truediv__'):
        return I.binop({'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div'}[name], o, args[0])
    if name == 'round':
        return I.arr(ew(lambda x: ir.fn('round', x), a))
    if name == 'trace':
        if a.ndim == 2 and a.shape[0] == a.shape[1] and isinstance(a.shape[0], int):
            acc = ir.const(0)
            for j in range(a.shape[0]):
                acc = ir.add(acc, a.at((j, j)))
            return I.arr(Arr((), lambda idx: acc, a.kind))
    raise Unsupported(f"ndarray.{name}")
