"""DataFusion / arrow expression models: Operator, Expr, ScalarValue, datetimes."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import method, ext, anymethod, METHODS, OpaquePiece, Interp, CC
from .stdlib import callf, truth

OPS = ['Eq', 'NotEq', 'Lt', 'LtEq', 'Gt', 'GtEq', 'Plus', 'Minus', 'Multiply', 'Divide', 'Modulo', 'And', 'Or', 'IsDistinctFrom', 'IsNotDistinctFrom',
       'RegexMatch', 'RegexIMatch', 'RegexNotMatch', 'RegexNotIMatch', 'LikeMatch', 'ILikeMatch', 'NotLikeMatch', 'NotILikeMatch', 'BitwiseAnd', 'BitwiseOr',
       'BitwiseXor', 'BitwiseShiftRight', 'BitwiseShiftLeft', 'StringConcat', 'AtArrow', 'ArrowAt']
DISP = ['=', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '%', 'AND', 'OR', 'IS DISTINCT FROM', 'IS NOT DISTINCT FROM',
        '~', '~*', '!~', '!~*', '~~', '~~*', '!~~', '!~~*', '&', '|', 'BIT_XOR', '>>', '<<', '||', '@>', '<@']
IDX = {n: i for i, n in enumerate(OPS)}
def prec(n):
    if n == 'Or': return 5
    if n == 'And': return 10
    if n in ('Eq', 'NotEq', 'LtEq', 'GtEq'): return 15
    if n in ('Lt', 'Gt'): return 20
    if n.endswith('LikeMatch') or n.endswith('ILikeMatch'): return 25
    if n in ('Plus', 'Minus'): return 40
    if n in ('Multiply', 'Divide', 'Modulo'): return 45
    return 30
SWAP = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Lt': 'Gt', 'LtEq': 'GtEq', 'Gt': 'Lt', 'GtEq': 'LtEq', 'AtArrow': 'ArrowAt', 'ArrowAt': 'AtArrow'}
NEG = {'Eq': 'NotEq', 'NotEq': 'Eq', 'Lt': 'GtEq', 'LtEq': 'Gt', 'Gt': 'LtEq', 'GtEq': 'Lt', 'IsDistinctFrom': 'IsNotDistinctFrom', 'IsNotDistinctFrom': 'IsDistinctFrom'}
NUMERIC = ('Plus', 'Minus', 'Multiply', 'Divide', 'Modulo')
COMPARISON = ('Eq', 'NotEq', 'Lt', 'LtEq', 'Gt', 'GtEq', 'IsDistinctFrom', 'IsNotDistinctFrom', 'RegexMatch', 'RegexIMatch', 'RegexNotMatch', 'RegexNotIMatch')

class SymOp(Obj):
    """an Operator whose variant is symbolic: code = index into OPS"""
    tname = 'Operator'
    def __init__(self, code, dom=None): self.code = code; self.dom = set(OPS) if dom is None else set(dom)
    def __repr__(self): return f'Operator({self.code})'
    def is_(self, name): return mkbool(self.code == IDX[name]) if name in IDX else False
    def among(self, names):
        """fork on membership; dom mirrors what the path already knows of the code"""
        names = set(names) & self.dom
        if not names: return False
        if names == self.dom: return True
        c = z3.simplify(self.code)
        if z3.is_int_value(c): r = OPS[c.as_long()] in names
        else: r = Ctx.cur.fork(self.member(sorted(names)))
        self.dom = names if r else self.dom - names
        return r
    def as_variant(self, it, names):
        n = names[-1]
        if n not in IDX: return None
        return Enum('Operator', n) if self.among([n]) else None
    def eq_(self, o):
        o = deref(o)
        if isinstance(o, SymOp): return mkbool(self.code == o.code)
        return self.among([o.var])
    def m_eq(self, it, a, c): return eq(self, a[0])
    def m_precedence(self, it, a, c):
        e = z3.IntVal(30)
        for n in OPS:
            if prec(n) != 30: e = z3.If(self.code == IDX[n], prec(n), e)
        return Int(e, 'u8')
    def display_(self, it): return Text([OpaquePiece(self)])
    def debug_(self, it): return Text([OpaquePiece(self)])
    def member(self, names): return mkbool(z3.Or(*[self.code == IDX[n] for n in names]))
    def m_is_numerical_operators(self, it, a, c): return self.among(NUMERIC)
    def m_is_logic_operator(self, it, a, c): return self.among(('And', 'Or'))
    def m_is_comparison_operator(self, it, a, c): return self.among(COMPARISON)
    def m_clone(self, it, a, c): return self
def conc_op(name): return Enum('Operator', name)
METHODS[('Operator', 'precedence')] = lambda it, v, a, c: Int(prec(v.var), 'u8')
METHODS[('Operator', 'display')] = lambda it, v, a, c: DISP[IDX[v.var]]
METHODS[('Operator', 'is_logic_operator')] = lambda it, v, a, c: v.var in ('And', 'Or')
METHODS[('Operator', 'is_numerical_operators')] = lambda it, v, a, c: v.var in NUMERIC
METHODS[('Operator', 'is_comparison_operator')] = lambda it, v, a, c: v.var in COMPARISON
METHODS[('Operator', 'swap')] = lambda it, v, a, c: opt(conc_op(SWAP[v.var]) if v.var in SWAP else None)
METHODS[('Operator', 'negate')] = lambda it, v, a, c: opt(conc_op(NEG[v.var]) if v.var in NEG else None)

# ------------------------------------------------------------------ Expr
def E(var, *a): return Enum('Expr', var, {str(i): x for i, x in enumerate(a)})
def column(name, relation=None): return Struct('Column', {'relation': opt(relation), 'name': name})
def col(name): return E('Column', column(name))
def lit(sv): return E('Literal', sv)
def scalar(var, *a): return Enum('ScalarValue', var, {str(i): x for i, x in enumerate(a)})
def binary(l, op, r): return E('BinaryExpr', Struct('BinaryExpr', {'left': l, 'op': op, 'right': r}))
def inlist(e, xs, neg): return E('InList', Struct('InList', {'expr': e, 'list': Vec(list(xs)), 'negated': neg}))
UNARY = ('Not', 'Negative', 'IsNull', 'IsNotNull', 'IsTrue', 'IsFalse', 'IsUnknown', 'IsNotTrue', 'IsNotFalse', 'IsNotUnknown')
def children(e):
    e = deref(e); v = e.var
    if v in ('Column', 'Literal', 'ScalarVariable', 'Placeholder', 'Wildcard', 'OuterReferenceColumn'): return []
    if v in UNARY: return [e.f['0']]
    s = deref(e.f['0']) if e.f else None
    if v == 'BinaryExpr': return [s.f['left'], s.f['right']]
    if v == 'InList': return [s.f['expr']] + list(deref(s.f['list']).a)
    if v in ('Like', 'SimilarTo'): return [s.f['expr'], s.f['pattern']]
    if v == 'Between': return [s.f['expr'], s.f['low'], s.f['high']]
    if v in ('Cast', 'TryCast', 'Alias'): return [s.f['expr']]
    if v in ('ScalarFunction', 'AggregateFunction'): return list(deref(s.f['args']).a)
    raise Unsupported(f'children of Expr::{v}')
@method('Expr', 'visit')
def _visit(it, e, a, c):
    vis = a[0]
    def go(n):
        r = it.call_method(vis, 'f_down', [n])
        if r.var == 'Err': return r
        k = deref(r.f['0']).var
        if k == 'Stop': return r
        last = 'Continue'
        if k == 'Continue':
            for ch in children(n):
                r2 = go(deref(ch))
                if r2.var == 'Err': return r2
                last = deref(r2.f['0']).var
                if last == 'Stop': return r2
        if last == 'Jump': return Ok(Enum('TreeNodeRecursion', 'Jump'))
        return it.call_method(vis, 'f_up', [n])
    return go(e)
@method('Expr', 'apply')
def _apply(it, e, a, c):
    f = a[0]
    def go(n):
        r = callf(it, f, n)
        if r.var == 'Err': return r
        k = deref(r.f['0']).var
        if k == 'Continue':
            for ch in children(n):
                r2 = go(deref(ch))
                if r2.var == 'Err' or deref(r2.f['0']).var == 'Stop': return r2
            return Ok(Enum('TreeNodeRecursion', 'Continue'))
        if k == 'Jump': return Ok(Enum('TreeNodeRecursion', 'Continue'))
        return r
    return go(e)
@method('Expr', 'display', 'canonical_name', 'human_display', 'schema_name')
def _edisp(it, e, a, c): return Text([OpaquePiece(e)])
@ext('utils::conjunction', 'conjunction')
def _conj(it, a, c):
    xs = [deref(x) for x in it.iter_of(a[0])]
    if not xs: return NONE()
    r = xs[0]
    for x in xs[1:]: r = binary(r, conc_op('And'), x)
    return Some(r)
def _eop(name, op):
    METHODS[('Expr', name)] = lambda it, e, a, c: binary(copyval(e), conc_op(op), deref(a[0]))
for _n, _o in (('eq', 'Eq'), ('not_eq', 'NotEq'), ('lt', 'Lt'), ('lt_eq', 'LtEq'), ('gt', 'Gt'), ('gt_eq', 'GtEq'), ('and', 'And'), ('or', 'Or')): _eop(_n, _o)
METHODS[('Expr', 'is_null')] = lambda it, e, a, c: E('IsNull', copyval(e))
METHODS[('Expr', 'is_not_null')] = lambda it, e, a, c: E('IsNotNull', copyval(e))
for _n, _v in (('is_true', 'IsTrue'), ('is_false', 'IsFalse'), ('is_not_true', 'IsNotTrue'), ('is_not_false', 'IsNotFalse'), ('is_unknown', 'IsUnknown'), ('is_not_unknown', 'IsNotUnknown')):
    METHODS[('Expr', _n)] = (lambda v: lambda it, e, a, c: E(v, copyval(e)))(_v)
METHODS[('Expr', 'not')] = lambda it, e, a, c: E('Not', copyval(e))
METHODS[('Expr', 'alias')] = lambda it, e, a, c: E('Alias', Struct('Alias', {'expr': copyval(e), 'relation': NONE(), 'name': it.to_text(a[0])}))
METHODS[('Expr', 'in_list')] = lambda it, e, a, c: inlist(copyval(e), deref(a[0]).a, deref(a[1]))
METHODS[('Expr', 'between')] = lambda it, e, a, c: E('Between', Struct('Between', {'expr': copyval(e), 'negated': False, 'low': deref(a[0]), 'high': deref(a[1])}))

# ------------------------------------------------------------------ ScalarValue
SIMPLE = ('Boolean', 'Float16', 'Float32', 'Float64', 'Int8', 'Int16', 'Int32', 'Int64', 'UInt8', 'UInt16', 'UInt32', 'UInt64', 'Utf8', 'LargeUtf8', 'Utf8View')
@method('ScalarValue', 'display')
def _svd(it, v, a, c):
    n = v.var
    if n == 'Null': return 'NULL'
    if n.startswith('Decimal'): return mktext([it.to_debug(v.f['0']), ',', it.to_debug(v.f['1']), ',', it.to_debug(v.f['2'])])
    if n == 'Dictionary': return it.to_text(v.f['1'])
    o = deref(v.f['1'] if n in ('FixedSizeBinary',) else v.f['0'])
    if type(o) is Enum and o.ty == 'Option':
        if o.var == 'None': return 'NULL'
        x = o.f['0']
        if n in SIMPLE or n.startswith('Timestamp') or n.startswith('Time') or n.startswith('Duration') or n == 'IntervalYearMonth': return it.to_text(x)
        if n in ('Date32', 'Date64'): return Text([OpaquePiece(NaiveDate(deref(x).v * (86400 * 10**9 if n == 'Date32' else 10**6)))])
    return Text([OpaquePiece(v)])
@method('ScalarValue', 'is_null')
def _svnull(it, v, a, c):
    if v.var == 'Null': return True
    if v.var == 'Dictionary': return _svnull(it, deref(v.f['1']), a, c)
    for k in ('1', '0'):
        o = deref(v.f.get(k)) if k in v.f else None
        if type(o) is Enum and o.ty == 'Option' and not (k == '1' and v.var.startswith('Timestamp')): return o.var == 'None'
    return False
METHODS[('ScalarValue', 'debug')] = lambda it, v, a, c: Text([OpaquePiece(v)])

# ------------------------------------------------------------------ datetimes (chrono)
S = 10**9
LIMIT = 8_210_266_876_799 * S      # chrono's last second (+262142-12-31)
LOW = -8_334_601_228_800 * S
class NaiveDateTime(Obj):
    tname = 'NaiveDateTime'
    def __init__(self, ns): self.ns = ns
    def m_date(self, it, a, c): 
        return NaiveDate(self.ns - self.ns % (86400 * S))
    def m_and_utc(self, it, a, c): return self
    def display_(self, it): return Text([OpaquePiece(self)])
    def debug_(self, it): return Text(['T', OpaquePiece(self)])
    def eq_(self, o): return mkbool(self.ns == o.ns)
class NaiveDate(Obj):
    tname = 'NaiveDate'
    def __init__(self, ns): self.ns = ns
    def display_(self, it): return Text([OpaquePiece(self)])
    def eq_(self, o): return mkbool(self.ns == o.ns)
def _dt(mult):
    def f(it, a, c):
        ns = deref(a[0]).v * mult
        ok = z3.And(ns >= LOW, ns <= LIMIT) if is_sym(ns) else LOW <= ns <= LIMIT
        return Some(NaiveDateTime(ns)) if Ctx.cur.branch(ok) else NONE()
    return f
for _n, _m in (('date32_to_datetime', 86400 * S), ('date64_to_datetime', 10**6), ('timestamp_s_to_datetime', S), ('timestamp_ms_to_datetime', 10**6), ('timestamp_us_to_datetime', 1000), ('timestamp_ns_to_datetime', 1)):
    interp.EXT_FN[_n] = _dt(_m)
    interp.EXT_FN['temporal_conversions::' + _n] = interp.EXT_FN[_n]
