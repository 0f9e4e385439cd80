"""Arrow arrays: typed columns of (valid, value); a null slot holds an arbitrary value."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import ext, anymethod, METHODS, EXT_FN, CONSTS, OpaquePiece, CC, conc_index

PRIM = {'Int8Type': 'Int8', 'Int16Type': 'Int16', 'Int32Type': 'Int32', 'Int64Type': 'Int64', 'UInt8Type': 'UInt8', 'UInt16Type': 'UInt16', 'UInt32Type': 'UInt32', 'UInt64Type': 'UInt64',
        'Float32Type': 'Float32', 'Float64Type': 'Float64', 'Date32Type': 'Date32', 'Date64Type': 'Date64', 'TimestampNanosecondType': 'TimestampNanosecond', 'TimestampMicrosecondType': 'TimestampMicrosecond',
        'TimestampMillisecondType': 'TimestampMillisecond', 'TimestampSecondType': 'TimestampSecond', 'Decimal128Type': 'Decimal128', 'Decimal256Type': 'Decimal256'}
NATIVE_T = {'Int8': 'i8', 'Int16': 'i16', 'Int32': 'i32', 'Int64': 'i64', 'UInt8': 'u8', 'UInt16': 'u16', 'UInt32': 'u32', 'UInt64': 'u64', 'Date32': 'i32', 'Date64': 'i64',
            'TimestampNanosecond': 'i64', 'TimestampMicrosecond': 'i64', 'TimestampMillisecond': 'i64', 'TimestampSecond': 'i64', 'Decimal128': 'i128', 'Float32': 'f32', 'Float64': 'f64'}
ARRAYS = {k[:-4] + 'Array': v for k, v in PRIM.items()}
ARRAYS.update({'StringArray': 'Utf8', 'LargeStringArray': 'LargeUtf8', 'BooleanArray': 'Boolean', 'StringViewArray': 'Utf8View', 'BinaryArray': 'Binary'})

class Flt(Obj):
    """an IEEE value known by its bits: ('bits', Int) or a conversion of one"""
    def __init__(self, k, op, x): self.tname = k; self.k = k; self.op = op; self.x = x
    def __repr__(self): return f'{self.k}[{self.op} {self.x!r}]'
    def m_to_bits(self, it, a, c):
        if self.op == 'bits': return self.x
        return Int(z3.Function('bits_of_' + self.op, z3.IntSort(), z3.IntSort())(term(self.x)), 'u32' if self.k == 'f32' else 'u64')
    def m_clone(self, it, a, c): return self
    def eq_(self, o):
        o = deref(o)
        if not isinstance(o, Flt) or o.k != self.k or o.op != self.op: return False
        return eq(self.x, o.x)
    def m_eq(self, it, a, c): return self.eq_(a[0])
    def m_is_nan(self, it, a, c): raise Unsupported('is_nan')
    def cast_(self, n):
        if n == self.k: return self
        if n == 'f64': return widen(self)
        if n == 'f32':
            return self.x if self.op == 'widen' else Flt('f32', 'narrow', self.x)
        if n in INT: return Int(z3.Function(f'{self.k}_to_{n}_{self.op}', z3.IntSort(), z3.IntSort())(term(self.x)), n)
        raise Unsupported('float cast')
    def m_into(self, it, a, c): return widen(self) if self.k == 'f32' else self
    def m_is_finite(self, it, a, c): return True
    def display_(self, it): return Text([OpaquePiece(self)])
    debug_ = display_
def term(x):
    x = deref(x)
    if isinstance(x, Flt): return term(x.x)
    return z3.IntVal(x.v) if isinstance(x.v, int) else x.v
def widen(f): return f if f.k == 'f64' else f.x if f.op == 'narrow' and isinstance(f.x, Flt) else Flt('f64', 'widen', f)
def int_to_f64(i): return Flt('f64', 'of_int', i)
def int_to_f32(i): return Flt('f32', 'of_int', i)
def f64_from_bits(it, a, c): return Flt('f64', 'bits', deref(a[0]))
def f32_from_bits(it, a, c): return Flt('f32', 'bits', deref(a[0]))
EXT_FN['f64::from_bits'] = f64_from_bits; EXT_FN['f32::from_bits'] = f32_from_bits
def _f64from(it, a, c):
    v = deref(a[0])
    return widen(v) if isinstance(v, Flt) else int_to_f64(v) if type(v) is Int else v
EXT_FN['f64::from'] = _f64from

class DataTypeV: pass
def dt(name, *a): return Enum('DataType', name, {str(i): x for i, x in enumerate(a)})
def dt_of(k, p=None, s=None):
    if k.startswith('Timestamp'): return dt('Timestamp', Enum('TimeUnit', k[9:]), NONE())
    if k == 'Decimal128': return dt('Decimal128', p, s)
    return dt(k)
class Arr(Obj):
    tname = 'Array'
    def __init__(self, k, vals, p=None, s=None, name='array'):
        """vals: [(valid bool/term, value)]"""
        self.k = k; self.vals = list(vals); self.p = p if p is not None else Int(38, 'u8'); self.s = s if s is not None else Int(10, 'i8'); self.name = name
    def __repr__(self): return f'{self.k}{self.vals!r}'
    def show(self): return self.vals
    def m_len(self, it, a, c): return Int(len(self.vals), 'usize')
    def m_is_empty(self, it, a, c): return not self.vals
    def m_clone(self, it, a, c): return self
    def m_as_any(self, it, a, c): return self
    m_to_owned = m_as_ref = m_borrow = m_clone
    def m_data_type(self, it, a, c): return dt_of(self.k, self.p, self.s)
    def idx(self, i):
        i = deref(i)
        return conc_index(i, len(self.vals), 'array index')
    def m_is_null(self, it, a, c): return bnot(self.vals[self.idx(a[0])][0])
    def m_is_valid(self, it, a, c): return self.vals[self.idx(a[0])][0]
    def m_value(self, it, a, c):
        i = self.idx(a[0]); ok, v = self.vals[i]
        if ok is True or Ctx.cur.branch(ok): return v
        n = NATIVE_T.get(self.k)
        key = ('slot', id(self), i); d = Ctx.cur.user.setdefault('slots', {})
        if key not in d:
            if n in INT: d[key] = Int(Ctx.cur.fresh(f'{self.name}[{i}] under null'), n); Ctx.cur.add(z3.And(d[key].v >= INT[n][0], d[key].v <= INT[n][1])) if is_sym(d[key].v) else None
            elif n in FLOATS: b = Ctx.cur.fresh(f'{self.name}[{i}] under null'); t = 'u32' if n == 'f32' else 'u64'; Ctx.cur.add(z3.And(b >= 0, b <= INT[t][1])) if is_sym(b) else None; d[key] = Flt(n, 'bits', Int(b, t))
            elif self.k == 'Boolean': d[key] = Ctx.cur.fresh(f'{self.name}[{i}] under null', 'bool')
            else: d[key] = ''
        return d[key]
    m_value_unchecked = m_value
    def m_null_count(self, it, a, c):
        n = 0
        for ok, _ in self.vals:
            if not (ok is True or Ctx.cur.branch(ok)): n += 1
        return Int(n, 'usize')
    def is_ty(self, ty):
        if ty.n == 'PrimitiveArray' and ty.a: return PRIM.get(ty.a[0].n) == self.k
        return ARRAYS.get(ty.n) == self.k
    def m_iter(self, it, a, c): 
        return Iter((Some(self.m_value(it, [Int(i, 'usize')], c)) if ok is True or Ctx.cur.branch(ok) else NONE()) for i, (ok, v) in enumerate(list(self.vals)))
    m_into_iter = m_iter
    iter_ = lambda self, it: self.m_iter(it, [], None)
    def m_values(self, it, a, c): return Vec([self.m_value(it, [Int(i, 'usize')], c) for i in range(len(self.vals))])
    def m_slice(self, it, a, c):
        o = stdlib.cint(a[0]); n = stdlib.cint(a[1])
        if o + n > len(self.vals): raise Panic('array slice out of bounds')
        return Arr(self.k, self.vals[o:o + n], self.p, self.s, self.name)
    # decimals
    def m_precision(self, it, a, c): return self.p
    def m_scale(self, it, a, c): return self.s
    def m_with_precision_and_scale(self, it, a, c):
        p, s = deref(a[0]), deref(a[1]); pv, sv = p.v, s.v
        B = lambda x: x if isinstance(x, bool) else Ctx.cur.branch(mkbool(x))
        if B(pv == 0) or B(pv > 38) or B(sv > 38) or (B(sv > 0) and B(sv > pv)): return Err(Enum('ArrowError', 'InvalidArgumentError', {'0': 'precision and scale'}))
        return Ok(Arr(self.k, self.vals, p, s, self.name))
    def m_validate_decimal_precision(self, it, a, c):
        p = deref(a[0])
        for ok, v in self.vals:
            if (ok is True or Ctx.cur.branch(ok)) and not Ctx.cur.branch(fits(v.v, p.v)): return Err(Enum('ArrowError', 'InvalidArgumentError', {'0': 'too large to store in a decimal'}))
        return Ok(UNIT())
    def m_null_if_overflow_precision(self, it, a, c):
        p = deref(a[0]); out = []
        for ok, v in self.vals: out.append((ok, v) if not (ok is True or Ctx.cur.branch(ok)) or Ctx.cur.branch(fits(v.v, p.v)) else (False, v))
        return Arr(self.k, out, self.p, self.s, self.name)
    def debug_(self, it): return Text([OpaquePiece(self)])
    # typed views
    def view(self, it, c, ok, opt_):
        if opt_: return Some(self) if ok else NONE()
        if not ok: raise Panic('array downcast')
        return self
    def m_as_primitive_opt(self, it, a, c): return self.view(it, c, PRIM.get(c.tf[0].n) == self.k, True)
    def m_as_primitive(self, it, a, c): return self.view(it, c, PRIM.get(c.tf[0].n) == self.k, False)
    def m_as_boolean_opt(self, it, a, c): return self.view(it, c, self.k == 'Boolean', True)
    def m_as_boolean(self, it, a, c): return self.view(it, c, self.k == 'Boolean', False)
    def m_as_string_opt(self, it, a, c): return self.view(it, c, self.k == 'Utf8', True)
    def m_as_string(self, it, a, c): return self.view(it, c, self.k == 'Utf8', False)
def pow10m1(p):
    """10^p - 1"""
    if isinstance(p, int): return 10**p - 1
    e = z3.IntVal(10**38 - 1)
    for k in range(38): e = z3.If(p == k, z3.IntVal(10**k - 1), e)
    return e
def fits(v, p):
    m = pow10m1(p)
    if isinstance(v, int) and isinstance(m, int): return -m <= v <= m
    return z3.And(v <= m, v >= -m)
def from_iter(k):
    def f(it, a, c):
        kk = k
        if kk is None:
            ty = c.hint
            kk = PRIM.get(ty.a[0].n) if ty is not None and ty.a else None
            if kk is None: raise Unsupported(f'collect into {ty}')
        out = []
        n = NATIVE_T.get(kk)
        for x in deref(a[0]).a:
            x = deref(x)
            if type(x) is Enum and x.ty == 'Option':
                if x.var == 'None': out.append((False, None)); continue
                x = deref(x.f['0'])
            if n in INT and type(x) is Int:
                if x.t is None: x = Int(x.v, n)
                if x.t != n: raise Unsupported(f'{x.t} into {kk}')
            out.append((True, x))
        return Arr(kk, out)
    return f
EXT_FN['PrimitiveArray::from_iter'] = from_iter(None)
for _n, _k in ARRAYS.items():
    EXT_FN[_n + '::from_iter'] = EXT_FN[_n + '::from'] = EXT_FN[_n + '::from_iter_values'] = from_iter(_k)
EXT_FN['PrimitiveArray::from_iter_values'] = from_iter(None)

class Scalar(Obj):
    """a ScalarValue argument"""
    tname = 'ScalarValue'
    def __init__(self, k, ok, v, p=None, s=None): self.k = k; self.ok = ok; self.v = v; self.p = p; self.s = s
    def m_clone(self, it, a, c): return self
    def m_to_array_of_size(self, it, a, c): return Ok(Arr(self.k, [(self.ok, self.v)] * stdlib.cint(a[0]), self.p, self.s))
    def m_to_array(self, it, a, c): return Ok(Arr(self.k, [(self.ok, self.v)], self.p, self.s))
    def m_is_null(self, it, a, c): return bnot(self.ok)
def cv_into_array(it, v, a, c):
    x = deref(v.f['0'])
    return Ok(x) if v.var == 'Array' else x.m_to_array_of_size(it, a, c)
METHODS[('ColumnarValue', 'into_array')] = METHODS[('ColumnarValue', 'to_array')] = cv_into_array
EXT_FN['ColumnarValue::from'] = lambda it, a, c: Enum('ColumnarValue', 'Array' if isinstance(deref(a[0]), Arr) else 'Scalar', {'0': deref(a[0])})
def _values_to_arrays(it, a, c):
    # DataFusion: one length for all arrays; scalars expanded to it
    args = [deref(x) for x in deref(a[0]).a]; n = None
    for x in args:
        if x.var == 'Array':
            m = len(deref(x.f['0']).vals)
            if n is not None and m != n: return Err(Enum('DataFusionError', 'Internal', {'0': 'mixed lengths'}))
            n = m
    return Ok(Vec([cv_into_array(it, x, [Int(1 if n is None else n, 'usize')], c).f['0'] for x in args]))
EXT_FN['ColumnarValue::values_to_arrays'] = _values_to_arrays
