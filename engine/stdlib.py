"""Models of the Rust standard library and small utility crates."""
import re, functools, itertools
import z3
from .values import *
from .interp import *
from .interp import Formatter, NullMetric, OpaquePiece, slice_bounds, conc_index, it_field

STR = (str, SymStr, Text)
def callf(it, f, *a): return it.call(f, list(a))
def truth(v): return Ctx.cur.branch(deref(v))
def usz(n): return Int(n, 'usize')

# ---------------------------------------------------------------- universal
@anymethod('clone', 'to_owned', 'cloned', 'copied')
def _clone(it, v, a, c):
    if type(v) is Vec and False: pass
    if type(v) is Iter: return Iter(clone(x) for x in v)
    return clone(v)
@anymethod('as_ref', 'borrow', 'as_any', 'as_slice', 'as_str', 'as_deref', 'by_ref', 'boxed', 'as_bytes_ref', 'into_boxed_str', 'into_boxed_slice',
           'as_path', 'as_os_str', 'into_any', 'as_mut_any', 'fuse', 'into_future', 'as_object_store', 'shared', 'into_inner_arc', 'as_fields', 'normalize_arc')
def _ident(it, v, a, c): return v
@anymethod('as_mut', 'borrow_mut', 'as_deref_mut', 'as_mut_slice', 'deref_mut')
def _identm(it, v, a, c): return c.place if c.place is not None else v
@anymethod('deref')
def _deref(it, v, a, c):
    m = getattr(v, 'deref_', None)
    return m(it) if m else v
@anymethod('into')
def _into(it, v, a, c): return it.into(v, c.hint)
@anymethod('try_into')
def _tryinto(it, v, a, c):
    h = c.hint
    if h is not None and h.n == 'Result' and h.a: h = h.a[0]
    return tryfrom(it, v, h)
def tryfrom(it, v, h):
    v = deref(v)
    if h is not None and h.n in INT and type(v) is Int:
        lo, hi = INT[h.n]
        ok = mkbool(band(v.v >= lo, v.v <= hi)) if not v.conc() else lo <= v.v <= hi
        return Ok(Int(v.v, h.n)) if Ctx.cur.branch(ok) else Err(Enum('TryFromIntError', 'TryFromIntError'))
    if h is not None and h.d is not None:
        for f in h.d.assoc.get('try_from', []):
            if it.matches_ty(v, f.types()[0]) is not False: return it.call_def(f, [v])
    if h is not None:
        for (k, t, s, f) in it.p.from_impls:
            if k == 'TryFrom' and t.n == h.n and it.matches_ty(v, s): return it.call_def(f, [v])
        g = EXT_FN.get(f'{h.n}::try_from')
        if g: return g(it, [v], CC(hint=h))
    if h is None and type(v) is Int and v.conc() and 0 <= v.v <= 127: return Ok(Int(v.v, None))   # fits whatever the target is
    raise Unsupported(f'try_into {h} of {v!r:.60}')
@ext('T::try_from')
def _t_try_from(it, a, c): return tryfrom(it, a[0], c.hint)
@ext('T::from')
def _t_from(it, a, c):
    return it.into(a[0], c.hint)
for _t in list(INT) + list(FLOATS):
    EXT_FN[f'{_t}::from'] = (lambda t: lambda it, a, c: it.into(a[0], Ty(t)))(_t)
    EXT_FN[f'{_t}::try_from'] = (lambda t: lambda it, a, c: tryfrom(it, a[0], Ty(t)))(_t)
@anymethod('eq')
def _eq(it, v, a, c):
    return eq(v, a[0], it) if len(a) == 1 else NotImplemented
@anymethod('ne')
def _ne(it, v, a, c): return bnot(eq(v, a[0], it))
@anymethod('cmp')
def _cmp(it, v, a, c):
    return Enum('Ordering', {-1: 'Less', 0: 'Equal', 1: 'Greater'}[it.compare(v, a[0])])
@anymethod('partial_cmp')
def _pcmp(it, v, a, c):
    o = it.compare(v, a[0])
    return NONE() if o is None else Some(Enum('Ordering', {-1: 'Less', 0: 'Equal', 1: 'Greater'}[o]))
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
    def _mk(o):
        def f(it, v, a, c): return it.cmp_bool(o, v, a[0]) if isinstance(v, (Int, float, str, SymStr)) or is_sym(v) else NotImplemented
        return f
    ANY_METHODS[_n] = _mk(_o)
@anymethod('to_string', 'to_string_lossy', 'display', 'render_text')
def _to_string(it, v, a, c): return it.to_text(v)
@anymethod('fmt')
def _fmt(it, v, a, c): a = deref(a[0]); a.push(it.to_text(v)); return Ok(UNIT())
@anymethod('hash')
def _hash(it, v, a, c):
    h = deref(a[0])
    if hasattr(h, 'feed'): h.feed(v)
    return UNIT()
@anymethod('type_id')
def _tid(it, v, a, c): return tname(v)
@anymethod('downcast_ref', 'downcast', 'downcast_mut')
def _downcast(it, v, a, c):
    ty = c.tf[0] if c.tf else None
    if ty is None: raise Unsupported('downcast without a type')
    m = getattr(v, 'is_type', None); m2 = getattr(v, 'is_ty', None)
    r = m2(ty) if m2 else m(ty.n) if m else it.matches_ty(v, ty)
    if r is None: raise Unsupported(f'downcast to {ty}')
    if r: return Some(v)
    return NONE()
@anymethod('is')
def _is(it, v, a, c):
    ty = c.tf[0]; m = getattr(v, 'is_type', None); m2 = getattr(v, 'is_ty', None)
    return m2(ty) if m2 else m(ty.n) if m else bool(it.matches_ty(v, ty))
@anymethod('then')
def _then(it, v, a, c): return NotImplemented
@anymethod('max')
def _max(it, v, a, c):
    if len(a) != 1: return NotImplemented
    b = deref(a[0])
    if type(v) is Int and type(b) is Int:
        if v.conc() and b.conc(): return Int(max(v.v, b.v), v.t or b.t)
        return Int(z3.If(v.v >= b.v, z3.IntVal(v.v) if v.conc() else v.v, z3.IntVal(b.v) if b.conc() else b.v), v.t or b.t)
    if isinstance(v, float) and isinstance(b, float): return b if v != v else v if b != b else max(v, b)
    return b if it.compare(v, b) <= 0 else v
@anymethod('min')
def _min(it, v, a, c):
    if len(a) != 1: return NotImplemented
    b = deref(a[0])
    if type(v) is Int and type(b) is Int:
        if v.conc() and b.conc(): return Int(min(v.v, b.v), v.t or b.t)
        return Int(z3.If(v.v <= b.v, z3.IntVal(v.v) if v.conc() else v.v, z3.IntVal(b.v) if b.conc() else b.v), v.t or b.t)
    if isinstance(v, float) and isinstance(b, float): return b if v != v else v if b != b else min(v, b)
    return v if it.compare(v, b) <= 0 else b
METHODS[(Int, 'max')] = METHODS[(float, 'max')] = _max; METHODS[(Int, 'min')] = METHODS[(float, 'min')] = _min
@anymethod('clamp')
def _clamp(it, v, a, c): return _min(it, _max(it, v, [a[0]], c), [a[1]], c)

# ---------------------------------------------------------------- ints
@method(Int, 'checked_sub', 'checked_add', 'checked_mul')
def _checked(it, v, a, c, name=None): raise Unsupported('checked op')
def _mkchecked(op, kind):
    def f(it, v, a, c):
        b = deref(a[0]); t = v.t or b.t
        if type(b) is not Int: return NotImplemented
        r = v.v + b.v if op == '+' else v.v - b.v if op == '-' else v.v * b.v
        if t not in INT: return Int(r, t) if kind not in ('checked', 'overflowing') else Some(Int(r, t))
        lo, hi = INT[t]
        if isinstance(r, int): ok = lo <= r <= hi
        elif kind == 'saturating':
            return Int(z3.simplify(z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r))), t)
        else: r = z3.simplify(r); ok = Ctx.cur.branch(z3.And(r >= lo, r <= hi))
        if kind == 'checked': return Some(Int(r, t)) if ok else NONE()
        if kind == 'saturating':
            if ok: return Int(r, t)
            if isinstance(r, int): return Int(lo if r < lo else hi, t)
            return Int(lo if Ctx.cur.branch(r < lo) else hi, t)
        if kind == 'wrapping':
            return Int(r if ok else it.wrap(r, t), t)
        if kind == 'overflowing': return Tup([Int(r if ok else it.wrap(r, t), t), not ok])
    return f
for _op, _nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul')):
    for _k in ('checked', 'saturating', 'wrapping', 'overflowing'):
        METHODS[(Int, f'{_k}_{_nm}')] = _mkchecked(_op, _k)
@method(Int, 'checked_div', 'checked_rem')
def _cdiv(it, v, a, c):
    b = deref(a[0])
    if Ctx.cur.branch(eq(b, Int(0))): return NONE()
    return Some(it.arith('/', v, b))
@method(Int, 'div_ceil')
def _divceil(it, v, a, c):
    b = deref(a[0])
    if v.conc() and b.conc(): return Int(-(-v.v // b.v), v.t)
    if Ctx.cur.branch(b.v == 0): raise Panic('attempt to divide by zero')
    return Int(z3.simplify((v.v + b.v - 1) / b.v), v.t)
@method(Int, 'next_multiple_of')
def _nmo(it, v, a, c):
    b = deref(a[0]); q = _divceil(it, v, a, c); return it.arith('*', q, b)
@method(Int, 'rem_euclid')
def _reme(it, v, a, c): return Int(v.v % deref(a[0]).v, v.t)
@method(Int, 'div_euclid')
def _dive(it, v, a, c): b = deref(a[0]); return Int(v.v // b.v if v.conc() and b.conc() else v.v / b.v, v.t)
@method(Int, 'abs')
def _abs(it, v, a, c):
    if v.conc(): return Int(abs(v.v), v.t)
    return Int(z3.If(v.v < 0, -v.v, v.v), v.t)
@method(Int, 'unsigned_abs')
def _uabs(it, v, a, c):
    t = 'u' + v.t[1:] if v.t else None
    if v.conc(): return Int(abs(v.v), t)
    return Int(z3.If(v.v < 0, -v.v, v.v), t)
@method(Int, 'abs_diff')
def _absd(it, v, a, c):
    b = deref(a[0]); d = v.v - b.v
    return Int(abs(d) if isinstance(d, int) else z3.If(d < 0, -d, d), 'u' + v.t[1:] if v.t and v.t[0] == 'i' else v.t)
@method(Int, 'pow')
def _pow(it, v, a, c): return it.ranged(v.v ** cint(a[0]), v.t, 'multiply')
@method(Int, 'is_positive')
def _ip(it, v, a, c): return mkbool(v.v > 0)
@method(Int, 'is_negative')
def _in(it, v, a, c): return mkbool(v.v < 0)
@method(Int, 'signum')
def _sg(it, v, a, c): return Int(z3.If(v.v < 0, -1, z3.If(v.v > 0, 1, 0)) if not v.conc() else (v.v > 0) - (v.v < 0), v.t)
@method(Int, 'to_ne_bytes', 'to_le_bytes', 'as_bytes')
def _tnb(it, v, a, c):
    n = {'8': 1, '16': 2, '32': 4, '64': 8, 'size': 8, '128': 16}[v.t[1:]]
    if v.conc(): return Vec([Int(b, 'u8') for b in (v.v % (1 << 8*n)).to_bytes(n, 'little')])
    for t, bs in Ctx.cur.user.get('bytes', ()):      # an integer given by its bytes
        if t.eq(v.v) and len(bs) <= n: return Vec([Int(b, 'u8') for b in bs] + [Int(0, 'u8')] * (n - len(bs)))
    lo, hi = INT[v.t]
    u = v.v if lo == 0 else z3.If(v.v < 0, v.v + (hi - lo + 1), v.v)
    return Vec([Int(z3.simplify((u / (1 << (8*i))) % 256), 'u8') for i in range(n)])
def _fnb(t):
    def f(it, a, c):
        bs = deref(a[0]).a
        n = {'8': 1, '16': 2, '32': 4, '64': 8, 'size': 8, '128': 16}[t[1:]]
        if len(bs) != n: raise Unsupported('from_ne_bytes length')
        r = 0
        for i, b in enumerate(bs): r = r + ival(b) * (1 << (8*i))
        if is_sym(r): r = z3.simplify(r)
        lo, hi = INT[t]
        if lo < 0:
            r = r - (hi - lo + 1) if isinstance(r, int) and r > hi else r if isinstance(r, int) else z3.If(r > hi, r - (hi - lo + 1), r)
        return Int(r, t)
    return f
for _t in INT: EXT_FN[f'{_t}::from_ne_bytes'] = EXT_FN[f'{_t}::from_le_bytes'] = _fnb(_t)
def _frombe(t):
    f = _fnb(t)
    def g(it, a, c): return f(it, [Vec(list(reversed(deref(a[0]).a)))], c)
    return g
for _t in INT: EXT_FN[f'{_t}::from_be_bytes'] = _frombe(_t)
@method(Int, 'to_be_bytes')
def _tbb(it, v, a, c): return Vec(list(reversed(_tnb(it, v, a, c).a)))
for _t in INT:
    def _fsr(t):
        def f(it, a, c):
            s = deref(a[0]); r = parse_int(it, s, t)
            return r
        return f
    EXT_FN[f'{_t}::from_str'] = _fsr(_t)
    def _fsrr(t):
        def f(it, a, c):
            s = deref(a[0])
            try: return Ok(Int(int(s, cint(a[1])), t))
            except ValueError: return Err(Enum('ParseIntError', 'ParseIntError'))
        return f
    EXT_FN[f'{_t}::from_str_radix'] = _fsrr(_t)
    EXT_FN[f'{_t}::max'] = lambda it, a, c: _max(it, deref(a[0]), a[1:], c)
    EXT_FN[f'{_t}::min'] = lambda it, a, c: _min(it, deref(a[0]), a[1:], c)
@ext('cmp::max', 'max')
def _fmax(it, a, c): return _max(it, deref(a[0]), a[1:], c)
@ext('cmp::min', 'min')
def _fmin(it, a, c):
    if len(a) != 2: raise Unsupported('min')
    return _min(it, deref(a[0]), a[1:], c)
@method(float, 'is_finite')
def _isf(it, v, a, c): return v == v and abs(v) != float('inf') if isinstance(v, float) else True
@method(float, 'is_nan')
def _isn(it, v, a, c): return v != v if isinstance(v, float) else False
@method(float, 'is_infinite')
def _isi(it, v, a, c): return isinstance(v, float) and abs(v) == float('inf')
@method(float, 'to_bits')
def _tob(it, v, a, c):
    import struct
    if is_sym(v): return Int(z3.Function('f64_bits', z3.RealSort(), z3.IntSort())(v), 'u64')
    return Int(struct.unpack('<Q', struct.pack('<d', v))[0], 'u64')
@method(float, 'round', 'floor', 'ceil', 'abs', 'sqrt', 'trunc')
def _fl(it, v, a, c): raise Unsupported('float function')
@method(float, 'trunc')
def _ftr(it, v, a, c):
    import math
    return float(math.trunc(v)) if isinstance(v, float) else z3.ToReal(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
CONSTS['f64::NAN'] = CONSTS['f32::NAN'] = float('nan')
CONSTS['f64::INFINITY'] = CONSTS['f32::INFINITY'] = float('inf')
CONSTS['f64::NEG_INFINITY'] = CONSTS['f32::NEG_INFINITY'] = float('-inf')
CONSTS['f64::MAX'] = 1.7976931348623157e308; CONSTS['f64::MIN'] = -1.7976931348623157e308
CONSTS['f32::MAX'] = 3.4028234663852886e38
CONSTS['f64::EPSILON'] = 2.220446049250313e-16

# bool
@method(bool, 'then')
def _bthen(it, v, a, c): return Some(callf(it, a[0])) if truth(v) else NONE()
@method(bool, 'then_some')
def _bts(it, v, a, c): return Some(a[0]) if truth(v) else NONE()
@method(bool, 'not')
def _bnot(it, v, a, c): return bnot(v)

# ---------------------------------------------------------------- Option / Result
O = 'Option'; R = 'Result'
def om(name):
    def d(f): METHODS[(O, name)] = f; return f
    return d
def rm(*names):
    def d(f):
        for n in names: METHODS[(R, n)] = f
        return f
    return d
def payload_ref(it, v, c):
    """payload of Some/Ok as a place reference if the receiver was reached mutably"""
    return it.elem_ref(v.f, '0')
def _ormethod(name, f):
    METHODS[(O, name)] = f; METHODS[(R, name)] = f
def isgood(v): return v.var in ('Some', 'Ok')
_ormethod('is_some', lambda it, v, a, c: v.var == 'Some')
_ormethod('is_none', lambda it, v, a, c: v.var == 'None')
_ormethod('is_ok', lambda it, v, a, c: v.var == 'Ok')
_ormethod('is_err', lambda it, v, a, c: v.var == 'Err')
def _isand(it, v, a, c): return callf(it, a[0], v.f['0']) if isgood(v) else False
_ormethod('is_some_and', _isand); _ormethod('is_ok_and', _isand)
METHODS[(O, 'is_none_or')] = lambda it, v, a, c: callf(it, a[0], v.f['0']) if isgood(v) else True
METHODS[(R, 'is_err_and')] = lambda it, v, a, c: callf(it, a[0], v.f['0']) if not isgood(v) else False
def _unwrap(it, v, a, c):
    if isgood(v): return v.f['0']
    raise Panic(f'called unwrap on {v!r:.100} at {c.file}:{c.line}')
_ormethod('unwrap', _unwrap); _ormethod('expect', _unwrap); _ormethod('unwrap_unchecked', _unwrap)
def _unwrap_err(it, v, a, c):
    if v.var == 'Err': return v.f['0']
    raise Panic('called unwrap_err on Ok')
METHODS[(R, 'unwrap_err')] = METHODS[(R, 'expect_err')] = _unwrap_err
_ormethod('unwrap_or', lambda it, v, a, c: v.f['0'] if isgood(v) else a[0])
def _uoe(it, v, a, c):
    if isgood(v): return v.f['0']
    return callf(it, a[0]) if v.var == 'None' else callf(it, a[0], v.f['0'])
_ormethod('unwrap_or_else', _uoe)
def _uod(it, v, a, c):
    if isgood(v): return v.f['0']
    h = c.hint
    if h is None: return DefaultVal()
    return it.default_of(h)
_ormethod('unwrap_or_default', _uod)
class DefaultVal(Obj):
    """Default::default() of a type inferred later"""
    def iter_(self, it): return []
    def op_(self, it, op, b): return it.arith(op, zero_like(b), b)
    def rop_(self, it, op, a): return it.arith(op, a, zero_like(a))
    def eq_(self, o): return eq(zero_like(o), o)
    def m_len(self, it, a, c): return Int(0, 'usize')
    def m_is_empty(self, it, a, c): return True
    def m_iter(self, it, a, c): return Iter([])
    m_into_iter = m_iter
    def display_(self, it): return ''
    def cmp_(self, it, o): return it.compare(zero_like(o), o)
    def m_clone(self, it, a, c): return self
def zero_like(b):
    b = deref(b)
    if type(b) is Int: return Int(0, b.t)
    if isinstance(b, bool) or z3.is_bool(b): return False
    if type(b) in STR: return ''
    if isinstance(b, float) or is_sym(b): return 0.0
    if type(b) is Vec: return Vec([])
    if type(b) is Map: return Map(b.k, set=b.set)
    if isinstance(b, DefaultVal): return Int(0)
    if type(b) is Enum and b.ty == 'Option': return NONE()
    raise Unsupported('default like ' + repr(b))
def _map(it, v, a, c):
    if not isgood(v): return copyval(v)
    x = v.f['0']
    return Enum(v.ty, v.var, {'0': callf(it, a[0], x)})
_ormethod('map', _map)
def _inspect(it, v, a, c):
    if isgood(v): callf(it, a[0], v.f['0'])
    return v
_ormethod('inspect', _inspect)
def _inspecte(it, v, a, c):
    if v.var == 'Err': callf(it, a[0], v.f['0'])
    return v
METHODS[(R, 'inspect_err')] = _inspecte
METHODS[(R, 'map_err')] = lambda it, v, a, c: Err(callf(it, a[0], v.f['0'])) if v.var == 'Err' else v
_ormethod('and_then', lambda it, v, a, c: callf(it, a[0], v.f['0']) if isgood(v) else copyval(v))
_ormethod('and', lambda it, v, a, c: a[0] if isgood(v) else copyval(v))
METHODS[(O, 'or')] = lambda it, v, a, c: v if isgood(v) else a[0]
METHODS[(R, 'or')] = METHODS[(O, 'or')]
def _orelse(it, v, a, c):
    if isgood(v): return v
    return callf(it, a[0]) if v.var == 'None' else callf(it, a[0], v.f['0'])
_ormethod('or_else', _orelse)
def _xor(it, v, a, c):
    b = deref(a[0])
    return v if isgood(v) and not isgood(b) else b if isgood(b) and not isgood(v) else NONE()
METHODS[(O, 'xor')] = _xor
def _mapor(it, v, a, c): return callf(it, a[1], v.f['0']) if isgood(v) else a[0]
_ormethod('map_or', _mapor)
def _mapore(it, v, a, c):
    if isgood(v): return callf(it, a[1], v.f['0'])
    return callf(it, a[0]) if v.var == 'None' else callf(it, a[0], v.f['0'])
_ormethod('map_or_else', _mapore)
METHODS[(O, 'ok_or')] = lambda it, v, a, c: Ok(v.f['0']) if isgood(v) else Err(a[0])
METHODS[(O, 'ok_or_else')] = lambda it, v, a, c: Ok(v.f['0']) if isgood(v) else Err(callf(it, a[0]))
METHODS[(R, 'ok')] = lambda it, v, a, c: Some(v.f['0']) if isgood(v) else NONE()
METHODS[(R, 'err')] = lambda it, v, a, c: Some(v.f['0']) if v.var == 'Err' else NONE()
METHODS[(O, 'filter')] = lambda it, v, a, c: v if isgood(v) and truth(callf(it, a[0], v.f['0'])) else NONE()
def _oiter(it, v, a, c): return Iter([v.f['0']] if isgood(v) else [])
_ormethod('iter', _oiter); _ormethod('into_iter', _oiter)
_ormethod('iter_mut', lambda it, v, a, c: Iter([it.elem_ref(v.f, '0')] if isgood(v) else []))
def _otake(it, v, a, c):
    r = Enum(v.ty, v.var, dict(v.f))
    v.var = 'None'; v.f = {}
    return r
METHODS[(O, 'take')] = _otake
def _oreplace(it, v, a, c):
    r = Enum(v.ty, v.var, dict(v.f)); v.var = 'Some'; v.f = {'0': a[0]}; return r
METHODS[(O, 'replace')] = _oreplace
def _oinsert(it, v, a, c): v.var = 'Some'; v.f = {'0': a[0]}; return it.elem_ref(v.f, '0')
METHODS[(O, 'insert')] = _oinsert
def _ogoi(it, v, a, c):
    if v.var == 'None': v.var = 'Some'; v.f = {'0': a[0]}
    return it.elem_ref(v.f, '0')
METHODS[(O, 'get_or_insert')] = _ogoi
def _ogoiw(it, v, a, c):
    if v.var == 'None': x = callf(it, a[0]); v.var = 'Some'; v.f = {'0': x}
    return it.elem_ref(v.f, '0')
METHODS[(O, 'get_or_insert_with')] = _ogoiw
def _oasmut(it, v, a, c):
    if isgood(v): return Enum(v.ty, v.var, {'0': it.elem_ref(v.f, '0')})
    return copyval(v)
_ormethod('as_mut', _oasmut); _ormethod('as_deref_mut', _oasmut)
_ormethod('as_ref', lambda it, v, a, c: v); _ormethod('as_deref', lambda it, v, a, c: v)
def _transpose(it, v, a, c):
    if v.ty == 'Option':
        if v.var == 'None': return Ok(NONE())
        r = deref(v.f['0'])
        return Ok(Some(r.f['0'])) if r.var == 'Ok' else Err(r.f['0'])
    if v.var == 'Err': return Some(Err(v.f['0']))
    o = deref(v.f['0'])
    return Some(Ok(o.f['0'])) if o.var == 'Some' else NONE()
_ormethod('transpose', _transpose)
def _flatten(it, v, a, c): return deref(v.f['0']) if isgood(v) else copyval(v)
_ormethod('flatten', _flatten)
def _ozip(it, v, a, c):
    b = deref(a[0])
    return Some(Tup([v.f['0'], b.f['0']])) if isgood(v) and isgood(b) else NONE()
METHODS[(O, 'zip')] = _ozip
METHODS[(O, 'unzip')] = lambda it, v, a, c: Tup([Some(v.f['0'].a[0]), Some(v.f['0'].a[1])]) if isgood(v) else Tup([NONE(), NONE()])
_ormethod('copied', lambda it, v, a, c: clone(v)); _ormethod('cloned', lambda it, v, a, c: clone(v))
@rm('context', 'with_context')
def _ctx(it, v, a, c):
    if isgood(v): return v
    return v
METHODS[(O, 'context')] = lambda it, v, a, c: Ok(v.f['0']) if isgood(v) else Err(Struct('AnyhowError', {'0': it.to_text(a[0])}))
# Ordering
for _n, _f in {'is_lt': ('Less',), 'is_gt': ('Greater',), 'is_eq': ('Equal',), 'is_le': ('Less', 'Equal'), 'is_ge': ('Greater', 'Equal'), 'is_ne': ('Less', 'Greater')}.items():
    METHODS[('Ordering', _n)] = (lambda fs: lambda it, v, a, c: v.var in fs)(_f)
METHODS[('Ordering', 'reverse')] = lambda it, v, a, c: Enum('Ordering', {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[v.var])
METHODS[('Ordering', 'then')] = lambda it, v, a, c: v if v.var != 'Equal' else a[0]
METHODS[('Ordering', 'then_with')] = lambda it, v, a, c: v if v.var != 'Equal' else callf(it, a[0])

# ---------------------------------------------------------------- Vec / slices
@ext('Vec::new', 'VecDeque::new', 'Vec::with_capacity', 'VecDeque::with_capacity')
def _vnew(it, a, c): return Vec([], k=c.path[-2] if c.path else 'Vec')
@ext('Vec::from', 'VecDeque::from', 'Vec::from_iter', 'VecDeque::from_iter', 'Box::from_iter')
def _vfrom(it, a, c):
    v = deref(a[0])
    if type(v) is str: return Vec([Int(b, 'u8') for b in v.encode()])
    return Vec(list(it.iter_of(v)))
def vm(*names): return method(Vec, *names)
@vm('push', 'push_back')
def _push(it, v, a, c): v.a.append(a[0]); return UNIT()
@vm('push_front')
def _pushf(it, v, a, c): v.a.insert(0, a[0]); return UNIT()
@vm('pop', 'pop_back')
def _pop(it, v, a, c): return Some(v.a.pop()) if v.a else NONE()
@vm('pop_front')
def _popf(it, v, a, c): return Some(v.a.pop(0)) if v.a else NONE()
@vm('len')
def _len(it, v, a, c): return usz(len(v.a))
@vm('is_empty')
def _empty(it, v, a, c): return not v.a
@vm('iter', 'into_iter', 'iter_ref')
def _iter(it, v, a, c):
    return Iter(list(v.a))
@vm('iter_mut')
def _itermut(it, v, a, c): return Iter(it.vec_refs(v))
@vm('get')
def _vget(it, v, a, c):
    i = deref(a[0])
    if type(i) is Struct:
        try: lo, hi = slice_bounds(i, len(v.a))
        except Panic: return NONE()
        return Some(Vec(v.a[lo:hi]))
    try: k = conc_index(i, len(v.a))
    except Panic: return NONE()
    return Some(v.a[k])
@vm('get_mut')
def _vgetm(it, v, a, c):
    try: k = conc_index(deref(a[0]), len(v.a))
    except Panic: return NONE()
    return Some(it.elem_ref(v.a, k))
@vm('first', 'front', 'peek_front')
def _first(it, v, a, c): return Some(v.a[0]) if v.a else NONE()
@vm('last', 'back')
def _last(it, v, a, c): return Some(v.a[-1]) if v.a else NONE()
@vm('first_mut', 'front_mut')
def _firstm(it, v, a, c): return Some(it.elem_ref(v.a, 0)) if v.a else NONE()
@vm('last_mut', 'back_mut')
def _lastm(it, v, a, c): return Some(it.elem_ref(v.a, len(v.a) - 1)) if v.a else NONE()
@vm('insert')
def _vins(it, v, a, c):
    i = cint(a[0])
    if i > len(v.a): raise Panic('insertion index out of range')
    v.a.insert(i, a[1]); return UNIT()
@vm('remove', 'swap_remove')
def _vrem(it, v, a, c):
    k = deref(a[0])
    if v.k == 'VecDeque':
        try: i = conc_index(k, len(v.a))
        except Panic: return NONE()
        return Some(v.a.pop(i))
    i = conc_index(k, len(v.a))
    return v.a.pop(i)
@vm('swap_remove')
def _vsrem(it, v, a, c):
    i = conc_index(deref(a[0]), len(v.a)); x = v.a[i]; v.a[i] = v.a[-1]; v.a.pop(); return x
@vm('extend', 'extend_from_slice', 'append')
def _extend(it, v, a, c):
    src = deref(a[0])
    xs = list(it.iter_of(src))
    v.a.extend(xs)
    if c is not None and c.path == 'append' and type(src) is Vec: src.a.clear()
    return UNIT()
@vm('append')
def _append(it, v, a, c):
    src = deref(a[0]); v.a.extend(src.a); src.a = []; return UNIT()
@vm('clear')
def _clear(it, v, a, c): v.a.clear(); return UNIT()
@vm('truncate')
def _trunc(it, v, a, c): del v.a[cint(a[0]):]; return UNIT()
@vm('reserve', 'shrink_to_fit', 'reserve_exact')
def _reserve(it, v, a, c): return UNIT()
@vm('capacity')
def _cap(it, v, a, c): return usz(len(v.a))
@vm('resize')
def _resize(it, v, a, c):
    n = cint(a[0])
    if n < len(v.a): del v.a[n:]
    while len(v.a) < n: v.a.append(clone(a[1]))
    return UNIT()
@vm('split_off')
def _splitoff(it, v, a, c):
    k = cint(a[0])
    if k > len(v.a): raise Panic('split_off out of range')
    r = Vec(v.a[k:]); del v.a[k:]; return r
@vm('split_at')
def _splitat(it, v, a, c): k = cint(a[0]); return Tup([Vec(v.a[:k]), Vec(v.a[k:])])
@vm('drain')
def _drain(it, v, a, c):
    r = deref(a[0]); lo, hi = slice_bounds(r, len(v.a)); xs = v.a[lo:hi]; del v.a[lo:hi]; return Iter(xs)
@vm('to_vec', 'into_vec', 'as_slice', 'into_boxed_slice', 'to_owned', 'into_bytes', 'as_bytes')
def _tovec(it, v, a, c): return Vec(list(v.a))
@vm('as_slice', 'as_ref')
def _asl(it, v, a, c): return v
@vm('contains')
def _vcontains(it, v, a, c):
    return mkbool(bor(*[eq(x, a[0], it) for x in v.a]))
@vm('swap')
def _swap(it, v, a, c):
    i, j = cint(a[0]), cint(a[1]); v.a[i], v.a[j] = v.a[j], v.a[i]; return UNIT()
@vm('reverse')
def _rev(it, v, a, c): v.a.reverse(); return UNIT()
@vm('join', 'concat')
def _join(it, v, a, c):
    if not a:
        if v.a and type(deref(v.a[0])) is Vec: return Vec([y for x in v.a for y in deref(x).a])
        return mktext([it.to_text(x) for x in v.a])
    out = []
    for i, x in enumerate(v.a):
        if i: out.append(deref(a[0]))
        out.append(it.to_text(x))
    return mktext(out)
def sort_list(it, xs, cmpf): return sorted(xs, key=functools.cmp_to_key(cmpf))
@vm('sort', 'sort_unstable')
def _sort(it, v, a, c): v.a[:] = sort_list(it, v.a, lambda x, y: it.compare(x, y)); return UNIT()
ORD = {'Less': -1, 'Equal': 0, 'Greater': 1}
@vm('sort_by', 'sort_unstable_by')
def _sortby(it, v, a, c): v.a[:] = sort_list(it, v.a, lambda x, y: ORD[deref(callf(it, a[0], x, y)).var]); return UNIT()
@vm('sort_by_key', 'sort_by_cached_key', 'sort_unstable_by_key')
def _sortbk(it, v, a, c): v.a[:] = sort_list(it, v.a, lambda x, y: it.compare(callf(it, a[0], x), callf(it, a[0], y))); return UNIT()
@vm('dedup')
def _dedup(it, v, a, c):
    out = []
    for x in v.a:
        if not out or not truth(eq(out[-1], x, it)): out.append(x)
    v.a[:] = out; return UNIT()
@vm('retain', 'retain_mut')
def _retain(it, v, a, c):
    v.a[:] = [x for i, x in enumerate(list(v.a)) if truth(callf(it, a[0], x))]; return UNIT()
@vm('chunks', 'chunks_exact')
def _chunks(it, v, a, c):
    n = cint(a[0])
    if n == 0: raise Panic('chunk size must be non-zero')
    return Iter([Vec(v.a[i:i+n]) for i in range(0, len(v.a), n)])
@vm('windows')
def _windows(it, v, a, c): n = cint(a[0]); return Iter([Vec(v.a[i:i+n]) for i in range(0, len(v.a) - n + 1)])
@vm('starts_with')
def _vsw(it, v, a, c):
    p = deref(a[0]).a
    return len(p) <= len(v.a) and mkbool(band(*[eq(x, y, it) for x, y in zip(v.a, p)]))
@vm('split_first')
def _splitf(it, v, a, c): return Some(Tup([v.a[0], Vec(v.a[1:])])) if v.a else NONE()
@vm('split_last')
def _splitl(it, v, a, c): return Some(Tup([v.a[-1], Vec(v.a[:-1])])) if v.a else NONE()
@vm('concat')
def _concat(it, v, a, c):
    if v.a and type(deref(v.a[0])) in STR: return mktext([it.to_text(x) for x in v.a])
    return Vec([y for x in v.a for y in deref(x).a])
@vm('fill')
def _fill(it, v, a, c):
    for i in range(len(v.a)): v.a[i] = clone(a[0])
    return UNIT()
@vm('copy_from_slice', 'clone_from_slice')
def _cfs(it, v, a, c):
    s = deref(a[0]).a
    if len(s) != len(v.a): raise Panic('copy_from_slice length mismatch')
    v.a[:] = list(s); return UNIT()
@vm('binary_search')
def _bs(it, v, a, c):
    for i, x in enumerate(v.a):
        o = it.compare(x, a[0])
        if o == 0: return Ok(usz(i))
        if o > 0: return Err(usz(i))
    return Err(usz(len(v.a)))
@vm('chunk_by')
def _chunkby(it, v, a, c):
    out = []
    for x in v.a:
        if out and truth(callf(it, a[0], out[-1][-1], x)): out[-1].append(x)
        else: out.append([x])
    return Iter([Vec(x) for x in out])

# ---------------------------------------------------------------- maps and sets
for _n in ('HashMap', 'BTreeMap', 'IndexMap', 'DashMap'):
    for _k in ('new', 'with_capacity'):
        EXT_FN[f'{_n}::{_k}'] = (lambda n: lambda it, a, c: Map(n))(_n)
    EXT_FN[f'{_n}::from'] = EXT_FN[f'{_n}::from_iter'] = (lambda n: lambda it, a, c: it.collect_into(list(it.iter_of(a[0])), Ty(n)))(_n)
for _n in ('HashSet', 'BTreeSet', 'IndexSet'):
    for _k in ('new', 'with_capacity'):
        EXT_FN[f'{_n}::{_k}'] = (lambda n: lambda it, a, c: Map(n, set=True))(_n)
    EXT_FN[f'{_n}::from'] = EXT_FN[f'{_n}::from_iter'] = (lambda n: lambda it, a, c: it.collect_into(list(it.iter_of(a[0])), Ty(n)))(_n)
def mm(*names): return method(Map, *names)
@mm('insert', 'replace')
def _mins(it, m, a, c):
    if m.set:
        if it.map_find(m, a[0]) >= 0: return False
        it.map_insert(m, a[0], True); return True
    return it.map_insert(m, a[0], a[1])
@mm('get')
def _mget(it, m, a, c):
    i = it.map_find(m, a[0])
    return NONE() if i < 0 else Some(m.e[i][1] if not m.set else m.e[i][0])
@mm('get_mut')
def _mgetm(it, m, a, c):
    i = it.map_find(m, a[0]); return NONE() if i < 0 else Some(it.elem_ref(m.e[i], 1))
@mm('get_key_value')
def _mgkv(it, m, a, c):
    i = it.map_find(m, a[0]); return NONE() if i < 0 else Some(Tup(m.e[i]))
@mm('contains_key', 'contains')
def _mck(it, m, a, c): return it.map_find(m, a[0]) >= 0
@mm('shift_remove', 'take')
def _mrem(it, m, a, c):
    i = it.map_find(m, a[0])
    if m.set:
        if i >= 0: m.e.pop(i)
        return i >= 0
    return NONE() if i < 0 else Some(m.e.pop(i)[1])
def _swaprm(m, i):
    """indexmap's swap_remove: the last entry takes the removed one's place"""
    e = m.e[i]; l = m.e.pop()
    if e is not l: m.e[i] = l
    return e
@mm('swap_remove', 'remove')
def _mswap(it, m, a, c):
    if m.k == 'DashMap':
        i = it.map_find(m, a[0]); return NONE() if i < 0 else Some(Tup(m.e.pop(i)))
    if m.k not in ('IndexMap', 'IndexSet'): return _mrem(it, m, a, c)
    i = it.map_find(m, a[0])
    if m.set:
        if i >= 0: _swaprm(m, i)
        return i >= 0
    return NONE() if i < 0 else Some(_swaprm(m, i)[1])
@mm('last_mut')
def _mlastm(it, m, a, c): return Some(Tup((m.e[-1][0], it.elem_ref(m.e[-1], 1)))) if m.e else NONE()
@mm('first_mut')
def _mfirstm(it, m, a, c): return Some(Tup((m.e[0][0], it.elem_ref(m.e[0], 1)))) if m.e else NONE()
@mm('remove_entry', 'shift_remove_entry', 'swap_remove_entry')
def _mreme(it, m, a, c):
    i = it.map_find(m, a[0]); return NONE() if i < 0 else Some(Tup(m.e.pop(i)))
@mm('len')
def _mlen(it, m, a, c): return usz(len(m.e))
@mm('is_empty')
def _mempty(it, m, a, c): return not m.e
@mm('iter', 'into_iter', 'drain')
def _miter(it, m, a, c):
    r = Iter(list(it.iter_of(m)))
    return r
@mm('drain')
def _mdrain(it, m, a, c): r = list(it.iter_of(m)); m.e.clear(); return Iter(r)
@mm('iter_mut')
def _mitm(it, m, a, c): return Iter(it.map_refs(m))
@mm('keys', 'into_keys')
def _mkeys(it, m, a, c): return Iter([e[0] for e in m.e])
@mm('values', 'into_values')
def _mvals(it, m, a, c): return Iter([e[1] for e in m.e])
@mm('values_mut')
def _mvalsm(it, m, a, c): return Iter([it.elem_ref(e, 1) for e in m.e])
@mm('clear')
def _mclear(it, m, a, c): m.e.clear(); return UNIT()
@mm('extend')
def _mext(it, m, a, c):
    for x in it.iter_of(a[0]):
        x = deref(x)
        if m.set: _mins(it, m, [x], c)
        else: it.map_insert(m, x.a[0], x.a[1])
    return UNIT()
@mm('retain')
def _mretain(it, m, a, c):
    m.e[:] = [e for e in list(m.e) if truth(callf(it, a[0], e[0]) if m.set else callf(it, a[0], e[0], it.elem_ref(e, 1)))]; return UNIT()
@mm('first', 'first_key_value')
def _mfirst(it, m, a, c): return (Some(m.e[0][0]) if m.set else Some(Tup(m.e[0]))) if m.e else NONE()
@mm('last', 'last_key_value')
def _mlast(it, m, a, c): return (Some(m.e[-1][0]) if m.set else Some(Tup(m.e[-1]))) if m.e else NONE()
@mm('pop_first')
def _mpf(it, m, a, c):
    if not m.e: return NONE()
    e = m.e.pop(0); return Some(e[0] if m.set else Tup(e))
@mm('pop_last', 'pop')
def _mpl(it, m, a, c):
    if not m.e: return NONE()
    e = m.e.pop(); return Some(e[0] if m.set else Tup(e))
@mm('get_index')
def _mgi(it, m, a, c):
    i = cint(a[0])
    return (Some(m.e[i][0]) if m.set else Some(Tup(m.e[i]))) if i < len(m.e) else NONE()
@mm('shift_remove_index', 'swap_remove_index')
def _msri(it, m, a, c):
    i = cint(a[0])
    return Some(Tup(m.e.pop(i))) if i < len(m.e) else NONE()
@mm('get_index_of')
def _mgio(it, m, a, c):
    i = it.map_find(m, a[0]); return NONE() if i < 0 else Some(usz(i))
@mm('union')
def _mun(it, m, a, c):
    r = list(m.e); b = deref(a[0])
    return Iter([e[0] for e in m.e] + [e[0] for e in b.e if it.map_find(m, e[0]) < 0])
@mm('intersection')
def _mint(it, m, a, c): b = deref(a[0]); return Iter([e[0] for e in m.e if it.map_find(b, e[0]) >= 0])
@mm('difference')
def _mdiff(it, m, a, c): b = deref(a[0]); return Iter([e[0] for e in m.e if it.map_find(b, e[0]) < 0])
@mm('is_subset')
def _msub(it, m, a, c): b = deref(a[0]); return all(it.map_find(b, e[0]) >= 0 for e in m.e)
@mm('is_superset')
def _msup(it, m, a, c): b = deref(a[0]); return all(it.map_find(m, e[0]) >= 0 for e in b.e)
@mm('is_disjoint')
def _mdis(it, m, a, c): b = deref(a[0]); return not any(it.map_find(b, e[0]) >= 0 for e in m.e)
@mm('reserve', 'shrink_to_fit')
def _mres(it, m, a, c): return UNIT()
class Entry(Obj):
    def __init__(self, it, m, k): self.m = m; self.k = k; self.i = it.map_find(m, k)
    def slot(self, it): return it.elem_ref(self.m.e[self.i], 1)
    def ins(self, it, v):
        it.map_insert(self.m, self.k, v); self.i = it.map_find(self.m, self.k); return self.slot(it)
    def m_or_insert(self, it, a, c): return self.slot(it) if self.i >= 0 else self.ins(it, a[0])
    def m_or_insert_with(self, it, a, c): return self.slot(it) if self.i >= 0 else self.ins(it, callf(it, a[0]))
    def m_or_insert_with_key(self, it, a, c): return self.slot(it) if self.i >= 0 else self.ins(it, callf(it, a[0], self.k))
    def m_or_default(self, it, a, c): return self.slot(it) if self.i >= 0 else self.ins(it, DefaultVal())
    def m_and_modify(self, it, a, c):
        if self.i >= 0: callf(it, a[0], self.slot(it))
        return self
    def m_key(self, it, a, c): return self.k
    def m_insert_entry(self, it, a, c): self.ins(it, a[0]); return self
    def m_get(self, it, a, c): return self.m.e[self.i][1]
    def m_insert(self, it, a, c):
        old = self.m.e[self.i][1] if self.i >= 0 else None
        self.ins(it, a[0]); return old if old is not None else self.slot(it)
    def m_remove(self, it, a, c): return self.m.e.pop(self.i)[1]
    m_into_mut = lambda self, it, a, c: self.slot(it)
    m_get_mut = m_into_mut
    def as_variant(self, it, names):
        if names[-1] == ('Occupied' if self.i >= 0 else 'Vacant'): return Enum('Entry', names[-1], {'0': self})
        return None
@mm('entry')
def _mentry(it, m, a, c): return Entry(it, m, deref(a[0]))

# ---------------------------------------------------------------- iterators
def im(*names): return method((Iter,), *names)
ITER_ON = ['map', 'filter', 'filter_map', 'enumerate', 'zip', 'chain', 'rev', 'fold', 'for_each', 'collect', 'any', 'all', 'find', 'find_map', 'position', 'sum',
           'count', 'flat_map', 'flatten', 'take', 'skip', 'take_while', 'skip_while', 'peekable', 'min_by_key', 'max_by_key', 'cycle', 'step_by', 'try_for_each', 'sorted', 'collect_vec', 'unique', 'cloned', 'copied', 'next', 'next_back', 'product', 'try_fold', 'inspect', 'join', 'unzip', 'partition', 'nth', 'last', 'reduce', 'min', 'max', 'dedup', 'group_by', 'tuple_windows', 'scan', 'min_by', 'max_by']
@im('iter', 'into_iter', 'by_ref', 'fuse', 'into_stream', 'boxed', 'boxed_local')
def _iiter(it, v, a, c): return v
def _next(v):
    try: return Some(next(v))
    except StopIteration: return NONE()
@im('next')
def _inext(it, v, a, c): return _next(v)
@im('cloned', 'copied')
def _icl(it, v, a, c): return _w(v, (clone(x) for x in v))
@im('peek')
def _ipeek(it, v, a, c):
    if not v.buf:
        try: v.buf.append(next(v.g))
        except StopIteration: return NONE()
    return Some(v.buf[0])
@im('next_if')
def _inextif(it, v, a, c):
    p = _ipeek(it, v, a, c)
    if p.var == 'None' or not truth(callf(it, a[0], p.f['0'])): return NONE()
    return _next(v)
@im('next_if_eq')
def _inextifeq(it, v, a, c):
    p = _ipeek(it, v, a, c)
    if p.var == 'None' or not truth(eq(p.f['0'], a[0], it)): return NONE()
    return _next(v)
@im('peekable')
def _ipk(it, v, a, c): return Iter(v)
def _w(v, g): return Iter(g, v.stream)
def aw(it, v, x): return it.await_(x) if v.stream else x
@im('map')
def _imap(it, v, a, c):
    f = a[0]; return _w(v, (callf(it, f, x) for x in v))
@im('then')
def _ithen(it, v, a, c):
    f = a[0]; return _w(v, (it.await_(callf(it, f, x)) for x in v))
@im('filter')
def _ifilter(it, v, a, c): f = a[0]; return _w(v, (x for x in v if truth(aw(it, v, callf(it, f, x)))))
@im('filter_map')
def _ifm(it, v, a, c):
    f = a[0]
    def g():
        for x in v:
            r = deref(aw(it, v, callf(it, f, x)))
            if r.var == 'Some': yield r.f['0']
    return _w(v, g())
@im('chunk_by', 'group_by')
def _ichunk(it, v, a, c):
    f = a[0]
    def g():
        key = None; cur = None
        for x in v:
            k = callf(it, f, x)
            if cur is not None and truth(eq(deref(key), deref(k), it)): cur.append(x); continue
            if cur is not None: yield Tup([key, Iter(cur)])
            key = k; cur = [x]
        if cur is not None: yield Tup([key, Iter(cur)])
    return Iter(g())
@im('enumerate')
def _ienum(it, v, a, c): return _w(v, (Tup([usz(i), x]) for i, x in enumerate(v)))
@im('zip')
def _izip(it, v, a, c): return _w(v, (Tup([x, y]) for x, y in zip(v, it.iter_of(a[0]))))
@im('zip_eq')
def _izipeq(it, v, a, c):
    xs, ys = list(v), list(it.iter_of(a[0]))
    if len(xs) != len(ys): raise Panic('zip_eq length mismatch')
    return Iter(Tup([x, y]) for x, y in zip(xs, ys))
@im('chain')
def _ichain(it, v, a, c): b = a[0]; return _w(v, itertools.chain(v, _lazy(lambda: it.iter_of(b))))
def _lazy(f):
    yield from f()
@im('rev')
def _irev(it, v, a, c): return Iter(list(v)[::-1])
@im('next_back')
def _inb(it, v, a, c):
    xs = list(v); 
    if not xs: return NONE()
    r = xs.pop(); v.g = iter(xs); return Some(r)
@im('skip')
def _iskip(it, v, a, c): return _w(v, itertools.islice(v, cint(a[0]), None))
@im('take')
def _itake(it, v, a, c): return _w(v, itertools.islice(v, cint(a[0])))
@im('step_by')
def _istep(it, v, a, c):
    n = cint(a[0])
    if n == 0: raise Panic('step_by(0)')
    return _w(v, (x for i, x in enumerate(v) if i % n == 0))
@im('take_while')
def _itw(it, v, a, c):
    def g():
        for x in v:
            if not truth(aw(it, v, callf(it, a[0], x))): return
            yield x
    return _w(v, g())
@im('map_while')
def _imw(it, v, a, c):
    def g():
        for x in v:
            r = deref(callf(it, a[0], x))
            if r.var == 'None': return
            yield r.f['0']
    return _w(v, g())
@im('skip_while')
def _isw(it, v, a, c):
    def g():
        on = False
        for x in v:
            if not on and truth(callf(it, a[0], x)): continue
            on = True; yield x
    return _w(v, g())
@im('flat_map')
def _iflm(it, v, a, c):
    def g():
        for x in v: yield from it.iter_of(callf(it, a[0], x))
    return _w(v, g())
@im('flatten')
def _ifl(it, v, a, c):
    def g():
        for x in v: yield from it.iter_of(x)
    return _w(v, g())
@im('inspect')
def _iinsp(it, v, a, c):
    def g():
        for x in v: callf(it, a[0], x); yield x
    return _w(v, g())
@im('scan')
def _iscan(it, v, a, c):
    cell = Cell(a[0]); r = Ref(lambda: cell.v, lambda x: setattr(cell, 'v', x))
    def g():
        for x in v:
            o = deref(callf(it, a[1], r, x))
            if o.var == 'None': return
            yield o.f['0']
    return _w(v, g())
@im('for_each')
def _ifor(it, v, a, c):
    for x in v: aw(it, v, callf(it, a[0], x))
    return UNIT()
@im('try_for_each')
def _itfe(it, v, a, c):
    for x in v:
        if v.stream:
            x = deref(x)
            if x.var == 'Err': return x
            x = x.f['0']
        r = deref(aw(it, v, callf(it, a[0], x)))
        if r.var in ('Err', 'None'): return r
    return Ok(UNIT())
@im('fold')
def _ifold(it, v, a, c):
    acc = a[0]
    for x in v: acc = aw(it, v, callf(it, a[1], acc, x))
    return acc
@im('try_fold')
def _itfold(it, v, a, c):
    acc = a[0]; kind = 'Ok'
    for x in v:
        r = deref(aw(it, v, callf(it, a[1], acc, x)))
        if r.var in ('Err', 'None'): return r
        kind = r.var; acc = r.f['0']
    return Enum('Result' if kind == 'Ok' else 'Option', kind, {'0': acc})
@im('reduce')
def _ired(it, v, a, c):
    try: acc = next(v)
    except StopIteration: return NONE()
    for x in v: acc = callf(it, a[0], acc, x)
    return Some(acc)
@im('collect', 'collect_vec', 'try_collect_vec')
def _icollect(it, v, a, c):
    ty = c.tf[0] if c.tf else c.hint
    if ty is not None and ty.n in ('?', 'Infer', 'Impl'): ty = None
    return it.collect_into(list(v), ty)
@im('try_collect')
def _itc(it, v, a, c):
    ty = c.tf[0] if c.tf else None
    if c.hint is not None and c.hint.n == 'Result' and c.hint.a and ty is None: ty = c.hint.a[0]
    return it.collect_into(list(v), Ty('Result', [ty] if ty else []))
@im('collect_vec')
def _icv(it, v, a, c): return Vec(list(v))
@im('try_flatten')
def _itf(it, v, a, c):
    def g():
        for x in v:
            x = deref(x)
            if type(x) is Enum and x.var == 'Err': yield x; return
            inner = x.f['0'] if type(x) is Enum else x
            yield from it.iter_of(inner)
    return _w(v, g())
@im('buffered', 'buffer_unordered', 'ready_chunks')
def _ibuf(it, v, a, c): return Iter((it.await_(x) for x in v), True)
@im('map_ok', 'and_then')
def _imok(it, v, a, c):
    def g():
        for x in v:
            x = deref(x)
            yield Ok(callf(it, a[0], x.f['0'])) if x.var == 'Ok' else x
    return _w(v, g())
@im('map_err')
def _imerr(it, v, a, c):
    def g():
        for x in v:
            x = deref(x)
            yield Err(callf(it, a[0], x.f['0'])) if x.var == 'Err' else x
    return _w(v, g())
@im('try_next')
def _itn(it, v, a, c):
    n = _next(v)
    if n.var == 'None': return Ok(NONE())
    x = deref(n.f['0'])
    return Ok(Some(x.f['0'])) if x.var == 'Ok' else x
@im('any')
def _iany(it, v, a, c):
    for x in v:
        if truth(aw(it, v, callf(it, a[0], x))): return True
    return False
@im('all')
def _iall(it, v, a, c):
    for x in v:
        if not truth(aw(it, v, callf(it, a[0], x))): return False
    return True
@im('find')
def _ifind(it, v, a, c):
    for x in v:
        if truth(callf(it, a[0], x)): return Some(x)
    return NONE()
@im('find_map')
def _ifindm(it, v, a, c):
    for x in v:
        r = deref(callf(it, a[0], x))
        if r.var == 'Some': return r
    return NONE()
@im('position')
def _ipos(it, v, a, c):
    for i, x in enumerate(v):
        if truth(callf(it, a[0], x)): return Some(usz(i))
    return NONE()
@im('rposition')
def _irpos(it, v, a, c):
    xs = list(v)
    for i in range(len(xs) - 1, -1, -1):
        if truth(callf(it, a[0], xs[i])): return Some(usz(i))
    return NONE()
@im('count')
def _icount(it, v, a, c): return usz(sum(1 for _ in v))
@im('sum')
def _isum(it, v, a, c):
    t = c.tf[0] if c.tf else c.hint
    if t is not None and t.n in FLOATS: acc = 0.0
    elif t is not None and t.d is None and t.n not in INT and t.n not in ('?',):
        f = EXT_FN.get(f'{t.n}::default'); acc = f(it, [], CC()) if f else Int(0)
    else: acc = Int(0, t.n if t is not None and t.n in INT else None)
    for x in v: acc = it.arith('+', acc, x)
    return acc
@im('product')
def _iprod(it, v, a, c):
    acc = Int(1, c.tf[0].n if c.tf else None)
    for x in v: acc = it.arith('*', acc, x)
    return acc
@im('last')
def _ilast(it, v, a, c):
    r = NONE()
    for x in v: r = Some(x)
    return r
@im('nth')
def _inth(it, v, a, c):
    k = cint(a[0])
    for i, x in enumerate(v):
        if i == k: return Some(x)
    return NONE()
def _best(it, xs, key, sign, last):
    best = None
    for x in xs:
        if best is None: best = x; continue
        o = key(x, best) * sign
        if o > 0 or (o == 0 and last): best = x
    return opt(best)
@im('max')
def _imax(it, v, a, c):
    xs = [deref(x) for x in v]
    if xs and all(type(x) is Int for x in xs):
        acc = xs[0]
        for x in xs[1:]: acc = _max(it, acc, [x], c)
        return Some(acc)
    return _best(it, xs, it.compare, 1, True)
@im('min')
def _imin(it, v, a, c):
    xs = [deref(x) for x in v]
    if xs and all(type(x) is Int for x in xs):
        acc = xs[0]
        for x in xs[1:]: acc = _min(it, acc, [x], c)
        return Some(acc)
    return _best(it, xs, it.compare, -1, False)
@im('max_by_key')
def _imaxk(it, v, a, c): return _best(it, list(v), lambda x, y: it.compare(callf(it, a[0], x), callf(it, a[0], y)), 1, True)
@im('min_by_key')
def _imink(it, v, a, c): return _best(it, list(v), lambda x, y: it.compare(callf(it, a[0], x), callf(it, a[0], y)), -1, False)
@im('max_by')
def _imaxb(it, v, a, c): return _best(it, list(v), lambda x, y: ORD[deref(callf(it, a[0], x, y)).var], 1, True)
@im('min_by')
def _iminb(it, v, a, c): return _best(it, list(v), lambda x, y: ORD[deref(callf(it, a[0], x, y)).var], -1, False)
@im('unzip', 'multiunzip')
def _iunzip(it, v, a, c):
    tys = c.tf or (list(c.hint.a) if c.hint is not None and c.hint.n == 'tuple' else [])
    xs = [deref(x) for x in v]; n = len(xs[0].a) if xs else max(2, len(tys))
    def part(col, ty):
        if ty is not None and ty.n == 'tuple': return Tup([part([deref(x).a[i] for x in col], t) for i, t in enumerate(ty.a)])
        return it.collect_into(col, ty or Ty('Vec'))
    cols = [[x.a[i] for x in xs] for i in range(n)]
    if c.tf and len(c.tf) == 1 and c.tf[0].n == 'tuple': tys = list(c.tf[0].a)
    return Tup([part(col, tys[i] if i < len(tys) else None) for i, col in enumerate(cols)])
@im('partition')
def _ipart(it, v, a, c):
    xs, ys = [], []
    for x in v: (xs if truth(callf(it, a[0], x)) else ys).append(x)
    return Tup([Vec(xs), Vec(ys)])
@im('sorted')
def _isorted(it, v, a, c): return Iter(sort_list(it, list(v), it.compare))
@im('sorted_by')
def _isortedb(it, v, a, c): return Iter(sort_list(it, list(v), lambda x, y: ORD[deref(callf(it, a[0], x, y)).var]))
@im('sorted_by_key')
def _isortedk(it, v, a, c): return Iter(sort_list(it, list(v), lambda x, y: it.compare(callf(it, a[0], x), callf(it, a[0], y))))
@im('unique')
def _iuniq(it, v, a, c):
    def g():
        seen = []
        for x in v:
            if any(truth(eq(x, y, it)) for y in seen): continue
            seen.append(x); yield x
    return Iter(g())
@im('dedup')
def _idedup(it, v, a, c):
    def g():
        last = None
        for x in v:
            if last is not None and truth(eq(x, last, it)): continue
            last = x; yield x
    return Iter(g())
@im('unique_by')
def _iuniqb(it, v, a, c):
    def g():
        seen = []
        for x in v:
            k = callf(it, a[0], x)
            if any(truth(eq(k, y, it)) for y in seen): continue
            seen.append(k); yield x
    return Iter(g())
@im('join')
def _ijoin(it, v, a, c): return _join(it, Vec(list(v)), a, c)
@im('cycle')
def _icyc(it, v, a, c): return Iter(itertools.cycle(list(v)))
@im('len')
def _ilen(it, v, a, c): xs = list(v); v.g = iter(xs); return usz(len(xs))
@im('size_hint')
def _ish(it, v, a, c): xs = list(v); v.g = iter(xs); return Tup([usz(len(xs)), Some(usz(len(xs)))])
@im('tuple_windows')
def _itupw(it, v, a, c):
    xs = list(v); return Iter(Tup([xs[i], xs[i+1]]) for i in range(len(xs) - 1))
@im('eq')
def _ieq(it, v, a, c):
    return eq(Vec(list(v)), Vec(list(it.iter_of(a[0]))), it)
@im('is_sorted')
def _iiss(it, v, a, c):
    xs = list(v); return all(it.compare(x, y) <= 0 for x, y in zip(xs, xs[1:]))
@im('as_str')
def _ias(it, v, a, c):
    xs = list(v); v.g = iter(xs); return ''.join(x.c for x in xs)
@anymethod(*ITER_ON)
def _range_iter(it, v, a, c):
    return NotImplemented
# Range methods: dispatch through an iterator
def _rangem(name):
    f = METHODS[(Iter, name)]
    def g(it, v, a, c): return f(it, Iter(it.range_iter(v)), a, c)
    METHODS[('Range', name)] = g
for _n in list(k[1] for k in METHODS if k[0] is Iter): _rangem(_n)
@method('Range', 'contains')
def _rc(it, v, a, c):
    x = a[0]; cs = [it.cmp_bool('>=', x, v.f['start'])]
    if v.f['end'] is not None: cs.append(it.cmp_bool('<=' if v.f.get('incl') else '<', x, v.f['end']))
    return mkbool(band(*cs))
@method('Range', 'len')
def _rlen(it, v, a, c):
    d = v.f['end'].v - v.f['start'].v
    return Int(max(0, d) if isinstance(d, int) else z3.If(d < 0, 0, d), 'usize')
@method('Range', 'is_empty')
def _rempty(it, v, a, c): return mkbool(v.f['start'].v >= v.f['end'].v)
@method('Range', 'clone')
def _rclone(it, v, a, c):
    r = Struct('Range', dict(v.f)); r.x = v.x; return r
@method('Range', 'start')
def _rst(it, v, a, c): return v.f['start']
@method('Range', 'end')
def _rend(it, v, a, c): return v.f['end']
@ext('iter::once', 'once')
def _once(it, a, c): return Iter([a[0]])
@ext('iter::empty', 'empty')
def _emptyi(it, a, c): return Iter([])
@ext('iter::repeat', 'repeat')
def _repeat(it, a, c): return Iter(clone(a[0]) for _ in itertools.count())
@ext('iter::repeat_n', 'repeat_n')
def _repeatn(it, a, c): return Iter([clone(a[0]) for _ in range(cint(a[1]))])
@ext('iter::repeat_with', 'repeat_with')
def _repeatw(it, a, c): return Iter(callf(it, a[0]) for _ in itertools.count())
@ext('iter::from_fn', 'from_fn')
def _fromfn(it, a, c):
    def g():
        while True:
            r = deref(callf(it, a[0]))
            if r.var == 'None': return
            yield r.f['0']
    return Iter(g())
@ext('iter::successors', 'successors')
def _succ(it, a, c):
    def g():
        x = deref(a[0])
        while x.var == 'Some':
            yield x.f['0']; x = deref(callf(it, a[1], x.f['0']))
    return Iter(g())
@ext('iter::zip', 'zip')
def _zipf(it, a, c): return Iter(Tup([x, y]) for x, y in zip(it.iter_of(a[0]), it.iter_of(a[1])))
@ext('stream::iter')
def _siter(it, a, c): return Iter(it.iter_of(a[0]), True)
@ext('stream::once')
def _sonce(it, a, c): return Iter((it.await_(x) for x in [a[0]]), True)
@ext('stream::empty')
def _sempty(it, a, c): return Iter([], True)
@ext('future::join_all', 'join_all')
def _joinall(it, a, c): return Vec([it.await_(x) for x in list(it.iter_of(a[0]))])
@ext('future::try_join_all', 'try_join_all')
def _tjoinall(it, a, c):
    fs = list(it.iter_of(a[0])); out = []
    for x in fs:
        r = it.await_(x)
        if r.var == 'Err': return r
        out.append(r.f['0'])
    return Ok(Vec(out))
@ext('future::ready', 'future::ok_value')
def _fready(it, a, c): return a[0]
@ext('future::ok')
def _fok(it, a, c): return Ok(a[0])
@ext('future::err')
def _ferr(it, a, c): return Err(a[0])

# ---------------------------------------------------------------- strings
@ext('String::new')
def _snew(it, a, c): return ''
@ext('String::with_capacity')
def _snewc(it, a, c): return ''
@ext('String::from', 'str::from', 'ToString::to_string', 'String::from_str', 'ToOwned::to_owned', 'String::to_string')
def _sfrom(it, a, c): return it.to_text(a[0]) if c.path and c.path[-1] != 'from_str' else Ok(it.to_text(a[0]))
@ext('String::from_utf8', 'str::from_utf8')
def _sfu8(it, a, c):
    v = deref(a[0])
    if type(v) is Vec and all(type(deref(x)) is Int and deref(x).conc() for x in v.a):
        try: return Ok(bytes(deref(x).v for x in v.a).decode())
        except UnicodeDecodeError: return Err(Enum('FromUtf8Error', 'FromUtf8Error'))
    m = getattr(v, 'utf8_', None)
    if m: return m(it)
    if type(v) in STR: return Ok(v)
    raise Unsupported('from_utf8')
@ext('String::from_utf8_lossy')
def _sfu8l(it, a, c): 
    r = _sfu8(it, a, c); return r.f['0'] if r.var == 'Ok' else Text([OpaquePiece(r)])
@ext('String::from_iter')
def _sfi(it, a, c): return mktext([it.to_text(x) for x in it.iter_of(a[0])])
def sm(*names): return method(STR, *names)
def setplace(c, v):
    if c.place is None: raise Unsupported('string mutation through no place')
    c.place.set(v)
@sm('push_str')
def _pstr(it, v, a, c): setplace(c, mktext([v, deref(a[0])])); return UNIT()
@sm('push')
def _pch(it, v, a, c): setplace(c, mktext([v, it.to_text(a[0])])); return UNIT()
@sm('write_str')
def _wstr(it, v, a, c): setplace(c, mktext([v, deref(a[0])])); return Ok(UNIT())
@sm('clear')
def _sclear(it, v, a, c): setplace(c, ''); return UNIT()
@sm('pop')
def _spop(it, v, a, c):
    if type(v) is not str: raise Unsupported('pop of symbolic string')
    if not v: return NONE()
    setplace(c, v[:-1]); return Some(Char(v[-1]))
@sm('truncate')
def _strunc(it, v, a, c): setplace(c, v[:cint(a[0])]); return UNIT()
@sm('insert_str')
def _sinss(it, v, a, c): k = cint(a[0]); setplace(c, mktext([v[:k], a[1], v[k:]])); return UNIT()
@sm('insert')
def _sins(it, v, a, c): k = cint(a[0]); setplace(c, mktext([v[:k], a[1].c, v[k:]])); return UNIT()
@sm('extend')
def _sext(it, v, a, c): setplace(c, mktext([v] + [it.to_text(x) for x in it.iter_of(a[0])])); return UNIT()
@sm('len')
def _slen(it, v, a, c):
    if type(v) is str: return usz(len(v.encode()))
    return Int(z3.Length(strterm(v)), 'usize')
@sm('is_empty')
def _sempty_(it, v, a, c):
    if type(v) is str: return not v
    if type(v) is Text and any(isinstance(p, str) and p for p in v.p): return False
    return mkbool(strterm(v) == z3.StringVal(''))
@sm('to_str')
def _tostr(it, v, a, c): return Some(v) if c.path != 'hv' else Ok(v)
@sm('as_str', 'to_string', 'to_owned', 'as_ref', 'into_string', 'clone', 'as_mut_str', 'into_owned', 'to_path_buf', 'into_os_string', 'as_os_str', 'as_path', 'borrow', 'to_string_lossy', 'display', 'into_boxed_str')
def _sid(it, v, a, c): return v
def conc(v, what='string operation'):
    if type(v) is str: return v
    raise Unsupported(f'{what} on a symbolic string')
@sm('chars')
def _chars(it, v, a, c): return Iter([Char(x) for x in conc(v, 'chars')])
@sm('char_indices')
def _chari(it, v, a, c):
    out = []; i = 0
    for x in conc(v): out.append(Tup([usz(i), Char(x)])); i += len(x.encode())
    return Iter(out)
@sm('bytes')
def _sbytes(it, v, a, c): return Iter([Int(b, 'u8') for b in conc(v).encode()])
@sm('as_bytes', 'into_bytes')
def _sasb(it, v, a, c):
    if type(v) is str: return Vec([Int(b, 'u8') for b in v.encode()])
    return v
@sm('to_lowercase', 'to_ascii_lowercase')
def _lower(it, v, a, c):
    if type(v) is str: return v.lower()
    raise Unsupported('lowercase of a symbolic string')
@sm('to_uppercase', 'to_ascii_uppercase')
def _upper(it, v, a, c): return conc(v, 'uppercase').upper()
@sm('eq_ignore_ascii_case')
def _eqi(it, v, a, c):
    w = deref(a[0])
    if type(v) is not str and type(w) is str: v, w = w, v
    if type(v) is str and type(w) is not str:
        t = strterm(w); R = [z3.Union(z3.Re(ch.lower()), z3.Re(ch.upper())) if ch.lower() != ch.upper() else z3.Re(ch) for ch in v]
        return mkbool(z3.InRe(t, z3.Concat(*R) if len(R) > 1 else R[0]))
    return conc(v).lower() == conc(deref(a[0])).lower()
def pattern(it, p):
    p = deref(p)
    if type(p) is str: return lambda s, i: len(p) if s.startswith(p, i) else None
    if type(p) is Char: return lambda s, i: 1 if s[i:i+1] == p.c else None
    if type(p) is Vec: return lambda s, i: 1 if i < len(s) and any(deref(x).c == s[i] for x in p.a) else None
    if type(p) is Fn: return lambda s, i: 1 if i < len(s) and truth(callf(it, p, Char(s[i]))) else None
    if isinstance(p, (SymStr, Text)): raise Unsupported('symbolic string pattern')
    return lambda s, i: 1 if i < len(s) and truth(callf(it, p, Char(s[i]))) else None
def split_all(it, s, p, limit=None):
    m = pattern(it, p); out = []; start = 0; i = 0
    p = deref(p)
    if type(p) is str and p == '': raise Unsupported('split on empty string')
    while i < len(s):
        k = m(s, i)
        if k and (limit is None or len(out) < limit - 1): out.append(s[start:i]); i += k; start = i
        else: i += 1
    out.append(s[start:]); return out
@sm('split')
def _split(it, v, a, c):
    if type(v) is not str: return Iter(sym_split(it, v, a[0]))
    return Iter(split_all(it, v, a[0]))
def sym_sep(p):
    p = deref(p)
    p = p.c if type(p) is Char else p
    if type(p) not in STR: raise Unsupported('pattern on a symbolic string')
    return strterm(p)
def sym_split(it, v, p, limit=None):
    s = strterm(v); q = sym_sep(p); n = 1
    while (limit is None or n < limit) and truth(mkbool(z3.Contains(s, q))):
        k = z3.IndexOf(s, q, 0)
        yield SymStr(z3.SubString(s, 0, k))
        s = z3.SubString(s, k + z3.Length(q), z3.Length(s) - k - z3.Length(q)); n += 1
        if n > 5: raise Bounded()
    yield SymStr(s)
@sm('splitn')
def _splitn(it, v, a, c):
    if type(v) is not str: return Iter(sym_split(it, v, a[1], cint(a[0])))
    return Iter(split_all(it, conc(v), a[1], cint(a[0])))
@sm('rsplit')
def _rsplit(it, v, a, c): return Iter(split_all(it, conc(v), a[0])[::-1])
@sm('rsplitn')
def _rsplitn(it, v, a, c):
    sep = deref(a[1]); sep = sep.c if type(sep) is Char else sep
    return Iter(conc(v).rsplit(sep, cint(a[0]) - 1)[::-1] if cint(a[0]) == 1 else list(reversed(conc(v).rsplit(sep, cint(a[0]) - 1))))
@sm('split_terminator')
def _splt(it, v, a, c):
    xs = split_all(it, conc(v), a[0])
    if xs and xs[-1] == '': xs.pop()
    return Iter(xs)
@sm('split_once')
def _sonce_(it, v, a, c):
    if type(v) is not str:
        xs = list(sym_split(it, v, a[0], 2))
        return Some(Tup(xs)) if len(xs) == 2 else NONE()
    xs = split_all(it, v, a[0], 2)
    return Some(Tup(xs)) if len(xs) == 2 else NONE()
@sm('rsplit_once')
def _rsonce(it, v, a, c):
    sep = deref(a[0]); sep = sep.c if type(sep) is Char else sep
    s = conc(v)
    if sep not in s: return NONE()
    x, _, y = s.rpartition(sep); return Some(Tup([x, y]))
@sm('split_whitespace', 'split_ascii_whitespace')
def _sws(it, v, a, c): return Iter(conc(v).split())
@sm('lines')
def _lines(it, v, a, c): return Iter(conc(v).splitlines())
@sm('split_at')
def _sat(it, v, a, c):
    if type(v) is not str:
        k = ival(a[0]); t = strterm(v)
        if not truth(mkbool(z3.Length(t) >= k)): raise Panic('split_at out of bounds')
        return Tup([SymStr(z3.SubString(t, 0, k)), SymStr(z3.SubString(t, k, z3.Length(t) - k))])
    k = cint(a[0]); return Tup([v[:k], v[k:]])
def trim_text(v, left, right):
    """a text with numbers in it: blanks outside the first and last of them"""
    if type(v) is Text and all(isinstance(x, (str, Int)) for x in v.p) and v.p:
        p = list(v.p)
        while left and p and isinstance(p[0], str):
            p[0] = p[0].lstrip()
            if p[0]: break
            p.pop(0)
        while right and p and isinstance(p[-1], str):
            p[-1] = p[-1].rstrip()
            if p[-1]: break
            p.pop()
        return mktext(p) if p else ''
    x = conc(v, 'trim')
    return x.strip() if left and right else x.lstrip() if left else x.rstrip()
@sm('trim')
def _trim(it, v, a, c): return trim_text(v, True, True)
@sm('trim_start', 'trim_left')
def _trims(it, v, a, c): return trim_text(v, True, False)
@sm('trim_end', 'trim_right')
def _trime(it, v, a, c): return trim_text(v, False, True)
@sm('trim_start_matches', 'trim_left_matches')
def _tsm(it, v, a, c):
    p = deref(a[0])
    if type(v) is not str:
        # strip repeatedly, at most a few times (bounded)
        s = strterm(v); q = strterm(p if type(p) in STR else p.c); n = 0
        while truth(mkbool(z3.PrefixOf(q, s))):
            s = z3.SubString(s, z3.Length(q), z3.Length(s) - z3.Length(q)); n += 1
            if n > 3: raise Bounded()
        return SymStr(z3.simplify(s))
    m = pattern(it, p); i = 0
    while i < len(v):
        k = m(v, i)
        if not k: break
        i += k
    return v[i:]
@sm('trim_end_matches', 'trim_right_matches')
def _tem(it, v, a, c):
    p = deref(a[0]); s = conc(v, 'trim_end_matches')
    if type(p) is Fn:
        while s and truth(callf(it, p, Char(s[-1]))): s = s[:-1]
        return s
    ps = [p.c] if type(p) is Char else [p] if type(p) is str else [deref(x).c for x in p.a]
    go = True
    while go:
        go = False
        for q in ps:
            if q and s.endswith(q): s = s[:-len(q)]; go = True
    return s
@sm('trim_matches')
def _tm(it, v, a, c): return _tem(it, _tsm(it, v, a, c), a, c)
@sm('strip_prefix')
def _sp(it, v, a, c):
    p = deref(a[0]); p = p.c if type(p) is Char else p
    if type(v) is str and type(p) is str: return Some(v[len(p):]) if v.startswith(p) else NONE()
    s = strterm(v); q = strterm(p)
    if type(v) is Text and type(p) is str and v.p and isinstance(v.p[0], str) and v.p[0].startswith(p):
        return Some(mktext([v.p[0][len(p):]] + v.p[1:]))
    if truth(mkbool(z3.PrefixOf(q, s))): return Some(SymStr(z3.simplify(z3.SubString(s, z3.Length(q), z3.Length(s) - z3.Length(q)))))
    return NONE()
@sm('strip_suffix')
def _ss(it, v, a, c):
    p = deref(a[0]); p = p.c if type(p) is Char else p
    if type(v) is str and type(p) is str: return Some(v[:len(v)-len(p)]) if v.endswith(p) else NONE()
    s = strterm(v); q = strterm(p)
    if truth(mkbool(z3.SuffixOf(q, s))): return Some(SymStr(z3.simplify(z3.SubString(s, 0, z3.Length(s) - z3.Length(q)))))
    return NONE()
@sm('starts_with')
def _sw(it, v, a, c):
    p = deref(a[0])
    if type(v) is str: 
        if type(p) in (SymStr, Text): return mkbool(z3.PrefixOf(strterm(p), strterm(v)))
        return v[:1] != '' and pattern(it, p)(v, 0) is not None or (type(p) is str and v.startswith(p))
    p = p.c if type(p) is Char else p
    if type(v) is Text and type(p) is str and isinstance(v.p[0], str) and len(v.p[0]) >= len(p): return v.p[0].startswith(p)
    return mkbool(z3.PrefixOf(strterm(p), strterm(v)))
@sm('ends_with')
def _ew(it, v, a, c):
    p = deref(a[0]); p = p.c if type(p) is Char else p
    if type(v) is str and type(p) is str: return v.endswith(p)
    if type(p) is Fn: return bool(v) and truth(callf(it, p, Char(v[-1])))
    return mkbool(z3.SuffixOf(strterm(p), strterm(v)))
@sm('contains')
def _scont(it, v, a, c):
    p = deref(a[0])
    if type(v) is str and type(p) not in (SymStr, Text):
        if type(p) is str: return p in v
        m = pattern(it, p); return any(m(v, i) for i in range(len(v)))
    p = p.c if type(p) is Char else p
    return mkbool(z3.Contains(strterm(v), strterm(p)))
@sm('find')
def _sfind(it, v, a, c):
    p = deref(a[0])
    if type(v) is not str or type(p) in (SymStr, Text):
        s = strterm(v); q = sym_sep(p)
        return Some(Int(z3.IndexOf(s, q, 0), 'usize')) if truth(mkbool(z3.Contains(s, q))) else NONE()
    s = v; m = pattern(it, p)
    for i in range(len(s) + (1 if p == '' else 0)):
        if m(s, i) is not None: return Some(usz(len(s[:i].encode())))
    return NONE()
@sm('rfind')
def _srfind(it, v, a, c):
    s = conc(v); m = pattern(it, a[0])
    for i in range(len(s) - 1, -1, -1):
        if m(s, i): return Some(usz(len(s[:i].encode())))
    return NONE()
@sm('matches')
def _smatches(it, v, a, c):
    s = conc(v); p = deref(a[0]); p = p.c if type(p) is Char else p
    if type(p) is str: return Iter([p] * s.count(p))
    m = pattern(it, p); return Iter([s[i] for i in range(len(s)) if m(s, i)])
@sm('replace')
def _srep(it, v, a, c):
    p = deref(a[0]); p = p.c if type(p) is Char else p
    q = deref(a[1])
    if type(v) is str and type(q) is str: 
        if type(p) is not str:
            m = pattern(it, p); return ''.join(q if m(v, i) else v[i] for i in range(len(v)))
        return v.replace(p, q)
    if type(v) is Text and type(p) is str and all(isinstance(x, (str, Int)) for x in v.p) and type(q) is str:
        return mktext([x.replace(p, q) if isinstance(x, str) else x for x in v.p])
    return ReplText(v, p, q)
def ReplText(v, p, q):
    # SMT replace_all is expressed as an uninterpreted but equality-preserving piece
    f = z3.Function('replace_all', z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    return SymStr(f(strterm(v), strterm(p), strterm(q)))
@sm('replacen')
def _srepn(it, v, a, c): return conc(v).replace(deref(a[0]), deref(a[1]), cint(a[2]))
@sm('repeat')
def _srepeat(it, v, a, c): return conc(v) * cint(a[0])
@sm('get')
def _sget(it, v, a, c):
    if type(v) is not str:
        r = deref(a[0]); lo = ival(r.f['start']) if r.f.get('start') is not None and type(deref(r.f['start'])) is Int else 0
        n = z3.Length(strterm(v)); hi = deref(r.f.get('end')); hi = hi.v + (1 if r.f.get('incl') else 0) if type(hi) is Int else n
        if not truth(mkbool(z3.And(lo <= hi, hi <= n) if is_sym(lo) or is_sym(hi) else lo <= hi)): return NONE()
        return Some(SymStr(z3.SubString(strterm(v), lo, hi - lo)))
    try: lo, hi = slice_bounds(deref(a[0]), len(conc(v)))
    except Panic: return NONE()
    return Some(v[lo:hi])
@sm('is_char_boundary')
def _icb(it, v, a, c): return True
@sm('escape_default', 'escape_debug')
def _escd(it, v, a, c):
    s = conc(v, 'escape_default')
    out = ''
    for ch in s:
        out += {'\t': '\\t', '\r': '\\r', '\n': '\\n', "'": "\\'", '"': '\\"', '\\': '\\\\'}.get(ch) or (ch if 0x20 <= ord(ch) <= 0x7e else '\\u{%x}' % ord(ch))
    return out
def parse_int(it, s, t):
    E = lambda: Err(Enum('ParseIntError', 'ParseIntError'))
    if type(s) is str:
        if not re.match(r'^[+-]?\d+$', s) or (s.startswith('-') and INT[t][0] == 0): return E()
        x = int(s); lo, hi = INT[t]
        return Ok(Int(x, t)) if lo <= x <= hi else E()
    if type(s) is Text and len(s.p) == 1 and isinstance(s.p[0], Int):
        x = s.p[0].v; lo, hi = INT[t]
        return Ok(Int(x, t)) if Ctx.cur.branch(mkbool(z3.And(x >= lo, x <= hi))) else E()
    from . import symchars as SY
    if type(s) is Text and all(isinstance(x, (str, Int)) for x in s.p) and any(isinstance(x, str) and not x.isdigit() for x in (s.p[1:] if s.p[0] in ('+', '-') else s.p)): return E()
    chs = SY.cl(s)
    if chs is None: raise Unsupported('parse of a symbolic string')
    br = Ctx.cur.branch; cs = [SY.code(x) for x in chs]; neg = False
    is_ = lambda x, k: x == k if isinstance(x, int) else br(x == k)
    if len(cs) > 1:
        if is_(cs[0], 43): cs = cs[1:]
        elif INT[t][0] < 0 and is_(cs[0], 45): cs = cs[1:]; neg = True
    if not cs: return E()
    x = 0
    for ch in cs:
        if not (48 <= ch <= 57 if isinstance(ch, int) else br(z3.And(ch >= 48, ch <= 57))): return E()
        x = x * 10 + (ch - 48)
    if neg: x = -x
    lo, hi = INT[t]
    if isinstance(x, int): return Ok(Int(x, t)) if lo <= x <= hi else E()
    if 10 ** len(cs) - 1 <= hi and not neg or br(z3.And(x >= lo, x <= hi)): return Ok(Int(x, t))
    return E()
@sm('parse')
def _sparse(it, v, a, c):
    ty = c.tf[0] if c.tf else c.hint
    if ty is not None and ty.n == 'Result' and ty.a: ty = ty.a[0]
    if ty is None:
        f = Ctx.cur.user.get('parse_as')
        if f is None: raise Unsupported('parse to unknown type')
        return f(v)
    return from_str(it, v, ty)
def from_str(it, v, ty):
    if ty.n in INT: return parse_int(it, v, ty.n)
    if ty.n in FLOATS:
        if type(v) is str:
            try: return Ok(float(v)) if re.match(r'^[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)$', v, re.I) else Err(Enum('ParseFloatError', 'ParseFloatError'))
            except ValueError: return Err(Enum('ParseFloatError', 'ParseFloatError'))
        raise Unsupported('parse float of symbolic string')
    if ty.n == 'bool':
        if type(v) is not str:
            if truth(eq(v, 'true')): return Ok(True)
            if truth(eq(v, 'false')): return Ok(False)
            return Err(Enum('ParseBoolError', 'ParseBoolError'))
        return Ok(v == 'true') if v in ('true', 'false') else Err(Enum('ParseBoolError', 'ParseBoolError'))
    if ty.n in ('String', 'str', 'PathBuf'): return Ok(v)
    if ty.n == 'char': return Ok(Char(v)) if len(v) == 1 else Err(Enum('ParseCharError', 'ParseCharError'))
    if ty.d is not None:
        if 'from_str' in ty.d.methods: return it.call_def(ty.d.methods['from_str'], [v])
        if 'EnumString' in ty.d.derives: return strum_from_str(it, v, ty.d)
        f = EXT_FN.get('T::from_str')
    f = EXT_FN.get(f'{ty.n}::from_str') or EXT_FN.get(f'{ty.n}::parse')
    if f: return f(it, [v], CC(hint=ty))
    raise Unsupported(f'parse into {ty}')
@ext('T::from_str')
def _tfs(it, a, c): return from_str(it, deref(a[0]), c.hint)
EXT_FN['f64::from_str'] = EXT_FN['f32::from_str'] = lambda it, a, c: from_str(it, deref(a[0]), Ty('f64'))
EXT_FN['bool::from_str'] = lambda it, a, c: from_str(it, deref(a[0]), Ty('bool'))
def strum_name(td, var):
    style = None
    for at in td.attrs:
        m = re.search(r'serialize_all = "(\w+)"', at)
        if at.startswith('strum') and m: style = m.group(1)
    names = []
    for at in td.variants[var][3]:
        if at.startswith('strum'):
            names += re.findall(r'(?:serialize|to_string) = "([^"]*)"', at)
    return names, casing(var, style)
def casing(var, style):
    if style is None: return var
    words = re.findall(r'[A-Z][a-z0-9]*|[a-z0-9]+', var)
    s = style.lower()
    if s in ('lowercase',): return var.lower()
    if s in ('uppercase',): return var.upper()
    if s in ('snake_case',): return '_'.join(w.lower() for w in words)
    if s in ('screaming_snake_case',): return '_'.join(w.upper() for w in words)
    if s in ('kebab-case', 'kebab_case'): return '-'.join(w.lower() for w in words)
    if s in ('camelcase', 'pascalcase'): return var
    raise Unsupported('casing ' + style)
def strum_from_str(it, v, td):
    ci = any('ascii_case_insensitive' in at for at in td.attrs)
    for var in td.vorder:
        names, dflt = strum_name(td, var)
        for n in names or [dflt]:
            if type(v) is str: ok = v == n or (ci and v.lower() == n.lower())
            else: ok = truth(eq(v, n))
            if ok: return Ok(Enum(td, var, {}))
    return Err(Enum('ParseError', 'VariantNotFound', {}))
# char
@method(Char, 'is_ascii_alphabetic', 'is_alphabetic')
def _caa(it, v, a, c): return v.c.isalpha()
@method(Char, 'is_ascii_digit', 'is_numeric', 'is_digit')
def _cad(it, v, a, c): return v.c.isdigit()
@method(Char, 'is_ascii_alphanumeric', 'is_alphanumeric')
def _can(it, v, a, c): return v.c.isalnum()
@method(Char, 'is_whitespace', 'is_ascii_whitespace')
def _cws(it, v, a, c): return v.c.isspace()
@method(Char, 'is_ascii_uppercase', 'is_uppercase')
def _cup(it, v, a, c): return v.c.isupper()
@method(Char, 'is_ascii_lowercase', 'is_lowercase')
def _clo(it, v, a, c): return v.c.islower()
@method(Char, 'is_ascii_hexdigit')
def _chx(it, v, a, c): return v.c in '0123456789abcdefABCDEF'
@method(Char, 'to_ascii_lowercase')
def _clw(it, v, a, c): return Char(v.c.lower())
@method(Char, 'to_ascii_uppercase')
def _cuw(it, v, a, c): return Char(v.c.upper())
@method(Char, 'len_utf8')
def _cl8(it, v, a, c): return usz(len(v.c.encode()))
@method(Char, 'is_ascii')
def _cia(it, v, a, c): return ord(v.c) < 128

# ---------------------------------------------------------------- mem, cells, locks, tasks
@ext('mem::take', 'take')
def _take(it, a, c):
    r = a[0]
    while type(r) is Ref and type(r.get()) is Ref: r = r.get()
    if type(r) is not Ref: raise Unsupported('mem::take')
    v = r.get(); t = type(v)
    if t is Vec: new = Vec(list(v.a), v.raw, v.k); r.set(Vec([], k=v.k)) ; return v if r.get() is not v else new
    if t is Map: r.set(Map(v.k, set=v.set)); return v
    if t in STR: r.set(''); return v
    if t is Int: r.set(Int(0, v.t)); return v
    if t is bool or z3.is_bool(v): r.set(False); return v
    if t is Enum and v.ty == 'Option':
        x = Enum(v.ty, v.var, dict(v.f)); r.set(NONE()); return x
    if t is Enum and v.ty == 'Expr': r.set(EXT_FN['Expr::default'](it, [], c)); return v
    td = it.typedef(v)
    if td is not None:
        r.set(it.default_of(Ty(td.name, (), td))); return v
    m = getattr(v, 'take_', None)
    if m: 
        new = m(it); r.set(new[1]); return new[0]
    raise Unsupported(f'mem::take of {v!r:.60}')
@ext('mem::replace')
def _mreplace(it, a, c):
    r = a[0]
    while type(r) is Ref and type(r.get()) is Ref: r = r.get()
    v = r.get(); v = copyval(v) if type(v) in (Enum, Tup) else v
    if type(v) is Enum: v = Enum(v.ty, v.var, dict(v.f))
    r.set(a[1]); return v
@ext('mem::swap')
def _mswap(it, a, c):
    x, y = a[0].get(), a[1].get()
    a[0].set(y); a[1].set(x); return UNIT()
@ext('mem::drop', 'drop', 'mem::forget')
def _drop(it, a, c):
    v = deref(a[0]); m = getattr(v, 'drop_', None)
    if m: m(it)
    return UNIT()
@ext('mem::size_of')
def _sizeof(it, a, c):
    n = c.tf[0].n if c.tf else None
    S = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'usize': 8, 'isize': 8, 'i128': 16, 'u128': 16}
    if n in S: return usz(S[n])
    raise Unsupported('size_of')
@ext('Arc::new', 'Box::new', 'Rc::new', 'Arc::from', 'Box::from', 'Box::pin', 'Pin::new', 'Arc::clone', 'Rc::clone', 'Cow::Borrowed', 'Cow::Owned', 'Wrapping', 'Reverse_', 'Some_', 'Cow::from', 'Arc::unwrap_or_clone', 'convert::identity', 'identity', 'NonZero::new_unchecked')
def _idf(it, a, c): return a[0]
@ext('Arc::ptr_eq', 'Rc::ptr_eq', 'ptr::eq')
def _ptreq(it, a, c): return deref(a[0]) is deref(a[1])
@ext('Arc::try_unwrap', 'Arc::into_inner')
def _arctu(it, a, c): return Ok(a[0]) if c.path[-1] == 'try_unwrap' else Some(a[0])
@ext('Arc::get_mut', 'Arc::make_mut')
def _arcgm(it, a, c):
    v = a[0]
    return v if c.path[-1] == 'make_mut' else Some(v)
@ext('Arc::strong_count')
def _sc(it, a, c): raise Unsupported('strong_count')
for _k in ('Mutex', 'RwLock', 'RefCell', 'Cell', 'OnceCell', 'OnceLock', 'LazyLock'):
    def _mkl(k):
        def f(it, a, c): return Shared(a[0] if a else NONE(), k)
        return f
    EXT_FN[f'{_k}::new'] = _mkl(_k)
for _k in ('AtomicBool', 'AtomicUsize', 'AtomicU64', 'AtomicI64', 'AtomicU32', 'AtomicI32', 'AtomicU8'):
    def _mka(k):
        t = k[6:].lower()
        def f(it, a, c): return Shared(it.coerce(a[0], Ty(t)), k)
        return f
    EXT_FN[f'{_k}::new'] = _mka(_k)
def shref(s): return Ref(lambda: s.v, lambda x: setattr(s, 'v', x))
@method(Shared, 'lock', 'read', 'write', 'try_lock', 'try_read', 'try_write')
def _lock(it, s, a, c):
    hook = Ctx.cur.user.get('on_lock')
    if hook: hook(it, s, c)
    return LockRes(s)
class LockRes(Obj):
    """result of lock(): awaited (tokio) or unwrapped (std)"""
    def __init__(self, s): self.s = s
    def await_(self, it): return shref(self.s)
    def m_unwrap(self, it, a, c): return shref(self.s)
    m_expect = m_unwrap_or_else = m_unwrap
    def m_map_err(self, it, a, c): return Ok(shref(self.s))
    def m_ok(self, it, a, c): return Some(shref(self.s))
    def as_variant(self, it, names):
        return Enum('Result', 'Ok', {'0': shref(self.s)}) if names[-1] == 'Ok' else None
@method(Shared, 'borrow', 'borrow_mut', 'get_mut', 'with_borrow')
def _borrow(it, s, a, c): return shref(s)
def _atom(it, s):
    if s.k.startswith('Atomic') and Ctx.cur.user.get('preempt'): it.sched()
@method(Shared, 'load')
def _load(it, s, a, c): _atom(it, s); return s.v
@method(Shared, 'get')
def _sget_(it, s, a, c): return copyval(s.v)
@method(Shared, 'store', 'set')
def _store(it, s, a, c): _atom(it, s); s.v = a[0]; return UNIT()
@method(Shared, 'swap', 'replace')
def _sswap(it, s, a, c): _atom(it, s); o = s.v; s.v = a[0]; return o
@method(Shared, 'into_inner')
def _sinto(it, s, a, c): return s.v if s.k in ('RefCell', 'Cell') or s.k.startswith('Atomic') else s.v
@method(Shared, 'with')
def _swith(it, s, a, c): return callf(it, a[0], s)
@method(Shared, 'get_or_init')
def _sgoi(it, s, a, c):
    if type(s.v) is Enum and s.v.var == 'None': s.v = Some(callf(it, a[0]))
    return s.v.f['0']
def _fetch(op):
    def f(it, s, a, c):
        o = s.v; b = deref(a[0]); t = o.t if type(o) is Int else None
        if type(o) is Int:
            r = o.v + b.v if op == '+' else o.v - b.v if op == '-' else None
            if op == 'max': s.v = _max(it, o, [b], c); return o
            if op == 'min': s.v = _min(it, o, [b], c); return o
            lo, hi = INT[t]
            s.v = Int(it.wrap(r, t) if isinstance(r, int) else z3.simplify((r - lo) % (hi - lo + 1) + lo), t)
        else:
            s.v = bor(o, b) if op == '|' else band(o, b)
        return o
    return f
for _n, _o in (('fetch_add', '+'), ('fetch_sub', '-'), ('fetch_max', 'max'), ('fetch_min', 'min'), ('fetch_or', '|'), ('fetch_and', '&')): METHODS[(Shared, _n)] = _fetch(_o)
@method(Shared, 'compare_exchange', 'compare_exchange_weak')
def _cas(it, s, a, c):
    _atom(it, s)
    o = s.v
    if truth(eq(o, a[0])): s.v = a[1]; return Ok(o)
    return Err(o)
@method(Shared, 'fetch_update')
def _fu(it, s, a, c):
    o = s.v; r = deref(callf(it, a[2], o))
    if r.var == 'Some': s.v = r.f['0']; return Ok(o)
    return Err(o)
@ext('tokio::spawn', 'task::spawn', 'spawn')
def _spawn(it, a, c): return it.spawn(a[0])
@ext('task::spawn_blocking', 'spawn_blocking')
def _spawnb(it, a, c): f = a[0]; return it.spawn(Future(lambda: callf(it, f)))
@ext('task::yield_now', 'yield_now')
def _yn(it, a, c): it.sched(); return UNIT()
@ext('time::sleep', 'tokio::time::sleep')
def _sleep(it, a, c):
    f = Ctx.cur.user.get('on_sleep')
    if f: return Future(lambda: f(it, a, c))
    return Future(lambda: (it.sched(), UNIT())[1])
@ext('time::timeout', 'tokio::time::timeout')
def _timeout(it, a, c):
    f = a[1]
    def go():
        g = Ctx.cur.user.get('on_timeout')
        if g: return g(it, a, c)
        if Ctx.cur.user.get('timeouts') and Ctx.cur.choose(2, 'timeout') == 1: return Err(Enum('Elapsed', 'Elapsed'))
        return Ok(it.await_(f))
    return Future(go)
@method(Task, 'abort')
def _abort(it, t, a, c):
    if t.state == 'pending': t.state = 'aborted'
    return UNIT()
@method(Task, 'is_finished')
def _isfin(it, t, a, c): return t.state == 'done'
def _futmap(name, good):
    def f(it, v, a, c):
        def go():
            r = it.await_(v)
            return METHODS[(R, name)](it, deref(r), a, c) if good else it.await_(callf(it, a[0], r))
        return Future(go)
    return f
for _n, _r in (('map_err', 'map_err'), ('map_ok', 'map'), ('inspect_err', 'inspect_err'), ('inspect_ok', 'inspect')): METHODS[(Future, _n)] = _futmap(_r, True)
METHODS[(Task, 'map_err')] = METHODS[(Task, 'map_ok')] = METHODS[(Future, 'map_err')]
def _f_and_then(it, v, a, c):
    def go():
        r = deref(it.await_(v))
        return it.await_(callf(it, a[0], r.f['0'])) if r.var == 'Ok' else r
    return Future(go)
METHODS[(Future, 'and_then')] = _f_and_then
def _f_or_else(it, v, a, c):
    def go():
        r = deref(it.await_(v))
        return it.await_(callf(it, a[0], r.f['0'])) if r.var == 'Err' else r
    return Future(go)
METHODS[(Future, 'or_else')] = _f_or_else
METHODS[(Future, 'map')] = METHODS[(Future, 'then')] = _futmap('map', False)
METHODS[(Future, 'boxed')] = lambda it, v, a, c: v
METHODS[(Future, 'try_flatten_stream')] = lambda it, v, a, c: Iter(_tfs_gen(it, v), True)
METHODS[(Future, 'into_stream')] = lambda it, v, a, c: Iter(_lazy(lambda: [it.await_(v)]), True)
def _tfs_gen(it, v):
    r = deref(it.await_(v))
    if r.var == 'Err': yield r
    else: yield from it.iter_of(r.f['0'])

# ---------------------------------------------------------------- time
class Duration(Obj):
    tname = 'Duration'
    def __init__(self, ns): self.ns = ns
    def op_(self, it, op, b):
        b = deref(b)
        if isinstance(b, Duration):
            if op == '+': return Duration(self.ns + b.ns)
            if op == '-': return Duration(self.ns - b.ns)
        if type(b) is Int and op == '*': return Duration(self.ns * b.v)
        if type(b) is Int and op == '/': return Duration(self.ns // b.v if isinstance(self.ns, int) else self.ns / b.v)
        if isinstance(b, Instant) and op == '+': return Instant(self.ns + b.ns, b.k)
        raise Unsupported('Duration ' + op)
    def eq_(self, o): return mkbool(self.ns == o.ns)
    def cmp_(self, it, o): return it.compare(Int(self.ns), Int(deref(o).ns))
    def _div(self, k): return self.ns // k if isinstance(self.ns, int) else z3.simplify(self.ns / k)
    def m_as_millis(self, it, a, c): return Int(self._div(10**6), 'u128')
    def m_as_secs(self, it, a, c): return Int(self._div(10**9), 'u64')
    def m_as_micros(self, it, a, c): return Int(self._div(10**3), 'u128')
    def m_as_nanos(self, it, a, c): return Int(self.ns, 'u128')
    def m_subsec_nanos(self, it, a, c): return Int(self.ns % 10**9, 'u32')
    def m_as_secs_f64(self, it, a, c): return self.ns / 1e9 if isinstance(self.ns, int) else z3.ToReal(self.ns) / 10**9
    m_as_secs_f32 = m_as_secs_f64
    def m_is_zero(self, it, a, c): return mkbool(self.ns == 0)
    def m_saturating_sub(self, it, a, c):
        d = self.ns - deref(a[0]).ns; return Duration(max(0, d) if isinstance(d, int) else z3.If(d < 0, 0, d))
    def display_(self, it): return Text([OpaquePiece(self)])
    debug_ = display_
for _n, _k in (('from_secs', 10**9), ('from_millis', 10**6), ('from_micros', 10**3), ('from_nanos', 1)):
    EXT_FN[f'Duration::{_n}'] = (lambda k: lambda it, a, c: Duration(ival(a[0]) * k))(_k)
EXT_FN['Duration::from_secs_f64'] = lambda it, a, c: Duration(int(deref(a[0]) * 1e9)) if isinstance(deref(a[0]), float) else Duration(z3.ToInt(deref(a[0]) * 10**9))
EXT_FN['Duration::default'] = lambda it, a, c: Duration(0)
CONSTS['Duration::ZERO'] = lambda: Duration(0)
CONSTS['Duration::MAX'] = lambda: Duration(2**64 * 10**9)
class Instant(Obj):
    tname = 'Instant'
    def __init__(self, ns, k='Instant'): self.ns = ns; self.k = k
    def op_(self, it, op, b):
        b = deref(b)
        if isinstance(b, Duration): return Instant(self.ns + b.ns if op == '+' else self.ns - b.ns, self.k)
        if isinstance(b, Instant) and op == '-':
            d = self.ns - b.ns; return Duration(max(0, d) if isinstance(d, int) else z3.If(d < 0, 0, d))
        raise Unsupported('Instant ' + op)
    def eq_(self, o): return mkbool(self.ns == o.ns)
    def cmp_(self, it, o): return it.compare(Int(self.ns), Int(deref(o).ns))
    def m_elapsed(self, it, a, c):
        d = Duration(now(it).ns - self.ns)
        return Ok(d) if self.k == 'SystemTime' else d
    def m_duration_since(self, it, a, c):
        o = deref(a[0]); d = self.ns - o.ns
        if self.k == 'SystemTime':
            if Ctx.cur.branch(mkbool(d >= 0)): return Ok(Duration(d))
            return Err(Enum('SystemTimeError', 'SystemTimeError'))
        return Duration(max(0, d) if isinstance(d, int) else z3.If(d < 0, 0, d))
    m_saturating_duration_since = m_duration_since
    def m_checked_sub(self, it, a, c): return Some(Instant(self.ns - deref(a[0]).ns, self.k))
    def m_checked_add(self, it, a, c): return Some(Instant(self.ns + deref(a[0]).ns, self.k))
    def display_(self, it): return Text([OpaquePiece(self)])
    debug_ = display_
def now(it, k='Instant'):
    """clock: arbitrary non-decreasing instants when the harness asks for it, else a counter"""
    u = Ctx.cur.user
    if k == 'SystemTime' and 'wall' in u: return Instant(u['wall'] * 10**9, k)      # whole seconds, set by the harness
    if u.get('clock') == 'sym':
        t = Ctx.cur.fresh('now'); Ctx.cur.add(t >= u.get('clock_last', 0)); u['clock_last'] = t
        return Instant(t, k)
    u['clock_n'] = u.get('clock_n', 1_700_000_000 * 10**9) + 10**6
    return Instant(u['clock_n'], k)
EXT_FN['Instant::now'] = lambda it, a, c: now(it)
EXT_FN['SystemTime::now'] = lambda it, a, c: now(it, 'SystemTime')
CONSTS['SystemTime::UNIX_EPOCH'] = CONSTS['time::UNIX_EPOCH'] = lambda: Instant(0, 'SystemTime')

# ---------------------------------------------------------------- uuid, url-ish, misc
class Uuid(Obj):
    tname = 'Uuid'
    def __init__(self, n): self.n = n
    def eq_(self, o): return isinstance(o, Uuid) and o.n == self.n
    def display_(self, it):
        if self.n < 1 << 48: return f'00000000-0000-4000-8000-{self.n:012x}'
        x = f'{self.n:032x}'; return '-'.join((x[:8], x[8:12], x[12:16], x[16:20], x[20:]))
    debug_ = display_
    def clone_(self): return self
    def cmp_(self, it, o): o = deref(o); return (self.n > o.n) - (self.n < o.n)
    def hex_(self, it): return f'{self.n:032x}'
    def m_as_bytes(self, it, a, c): return Vec([Int(b, 'u8') for b in self.n.to_bytes(16, 'big')])
    def m_to_vec(self, it, a, c): return self.m_as_bytes(it, a, c)
    def m_hyphenated(self, it, a, c): return self
    def m_simple(self, it, a, c): return self
    def m_is_nil(self, it, a, c): return self.n == 0
@ext('Uuid::new_v4', 'Uuid::now_v7')
def _uuid(it, a, c):
    n = Ctx.cur.user.get('uuid', 0) + 1; Ctx.cur.user['uuid'] = n; return Uuid(n)
@ext('Uuid::nil', 'Uuid::default')
def _uuidnil(it, a, c): return Uuid(0)
@ext('Uuid::from_u128', 'Uuid::from_u64_pair')
def _uuid128(it, a, c): return Uuid(cint(a[0]))
@ext('Uuid::parse_str', 'Uuid::try_parse', 'Uuid::from_str')
def _uuidp(it, a, c):
    s = deref(a[0])
    if type(s) is not str: raise Unsupported('uuid parse of symbolic text')
    if s.startswith('00000000-0000-4000-8000-') and re.match(r'^[0-9a-f-]{24}[0-9a-fA-F]{12}$', s): return Ok(Uuid(int(s[24:], 16)))
    if re.match(r'^[0-9a-fA-F]{8}-?([0-9a-fA-F]{4}-?){3}[0-9a-fA-F]{12}$', s): return Ok(Uuid(int(s.replace('-', ''), 16)))
    return Err(Enum('uuid::Error', 'Error'))
@ext('future::pending')
def _pend(it, a, c): raise PathEnd()
@ext('std::env::var', 'env::var')
def _envvar(it, a, c):
    e = Ctx.cur.user.get('env')
    k = deref(a[0])
    if e is None: return Err(Enum('VarError', 'NotPresent'))
    v = e(k) if callable(e) else e.get(k)
    return Err(Enum('VarError', 'NotPresent')) if v is None else Ok(v)
@ext('env::var_os', 'std::env::var_os')
def _envvaros(it, a, c):
    r = _envvar(it, a, c); return Some(r.f['0']) if r.var == 'Ok' else NONE()
@ext('env::vars_os', 'env::vars', 'std::env::vars_os', 'std::env::vars')
def _envvars(it, a, c):
    e = Ctx.cur.user.get('env') or {}
    return Iter([Tup([k, v]) for k, v in e.items()])
@ext('process::exit', 'exit')
def _exit(it, a, c): raise Panic(f'process exit({deref(a[0])})')
@ext('Box::leak')
def _leak(it, a, c): return a[0]
@ext('PhantomData')
def _ph(it, a, c): return Struct('PhantomData', {})
# errors
@method('AnyhowError', 'to_string', 'display')
def _ahd(it, v, a, c): return v.f['0']
@anymethod('source')
def _source(it, v, a, c): return NONE()
@anymethod('context')
def _dfctx(it, v, a, c):
    if type(v) is Enum and v.ty == 'DataFusionError': return Enum('DataFusionError', 'Context', {'0': a[0], '1': v})
    return v
@method('DataFusionError', 'display')
def _dfed(it, v, a, c):
    pre = {'Execution': 'Execution error: ', 'Internal': 'Internal error: ', 'Plan': 'Error during planning: ', 'NotImplemented': 'This feature is not implemented: ', 'SQL': 'SQL error: ', 'External': 'External error: ', 'ArrowError': 'Arrow error: ', 'ObjectStore': 'Object Store error: ', 'SchemaError': 'Schema error: ', 'ParquetError': 'Parquet error: ', 'IoError': 'IO error: '}
    return mktext([pre.get(v.var, v.var + ': ')] + [it.to_text(x) if type(x) in STR else Text([OpaquePiece(x)]) for x in v.f.values()])
@method('DataFusionError', 'message')
def _dfem(it, v, a, c): return it.to_text(v.f['0'])
@method('DataFusionError', 'strip_backtrace')
def _dfsb(it, v, a, c): return _dfed(it, v, a, c)
@method('DataFusionError', 'find_root')
def _dfroot(it, v, a, c):
    while v.var == 'Context': v = deref(v.f['1'])
    return v
for _v in ('Status',): pass
