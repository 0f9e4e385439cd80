"""wasmtime + rmpv models: modules with any behaviour, linear memory with bounds per allocation, MessagePack values."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import ext, METHODS, EXT_FN, CONSTS, EXT_STRUCT, CC, OpaquePiece
from .ext_arrow import Flt, widen, int_to_f64, int_to_f32, term

# ------------------------------------------------------------------ rmpv::Value
NIL = lambda: Enum('Value', 'Nil')
def mp(v):
    """rmpv::Value::from"""
    v = deref(v)
    if type(v) is Int: return Enum('Value', 'Integer', {'0': Int(v.v, 'rmpv')})
    if isinstance(v, Flt): return Enum('Value', v.k.upper(), {'0': v})
    if isinstance(v, bool) or z3.is_bool(v): return Enum('Value', 'Boolean', {'0': v})
    if type(v) in (str, SymStr, Text): return Enum('Value', 'String', {'0': Utf8(v)})
    if type(v) is Vec: return Enum('Value', 'Array', {'0': v})
    raise Unsupported(f'rmpv Value from {v!r:.50}')
class Utf8(Obj):
    tname = 'Utf8String'
    def __init__(self, s, valid=True): self.s = s; self.valid = valid
    def __repr__(self): return repr(self.s) if self.valid else '<invalid utf-8>'
    def m_as_str(self, it, a, c): return Some(self.s) if self.valid else NONE()
    def m_is_str(self, it, a, c): return self.valid
    def m_into_str(self, it, a, c): return self.m_as_str(it, a, c)
    def m_clone(self, it, a, c): return self
    def eq_(self, o): return isinstance(o, Utf8) and self.valid == o.valid and eq(self.s, o.s)
    def display_(self, it): return Text([OpaquePiece(self)])
    debug_ = display_
EXT_FN['rmpv::Value::from'] = lambda it, a, c: mp(a[0])
def b_(x): return x if isinstance(x, bool) else Ctx.cur.branch(mkbool(x))
def asint(t):
    lo, hi = INT[t]
    def f(it, v, a, c):
        v = deref(v)
        if v.var != 'Integer': return NONE()
        n = deref(v.f['0']).v
        return Some(Int(n, t)) if b_(n >= lo if isinstance(n, int) else n >= lo) and b_(n <= hi) else NONE()
    return f
def vm(name):
    def d(f): METHODS[('Value', name)] = f; return f
    return d
METHODS[('Value', 'as_i64')] = asint('i64'); METHODS[('Value', 'as_u64')] = asint('u64')
METHODS[('Value', 'is_i64')] = lambda it, v, a, c: asint('i64')(it, v, a, c).var == 'Some'
METHODS[('Value', 'is_u64')] = lambda it, v, a, c: asint('u64')(it, v, a, c).var == 'Some'
def is_(n): return lambda it, v, a, c: deref(v).var == n
for _m, _n in (('is_nil', 'Nil'), ('is_bool', 'Boolean'), ('is_array', 'Array'), ('is_str', 'String'), ('is_f32', 'F32'), ('is_f64', 'F64'), ('is_map', 'Map'), ('is_bin', 'Binary')): METHODS[('Value', _m)] = is_(_n)
METHODS[('Value', 'is_number')] = lambda it, v, a, c: deref(v).var in ('Integer', 'F32', 'F64')
@vm('as_f64')
def _asf64(it, v, a, c):
    v = deref(v)
    if v.var == 'Integer': return Some(int_to_f64(deref(v.f['0'])))
    if v.var in ('F32', 'F64'): return Some(widen(deref(v.f['0'])))
    return NONE()
@vm('as_bool')
def _asb(it, v, a, c): v = deref(v); return Some(v.f['0']) if v.var == 'Boolean' else NONE()
@vm('as_str')
def _ass(it, v, a, c): v = deref(v); return deref(v.f['0']).m_as_str(it, a, c) if v.var == 'String' else NONE()
@vm('as_array')
def _asa(it, v, a, c): v = deref(v); return Some(v.f['0']) if v.var == 'Array' else NONE()
@vm('debug')
def _dbg(it, v, a, c): return Text([OpaquePiece(v)])
METHODS[('Value', 'display')] = _dbg
METHODS[('Value', 'clone')] = lambda it, v, a, c: deref(v)
class Ser(Obj):
    def __init__(self, buf): self.buf = buf
EXT_FN['Serializer::new'] = lambda it, a, c: Ser(a[0])
def W(): return Ctx.cur.user['wasm']
@vm('serialize')
def _ser(it, v, a, c):
    s = deref(a[0])
    return W().encode(s, deref(v))
def _slice(it, a, c): return W().decode(deref(a[0]))
EXT_FN['rmp_serde::from_slice'] = _slice; EXT_FN['rmp_serde::from_read_ref'] = _slice
EXT_FN['rmp_serde::to_vec'] = lambda it, a, c: (lambda b: (lambda r: Ok(b) if r.var == 'Ok' else r)(W().encode(Ser(b), deref(a[0]))))(Vec([]))

# ------------------------------------------------------------------ wasmtime
class Plain(Obj):
    def __init__(self, name): self.name = name; self.tname = name
    def m_clone(self, it, a, c): return self
    def m_engine(self, it, a, c): return Plain('Engine')
    def m_as_context(self, it, a, c): return self
    m_as_context_mut = m_as_context
def fallible(what, mk):
    def f(it, a, c):
        w = W(); w.steps.append(what)
        if w.fails(what): return Err(Enum('WasmError', 'Failed', {'0': what}))
        return Ok(mk(it, a))
    return f
EXT_FN['Engine::default'] = lambda it, a, c: Plain('Engine')
EXT_FN['Linker::new'] = lambda it, a, c: Linker()
EXT_FN['Store::default'] = EXT_FN['Store::new'] = lambda it, a, c: Plain('Store')
EXT_FN['WasiCtxBuilder::new'] = lambda it, a, c: Builder()
EXT_FN['wasi_common::sync::add_to_linker'] = EXT_FN['sync::add_to_linker'] = EXT_FN['add_to_linker'] = lambda it, a, c: Ok(UNIT())
class Builder(Obj):
    def method_missing(self, it, name, a, c): return Plain('WasiCtx') if name == 'build' else self
EXT_FN['Module::from_binary'] = lambda it, a, c: W().load(it, deref(a[1]))
class Linker(Obj):
    def m_instantiate(self, it, a, c): return W().instantiate(it, deref(a[1]))
EXT_FN['Instance::new'] = lambda it, a, c: W().instantiate(it, deref(a[1]))
class Instance(Obj):
    tname = 'Instance'
    def __init__(self, w): self.w = w
    def m_get_typed_func(self, it, a, c): return self.w.typed(it, deref(a[1]))
    def m_get_memory(self, it, a, c): return self.w.memory(it, deref(a[1]))
    def m_get_func(self, it, a, c): return self.w.func(it, deref(a[1]))
VT = ('I32', 'I64', 'F32', 'F64')
class FType(Obj):
    tname = 'FuncType'
    def __init__(self, ps, rs): self.ps = list(ps); self.rs = list(rs)
    def m_params(self, it, a, c): return Iter([Enum('ValType', x) for x in self.ps])
    def m_results(self, it, a, c): return Iter([Enum('ValType', x) for x in self.rs])
    def m_matches(self, it, a, c): o = deref(a[0]); return o.ps == self.ps and o.rs == self.rs
    m_eq = m_matches
    def eq_(self, o): return o.ps == self.ps and o.rs == self.rs
    def m_clone(self, it, a, c): return self
    def display_(self, it): return f'(func {self.ps} {self.rs})'
    debug_ = display_
def _names(it, v): return [deref(x).var for x in it.iter_of(deref(v) if type(deref(v)) in (Vec,) else v)]
EXT_FN['FuncType::new'] = lambda it, a, c: FType(_names(it, a[1]), _names(it, a[2]))
EXT_FN['ValType::eq'] = lambda it, a, c: deref(a[0]).var == deref(a[1]).var
METHODS[('ValType', 'matches')] = METHODS[('ValType', 'eq')] = lambda it, v, a, c: deref(v).var == deref(a[0]).var
for _n in VT: METHODS[('ValType', 'is_' + _n.lower())] = (lambda n: lambda it, v, a, c: deref(v).var == n)(_n)
METHODS[('ValType', 'display')] = METHODS[('ValType', 'debug')] = lambda it, v, a, c: deref(v).var
METHODS[('ValType', 'clone')] = lambda it, v, a, c: Enum('ValType', deref(v).var)
EXT_FN['Val::null_extern_ref'] = EXT_FN['Val::null_any_ref'] = EXT_FN['Val::null_func_ref'] = lambda it, a, c: Enum('Val', 'ExternRef')
def val_get(n):
    def f(it, v, a, c):
        v = deref(v)
        if v.var != n: raise Panic(f'expected {n}, found {v.var}')
        x = deref(v.f['0'])
        return x if n[0] == 'I' else Flt(n.lower(), 'bits', x)
    return f
def val_opt(n):
    g = val_get(n)
    return lambda it, v, a, c: Some(g(it, v, a, c)) if deref(v).var == n else NONE()
for _n in VT: METHODS[('Val', 'unwrap_' + _n.lower())] = val_get(_n); METHODS[('Val', _n.lower())] = val_opt(_n)
METHODS[('Val', 'clone')] = lambda it, v, a, c: Enum('Val', deref(v).var, dict(deref(v).f))
METHODS[('Val', 'debug')] = lambda it, v, a, c: Text([OpaquePiece(v)])
METHODS[('Val', 'ty')] = lambda it, v, a, c: Ok(Enum('ValType', deref(v).var))
class Func(Obj):
    tname = 'Func'
    def __init__(self, w): self.w = w
    def m_ty(self, it, a, c): return self.w.ftype
    def m_matches_ty(self, it, a, c): return self.w.ftype.m_matches(it, [a[1]], c)
    def m_call(self, it, a, c): return self.w.raw_call(it, deref(a[1]), a[2])
class Typed(Obj):
    tname = 'TypedFunc'
    def __init__(self, w, name): self.w = w; self.n = name
    def m_call(self, it, a, c): return self.w.typed_call(it, self.n, a[1])
    def m_clone(self, it, a, c): return self
class Mem(Obj):
    tname = 'Memory'
    def __init__(self, w): self.w = w
    def m_write(self, it, a, c): return self.w.mem_write(it, deref(a[1]), deref(a[2]))
    def m_read(self, it, a, c): return self.w.mem_read(it, deref(a[1]), a[2])
    def m_clone(self, it, a, c): return self
    def m_data_size(self, it, a, c): raise Unsupported('memory size')
