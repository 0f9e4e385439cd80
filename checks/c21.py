"""C21: values cross the WASM boundary unchanged."""
from engine.harness import *
from engine import ext_wasm as X
from engine.ext_arrow import Arr, Scalar, Flt, fits, dt_of, widen, int_to_f64
from engine.ext_wasm import mp, NIL, Utf8, Instance, Func, Typed, Mem, FType, Plain
from engine.symchars import symtext
NATIVE = None
BOUNDS = 'every SQL type; 1-3 arguments, 0-3 rows (scalars and arrays mixed), every slot NULL or any value of its type (floats by bit pattern, text of up to 3 characters); any returned MessagePack value (integers -2^63..2^64-1, arrays of up to 5 elements); buffers of 1-9 bytes at any address of the 4 GiB address space'
ASSUMPTIONS = ['the WASM module is any module: each call may trap, return any value of its declared type and any pointer', 'rmp-serde encodes and decodes a value faithfully or fails', 'wasmtime refuses calls whose arguments do not have the function\'s type', 'functions have at least one argument (DataFusion does not call these functions without any)',
               'an integer returned for a DOUBLE is its nearest double']
MODELS = 'arrow arrays, DataFusion ColumnarValue, rmpv / rmp-serde, wasmtime Instance / Func / Memory'
T = 'seafowl::wasm_udf::data_types::'
WM = 'seafowl::wasm_udf::wasm::'
TYPES = ['I32', 'I64', 'F32', 'F64', 'SMALLINT', 'INT', 'BIGINT', 'CHAR', 'VARCHAR', 'TEXT', 'DECIMAL', 'FLOAT', 'REAL', 'DOUBLE', 'BOOLEAN', 'DATE', 'TIMESTAMP']
ARROW = dict(I32='Int32', I64='Int64', F32='Float32', F64='Float64', SMALLINT='Int16', INT='Int32', BIGINT='Int64', CHAR='Utf8', VARCHAR='Utf8', TEXT='Utf8', DECIMAL='Decimal128', FLOAT='Float32', REAL='Float32', DOUBLE='Float64',
             BOOLEAN='Boolean', DATE='Date32', TIMESTAMP='TimestampNanosecond')
RAW = dict(I32='I32', I64='I64', F32='F32', F64='F64', INT='I32', BIGINT='I64', FLOAT='F32', REAL='F32', DOUBLE='F64')
INTS = dict(Int16='i16', Int32='i32', Int64='i64', Date32='i32', TimestampNanosecond='i64')

class World:
    """the module and its memory"""
    def __init__(self, h): self.h = h; self.steps = []; self.calls = []; self.frees = []; self.enc = []; self.allocs = {}; self.out = {}; self.can_fail = True; self.nout = 0; self.nloads = 0; self.failed = None; self.name = 'udf'; self.bytes = Vec([Int(0, 'u8')])
    def fails(self, what):
        if self.can_fail and self.failed is None and self.h.flip(what + ' fails'): self.failed = what; return True
        return False
    def err(self, what): return Err(Enum('WasmError', 'Failed', {'0': what}))
    def load(self, it, b):
        self.h.check(deref(b) is self.bytes or [x.v for x in deref(b).a] == [x.v for x in self.bytes.a], 'another module is loaded'); self.nloads += 1
        return Ok(Plain('Module'))
    def instantiate(self, it, m): return Ok(Instance(self))
    def named(self, n): self.h.check(eq(n, self.name), 'another export is called')
    def typed(self, it, n):
        n = deref(n)
        if n in ('alloc', 'dealloc'): return Ok(Typed(self, n))
        self.named(n); return Ok(Typed(self, 'udf'))
    def memory(self, it, n): return Some(Mem(self)) if n == 'memory' else NONE()
    def func(self, it, n): self.named(n); return Some(Func(self))
    # ---- MessagePack: a value is L opaque bytes
    def encode(self, ser, v):
        if self.fails('serialisation'): return self.err('serialisation')
        i = len(self.enc); L = self.L; self.enc.append((v, L))
        deref(ser.buf).a.extend([('enc', i, k) for k in range(L)])
        return Ok(UNIT())
    def decode(self, buf):
        b = buf.a
        if not b or type(b[0]) is not tuple: self.h.fail('something else than the returned buffer is decoded')
        i = b[0][1]; v, L = self.enc[i]
        self.h.check(b == [('enc', i, k) for k in range(L)], 'not exactly the returned buffer is decoded')
        if v is None: return self.err('garbage')
        return Ok(v)
    # ---- typed functions
    def typed_call(self, it, n, arg):
        if n == 'alloc':
            size = deref(arg)
            if self.fails('alloc'): return self.err('alloc trap')
            k = len(self.allocs); p = self.h.int(f'address of buffer {k}', 'u32', 1)
            for q, _ in self.allocs.values(): pass
            self.allocs[k] = (p.v, {}); self.asize = getattr(self, 'asize', {}); self.asize[k] = size.v
            return Ok(Int(z3.simplify(z3.If(p.v >= 2**31, p.v - 2**32, p.v)) if is_sym(p.v) else (p.v - 2**32 if p.v >= 2**31 else p.v), 'i32'))
        if n == 'dealloc':
            t = deref(arg); self.frees.append((deref(t.a[0]).v, deref(t.a[1]).v))
            return self.err('dealloc trap') if self.fails('dealloc') else Ok(UNIT())
        ptr = self.unsigned(deref(arg).v)
        k, off = self.where(ptr, 'the pointer passed to the function')
        self.h.check(off == 0, 'the function is given another pointer than the buffer')
        mem = self.allocs[k][1]
        size = [mem.get(j) for j in range(4)]
        self.h.check(None not in size and all(type(x) is Int for x in size), 'the size prefix is not written')
        n_ = sum(x.v * 256**j for j, x in enumerate(size))
        ids = {mem[4][1]} if type(mem.get(4)) is tuple else set()
        self.h.check(len(ids) == 1, 'the input is not written after the size')
        i = ids.pop(); v, L = self.enc[i]
        self.h.check(mkb(n_ == L), 'the size prefix is wrong')
        self.h.check([mem.get(4 + j) for j in range(L)] == [('enc', i, j) for j in range(L)], 'the input buffer is not the serialised arguments')
        if self.fails('the function'): return self.err('trap')
        r = self.result(len(self.calls)); self.calls.append(v)
        o = len(self.enc); Lo = self.Lo; self.enc.append((r, Lo))
        p = self.h.int(f'address of result {len(self.calls)}', 'u32', 0, 2**32 - 16); size = (Lo).to_bytes(4, 'little')
        d = {j: Int(b, 'u8') for j, b in enumerate(size)}; d.update({4 + j: ('enc', o, j) for j in range(Lo)})
        self.out[len(self.calls) - 1] = (p.v, d)
        return Ok(Int(z3.simplify(z3.If(p.v >= 2**31, p.v - 2**32, p.v)) if is_sym(p.v) else (p.v - 2**32 if p.v >= 2**31 else p.v), 'i32'))
    def unsigned(self, v): 
        if isinstance(v, int): return v % 2**32
        return z3.simplify(v % 2**32)
    def where(self, addr, what):
        """which buffer an address lies in (most recent first)"""
        c = [('a', k, p) for k, (p, _) in self.allocs.items()] + [('o', k, p) for k, (p, _) in self.out.items()]
        for kind, k, p in reversed(c):
            d = z3.simplify((addr if is_sym(addr) else z3.IntVal(addr)) - p)
            for off in ([d.as_long()] if z3.is_int_value(d) else (0, 4)):
                if self.h.ctx.sat(d != off) is False and -8 <= off <= 64: return ((k, off) if kind == 'a' else (('o', k), off))
        self.h.fail(f'{what} lies in no buffer')
    def mem_write(self, it, addr, data):
        k, off = self.where(addr.v, 'a write')
        self.h.check(not isinstance(k, tuple), 'the result buffer is overwritten')
        self.h.check(off >= 0 and mkb(off + len(data.a) <= self.asize[k]), 'a write goes beyond the allocated buffer')
        if self.fails('writing'): return self.err('memory')
        for j, x in enumerate(data.a): self.allocs[k][1][off + j] = x
        return Ok(UNIT())
    def mem_read(self, it, addr, buf):
        k, off = self.where(addr.v, 'a read')
        self.h.check(isinstance(k, tuple), 'the input buffer is read back')
        d = self.out[k[1]][1]; b = deref(buf); n = len(b.a)
        self.h.check(all(off + j in d for j in range(n)), 'a read goes beyond the result buffer')
        if self.fails('reading'): return self.err('memory')
        for j in range(n): b.a[j] = d[off + j]
        return Ok(UNIT())
    # ---- raw functions
    def raw_call(self, it, params, results):
        rs = deref(results)
        ps = [deref(x) for x in params.a]
        if [p.var for p in ps] != self.ftype.ps or len(rs.a) != len(self.ftype.rs): return self.err('types')
        if self.fails('the function'): return self.err('trap')
        i = len(self.calls); self.calls.append([deref(p.f['0']) for p in ps])
        outs = []
        for j, t in enumerate(self.ftype.rs):
            lo, hi = INT['i' + t[1:]] if t[0] == 'I' else INT['u' + t[1:]]
            outs.append(self.h.int(f'result {i}', ('i' if t[0] == 'I' else 'u') + t[1:])); rs.a[j] = Enum('Val', t, {'0': outs[-1]})
        self.res = getattr(self, 'res', []); self.res.append(outs)
        return Ok(UNIT())
def mkb(x): return x if isinstance(x, bool) else mkbool(x)

# ------------------------------------------------------------------ inputs
def value(h, k, name):
    if k in INTS: return h.int(name, INTS[k])
    if k == 'Decimal128': return h.int(name, 'i128')
    if k == 'Float32': return Flt('f32', 'bits', h.int(name, 'u32'))
    if k == 'Float64': return Flt('f64', 'bits', h.int(name, 'u64'))
    if k == 'Boolean': return h.bool(name)
    return symtext(name, 2)
def ty(h, t, tag=''):
    if t == 'DECIMAL': return h.it.mke(T + 'CreateFunctionDataType', 'DECIMAL', precision=h.int('precision' + tag, 'u8', 1, 38), scale=h.int('scale' + tag, 'i8'))
    return h.it.mke(T + 'CreateFunctionDataType', t)
def column(h, t, tv, rows, name):
    k = ARROW[t]; p, s = (tv.f['precision'], tv.f['scale']) if t == 'DECIMAL' else (None, None)
    vs = [(h.bool(f'{name}[{i}] valid'), value(h, k, f'{name}[{i}]')) for i in range(rows)]
    if k == 'Decimal128':
        for _, v in vs: h.assume(mkb(fits(v.v, p.v)))
    return Arr(k, vs, p, s, name)
def i64(v): return z3.simplify((v + 2**63) % 2**64 - 2**63) if is_sym(v) else (v + 2**63) % 2**64 - 2**63
def encoded_as(t, tv, v, got):
    """the MessagePack value that stands for v"""
    got = deref(got); k = ARROW[t]
    if k == 'Decimal128':
        if got.var != 'Array': return False
        xs = [deref(x) for x in deref(got.f['0']).a]
        if len(xs) != 4 or any(x.var != 'Integer' for x in xs): return False
        p, s, hi, lo = [deref(x.f['0']).v for x in xs]
        return band(mkb(p == tv.f['precision'].v), mkb(s == tv.f['scale'].v), mkb(hi * 2**64 + (lo % 2**64) == v.v), mkb(hi >= -2**63), mkb(hi < 2**63))
    if k in INTS: return got.var == 'Integer' and mkb(deref(got.f['0']).v == v.v)
    if k in ('Float32', 'Float64'): return got.var == ('F32' if k == 'Float32' else 'F64') and deref(got.f['0']).eq_(v)
    if k == 'Boolean': return got.var == 'Boolean' and eq(got.f['0'], v)
    return got.var == 'String' and eq(deref(got.f['0']).s, v)

def anyvalue(h, name, depth=0):
    k = h.pick(['nil', 'bool', 'int', 'f32', 'f64', 'str', 'bad str', 'bin'] + (['array'] if depth == 0 else []), name)
    if k == 'nil': return NIL()
    if k == 'bool': return mp(h.bool(name))
    if k == 'int': return Enum('Value', 'Integer', {'0': Int(h.int(name, 'i128', -2**63, 2**64 - 1).v, 'rmpv')})
    if k == 'f32': return mp(Flt('f32', 'bits', h.int(name, 'u32')))
    if k == 'f64': return mp(Flt('f64', 'bits', h.int(name, 'u64')))
    if k == 'str': return mp(symtext(name, 2))
    if k == 'bad str': return Enum('Value', 'String', {'0': Utf8(None, False)})
    if k == 'bin': return Enum('Value', 'Binary', {'0': Vec([])})
    n = h.choose(6, name + ' length')
    if n != 4: return Enum('Value', 'Array', {'0': Vec([mp(Int(0, 'i64')) for _ in range(n)])})
    if h.flip(name + ' odd element'):
        i = h.choose(4, name + ' element'); xs = [mp(h.int(f'{name}[{j}]', 'i64')) for j in range(4)]; xs[i] = anyvalue(h, f'{name}[{i}]', 1)
    else: xs = [Enum('Value', 'Integer', {'0': Int(h.int(f'{name}[{j}]', 'i128', -2**63, 2**64 - 1).v, 'rmpv')}) for j in range(4)]
    return Enum('Value', 'Array', {'0': Vec(xs)})
def meaning(t, tv, v):
    """('null',) / ('value', v) / None: does not fit"""
    v = deref(v); k = ARROW[t]
    if v.var == 'Nil': return ('null',)
    br = lambda c: c if isinstance(c, bool) else Ctx.cur.branch(c)
    if k in INTS:
        if v.var != 'Integer': return None
        n = deref(v.f['0']).v; lo, hi = INT[INTS[k]]
        return ('value', Int(n, INTS[k])) if br(mkb(z3.And(n >= lo, n <= hi) if is_sym(n) else lo <= n <= hi)) else None
    if k == 'Float32': return ('value', deref(v.f['0'])) if v.var == 'F32' else None
    if k == 'Float64':
        if v.var == 'Integer': return ('value', int_to_f64(deref(v.f['0'])))
        return ('value', widen(deref(v.f['0']))) if v.var in ('F32', 'F64') else None
    if k == 'Boolean': return ('value', v.f['0']) if v.var == 'Boolean' else None
    if k == 'Utf8': return ('value', deref(v.f['0']).s) if v.var == 'String' and deref(v.f['0']).valid else None
    if v.var != 'Array': return None
    xs = [deref(x) for x in deref(v.f['0']).a]
    if len(xs) != 4 or any(x.var != 'Integer' for x in xs): return None
    p, s, hi, lo = [deref(x.f['0']).v for x in xs]
    n = hi * 2**64 + (lo % 2**64)
    P, S = tv.f['precision'].v, tv.f['scale'].v
    AND = lambda *a: z3.And(*[x if z3.is_expr(x) else z3.BoolVal(bool(x)) for x in a])
    ok = AND(p == P, s == S, hi < 2**63, lo < 2**63, n <= 10**38, n >= -10**38)
    if not br(mkb(z3.simplify(ok))): return None
    if not br(mkb(z3.simplify(AND(S <= 38, z3.Or(*[x if z3.is_expr(x) else z3.BoolVal(bool(x)) for x in (S <= 0, S <= P)]))))): return None
    n = Int(z3.simplify(n) if is_sym(n) else n, 'i128')
    return ('value', n) if br(mkb(fits(n.v, P))) else None
def cell_eq(cell, want):
    ok, v = cell
    if want[0] == 'null': return bnot(ok)
    if ok is False: return False
    return band(ok, eq(v, want[1]))

# ------------------------------------------------------------------ conversions
@case('an argument is encoded as itself', over=[dict(t=t) for t in TYPES], expects=['value', 'null'])
def encode(h, t):
    tv = ty(h, t); cols = [column(h, 'INT', None, 2, 'other'), column(h, t, tv, 2, 'col')]; at = h.choose(2, 'column'); 
    if at == 0: cols.reverse()
    row = h.choose(2, 'row')
    r = h.it.call_fn(WM + 'messagepack_encode_input_value', tv, Vec(cols), Int(row, 'usize'), Int(at, 'usize'))
    h.check(r.var == 'Ok', 'an argument is refused')
    col = cols[at]; ok, v = col.vals[row]; got = deref(r.f['0'])
    if Ctx.cur.branch(ok) if not isinstance(ok, bool) else ok:
        h.check(encoded_as(t, tv, v, got), 'the function is passed another value', info=lambda m: {'type': t, 'passed': repr(got)[:200], 'value': repr(v)[:200]}); h.wit('value')
    else: h.check(got.var == 'Nil', 'NULL is passed as a value', info=lambda m: {'type': t, 'passed': repr(got)[:200]}); h.wit('null')
@case('a column of another type is refused', over=[dict(t=t) for t in TYPES])
def encode_wrong(h, t):
    tv = ty(h, t); o = h.pick([x for x in ('SMALLINT', 'INT', 'BIGINT', 'FLOAT', 'DOUBLE', 'TEXT', 'BOOLEAN', 'DATE', 'TIMESTAMP', 'DECIMAL') if ARROW[x] != ARROW[t]], 'column type')
    c = column(h, o, ty(h, o, '2'), 1, 'col'); h.assume(c.vals[0][0])
    r = h.it.call_fn(WM + 'messagepack_encode_input_value', tv, Vec([c]), Int(0, 'usize'), Int(0, 'usize'))
    h.check(r.var == 'Err', 'a column of another type is passed')
@case('a returned value is decoded as itself or refused', over=[dict(t=t, n=n, _tier='quick' if n < 3 and not (t == 'DECIMAL' and n == 2) else 'thorough') for t in TYPES for n in (1, 2)], expects=['value', 'null', 'refused'], budget=400)
def decode(h, t, n):
    tv = ty(h, t)
    # one arbitrary value among good ones
    k = h.choose(n, 'position'); vs = [anyvalue(h, 'returned') if i == k else NIL() for i in range(n)]
    r = h.it.call_fn(WM + 'messagepack_decode_results', tv, Vec(vs))
    ms = [meaning(t, tv, v) for v in vs]
    info = lambda m: {'type': t, 'returned': repr(vs[k])[:300], 'result': repr(r)[:300]}
    if None in ms:
        h.check(r.var == 'Err', 'a value that does not fit the declared type is accepted', info=info); h.wit('refused'); return
    if t == 'DECIMAL' and r.var == 'Err':
        S, P = tv.f['scale'].v, tv.f['precision'].v
        h.check(mkb(z3.Or(S > 38, z3.And(S > 0, S > P)) if is_sym(S) or is_sym(P) else (S > 38 or (S > 0 and S > P))), 'a value of the declared type is refused', info=info); return
    h.check(r.var == 'Ok', 'a value of the declared type is refused', info=info)
    a = deref(r.f['0'])
    h.check(a.k == ARROW[t] and len(a.vals) == n, 'the result column has another type or length', info=info)
    if t == 'DECIMAL': h.check(band(mkb(a.p.v == tv.f['precision'].v), mkb(a.s.v == tv.f['scale'].v)), 'the result has another precision or scale', info=info)
    for cell, want in zip(a.vals, ms): h.check(cell_eq(cell, want), 'the returned value is changed', info=info); h.wit(want[0])

# ------------------------------------------------------------------ the declared types
@case('types map as documented', over=[dict(t=t) for t in TYPES])
def types(h, t):
    tv = ty(h, t)
    r = h.it.call_fn(WM + 'sql_type_to_arrow_type', tv); p, s = (tv.f['precision'], tv.f['scale']) if t == 'DECIMAL' else (None, None)
    h.check(r.var == 'Ok' and eq(r.f['0'], dt_of(ARROW[t], p, s)), 'the SQL type maps to another Arrow type')
    r = h.it.call_fn(T + 'get_wasm_type', tv)
    if t in RAW: h.check(r.var == 'Ok' and deref(r.f['0']).var == RAW[t], 'the SQL type maps to another WASM type')
    else: h.check(r.var == 'Err', 'a type WASM cannot carry is accepted')
@case('type names', over=[dict(t=t) for t in TYPES if t != 'DECIMAL'])
def names(h, t):
    # any mixture of cases
    from engine.symchars import from_cl
    cs = []
    for i, ch in enumerate(t):
        if ch.isalpha():
            x = h.int(f'c{i}', 'u32'); h.assume(mkb(z3.Or(x.v == ord(ch), x.v == ord(ch.lower())) if is_sym(x.v) else x.v in (ord(ch), ord(ch.lower())))); cs.append(Char(x.v))
        else: cs.append(Char(ch))
    r = h.it.call_fn(T + 'parse_create_function_data_type', from_cl(cs))
    h.check(r.var == 'Ok' and deref(r.f['0']).var == t, 'a type name denotes another type')
@case('unknown type names', over=[dict(n=n) for n in (1, 2, 3, 4)])
def unknown(h, n):
    s = symtext('name', n, 33, 126); r = h.it.call_fn(T + 'parse_create_function_data_type', s)
    if r.var == 'Ok':
        v = deref(r.f['0']).var
        from engine.symchars import cl, code
        h.check(len(v) == n and band(*[mkb(z3.Or(code(x) == ord(ch), code(x) == ord(ch.lower())) if is_sym(code(x)) else code(x) in (ord(ch), ord(ch.lower()))) for x, ch in zip(cl(s), v)]), 'text that is no type name is accepted')
@case('volatility')
def vol(h):
    v = h.pick(['Immutable', 'Stable', 'Volatile'], 'v')
    r = h.it.call_fn(T + 'get_volatility', h.it.mke(T + 'CreateFunctionVolatility', v)); h.check(deref(r).var == v, 'another volatility')

# ------------------------------------------------------------------ whole functions
def create(h, w, lang, ins, ret):
    it = h.it; h.ctx.user['wasm'] = w
    h.ctx.user['udf'] = None
    X.EXT_FN['prelude::create_udf'] = X.EXT_FN['create_udf'] = lambda it, a, c: Opaque('ScalarUDF', args=[deref(x) for x in a])
    return it.call_fn(WM + 'create_udf_from_wasm', it.mke(T + 'CreateFunctionLanguage', lang), 'f', w.bytes, w.name, Vec(ins), ret, Enum('Volatility', 'Stable'))
def made(h, r, ts, t, tvs, tv):
    h.check(r.var == 'Ok', 'a function with supported types is refused')
    n, i, o, vol, f = deref(r.f['0']).f['args']
    dtv = lambda t, tv: dt_of(ARROW[t], *( (tv.f['precision'], tv.f['scale']) if t == 'DECIMAL' else ()))
    h.check(n == 'f' and len(i.a) == len(ts) and band(*[eq(x, dtv(a, b)) for x, a, b in zip(i.a, ts, tvs)]) and eq(o, dtv(t, tv)) and vol.var == 'Stable', 'the function is registered with another name, type or volatility')
    return f
def args_of(h, ts, tvs, rows, shape):
    """columnar arguments; shape: 'a' array, 's' scalar"""
    cols = []; out = []
    for i, (t, tv, s) in enumerate(zip(ts, tvs, shape)):
        c = column(h, t, tv, rows if s == 'a' else 1, f'arg{i}'); cols.append((s, c))
        if s == 'a': out.append(Enum('ColumnarValue', 'Array', {'0': c}))
        else: out.append(Enum('ColumnarValue', 'Scalar', {'0': Scalar(c.k, c.vals[0][0], c.vals[0][1], c.p, c.s)}))
    return cols, out
def call(h, f, out): return h.it.await_(h.it.call(f, [Vec(out)]))
SHAPES = [dict(shape=s, rows=r, _tier='quick' if r <= 2 or s == 'a' else 'thorough') for s in ('a', 's', 'aa', 'as', 'sa', 'ss', 'asa') for r in (0, 1, 2, 3) if 'a' in s or r == 1]
@case('raw functions are called row by row', over=SHAPES, budget=300)
def raw(h, shape, rows):
    w = World(h); ts = [h.pick(['INT', 'BIGINT', 'REAL', 'DOUBLE'], f'type {i}') if i == 0 else ('I64', 'F32')[i - 1] for i in range(len(shape))]; ret = h.pick(['INT', 'I64', 'FLOAT', 'F64'], 'return type')
    w.ftype = FType([RAW[t] for t in ts], [RAW[ret]])
    tvs = [ty(h, t) for t in ts]; tv = ty(h, ret)
    w.can_fail = False; f = made(h, create(h, w, 'Wasm', tvs, tv), ts, ret, tvs, tv); w.can_fail = True
    cols, out = args_of(h, ts, tvs, rows, shape); n = rows if 'a' in shape else 1
    r = call(h, f, out)
    null = False
    for i in range(n):
        for s, c in cols:
            ok = c.vals[i if s == 'a' else 0][0]
            null = bor(null, bnot(ok))
    if w.failed: h.check(r.var == 'Err', 'a trap is swallowed'); return
    if r.var == 'Err': h.check(null, 'a call fails for no reason'); return
    h.check(bnot(null), 'NULL is passed to a function that cannot take it')
    a = deref(deref(r.f['0']).f['0'])
    h.check(deref(r.f['0']).var == 'Array' and a.k == ARROW[ret] and len(a.vals) == n and len(w.calls) == n, 'not one call and one result per row')
    for i in range(n):
        for j, (s, c) in enumerate(cols):
            v = c.vals[i if s == 'a' else 0][1]; g = w.calls[i][j]
            h.check(eq(g, v if type(v) is Int else v.x), 'the function is passed another value')
        o = w.res[i][0]
        h.check(cell_eq(a.vals[i], ('value', o if RAW[ret][0] == 'I' else Flt(RAW[ret].lower(), 'bits', o))), 'the returned value is changed')
@case('raw functions have the declared signature')
def sig(h):
    w = World(h); w.can_fail = False; ts = [h.pick(['INT', 'BIGINT', 'REAL', 'DOUBLE'], f'type {i}') for i in range(h.choose(2, 'arguments') + 1)]; ret = h.pick(['INT', 'BIGINT', 'REAL', 'DOUBLE'], 'return type')
    ps = [h.pick(X.VT, f'real type {i}') for i in range(h.choose(3, 'real arguments'))]; rs = [h.pick(X.VT, 'real result') for i in range(h.choose(3, 'real results'))]
    w.ftype = FType(ps, rs); tvs = [ty(h, t) for t in ts]; tv = ty(h, ret)
    r = create(h, w, 'Wasm', tvs, tv)
    fit = ps == [RAW[t] for t in ts] and rs == [RAW[ret]]
    if fit: h.check(r.var == 'Ok', 'a function of the declared type is refused'); return
    if r.var == 'Ok':
        # it must then fail when called, never return something or crash
        f = deref(r.f['0']).f['args'][4]; cols, out = args_of(h, ts, tvs, 1, 'a' * len(ts))
        for _, c in cols: h.assume(c.vals[0][0])
        r = call(h, f, out); h.check(r.var == 'Err', 'a function of another type than declared is used')
@case('types WASM cannot carry are refused', over=[dict(t=t) for t in TYPES if t not in RAW])
def unsupported(h, t):
    w = World(h); w.can_fail = False; w.ftype = FType(['I32'], ['I32'])
    where = h.choose(3, 'place'); tvs = [ty(h, t if where != 1 else 'INT')]; tv = ty(h, t if where else 'INT', 'r')
    r = create(h, w, 'Wasm', tvs, tv); h.check(r.var == 'Err', 'a type WASM cannot carry is accepted')
@case('MessagePack functions are called row by row', over=[dict(shape=s, rows=r, L=L, _tier='quick' if (r <= 2 and L in (1, 9)) else 'thorough') for s in ('a', 's', 'as', 'sa', 'ss') for r in (0, 1, 2, 3) for L in (1, 2, 3, 9) if 'a' in s or r == 1], budget=300)
def msgpack(h, shape, rows, L):
    w = World(h); w.L = L; w.Lo = h.pick([1, 6], 'size of the result'); ts = ['INT', 'TEXT'][:len(shape)]; ret = 'BIGINT'
    tvs = [ty(h, t) for t in ts]; tv = ty(h, ret)
    w.can_fail = False; f = made(h, create(h, w, 'WasmMessagePack', tvs, tv), ts, ret, tvs, tv); w.can_fail = True
    cols, out = args_of(h, ts, tvs, rows, shape); n = rows if 'a' in shape else 1
    res = {}
    def result(i):
        k = h.pick(['int', 'nil', 'garbage'] if i == 0 else ['int'], f'result {i}')
        res[i] = None if k == 'garbage' else NIL() if k == 'nil' else mp(h.int(f'result {i}', 'i64')); return res[i]
    w.result = result
    r = call(h, f, out)
    if w.failed: h.check(r.var == 'Err', f'a failure is swallowed: {w.failed}'); return
    if None in res.values(): h.check(r.var == 'Err', 'garbage is accepted'); return
    h.check(r.var == 'Ok', 'a call fails for no reason')
    a = deref(deref(r.f['0']).f['0'])
    h.check(deref(r.f['0']).var == 'Array' and a.k == 'Int64' and len(a.vals) == n and len(w.calls) == n, 'not one call and one result per row')
    for i in range(n):
        v = w.calls[i]; xs = [deref(x) for x in deref(v.f['0']).a] if v.var == 'Array' else []
        h.check(len(xs) == len(ts), 'the function is passed another number of arguments')
        for j, (s, c) in enumerate(cols):
            ok, val = c.vals[i if s == 'a' else 0]
            g = xs[j]
            if g.var == 'Nil': h.check(bnot(ok), 'a value is passed as NULL')
            else: h.check(band(ok, encoded_as(ts[j], tvs[j], val, g)), 'the function is passed another value')
        h.check(cell_eq(a.vals[i], ('null',) if res[i].var == 'Nil' else ('value', deref(res[i].f['0']))), 'the returned value is changed')
    # every buffer is given back with its own size
    want = []
    for i in range(n): want += [(w.allocs[i][0], w.asize[i]), (w.out[i][0], 4 + w.Lo)]
    h.check(len(w.frees) == len(want), 'buffers are not given back')
    for (p, s), (q, t) in zip(w.frees, want):
        pu = p % 2**32
        h.check(band(mkb(pu == q), mkb(s == t)), 'a buffer is given back with another address or size')
    h.check(all(mkb(w.asize[i] == L + 4) is True or h.ctx.sat(w.asize[i] != L + 4) is False for i in range(n)), 'the allocated size is not the size of the input')
@case('MessagePack functions of every type', over=[dict(t=t) for t in TYPES], budget=300)
def echo(h, t):
    """the function returns its argument: so does the UDF"""
    w = World(h); w.L = 5; w.Lo = 5; w.can_fail = False; tv = ty(h, t)
    f = made(h, create(h, w, 'WasmMessagePack', [tv], tv), [t], t, [tv], tv)
    cols, out = args_of(h, [t], [tv], 1, 'a')
    w.result = lambda i: deref(deref(w.enc[-1][0]).f['0']).a[0]
    if t == 'DECIMAL':
        S, P = tv.f['scale'].v, tv.f['precision'].v; h.assume(mkb(z3.And(S <= 38, z3.Or(S <= 0, S <= P)) if is_sym(S) or is_sym(P) else S <= 38 and (S <= 0 or S <= P)))
    r = call(h, f, out); h.check(r.var == 'Ok', 'a call fails for no reason', info=lambda m: {'type': t, 'arg': repr(cols)[:300], 'result': repr(r)[:300]})
    a = deref(deref(r.f['0']).f['0']); ok, v = cols[0][1].vals[0]; gok, gv = a.vals[0]
    if Ctx.cur.branch(ok) if not isinstance(ok, bool) else ok: h.check(gok is not False and band(gok, eq(gv, v)), 'a value does not survive the round trip', info=lambda m: {'type': t, 'arg': repr(v)[:300], 'result': repr(gv)[:300]})
    else: h.check(bnot(gok), 'NULL does not survive the round trip')
