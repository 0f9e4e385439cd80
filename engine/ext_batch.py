"""Arrow schemas, record batches and compute kernels; prost messages of clade's proto files."""
import os, re, z3
from .core import *
from .values import *
from . import interp, stdlib, ext_arrow as AR
from .interp import EXT_FN, METHODS, CONSTS, EXT_STRUCT, CC, OpaquePiece, conc_index
from .ext_arrow import Arr, dt, dt_of

# ------------------------------------------------------------------ prost
ENUMS = {}      # name -> {Variant: (number, PROTO_NAME)}
MESSAGES = {}   # name -> [(field, type, label)]
def camel(s): return ''.join(x.capitalize() for x in s.lower().split('_'))
def load_protos(repo):
    d = os.path.join(repo, 'clade/proto')
    for fn in sorted(os.listdir(d)):
        src = re.sub(r'//[^\n]*', '', open(os.path.join(d, fn)).read())
        for m in re.finditer(r'\benum\s+(\w+)\s*\{([^}]*)\}', src):
            vs = re.findall(r'(\w+)\s*=\s*(\d+)\s*;', m.group(2))
            pre = re.sub(r'(?<!^)(?=[A-Z])', '_', m.group(1)).upper() + '_'
            strip = all(v.startswith(pre) for v, _ in vs)
            ENUMS[m.group(1)] = {camel(v[len(pre):] if strip else v): (int(n), v) for v, n in vs}
        for m in re.finditer(r'\bmessage\s+(\w+)\s*\{([^}]*)\}', src):
            MESSAGES[m.group(1)] = [(f, t.strip(), (l or '').strip()) for l, t, f in re.findall(r'(repeated\s+|optional\s+)?([\w.<>, ]+?)\s+(\w+)\s*=\s*\d+\s*;', m.group(2))]
    for en, vs in ENUMS.items():
        for v, (n, _) in vs.items(): CONSTS[('disc', en, v)] = n
        EXT_FN[en + '::try_from'] = mk_try(en)
        METHODS[(en, 'as_str_name')] = lambda it, v, a, c, vs=vs: vs[v.var][1]
    for mn, fs in MESSAGES.items():
        for f, t, l in fs:
            b = t.split('.')[-1]
            if b in ENUMS and not l: METHODS[(mn, f)] = mk_getter(f, b)
        METHODS[(mn, 'encode_to_vec')] = lambda it, v, a, c: Vec([Opaque('encoded', v=v)])
def from_num(en, n):
    """variant of number n (forks), or None"""
    x = ival(n)
    for v, (k, _) in ENUMS[en].items():
        if Ctx.cur.branch(mkbool(x == k)): return Enum(en, v)
    return None
def mk_try(en):
    def f(it, a, c):
        if type(deref(a[0])) is Enum and tyname(deref(a[0]).ty) == en: return Ok(deref(a[0]))      # a number made with .into()
        v = from_num(en, a[0])
        return Ok(v) if v is not None else Err(Struct('UnknownEnumValue', {'0': deref(a[0])}))
    return f
def mk_getter(f, en):
    def g(it, v, a, c):
        r = from_num(en, v.f[f])
        return r if r is not None else Enum(en, [k for k, (n, _) in ENUMS[en].items() if n == 0][0])
    return g
def role_num(r): return ENUMS['ColumnRole'][r][0]

# ------------------------------------------------------------------ schemas
class Field(Obj):
    tname = 'Field'
    def __init__(self, name, ty, nullable=True, leaves=1): self.name = name; self.ty = ty; self.nullable = nullable; self.leaves = leaves
    def __repr__(self): return f'{self.name}: {self.ty!r}{"" if self.nullable else " not null"}'
    def m_name(self, it, a, c): return self.name
    def m_data_type(self, it, a, c): return self.ty
    def m_is_nullable(self, it, a, c): return self.nullable
    def m_clone(self, it, a, c): return self
    m_as_ref = m_to_owned = m_clone
    def m_with_name(self, it, a, c): return Field(deref(a[0]), self.ty, self.nullable, self.leaves)
    def m_with_nullable(self, it, a, c): return Field(self.name, self.ty, deref(a[0]), self.leaves)
    def m_with_data_type(self, it, a, c): return Field(self.name, deref(a[0]), self.nullable, self.leaves)
    def eq_(self, o):
        o = deref(o)
        return isinstance(o, Field) and band(eq(self.name, o.name), eq(self.ty, o.ty), eq(self.nullable, o.nullable))
    def m_eq(self, it, a, c): return self.eq_(a[0])
    def debug_(self, it): return Text([OpaquePiece(self)])
    display_ = debug_
EXT_FN['Field::new'] = lambda it, a, c: Field(deref(a[0]), deref(a[1]), deref(a[2]))
METHODS[('DataType', 'is_null')] = lambda it, v, a, c: v.var == 'Null'
METHODS[('DataType', 'debug')] = METHODS[('DataType', 'display')] = lambda it, v, a, c: v.var

class Schema(Obj):
    tname = 'Schema'
    def __init__(self, fields): self.fields = list(fields)
    @property
    def f(self): return {'fields': Vec(list(self.fields))}
    def __repr__(self): return 'Schema' + repr(self.fields)
    def m_fields(self, it, a, c): return Vec(list(self.fields))
    def m_clone(self, it, a, c): return self
    m_as_ref = m_inner = m_as_arrow = m_to_owned = m_clone
    def m_flattened_fields(self, it, a, c):
        out = []
        for f in self.fields:
            out.append(f); out += [Field(f'{i}', dt('Int32')) for i in range(f.leaves - 1)]
        return Vec(out)
    m_all_fields = m_flattened_fields
    def find(self, n):
        for i, f in enumerate(self.fields):
            if Ctx.cur.branch(eq(f.name, n)): return i
        return None
    def m_index_of(self, it, a, c):
        i = self.find(a[0])
        return Ok(Int(i, 'usize')) if i is not None else Err(Enum('ArrowError', 'SchemaError', {'0': 'Unable to get field'}))
    def m_field(self, it, a, c): return self.fields[conc_index(deref(a[0]), len(self.fields), 'field')]
    def m_field_with_name(self, it, a, c):
        i = self.find(a[0])
        return Ok(self.fields[i]) if i is not None else Err(Enum('ArrowError', 'SchemaError', {'0': 'Unable to get field'}))
    def m_column_with_name(self, it, a, c):
        i = self.find(a[0])
        return Some(Tup([Int(i, 'usize'), self.fields[i]])) if i is not None else NONE()
    def eq_(self, o):
        o = deref(o)
        return isinstance(o, Schema) and len(o.fields) == len(self.fields) and band(*[eq(x, y) for x, y in zip(self.fields, o.fields)])
    def m_eq(self, it, a, c): return self.eq_(a[0])
    def debug_(self, it): return Text([OpaquePiece(self)])
    display_ = debug_
EXT_FN['Schema::new'] = lambda it, a, c: Schema([deref(x) for x in deref(a[0]).a])
EXT_FN['Schema::empty'] = lambda it, a, c: Schema([])
EXT_FN['Fields::from'] = EXT_FN['Fields::from_iter'] = lambda it, a, c: Vec([deref(x) for x in it_list(it, a[0])])
EXT_FN['Fields::empty'] = lambda it, a, c: Vec([])
def it_list(it, v): 
    v = deref(v)
    return list(v.a) if type(v) is Vec else list(v)
class SchemaBuilder(Obj):
    def __init__(self): self.fs = []
    def m_push(self, it, a, c): self.fs.append(deref(a[0])); return UNIT()
    def m_finish(self, it, a, c): return Schema(self.fs)
EXT_FN['SchemaBuilder::new'] = lambda it, a, c: SchemaBuilder()

# ------------------------------------------------------------------ batches
MEM = [0]
class Batch(Obj):
    tname = 'RecordBatch'
    def __init__(self, schema, cols, rows=None, mem=None, tag=None):
        self.schema = schema; self.cols = list(cols); self.n = rows if rows is not None else len(cols[0].vals) if cols else 0
        self.mem = mem; self.tag = tag
    def __repr__(self): return f'Batch({self.tag or ""} {self.n} rows {[repr(c) for c in self.cols]})'
    def m_schema(self, it, a, c): return self.schema
    m_schema_ref = m_schema
    def m_clone(self, it, a, c): return self
    m_to_owned = m_clone
    def m_columns(self, it, a, c): return Vec(list(self.cols))
    def m_column(self, it, a, c): return self.cols[conc_index(deref(a[0]), len(self.cols), 'column')]
    def m_num_rows(self, it, a, c): return Int(self.n, 'usize')
    def m_num_columns(self, it, a, c): return Int(len(self.cols), 'usize')
    def m_column_by_name(self, it, a, c):
        i = self.schema.find(a[0])
        return NONE() if i is None else Some(self.cols[i])
    def m_get_array_memory_size(self, it, a, c):
        if self.mem is None:
            v = Ctx.cur.fresh('memory size'); self.mem = Int(v, 'usize')
            if is_sym(v): Ctx.cur.add(z3.And(v >= 0, v <= 2**40))
        return self.mem
    def m_slice(self, it, a, c):
        o = stdlib.cint(a[0]); n = stdlib.cint(a[1])
        if o + n > self.n: raise Panic('record batch slice out of bounds')
        return Batch(self.schema, [x.m_slice(it, a, c) for x in self.cols], n)
    def m_project(self, it, a, c):
        ix = [stdlib.cint(x) for x in it_list(it, a[0])]
        return Ok(Batch(Schema([self.schema.fields[i] for i in ix]), [self.cols[i] for i in ix], self.n))
    def eq_(self, o): return self is deref(o)
    def debug_(self, it): return Text([OpaquePiece(self)])
def arrow_err(msg): return Err(Enum('ArrowError', 'InvalidArgumentError', {'0': msg}))
def try_new(it, a, c):
    s = deref(a[0]); cols = [deref(x) for x in deref(a[1]).a]
    if len(s.fields) != len(cols): return arrow_err('number of columns')
    if len({len(x.vals) for x in cols}) > 1: return arrow_err('all columns in a record batch must have the same length')
    for f, x in zip(s.fields, cols):
        if not Ctx.cur.branch(eq(f.ty, dt_of(x.k, x.p, x.s))): return arrow_err('column types must match schema types')
        if f.nullable is False:
            for ok, _ in x.vals:
                if not Ctx.cur.branch(ok): return arrow_err('non-nullable column contains null')
    return Ok(Batch(s, cols))
EXT_FN['RecordBatch::try_new'] = try_new
def concat_batches(it, a, c):
    s = deref(a[0]); bs = [deref(b) for b in it_list(it, a[1])]
    if not s.fields: return Ok(Batch(s, [], sum(b.n for b in bs)))
    if not bs: return Ok(Batch(s, [Arr(f.ty.var, []) for f in s.fields]))
    cols = []
    for i in range(len(s.fields)):
        ks = {b.cols[i].k for b in bs}
        if len(ks) > 1: return arrow_err('It is not possible to concatenate arrays of different data types')
        c0 = bs[0].cols[i]
        cols.append(Arr(c0.k, [v for b in bs for v in b.cols[i].vals], c0.p, c0.s, c0.name))
    return try_new(it, [s, Vec(cols)], c)
EXT_FN['concat_batches'] = concat_batches
def take(it, a, c):
    arr, ix = deref(a[0]), deref(a[1]); out = []
    for ok, i in ix.vals:
        if not Ctx.cur.branch(ok): out.append((False, None)); continue
        n = stdlib.cint(i)
        if n >= len(arr.vals): raise Panic('take index out of bounds')
        out.append(arr.vals[n])
    return Ok(Arr(arr.k, out, arr.p, arr.s, arr.name))
EXT_FN['take'] = take
def m_filter(it, a, c):
    arr, m = deref(a[0]), deref(a[1])
    if len(arr.vals) != len(m.vals): return arrow_err('filter length')
    return Ok(Arr(arr.k, [v for v, (ok, b) in zip(arr.vals, m.vals) if Ctx.cur.branch(band(ok, b))], arr.p, arr.s, arr.name))
EXT_FN['compute::filter'] = EXT_FN['filter'] = m_filter
EXT_FN['is_not_null'] = EXT_FN['compute::is_not_null'] = lambda it, a, c: Ok(Arr('Boolean', [(True, ok) for ok, _ in deref(a[0]).vals]))
EXT_FN['is_null'] = EXT_FN['compute::is_null'] = lambda it, a, c: Ok(Arr('Boolean', [(True, bnot(ok)) for ok, _ in deref(a[0]).vals]))
def new_null_array(it, a, c):
    t = deref(a[0])
    return Arr(t.var, [(False, None)] * stdlib.cint(a[1]))
EXT_FN['new_null_array'] = new_null_array
EXT_FN['new_empty_array'] = lambda it, a, c: Arr(deref(a[0]).var, [])

def valcmp(op, a, b):
    """comparison of two cell values (both valid)"""
    a, b = deref(a), deref(b)
    if op == 'eq': return eq(a, b)
    if type(a) is Int and type(b) is Int:
        x, y = a.v, b.v
        return mkbool({'lt': x < y, 'lt_eq': x <= y, 'gt': x > y, 'gt_eq': x >= y}[op])
    t = lambda z: z.v if type(z) is Int else z
    x, y = t(a), t(b)
    if all(isinstance(z, int) or (z3.is_expr(z) and z3.is_int(z)) for z in (x, y)): return mkbool({'lt': x < y, 'lt_eq': x <= y, 'gt': x > y, 'gt_eq': x >= y}[op])
    raise Unsupported(f'ordering of {a!r}')
class ScalarArr(Obj):
    """arrow Scalar<ArrayRef>: an array of one value, as a datum"""
    tname = 'Scalar'
    def __init__(self, arr): self.arr = arr
    def m_clone(self, it, a, c): return self
EXT_FN['Scalar::new'] = lambda it, a, c: ScalarArr(deref(a[0]))
def kernel(op):
    def f(it, a, c):
        x, y = deref(a[0]), deref(a[1])
        def cells(z, n):
            if isinstance(z, ScalarArr): return [z.arr.vals[0]] * n
            return z.vals
        n = max(len(z.vals) for z in (x, y) if isinstance(z, Arr)) if isinstance(x, Arr) or isinstance(y, Arr) else 1
        A, B = cells(x, n), cells(y, n)
        if len(A) != len(B): return arrow_err('Cannot compare arrays of different lengths')
        kx, ky = (z.arr.k if isinstance(z, ScalarArr) else z.k for z in (x, y))
        if kx != ky: return arrow_err(f'Invalid comparison operation: {kx} {ky}')
        out = []
        for (o1, v1), (o2, v2) in zip(A, B):
            ok = band(o1, o2)
            out.append((ok, valcmp(op, v1, v2) if ok is not False and v1 is not None and v2 is not None else False))
        return Ok(Arr('Boolean', out))
    return f
for _o in ('eq', 'lt', 'lt_eq', 'gt', 'gt_eq'): EXT_FN['cmp::' + _o] = kernel(_o)
def zif(c, a, b):
    if isinstance(c, bool): return a if c else b
    return mkbool(z3.If(c, z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b))
def kand(o1, v1, o2, v2):
    """Kleene and of nullable booleans: (valid, value)"""
    f = bor(band(o1, bnot(v1)), band(o2, bnot(v2)))
    return (bor(f, band(o1, o2)), band(bnot(f), v1, v2))
def kor(o1, v1, o2, v2):
    t = bor(band(o1, v1), band(o2, v2))
    return (bor(t, band(o1, o2)), t)
def _andk(it, a, c):
    x, y = deref(a[0]), deref(a[1])
    if len(x.vals) != len(y.vals): return arrow_err('Cannot perform bitwise operation on arrays of different length')
    return Ok(Arr('Boolean', [kand(p[0], p[1], q[0], q[1]) for p, q in zip(x.vals, y.vals)]))
EXT_FN['and_kleene'] = _andk
EXT_FN['or_kleene'] = lambda it, a, c: Ok(Arr('Boolean', [kor(p[0], p[1], q[0], q[1]) for p, q in zip(deref(a[0]).vals, deref(a[1]).vals)]))
def _and(it, a, c):
    x, y = deref(a[0]), deref(a[1])
    return Ok(Arr('Boolean', [(band(p[0], q[0]), band(p[1], q[1])) for p, q in zip(x.vals, y.vals)]))
EXT_FN['compute::and'] = _and
def bool_or(it, a, c):
    x = deref(a[0])
    for ok, _ in x.vals:
        if Ctx.cur.branch(ok): break
    else: return NONE()
    return Some(bor(*[band(ok, v) for ok, v in x.vals]))
EXT_FN['bool_or'] = bool_or

# ------------------------------------------------------------------ arrow-row
class SortField(Obj):
    def __init__(self, t): self.t = t
    def m_clone(self, it, a, c): return self
EXT_FN['SortField::new'] = lambda it, a, c: SortField(deref(a[0]))
class Row(Obj):
    tname = 'Row'
    def __init__(self, cells): self.cells = cells
    def __repr__(self): return repr(self.cells)
    def m_clone(self, it, a, c): return self
    def eq_(self, o):
        o = deref(o)
        return band(*[bor(band(bnot(a[0]), bnot(b[0])), band(a[0], b[0], valcmp('eq', a[1], b[1]) if a[1] is not None and b[1] is not None else False)) for a, b in zip(self.cells, o.cells)])
    def m_eq(self, it, a, c): return self.eq_(a[0])
    def m_ne(self, it, a, c): return bnot(self.eq_(a[0]))
class Rows(Obj):
    def __init__(self, rows): self.rows = rows
    def m_row(self, it, a, c): return self.rows[conc_index(deref(a[0]), len(self.rows), 'row')]
    def m_num_rows(self, it, a, c): return Int(len(self.rows), 'usize')
    def m_iter(self, it, a, c): return Iter(iter(list(self.rows)))
    m_into_iter = m_iter
    def iter_(self, it): return iter(list(self.rows))
class RowConverter(Obj):
    def __init__(self, sf): self.sf = sf
    def m_convert_columns(self, it, a, c):
        cols = [deref(x) for x in it_list(it, a[0])]
        if len(cols) != len(self.sf): return arrow_err('Incorrect number of arrays provided to RowConverter')
        for s, x in zip(self.sf, cols):
            if not Ctx.cur.branch(eq(s.t, dt_of(x.k, x.p, x.s))): return arrow_err('RowConverter column schema mismatch')
        return Ok(Rows([Row([x.vals[i] for x in cols]) for i in range(len(cols[0].vals) if cols else 0)]))
EXT_FN['RowConverter::new'] = lambda it, a, c: Ok(RowConverter([deref(x) for x in it_list(it, a[0])]))

# ------------------------------------------------------------------ struct builders, in-memory scans
BUILDERS = {'StringBuilder': ('Utf8',), 'Int64Builder': ('Int64',), 'Int32Builder': ('Int32',), 'BooleanBuilder': ('Boolean',), 'Float64Builder': ('Float64',),
    'TimestampSecondBuilder': ('TimestampSecond',), 'TimestampMillisecondBuilder': ('TimestampMillisecond',), 'TimestampMicrosecondBuilder': ('TimestampMicrosecond',), 'TimestampNanosecondBuilder': ('TimestampNanosecond',)}
def kind_of(t):
    t = deref(t)
    return 'Timestamp' + deref(t.f['0']).var if t.var == 'Timestamp' else t.var
class ColBuilder(Obj):
    def __init__(self, k): self.k = k; self.vals = []
    def is_type(self, n): return BUILDERS.get(n, (None,))[0] == self.k
    def m_append_value(self, it, a, c): self.vals.append((True, deref(a[0]))); return UNIT()
    def m_append_null(self, it, a, c): self.vals.append((False, None)); return UNIT()
    def m_append_option(self, it, a, c):
        v = deref(a[0])
        self.vals.append((True, deref(v.f['0'])) if v.var == 'Some' else (False, None)); return UNIT()
    def m_finish(self, it, a, c):
        r = Arr(self.k, self.vals); self.vals = []; return r
    def m_len(self, it, a, c): return Int(len(self.vals), 'usize')
class StructBuilder(Obj):
    def __init__(self, fields): self.fields = fields; self.cols = [ColBuilder(kind_of(f.ty)) for f in fields]; self.nulls = []
    def m_field_builder(self, it, a, c):
        i = stdlib.cint(a[0]); t = c.tf[0].n if c.tf else None
        if t is None: raise Unsupported('field_builder without a type')
        if i >= len(self.cols): raise Panic('field_builder index out of bounds')
        return Some(self.cols[i]) if self.cols[i].is_type(t) else NONE()
    def m_append(self, it, a, c): self.nulls.append(deref(a[0])); return UNIT()
    def m_append_null(self, it, a, c): self.nulls.append(False); return UNIT()
    def m_len(self, it, a, c): return Int(len(self.nulls), 'usize')
    def m_finish(self, it, a, c):
        if any(len(b.vals) != len(self.nulls) for b in self.cols): raise Panic('StructBuilder and field_builder are of unequal lengths')
        r = StructArr([b.m_finish(it, [], c) for b in self.cols], self.nulls); self.nulls = []; return r
class StructArr(Obj):
    def __init__(self, cols, nulls): self.cols = cols; self.nulls = nulls
    def m_columns(self, it, a, c): return Vec(list(self.cols))
    def m_column(self, it, a, c): return self.cols[conc_index(deref(a[0]), len(self.cols), 'column')]
EXT_FN['StructBuilder::from_fields'] = lambda it, a, c: StructBuilder([deref(f) for f in it_list(it, a[0])])
class MemExec(Obj):
    tname = 'MemoryExec'
    def __init__(self, parts, schema, proj): self.parts = parts; self.full = schema; self.proj = proj
    def m_schema(self, it, a, c): return self.full if self.proj is None else Schema([self.full.fields[i] for i in self.proj])
    def m_clone(self, it, a, c): return self
    def out(self):
        """projected columns of each batch, as value lists"""
        return [[b.cols[i].vals for i in (range(len(b.cols)) if self.proj is None else self.proj)] for p in self.parts for b in p]
def _memexec(it, a, c):
    parts = [[deref(b) for b in it_list(it, p)] for p in it_list(it, a[0])]; s = deref(a[1]); p = deref(a[2])
    proj = None if p.var == 'None' else [stdlib.cint(x) for x in it_list(it, p.f['0'])]
    if proj is not None and any(i >= len(s.fields) for i in proj): return Err(Enum('DataFusionError', 'ArrowError', {'0': 'project index out of bounds'}))
    return Ok(MemExec(parts, s, proj))
EXT_FN['MemoryExec::try_new'] = _memexec
