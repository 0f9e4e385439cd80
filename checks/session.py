"""A query session over the catalog: object stores and Delta tables by location, the session's view of catalogs."""
from checks.cat import *
from engine import ext_batch as B
B.load_protos(REPO)
def same(h, a, b): return h.ctx.branch(X.veq(a, b))
class LogStore(Obj):
    tname = 'LogStore'
    def __init__(self, w, path): self.w = w; self.path = path
    def m_clone(self, it, a, c): return self
    def m_root_uri(self, it, a, c): return mktext(['memory:///', self.path])
    def m_object_store(self, it, a, c): return Opaque('object store', path=self.path)
class Stores(Obj):
    """ObjectStoreFactory with a default store"""
    def __init__(self, w): self.w = w
    def m_clone(self, it, a, c): return self
    def m_get_default_log_store(self, it, a, c): return Some(LogStore(self.w, deref(a[0])))
class Delta(Obj):
    tname = 'DeltaTable'
    def __init__(self, ls, version=-1): self.ls = ls; self.version = version
    def is_type(self, n): return n == 'DeltaTable'
    def m_clone(self, it, a, c): return Delta(self.ls, self.version)
    def m_as_any(self, it, a, c): return self
    def m_version(self, it, a, c): return Int(self.version, 'i64')
    def m_log_store(self, it, a, c): return self.ls
    def m_table_uri(self, it, a, c): return self.ls.m_root_uri(it, a, c)
    def m_load(self, it, a, c): self.version = 3; return Ok(UNIT())
def delta_new(it, a, c): return Delta(deref(a[0]))
from engine.interp import EXT_FN
EXT_FN['DeltaTable::new'] = delta_new

# ------------------------------------------------------------------ a whole session
from engine import ext_sqlparser as SP, ext_store as ST, interp as I
from engine.ext_sqlparser import bare, partial, full, ident, objname
def U(): return Ctx.cur.user['session']
def log(*e): U().events.append(e)
def plan_err(msg): return Enum('DataFusionError', 'Plan', {'0': msg})
def exec_err(msg): return Enum('DataFusionError', 'Execution', {'0': msg})
class Objects(Obj):
    """the objects under one table's prefix"""
    def __init__(self, path): self.path = path
    def m_clone(self, it, a, c): return self
    def m_list(self, it, a, c): return Iter(iter([Ok(Struct('ObjectMeta', {'location': ST.PathV([self.path, f'f{i}']), 'size': Int(1, 'usize')})) for i in range(2)]), stream=True)
    def m_delete_stream(self, it, a, c):
        log('delete', self.path); fail = U().flip('deleting the objects fails')
        xs = list(it.iter_of(a[0]))
        return Iter(iter([Err(ST.osgeneric('delete'))] if fail else xs), stream=True)
LogStore.m_object_store = lambda self, it, a, c: Objects(self.path)
Delta.m_object_store = lambda self, it, a, c: Objects(self.ls.path)
Delta.m_schema = lambda self, it, a, c: B.Schema([])
Delta.display_ = lambda self, it: 'DeltaTable'
def _load(self, it, a, c):
    u = U() if 'session' in Ctx.cur.user else None
    if u is not None:
        if not u.loadable(self.ls.path): return Err(Enum('DeltaTableError', 'NotATable', {'0': 'no log'}))
    self.version = 3; return Ok(UNIT())
Delta.m_load = _load
class Snap(Obj):
    def __init__(self, path): self.path = path
    def m_clone(self, it, a, c): return self
    def m_file_actions(self, it, a, c): return Ok(Vec([add(self.path, i) for i in range(2)]))
def add(path, i): return Struct('Add', {'path': f'{path}/f{i}', 'size': Int(1, 'i64'), 'partition_values': Map('HashMap', [])})
Delta.m_snapshot = lambda self, it, a, c: Ok(Snap(self.ls.path))
class External(Obj):
    """a table of another kind (external or versioned) registered with the session"""
    tname = 'ListingTable'
    def __init__(self, name): self.name = name
    def is_type(self, n): return n == 'ListingTable'
    def m_clone(self, it, a, c): return self
    def m_as_any(self, it, a, c): return self
    def m_schema(self, it, a, c): return B.Schema([])
class Memory(Obj):
    """MemorySchemaProvider"""
    def __init__(self, tables=()): self.t = list(tables)
    def find(self, n): return next((i for i, (k, v) in enumerate(self.t) if Ctx.cur.branch(X.veq(k, deref(n)))), None)
    def m_clone(self, it, a, c): return self
    def m_table_names(self, it, a, c): return Vec([k for k, v in self.t])
    def m_table(self, it, a, c): i = self.find(a[0]); return Ok(NONE() if i is None else Some(self.t[i][1]))
    def m_table_exist(self, it, a, c): return self.find(a[0]) is not None
    def m_register_table(self, it, a, c):
        if self.find(a[0]) is not None: return Err(exec_err('The table already exists'))
        self.t.append((deref(a[0]), deref(a[1]))); return Ok(NONE())
    def m_deregister_table(self, it, a, c):
        i = self.find(a[0])
        if i is None: return Ok(NONE())
        return Ok(Some(self.t.pop(i)[1]))
class State(Obj):
    def m_clone(self, it, a, c): return self
    def m_statement_to_plan(self, it, a, c): return Ok(U().plan)
    def m_create_physical_plan(self, it, a, c): return Err(plan_err('planning failed')) if U().flip('planning fails') else Ok(Rows(deref(a[0])))
    def m_optimize(self, it, a, c): return Ok(deref(a[0]))
class Rows(Obj):
    """a physical plan, known by what it computes"""
    def __init__(self, of): self.of = of
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return B.Schema([])
class Session(Obj):
    """DataFusion's SessionContext: catalogs by name, tables resolved with the session's default names"""
    def __init__(self, cat, sch): self.cat = cat; self.sch = sch; self.cats = []; self.udfs = []
    def m_clone(self, it, a, c): return self
    def m_state(self, it, a, c): return State()
    def m_copied_config(self, it, a, c): return Opaque('config')
    def provider(self, it, r):
        r = SP.resolve(SP.parse_ref(it, r), self.cat, self.sch)
        for n, p in self.cats:
            if Ctx.cur.branch(X.veq(n, r.f['catalog'])):
                s = deref(it.call_method(p, 'schema', [r.f['schema']]))
                return (deref(s.f['0']) if s.var == 'Some' else None), r
        return None, r
    def m_catalog(self, it, a, c):
        for n, p in self.cats:
            if Ctx.cur.branch(X.veq(n, deref(a[0]))): return Some(p)
        return NONE()
    def m_register_catalog(self, it, a, c):
        self.cats = [(n, p) for n, p in self.cats if not Ctx.cur.branch(X.veq(n, deref(a[0])))] + [(deref(a[0]), deref(a[1]))]; return NONE()
    def m_table_provider(self, it, a, c):
        s, r = self.provider(it, a[0])
        if s is None: return Err(plan_err('failed to resolve'))
        t = it.await_(it.call_method(s, 'table', [r.f['table']]))
        if t.var == 'Err': return t
        t = deref(t.f['0'])
        return Ok(deref(t.f['0'])) if t.var == 'Some' else Err(plan_err('No table named'))
    def m_table_exist(self, it, a, c):
        s, r = self.provider(it, a[0])
        return Err(plan_err('failed to resolve')) if s is None else Ok(it.call_method(s, 'table_exist', [r.f['table']]))
    def m_register_table(self, it, a, c):
        s, r = self.provider(it, a[0])
        if s is None: return Err(plan_err('failed to resolve'))
        return it.call_method(s, 'register_table', [r.f['table'], deref(a[1])])
    def m_deregister_table(self, it, a, c):
        s, r = self.provider(it, a[0])
        if s is None: return Err(plan_err('failed to resolve'))
        if not isinstance(s, Memory): return Err(exec_err('schema provider does not support deregistering tables'))
        return it.call_method(s, 'deregister_table', [r.f['table']])
    def m_register_udf(self, it, a, c): self.udfs.append(deref(a[0])); return UNIT()
    def m_deregister_udf(self, it, a, c): log('deudf', deref(a[0])); return UNIT()
    def m_execute_logical_plan(self, it, a, c): log('execute', deref(a[0])); return Ok(Opaque('DataFrame'))
    def m_runtime_env(self, it, a, c): return Opaque('runtime')
class Internal(Obj):
    """InternalObjectStore"""
    def m_clone(self, it, a, c): return self
    def m_get_log_store(self, it, a, c): return LogStore(U().w, deref(a[0]))
    def m_local_table_dir(self, it, a, c): return NONE()
    def field(self, n): return Opaque(n)
class Chain(Obj):
    """a builder: what it was given, and what happens when it is awaited"""
    def __init__(self, run, **f): self.run = run; self.f = f
    def method_missing(self, it, n, a, c):
        if n.startswith('with_'): self.f[n[5:]] = deref(a[0]) if a else True; return self
        if n == 'build': self.f['build'] = [deref(x) for x in a]; return self
        raise Unsupported(f'builder method {n}')
    def await_(self, it): return self.run(it, self.f)
def _create(it, f):
    p = f['log_store'].path; log('create', p, f.get('table_name'))
    if U().flip('creating the Delta table fails'): return Err(Enum('DeltaTableError', 'Generic', {'0': 'cannot create'}))
    U().made.add(p); return Ok(Delta(f['log_store'], 0))
def _convert(it, f):
    p = f['log_store'].path; k = U().conv = U().h.ctx.choose(3, 'conversion')
    log('convert', p, f.get('table_name'))
    if k == 1: return Err(DeltaErr('Generic error: The given location is already a delta table location. Terminating'))
    if k == 2: return Err(DeltaErr('no parquet files'))
    U().made.add(p); return Ok(Delta(f['log_store'], 0))
class DeltaErr(Obj):
    tname = 'DeltaTableError'
    def __init__(self, m): self.m = m
    def display_(self, it): return self.m
    def debug_(self, it): return self.m
    def m_to_string(self, it, a, c): return self.m
def _vacuum(it, f):
    log('vacuum', f['ls'].path, f.get('retention_period'), f['snap'].path)
    if U().flip('vacuuming fails'): return Err(DeltaErr('vacuum'))
    return Ok(Tup([Opaque('table'), Struct('VacuumMetrics', {'files_deleted': Vec([]), 'dry_run': False})]))
def _commit(it, f):
    snap, ls, op = f['build']; log('commit', ls.path, f['actions'], deref(snap), op)
    if U().flip('committing fails'): return Err(DeltaErr('commit'))
    v = U().h.int('committed version', 'i64', 0, 2**40); U().version = v; return Ok(Struct('FinalizedCommit', {'version': v}))
EXT_FN['CreateBuilder::new'] = lambda it, a, c: Chain(_create)
EXT_FN['ConvertToDeltaBuilder::new'] = lambda it, a, c: Chain(_convert)
EXT_FN['VacuumBuilder::new'] = lambda it, a, c: Chain(_vacuum, ls=deref(a[0]), snap=deref(a[1]))
EXT_FN['CommitBuilder::default'] = lambda it, a, c: Chain(_commit)
class DSchema(Obj):
    def m_fields(self, it, a, c): return Iter(iter([]))
EXT_FN['DeltaSchema::try_from'] = EXT_FN['kernel::Schema::try_from'] = lambda it, a, c: Ok(DSchema())
EXT_FN['TableProvider::schema'] = lambda it, a, c: it.call_method(a[0], 'schema', [])
EXT_FN['DFSchema::empty'] = lambda it, a, c: Opaque('DFSchema')
EXT_FN['TimeDelta::zero'] = lambda it, a, c: Int(0, 'i64')
class Use:
    """one session: its context, what happened outside the catalog"""
    def __init__(self, h, w, cat, sch, staging=(), broken=(), faults=()):
        self.h = h; self.w = w; self.events = []; self.made = set(); self.conv = None; self.plan = None; self.flips = 0; self.faults = faults; self.broken = set(broken)
        h.ctx.user['session'] = self; it = h.it
        self.staging = Memory(staging); self.inner = Session(cat, sch)
        self.ms = metastore(w, staging_schema=self.staging, object_stores=Stores(w))
        self.ctx = it.mk('SeafowlContext', config=Struct('SeafowlConfig', {'misc': Struct('Misc', {'max_partition_size': Int(1000, 'u32'), 'object_store_cache': NONE()})}), inner=self.inner, metastore=self.ms, internal_object_store=Some(Internal()), default_catalog=cat, default_schema=sch)
        o = it.overrides
        o['plan_to_delta_adds'] = adds
        o['gc_databases'] = lambda it, a, c: (log('gc', deref(a[2])), UNIT())[1]
        o['get_uuid'] = lambda it, a, c: Uuid(7000)
        o['make_dummy_exec'] = lambda it, a, c: Opaque('nothing')
        o['SeafowlContext::register_function'] = lambda it, a, c: (log('udf', deref(a[1]), deref(a[2])), Ok(UNIT()))[1] if not U().flip('compiling the function fails') else Err(plan_err('bad function'))
        o['SeafowlContext::coerce_plan'] = lambda it, a, c: Ok(deref(a[1]))
    def flip(self, what):
        if what not in self.faults and 'all' not in self.faults: return False
        if self.flips or not self.h.flip(what): return False
        self.flips += 1; return True
    def loadable(self, path): return not any(Ctx.cur.branch(X.veq(b, path)) for b in self.broken)
    def failed(self): return bool(self.flips or self.w.pool.failed)
    def logical(self, st): return self.h.it.method(self.ctx, 'create_logical_plan_from_statement', st)
    def physical(self, p): return self.h.it.method(self.ctx, 'create_physical_plan', p)
    def run(self, st=None, plan=None):
        """plan and execute a statement; plan: what DataFusion's planner makes of it"""
        self.plan = plan
        r = self.logical(st if st is not None else Enum('Statement', 'Statement', {'0': Enum('Statement', 'CreateSchema', {})}))
        if r.var == 'Err': self.stage = 'planning'; return r
        self.stage = 'execution'; return self.physical(r.f['0'])
    def did(self, *kinds): return [e for e in self.events if e[0] in kinds]
def adds(it, a, c):
    plan = deref(a[1]); st = deref(a[2]); log('adds', plan, st.path)
    if U().flip('writing the files fails'): return Err(exec_err('disk full'))
    return Ok(Vec([Struct('Add', {'path': f'new{i}', 'size': Int(1, 'i64'), 'partition_values': Map('HashMap', [])}) for i in range(2)]))

EXT_METHODS = I.METHODS
EXT_METHODS[('SchemaReference', 'schema_name')] = lambda it, v, a, c: v.f['schema']
for _t in (str, Text, SymStr): EXT_METHODS[(_t, 'resolve')] = lambda it, v, a, c: SP.resolve(SP.parse_ref(it, v), deref(a[0]), deref(a[1]))
EXT_METHODS[(Tup, 'key')] = lambda it, v, a, c: v.a[0]
EXT_METHODS[(Tup, 'value')] = lambda it, v, a, c: v.a[1]
