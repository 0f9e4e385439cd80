"""Appends to an Iceberg table: the commit protocol over a store of files, another writer interfering at any step."""
from engine.harness import *
from engine import ext_df as D, ext_batch as B, ext_arrow as AR
from engine.interp import METHODS, EXT_FN
from engine import stdlib, ext_url
from engine.values import *
import z3
def U(): return Ctx.cur.user['ice']
def ierr(what): return Err(IErr(what))
class IErr(Obj):
    """iceberg::Error; its source is the error of opendal, where it comes from the store"""
    tname = 'iceberg::Error'
    def __init__(self, what, kind=None): self.what = what; self.kind_ = kind
    def m_source(self, it, a, c): return NONE() if self.kind_ is None else Some(OpErr(self.kind_))
    def m_kind(self, it, a, c): return Enum('ErrorKind', 'DataInvalid' if self.kind_ is None else 'Unexpected')
    def m_to_string(self, it, a, c): return self.what
    def display_(self, it): return self.what
    debug_ = display_
class OpErr(Obj):
    tname = 'opendal::Error'
    def __init__(self, k): self.k = k
    def is_type(self, n): return n == 'Error'
    def m_kind(self, it, a, c): return Enum('ErrorKind', self.k)
    def display_(self, it): return self.k
    debug_ = display_
class Crash(Exception): pass
class Blob(Obj):
    """the bytes of a file, known by what they say: text, or the JSON of a value; not UTF-8 if bad"""
    def __init__(self, v, bad=False): self.v = v; self.bad = bad
    def m_to_vec(self, it, a, c): return self
    m_into = m_as_ref = m_clone = m_as_slice = m_deref = m_to_vec
    def utf8_(self, it): return Err(Enum('FromUtf8Error', 'FromUtf8Error')) if self.bad else Ok(Json(self.v) if isinstance(self.v, Meta) else Text([self.v]) if isinstance(self.v, Int) else self.v)
class Json(Obj):
    """the text of a JSON document"""
    def __init__(self, v): self.v = v
    def m_as_str(self, it, a, c): return self
    m_clone = m_deref = m_as_str
class File(Obj):
    def __init__(self, path): self.path = deref(path)
    def m_exists(self, it, a, c): return stdlib.Future(lambda: Err(IErr('exists', 'Unexpected')) if U().step('exists') else Ok(U().find(self.path) is not None))
    def m_read(self, it, a, c):
        def go():
            if U().step('read'): return Err(IErr('read', 'Unexpected'))
            e = U().find(self.path)
            return Err(IErr('no such file', 'NotFound')) if e is None else Ok(e[1] if isinstance(e[1], Blob) else Blob(e[1]))
        return stdlib.Future(go)
    def m_location(self, it, a, c): return self.path
    def put(self, v, what, exclusive=False):
        k = U().step(what, True)
        if k == 'lost': return Err(IErr(what, 'Unexpected'))
        e = U().find(self.path)
        if exclusive and e is not None: return Err(IErr('already exists', 'AlreadyExists'))
        if e is not None:
            U().h.check(bool(Ctx.cur.branch(eq(self.path, U().hint))), 'a file of the table is overwritten', key='overwritten', info=lambda m: {'file': m(self.path) if type(self.path) is Text else self.path})
            e[1] = v
        else: U().files.append([self.path, v])
        U().after(k)
        return Err(IErr(what, 'Unexpected')) if k == 'reported lost' else Ok(UNIT())
    def m_write(self, it, a, c): return stdlib.Future(lambda: self.put(self.content(a[0]), 'write'))
    def m_write_exclusive(self, it, a, c): return stdlib.Future(lambda: self.put(self.content(a[0]), 'write metadata', True))
    def content(self, v):
        v = deref(v); return v if isinstance(v, Blob) else Blob(v)
class FileIO(Obj):
    tname = 'FileIO'
    def m_clone(self, it, a, c): return self
    def m_new_input(self, it, a, c): return Ok(File(a[0]))
    m_new_output = m_new_input
    def m_exists(self, it, a, c): return File(a[0]).m_exists(it, [], c)
class ISchema(Obj):
    tname = 'iceberg::spec::Schema'
    def __init__(self, fields, id): self.fields = fields; self.id = id
    def m_clone(self, it, a, c): return self
    m_as_struct = m_clone
    def m_fields(self, it, a, c): return Vec(list(self.fields))
    def m_schema_id(self, it, a, c): return self.id
def ifield(name, ty, req): return Struct('NestedField', {'name': name, 'field_type': ty, 'required': req, 'id': Int(1, 'i32')})
class Meta(Obj):
    """table metadata"""
    tname = 'TableMetadata'
    def __init__(self, loc, schemas, cur, snaps, main, seq): self.loc = loc; self.schemas = schemas; self.cur = cur; self.snaps = snaps; self.main = main; self.seq = seq
    def copy(self): return Meta(self.loc, list(self.schemas), self.cur, list(self.snaps), self.main, self.seq)
    def m_clone(self, it, a, c): return self.copy()
    def m_into(self, it, a, c): return self
    m_as_ref = m_into
    def m_location(self, it, a, c): return self.loc
    def schema(self): return next(s for s in self.schemas if Ctx.cur.branch(eq(s.id, self.cur)))
    def m_current_schema(self, it, a, c): return self.schema()
    def m_current_schema_id(self, it, a, c): return self.cur
    def m_last_sequence_number(self, it, a, c): return self.seq
    def m_next_sequence_number(self, it, a, c): return Int(self.seq.v + 1, 'i64')
    def m_current_snapshot(self, it, a, c): return NONE() if self.main is None else Some(self.main)
    def m_current_snapshot_id(self, it, a, c): return NONE() if self.main is None else Some(self.main.f['id'])
    def m_snapshots(self, it, a, c): return Iter(iter(list(self.snaps)))
class Snap(Obj):
    tname = 'Snapshot'
    def __init__(self, **f): self.f = f
    def m_clone(self, it, a, c): return self
    def m_snapshot_id(self, it, a, c): return self.f['id']
    def m_sequence_number(self, it, a, c): return self.f['seq']
    def m_manifest_list(self, it, a, c): return self.f['list']
    def m_load_manifest_list(self, it, a, c):
        def go():
            r = it.await_(File(self.f['list']).m_read(it, [], c))
            return r if r.var == 'Err' else Ok(ManifestList(deref(r.f['0']).v))
        return stdlib.Future(go)
class ManifestList(Obj):
    def __init__(self, e): self.e = e
    def m_consume_entries(self, it, a, c): return Vec(list(self.e))
    def m_entries(self, it, a, c): return Vec(list(self.e))
class Build(Obj):
    """a typed builder: what each setter was given"""
    def __init__(self, what, make): self.what = what; self.make = make; self.v = {}
    def method_missing(self, it, n, a, c):
        if n == 'build': return self.make(self.v)
        self.v[n[5:] if n.startswith('with_') else n] = deref(a[0]); return self
def metadata_builder(it, a, c):
    m = deref(a[0]).copy(); return MB(m)
class MB(Obj):
    tname = 'TableMetadataBuilder'
    def __init__(self, m): self.m = m
    def m_add_snapshot(self, it, a, c):
        s = deref(a[0])
        if any(Ctx.cur.branch(eq(x.f['id'], s.f['id'])) for x in self.m.snaps): U().coincided = True; return ierr('snapshot exists')
        if self.m.main is not None and not Ctx.cur.branch(mkbool(s.f['seq'].v > self.m.seq.v)): return ierr('sequence number is not new')
        self.m.snaps.append(s); self.m.seq = s.f['seq']; return Ok(self)
    def m_set_ref(self, it, a, c):
        if deref(a[0]) != 'main': raise Unsupported('a branch other than main')
        i = deref(a[1]).f['id']; s = next((x for x in self.m.snaps if Ctx.cur.branch(eq(x.f['id'], i))), None)
        if s is None: return ierr('no such snapshot')
        self.m.main = s; return Ok(self)
    def m_set_branch_snapshot(self, it, a, c):
        r = self.m_add_snapshot(it, [a[0]], c)
        if r.var == 'Ok': self.m.main = deref(a[0])
        return r
    def m_build(self, it, a, c): return Ok(self.m)
EXT_FN['TableMetadataBuilder::new_from_metadata'] = metadata_builder
def from_creation(it, a, c):
    t = deref(a[0]); s = t['schema']; return Ok(MB(Meta(t['location'], [ISchema(s.fields, Int(0, 'i32'))], Int(0, 'i32'), [], None, Int(0, 'i64'))))
EXT_FN['TableMetadataBuilder::from_table_creation'] = from_creation
EXT_FN['TableCreation::builder'] = lambda it, a, c: Build('creation', lambda v: Holder(v))
class Holder(Obj):
    def __init__(self, v): self.v = v
    def __getitem__(self, k): return self.v[k]
    def m_clone(self, it, a, c): return self
EXT_FN['SnapshotReference::new'] = lambda it, a, c: Struct('SnapshotReference', {'id': deref(a[0])})
EXT_FN['SnapshotRetention::branch'] = lambda it, a, c: Opaque('retention')
EXT_FN['Snapshot::builder'] = lambda it, a, c: Build('snapshot', lambda v: Snap(id=v['snapshot_id'], seq=v['sequence_number'], list=v['manifest_list'], schema=v.get('schema_id'), parent=v.get('parent_snapshot_id'), op=deref(v['summary']).f['operation']))
def isch(it, a, c):
    s = deref(a[0]); fs = []
    for f in s.fields:
        if not getattr(f, 'fid', None): return ierr('Field id not found in metadata')
        fs.append(ifield(f.name, f.ty, bnot(f.nullable)))
    return Ok(ISchema(fs, Int(0, 'i32')))
EXT_FN['iceberg::arrow::arrow_schema_to_schema'] = EXT_FN['arrow_schema_to_schema'] = isch
EXT_FN['Schema::new_with_metadata'] = lambda it, a, c: B.Schema([deref(x) for x in B.it_list(it, a[0])])
B.Schema.f = property(lambda self: {'fields': Vec(list(self.fields)), 'metadata': Map('HashMap', [])})
def fclone(self, it, a, c):
    x = B.Field(self.name, self.ty, self.nullable, self.leaves); x.fid = getattr(self, 'fid', None); return x
def fmeta(self, it, a, c): return Map('HashMap', [])
def fset(self, it, a, c):
    m = deref(a[0]); self.fid = True; return UNIT()
B.Field.m_clone = fclone; B.Field.m_metadata = fmeta; B.Field.m_set_metadata = fset
def fwith(self, it, a, c): x = fclone(self, it, [], c); x.fid = True; return x
B.Field.m_with_metadata = fwith
for n in ('PARQUET_FIELD_ID_META_KEY',): stdlib.CONSTS['arrow::' + n] = stdlib.CONSTS[n] = stdlib.CONSTS['parquet::arrow::' + n] = lambda: 'PARQUET:field_id'
class DataFile(Obj):
    def __init__(self, path): self.path = path
    def m_clone(self, it, a, c): return self
    def m_file_path(self, it, a, c): return self.path
class PW(Obj):
    """ParquetWriter: one file with the rows written"""
    def __init__(self, schema): self.schema = schema; self.rows = []; self.any = False
    def m_write(self, it, a, c):
        b = deref(a[0])
        def go():
            if U().step('write data') == 'lost': return Err(IErr('write', 'Unexpected'))
            self.any = True; self.rows += b.rows; return Ok(UNIT())
        return stdlib.Future(go)
    def m_close(self, it, a, c):
        def go():
            if not self.any: return Ok(Vec([]))
            p = File(U().fresh('data/part', '.parquet')); r = p.put(Data(self.rows, self.schema), 'write data')
            if r.var == 'Err': return r
            return Ok(Vec([Build('data file', lambda v: Ok(DataFile(p.path)) if deref(v['content']).var == 'Data' else Err(Opaque('content')))]))
        return stdlib.Future(go)
class Data:
    def __init__(self, rows, schema): self.rows = list(rows); self.schema = schema
class PWB(Obj):
    def __init__(self, schema): self.schema = schema
    def m_build(self, it, a, c): return stdlib.Future(lambda: Ok(PW(self.schema)))
    def m_clone(self, it, a, c): return self
EXT_FN['ParquetWriterBuilder::new'] = lambda it, a, c: PWB(deref(a[1]))
EXT_FN['WriterProperties::builder'] = lambda it, a, c: Build('props', lambda v: Opaque('props'))
EXT_FN['DefaultLocationGenerator::new'] = lambda it, a, c: Ok(Opaque('locations'))
EXT_FN['DefaultFileNameGenerator::new'] = lambda it, a, c: Opaque('names')
EXT_FN['iceberg::Error::new'] = lambda it, a, c: IErr(it.to_text(a[1]))
EXT_FN['Error::new'] = EXT_FN.get('Error::new') or EXT_FN['iceberg::Error::new']
EXT_FN['Struct::empty'] = lambda it, a, c: Opaque('no partition')
class MFile(Obj):
    """a manifest file as a manifest list names it"""
    tname = 'ManifestFile'
    def __init__(self, path, added, seq=None): self.path = path; self.added = added; self.seq = seq
    @property
    def f(self): return {'manifest_path': self.path, 'sequence_number': self.seq, 'added_snapshot_id': self.added}
    def m_clone(self, it, a, c): return MFile(self.path, self.added, self.seq)
class MW(Obj):
    def __init__(self, out, sid): self.out = out; self.sid = sid
    def m_write(self, it, a, c):
        m = deref(a[0])
        def go():
            r = self.out.put(m, 'write manifest')
            return r if r.var == 'Err' else Ok(MFile(self.out.path, self.sid))
        return stdlib.Future(go)
EXT_FN['ManifestWriter::new'] = lambda it, a, c: MW(deref(a[0]), deref(a[1]))
EXT_FN['ManifestMetadata::builder'] = lambda it, a, c: Build('manifest metadata', lambda v: Holder(v))
EXT_FN['PartitionSpec::builder'] = lambda it, a, c: Build('spec', lambda v: Ok(Opaque('spec')))
class Manifest(Obj):
    def __init__(self, meta, es): self.meta = meta; self.es = es
EXT_FN['Manifest::new'] = lambda it, a, c: Manifest(deref(a[0]), [deref(x) for x in B.it_list(it, a[1])])
EXT_FN['ManifestEntry::builder'] = lambda it, a, c: Build('entry', lambda v: Struct('ManifestEntry', v))
class MLW(Obj):
    def __init__(self, out, sid, seq): self.out = out; self.sid = sid; self.seq = seq; self.es = []
    def m_add_manifests(self, it, a, c):
        for x in B.it_list(it, a[0]):
            x = deref(x)
            if x.seq is None:
                if not Ctx.cur.branch(eq(x.added, self.sid)): return ierr('a manifest of another snapshot without a sequence number')
                x = MFile(x.path, x.added, self.seq)
            self.es.append(x)
        return Ok(UNIT())
    def m_close(self, it, a, c): return stdlib.Future(lambda: self.out.put(list(self.es), 'write manifest list'))
EXT_FN['ManifestListWriter::v2'] = lambda it, a, c: MLW(deref(a[0]), deref(a[1]), deref(a[3]))
EXT_FN['fastrand::i64'] = lambda it, a, c: Int(Ctx.cur.fresh('snapshot id'), 'i64')
class Table(Obj):
    tname = 'iceberg::table::Table'
    def __init__(self, meta): self.meta = meta
    def m_clone(self, it, a, c): return self
    def m_metadata(self, it, a, c): return self.meta
    def m_metadata_ref(self, it, a, c): return self.meta.copy()
    def m_file_io(self, it, a, c): return FileIO()
class Provider(Obj):
    def __init__(self, t): self.t = t
    def m_table(self, it, a, c): return self.t
def from_json(it, a, c):
    v = deref(a[0])
    if isinstance(v, Json) and isinstance(v.v, Meta): return Ok(v.v.copy())
    return Err(Opaque('serde_json::Error'))
class Batch(Obj):
    tname = 'RecordBatch'
    def __init__(self, rows): self.rows = rows
    def m_num_rows(self, it, a, c): return Int(len(self.rows), 'usize')
    def m_clone(self, it, a, c): return self
class Plan(Obj):
    tname = 'ExecutionPlan'
    def __init__(self, schema, parts): self.sch = schema; self.parts = parts
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return self.sch
    def m_output_partitioning(self, it, a, c): return self
    def m_partition_count(self, it, a, c): return Int(len(self.parts), 'usize')
    def m_execute(self, it, a, c):
        i = stdlib.cint(a[0])
        if i >= len(self.parts): raise Panic('no such partition')
        bad = lambda: Err(Enum('DataFusionError', 'Execution', {'0': 'x'}))
        if U().qfail('executing the plan fails'): return bad()
        def go():
            for b in self.parts[i]:
                if U().qfail('the query fails'): yield bad(); return
                yield Ok(Batch(b))
        return Ok(Iter(go(), stream=True))
class World:
    """the files of one table"""
    def __init__(self, h, loc): self.h = h; self.files = []; self.loc = loc; self.hint = loc.rstrip('/') + '/metadata/version-hint.text'; self.n = 0; self.faults = False; self.failed = None; self.other = None; self.crash = False; self.depth = 0; self.qf = False; self.ops = 0; self.coincided = False
    def find(self, p):
        for e in self.files:
            if Ctx.cur.branch(eq(e[0], p)): return e
        return None
    def fresh(self, stem, ext): self.n += 1; return f'{self.loc}/{stem}-{self.n}{ext}'
    def step(self, what, w=False):
        """before each access to the store: the other writer may run, this one may crash or the access may fail"""
        self.ops += 1
        if self.other is not None and self.depth == 0 and self.h.flip(f'the other writer runs before: {what} {self.ops}'):
            o, self.other = self.other, None; self.depth = 1
            try: o()
            except Crash: self.h.wit('crashed')
            finally: self.depth = 0
        if self.crash and self.depth == 1 and w and self.h.flip(f'the other writer crashes before: {what} {self.ops}'): raise Crash
        if self.faults and self.failed is None and self.depth == 0:
            k = self.h.pick(['fine', 'lost'] + (['reported lost'] if w else []), f'{what} {self.ops}')
            if k != 'fine': self.failed = what; return k
        return False
    def after(self, k): pass
    def qfail(self, what):
        if not self.qf or self.failed: return False
        if self.h.flip(what): self.failed = what; return True
        return False
    def snapshot(self): return [list(e) for e in self.files]
    def snaps_coincide(self): return self.coincided
    # what a reader sees
    def read(self, meta):
        h = self.h
        if meta.main is None: return []
        s = meta.main; l = self.find(s.f['list'])
        h.check(l is not None, 'a snapshot names a manifest list that is not there', key='readable')
        out = []
        for x in l[1]:
            m = self.find(x.path); h.check(m is not None, 'a snapshot names a manifest that is not there', key='readable')
            for e in m[1].es:
                if deref(e.f['status']).var == 'Deleted': continue
                d = self.find(deref(e.f['data_file']).path); h.check(d is not None, 'a manifest names a data file that is not there', key='readable'); out += d[1].rows
        return out
    def current(self):
        """the metadata the version hint leads to"""
        e = self.find(self.hint)
        if e is None: return None, None
        t = e[1].v if isinstance(e[1], Blob) else e[1]
        v = self.h.it.call_method(self.h.it.call_method(t, 'trim', []), 'parse', [], tf='u64') if False else hint_value(t)
        m = self.find(mktext([self.loc.rstrip('/') + '/metadata/v', v, '.metadata.json']))
        self.h.check(m is not None, 'the version hint leads to metadata that is not there', key='readable')
        return v, m[1].v if isinstance(m[1], Blob) else m[1]
def hint_value(t):
    p = [x for x in (t.p if type(t) is Text else [t]) if not (isinstance(x, str) and not x.strip())]
    if len(p) != 1: raise Unsupported('a version hint of several pieces')
    x = deref(p[0]); return Int(int(x), 'u64') if isinstance(x, str) else x
def install(h):
    h.it.overrides = {}
    EXT_FN['serde_json::from_str'] = EXT_FN['from_str'] = from_json
    EXT_FN['serde_json::to_vec'] = lambda it, a, c: Ok(Blob(deref(a[0])))
    EXT_FN['TaskContext::from'] = lambda it, a, c: Opaque('task context')
def run(h, plan, provider):
    it = h.it
    class Inner(Obj):
        def m_state(self, it, a, c): return Opaque('state')
    sc = it.mk('SeafowlContext', config=Opaque('config'), inner=Inner(), metastore=Opaque('metastore'), default_catalog='default', default_schema='public')
    it.overrides['SeafowlContext::get_lakehouse_table_provider'] = lambda it, a, c: Ok(it.mke('LakehouseTableProvider', 'Iceberg', U().provider))
    return it.await_(it.call_method(sc, 'plan_to_iceberg_table', ['t', plan]))
def select_all(it, a, c):
    """the items of all streams, in any interleaving"""
    ss = [it.iter_of(x) for x in B.it_list(it, a[0])]
    def go():
        live = [iter(s) for s in ss]
        while live:
            k = Ctx.cur.choose(len(live), 'next stream') if len(live) > 1 else 0
            try: yield next(live[k])
            except StopIteration: live.pop(k)
    return Iter(go(), stream=True)
EXT_FN['stream::select_all'] = EXT_FN['select_all'] = select_all
