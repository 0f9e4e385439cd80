"""C15: writing a result into a table stores every row exactly once.
Rows and bytes are positions in one sequence each; batches, files and upload parts are ranges of it with symbolic bounds."""
from engine.harness import *
from engine.core import *
from engine.values import *
from engine import interp as I, stdlib, ext_store as ST, ext_batch as B
from engine.interp import EXT_FN, METHODS
from engine.ext_cache import BytesV, us, iv, mkz, mkb
import z3
NATIVE = None
BOUNDS = 'up to 3 input partitions of up to 4 batches with any number of rows (also none), any partition limit of which a batch holds at most 3 times; files of any size, read in up to 4 reads of any length each (2 per file with several files); at most one failing step'
ASSUMPTIONS = ['ArrowWriter writes the rows it is given in order into its file and its metadata counts them', 'read_buf returns the next bytes of the file, at least one unless at its end', 'a multipart upload that completes is the concatenation of its parts',
    'tasks are run to completion in the order they are awaited (they share no data)']
MODELS = 'DataFusion ExecutionPlan and RecordBatch::slice; ArrowWriter; tempfile, tokio::fs and BufReader; object_store multipart uploads; tokio Semaphore and JoinHandle; delta-rs create_add'
MINPART = 5 * 1024 * 1024
def W(): return Ctx.cur.user['w']
def ioerr(n=None): return Err(IoErr(n))
class IoErr(Obj):
    tname = 'Error'
    def __init__(self, n): self.n = n
    def m_raw_os_error(self, it, a, c): return NONE() if self.n is None else Some(Int(self.n, 'i32'))
    def display_(self, it): return 'io error'
    debug_ = display_
    def m_clone(self, it, a, c): return self
class PqErr(Obj):
    tname = 'ParquetError'
    def display_(self, it): return 'parquet error'
    debug_ = display_
EXT_FN['DataFusionError::from'] = lambda it, a, c: Opaque('DataFusionError')
class World:
    def __init__(self, h, faults, reads): self.h = h; self.faults = faults; self.reads = reads; self.files = {}; self.n = 0; self.failed = None; self.objects = {}; self.local = {}; self.metas = []; self.aborted = 0; self.uploads = []; self.running = 0
    def flip(self, what):
        if not self.faults or self.failed or not self.h.flip(what): return False
        self.failed = what; return True
class TFile:
    """one temporary file: the rows written to it, its size once closed"""
    def __init__(self, k): self.k = k; self.rows = BytesV(); self.size = None; self.closed = False
    def bytes(self):
        if self.size is None: self.size = W().h.int(f'bytes of file {self.k}', 'i64', 1, 2**40).v
        return self.size
class Temp(Obj):
    tname = 'TempPath'
    def __init__(self, f): self.f_ = f
    def m_into_temp_path(self, it, a, c): return self
    m_path = m_as_ref = m_to_path_buf = m_deref = m_into_temp_path
    def m_to_str(self, it, a, c): return Some(self)
    def m_display(self, it, a, c): return f'/tmp/{self.f_.k}'
    def m_clone(self, it, a, c): return self
    m_to_owned = m_clone
    def display_(self, it): return f'/tmp/{self.f_.k}'
    def m_persist(self, it, a, c): raise Unsupported('persist')
def newtemp(it, a, c):
    f = TFile(W().n); W().n += 1; W().files[f.k] = f; return Ok(Temp(f))
EXT_FN['NamedTempFile::new'] = newtemp
class OpenOpts(Obj):
    def m_write(self, it, a, c): return self
    m_create = m_truncate = m_append = m_read = m_write
    def m_open(self, it, a, c): return ioerr() if W().flip('opening the temporary file fails') else Ok(deref(a[0]))
EXT_FN['File::options'] = EXT_FN['OpenOptions::new'] = lambda it, a, c: OpenOpts()
class Chain(Obj):
    def __init__(self, n): self.n = n
    def method_missing(self, it, n, a, c): return self
EXT_FN['WriterProperties::builder'] = lambda it, a, c: Chain('props')
EXT_FN['ZstdLevel::default'] = lambda it, a, c: Opaque('zstd')
I.CONSTS['Compression::SNAPPY'] = Opaque('snappy')
EXT_FN['Compression::ZSTD'] = lambda it, a, c: Opaque('zstd')
class Writer(Obj):
    tname = 'ArrowWriter'
    def __init__(self, f): self.f_ = f
    def m_write(self, it, a, c):
        if self.f_.closed: raise Panic('write after close')
        if W().flip('writing to the temporary file fails'): return Err(PqErr())
        self.f_.rows.s += deref(a[0]).rows.s; return Ok(UNIT())
    def m_flush(self, it, a, c): return Ok(UNIT())
    def m_close(self, it, a, c):
        if self.f_.closed: raise Panic('closed twice')
        if W().flip('closing the temporary file fails'): return Err(PqErr())
        self.f_.closed = True; return Ok(Struct('FileMetaData', {'file': self.f_.k, 'num_rows': us(self.f_.rows.total())}))
    m_finish = m_close
EXT_FN['ArrowWriter::try_new'] = lambda it, a, c: Err(PqErr()) if W().flip('opening the writer fails') else Ok(Writer(deref(a[0]).f_))
class Batch(Obj):
    tname = 'RecordBatch'
    def __init__(self, rows): self.rows = rows
    def m_clone(self, it, a, c): return self
    def m_num_rows(self, it, a, c): return us(self.rows.total())
    def m_slice(self, it, a, c):
        o, n = iv(a[0]), iv(a[1]); t = self.rows.total()
        if not Ctx.cur.branch(mkb(o + n <= t)): raise Panic('the length + offset of the sliced batch exceeds its length')
        b = BytesV(self.rows.s); b.take(o); return Batch(BytesV(b.take(n)))
class Plan(Obj):
    tname = 'ExecutionPlan'
    def __init__(self, parts): self.parts = parts; self.done = []
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return Opaque('schema')
    def m_output_partitioning(self, it, a, c): return self
    def m_partition_count(self, it, a, c): return Int(len(self.parts), 'usize')
    def m_execute(self, it, a, c):
        i = stdlib.cint(a[0])
        if i >= len(self.parts): raise Panic('no such partition')
        if W().flip('executing the plan fails'): return Err(Enum('DataFusionError', 'Execution', {'0': 'x'}))
        def go():
            for b in self.parts[i]:
                if W().flip('the query fails'): yield Err(Enum('DataFusionError', 'Execution', {'0': 'x'})); return
                yield Ok(Batch(BytesV(b.s)))
        return Ok(Iter(go(), stream=True))
EXT_FN['TaskContext::from'] = lambda it, a, c: Opaque('task context')
class Reader(Obj):
    def __init__(self, f): self.f_ = f; self.at = 0; self.n = 0
    def m_read_buf(self, it, a, c):
        w = W(); f = self.f_; size = f.bytes(); buf = deref(a[0])
        def go():
            if w.flip('reading the temporary file fails'): return ioerr()
            left = size - self.at
            if not Ctx.cur.branch(mkb(left > 0)): return Ok(Int(0, 'usize'))
            self.n += 1
            if self.n >= w.reads: k = left
            else:
                k = w.h.int(f'read {self.n} of file {f.k}', 'i64', 1, 2**40).v; Ctx.cur.add(k <= left)
            buf.s.append((f'file {f.k}', self.at, self.at + k)); self.at = self.at + k; return Ok(us(k))
        return Future(go)
    m_read = m_read_buf
EXT_FN['fs::File::open'] = EXT_FN['AsyncFile::open'] = lambda it, a, c: Future(lambda: ioerr() if W().flip('opening the temporary file fails') else Ok(Reader(deref(a[0]).f_)))
EXT_FN['BufReader::with_capacity'] = lambda it, a, c: deref(a[1])
EXT_FN['BufReader::new'] = lambda it, a, c: deref(a[0])
class Meta(Obj):
    def __init__(self, f): self.f_ = f
    def m_len(self, it, a, c): return Int(self.f_.bytes(), 'u64')
EXT_FN['fs::metadata'] = lambda it, a, c: Future(lambda: ioerr() if W().flip('looking at the temporary file fails') else Ok(Meta(deref(a[0]).f_)))
class Upload(Obj):
    tname = 'MultipartUpload'
    def __init__(self, path): self.path = path; self.parts = []; self.over = False; W().uploads.append(self)
    def m_put_part(self, it, a, c):
        b = BytesV(deref(a[0]).s)
        def go():
            if W().flip('uploading a part fails'): return Err(ST.osgeneric('put_part'))
            if self.over: raise Panic('a part is uploaded after the upload is over')
            self.parts.append(b); return Ok(UNIT())
        return Future(go)
    def m_complete(self, it, a, c):
        def go():
            if W().flip('completing the upload fails'): return Err(ST.osgeneric('complete'))
            if self.over: raise Panic('completed twice')
            self.over = True; W().objects[str(self.path)] = self.parts; return Ok(Opaque('PutResult'))
        return Future(go)
    def m_abort(self, it, a, c):
        def go(): self.over = True; W().aborted += 1; return Ok(UNIT())
        return Future(go)
class Store(Obj):
    tname = 'ObjectStore'
    def m_clone(self, it, a, c): return self
    def m_put_multipart(self, it, a, c): return Future(lambda: Err(ST.osgeneric('put_multipart')) if W().flip('starting the upload fails') else Ok(Upload(name(it, a[0]))))
    def m_put(self, it, a, c):
        def go():
            if W().flip('uploading fails'): return Err(ST.osgeneric('put'))
            W().objects[name(it, a[0])] = [BytesV(deref(a[1]).s)]; return Ok(Opaque('PutResult'))
        return Future(go)
def name(it, v):
    t = it.to_text(deref(v)); return t if isinstance(t, str) else str(t)
def sem_new(it, a, c): return Sem(stdlib.cint(a[0]))
class Sem(Obj):
    tname = 'Semaphore'
    def __init__(self, n): self.n = n
    def m_clone(self, it, a, c): return self
    def m_acquire_owned(self, it, a, c): return Future(lambda: Ok(Opaque('permit')))
    m_acquire = m_acquire_owned
EXT_FN['Semaphore::new'] = sem_new
def create_add(it, a, c):
    m = deref(a[3])
    if W().flip('collecting statistics fails'): return Err(Enum('DeltaTableError', 'Generic', {'0': 'x'}))
    return Ok(Struct('Add', {'path': name(it, a[1]), 'size': deref(a[2]), 'meta': m, 'parts': len(deref(a[0]).ks) if hasattr(deref(a[0]), 'ks') else 0}))
EXT_FN['create_add'] = EXT_FN['writer::create_add'] = create_add
METHODS[('Opaque', 'debug')] = lambda it, v, a, c: v.name
# local files
def rename(it, a, c):
    def go():
        w = W(); k = w.h.ctx.choose(3 if w.faults and not w.failed else 2, 'rename')
        if k == 2: w.failed = 'renaming fails'; return ioerr(13)
        if k == 1: return ioerr(18)
        f = deref(a[0]).f_; w.local[name(it, a[1])] = f; return Ok(UNIT())
    return Future(go)
def copy(it, a, c):
    def go():
        if W().flip('copying fails'): return ioerr()
        W().local[name(it, a[1])] = deref(a[0]).f_; return Ok(Int(0, 'u64'))
    return Future(go)
EXT_FN['fs::rename'] = EXT_FN['rename'] = rename; EXT_FN['fs::copy'] = EXT_FN['copy'] = copy
EXT_FN['fs::remove_file'] = EXT_FN['remove_file'] = lambda it, a, c: Future(lambda: ioerr() if W().flip('removing the temporary file fails') else Ok(UNIT()))
EXT_FN['fs::create_dir_all'] = EXT_FN['create_dir_all'] = lambda it, a, c: Future(lambda: Ok(UNIT()))
class SPath(Obj):
    tname = 'Path'
    def __init__(self, t): self.t = t
    def m_parent(self, it, a, c): return Some(SPath(self.t.rsplit('/', 1)[0]))
    def m_display(self, it, a, c): return self.t
    def m_clone(self, it, a, c): return self
    def eq_(self, o): return self.t == (o.t if isinstance(o, SPath) else o)
    def display_(self, it): return self.t
EXT_FN['StdPath::new'] = EXT_FN['path::Path::new'] = EXT_FN['Path::new'] = lambda it, a, c: SPath(name(it, a[0]))

def run(h, sizes, limit, local, faults, reads, small=False):
    """sizes: rows of each batch per partition"""
    w = World(h, faults, reads); h.ctx.user['w'] = w; h.it.overrides['get_uuid'] = lambda it, a, c: 'u-u-i-d'
    at = 0; parts = []
    for i, p in enumerate(sizes):
        bs = []
        for j, top in enumerate(p):
            n = h.int(f'rows of batch {i}.{j}', 'i64', 0, 2**31).v if top else 0
            if top: h.assume(mkbool(n <= top * limit))
            bs.append(BytesV([('rows', at, at + n)])); at = at + n
        parts.append(bs)
    plan = Plan(parts)
    r = call(h, 'plan_to_delta_adds', Opaque('state'), plan, Store(), Some('/data/t') if local else NONE(), Int(limit, 'u32'))
    if w.failed and r.var == 'Err':
        h.check(all(u.over for u in w.uploads) or w.failed != 'uploading a part fails', 'a failed upload is left unfinished in the store'); h.wit('failed'); return
    h.check(r.var == 'Ok', 'writing fails without a fault', info=lambda m: {'result': repr(r)[:300]})
    h.check(w.failed is None or w.failed in ('removing the temporary file fails',), f'the write succeeds although {w.failed}')
    adds = [deref(x) for x in deref(r.f['0']).a]; info = lambda m: {'partition limit': m(limit), 'batches': [[m(b.s[0][2] - b.s[0][1]) for b in p] for p in parts], 'files': [{'path': a.f['path'], 'size': m(iv(a.f['size'])), 'rows': [[m(lo), m(hi)] for _, lo, hi in w.files[a.f['meta'].f['file']].rows.s]} for a in adds]}
    allrows = BytesV([s for a in adds for s in w.files[a.f['meta'].f['file']].rows.s])
    h.check(mkbool(allrows.same('rows', 0, at)) if allrows.s else mkbool(mkz(at == 0)), 'the files of the commit do not hold every row exactly once in order', info=info)
    paths = [a.f['path'] for a in adds]; h.check(len(set(paths)) == len(paths), 'two files have the same name', info=info); h.check(all('u-u-i-d' in p for p in paths), 'the names of the files are not unique to this write', info=info)
    for a in adds:
        f = w.files[a.f['meta'].f['file']]
        h.check(mkbool(mkz(f.rows.total() <= limit)), 'a file holds more rows than the limit', info=info)
        h.check(mkbool(mkz(iv(a.f['size']) == f.bytes())), 'a file is listed with a wrong size', info=info)
        h.check(mkbool(mkz(iv(deref(a.f['meta']).f['num_rows']) == f.rows.total())), 'a file is listed with the statistics of another', info=info)
        if local: h.check(w.local.get('/data/t/' + a.f['path']) is f, 'a listed file is not in the table directory', info=info); continue
        ps = w.objects.get(a.f['path']); h.check(ps is not None, 'a listed file was not uploaded', info=info)
        whole = BytesV([s for p in ps for s in p.s]); h.check(mkbool(whole.same(f'file {f.k}', 0, f.bytes())), 'an uploaded file is not complete and in order', info=info)
        for p in ps[:-1]: h.check(mkbool(mkz(p.total() >= MINPART)), 'a part other than the last is smaller than the minimum', info=info)
        h.check(mkbool(z3.And(*[mkz(p.total() > 0) for p in ps])), 'an empty part is uploaded', info=info)
    h.wit('stored')
    if len(adds) > 1: h.wit('several files')
def call(h, n, *args):
    d = next(m.items[('fn', n)] for m in h.it.p.modules.values() if ('fn', n) in m.items)
    return h.it.await_(h.it.call_def(d, list(args)))
R = [dict(local=l, faults=f, _name=f'{"local" if l else "remote"}{" faults" if f else ""}') for l in (False, True) for f in (False, True)]
def over(shapes, **k): return [dict(sizes=s, _name=f'{s} {r["_name"]}', **{**k, **{x: y for x, y in r.items() if x != '_name'}, **({'reads': 1} if r['faults'] else {})}) for s in shapes for r in R]
@case('rows of one batch', over=over([[[3]]], reads=2), expects=['stored', 'several files'])
def one(h, sizes, local, faults, reads): run(h, sizes, h.int('partition limit', 'u32', 1, 2**31).v, local, faults, reads)
@case('rows of several batches', over=over([[[1], [1]], [[2, 1]], [[1, 0, 1]], [[], [2], []], [[]], [[0], [0]]], reads=1), expects=['stored'])
def several(h, sizes, local, faults, reads): run(h, sizes, h.int('partition limit', 'u32', 1, 2**31).v, local, faults, reads)
@case('bytes of one file', over=[dict(reads=n, faults=f) for n in (1, 2, 3, 4) for f in (False, True)], expects=['stored'])
def one_file(h, reads, faults): run(h, [[1]], 10, False, faults, reads)
