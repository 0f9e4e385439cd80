"""C16: garbage collection only deletes dropped tables."""
from engine.harness import *
from engine import ext_store as ST, ext_main as MN
from engine.stdlib import Uuid
NATIVE = None
BOUNDS = 'up to 3 dropped tables (2 in the quick tier together with faults) of every status, up to 2 objects per table plus objects of a live table and a neighbour whose name starts like a dropped one; any subset of list, delete and catalog operations failing; every kind of store with and without a prefix; gc_interval any u16'
ASSUMPTIONS = ['object_store list/delete contracts (list is segment-wise under the prefix)', 'table UUIDs are distinct', 'the repository returns the dropped tables of the database asked for (C29)']
MODELS = 'object store (in memory, failing at will), Repository trait (recording stub), tokio interval'
G = 'seafowl::utils::gc_databases'
class Repo(Obj):
    def __init__(self, h, tables, fail): self.h = h; self.t = tables; self.log = []; self.fail = fail
    def err(self): return Err(Enum(self.h.it.find_type('seafowl::repository::interface::Error'), 'SqlxError', {'0': Enum('Error', 'PoolTimedOut', {})}))
    def m_get_dropped_tables(self, it, a, c):
        self.log.append(('get', deref(a[0])))
        if self.fail('get'): return self.err()
        return Ok(Vec([clone(t) for t in self.t]))
    def m_update_dropped_table(self, it, a, c):
        self.log.append(('update', deref(a[0]), deref(a[1]).var)); return self.err() if self.fail('update') else Ok(UNIT())
    def m_delete_dropped_table(self, it, a, c):
        self.log.append(('forget', deref(a[0]))); return self.err() if self.fail('forget') else Ok(UNIT())

def config(h, kind):
    it = h.it
    pre = None
    if kind == 'local': c = it.mke('ObjectStoreConfig', 'Local', it.mk('LocalConfig', data_dir='/data', disable_hardlinks=h.bool('nohl')))
    elif kind == 'memory': c = it.mke('ObjectStoreConfig', 'Memory')
    else:
        if kind.endswith('+prefix'): pre = 'some/path' if h.flip('slash') else 'some/path/'
        if kind.startswith('s3'): c = it.mke('ObjectStoreConfig', 'AmazonS3', it.mk('S3Config', bucket='b', prefix=opt(pre)))
        else: c = it.mke('ObjectStoreConfig', 'GoogleCloudStorage', it.mk('GCSConfig', bucket='b', prefix=opt(pre), google_application_credentials=NONE()))
    return c, [] if pre is None else ['some', 'path']

class Bag(Obj):
    def __init__(self, **f): self.f = f
def uid(u): return ST.mkpath(h_it.call_method(u, 'to_string', [])).s[0]

@case('collection', over=[dict(kind=k, n=n, faults=f, _tier=t) for k, n, f, t in
      [('local', 1, True, 'quick'), ('memory', 2, False, 'quick'), ('s3', 2, True, 'quick'), ('s3+prefix', 1, True, 'quick'), ('gcs', 1, True, 'quick'), ('gcs+prefix', 2, False, 'quick'), ('local', 2, True, 'quick'), ('local', 3, False, 'quick'),
       ('memory', 2, True, 'thorough'), ('gcs+prefix', 2, True, 'thorough'), ('local', 3, True, 'thorough')]], expects=['deleted'])
def collection(h, kind, n, faults):
    it = h.it
    cfg, pre = config(h, kind)
    U = [Uuid(100 + i) for i in range(n)]; live = Uuid(900)
    name = lambda u: it.method(u, 'to_string')
    statuses = [h.pick(['Pending', 'Retry', 'Failed'], f'status {i}') for i in range(n)]
    dbt = it.find_type('DroppedTablesResult')
    dts = [it.mk('DroppedTablesResult', database_name=h.str(f'db{i}'), collection_name=h.str(f'coll{i}'), table_name=h.str(f'table{i}'), uuid=U[i], deletion_status=it.mke('DroppedTableDeletionStatus', statuses[i]), drop_time=h.int(f'drop{i}', 'i64')) for i in range(n)]
    objs = []
    for i, u in enumerate(U):
        for j in range(h.choose(3, f'objects of table {i}')): objs.append([ST.PathV(pre + [name(u)] + (['_delta_log'] if j == 0 else []) + [f'f{j}']), 1])
    objs.append([ST.PathV(pre + [name(live), 'f']), 1])
    objs.append([ST.PathV(pre + [mktext([*ST.parts(name(U[0])), '-old']), 'f']), 1])      # its name starts like the dropped table's
    if pre: objs.append([ST.PathV([name(U[0]), 'f']), 1])                                # same name outside the configured prefix
    budget = [2 if n == 1 else 1 if not faults else 2]; fl = {}
    def fail(op, p=None):
        if not faults or budget[0] == 0: return False
        if h.flip(f'{op} fails'): budget[0] -= 1; fl[op] = True; return True
        return False
    st = ST.Store(objs, fail); repo = Repo(h, dts, fail)
    store = it.mk('InternalObjectStore', inner=st, root_uri=Opaque('Url'), config=cfg)
    rs = it.mk('RepositoryStore', repository=repo)
    ctx = Bag(metastore=Bag(tables=rs))
    db = opt(h.str('database')) if h.flip('one database') else NONE()
    it.call_fn(G, ctx, store, clone(db))
    info = lambda m: {'statuses': statuses, 'objects': [repr(o[0]) for o in objs], 'store': repr(st.log), 'catalog': repr(repo.log)}
    h.check(repo.log[0][0] == 'get' and eq(repo.log[0][1], db), 'the dropped tables of another database are collected', info=info)
    h.check(sum(1 for x in repo.log if x[0] == 'get') == 1, 'dropped tables are read more than once')
    got = not fl.get('get')
    pfx = [ST.PathV(pre + [name(u)]) for u in U]
    for x in st.log:
        if x[0].startswith('delete'):
            ok = [i for i in range(n) if got and statuses[i] != 'Failed' and h.ctx.branch(ST.under(x[1], pfx[i]))]
            h.check(ok != [], 'an object outside the dropped tables is deleted', info=info); h.wit('deleted')
    for i, u in enumerate(U):
        left = [o for o in st.o if o[0].s[:len(pfx[i].s)] == pfx[i].s or ST.under(o[0], pfx[i]) is True]
        forget = [x for x in repo.log if x[0] == 'forget' and eq(x[1], u) is True]; upd = [x for x in repo.log if x[0] == 'update' and eq(x[1], u) is True]
        if not got or statuses[i] == 'Failed':
            h.check(not forget and not upd, 'a table marked failed is touched', info=info); continue
        if forget: h.check(not left, 'a dropped table is forgotten before all of its objects are deleted', info=info)
        h.check(len(forget) + len(upd) == 1, 'the outcome of a deletion is not recorded exactly once', info=info)
        if left or upd:
            h.check(len(upd) == 1 and upd[0][2] == ('Retry' if statuses[i] == 'Pending' else 'Failed'), 'a failed deletion is not recorded as to be tried again, or as failed when it failed before', info=info, key='status after failure')
            h.wit('failed again' if statuses[i] == 'Retry' else 'failed once')
        elif not any(fl.get(k) for k in ('list', 'list end', 'delete')): h.check(bool(forget), 'a fully deleted table stays recorded', info=info)

@case('periodic task', expects=['runs', 'off'])
def periodic(h):
    it = h.it
    gi = h.int('gc_interval', 'u16')
    cfg = it.mk('SeafowlConfig', object_store=NONE(), catalog=NONE(), frontend=it.mk('Frontend', http=Some(it.mk('HttpFrontend', bind_host='h', bind_port=Int(1, 'u16'), read_access=it.mke('AccessSettings', 'Any'), write_access=it.mke('AccessSettings', 'Off')))), misc=it.mk('Misc', gc_interval=gi))
    store = h.flip('object store')
    from engine import ext_serde as S
    log = MN.run_main(h, dict(path=S.FsPath('seafowl.toml'), version=False, one_off=None, cli=False, exists=True), cfg, store=store)
    gcs = [x for x in log if x[0] == 'gc']; iv = h.ctx.user.get('intervals', [])
    for g in gcs: h.check(g[1] is h.ctx.user['context'] and g[2].f.get('name') == 'internal' and g[3].var == 'None', 'the periodic collection works on another context or store')
    h.check((len(gcs) >= 1) == store, 'the start-up collection is skipped or run without a store')
    if not h.ctx.branch(gi.v > 0): h.check(not iv or len(gcs) <= 1, 'collection is periodic although it is off'); h.wit('off'); return
    if not store: h.check(not gcs, 'collection without a store'); return
    h.check(len(iv) >= 1 and len(gcs) == 1 + 3, 'the collection does not run at each interval', info=lambda m: {'runs': len(gcs)})
    s = it.method(iv[-1], 'as_secs')
    h.check(s.v == gi.v * 3600, 'the collection interval is not the configured number of hours', info=lambda m: {'hours': m(gi), 'seconds': m(s)}); h.wit('runs')
