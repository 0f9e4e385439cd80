"""C23: the system tables list exactly the catalog's records."""
from checks.cat import *
from checks import session as S
NATIVE = None
BOUNDS = 'any catalog contents within 2 databases, 3 schemas, 4 tables, 6 versions, 2 dropped tables; one-letter names over two letters and both cases; any Delta version, any time; both repositories; every projection of at most 2 columns and the full one; a read that fails'
ASSUMPTIONS = ['SQL semantics as documented by SQLite and Postgres for the statements used, evaluated over the schema in migrations/', 'timestamps are whole seconds', 'MemoryExec returns the batches it is given, projected']
MODELS = 'sqlx and the two databases as in C29; arrow StructBuilder / RecordBatch; MemoryExec'
FL = ['sqlite', 'postgres']
COLS = {'table_versions': ['table_schema', 'table_name', 'table_version_id', 'version', 'creation_time'], 'dropped_tables': ['table_schema', 'table_name', 'uuid', 'deletion_status', 'drop_time']}
TYPES = {'table_versions': ['Utf8', 'Utf8', 'Int64', 'Int64', 'TimestampSecond'], 'dropped_tables': ['Utf8', 'Utf8', 'Utf8', 'Utf8', 'TimestampSecond']}
def want(h, w, tab, d):
    b = w.before.rows; out = []
    if tab == 'dropped_tables':
        for x in b['dropped_table']:
            if S.same(h, x['database_name'], d): out.append([x['collection_name'], x['table_name'], h.it.method(x['uuid'], 'to_string'), x['deletion_status'], Int(x['drop_time'], 'i64')])
        return out
    for v in b['table_version']:
        t = w.by_id('table', v['table_id'], w.before); c = w.by_id('collection', t['collection_id'], w.before); db = w.by_id('database', c['database_id'], w.before)
        if S.same(h, db['name'], d): out.append([c['name'], t['name'], Int(v['id'], 'i64'), Int(v['version'], 'i64'), Int(v['creation_time'], 'i64')])
    return out
def check_rows(h, w, tab, d, plan, proj):
    idx = list(range(5)) if proj is None else proj
    s = deref(h.it.call_method(plan, 'schema', []))
    h.check([f.name for f in s.fields] == [COLS[tab][i] for i in idx] and [S.B.kind_of(f.ty) for f in s.fields] == [TYPES[tab][i] for i in idx], f'system.{tab} does not have its documented columns', info=lambda m: {'schema': repr(s)})
    exp = want(h, w, tab, d); got = []
    for cols in plan.out():
        if cols: got += [list(r) for r in zip(*cols)]
    if idx: n = len(got)
    else: n = sum(b.n for p in plan.parts for b in p)
    ok = n == len(exp)
    left = list(got)
    if ok and idx:
        for e in exp:
            hit = next((g for g in left if h.ctx.branch(band(*[band(g[k][0], eq(val(g[k][1]), val(e[i]))) for k, i in enumerate(idx)]))), None)
            if hit is None: ok = False; break
            left = [g for g in left if g is not hit]
    h.check(ok, f'system.{tab} does not show exactly one row with its own values for each record of the database', info=lambda m: {'rows': [[m(v[1]) for v in g] for g in got], 'contents': show(w.before, m)}, key=f'system.{tab} rows')
def val(v):
    v = deref(v)
    return v

def run(h, fl, tab, proj, through):
    it = h.it
    w = World(h, fl, [[[[1, 1], [1]], [[1]]], [[[1]]]] if tab == 'table_versions' else [[], []], columns=False, dropped=2 if tab == 'dropped_tables' else 0)
    d = sym_name('database asked')
    if through == 'catalog':
        ms = metastore(w, staging_schema=Opaque('staging'), object_stores=S.Stores(w))
        r = it.await_(it.call_method(ms, 'build_catalog', [d])); h.check(r.var == 'Ok', 'the catalog of a database cannot be built', info=lambda m: {'result': repr(r)})
        p = deref(it.call_method(r.f['0'], 'schema', ['system'])); h.check(p.var == 'Some', 'a database has no system schema'); p = p.f['0']
    else: p = it.call_def(it.find_type('SystemSchemaProvider').assoc['new'][0], [d, view(w, 'tables')])
    names = sorted(deref(x) for x in deref(it.call_method(p, 'table_names', [])).a)
    h.check(names == ['dropped_tables', 'table_versions'], 'the system schema does not list its two tables')
    h.check(it.call_method(p, 'table_exist', [tab]) is True, 'a system table is said not to exist')
    w.faults = True
    t = it.await_(it.call_method(p, 'table', [tab])); h.check(t.var == 'Ok' and deref(t.f['0']).var == 'Some', f'system.{tab} cannot be found')
    t = deref(t.f['0']).f['0']
    r = it.await_(it.call_method(t, 'scan', [Opaque('session'), NONE() if proj is None else Some(Vec([Int(i, 'usize') for i in proj])), Vec([]), NONE()]))
    w.unchanged('reading')
    if w.pool.failed: h.check(r.var == 'Err', 'a failed read shows an empty table'); h.wit('failed'); return
    h.check(r.var == 'Ok', f'system.{tab} cannot be read', info=lambda m: {'result': repr(r), 'errors': h.ctx.user.get('sqlerrors')})
    check_rows(h, w, tab, d, deref(r.f['0']), proj); h.wit('read')
PROJ = {'all': None, 'none': [], 'names': [1, 0], 'times': [4], 'ids': [2, 3], 'same': [3, 3]}
@case('system tables', over=[dict(fl=f, tab=t, proj=p) for f in FL for t in COLS for p in ('all', 'names', 'ids', 'times', 'none')], expects=['read', 'failed'])
def system_tables(h, fl, tab, proj): run(h, fl, tab, PROJ[proj], 'direct')
@case('through the catalog', over=[dict(fl=f, tab=t) for f in FL for t in COLS], expects=['read', 'failed'])
def through(h, fl, tab): run(h, fl, tab, None, 'catalog')
@case('other names', expects=['none'])
def other(h):
    w = World(h, 'sqlite', [[]]); n = h.pick(['tables', 'Table_Versions', '', 'dropped', 'system.table_versions', 'dropped_tables '], 'name')
    p = h.it.call_def(h.it.find_type('SystemSchemaProvider').assoc['new'][0], [dbname0(w), view(w, 'tables')])
    t = h.it.await_(h.it.call_method(p, 'table', [n])); h.check(t.var == 'Ok' and deref(t.f['0']).var == 'None', 'an unknown name is taken for a system table'); h.wit('none')
def dbname0(w): return w.before.rows['database'][0]['name']
