"""C31: a table in a remote database reads as that table."""
from checks.remote import *
from engine.symchars import symtext
NATIVE = None
BOUNDS = ('remote tables of up to 3 columns (names of up to 2 symbolic characters, any declared and remote types) and up to 2 rows of any values; every projection of up to 2 columns, none and no projection; '
          'any limit; declared schemas in another order or with fewer columns than the remote table, and introspected ones; every kind of remote database; one failing step')
ASSUMPTIONS = ['the remote database evaluates SELECT columns FROM table WHERE condition LIMIT n as SQL says and connectorx hands back its columns under the names asked for', 'a cast is a function of the value and the target type', 'column names of a table differ']
MODELS = 'connectorx (SourceConn, CXQuery, get_arrow, ArrowDestination), MemoryExec, ProjectionExec, physical column and cast expressions'
TY = ['Int64', 'Utf8']
def columns(h, n, length=1):
    ns = [symtext(f'column {i}', length) for i in range(n)]
    for i in range(n):
        for j in range(i): h.assume(bnot(eq(ns[i], ns[j])))
    return ns
def rows(h, n, k): return [Row(i, [h.ctx.fresh(f'cell {i}.{j}') for j in range(k)], None, None) for i in range(n)]
def ctx(it): return Opaque('session')
def scan(h, t, proj, filters, limit):
    return h.it.await_(h.it.call_method(t, 'scan', [Opaque('session'), NONE() if proj is None else Some(Vec([Int(i, 'usize') for i in proj])), Vec(list(filters)), NONE() if limit is None else Some(limit)]))
def judge(h, r, plan, decl, remote, proj, limit):
    """decl: declared fields; remote: position of each in the remote table"""
    p = deref(plan); idx = list(range(len(decl))) if proj is None else proj; sch = deref(h.it.call_method(p, 'schema', []))
    h.check(len(sch.fields) == len(idx) and band(*[band(eq(f.name, decl[i].name), eq(f.ty, decl[i].ty)) for f, i in zip(sch.fields, idx)]), 'a scan of a remote table does not have the columns asked for', key='columns', info=lambda m: {'schema': [m(f.name) for f in sch.fields], 'asked': [m(decl[i].name) for i in idx]})
    h.check(len(p.rows) == len(r.rows), 'a scan of a remote table has too few or too many rows', key='rows')
    for a, b in zip(p.rows, r.rows):
        for k, i in enumerate(idx):
            x = b.cells[remote[i]]; rt = r.cols[remote[i]].ty
            if not Ctx.cur.branch(eq(rt, decl[i].ty)): x = caste(x, decl[i].ty)
            h.check(mkbool(a.cells[k] == x) if k < len(a.cells) else False, 'a column of a remote table shows values of another column, or in another type than declared', key='values', info=lambda m: {'column': m(decl[i].name)})
    q = r.asked[-1]
    h.check(q.where is None, 'rows of the remote table are left out', key='rows')
    if q.limit is not None: h.check(limit is not None and ge(q.limit, limit), 'fewer rows are asked for than the query needs', key='limit')
def ge(q, l):
    v = q.v if isinstance(q, Int) else int(q); return mkbool(v >= l.v)
PROJ = {'none': None, 'empty': [], 'first': [0], 'last': [-1], 'swapped': [1, 0], 'all': 'all'}
@case('scan', over=[dict(kind=k, proj=p, n=n) for k in KINDS for p in PROJ for n in (1, 2, 3) if not (p == 'swapped' and n == 1) and (k in ('Postgres', 'SQLite', 'MySQL') or n == 2)], expects=['read'])
def c_scan(h, kind, proj, n):
    ns = columns(h, n, 2 if n == 1 else 1)
    rc = [B.Field(x, AR.dt(h.pick(TY, 'remote type') if i == 0 else 'Int64'), True) for i, x in enumerate(ns)]
    how = h.pick(['declared', 'other order', 'fewer'][:1 if n == 1 else 3], 'declaration')
    order = {'declared': list(range(n)), 'other order': list(range(n))[::-1], 'fewer': list(range(1, n))}[how]
    dc = [B.Field(ns[i], AR.dt(h.pick(TY, 'declared type') if i == 0 else 'Int64'), True) for i in order]
    r, t = table(h, kind, dc, rc, rows(h, 2, n))
    h.check(t.var == 'Ok', 'a remote table cannot be made', info=lambda m: {'result': repr(t)}); t = deref(t.f['0'])
    h.check(r.asked == [], 'a table with declared columns is introspected')
    pr = PROJ[proj]
    if pr == 'all': pr = list(range(len(dc)))
    elif pr: pr = [i % len(dc) for i in pr]
    if pr and len(set(pr)) < len(pr): pr = pr[:1]
    limit = h.int('limit', 'usize') if h.flip('limited') else None
    h.check(eq(h.it.call_method(t, 'schema', []), B.Schema(dc)), 'a remote table does not have its declared schema')
    x = scan(h, t, pr, [], limit)
    h.check(x.var == 'Ok', 'a remote table cannot be read', info=lambda m: {'result': repr(x)})
    judge(h, r, x.f['0'], dc, order, pr, limit); h.wit('read')
@case('introspection', over=[dict(kind=k, n=n) for k in KINDS for n in (1, 2)], expects=['read', 'failed'])
def introspect(h, kind, n):
    ns = columns(h, n); rc = [B.Field(x, AR.dt(h.pick(TY, 'remote type') if i == 0 else 'Int64'), True) for i, x in enumerate(ns)]
    r = None
    Ctx.cur.user['fault first'] = True
    R2 = Remote(h, kind, rc, rows(h, 1, n), 'table name')
    r, t = table_(h, R2, kind, [], faults=True)
    if r.failed: h.check(t.var == 'Err', 'a table whose columns could not be read is made'); h.wit('failed'); return
    h.check(t.var == 'Ok', 'a remote table cannot be introspected'); t = deref(t.f['0'])
    h.check(eq(h.it.call_method(t, 'schema', []), B.Schema(rc)), "an introspected table does not have the remote table's columns")
    x = scan(h, t, None if h.flip('no projection') else list(range(n)), [], None)
    if r.failed: h.check(x.var == 'Err', 'a failed read of a remote table shows rows'); h.wit('failed'); return
    h.check(x.var == 'Ok', 'a remote table cannot be read'); judge(h, r, x.f['0'], rc, list(range(n)), None, None); h.wit('read')
def table_(h, r, kind, declared, faults):
    r.faults = faults; Ctx.cur.user['remote'] = r
    cmd = Struct('CreateExternalTable', {'location': KINDS[kind], 'options': Map('HashMap', [('format.name', NAME())]), 'schema': DFS(None, B.Schema(declared))})
    return r, h.it.await_(h.it.call_method(h.it.mk('RemoteTableFactory'), 'create', [Opaque('session'), cmd]))
@case('making', expects=['refused', 'connected'])
def making(h):
    what = h.pick(['no name', 'bad url', 'ddn', 'plain'], 'command')
    url = {'bad url': 'nonsense', 'ddn': KINDS['Postgres']}.get(what, KINDS['Postgres'])
    r = Remote(h, 'Postgres', [], [], ''); Ctx.cur.user['remote'] = r
    cmd = Struct('CreateExternalTable', {'location': url, 'options': Map('HashMap', [] if what == 'no name' else [('format.name', NAME())]), 'schema': DFS(None, B.Schema([B.Field('a', AR.dt('Int64'), True)]))})
    t = h.it.await_(h.it.call_method(h.it.mk('RemoteTableFactory'), 'create', [Opaque('session'), cmd]))
    if what in ('no name', 'bad url'): h.check(t.var == 'Err', 'a remote table without a name or address is made'); h.wit('refused'); return
    h.check(t.var == 'Ok' and Ctx.cur.user['conn'].url == url, 'a remote table connects elsewhere than it was told'); h.wit('connected')
