"""C29: the catalog database keeps its records consistent (repository operations over their own SQL and schema)."""
from checks.cat import *
from engine import ext_batch as B, ext_http as HT
NATIVE = None
BOUNDS = 'one operation from any contents within: 2 databases, 3 schemas, 4 tables, 6 versions (ids of different tables interleaved), 2 columns per version, 2 functions per database, 2 dropped tables; one-letter names over two letters and both cases, any Delta version and nondecreasing creation times; both repositories; at most one failing step (begin, each statement, commit)'
ASSUMPTIONS = ['SQL semantics as documented by SQLite and Postgres for the statements used, evaluated over the schema in migrations/', 'statements and transactions are atomic and isolated', 'the clock does not go backwards between versions of a table', 'timestamps are whole seconds']
MODELS = 'sqlx (pool, transaction, query, QueryBuilder, FromRow), SQLite and Postgres (statement evaluation, constraints), serde_json::to_string (injective)'
FL = ['sqlite', 'postgres']
SMALL = [[[[1], [2]], [[1]]], [[[1]]]]          # version counts are given by lists of column numbers
T1 = [1]; T2 = [1, 0]
SHAPE = [[[T2, T1], [T1]], [[T1]]]
VERS = [[[[1, 2], [0, 1, 1]], [[1]]], [[[1]]]]
def over(*extra):
    return [dict(fl=f, faults=x, **e) for f in FL for x in (False, True) for e in (extra or ({},))]
def dbname(w, i): return w.before.rows['database'][i]['name']
def same(h, a, b): return h.ctx.branch(X.veq(a, b))
def ev(r): return deref(r.f['0']).var
def failed(w, r, msg=''):
    w.unchanged(msg); w.h.wit('failed')
def match(w, exp, msg):
    w.h.check(w.same(exp, w.db), msg, info=lambda m: {'before': show(w.before, m), 'after': show(w.db, m), 'expected': show(exp, m)})
def clash(h, rows, **kv):
    return any(all(same(h, r[k], v) for k, v in kv.items()) for r in rows)
def errs(h, r, want, what):
    h.check(r.var == 'Err', f'{what} succeeds although it must be refused')
    if r.var == 'Err' and want: h.check(ev(r) == want, f'{what} is refused with the wrong kind of error', info=lambda m: {'kind': ev(r), 'expected': want})
def subtree(w, exp, t, ids):
    """remove rows and everything that belongs to them"""
    col = {'database': [('collection', 'database_id'), ('function', 'database_id')], 'collection': [('table', 'collection_id')], 'table': [('table_version', 'table_id')], 'table_version': [('table_column', 'table_version_id')]}
    gone = [r for r in exp.rows[t] if r['id'] in ids]
    exp.rows[t] = [r for r in exp.rows[t] if r['id'] not in ids]
    for ct, c in col.get(t, ()):
        k = [r['id'] for r in exp.rows[ct] if r[c] in [g['id'] for g in gone]]
        if k: subtree(w, exp, ct, k)
def done(w, r, faults):
    """True when the operation succeeded; a failure (only possible with an injected one) must leave everything alone"""
    if w.pool.failed:
        if r.var == 'Err': failed(w, r); return False
        w.h.fail('a failed step is reported as success')
    return True

@case('create database', over=over(), expects=['created', 'exists'])
def create_database(h, fl, faults):
    w = World(h, fl, [[], []]); w.faults = faults; n = sym_name('new'); h.it
    r = w.call('create_database', n)
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if clash(h, w.before.rows['database'], name=n):
        errs(h, r, 'UniqueConstraintViolation', 'creating a database whose name is taken'); w.unchanged('name taken'); h.wit('exists'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'a database with a free name cannot be created')
    exp = w.before.copy(); i = r.f['0'].v; exp.rows['database'].append({'id': i, 'name': n})
    h.check(w.by_id('database', i, w.before) is None, 'a new database gets the id of another'); match(w, exp, 'creating a database does not record exactly that database'); h.wit('created')
for c in []: pass

@case('create schema', over=over(), expects=['created', 'exists', 'no database'])
def create_collection(h, fl, faults):
    w = World(h, fl, [[[], []], [[]]]); w.faults = faults; n = sym_name('new'); d = h.pick([1, 2, 77], 'database')
    r = w.call('create_collection', Int(d, 'i64'), n)
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if d == 77: errs(h, r, 'FKConstraintViolation', 'creating a schema in a missing database'); w.unchanged('no database'); h.wit('no database'); return
    if clash(h, [x for x in w.before.rows['collection'] if x['database_id'] == d], name=n):
        errs(h, r, 'UniqueConstraintViolation', 'creating a schema whose name is taken'); w.unchanged('name taken'); h.wit('exists'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'a schema with a free name cannot be created')
    exp = w.before.copy(); i = r.f['0'].v; exp.rows['collection'].append({'id': i, 'database_id': d, 'name': n})
    h.check(w.by_id('collection', i, w.before) is None, 'a new schema gets the id of another'); match(w, exp, 'creating a schema does not record exactly that schema'); h.wit('created')

@case('create table', over=over(dict(ncol=0), dict(ncol=2)), expects=['created', 'exists', 'no schema'])
def create_table(h, fl, faults, ncol):
    w = World(h, fl, [[[T1, T1], [T1]]]); w.faults = faults; n = sym_name('new'); cid = h.pick([2, 5, 77], 'schema')
    cols = [sym_name(f'field {i}', 'xy') for i in range(ncol)]
    fields = [B.Field(c, B.dt(h.pick(['Int32', 'Utf8'], f'type {i}')), True) for i, c in enumerate(cols)]
    r = w.call('create_table', Int(cid, 'i64'), n, B.Schema(fields), Uuid(5000))
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if cid == 77: errs(h, r, 'FKConstraintViolation', 'creating a table in a missing schema'); w.unchanged('no schema'); h.wit('no schema'); return
    if clash(h, [x for x in w.before.rows['table'] if x['collection_id'] == cid], name=n):
        errs(h, r, 'UniqueConstraintViolation', 'creating a table whose name is taken'); w.unchanged('name taken'); h.wit('exists'); return
    if any(same(h, cols[i], cols[j]) for i in range(ncol) for j in range(i)):
        errs(h, r, None, 'creating a table with two columns of one name'); w.unchanged('two columns of one name'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'a table with a free name cannot be created', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    t, v = [x.v for x in r.f['0'].a]
    nv = w.by_id('table_version', v)
    h.check(nv is not None and w.by_id('table_version', v, w.before) is None and w.by_id('table', t, w.before) is None, 'the ids returned are not the new table and version')
    exp = w.before.copy(); exp.rows['table'].append({'id': t, 'collection_id': cid, 'name': n, 'uuid': Uuid(5000)})
    exp.rows['table_version'].append({'id': v, 'table_id': t, 'creation_time': nv['creation_time'], 'version': 0})
    new = [x for x in w.rows('table_column') if x['table_version_id'] == v]
    h.check(len(new) == ncol and all(h.ctx.branch(X.veq(x['name'], cols[i])) and eq(x['type'], HT.JsonVal(fields[i])) is True for i, x in enumerate(new)), 'the columns recorded are not those of the table', info=lambda m: {'after': repr(new), 'fields': repr(fields)})
    exp.rows['table_column'] += [dict(x) for x in new]
    match(w, exp, 'creating a table does not record exactly that table'); h.wit('created')

@case('new version', over=over(dict(which=3), dict(which=1), dict(which=77)), expects=[])
def new_version(h, fl, faults, which):
    w = World(h, fl, [[[[2, 1], [1, 2]], [T1]]]); w.faults = faults; ver = h.int('version', 'i64')
    r = w.call('create_new_version', Uuid(1000 + which), ver)
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if which == 77: errs(h, r, None, 'a new version of an unknown table'); w.unchanged('unknown table'); h.wit('unknown'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'a new version of a table cannot be recorded', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    v = r.f['0'].v; nv = w.by_id('table_version', v)
    h.check(nv is not None and w.by_id('table_version', v, w.before) is None, 'the id returned is not the new version')
    exp = w.before.copy(); exp.rows['table_version'].append({'id': v, 'table_id': which, 'creation_time': nv['creation_time'], 'version': ver.v})
    last = max(x['id'] for x in w.before.rows['table_version'] if x['table_id'] == which)
    old = [x for x in w.before.rows['table_column'] if x['table_version_id'] == last]; new = [x for x in w.rows('table_column') if x['table_version_id'] == v]
    h.check(len(old) == len(new) and all(any(h.ctx.branch(band(X.veq(o['name'], x['name']), X.veq(o['type'], x['type']))) for x in new) for o in old), 'a new version does not carry over the columns of the latest one', info=lambda m: {'before': show(w.before, m), 'after': show(w.db, m)})
    exp.rows['table_column'] += [dict(x) for x in new]
    match(w, exp, 'a new version does not record exactly that version'); h.wit('recorded')

@case('delete old versions', over=[dict(fl=f, faults=x, which=n) for f in FL for x, n in ((False, 1), (False, 77), (True, 3))], expects=[])
def delete_old(h, fl, faults, which):
    w = World(h, fl, [[[[1, 1], [0, 1, 1]], [T1]]]); w.faults = faults
    r = w.call('delete_old_versions', Int(which, 'i64'))
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'old versions cannot be deleted', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    vs = [x for x in w.before.rows['table_version'] if x['table_id'] == which]
    exp = w.before.copy(); old = sorted(x['id'] for x in vs)[:-1]
    subtree(w, exp, 'table_version', old); match(w, exp, 'deleting old versions does not keep exactly the newest version of the table and everything else')
    h.check(r.f['0'].v == len(old), 'the number of deleted versions is wrong'); h.wit('deleted')

@case('all versions', over=[dict(fl=f, filt=n) for f in FL for n in ('none', 'empty', 1, 2)], expects=['listed'])
def all_versions(h, fl, filt):
    w = World(h, fl, [[[[1, 0], [1]], [[0, 0]]], [[[1]]]]); w.faults = True; d = sym_name('database asked')
    names = None if filt == 'none' else [] if filt == 'empty' else [sym_name(f'wanted {i}') for i in range(filt)]
    r = w.call('get_all_versions', d, NONE() if names is None else Some(Vec(list(names))))
    w.unchanged('reading')
    if w.pool.failed: h.check(r.var == 'Err', 'a failed read is reported as success'); return
    h.check(r.var == 'Ok', 'versions cannot be listed', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    want = []
    for v in w.before.rows['table_version']:
        t = w.by_id('table', v['table_id'], w.before); c = w.by_id('collection', t['collection_id'], w.before); db = w.by_id('database', c['database_id'], w.before)
        if not same(h, db['name'], d): continue
        if names and not any(same(h, t['name'], n) for n in names): continue
        want.append(dict(database_name=db['name'], collection_name=c['name'], table_name=t['name'], table_version_id=v['id'], version=v['version'], creation_time=v['creation_time']))
    same_records(h, w, deref(r.f['0']).a, want, 'the versions listed are not exactly those recorded'); h.wit('listed')
def rv(v):
    v = deref(v)
    if type(v) is Enum and v.ty == 'Option': return None if v.var == 'None' else rv(v.f['0'])
    return v.v if type(v) is Int else v
def rec_eq(s, want): return band(*[samev_(rv(s.f[k]), want[k]) for k in want])
def samev_(a, b):
    if a is None or b is None: return a is None and b is None
    return X.veq(a, b)
def same_records(h, w, got, want, msg, ordered=False):
    got = [deref(g) for g in got]; left = list(got); ok = len(got) == len(want)
    if ok:
        for x in want:
            hit = next((g for g in left if h.ctx.branch(rec_eq(g, x))), None)
            if hit is None: ok = False; break
            left = [g for g in left if g is not hit]
    h.check(ok, msg, info=lambda m: {'got': [{k: m(v) if not isinstance(rv(v), Uuid) else repr(v) for k, v in g.f.items()} for g in got], 'contents': show(w.before, m), 'expected': len(want)})

@case('rename table', over=over(), expects=['renamed', 'exists', 'no table', 'no schema'])
def rename(h, fl, faults):
    w = World(h, fl, [[[T1, T1], [T1]], [[T1]]]); w.faults = faults; n = sym_name('new name'); t = h.pick([3, 1, 77], 'table'); nc = h.pick([None, 2, 5, 3, 99], 'new schema')
    r = w.call('rename_table', Int(t, 'i64'), n, opt(None if nc is None else Int(nc, 'i64')))
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if t == 77: errs(h, r, None, 'renaming a missing table'); w.unchanged('missing table'); h.wit('no table'); return
    old = w.by_id('table', t, w.before); target = nc or old['collection_id']
    if target == 99: errs(h, r, 'FKConstraintViolation', 'moving a table to a missing schema'); w.unchanged('missing schema'); h.wit('no schema'); return
    if clash(h, [x for x in w.before.rows['table'] if x['collection_id'] == target and x['id'] != t], name=n):
        errs(h, r, 'UniqueConstraintViolation', 'renaming a table to a name in use'); w.unchanged('name taken'); h.wit('exists'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'a table cannot be renamed to a free name', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    exp = w.before.copy(); x = w.by_id('table', t, exp); x['name'] = n; x['collection_id'] = target
    match(w, exp, 'renaming changes something other than the name and schema of that table'); h.wit('renamed')

def details(h, it):
    return it.mk('CreateFunctionDetails', entrypoint=h.str('entrypoint'), language=it.mke('CreateFunctionLanguage', h.pick(['Wasm', 'WasmMessagePack'], 'language')), input_types=Vec([it.mke('CreateFunctionDataType', h.pick(['INT', 'TEXT'], 'input'))]), return_type=it.mke('CreateFunctionDataType', 'BIGINT'), data=h.str('data'), volatility=it.mke('CreateFunctionVolatility', h.pick(['Immutable', 'Volatile'], 'volatility')))
@case('create function', over=[dict(fl=f, faults=x, repl=r) for f in FL for x in (False, True) for r in (False, True)], expects=['created', 'no database'])
def create_function(h, fl, faults, repl):
    w = World(h, fl, [[], []], functions=[2, 1]); w.faults = faults; n = sym_name('function name', 'fg'); d = h.pick([1, 2, 77], 'database'); det = details(h, h.it)
    r = w.call('create_function', Int(d, 'i64'), n, repl, det)
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if d == 77: errs(h, r, 'FKConstraintViolation', 'creating a function in a missing database'); w.unchanged('missing database'); h.wit('no database'); return
    row = dict(entrypoint=det.f['entrypoint'], language=det.f['language'].var, input_types=HT.JsonVal(det.f['input_types']), return_type='BIGINT', data=det.f['data'], volatility=det.f['volatility'].var)
    exp = w.before.copy(); hit = [x for x in exp.rows['function'] if x['database_id'] == d and same(h, x['name'], n)]
    if hit and not repl:
        errs(h, r, 'UniqueConstraintViolation', 'creating a function whose name is taken'); w.unchanged('name taken'); h.wit('exists'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'a function cannot be created', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    i = r.f['0'].v
    if hit: hit[0].update(row); h.check(i == hit[0]['id'], 'the id returned is not the function'); h.wit('replaced')
    else: exp.rows['function'].append({'id': i, 'database_id': d, 'name': n, **row}); h.check(w.by_id('function', i, w.before) is None, 'a new function gets the id of another')
    match(w, exp, 'creating a function does not record exactly that function'); h.wit('created')

@case('list functions', over=[dict(fl=f) for f in FL], expects=['listed'])
def list_functions(h, fl):
    w = World(h, fl, [[], []], functions=[2, 1]); w.faults = True; d = h.pick([1, 2, 77], 'database')
    r = w.call('get_all_functions_in_database', Int(d, 'i64')); w.unchanged('reading')
    if w.pool.failed: h.check(r.var == 'Err', 'a failed read is reported as success'); return
    want = [{k: v for k, v in x.items() if k != 'database_id'} for x in w.before.rows['function'] if x['database_id'] == d]
    same_records(h, w, deref(r.f['0']).a, want, 'the functions listed are not exactly those of the database'); h.wit('listed')

@case('drop functions', over=over(dict(n=1), dict(n=2)), expects=['dropped', 'none'])
def drop_function(h, fl, faults, n):
    w = World(h, fl, [[], []], functions=[3 if n == 2 else 2, 1]) if False else World(h, fl, [[], []], functions=[2, 1]); w.faults = faults; names = [sym_name(f'name {i}', 'fgh') for i in range(n)]; d = h.pick([1, 2], 'database')
    r = w.call('drop_function', Int(d, 'i64'), Vec(list(names)))
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    exp = w.before.copy(); hit = [x['id'] for x in exp.rows['function'] if x['database_id'] == d and any(same(h, x['name'], m) for m in names)]
    if not hit: errs(h, r, None, 'dropping a function that does not exist'); w.unchanged('no such function'); h.wit('none'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', 'a function cannot be dropped', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    subtree(w, exp, 'function', hit); match(w, exp, 'DROP FUNCTION does not remove exactly the functions named'); h.wit('dropped')

@case('delete', over=[dict(fl=f, faults=x, what=t) for f in FL for x in (False, True) for t in ('table', 'collection', 'database')], expects=['deleted', 'missing'])
def delete(h, fl, faults, what):
    w = World(h, fl, [[[[1, 1], [1]], [[1]]], [[[1]]]], dropped=1, functions=[1, 1]); w.faults = faults
    i = h.pick(sorted(x['id'] for x in w.before.rows[what]) + [77], 'id')
    r = w.call('delete_' + what, Int(i, 'i64'))
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if i == 77: errs(h, r, None, 'deleting a missing record'); w.unchanged('missing'); h.wit('missing'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', f'a {what} cannot be deleted', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    exp = w.before.copy(); subtree(w, exp, what, [i])
    match(w, exp, 'a deletion does not remove exactly the record and what belongs to it'); h.wit('deleted')

@case('dropped tables', over=[dict(fl=f, faults=x, op=o) for f in FL for x in (False, True) for o in ('update', 'delete')], expects=['done', 'missing'])
def dropped(h, fl, faults, op):
    w = World(h, fl, [], dropped=2); w.faults = faults; u = Uuid(h.pick([2000, 2001, 2077], 'uuid')); st = h.pick(['Pending', 'Retry', 'Failed'], 'new status')
    r = w.call('update_dropped_table', u, h.it.mke('DroppedTableDeletionStatus', st)) if op == 'update' else w.call('delete_dropped_table', u)
    if w.pool.failed and r.var == 'Err': failed(w, r); return
    if u.n == 2077: errs(h, r, None, 'changing a missing dropped table'); w.unchanged('missing'); h.wit('missing'); return
    if not done(w, r, faults): return
    h.check(r.var == 'Ok', f'a dropped table cannot be {"marked" if op == "update" else "forgotten"}', info=lambda m: {'status': st, 'errors': h.ctx.user.get('sqlerrors')})
    exp = w.before.copy(); i = u.n - 2000
    if op == 'update': exp.rows['dropped_table'][i]['deletion_status'] = st.upper()
    else: exp.rows['dropped_table'].pop(i)
    match(w, exp, f'{"marking" if op == "update" else "forgetting"} a dropped table changes something else'); h.wit('done')

@case('list dropped tables', over=[dict(fl=f, filt=x) for f in FL for x in (False, True)], expects=['listed'])
def list_dropped(h, fl, filt):
    w = World(h, fl, [], dropped=2); w.faults = True; d = sym_name('database asked')
    r = w.call('get_dropped_tables', Some(d) if filt else NONE()); w.unchanged('reading')
    if w.pool.failed: h.check(r.var == 'Err', 'a failed read is reported as success'); return
    h.check(r.var == 'Ok', 'dropped tables cannot be listed', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    want = [x for x in w.before.rows['dropped_table'] if not filt or same(h, x['database_name'], d)]
    got = [deref(g) for g in deref(r.f['0']).a]
    conv = [Struct(g.ty, {**g.f, 'deletion_status': deref(g.f['deletion_status']).var.upper()}) for g in got]
    same_records(h, w, conv, want, 'the dropped tables listed are not exactly those recorded'); h.wit('listed')

@case('lookups', over=[dict(fl=f, what=x) for f in FL for x in ('database', 'collection', 'table')], expects=['found', 'missing'])
def lookups(h, fl, what):
    w = World(h, fl, [[[T1, T1], [T1]], [[T1]]] if what == 'table' else [[[], []], [[]]]); w.faults = True
    names = [sym_name('database asked'), sym_name('schema asked'), sym_name('table asked')][:{'database': 1, 'collection': 2, 'table': 3}[what]]
    r = w.call('get_' + what, *names); w.unchanged('reading')
    if w.pool.failed: h.check(r.var == 'Err', 'a failed read is reported as success'); return
    hit = [x for x in w.before.rows['database'] if same(h, x['name'], names[0])]
    if len(names) > 1: hit = [x for x in w.before.rows['collection'] if hit and x['database_id'] == hit[0]['id'] and same(h, x['name'], names[1])]
    if len(names) > 2: hit = [x for x in w.before.rows['table'] if hit and x['collection_id'] == hit[0]['id'] and same(h, x['name'], names[2])]
    if not hit: h.check(r.var == 'Err' and ev(r) == 'SqlxError' and deref(deref(r.f['0']).f['0']).var == 'RowNotFound', 'a lookup of something missing does not say so'); h.wit('missing'); return
    h.check(r.var == 'Ok' and h.ctx.branch(rec_eq(deref(r.f['0']), {k: v for k, v in hit[0].items() if k != 'uuid'})), 'a lookup does not find the record of that name', info=lambda m: {'got': repr(r), 'contents': show(w.before, m)}); h.wit('found')

@case('list collections', over=[dict(fl=f, k=k) for f in FL for k in range(4)], expects=['listed'])
def list_collections(h, fl, k):
    shape = [[[[[1, 2]], [[1, 0]]]], [[[], [T1]], []], [[[[2, 1, 1]]], [[T1]]], [[[T1, T1], [T1]]]][k]
    w = World(h, fl, shape); w.faults = True; d = sym_name('database asked')
    r = w.call('list_collections', d); w.unchanged('reading')
    if w.pool.failed: h.check(r.var == 'Err', 'a failed read is reported as success'); return
    h.check(r.var == 'Ok', 'tables cannot be listed', info=lambda m: {'errors': h.ctx.user.get('sqlerrors')})
    want = []
    for db in w.before.rows['database']:
        if not same(h, db['name'], d): continue
        for c in [x for x in w.before.rows['collection'] if x['database_id'] == db['id']]:
            ts = [x for x in w.before.rows['table'] if x['collection_id'] == c['id']]
            if not ts: want.append(dict(database_name=db['name'], collection_name=c['name'], table_name=None, table_id=None, table_uuid=None, table_version_id=None, column_name=None, column_type=None))
            for t in ts:
                v = max(x['id'] for x in w.before.rows['table_version'] if x['table_id'] == t['id'])
                cs = [x for x in w.before.rows['table_column'] if x['table_version_id'] == v] or [dict(name=None, type=None)]
                for col in cs: want.append(dict(database_name=db['name'], collection_name=c['name'], table_name=t['name'], table_id=t['id'], table_uuid=t['uuid'], table_version_id=v, column_name=col['name'], column_type=col['type']))
    same_records(h, w, deref(r.f['0']).a, want, 'the listing is not exactly the latest version of each table'); h.wit('listed')
    got = [deref(g) for g in deref(r.f['0']).a]      # rows of one schema, and of one table within it, are adjacent
    for key in (['collection_name'], ['collection_name', 'table_name']):
        runs = []
        for g in got:
            kk = [rv(g.f[x]) for x in key]
            if runs and all(h.ctx.branch(samev_(a, b)) for a, b in zip(runs[-1], kk)): continue
            h.check(not any(all(h.ctx.branch(samev_(a, b)) for a, b in zip(q, kk)) for q in runs), 'rows of one schema or table are not listed together'); runs.append(kk)

# ---- the catalog interface over the repository: names in, kinds of error out
def find_db(h, w, n): return next((x for x in w.before.rows['database'] if same(h, x['name'], n)), None)
def find_coll(h, w, d, n): return next((x for x in w.before.rows['collection'] if d and x['database_id'] == d['id'] and same(h, x['name'], n)), None)
def find_table(h, w, c, n): return next((x for x in w.before.rows['table'] if c and x['collection_id'] == c['id'] and same(h, x['name'], n)), None)
def refused(h, w, r, kind, what, **named):
    h.check(r.var == 'Err', f'{what} succeeds although it must be refused')
    e = deref(r.f['0'])
    h.check(e.var == kind, f'{what} is refused with the wrong kind of error', info=lambda m: {'kind': e.var, 'expected': kind})
    for k, v in named.items(): h.check(h.ctx.branch(eq(deref(e.f[k]), v)), f'{what}: the error names something else', info=lambda m: {'error': repr(e)})
    w.unchanged(what); h.wit('refused')
STAGING = 'staging'
def schema_name(h, label):
    return STAGING if h.flip(f'{label} is the staging schema') else sym_name(label)

def ready(h, w, r):
    """False when an injected failure explains an error"""
    if w.pool.failed:
        if r.var == 'Err': failed(w, r); return False
        h.fail('a failed step is reported as success')
    return True
def okay(h, w, r, what):
    h.check(r.var == 'Ok', f'{what} fails', info=lambda m: {'result': repr(r), 'errors': h.ctx.user.get('sqlerrors'), 'contents': show(w.before, m)})

@case('catalog: databases', over=[dict(fl=f, faults=x, op=o) for f in FL for x in (False, True) for o in ('create', 'get', 'delete')], expects=['done', 'refused'])
def cat_databases(h, fl, faults, op):
    w = World(h, fl, [[[]], [[]]], functions=[1, 0]); w.faults = faults; n = sym_name('database asked')
    r = via(w, 'catalogs', op, n); d = find_db(h, w, n)
    if not ready(h, w, r): return
    if op == 'create' and d: refused(h, w, r, 'CatalogAlreadyExists', 'creating a database whose name is taken', name=n); return
    if op != 'create' and not d: refused(h, w, r, 'CatalogDoesNotExist', 'using a missing database', name=n); return
    okay(h, w, r, f'{op} of a database'); exp = w.before.copy()
    if op == 'create':
        new = [x for x in w.rows('database') if w.by_id('database', x['id'], w.before) is None]
        h.check(len(new) == 1, 'no database is recorded'); exp.rows['database'].append({'id': new[0]['id'], 'name': n})
    elif op == 'delete': subtree(w, exp, 'database', [d['id']])
    else: h.check(h.ctx.branch(rec_eq(deref(r.f['0']), d)), 'a lookup finds another database')
    match(w, exp, f'{op} of a database changes something else'); h.wit('done')

@case('catalog: schemas', over=[dict(fl=f, faults=x, op=o) for f in FL for x in (False, True) for o in ('create', 'get', 'delete')], expects=['done', 'refused'])
def cat_schemas(h, fl, faults, op):
    w = World(h, fl, [[[T1], []], [[]]]); w.faults = faults; dn = sym_name('database asked'); n = schema_name(h, 'schema asked')
    r = via(w, 'schemas', op, dn, n)
    if n is STAGING: refused(h, w, r, 'UsedStagingSchema', 'using the staging schema'); return
    d = find_db(h, w, dn); s = find_coll(h, w, d, n)
    if not ready(h, w, r): return
    if op == 'create':
        if not d: refused(h, w, r, 'CatalogDoesNotExist', 'creating a schema in a missing database', name=dn); return
        if s: refused(h, w, r, 'SchemaAlreadyExists', 'creating a schema whose name is taken', name=n); return
    elif not s: refused(h, w, r, 'SchemaDoesNotExist', 'using a missing schema', name=n); return
    okay(h, w, r, f'{op} of a schema'); exp = w.before.copy()
    if op == 'create':
        new = [x for x in w.rows('collection') if w.by_id('collection', x['id'], w.before) is None]
        h.check(len(new) == 1, 'no schema is recorded'); exp.rows['collection'].append({'id': new[0]['id'], 'database_id': d['id'], 'name': n})
    elif op == 'delete': subtree(w, exp, 'collection', [s['id']])
    else: h.check(h.ctx.branch(rec_eq(deref(r.f['0']), s)), 'a lookup finds another schema')
    match(w, exp, f'{op} of a schema changes something else'); h.wit('done')

@case('catalog: tables', over=[dict(fl=f, faults=x, op=o) for f in FL for x in (False, True) for o in ('create', 'get', 'delete', 'delete_old_versions')], expects=['done', 'refused'])
def cat_tables(h, fl, faults, op):
    w = World(h, fl, [[[[1, 1], T1], [T1]]]); w.faults = faults; dn = sym_name('database asked'); sn = schema_name(h, 'schema asked') if op == 'create' else sym_name('schema asked'); n = sym_name('table asked')
    args = [dn, sn, n] + ([B.Schema([B.Field('x', B.dt('Int32'), True)]), Uuid(5000)] if op == 'create' else [])
    r = via(w, 'tables', op, *args)
    if sn is STAGING: refused(h, w, r, 'UsedStagingSchema', 'creating a table in the staging schema'); return
    d = find_db(h, w, dn); s = find_coll(h, w, d, sn); t = find_table(h, w, s, n)
    if not ready(h, w, r): return
    if op == 'create':
        if not s: refused(h, w, r, 'SchemaDoesNotExist', 'creating a table in a missing schema', name=sn); return
        if t: refused(h, w, r, 'TableAlreadyExists', 'creating a table whose name is taken', name=n); return
    elif not t: refused(h, w, r, 'TableDoesNotExist', 'using a missing table', name=n); return
    okay(h, w, r, f'{op} of a table'); exp = w.before.copy()
    if op == 'create':
        tid, vid = [x.v for x in r.f['0'].a]; nv = w.by_id('table_version', vid); cols = [x for x in w.rows('table_column') if x['table_version_id'] == vid]
        exp.rows['table'].append({'id': tid, 'collection_id': s['id'], 'name': n, 'uuid': Uuid(5000)})
        exp.rows['table_version'].append({'id': vid, 'table_id': tid, 'creation_time': nv['creation_time'], 'version': 0}); exp.rows['table_column'] += [dict(x) for x in cols]
        h.check(len(cols) == 1, 'a new table is recorded without its column')
    elif op == 'delete': subtree(w, exp, 'table', [t['id']])
    elif op == 'delete_old_versions':
        old = sorted(x['id'] for x in w.before.rows['table_version'] if x['table_id'] == t['id'])[:-1]; subtree(w, exp, 'table_version', old)
        h.check(r.f['0'].v == len(old), 'the number of deleted versions is wrong')
    else: h.check(h.ctx.branch(rec_eq(deref(r.f['0']), {k: v for k, v in t.items() if k != 'uuid'})), 'a lookup finds another table')
    match(w, exp, f'{op} of a table changes something else'); h.wit('done')

@case('catalog: rename', over=over(), expects=['done', 'refused'])
def cat_rename(h, fl, faults):
    w = World(h, fl, [[[T1, T1], [T1]], [[T1]]]); w.faults = faults; dn = dbname(w, 0)
    sn = sym_name('old schema'); n = sym_name('old name'); s2 = schema_name(h, 'new schema'); n2 = sym_name('new name')
    r = via(w, 'tables', 'update', dn, sn, n, dn, s2, n2)
    d = find_db(h, w, dn); s = find_coll(h, w, d, sn); t = find_table(h, w, s, n)
    if not ready(h, w, r): return
    if not t: refused(h, w, r, 'TableDoesNotExist', 'renaming a missing table', name=n); return
    if s2 is STAGING: refused(h, w, r, 'UsedStagingSchema', 'moving a table to the staging schema'); return
    q = find_coll(h, w, d, s2)
    if not q: refused(h, w, r, 'SchemaDoesNotExist', 'moving a table to a missing schema', name=s2); return
    hit = find_table(h, w, q, n2)
    if hit and hit['id'] != t['id']: refused(h, w, r, 'TableAlreadyExists', 'renaming a table to a name in use', name=n2); return
    okay(h, w, r, 'renaming a table'); exp = w.before.copy(); x = w.by_id('table', t['id'], exp); x['name'] = n2; x['collection_id'] = q['id']
    match(w, exp, 'renaming changes something other than the name and schema of the table named'); h.wit('done')

@case('catalog: new version', over=over(), expects=['done'])
def cat_new_version(h, fl, faults):
    w = World(h, fl, [[[T1, T1]]]); w.faults = faults; u = h.pick([3, 1, 77], 'table'); ver = h.int('version', 'i64')
    r = via(w, 'tables', 'create_new_version', Uuid(1000 + u), ver)
    if not ready(h, w, r): return
    if u == 77: h.check(r.var == 'Err', 'a new version of an unknown table succeeds'); w.unchanged('unknown table'); return
    okay(h, w, r, 'recording a new version'); new = [x for x in w.rows('table_version') if w.by_id('table_version', x['id'], w.before) is None]
    h.check(len(new) == 1 and new[0]['table_id'] == u and h.ctx.branch(X.veq(new[0]['version'], ver.v)) and new[0]['id'] == r.f['0'].v, 'the version recorded is not that of the table named'); h.wit('done')

@case('catalog: functions', over=[dict(fl=f, faults=x, op=o) for f in FL for x in (False, True) for o in ('create', 'replace', 'delete', 'delete if exists')], expects=['done', 'refused'])
def cat_functions(h, fl, faults, op):
    w = World(h, fl, [[], []], functions=[2, 1]); w.faults = faults; dn = sym_name('database asked'); n = sym_name('function asked', 'fgh')
    if op in ('create', 'replace'): det = details(h, h.it); r = via(w, 'functions', 'create', dn, n, op == 'replace', det)
    else: r = via(w, 'functions', 'delete', dn, op == 'delete if exists', Vec([n]))
    d = find_db(h, w, dn)
    if not ready(h, w, r): return
    if not d: refused(h, w, r, 'CatalogDoesNotExist', 'using functions of a missing database', name=dn); return
    exp = w.before.copy(); hit = next((x for x in exp.rows['function'] if x['database_id'] == d['id'] and same(h, x['name'], n)), None)
    if op in ('create', 'replace'):
        if hit and op == 'create': refused(h, w, r, 'FunctionAlreadyExists', 'creating a function whose name is taken', name=n); return
        okay(h, w, r, 'creating a function')
        row = dict(entrypoint=det.f['entrypoint'], language=det.f['language'].var, input_types=HT.JsonVal(det.f['input_types']), return_type='BIGINT', data=det.f['data'], volatility=det.f['volatility'].var)
        if hit: hit.update(row)
        else:
            new = [x for x in w.rows('function') if w.by_id('function', x['id'], w.before) is None]; h.check(len(new) == 1, 'no function is recorded')
            exp.rows['function'].append({'id': new[0]['id'], 'database_id': d['id'], 'name': n, **row})
    else:
        if not hit:
            if op == 'delete': refused(h, w, r, 'FunctionNotFound', 'dropping a missing function', names=n); return
            h.check(r.var == 'Ok', 'DROP FUNCTION IF EXISTS of a missing function fails'); w.unchanged('nothing to drop'); h.wit('refused'); return
        okay(h, w, r, 'dropping a function'); subtree(w, exp, 'function', [hit['id']])
    match(w, exp, f'{op} of a function changes something else'); h.wit('done')

def is_delta(v):
    v = deref(v)
    return v.var == 'Delta' if isinstance(v, Enum) else ival(v) == B.ENUMS['TableFormat']['Delta'][0]
@case('catalog: listing', over=[dict(fl=f, k=k) for f in FL for k in range(4)], expects=['listed'])
def cat_listing(h, fl, k):
    shape = [[[[[1, 2]], [[1, 0]]]], [[[], [T1]], []], [[[[2, 1], [1]]], [[T1]]], [[[T1, T1], [T1]]]][k]
    w = World(h, fl, shape); w.faults = True; dn = sym_name('database asked')
    r = via(w, 'schemas', 'list', dn); w.unchanged('reading')
    if w.pool.failed: h.check(r.var == 'Err', 'a failed read is reported as success'); return
    okay(h, w, r, 'listing a database'); d = find_db(h, w, dn); got = [deref(x) for x in deref(deref(r.f['0']).f['schemas']).a]
    want = [c for c in w.before.rows['collection'] if d and c['database_id'] == d['id']]
    def bad(msg): h.check(False, msg, info=lambda m: {'got': repr(got), 'contents': show(w.before, m)})
    if len(got) != len(want): bad('the schemas listed are not exactly those of the database'); return
    for c in want:
        g = [x for x in got if same(h, x.f['name'], c['name'])]
        if len(g) != 1: bad('the schemas listed are not exactly those of the database'); return
        ts = [t for t in w.before.rows['table'] if t['collection_id'] == c['id']]; gt = [deref(x) for x in deref(g[0].f['tables']).a]
        if len(gt) != len(ts): bad('the tables listed are not exactly those of the schema'); return
        for t in ts:
            q = [x for x in gt if same(h, x.f['name'], t['name'])]
            if len(q) != 1 or not h.ctx.branch(eq(q[0].f['path'], h.it.method(t['uuid'], 'to_string'))) or deref(q[0].f['store']).var != 'None' or not is_delta(q[0].f['format']): bad('a table is not listed under its own name and location'); return
    h.wit('listed')

@case('catalog: a function reads back as created', over=[dict(fl=f) for f in FL], expects=['same'])
def cat_round_trip(h, fl):
    w = World(h, fl, [[]]); it = h.it; dn = dbname(w, 0)
    vs = it.find_type('CreateFunctionDataType').variants
    ti, tr = (h.pick(list(vs), 'input type'), 'BIGINT') if h.flip('vary the input type') else ('INT', h.pick(list(vs), 'return type'))
    det = it.mk('CreateFunctionDetails', entrypoint=h.str('entrypoint'), language=it.mke('CreateFunctionLanguage', h.pick(['Wasm', 'WasmMessagePack'], 'language')), input_types=Vec([it.mke('CreateFunctionDataType', 'INT'), it.mke('CreateFunctionDataType', ti)]), return_type=it.mke('CreateFunctionDataType', tr), data=h.str('data'), volatility=it.mke('CreateFunctionVolatility', h.pick(['Immutable', 'Stable', 'Volatile'], 'volatility')))
    n = sym_name('function name', 'fg'); r = via(w, 'functions', 'create', dn, n, False, det); okay(h, w, r, 'creating a function')
    ms = metastore(w, staging_schema=Opaque('staging'), object_stores=Opaque('stores'))
    r = it.await_(it.call_method(ms, 'build_functions', [dn])); h.check(r.var == 'Ok', 'a function that was created cannot be read back', info=lambda m: {'result': repr(r)})
    fs = [deref(x) for x in deref(r.f['0']).a]
    h.check(len(fs) == 1 and h.ctx.branch(band(eq(fs[0].f['name'], n), eq(fs[0].f['details'], det))), 'a function reads back as something else than was created', info=lambda m: {'created': repr(det), 'read': repr(fs)}); h.wit('same')
