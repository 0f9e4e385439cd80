"""C25: DDL acts on the named object and nothing else."""
from checks.cat import *
from checks import session as S
from engine.ext_http import JsonVal
from checks.session import Use, Memory, External, bare, partial, full, ident, objname
NATIVE = None
BOUNDS = 'one statement in any catalog within 2 databases, 3 schemas, 4 tables, 2 functions; one-letter names over two letters in both cases, quoted or not, bare, schema- or database-qualified; any session default database and schema; at most one failing step'
ASSUMPTIONS = ['DataFusion plans a native statement as the statement it is, with its name normalised', 'SQL semantics as documented by SQLite and Postgres for the statements used, evaluated over the schema in migrations/', 'no other statement runs at the same time']
MODELS = 'sqlx and the databases as in C29; DataFusion SessionContext (catalog resolution, MemorySchemaProvider); delta-rs builders (recorded); object stores (recorded)'
FL = ['sqlite', 'postgres']
SHAPE = [[[[1, 1], [1]], [[1]]], [[[1]]]]
def same(h, a, b): return h.ctx.branch(X.veq(a, b))
def uid(t): return h_text(t['uuid'])
def h_text(u): return Ctx.cur.user['it'].method(u, 'to_string')
def find(h, w, d, s, t, db=None):
    """the catalog's record of a table"""
    b = (db or w.before)
    for x in b.rows['table']:
        c = w.by_id('collection', x['collection_id'], b); dd = w.by_id('database', c['database_id'], b)
        if same(h, dd['name'], d) and same(h, c['name'], s) and same(h, x['name'], t): return x
    return None
def find_schema(h, w, d, s):
    b = w.before
    return next((c for c in b.rows['collection'] if same(h, w.by_id('database', c['database_id'], b)['name'], d) and same(h, c['name'], s)), None)
def subtree(exp, t, ids):
    col = {'collection': [('table', 'collection_id')], 'table': [('table_version', 'table_id')], 'table_version': [('table_column', 'table_version_id')]}
    gone = [r for r in exp.rows[t] if r['id'] in ids]; exp.rows[t] = [r for r in exp.rows[t] if r['id'] not in ids]
    for ct, c in col.get(t, ()):
        k = [r['id'] for r in exp.rows[ct] if r[c] in [g['id'] for g in gone]]
        if k: subtree(exp, ct, k)
def match(w, exp, msg, key=None): w.h.check(w.same(exp, w.db), msg, key=key or msg, info=lambda m: {'statement': show_st(w, m), 'before': show(w.before, m), 'after': show(w.db, m), 'expected': show(exp, m)})
def show_st(w, m): return [m(x) if not isinstance(x, (str, int, bool, type(None))) else x for x in w.told]
FORMS = ['bare', 'partial', 'full']
def slow(ps):
    """the quick tier leaves the largest combinations of flavour, name form and faults to the thorough one"""
    for p in ps:
        big = p.get('form', p.get('a')) != 'bare' and (p.get('form', 'full') == 'full' or p.get('a') != 'bare')
        if p.get('fa') and (p.get('fl') == 'postgres' and (big or p.get('form') == 'partial' or 'kind' in p) or big and 'a' in p): p['_tier'] = 'thorough'
        if p.get('fl') == 'postgres' and p.get('form') == 'full' and p.get('exists'): p['_tier'] = 'thorough'
        if 'kind' in p and 'schema' in p and p['fa'] and not (p['kind'] == 'csv' and p['schema']): p['_tier'] = 'thorough'
    return ps
class Name:
    """a name as written in a statement, and what it means"""
    def __init__(self, h, w, u, tag, form, sch=None, quoted=None, letters='abAB'):
        self.parts = {}; self.q = {}; self.form = form
        for k in {'bare': ['table'], 'partial': ['schema', 'table'], 'full': ['catalog', 'schema', 'table']}[form]:
            if k == 'schema' and sch is not None: self.parts[k] = sch; self.q[k] = False; continue
            if k == 'catalog': self.parts[k] = sym_name(f'{tag} {k}'); self.q[k] = True; continue
            q = h.flip(f'{tag} {k} quoted') if quoted is None else quoted
            self.parts[k] = sym_name(f'{tag} {k}', letters if q else [x for x in letters if x.islower()] if quoted else letters); self.q[k] = q
        self.norm = {k: (v if self.q[k] or isinstance(v, str) else S.SP.ascii_lower(v)) for k, v in self.parts.items()}
        self.cat = self.norm.get('catalog', u.ctx.f['default_catalog']); self.sch = self.norm.get('schema', u.ctx.f['default_schema']); self.tab = self.norm['table']
        w.told += [tag] + list(self.norm.values())
    def obj(self): return objname(*[ident(v, '"' if self.q[k] else None) for k, v in self.parts.items()])
    def ref(self): return {'bare': bare, 'partial': partial, 'full': full}[self.form](*self.norm.values())
    def triple(self): return self.cat, self.sch, self.tab
def start(h, fl, shape=SHAPE, sch='any', faults=False, funcs=(), **kw):
    h.ctx.user['it'] = h.it
    w = World(h, fl, shape, columns=False, functions=funcs); w.told = []
    cat = w.before.rows['database'][0]['name']
    sch = {'any': lambda: sym_name('default schema'), 'first': lambda: w.before.rows['collection'][0]['name']}[sch]()
    w.told += ['session', cat, sch]
    u = Use(h, w, cat, sch, **kw); w.faults = faults
    return w, u
def ok(h, r, what): h.check(r.var == 'Ok', f'{what} fails', info=lambda m: {'statement': show_st(h.ctx.user['session'].w, m), 'result': repr(r)[:500], 'errors': repr(h.ctx.user.get('sqlerrors'))})
def refused(h, w, u, r, what):
    h.check(r.var == 'Err', f'{what} succeeds', info=lambda m: {'statement': show_st(w, m), 'before': show(w.before, m), 'after': show(w.db, m)})
    untouched(h, w, u, what)
def untouched(h, w, u, what, kinds=('delete', 'create', 'convert', 'commit', 'vacuum', 'adds', 'gc', 'execute')):
    match(w, w.before, f'{what} changes the catalog'); h.check(not u.did(*kinds), f'{what} touches table data', info=lambda m: {'statement': show_st(w, m), 'events': repr(u.events)[:600]})
def deleted(h, w, u, tables, what, all_=True):
    """objects were deleted only under these tables"""
    paths = [h_text(t['uuid']) for t in tables]; got = [e[1] for e in u.did('delete')]
    h.check(all(p in paths for p in got) and not u.did('create', 'commit', 'vacuum', 'adds', 'gc', 'convert'), f'{what} deletes the data of a table it does not name', info=lambda m: {'statement': show_st(w, m), 'deleted': got, 'named': paths})
    if all_: h.check(all(p in got for p in paths), f'{what} leaves the data of the table behind', info=lambda m: {'statement': show_st(w, m), 'deleted': got, 'named': paths})
def ddl(var, **f): return Enum('LogicalPlan', 'Ddl', {'0': Enum('DdlStatement', var, {'0': Struct(var, f)})})
def stmt(var, **f): return Enum('Statement', 'Statement', {'0': Enum('Statement', var, f)})

@case('drop table', over=slow([dict(fl=f, form=x, fa=y, exists=e) for f in FL for x in FORMS for y in (False, True) for e in (False, True)]), expects=['dropped', 'missing'])
def drop_table(h, fl, form, fa, exists):
    w, u = start(h, fl, faults=fa, sch='any' if form == 'bare' else 'first')
    if fa: u.faults = ('deleting the objects fails',)
    n = Name(h, w, u, 'dropped', form, quoted=True)
    r = u.run(plan=ddl('DropTable', name=n.ref(), if_exists=exists, schema=Opaque('DFSchema')))
    t = find(h, w, *n.triple())
    if w.pool.failed: h.check(r.var == 'Err', 'a failed DROP TABLE is reported as success'); untouched(h, w, u, 'a failed DROP TABLE'); h.wit('failed'); return
    if t is None:
        if exists: ok(h, r, 'DROP TABLE IF EXISTS of a missing table'); untouched(h, w, u, 'DROP TABLE IF EXISTS of a missing table')
        else: refused(h, w, u, r, 'DROP TABLE of a missing table')
        h.wit('missing'); return
    ok(h, r, 'DROP TABLE'); exp = w.before.copy(); subtree(exp, 'table', [t['id']])
    match(w, exp, 'DROP TABLE does not remove exactly the table named')
    deleted(h, w, u, [t], 'DROP TABLE', all_=same(h, n.cat, u.ctx.f['default_catalog'])); h.wit('dropped')

@case('drop a table that cannot be loaded', over=[dict(fl=f, exists=e) for f in FL for e in (False, True)], expects=['dropped', 'missing'])
def drop_broken(h, fl, exists):
    w, u = start(h, fl, sch='first'); u.broken = {h_text(t['uuid']) for t in w.before.rows['table']}
    n = Name(h, w, u, 'dropped', 'partial', quoted=True)
    r = u.run(plan=ddl('DropTable', name=n.ref(), if_exists=exists, schema=Opaque('DFSchema'))); t = find(h, w, *n.triple())
    if t is None: h.check((r.var == 'Ok') == exists, 'dropping a missing table'); untouched(h, w, u, 'dropping a missing table'); h.wit('missing'); return
    ok(h, r, 'DROP TABLE of a table without data'); exp = w.before.copy(); subtree(exp, 'table', [t['id']]); match(w, exp, 'DROP TABLE of a table without data does not remove exactly that table'); deleted(h, w, u, [t], 'DROP TABLE', all_=False); h.wit('dropped')

@case('drop a staging table', over=[dict(form=x, exists=e, other=o) for x in ('bare', 'partial', 'full') for e in (False, True) for o in (False, True)], expects=['dropped', 'missing'])
def drop_staging(h, form, exists, other):
    a, b = sym_name('staged 0'), sym_name('staged 1'); distinct(h, [a, b])
    w, u = start(h, 'sqlite', [[[[1]]], []], sch='first', staging=[(a, External('a')), (b, External('b'))])
    if form == 'bare': u.ctx.f['default_schema'] = 'staging'; u.inner.sch = 'staging'
    n = Name(h, w, u, 'dropped', form, sch='staging', quoted=True)
    if form == 'full': h.assume(eq(n.cat, u.ctx.f['default_catalog']))
    if other: n = Name(h, w, u, 'dropped', 'bare', quoted=True); n.sch = u.ctx.f['default_schema']
    r = u.run(plan=ddl('DropTable', name=n.ref(), if_exists=exists, schema=Opaque('DFSchema')))
    if other and form != 'bare':
        left = [k for k, v in u.staging.t]; h.check(len(left) == 2, 'DROP TABLE of a stored table drops a staging table'); h.wit('dropped'); h.wit('missing'); return
    untouched(h, w, u, 'dropping a staging table')
    hit = [x for x, v in ((a, 'a'), (b, 'b')) if same(h, x, n.tab)]
    if not hit:
        h.check((r.var == 'Ok') == exists, 'dropping a missing staging table succeeds' if not exists else 'DROP TABLE IF EXISTS of a missing staging table fails', info=lambda m: {'result': repr(r)}); h.check(len(u.staging.t) == 2, 'dropping a missing staging table drops another'); h.wit('missing'); return
    ok(h, r, 'DROP TABLE of a staging table'); h.check(len(u.staging.t) == 1 and u.staging.t[0][0] is not hit[0], 'DROP TABLE does not drop exactly the staging table named', info=lambda m: {'statement': show_st(w, m), 'left': [m(k) for k, v in u.staging.t]}); h.wit('dropped')

@case('drop schema', over=slow([dict(fl=f, form=x, fa=y, exists=e) for f in FL for x in ('bare', 'full') for y in (False, True) for e in (False, True)]), expects=['dropped', 'missing'])
def drop_schema(h, fl, form, fa, exists):
    w, u = start(h, fl, sch='first', faults=fa, shape=[[[[1], [1]], []], [[[1]]]])
    s = sym_name('dropped schema'); c = sym_name('dropped catalog') if form == 'full' else u.ctx.f['default_catalog']; w.told += ['DROP SCHEMA', c, s]
    name = Enum('SchemaReference', 'Bare', {'schema': s}) if form == 'bare' else Enum('SchemaReference', 'Full', {'schema': s, 'catalog': c})
    r = u.run(plan=ddl('DropCatalogSchema', name=name, if_exists=exists, cascade=h.flip('cascade'), schema=Opaque('DFSchema')))
    other = not same(h, c, u.ctx.f['default_catalog'])
    if other: refused(h, w, u, r, 'DROP SCHEMA in another database') if not (exists and r.var == 'Ok') else untouched(h, w, u, 'DROP SCHEMA in another database'); h.wit('other'); return
    k = find_schema(h, w, c, s); tabs = [] if k is None else [t for t in w.before.rows['table'] if t['collection_id'] == k['id']]
    if w.pool.failed:
        h.check(r.var == 'Err', 'a failed DROP SCHEMA is reported as success')
        # whatever was dropped until then is of this schema, and only tables gone from the catalog lose their data
        gone = [t for t in w.before.rows['table'] if w.by_id('table', t['id']) is None]
        h.check(all(t in tabs for t in gone), 'a failed DROP SCHEMA drops a table of another schema'); deleted(h, w, u, gone, 'a failed DROP SCHEMA', all_=False); h.wit('failed'); return
    if k is None:
        if exists: ok(h, r, 'DROP SCHEMA IF EXISTS of a missing schema'); untouched(h, w, u, 'DROP SCHEMA IF EXISTS of a missing schema')
        else: refused(h, w, u, r, 'DROP SCHEMA of a missing schema')
        h.wit('missing'); return
    ok(h, r, 'DROP SCHEMA'); exp = w.before.copy(); subtree(exp, 'collection', [k['id']])
    match(w, exp, 'DROP SCHEMA does not remove exactly the schema named and its tables'); deleted(h, w, u, tabs, 'DROP SCHEMA'); h.wit('dropped')
@case('drop a reserved schema', over=[dict(name=n, exists=e, full=x) for n in ('staging', 'system') for e in (False, True) for x in (False, True)], expects=['refused'])
def drop_reserved(h, name, exists, full):
    a = sym_name('staged'); w, u = start(h, 'sqlite', [[[[1]], []]], sch='first', staging=[(a, External('a'))] if h.flip('staged tables') else [])
    ref = Enum('SchemaReference', 'Full', {'schema': name, 'catalog': u.ctx.f['default_catalog']}) if full else Enum('SchemaReference', 'Bare', {'schema': name})
    n0 = len(u.staging.t); r = u.run(plan=ddl('DropCatalogSchema', name=ref, if_exists=exists, cascade=True, schema=Opaque('DFSchema')))
    refused(h, w, u, r, f'DROP SCHEMA {name}'); h.check(len(u.staging.t) == n0, f'DROP SCHEMA {name} drops staging tables'); h.wit('refused')

def dot(*xs): return mktext([y for i, x in enumerate(xs) for y in (['.'] if i else []) + [x]])
@case('create schema', over=slow([dict(fl=f, form=x, fa=y, exists=e) for f in FL for x in ('bare', 'full') for y in (False, True) for e in (False, True)]), expects=['created', 'exists'])
def create_schema(h, fl, form, fa, exists):
    w, u = start(h, fl, sch='first', faults=fa); s = sym_name('new schema'); c = sym_name('new schema catalog') if form == 'full' else u.ctx.f['default_catalog']; w.told += ['CREATE SCHEMA', c, s]
    r = u.run(plan=ddl('CreateCatalogSchema', schema_name=s if form == 'bare' else S.SP.from_cl(S.SP.cl(c) + [Char('.')] + S.SP.cl(s)), if_not_exists=exists, schema=Opaque('DFSchema')))
    if w.pool.failed and r.var == 'Err': untouched(h, w, u, 'a failed CREATE SCHEMA'); h.wit('failed'); return
    h.check(not w.pool.failed, 'a failed CREATE SCHEMA is reported as success')
    if not same(h, c, u.ctx.f['default_catalog']): refused(h, w, u, r, 'CREATE SCHEMA in another database'); h.wit('other'); return
    if find_schema(h, w, c, s) is not None:
        if exists: ok(h, r, 'CREATE SCHEMA IF NOT EXISTS of an existing schema'); untouched(h, w, u, 'CREATE SCHEMA IF NOT EXISTS of an existing schema')
        else: refused(h, w, u, r, 'CREATE SCHEMA of an existing schema')
        h.wit('exists'); return
    ok(h, r, 'CREATE SCHEMA'); exp = w.before.copy(); new = [x for x in w.rows('collection') if w.by_id('collection', x['id'], w.before) is None]
    h.check(len(new) == 1, 'CREATE SCHEMA does not create one schema'); exp.rows['collection'].append({'id': new[0]['id'], 'database_id': 1, 'name': s}); match(w, exp, 'CREATE SCHEMA does not create exactly the schema named'); h.wit('created')
@case('create the staging schema', over=[dict(full=x, exists=e) for x in (False, True) for e in (False, True)], expects=['refused'])
def create_staging(h, full, exists):
    w, u = start(h, 'sqlite', [[[[1]], []]], sch='first')
    r = u.run(plan=ddl('CreateCatalogSchema', schema_name=S.SP.from_cl(S.SP.cl(u.ctx.f['default_catalog']) + S.SP.cl('.staging')) if full else 'staging', if_not_exists=exists, schema=Opaque('DFSchema')))
    refused(h, w, u, r, 'CREATE SCHEMA staging'); h.wit('refused')

@case('create database', over=[dict(fl=f, fa=y, exists=e) for f in FL for y in (False, True) for e in (False, True)], expects=['created', 'exists'])
def create_database(h, fl, fa, exists):
    w, u = start(h, fl, sch='first', faults=fa); d = sym_name('new database'); w.told += ['CREATE DATABASE', d]
    r = u.run(plan=ddl('CreateCatalog', catalog_name=d, if_not_exists=exists, schema=Opaque('DFSchema')))
    there = any(same(h, x['name'], d) for x in w.before.rows['database'])
    if w.pool.failed:
        # the database may be there without its first schema; nothing that existed is changed
        if r.var == 'Err':
            h.check(not u.did('delete', 'create'), 'a failed CREATE DATABASE touches table data'); exp = w.before.copy()
            for x in w.rows('database'):
                if w.by_id('database', x['id'], w.before) is None and not there and same(h, x['name'], d): exp.rows['database'].append(dict(x))
            match(w, exp, 'a failed CREATE DATABASE changes what existed'); h.wit('failed'); return
    if there:
        if exists: ok(h, r, 'CREATE DATABASE IF NOT EXISTS of an existing database'); untouched(h, w, u, 'CREATE DATABASE IF NOT EXISTS of an existing database')
        else: refused(h, w, u, r, 'CREATE DATABASE of an existing database')
        h.wit('exists'); return
    ok(h, r, 'CREATE DATABASE'); exp = w.before.copy(); nd = [x for x in w.rows('database') if w.by_id('database', x['id'], w.before) is None]; ns = [x for x in w.rows('collection') if w.by_id('collection', x['id'], w.before) is None]
    h.check(len(nd) == 1 and len(ns) == 1, 'CREATE DATABASE does not create one database with one schema'); exp.rows['database'].append({'id': nd[0]['id'], 'name': d}); exp.rows['collection'].append({'id': ns[0]['id'], 'database_id': nd[0]['id'], 'name': 'public'})
    match(w, exp, 'CREATE DATABASE does not create exactly the database named with its public schema'); h.wit('created')

def coldefs(n): return Vec([Struct('ColumnDef', {'name': ident(f'c{i}'), 'data_type': Enum('DataType', 'Int', {'0': NONE()}), 'collation': NONE(), 'options': Vec([])}) for i in range(n)])
def created(h, w, u, r, n, what, exists=False, extra=0):
    """the expectations of every CREATE TABLE: exactly that table, at a place of its own, in the current database"""
    if not same(h, n.cat, u.ctx.f['default_catalog']):
        t = None if not exists else find(h, w, *n.triple())
        if t is not None and r.var == 'Ok': untouched(h, w, u, what); return False
        refused(h, w, u, r, what + ' in another database'); h.wit('other'); return False
    k = find_schema(h, w, n.cat, n.sch); t = find(h, w, *n.triple())
    if u.failed():
        h.check(r.var == 'Err', f'a failed {what} is reported as success'); h.check(not u.did('delete', 'vacuum'), f'a failed {what} deletes data')
        h.wit('failed'); exp = w.before.copy()
        for x in w.rows('table'):
            if w.by_id('table', x['id'], w.before) is None and t is None and k is not None and x['collection_id'] == k['id'] and same(h, x['name'], n.tab): return None
        match(w, w.before, f'a failed {what} changes the catalog'); return None
    if t is not None:
        if exists: ok(h, r, f'{what} IF NOT EXISTS of an existing table'); untouched(h, w, u, f'{what} IF NOT EXISTS of an existing table')
        else:
            h.check(r.var == 'Err', f'{what} of an existing table succeeds'); match(w, w.before, f'{what} of an existing table changes the catalog'); h.check(not u.did('delete', 'commit', 'adds'), f'{what} of an existing table changes a table')
        h.wit('exists'); return False
    if k is None: refused(h, w, u, r, f'{what} in a missing schema'); h.wit('no schema'); return False
    ok(h, r, what); exp = w.before.copy(); nt = [x for x in w.rows('table') if w.by_id('table', x['id'], w.before) is None]; nv = [x for x in w.rows('table_version') if w.by_id('table_version', x['id'], w.before) is None]
    h.check(len(nt) == 1 and len(nv) == 1 + extra, f'{what} does not create one table'); t = nt[0]
    exp.rows['table'].append({'id': t['id'], 'collection_id': k['id'], 'name': n.tab, 'uuid': t['uuid']})
    h.check(all(v['table_id'] == t['id'] for v in nv), f'{what} gives another table a version')
    exp.rows['table_version'] += [dict(v) for v in nv]; exp.rows['table_column'] = [dict(v) for v in w.rows('table_column')]; match(w, exp, f'{what} does not create exactly the table named')
    made = u.did('create', 'convert'); h.check(len(made) == 1 and eq(made[0][1], h_text(t['uuid'])) is True and all(x['uuid'].n != t['uuid'].n for x in w.before.rows['table']), f'{what} does not put the table in a place of its own', info=lambda m: {'events': repr(u.events)[:500]})
    h.check(not u.did('delete', 'vacuum', 'gc'), f'{what} deletes data'); h.wit('created'); return t
@case('create table', over=slow([dict(fl=f, form=x, fa=y, exists=e) for f in FL for x in FORMS for y in (False, True) for e in (False, True)]), expects=['created', 'exists'])
def create_table(h, fl, form, fa, exists):
    w, u = start(h, fl, sch='any' if form == 'bare' else 'first', faults=fa)
    if fa: u.faults = ('creating the Delta table fails',)
    n = Name(h, w, u, 'created', form, quoted=True if fa else None)
    st = stmt('CreateTable', **{'0': Struct('CreateTable', {'query': NONE(), 'name': n.obj(), 'columns': Vec([]), 'constraints': Vec([]), 'table_properties': Vec([]), 'with_options': Vec([]), 'if_not_exists': exists, 'or_replace': False})})
    created(h, w, u, u.run(st), n, 'CREATE TABLE', exists)
@case('create table as', over=slow([dict(fl=f, form=x, fa=y, exists=e) for f in FL for x in FORMS for y in (False, True) for e in (False, True)]), expects=['created', 'exists'])
def create_table_as(h, fl, form, fa, exists):
    w, u = start(h, fl, sch='any' if form == 'bare' else 'first')
    if fa: u.faults = ('all',)
    n = Name(h, w, u, 'created', form, quoted=True); src = Opaque('the query')
    r = u.run(plan=ddl('CreateMemoryTable', name=n.ref(), input=src, if_not_exists=exists, or_replace=False, constraints=Opaque('c'), column_defaults=Vec([]), temporary=False))
    t = created(h, w, u, r, n, 'CREATE TABLE AS', exists, extra=1)
    if t: appended(h, w, u, t, src, 'CREATE TABLE AS')
def appended(h, w, u, t, src, what):
    """exactly the rows of src went into t as one new version"""
    p = h_text(t['uuid']); ad = u.did('adds'); cm = u.did('commit')
    h.check(len(ad) == 1 and ad[0][1].of is src and eq(ad[0][2], p) is True, f'{what} does not write the rows into the table', info=lambda m: {'events': repr(u.events)[:600]})
    h.check(len(cm) == 1 and eq(cm[0][1], p) is True and [deref(x).var for x in deref(cm[0][2]).a] == ['Add', 'Add'], f'{what} does not commit exactly the new files to the table', info=lambda m: {'events': repr(u.events)[:600]})
    nv = [v for v in w.rows('table_version') if w.by_id('table_version', v['id'], w.before) is None]
    nv.sort(key=lambda v: v['id']); h.check(nv and nv[-1]['table_id'] == t['id'] and same(h, nv[-1]['version'], u.version.v), f'{what} does not record the version it committed')
@case('create in staging', over=[dict(kind=k, form=x) for k in ('table', 'as', 'convert') for x in ('bare', 'partial')], expects=['refused'])
def create_in_staging(h, kind, form):
    w, u = start(h, 'sqlite', [[[[1]], []]], sch='first')
    if form == 'bare': u.ctx.f['default_schema'] = 'staging'; u.inner.sch = 'staging'
    n = Name(h, w, u, 'created', form, sch='staging' if form == 'partial' else None, quoted=True)
    if kind == 'table': r = u.run(stmt('CreateTable', **{'0': Struct('CreateTable', {'query': NONE(), 'name': n.obj(), 'columns': Vec([]), 'constraints': Vec([]), 'table_properties': Vec([]), 'with_options': Vec([]), 'if_not_exists': False, 'or_replace': False})}))
    elif kind == 'as': r = u.run(plan=ddl('CreateMemoryTable', name=n.ref(), input=Opaque('q'), if_not_exists=False, or_replace=False))
    else: r = u.run(convert(n))
    refused(h, w, u, r, f'creating a table in the staging schema ({kind})'); h.check(not u.staging.t, 'a table is created in the staging schema'); h.wit('refused')
UU = '00000000-0000-4000-8000-000000001b58'
def convert(n, target='00000000-0000-4000-8000-000000001b58'): return Enum('Statement', 'CopyTo', {'0': Struct('CopyToStatement', {'source': Enum('CopyToSource', 'Relation', {'0': n.obj()}), 'target': target, 'options': h_opts(), 'partitioned_by': Vec([]), 'stored_as': NONE()})})
def h_opts(): return Vec([Tup(['CONVERT_TO_DELTA', Enum('Value', 'Boolean', {'0': True})])])

def altered(n, m): return stmt('AlterTable', name=n.obj(), if_exists=False, only=False, operations=Vec([Enum('AlterTableOperation', 'RenameTable', {'table_name': m.obj()})]), location=NONE(), on_cluster=NONE())
@case('rename table', over=slow([dict(fl=f, a=a, b=b, fa=y) for f in FL for a, b in (('bare', 'bare'), ('bare', 'partial'), ('partial', 'bare'), ('partial', 'full'), ('full', 'partial')) for y in (False, True)]), expects=['renamed'])
def rename(h, fl, a, b, fa):
    w, u = start(h, fl, sch='first', faults=fa)
    n = Name(h, w, u, 'renamed', a, quoted=True); m_ = Name(h, w, u, 'to', b, quoted=True)
    r = u.run(altered(n, m_)); t = find(h, w, *n.triple()); k = find_schema(h, w, *m_.triple()[:2])
    if w.pool.failed: h.check(r.var == 'Err', 'a failed rename is reported as success'); untouched(h, w, u, 'a failed rename'); h.wit('failed'); return
    if not same(h, n.cat, u.ctx.f['default_catalog']) or not same(h, m_.cat, u.ctx.f['default_catalog']): refused(h, w, u, r, 'renaming a table across databases'); h.wit('across'); return
    if t is None: refused(h, w, u, r, 'renaming a missing table'); h.wit('missing'); return
    if find(h, w, *m_.triple()) is not None: refused(h, w, u, r, 'renaming a table to a name that is taken'); h.wit('taken'); return
    if k is None: refused(h, w, u, r, 'renaming a table into a missing schema'); h.wit('no schema'); return
    ok(h, r, 'ALTER TABLE RENAME'); exp = w.before.copy()
    for x in exp.rows['table']:
        if x['id'] == t['id']: x['collection_id'] = k['id']; x['name'] = m_.tab
    match(w, exp, 'ALTER TABLE RENAME does not rename exactly that table'); h.check(not u.events, 'ALTER TABLE RENAME touches table data'); h.wit('renamed')
@case('rename into staging', over=[dict(out=o) for o in (False, True)], expects=['refused'])
def rename_staging(h, out):
    a = sym_name('staged'); w, u = start(h, 'sqlite', [[[[1]], []]], sch='first', staging=[(a, External('a'))])
    n = Name(h, w, u, 'renamed', 'partial' if out else 'bare', sch='staging' if out else None, quoted=True); m_ = Name(h, w, u, 'to', 'bare' if out else 'partial', sch=None if out else 'staging', quoted=True)
    r = u.run(altered(n, m_)); refused(h, w, u, r, 'renaming a table into or out of the staging schema'); h.check(len(u.staging.t) == 1, 'the staging schema changes'); h.wit('refused')

@case('vacuum table', over=slow([dict(fl=f, form=x, fa=y) for f in FL for x in FORMS for y in (False, True)]), expects=['vacuumed', 'missing'])
def vacuum(h, fl, form, fa):
    w, u = start(h, fl, sch='any' if form == 'bare' else 'first', faults=fa); n = Name(h, w, u, 'vacuumed', form, quoted=True)
    if fa: u.faults = ('vacuuming fails',)
    r = u.run(stmt('Truncate', table=False, table_names=Vec([n.obj()]), partitions=NONE(), only=False)); t = find(h, w, *n.triple())
    h.check(not u.did('delete', 'commit', 'adds', 'create', 'convert', 'gc'), 'VACUUM TABLE does something else')
    if u.failed(): h.check(r.var == 'Err', 'a failed VACUUM is reported as success', info=lambda m: {'events': repr(u.events)}); match(w, w.before, 'a failed VACUUM changes the catalog'); h.wit('failed'); return
    if t is None: match(w, w.before, 'VACUUM of a missing table changes the catalog'); h.check(not u.events, 'VACUUM of a missing table touches data'); h.wit('missing'); return
    ok(h, r, 'VACUUM TABLE'); exp = w.before.copy()
    subtree(exp, 'table_version', sorted(v['id'] for v in exp.rows['table_version'] if v['table_id'] == t['id'])[:-1])
    match(w, exp, 'VACUUM TABLE does not forget exactly the old versions of the table named'); ev = u.did('vacuum')
    if same(h, n.cat, u.ctx.f['default_catalog']): h.check(len(ev) == 1, 'VACUUM TABLE does not vacuum the table')
    h.check(all(eq(e[1], h_text(t['uuid'])) is True and eq(e[3], h_text(t['uuid'])) is True for e in ev), 'VACUUM TABLE vacuums another table', info=lambda m: {'events': repr(u.events)}); h.wit('vacuumed')
@case('vacuum database', expects=['collected'])
def vacuum_db(h):
    w, u = start(h, 'sqlite', [[[[1]]], []], sch='first'); d = sym_name('vacuumed'); w.told += ['VACUUM DATABASE', d]
    r = u.run(stmt('Truncate', table=False, table_names=Vec([objname(ident('x'))]), partitions=Some(Vec([Enum('Expr', 'Identifier', {'0': ident(d)})])), only=False)); ok(h, r, 'VACUUM DATABASE')
    g = u.did('gc'); h.check(len(g) == 1 and g[0][1].var == 'Some' and eq(deref(g[0][1].f['0']), d), 'VACUUM DATABASE does not collect the dropped tables of the database named', info=lambda m: {'events': repr(u.events)}); match(w, w.before, 'VACUUM DATABASE changes the catalog'); h.check(len(u.events) == 1, 'VACUUM DATABASE does something else'); h.wit('collected')

@case('truncate', over=[dict(form=x, fa=y) for x in FORMS for y in (False, True)], expects=['truncated', 'missing'])
def truncate(h, form, fa):
    w, u = start(h, 'sqlite', sch='any' if form == 'bare' else 'first'); n = Name(h, w, u, 'truncated', form, quoted=True)
    if fa: u.faults = ('committing fails',)
    r = u.run(stmt('Truncate', table=True, table_names=Vec([n.obj()]), partitions=NONE(), only=False)); t = find(h, w, *n.triple())
    if u.failed(): match(w, w.before, 'a failed TRUNCATE changes the catalog'); h.check(r.var == 'Err', 'a failed TRUNCATE is reported as success'); h.wit('failed'); return
    if t is None or not same(h, n.cat, u.ctx.f['default_catalog']): refused(h, w, u, r, 'TRUNCATE of a missing table'); h.wit('missing'); return
    ok(h, r, 'TRUNCATE'); p = h_text(t['uuid']); cm = u.did('commit')
    exp = w.before.copy(); nv = [v for v in w.rows('table_version') if w.by_id('table_version', v['id'], w.before) is None]
    h.check(len(nv) == 1 and nv[0]['table_id'] == t['id'] and same(h, nv[0]['version'], u.version.v), 'TRUNCATE does not record the version it committed'); exp.rows['table_version'] += [dict(v) for v in nv]; exp.rows['table_column'] += [dict(v) for v in w.rows('table_column') if v['table_version_id'] == nv[0]['id']]
    match(w, exp, 'TRUNCATE changes the catalog of tables')
    h.check(len(u.events) == 1 and len(cm) == 1 and eq(cm[0][1], p) is True, 'TRUNCATE does not commit to exactly the table named', info=lambda m: {'events': repr(u.events)[:500]})
    acts = [deref(x) for x in deref(cm[0][2]).a]; h.check([a.var for a in acts] == ['Remove', 'Remove'] and [deref(a.f['0']).f['path'] for a in acts] == [f'{p}/f{i}' for i in range(2)], 'TRUNCATE does not remove exactly the files of the table', info=lambda m: {'events': repr(u.events)[:500]}); h.wit('truncated')

@case('insert', over=slow([dict(fl=f, form=x, fa=y) for f in FL for x in FORMS for y in (False, True)]), expects=['inserted', 'missing'])
def insert(h, fl, form, fa):
    w, u = start(h, fl, sch='any' if form == 'bare' else 'first', faults=fa); n = Name(h, w, u, 'target', form, quoted=True); src = Opaque('the rows')
    if fa: u.faults = ('all',)
    plan = Enum('LogicalPlan', 'Dml', {'0': Struct('DmlStatement', {'table_name': n.ref(), 'table_schema': Opaque('s'), 'op': Enum('WriteOp', 'Insert', {'0': Enum('InsertOp', 'Append')}), 'input': src, 'output_schema': Opaque('o')})})
    r = u.run(plan=plan); t = find(h, w, *n.triple())
    if u.failed(): h.check(r.var == 'Err', 'a failed INSERT is reported as success'); match(w, w.before, 'a failed INSERT changes the catalog'); h.wit('failed'); return
    if t is None or not same(h, n.cat, u.ctx.f['default_catalog']): refused(h, w, u, r, 'INSERT into a missing table'); h.wit('missing'); return
    ok(h, r, 'INSERT'); appended(h, w, u, t, src, 'INSERT'); only_version(h, w, t, 'INSERT'); h.check(not u.did('delete', 'create', 'vacuum'), 'INSERT touches other data'); h.wit('inserted')
def only_version(h, w, t, what):
    exp = w.before.copy(); nv = [v for v in w.rows('table_version') if w.by_id('table_version', v['id'], w.before) is None]
    h.check(len(nv) == 1 and nv[0]['table_id'] == t['id'], f'{what} does not record one new version of the table'); exp.rows['table_version'].append(dict(nv[0])); exp.rows['table_column'] = [dict(v) for v in w.rows('table_column')]; match(w, exp, f'{what} changes another record')

@case('convert', over=slow([dict(fl=f, form=x, fa=y) for f in FL for x in FORMS for y in (False, True)]), expects=['created', 'exists'])
def converted(h, fl, form, fa):
    w, u = start(h, fl, sch='first', faults=fa); n = Name(h, w, u, 'converted', form, quoted=True)
    r = u.run(convert(n)); cv = u.did('convert')
    h.check(all(e[1] == UU for e in cv), 'CONVERT reads another place than the one named')
    if u.conv == 1 and r.var == 'Ok': match(w, w.before, 'CONVERT of a place that is a Delta table already changes the catalog'); h.wit('already'); return
    if u.conv == 2: u.flips += 1
    t = created(h, w, u, r, n, 'CONVERT')
    if t: h.check(t['uuid'].n == 7000, 'the converted table is recorded at another place')
@case('convert a bad place', expects=['refused'])
def bad_place(h):
    w, u = start(h, 'sqlite', [[[[1]]], []], sch='first'); n = Name(h, w, u, 'converted', 'bare', quoted=True)
    r = u.run(convert(n, target=h.pick(['somewhere', '../' + UU, UU + 'x', ''], 'target')))
    if r.var == 'Err': refused(h, w, u, r, 'converting a place that is not a table prefix')
    h.check(r.var == 'Err' or u.did('convert')[0][1] == UU, 'CONVERT of a place outside of the table prefixes'); h.wit('refused')

def ext(n): return Enum('LogicalPlan', 'Extension', {'0': Struct('Extension', {'node': n})})
@case('create function', over=[dict(fl=f, repl=r, fa=y) for f in FL for r in (False, True) for y in (False, True)], expects=['created', 'exists'])
def create_function(h, fl, repl, fa):
    it = h.it; w, u = start(h, fl, [[[[1]]], []], sch='first', faults=fa, funcs=[0, 1]); n = sym_name('new function', 'fg'); w.told += ['CREATE FUNCTION', n]
    old = None
    if h.flip('taken'): old = {'id': 50, 'database_id': 1, 'name': sym_name('old function', 'fg'), **{k: h.str(f'old {k}') for k in ('entrypoint', 'language', 'input_types', 'return_type', 'data', 'volatility')}}; w.db.rows['function'].append(old); w.before = w.db.copy()
    det = it.mk('CreateFunctionDetails', entrypoint='e', language=it.mke('CreateFunctionLanguage', 'Wasm'), input_types=Vec([]), return_type=it.mke('CreateFunctionDataType', 'BIGINT'), data='d', volatility=it.mke('CreateFunctionVolatility', 'Immutable'))
    if fa: u.faults = ('compiling the function fails',)
    r = u.physical(ext(it.mke('SeafowlExtensionNode', 'CreateFunction', **{'0': it.mk('CreateFunction', name=n, or_replace=repl, details=det, output_schema=Opaque('s'))})))
    if u.failed() and r.var == 'Err': untouched(h, w, u, 'a failed CREATE FUNCTION'); h.wit('failed'); return
    h.check(not u.failed(), 'a failed CREATE FUNCTION is reported as success')
    hit = old is not None and same(h, old['name'], n)
    if hit and not repl: refused(h, w, u, r, 'CREATE FUNCTION of an existing function'); h.wit('exists'); return
    ok(h, r, 'CREATE FUNCTION'); exp = w.before.copy(); fs = [x for x in w.rows('function') if x['database_id'] == 1 and same(h, x['name'], n)]
    h.check(len(fs) == 1 and fs[0]['entrypoint'] == 'e', 'CREATE FUNCTION does not record the function', info=lambda m: {'after': show(w.db, m)})
    if hit: exp.rows['function'] = [x for x in exp.rows['function'] if x['id'] != old['id']]
    exp.rows['function'].append(dict(fs[0])); match(w, exp, 'CREATE FUNCTION changes something else')
    x = u.did('udf'); h.check(len(x) == 1 and x[0][2] is det and eq(x[0][1], n), 'the session does not know the new function'); h.wit('created'); h.wit('exists') if hit else None
@case('drop function', over=[dict(fl=f, exists=e, n=k) for f in FL for e in (False, True) for k in (1, 2)], expects=['dropped', 'missing'])
def drop_function(h, fl, exists, n):
    it = h.it; w, u = start(h, fl, [[[[1]]], []], sch='first', funcs=[2, 1])
    for x in w.db.rows['function']: x.update(language='Wasm', input_types=JsonVal(Vec([])), return_type='INT', volatility='Immutable')
    w.before = w.db.copy()
    names = [sym_name(f'dropped function {i}', 'fgh') for i in range(n)]; w.told += ['DROP FUNCTION'] + names
    r = u.run(stmt('DropFunction', if_exists=exists, func_desc=Vec([Struct('FunctionDesc', {'name': objname(ident(x)), 'args': NONE()}) for x in names]), option=NONE()))
    hit = [x['id'] for x in w.before.rows['function'] if x['database_id'] == 1 and any(same(h, x['name'], y) for y in names)]
    if not hit:
        if exists: ok(h, r, 'DROP FUNCTION IF EXISTS of a missing function'); untouched(h, w, u, 'DROP FUNCTION IF EXISTS of a missing function')
        else: refused(h, w, u, r, 'DROP FUNCTION of a missing function')
        h.wit('missing'); return
    ok(h, r, 'DROP FUNCTION'); exp = w.before.copy(); subtree(exp, 'function', hit); match(w, exp, 'DROP FUNCTION does not drop exactly the functions named'); h.wit('dropped')
    left = [e for e in u.did('udf') if any(same(h, e[1], x['name']) for x in w.before.rows['function'] if x['id'] in hit) and not any(same(h, e[1], d[1]) for d in u.did('deudf'))]
    h.check(not left, 'a dropped function stays callable in the session that dropped it', key='drop function: still registered in the session', info=lambda m: {'statement': show_st(w, m)})

class LUrl(Obj):
    def __init__(self, u): self.u = u
    def m_as_ref(self, it, a, c): return self.u
S.EXT_FN['ListingTableUrl::parse'] = lambda it, a, c: Ok(LUrl(deref(a[0])))
@case('create external table', over=[dict(form=x, sch=s) for x in FORMS for s in ('named', 'staging', 'default')], expects=['checked'])
def external(h, form, sch):
    w, u = start(h, 'sqlite', [[[[1]]], [[]]], sch='first'); a = sym_name('staged'); u.staging.t.append((a, External('a')))
    S.EXT_FN['ObjectStoreScheme::parse'] = lambda it, a, c: Err(Opaque('no scheme'))
    n = Name(h, w, u, 'external', form, sch={'named': None, 'staging': 'staging', 'default': u.ctx.f['default_schema']}[sch] if form != 'bare' else None, quoted=True)
    if form == 'bare' and sch == 'staging': u.ctx.f['default_schema'] = u.inner.sch = 'staging'
    cmd = Struct('CreateExternalTable', {'name': n.ref(), 'location': '/data/file.parquet', 'file_type': 'PARQUET', 'options': Map('HashMap', []), 'if_not_exists': False})
    r = u.run(plan=Enum('LogicalPlan', 'Ddl', {'0': Enum('DdlStatement', 'CreateExternalTable', {'0': cmd})}))
    match(w, w.before, 'CREATE EXTERNAL TABLE changes the catalog'); ex = u.did('execute'); h.check(len(u.events) == len(ex), 'CREATE EXTERNAL TABLE touches table data')
    okname = (form == 'bare' or (sch == 'staging')) and (form != 'full' or same(h, n.cat, u.ctx.f['default_catalog']))
    if not okname: h.check(r.var == 'Err' and not ex, 'an external table is created outside of the staging schema', info=lambda m: {'statement': show_st(w, m)}); h.wit('checked'); return
    ok(h, r, 'CREATE EXTERNAL TABLE'); h.check(len(ex) == 1, 'the external table is not created once')
    c2 = deref(deref(deref(ex[0][1]).f['0']).f['0']); rr = S.SP.resolve(S.SP.parse_ref(h.it, c2.f['name']), u.inner.cat, u.inner.sch)
    h.check(band(eq(rr.f['catalog'], u.ctx.f['default_catalog']), eq(rr.f['schema'], 'staging'), eq(rr.f['table'], n.tab)), 'an external table is created under another name', info=lambda m: {'statement': show_st(w, m), 'created': [m(rr.f[k]) for k in ('catalog', 'schema', 'table')]})
    h.check(c2.f['location'] == '/data/file.parquet', 'an external table is created over another place'); h.wit('checked')

class Listing(Obj):
    def __init__(self, f): self.f = f
    def method_missing(self, it, n, a, c):
        if n.startswith('with_'): f = dict(self.f); f[n[5:]] = deref(a[0]) if a else True; return Listing(f)
        raise Unsupported(n)
    def m_clone(self, it, a, c): return self
    def m_infer_schema(self, it, a, c): S.log('infer', deref(a[1])); return Err(S.plan_err('cannot read the file')) if S.U().flip('inferring fails') else Ok(Opaque('inferred schema'))
    def m_scan(self, it, a, c): return Ok(S.Rows(self))
for _n in ('CsvFormat::default', 'ParquetFormat::default'): S.EXT_FN[_n] = lambda it, a, c, _n=_n: Listing({'format': _n})
S.EXT_FN['ListingOptions::new'] = lambda it, a, c: Listing({'format': deref(a[0])})
S.EXT_FN['ListingTableConfig::new'] = lambda it, a, c: Listing({'url': deref(a[0])})
S.EXT_FN['ListingTable::try_new'] = lambda it, a, c: Ok(deref(a[0]))
S.EXT_FN['TableParquetOptions::default'] = lambda it, a, c: Struct('TableParquetOptions', {'global': Struct('ParquetOptions', {'schema_force_view_types': True})})
@case('upload', over=slow([dict(fl=f, kind=k, schema=s, fa=y) for f in FL for k in ('csv', 'parquet', 'json') for s in (False, True) for y in (False, True)]), expects=['appended', 'created'])
def upload(h, fl, kind, schema, fa):
    it = h.it; w, u = start(h, fl, sch='first', faults=fa, shape=[[[[1], [1]], [[1]]], [[[1]]]]); s, t_ = sym_name('target schema'), sym_name('target table'); w.told += ['upload', s, t_]
    if fa: u.faults = ('all',)
    n = type('N', (), {})(); n.cat = u.ctx.f['default_catalog']; n.sch = s; n.tab = t_; n.triple = lambda: (n.cat, s, t_)
    given = Opaque('given schema'); hdr = h.flip('header')
    r = it.method(u.ctx, 'file_to_table', 'file:///x', kind, Some(given) if schema else NONE(), hdr, s, t_)
    if kind == 'json':
        h.check(r.var == 'Err' and not u.events, 'a file of unknown type is uploaded'); h.wit('appended'); h.wit('created'); return
    k = find_schema(h, w, n.cat, s); t = find(h, w, *n.triple())
    if u.failed():
        h.check(not u.did('delete', 'vacuum'), 'a failed upload deletes data')
        if r.var == 'Err':
            gone = [x for x in w.before.rows['table'] if w.by_id('table', x['id']) is None]; h.check(not gone, 'a failed upload removes a table')
            if t is not None: match(w, w.before, 'a failed upload changes the catalog')
            h.wit('failed'); return
        h.check(u.flips == 0 or t is None, 'a failed upload is reported as success')
    ok(h, r, 'an upload'); src = u.did('adds')[0][1].of
    h.check(src.f['url'].u == 'file:///x' and src.f['listing_options'].f['format'].f['format'] == {'csv': 'CsvFormat::default', 'parquet': 'ParquetFormat::default'}[kind], 'an upload reads another file or format', info=lambda m: {'f': repr(src.f)})
    if kind == 'csv': h.check(src.f['listing_options'].f['format'].f['has_header'] is hdr, 'an upload mistakes the header line of a CSV file')
    if t is not None: appended(h, w, u, t, src, 'an upload'); only_version(h, w, t, 'an upload'); h.check(not u.did('create', 'delete'), 'an upload creates a table that exists'); h.wit('appended'); return
    if k is None:
        nk = [x for x in w.rows('collection') if w.by_id('collection', x['id'], w.before) is None]; h.check(len(nk) == 1 and nk[0]['database_id'] == 1 and same(h, nk[0]['name'], s), 'an upload does not create the missing schema'); w.before.rows['collection'].append(dict(nk[0])); h.wit('new schema')
    t = created(h, w, u, r, n, 'an upload', extra=1)
    if t: appended(h, w, u, t, src, 'an upload')
@case('upload to staging', expects=['refused'])
def upload_staging(h):
    w, u = start(h, 'sqlite', [[[[1]]], []], sch='first'); r = h.it.method(u.ctx, 'file_to_table', 'file:///x', 'csv', NONE(), True, 'staging', sym_name('target'))
    h.check(r.var == 'Err', 'an upload to the staging schema succeeds'); match(w, w.before, 'an upload to the staging schema changes the catalog'); h.check(not u.did('create', 'commit', 'adds') and not u.staging.t, 'an upload writes to the staging schema'); h.wit('refused')
