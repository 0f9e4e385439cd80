"""Catalog databases: bounded arbitrary contents, the repository over them, and what each operation should do."""
from engine.harness import *
from engine import ext_sqlx as X, symchars as SC
from engine.stdlib import Uuid
REPOS = {'sqlite': 'SqliteRepository', 'postgres': 'PostgresRepository'}

def sym_name(n, alphabet='abAB', k=1):
    """a one-letter symbolic name"""
    t = SC.symtext(n, k)
    for ch in SC.cl(t):
        c = SC.code(ch)
        if is_sym(c): Ctx.cur.add(z3.Or(*[c == ord(x) for x in alphabet]))
    return t
def distinct(h, names):
    for i in range(len(names)):
        for j in range(i): h.assume(bnot(eq(names[i], names[j])))

class World:
    """shape: {db: [coll: [table: [number of columns per version]]]} as nested lists"""
    def __init__(self, h, flavour, shape, columns=True, order=None, dropped=0, functions=(), uuids=None):
        self.h = h; it = h.it; self.it = it; self.pg = flavour == 'postgres'
        self.db = d = X.Db(REPO, self.pg); r = d.rows
        ids = iter(order or range(1, 100)); self.tables = []; tids = iter([3, 1, 7, 4, 6, 9]); vs = []
        dn = [sym_name(f'database {i}') for i in range(len(shape))]; distinct(h, dn)
        cid = iter([2, 5, 3, 8]); prev = None
        for i, colls in enumerate(shape):
            r['database'].append({'id': i + 1, 'name': dn[i]})
            cn = [sym_name(f'schema {i}.{j}') for j in range(len(colls))]; distinct(h, cn)
            for j, tabs in enumerate(colls):
                c = next(cid); r['collection'].append({'id': c, 'database_id': i + 1, 'name': cn[j]})
                tn = [sym_name(f'table {i}.{j}.{k}') for k in range(len(tabs))]; distinct(h, tn)
                for k, vers in enumerate(tabs):
                    t = next(tids); r['table'].append({'id': t, 'collection_id': c, 'name': tn[k], 'uuid': Uuid(1000 + t)})
                    for v in vers: vs.append((t, v))
        # versions of different tables interleave: round-robin over tables
        seen = {}; rounds = []
        for t, v in vs: seen[t] = seen.get(t, 0) + 1; rounds.append((seen[t], t, v))
        rounds.sort(key=lambda x: x[0])
        colid = 1
        for n, (rnd, t, ncol) in enumerate(rounds):
            ct = h.int(f'created {n}', 'i64', 0, 2**40)
            if prev is not None: h.assume(ct.v >= prev)
            prev = ct.v; vid = next(ids)
            r['table_version'].append({'id': vid, 'table_id': t, 'creation_time': ct.v, 'version': h.int(f'delta version {n}', 'i64').v})
            cols = [sym_name(f'column {n}.{m}', 'xy') for m in range(ncol)]; distinct(h, cols)
            for m in range(ncol): r['table_column'].append({'id': colid, 'table_version_id': vid, 'name': cols[m], 'type': h.str(f'type {n}.{m}')}); colid += 1
        for n in range(dropped):
            r['dropped_table'].append({'database_name': sym_name(f'dropped db {n}'), 'collection_name': sym_name(f'dropped schema {n}'), 'table_name': sym_name(f'dropped name {n}'), 'uuid': Uuid(2000 + n), 'deletion_status': h.pick(['PENDING', 'RETRY', 'FAILED'], f'status {n}'), 'drop_time': h.int(f'drop time {n}', 'i64', 0, 2**40).v})
        fid = 1
        for i, nf in enumerate(functions):
            fn = [sym_name(f'function {i}.{j}', 'fg') for j in range(nf)]; distinct(h, fn)
            for j in range(nf):
                r['function'].append({'id': fid, 'database_id': i + 1, 'name': fn[j], **{k: h.str(f'{k} {i}.{j}') for k in ('entrypoint', 'language', 'input_types', 'return_type', 'data', 'volatility')}}); fid += 1
        def now():
            h.ctx.user['clock'] = h.ctx.user.get('clock', 0) + 1
            ct = h.int(f"now {h.ctx.user['clock']}", 'i64', 0, 2**41)
            old = [x['creation_time'] for x in d.rows['table_version']]
            for o in old: h.assume(ct.v >= o)
            return ct.v
        d.now = now
        if self.pg:
            for n, t in d.s.items():
                if t.pk: d.seq[n] = max([x[t.pk] for x in r[n]] + [0])
        self.before = d.copy(); self.faults = False; self.flips = 0
        self.pool = X.Pool(d, self.fail)
        f = {'executor': self.pool}
        if self.pg: f['schema_name'] = 'public'
        self.repo = it.mk(REPOS[flavour], **f)
    def fail(self, what):
        if not self.faults or self.flips >= 1: return False
        if self.h.flip(f'{what} fails'): self.flips += 1; return True
        return False
    def call(self, op, *args):
        return self.it.await_(self.it.call_method(self.repo, op, list(args)))
    # ---- looking at the contents
    def rows(self, t, db=None): return (db or self.db).rows[t]
    def by_id(self, t, i, db=None): return next((x for x in self.rows(t, db) if x['id'] == i), None)
    def snap(self, db):
        return {n: sorted(([repr(sorted(r.items(), key=lambda kv: kv[0])) for r in rs])) for n, rs in db.rows.items()}
    def same(self, a, b):
        """two database states hold the same records"""
        for n in a.rows:
            x, y = a.rows[n], b.rows[n]
            if len(x) != len(y): return False
            pk = a.s[n].pk; cs = []
            for i, r in enumerate(x):
                if pk: o = [q for q in y if q[pk] == r[pk]]
                else: o = [y[i]]
                if len(o) != 1: return False
                cs += [samev(r[c], o[0][c]) for c in r]
            if any(self.h.ctx.possible(bnot(c)) if is_sym(c) else not c for c in cs): return False
        return True
    def unchanged(self, why):
        self.h.check(self.same(self.before, self.db) and not self.pool.open_dirty() if hasattr(self.pool, 'open_dirty') else self.same(self.before, self.db), f'a failed operation leaves a change behind ({why})', info=lambda m: {'before': show(self.before, m), 'after': show(self.db, m)}, key='a failed operation leaves a change behind')
def samev(a, b):
    if a is None or b is None: return a is None and b is None
    if isinstance(a, Opaque) or isinstance(b, Opaque): return a is b
    return X.veq(a, b)
def show(db, m): return {n: [{k: (m(v) if not isinstance(v, (int, type(None), Uuid)) else repr(v) if not isinstance(v, Uuid) else v.n) for k, v in r.items()} for r in rs] for n, rs in db.rows.items() if rs}

class As(Obj):
    """a store seen through one of its traits (the traits share method names)"""
    def __init__(self, v, trait): self.v = v; self.trait = trait
    def fn(self, n):
        td = self.v.ty; cs = [f for f in td.assoc.get(n, ()) if f.trait == self.trait]
        if not cs: raise Unsupported(f'{self.trait}::{n}')
        return cs[0]
    def method_missing(self, it, n, a, c): return it.call_def(self.fn(n), [self.v] + list(a), c)
    def m_clone(self, it, a, c): return self
STORES = {'catalogs': 'CatalogStore', 'schemas': 'SchemaStore', 'tables': 'TableStore', 'functions': 'FunctionStore'}
def store(w):
    return w.it.mk('RepositoryStore', repository=w.repo)
def view(w, kind): return As(store(w), STORES[kind])
def via(w, kind, op, *args):
    v = view(w, kind); return w.it.await_(w.it.call_def(v.fn(op), [v.v] + list(args)))
def metastore(w, **f):
    s = store(w)
    return w.it.mk('Metastore', **{k: As(s, t) for k, t in STORES.items()}, **f)
