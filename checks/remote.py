"""Remote tables: the scan of a table in another database, down to the SQL text sent and the rows handed back."""
from engine.harness import *
from engine import ext_df as D, ext_batch as B, ext_arrow as AR
from engine.interp import METHODS, EXT_FN
from checks.sqlparse import *
from checks.dml import PE, Row, Plan, DFS, bad, caste
import z3
KINDS = {'Postgres': 'postgresql://u:p@host:5432/db', 'SQLite': 'sqlite:///tmp/x.db', 'MySQL': 'mysql://u:p@host:3306/db'}
class Conn(Obj):
    tname = 'SourceConn'
    def __init__(self, ty, url): self.ty = ty; self.url = url; self.proto = 'binary'
    @property
    def f(self): return {'ty': Enum('SourceType', self.ty)}
    def m_clone(self, it, a, c): return self
    def m_set_protocol(self, it, a, c): self.proto = deref(a[0]); return UNIT
    def debug_(self, it): return 'conn'
class Query(Obj):
    tname = 'CXQuery'
    def __init__(self, text): self.text = text
    def m_clone(self, it, a, c): return self
    def m_to_string(self, it, a, c): return self.text
    m_as_str = m_to_string
class Dest(Obj):
    tname = 'ArrowDestination'
    def __init__(self, schema, rows): self.schema = schema; self.rows = rows
    def m_arrow_schema(self, it, a, c): return self.schema
    def m_arrow(self, it, a, c):
        if U().fault('reading the fetched rows'): return Err(Opaque('ArrowDestinationError'))
        return Ok(Vec([self]))
class Remote:
    """the remote database: one table, its columns, rows and what it was asked"""
    def __init__(self, h, kind, cols, rows, name):
        self.h = h; self.kind = kind; self.cols = cols; self.rows = rows; self.name = name; self.asked = []; self.faults = False; self.failed = False
    def fault(self, what):
        if not self.faults or self.failed: return False
        self.failed = self.h.flip(what + ' fails'); return self.failed
    def run(self, text):
        q = split(text, DIALECTS.get(self.kind, PG)); self.asked.append(q)
        cols = list(range(len(self.cols))) if q.cols == '*' else []
        if q.cols != '*':
            for x in q.cols:
                if x[0] == 'num': cols.append(None); continue
                i = next((k for k, f in enumerate(self.cols) if Ctx.cur.branch(eqname(x[1], f.name))), None)
                if i is None: raise Bad('a column the remote table does not have')
                cols.append(i)
        s = B.Schema([self.cols[i] if i is not None else B.Field('?column?', AR.dt('Int32'), True) for i in cols])
        return Dest(s, [Row(r.rid, [r.cells[i] if i is not None else z3.IntVal(1) for i in cols], r.p, r.e, r.guard) for r in self.rows])
def eqname(chars, name):
    from engine.symchars import seq_eq
    return seq_eq(chars, cl(name))
def U(): return Ctx.cur.user['remote']
class Q: pass
def split(text, d):
    """SELECT columns FROM <the table's name> [WHERE expression] [LIMIT n]"""
    a = atoms(text); mark = [i for i, x in enumerate(a) if type(x) is OpaquePiece and x.v == 'table name']
    if len(mark) != 1: raise Bad('the table is not named once')
    pre = tokenise(mktext_(a[:mark[0]]), d); post = tokenise(mktext_(a[mark[0] + 1:]), d)
    if not pre or (pre[0].k, pre[0].v) != ('kw', 'SELECT') or (pre[-1].k, pre[-1].v) != ('kw', 'FROM'): raise Bad('not of the form SELECT .. FROM table')
    q = Q(); mid = pre[1:-1]; q.where = None; q.limit = None
    if len(mid) == 1 and mid[0].k == 'op' and mid[0].v == 'Multiply': q.cols = '*'
    else:
        q.cols = []
        if not mid: raise Bad('an empty select list')
        for i, t in enumerate(mid):
            if i % 2:
                if t.k != ',': raise Bad(f'{t} in the select list')
            elif t.k == 'id': q.cols.append(('id', t.v))
            elif t.k == 'num': q.cols.append(('num', t.v))
            else: raise Bad(f'{t} in the select list')
        if len(mid) % 2 == 0: raise Bad('a comma at the end of the select list')
    i = 0; lim = next((k for k, t in enumerate(post) if t.k == 'kw' and t.v == 'LIMIT'), None)
    if lim is not None:
        if len(post) != lim + 2 or post[lim + 1].k != 'num': raise Bad('LIMIT is not the last clause, or not one number')
        q.limit = post[lim + 1].v; post = post[:lim]
    if post:
        if (post[0].k, post[0].v) != ('kw', 'WHERE'): raise Bad(f'{post[0]} after the table')
        q.where = Parser(post[1:], d).parse()
    return q
def mktext_(ps): return Text(list(ps))
def conn_of(it, a, c):
    s = deref(a[0]); k = next((k for k, u in KINDS.items() if u == s), None)
    if k is None: return Err(Opaque('ConnectorXError'))
    Ctx.cur.user['conn'] = Conn(k, s); return Ok(Ctx.cur.user['conn'])
EXT_FN['SourceConn::try_from'] = conn_of
EXT_FN['CXQuery::from'] = EXT_FN['CXQuery::naked'] = lambda it, a, c: Query(it.to_text(a[0]))
def get_arrow(it, a, c):
    qs = [deref(x) for x in deref(a[2]).a]
    if len(qs) != 1: raise Unsupported('several remote queries')
    if U().fault('the remote query'): return Err(Opaque('ConnectorXError'))
    try: return Ok(U().run(qs[0].text))
    except Bad as b: U().h.fail(f'the SQL sent is not understood by the remote database: {b}', key='remote SQL', info=lambda m: {'sql': m(qs[0].text) if type(qs[0].text) is Text else qs[0].text, 'dialect': U().kind})
EXT_FN['get_arrow'] = get_arrow
def memexec(it, a, c):
    parts = [[deref(b) for b in B.it_list(it, p)] for p in B.it_list(it, a[0])]; s = deref(a[1])
    p = deref(a[2])
    rows = [r for x in parts for b in x for r in b.rows]
    if p.var == 'Some':
        idx = [i.v for i in deref(p.f['0']).a]; return Ok(Plan([r.copy(cells=[r.cells[i] for i in idx]) for r in rows], B.Schema([s.fields[i] for i in idx])))
    return Ok(Plan(rows, s))
def pcol(it, a, c):
    s = deref(a[1])
    for i, f in enumerate(s.fields):
        if Ctx.cur.branch(eq(f.name, deref(a[0]))):
            p = PE((lambda i: lambda r: r.cells[i] if i < len(r.cells) else Ctx.cur.user['remote'].h.fail('a column past the fetched ones is read'))(i), f.ty); p.idx = i; return Ok(p)
    return bad('no such field')
def cast(it, a, c):
    x, s, t = deref(a[0]), deref(a[1]), deref(a[2])
    if not hasattr(x, 'idx'): raise Unsupported('cast of an expression')
    if x.idx >= len(s.fields): return bad('no such column')
    ty = s.fields[x.idx].ty
    return Ok(x if Ctx.cur.branch(eq(ty, t)) else PE(lambda r: caste(x.ev(r), t), t))
def install():
    EXT_FN['MemoryExec::try_new'] = memexec; EXT_FN['col'] = EXT_FN['expressions::col'] = pcol; EXT_FN['cast'] = EXT_FN['expressions::cast'] = cast
    EXT_FN['Column::new_with_schema'] = EXT_FN['expressions::Column::new_with_schema'] = pcol
install()
B.Schema.m_project = lambda self, it, a, c: Ok(B.Schema([self.fields[i] for i in [x.v for x in deref(a[0]).a]])) if all(x.v < len(self.fields) for x in deref(a[0]).a) else Err(Enum('ArrowError', 'SchemaError', {'0': 'project index out of bounds'}))
NAME = lambda: Text([OpaquePiece('table name')])
def table(h, kind, declared, remote_cols, rows=(), url=None):
    """the remote database and a RemoteTable over it made the way CREATE EXTERNAL TABLE makes it"""
    r = Remote(h, kind, remote_cols, list(rows), 'table name'); Ctx.cur.user['remote'] = r
    cmd = Struct('CreateExternalTable', {'location': url or KINDS[kind], 'options': Map('HashMap', [('format.name', NAME())]), 'schema': DFS(None, B.Schema(declared))})
    it = h.it
    t = it.await_(it.call_method(it.mk('RemoteTableFactory'), 'create', [Opaque('session'), cmd]))
    return r, t
