"""The HTTP front end around a scripted query context: shared by C02, C03 and C28."""
from engine.harness import *
from engine import ext_http as HT, ext_warp as W
from engine.ext_warp import Req, F
from engine.interp import EXT_FN, METHODS, MACROS, OpaquePiece, EXT_STRUCT
from engine import ext_plan as PL
from checks.c01 import policy, oracle, MODES
HTTP = 'seafowl::frontend::http::'
DB = 'default'

class Bag(Obj):
    """a value only its identity matters of"""
    def __init__(self, name, **f): self.tname = name; self.f = f
    def __repr__(self): return f'<{self.tname} {self.f}>'
    def display_(self, it): return Text([OpaquePiece(self)])
    debug_ = display_
    def m_clone(self, it, a, c): return self
    def method_missing(self, it, name, a, c):
        if name in self.f and not a: return self.f[name]
        raise Unsupported(f'method {name} on {self.tname}')
    def eq_(self, o): return self is o

def failure(h, w, what):
    """a DataFusion error of any kind, at most one per request"""
    if w.err is None and w.can_fail and h.flip(what + ' fails'):
        w.err = Enum('DataFusionError', h.pick(['Plan', 'Execution', 'Internal', 'ResourcesExhausted'], 'kind of error') if w.kinds else 'Plan', {'0': Text([OpaquePiece(Bag('message of ' + what))])}); w.failed = what
        return True
    return False

class World:
    def __init__(self, h, stmts): self.h = h; self.stmts = stmts; self.events = []; self.err = None; self.failed = None; self.can_fail = True; self.kinds = False; self.sql = None; self.catalogs = []

# ------------------------------------------------------------------ statements and plans
def sql(kind, var, **f): return Enum('Statement', 'Statement', {'0': Enum('Statement', var, f)})
def select(into=False): return Enum('SetExpr', 'Select', {'0': Struct('Select', {'into': Some(Bag('SelectInto')) if into else NONE(), 'projection': Vec([]), 'from': Vec([])})})
def query(body): return Struct('Query', {'body': body, 'with': NONE(), 'order_by': NONE(), 'limit': NONE(), 'offset': NONE(), 'fetch': NONE(), 'locks': Vec([])})
def nested(body, n):
    for _ in range(n): body = Enum('SetExpr', 'Query', {'0': query(body)})
    return body
def setop(l, r): return Enum('SetExpr', 'SetOperation', {'op': Enum('SetOperator', 'Union'), 'set_quantifier': Enum('SetQuantifier', 'All'), 'left': l, 'right': r})
def explain(analyze, s): return Enum('Statement', 'Explain', {'describe_alias': Enum('DescribeAlias', 'Explain'), 'analyze': analyze, 'verbose': False, 'query_plan': False, 'statement': s, 'format': NONE(), 'options': NONE()})
Q = lambda body: Enum('Statement', 'Query', {'0': query(body)})
ST = lambda var, **f: Enum('Statement', var, f)
DF = lambda s: Enum('Statement', 'Statement', {'0': s})
# name -> (statement, does it change anything, is it a read-only query, its plan)
def kinds():
    ins = lambda: ST('Insert', **{'0': Struct('Insert', {})})
    K = {}
    def add(n, s, effect, read, plan): K[n] = (s, effect, read, plan)
    add('SELECT', lambda: DF(Q(select())), False, True, 'Projection')
    add('(SELECT)', lambda: DF(Q(nested(select(), 1))), False, True, 'Projection')
    add('SELECT UNION SELECT', lambda: DF(Q(setop(select(), select()))), False, True, 'Union')
    add('VALUES', lambda: DF(Q(Enum('SetExpr', 'Values', {'0': Struct('Values', {'explicit_row': False, 'rows': Vec([])})}))), False, True, 'Values')
    add('SELECT INTO', lambda: DF(Q(select(True))), True, False, 'Ddl')
    add('(SELECT INTO)', lambda: DF(Q(nested(select(True), 1))), True, False, 'Ddl')
    add('((SELECT INTO))', lambda: DF(Q(nested(select(True), 2))), True, False, 'Ddl')
    add('EXPLAIN SELECT', lambda: DF(explain(False, Q(select()))), False, True, 'Explain')
    add('EXPLAIN INSERT', lambda: DF(explain(False, ins())), False, True, 'Explain')
    add('EXPLAIN ANALYZE SELECT', lambda: DF(explain(True, Q(select()))), False, True, 'Analyze')
    add('EXPLAIN ANALYZE INSERT', lambda: DF(explain(True, ins())), True, False, 'Analyze')
    add('EXPLAIN ANALYZE SELECT INTO', lambda: DF(explain(True, Q(select(True)))), True, False, 'Analyze')
    add('EXPLAIN ANALYZE CREATE TABLE', lambda: DF(explain(True, ST('CreateTable', **{'0': Struct('CreateTable', {'query': NONE()})}))), True, False, 'Analyze')
    add('SHOW TABLES', lambda: DF(ST('ShowTables')), False, True, 'Projection')
    add('SHOW COLUMNS', lambda: DF(ST('ShowColumns')), False, None, 'Projection')
    add('DESCRIBE', lambda: DF(ST('ExplainTable')), False, None, 'DescribeTable')
    add('SHOW', lambda: DF(ST('ShowVariable', variable=Vec([]))), False, None, 'Projection')
    add('INSERT', lambda: DF(ins()), True, False, 'Dml')
    add('UPDATE', lambda: DF(ST('Update')), True, False, 'Dml')
    add('DELETE', lambda: DF(ST('Delete', **{'0': Struct('Delete', {})})), True, False, 'Dml')
    add('CREATE TABLE', lambda: DF(ST('CreateTable', **{'0': Struct('CreateTable', {'query': NONE()})})), True, False, 'Extension')
    add('CREATE TABLE AS', lambda: DF(ST('CreateTable', **{'0': Struct('CreateTable', {'query': Some(query(select()))})})), True, False, 'Ddl')
    add('CREATE SCHEMA', lambda: DF(ST('CreateSchema')), True, False, 'Ddl')
    add('CREATE DATABASE', lambda: DF(ST('CreateDatabase')), True, False, 'Ddl')
    add('CREATE VIEW', lambda: DF(ST('CreateView')), True, False, 'Ddl')
    add('CREATE FUNCTION', lambda: DF(ST('CreateFunction', **{'0': Struct('CreateFunction', {})})), True, False, 'Extension')
    add('DROP', lambda: DF(ST('Drop')), True, False, 'Ddl')
    add('DROP FUNCTION', lambda: DF(ST('DropFunction')), True, False, 'Extension')
    add('ALTER TABLE', lambda: DF(ST('AlterTable')), True, False, 'Extension')
    add('TRUNCATE / VACUUM', lambda: DF(ST('Truncate', table=True)), True, False, 'Extension')
    add('CREATE EXTERNAL TABLE', lambda: Enum('Statement', 'CreateExternalTable', {'0': Bag('CreateExternalTable')}), True, False, 'Ddl')
    add('COPY TO / CONVERT', lambda: Enum('Statement', 'CopyTo', {'0': Bag('CopyTo')}), True, False, 'Copy')
    return K
KINDS = kinds()
def plan_of(kind, i, scans=()): 
    return PL.node(kind, scans)

class Phys(Bag):
    def m_schema(self, it, a, c): return Bag('Schema', of=self)

def cat(a): return deref(deref(a[0]).f['default_catalog'])
def parse(it, a, c):
    w = Ctx.cur.user['w']; h = w.h
    q = deref(a[1]); w.sql = q; w.events.append(('parse', cat(a), q))
    if failure(h, w, 'parsing'): return Err(w.err)
    for i, (_, s) in enumerate(w.stmts): s.f['_i'] = i
    return Ok(Vec([s for _, s in w.stmts]))
def logical(it, a, c):
    w = Ctx.cur.user['w']; h = w.h
    i = deref(a[1]).f['_i']; w.events.append(('plan', cat(a), i))
    if failure(h, w, f'planning statement {i}'): return Err(w.err)
    p = w.plan(i); p.f['_i'] = i; return Ok(p)
def physical(it, a, c):
    w = Ctx.cur.user['w']; h = w.h
    p = deref(a[1]); i = p.f['_i']; w.events.append(('run', cat(a), i))
    if failure(h, w, f'running statement {i}'): return Err(w.err)
    ph = Phys('Phys', i=i); return Ok(ph)
def stream(it, a, c):
    w = Ctx.cur.user['w']; h = w.h
    p = deref(a[1]); w.events.append(('stream', cat(a), p.f['i']))
    if failure(h, w, 'starting the stream'): return Err(w.err)
    return Ok(Iter(w.rows(p.f['i']), stream=True))
def scope(it, a, c):
    w = Ctx.cur.user['w']; h = w.h
    x = deref(a[0]); return Struct(x.ty, dict(x.f, default_catalog=deref(a[1]), default_schema='public'))
def upload(it, a, c):
    w = Ctx.cur.user['w']; h = w.h
    w.events.append(('upload', cat(a), [deref(x) for x in a[1:]]))
    if failure(h, w, 'the upload'): return Err(w.err)
    return Ok(Bag('DeltaTable', version=Int(7, 'i64')))
def setup(h, w):
    """override what lies behind the HTTP layer"""
    it = h.it; h.ctx.user['w'] = w; h.ctx.user['parse_as'] = lambda s: Ok(HT.HeaderVal(s))
    o = it.overrides
    w.plans = {}
    w.keep = []
    w.plan = getattr(w, 'plan', None) or (lambda i: plan_of(KINDS[w.stmts[i][0]][3], i))
    w.rows = getattr(w, 'rows', None) or (lambda i: [Ok(Bag('RecordBatch', i=i))])
    o['SeafowlContext::parse_query'] = parse; o['SeafowlContext::create_logical_plan_from_statement'] = logical
    o['SeafowlContext::create_physical_plan'] = physical; o['SeafowlContext::execute_stream'] = stream
    o['SeafowlContext::scope_to_catalog'] = scope; o['SeafowlContext::file_to_table'] = upload
    d = it.find_type('SeafowlContext')
    return Struct(d, {'default_catalog': DB, 'default_schema': 'public', 'inner': Bag('SessionContext'), 'config': Bag('SeafowlConfig', frontend=Bag('Frontend', flight=getattr(w, 'flight', NONE()))), 'metastore': Bag('Metastore'), 'internal_object_store': NONE()})

def server(h, ctx, rm, wm):
    """the whole warp filter under a policy"""
    it = h.it
    from checks.c01 import setting
    r, rh = setting(h, rm, 'read_pw'); w, wh = setting(h, wm, 'write_pw')
    cfg = Struct(it.find_type('HttpFrontend'), {'bind_host': 'localhost', 'bind_port': Int(8080, 'u16'), 'read_access': r, 'write_access': w, 'upload_data_max_length': Int(256, 'u64'), 'cache_control': 'CACHE'})
    f = deref(it.call_fn(HTTP + 'filters', ctx, cfg))
    return f, rh, wh

class JsonLine(Bag): pass
class Writer(Obj):
    def __init__(self, buf): self.buf = buf
    def m_write(self, it, a, c):
        w = Ctx.cur.user['w']; b = deref(a[0])
        deref(self.buf).a.append(('json', b)); return Ok(UNIT())
    def m_finish(self, it, a, c): return Ok(UNIT())
class WB(Obj):
    def method_missing(self, it, name, a, c):
        if name == 'build': return Writer(a[0])
        return self
EXT_FN['WriterBuilder::new'] = EXT_FN['WriterBuilder::default'] = lambda it, a, c: WB()
EXT_FN['Instant::now'] = lambda it, a, c: Clock()
def connect(it, a, c):
    w = Ctx.cur.user['w']
    if w.h.flip('Flight does not answer'): w.failed = 'Flight'; return Err(Bag('Status'))
    return Ok(Bag('FlightServiceClient'))
EXT_FN['FlightServiceClient::connect'] = connect
class Clock(Obj):
    def m_elapsed(self, it, a, c): return Clock()
    def m_as_millis(self, it, a, c): return Int(7, 'u128')

def allowed(h, hd, rm, wm, rh, wh):
    """(read, write, turned away) of a request with this Authorization header (None: no header)"""
    if hd is None: tok = None
    else:
        e = strterm(hd)
        if not h.ctx.branch(z3.PrefixOf(z3.StringVal('Bearer '), e)): return False, False, True
        tok = SymStr(z3.SubString(e, 7, z3.Length(e) - 7))
    r, w, rej, _, _ = oracle(h, tok, rm, wm, rh, wh)
    return r, w, rej
def yes(h, b): return b if isinstance(b, bool) else h.ctx.branch(b)
def status(r): return deref(r.status).n
EXT_FN['serde_json::to_string'] = lambda it, a, c: Ok(Text([OpaquePiece(deref(a[0]))]))
