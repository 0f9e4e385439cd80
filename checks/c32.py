"""C32: the Postgres wire protocol shows the rows of the statement it was sent."""
from engine.harness import *
from engine import ext_batch as B, ext_arrow as AR
from engine.interp import METHODS, EXT_FN
from engine import stdlib
from engine.symchars import symtext
import z3
NATIVE = None
BOUNDS = 'one statement (its text any two characters), results of up to 3 batches of up to 2 rows, portals fetched once or twice; planning, executing or encoding failing at any point'
ASSUMPTIONS = ['SeafowlContext plans and executes statements as C02, C13, C14, C25 and C26 decide', 'a Statement displays as the text it was parsed from']
MODELS = 'convergence (Engine, Portal, DataRowBatch, ErrorResponse), convergence-arrow record_batch_to_rows and schema_to_field_desc'
def U(): return Ctx.cur.user['pg']
class W:
    def __init__(self, h, batches): self.h = h; self.batches = batches; self.log = []; self.failed = None; self.n = 0
    def fail(self, what):
        if self.failed: return False
        if self.h.flip(what + ' fails'): self.failed = what; return True
        return False
class Stmt(Obj):
    tname = 'Statement'
    def __init__(self, t): self.t = t
    def display_(self, it): return self.t
    def m_to_string(self, it, a, c): return self.t
    def m_clone(self, it, a, c): return self
class Ctxt(Obj):
    tname = 'SeafowlContext'
    def m_clone(self, it, a, c): return self
    def err(self, what): return Err(Enum('DataFusionError', 'Execution', {'0': what}))
    def m_create_logical_plan(self, it, a, c):
        def go():
            U().log.append(('plan', deref(a[0])))
            return self.err('planning') if U().fail('planning') else Ok(Obj_(kind='logical'))
        return stdlib.Future(go)
    def m_plan_query(self, it, a, c):
        def go():
            U().log.append(('run', deref(a[0])))
            return self.err('planning') if U().fail('planning') else Ok(Obj_(kind='physical'))
        return stdlib.Future(go)
    def m_collect(self, it, a, c):
        def go():
            U().log.append(('collect', deref(a[0]).kind))
            return self.err('executing') if U().fail('executing') else Ok(Vec([Bt(b) for b in U().batches]))
        return stdlib.Future(go)
class Obj_(Obj):
    def __init__(self, kind): self.kind = kind
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return B.Schema([B.Field('a', AR.dt('Int64'), True), B.Field('b', AR.dt('Utf8'), True)])
class Bt(Obj):
    tname = 'RecordBatch'
    def __init__(self, rows): self.rows = rows
    def m_num_rows(self, it, a, c): return Int(len(self.rows), 'usize')
    def m_clone(self, it, a, c): return self
class Out(Obj):
    tname = 'DataRowBatch'
    def __init__(self): self.rows = []
class PgErr(Obj):
    tname = 'ErrorResponse'
    def __init__(self, state, msg): self.state = state; self.msg = msg
def to_rows(it, a, c):
    if U().fail('encoding'): return Err(PgErr('other', 'encoding'))
    deref(a[1]).rows += deref(a[0]).rows; return Ok(UNIT())
def desc(it, a, c):
    s = deref(a[0])
    return Err(PgErr('other', 'describing')) if U().fail('describing') else Ok(Vec([(f.name, f.ty) for f in s.fields]))
EXT_FN['record_batch_to_rows'] = EXT_FN['table::record_batch_to_rows'] = to_rows
EXT_FN['schema_to_field_desc'] = EXT_FN['table::schema_to_field_desc'] = desc
def pgerr(it, a, c): return PgErr(deref(a[0]).var, it.to_text(a[1]))
EXT_FN['ErrorResponse::error'] = EXT_FN['protocol::ErrorResponse::error'] = pgerr
B.Schema.m_into = lambda self, it, a, c: self
def nrows(h):
    n = h.int('rows', 'usize', 0, 2).v; k = 0
    while h.ctx.branch(n > k): k += 1
    return k
def setup(h, shape):
    h.it.overrides = {}; w = W(h, [[h.ctx.fresh('row') for _ in range(nrows(h))] for _ in range(shape)]); h.ctx.user['pg'] = w
    e = h.it.mk('SeafowlConvergenceEngine', context=Ctxt()); return w, e, Stmt(symtext('statement', 2))
def refused(h, r, w):
    x = deref(r.f['0']); h.check(isinstance(x, PgErr), 'a failure is not reported as an error of the protocol')
    if w.failed in ('planning', 'executing'): h.check(x.state == 'DataException' and w.failed in str(h.it.to_text(x.msg)), 'an error of the query engine is reported without its message or as another kind of error', key='error', info=lambda m: {'state': x.state})
def same(a, b): return len(a) == len(b) and band(*[mkbool(x == y) for x, y in zip(a, b)])
SHAPES = {'none': 0, 'one': 1, 'two': 2, 'three': 3}
@case('rows', over=[dict(shape=s) for s in SHAPES], expects=['read', 'failed'])
def rows(h, shape):
    w, e, st = setup(h, SHAPES[shape]); it = h.it
    r = it.await_(it.call_method(e, 'create_portal', [st]))
    if w.failed: h.check(r.var == 'Err', 'a statement that cannot be planned gets a portal'); refused(h, r, w); h.wit('failed'); return
    h.check(r.var == 'Ok', 'a statement gets no portal'); p = r.f['0']
    h.check([x[0] for x in w.log] == ['run'] and eq(w.log[0][1], st.t), 'a portal runs another statement than the one sent, or runs it more than once', key='statement')
    out = Out(); f = it.await_(it.call_method(p, 'fetch', [out]))
    if w.failed: h.check(f.var == 'Err', 'a failed query is reported as complete'); refused(h, f, w); h.wit('failed'); return
    h.check(f.var == 'Ok' and same(out.rows, [x for b in w.batches for x in b]), 'the rows sent are not the rows of the result in order', key='rows', info=lambda m: {'sent': [m(x) for x in out.rows]})
    h.check([x[0] for x in w.log] == ['run', 'collect'] and w.log[1][1] == 'physical', 'a query is executed more than once', key='statement'); h.wit('read')
@case('description', expects=['read', 'failed'])
def description(h):
    w, e, st = setup(h, 0); it = h.it
    r = it.await_(it.call_method(e, 'prepare', [st]))
    h.check([x[0] for x in w.log] == ['plan'] and eq(w.log[0][1], st.t), 'preparing a statement runs it, or plans another', key='statement')
    if w.failed: h.check(r.var == 'Err', 'a statement that cannot be planned is prepared'); refused(h, r, w); h.wit('failed'); return
    h.check(r.var == 'Ok' and [x[0] for x in deref(r.f['0']).a] == ['a', 'b'] and eq(deref(r.f['0']).a[0][1], AR.dt('Int64')) and eq(deref(r.f['0']).a[1][1], AR.dt('Utf8')), 'the columns described are not those of the plan', key='columns'); h.wit('read')
