"""DELETE and UPDATE over tables of symbolic rows: predicates and assigned values are arbitrary functions of the row."""
from checks.cat import *
from checks import session as S
from checks.session import Use, U, bare, partial, full, log, Delta, Snap, State, LogStore
from engine import ext_batch as B, ext_df as DF, ext_arrow as AR
from engine.ext_df import E
from engine.interp import METHODS, EXT_FN
import z3
BOUNDS = 'a table of up to 3 files and 5 rows with up to 2 columns (thorough: 7 rows, 3 columns); any truth value (true, false, NULL) of the predicate per row, any assigned values, any pruning verdict that is sound for the file; at most one failing step'
ASSUMPTIONS = ['DataFusion plans DELETE as Dml(Filter(TableScan)) and UPDATE as Dml(Projection(Filter(TableScan))) with one expression per column of the table in order (SqlToRel)',
    'SimplifyExpressions keeps the value of a predicate on every row; any other optimizer rule may replace the input of the statement by any plan with the same rows',
    'PruningPredicate says that a file need not be kept only if no row of it makes the predicate true; TableProvider::scan may leave out any row that does not match the filters it is given',
    'FilterExec keeps the rows for which its predicate is true, ProjectionExec evaluates its expressions per row, CASE WHEN takes the branch when the condition is true, CAST is a function of the value',
    'plan_to_delta_adds writes exactly the rows of its plan (C15)', 'no concurrent writer (delta-rs detects conflicting commits)']
MODELS = 'DataFusion physical expressions, FilterExec, ProjectionExec and PruningPredicate; delta-rs DeltaTable and DeltaTableProvider; sqlx and the catalog database as in C29'
mk = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
class Row:
    def __init__(self, rid, cells, p, e, guard=True): self.rid = rid; self.cells = cells; self.p = p; self.e = e; self.guard = guard
    def copy(self, cells=None, guard=None): return Row(self.rid, self.cells if cells is None else cells, self.p, self.e, self.guard if guard is None else guard)
    def true(self): return band(self.p[0], self.p[1])
class PE(Obj):
    """a physical expression: a function of the row"""
    tname = 'PhysicalExpr'
    def __init__(self, ev, ty): self.ev = ev; self.ty = ty
    def m_clone(self, it, a, c): return self
    def m_data_type(self, it, a, c): return Ok(self.ty)
    def m_as_any(self, it, a, c): return self
    def is_type(self, n): return False
    def debug_(self, it): return 'expr'
    display_ = debug_
    def true(self, r): v = self.ev(r); return band(v[0], v[1])
BOOL = lambda: AR.dt('Boolean')
isbool = lambda t: deref(t).var == 'Boolean'
class DFS(Obj):
    """DFSchema of one table: a qualifier and an Arrow schema"""
    tname = 'DFSchema'
    def __init__(self, q, schema): self.q = q; self.schema = schema
    def m_clone(self, it, a, c): return self
    m_deref = m_as_ref = m_clone
    def m_as_arrow(self, it, a, c): return self.schema
    m_inner = m_as_arrow
    def m_fields(self, it, a, c): return self.schema.m_fields(it, a, c)
EXT_FN['DFSchema::try_from_qualified_schema'] = lambda it, a, c: Ok(DFS(deref(a[0]), deref(a[1])))
EXT_FN['DFSchema::try_from'] = lambda it, a, c: Ok(DFS(None, deref(a[0])))
EXT_FN['SchemaRef::from'] = EXT_FN['Schema::from'] = lambda it, a, c: deref(a[0]).schema if isinstance(deref(a[0]), DFS) else deref(a[0])
def bad(msg): return Err(Enum('DataFusionError', 'Plan', {'0': msg}))
class Fail(Exception): pass
def phys(e, s):
    e = deref(e); v = e.var
    sub = lambda x: phys(x, s)
    if v == 'Pred': return PE(lambda r: r.p, BOOL())
    if v == 'Assigned': i = e.f['0']; return PE(lambda r: r.e[i], e.f['1'])
    if v == 'Alias': return sub(deref(e.f['0']).f['expr'])
    if v == 'Literal':
        x = deref(e.f['0'])
        if x.var == 'Boolean':
            o = deref(x.f['0']); val = (False, False) if o.var == 'None' else (True, o.f['0'])
            return PE(lambda r: val, BOOL())
        raise Unsupported('literal')
    if v == 'Column':
        c = deref(e.f['0']); sc = s.schema if isinstance(s, DFS) else s
        for i, f in enumerate(sc.fields):
            if f.name == c.f['name']: return PE((lambda i: lambda r: r.cells[i])(i), f.ty)
        raise Fail('no such field')
    un = {'Not': lambda o, b: (o, bnot(b)), 'IsTrue': lambda o, b: (True, band(o, b)), 'IsNotTrue': lambda o, b: (True, bnot(band(o, b))), 'IsFalse': lambda o, b: (True, band(o, bnot(b))), 'IsNotFalse': lambda o, b: (True, bnot(band(o, bnot(b)))), 'IsUnknown': lambda o, b: (True, bnot(o)), 'IsNotUnknown': lambda o, b: (True, o), 'IsNull': lambda o, b: (True, bnot(o)), 'IsNotNull': lambda o, b: (True, o)}
    if v in un:
        x = sub(e.f['0'])
        if not isbool(x.ty): raise Unsupported('null test of a value')
        return PE(lambda r: un[v](*x.ev(r)), BOOL())
    if v == 'BinaryExpr':
        b = deref(e.f['0']); op = deref(b.f['op']).var; l, r_ = sub(b.f['left']), sub(b.f['right'])
        if not (isbool(l.ty) and isbool(r_.ty)): raise Unsupported('comparison of values')
        def iff(p, q): return mkbool(mk(p) == mk(q))
        f = {'And': lambda x, y: B.kand(*x, *y), 'Or': lambda x, y: B.kor(*x, *y), 'IsNotDistinctFrom': lambda x, y: (True, bor(band(bnot(x[0]), bnot(y[0])), band(x[0], y[0], iff(x[1], y[1])))), 'IsDistinctFrom': lambda x, y: (True, bnot(bor(band(bnot(x[0]), bnot(y[0])), band(x[0], y[0], iff(x[1], y[1]))))), 'Eq': lambda x, y: (band(x[0], y[0]), iff(x[1], y[1])), 'NotEq': lambda x, y: (band(x[0], y[0]), bnot(iff(x[1], y[1])))}.get(op)
        if f is None: raise Unsupported(f'operator {op}')
        return PE(lambda r: f(l.ev(r), r_.ev(r)), BOOL())
    raise Unsupported(f'physical expression of {v}')
def create(it, a, c):
    try: return Ok(phys(a[0], deref(a[1])))
    except Fail as x: return bad(str(x))
EXT_FN['create_physical_expr'] = create
EXT_FN['ExecutionProps::new'] = lambda it, a, c: Opaque('props')
CAST = {}
def cast(it, a, c):
    x, t = deref(a[0]), deref(a[2])
    if isbool(x.ty) or isbool(t): raise Unsupported('cast of booleans')
    return Ok(x if Ctx.cur.branch(eq(x.ty, t)) else PE(lambda r: caste(x.ev(r), t), t))
def caste(v, t): return z3.Function('cast to ' + deref(t).var, z3.IntSort(), z3.IntSort())(v)
EXT_FN['cast'] = EXT_FN['expressions::cast'] = cast
def case_expr(it, a, c):
    base, whens, els = deref(a[0]), [deref(x) for x in deref(a[1]).a], deref(a[2])
    if base.var != 'None': raise Unsupported('CASE with a base expression')
    ws = [(deref(w.a[0]), deref(w.a[1])) for w in whens]; el = deref(els.f['0']) if els.var == 'Some' else None
    ty = ws[0][1].ty
    if not all(isbool(w.ty) for w, _ in ws): return bad('WHEN is not a boolean')
    for x in [t for _, t in ws] + ([el] if el else []):
        if not Ctx.cur.branch(eq(x.ty, ty)): return bad('CASE branches of different types')
    def ev(r):
        v = el.ev(r) if el is not None else NULLV
        for w, t in reversed(ws):
            k = w.true(r); v = t.ev(r) if k is True else v if k is False else z3.If(k, t.ev(r), v)
        return v
    return Ok(PE(ev, ty))
NULLV = z3.Int('NULL')
EXT_FN['case'] = EXT_FN['expressions::case'] = case_expr
def pcol(it, a, c):
    s = deref(a[1])
    for i, f in enumerate(s.fields):
        if Ctx.cur.branch(eq(f.name, deref(a[0]))): return Ok(PE(lambda r: r.cells[i], f.ty))
    return bad('no such field')
EXT_FN['col'] = EXT_FN['expressions::col'] = pcol
EXT_FN['expressions::not'] = EXT_FN['not'] = lambda it, a, c: Ok((lambda x: PE(lambda r: (x.ev(r)[0], bnot(x.ev(r)[1])), BOOL()))(deref(a[0])))
EXT_FN['expressions::lit'] = lambda it, a, c: PE(lambda r: (True, deref(a[0])), BOOL())
def transform(it, e, a, c):
    if e.var not in ('Pred', 'Common'): raise Unsupported('transform of an expression')
    return Ok(Struct('Transformed', {'data': e, 'transformed': False}))
METHODS[('Expr', 'transform')] = METHODS[('Expr', 'transform_up')] = METHODS[('Expr', 'transform_down')] = transform
METHODS[('Result', 'data')] = lambda it, v, a, c: v if v.var == 'Err' else Ok(deref(v.f['0']).f['data'])
class Plan(Obj):
    """an execution plan, known by its rows"""
    def __init__(self, rows, schema): self.rows = rows; self.schema = schema
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return self.schema
def filter_exec(it, a, c):
    p, i = deref(a[0]), deref(a[1])
    if not isbool(p.ty): return bad('Filter predicate must return BOOLEAN values')
    return Ok(Plan([r.copy(guard=band(r.guard, p.true(r))) for r in i.rows], i.schema))
EXT_FN['FilterExec::try_new'] = filter_exec
def proj_exec(it, a, c):
    es = [deref(x) for x in deref(a[0]).a]; i = deref(a[1]); ps = [(deref(x.a[0]), deref(x.a[1])) for x in es]
    return Ok(Plan([r.copy(cells=[p.ev(r) for p, _ in ps]) for r in i.rows], B.Schema([B.Field(n, p.ty) for p, n in ps])))
EXT_FN['ProjectionExec::try_new'] = proj_exec
class Pruning(Obj):
    def __init__(self, p): self.p = p
    def m_clone(self, it, a, c): return self
    def m_prune(self, it, a, c):
        s = deref(a[0]); out = []
        if not isinstance(s, Snap): raise Unsupported('pruning statistics')
        for f in s.files():
            k = U().h.bool(f'{f.path} may match'); Ctx.cur.add(z3.Implies(z3.Not(k), z3.And(*[mk(bnot(self.p.true(r))) for r in f.rows]))) if f.rows else None
            out.append(k)
        return Ok(Vec(out))
EXT_FN['PruningPredicate::try_new'] = lambda it, a, c: Ok(Pruning(deref(a[0]))) if isbool(deref(a[0]).ty) else bad('not a predicate')
class File:
    def __init__(self, path, rows): self.path = path; self.rows = rows
    def add(self): return Struct('Add', {'path': self.path, 'size': Int(len(self.rows) + 1, 'i64'), 'partition_values': Map('HashMap', [])})
def tbl(path):
    """the modelled table at a path"""
    t = getattr(U(), 'tables', None) if 'session' in Ctx.cur.user else None
    return None if t is None else t.get(str(path))
def scan(rows, filters, proj, limit, schema):
    filters = [deref(x) for x in deref(filters).a]; lim, pr = deref(limit), deref(proj)
    if lim.var == 'Some' or pr.var == 'Some': raise Unsupported('scan with a limit or projection')
    out = list(rows)
    for f in filters:
        p = phys(f, schema)
        for i, r in enumerate(out):
            seen = U().h.bool(f'a row not matching {id(f) % 97}/{i} is still read')
            out[i] = r.copy(guard=band(r.guard, bor(p.true(r), seen)))
    return Ok(Plan(out, schema))
_schema, _snapshot = Delta.m_schema, Delta.m_snapshot
def d_schema(self, it, a, c):
    t = tbl(self.ls.path); return _schema(self, it, a, c) if t is None else t.schema
def d_snapshot(self, it, a, c):
    if tbl(self.ls.path) is not None and self.version < 0: return Err(Enum('DeltaTableError', 'NotInitialized', {}))
    return _snapshot(self, it, a, c)
Delta.m_schema = d_schema; Delta.m_snapshot = d_snapshot
Delta.m_scan = lambda self, it, a, c: Future(lambda: scan([r for f in tbl(self.ls.path).files for r in f.rows], a[2], a[1], a[3], tbl(self.ls.path).schema))
_fa = Snap.m_file_actions
def snap_files(self): return tbl(self.path).files
Snap.files = snap_files
def s_fa(self, it, a, c):
    t = tbl(self.path); return _fa(self, it, a, c) if t is None else Ok(Vec([f.add() for f in t.files]))
Snap.m_file_actions = s_fa
Snap.m_schema = lambda self, it, a, c: tbl(self.path).schema
Snap.m_arrow_schema = lambda self, it, a, c: Ok(tbl(self.path).schema)
class Provider(Obj):
    """DeltaTableProvider"""
    def __init__(self, snap, ls, files=None): self.snap = snap; self.ls = ls; self.files = files
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return tbl(self.snap.path).schema
    def m_with_files(self, it, a, c): return Provider(self.snap, self.ls, [deref(deref(x).f['path']) for x in deref(a[0]).a])
    def m_scan(self, it, a, c):
        t = tbl(self.snap.path); by = {f.path: f for f in t.files}
        fs = t.files if self.files is None else [by[p] for p in self.files]
        return Future(lambda: scan([r for f in fs for r in f.rows], a[2], a[1], a[3], t.schema))
EXT_FN['DeltaTableProvider::try_new'] = lambda it, a, c: Ok(Provider(deref(a[0]), deref(a[1])))

# ------------------------------------------------------------------ the statements
class Table:
    def __init__(self, h, path, shape, types, assigned=False):
        n = 0; self.files = []; self.schema = B.Schema([B.Field(f'c{j}', AR.dt(t)) for j, t in enumerate(types)]); self.path = path
        for k, c in enumerate(shape):
            rows = []
            for _ in range(c):
                rows.append(Row(n, [h.int(f'row {n} c{j}', 'i64').v for j in range(len(types))], (h.bool(f'row {n} predicate known'), h.bool(f'row {n} predicate')), [h.int(f'row {n} new c{j}', 'i64').v for j in range(len(types))] if assigned else [])); n += 1
            self.files.append(File(f'f{k}', rows))
        self.rows = [r for f in self.files for r in f.rows]
def world(h, shape, types, faults=(), **kw):
    h.ctx.user['it'] = h.it
    w = World(h, 'sqlite', [[[[1], [1]]]], columns=False); w.told = []
    cat = w.before.rows['database'][0]['name']; u = Use(h, w, cat, w.before.rows['collection'][0]['name'], faults=faults)
    t = w.before.rows['table'][0]; path = h_text(t['uuid']); T = Table(h, path, shape, types, **kw); u.tables = {path: T}
    o = h.it.overrides; o['plan_to_delta_adds'] = written
    return w, u, t, T
def h_text(u): return Ctx.cur.user['it'].method(u, 'to_string')
def written(it, a, c):
    plan = deref(a[1]); log('adds', plan, deref(a[2]).path)
    if U().flip('writing the files fails'): return Err(S.exec_err('disk full'))
    u = U(); fs = [File(f'new{k}', plan.rows[k::2]) for k in range(2)]; u.new = {f.path: f for f in fs}; u.new_schema = plan.schema
    return Ok(Vec([f.add() for f in fs]))
def dml(op, t, T, inp): return Enum('LogicalPlan', 'Dml', {'0': Struct('DmlStatement', {'table_name': bare(t['name']), 'table_schema': DFS(bare(t['name']), T.schema), 'op': Enum('WriteOp', op), 'input': inp, 'output_schema': Opaque('s')})})
def lp(kind, **f): return Enum('LogicalPlan', kind, {'0': Struct(kind, f)})
def tscan(): return lp('TableScan', filters=Vec([]))
def filt(inp, p=None): return lp('Filter', predicate=E('Pred') if p is None else p, input=inp)
def replaced(h, T, plan, rules):
    """what an optimizer with these rules may make of the statement"""
    d = deref(plan.f['0'])
    if plan.var != 'Dml': return plan
    inp = deref(d.f['input']); top = None
    if inp.var == 'Projection': top = deref(inp.f['0']); inp = deref(top.f['input'])
    if inp.var != 'Filter': return plan
    allr = [mk(r.true()) for r in T.rows]; nul = [z3.And(z3.Not(mk(r.p[0]))) for r in T.rows]; fal = [mk(band(r.p[0], bnot(r.p[1]))) for r in T.rows]
    lit = lambda x: filt(tscan(), E('Literal', Enum('ScalarValue', 'Boolean', {'0': NONE() if x is None else Some(x)})))
    def simple(k):
        if k == 0: return inp
        for q in (allr, nul, fal)[k - 1]: h.assume(q)
        return lit([True, None, False][k - 1])
    if rules == ['SimplifyExpressions']: new = simple(h.ctx.choose(4, 'the predicate simplifies'))
    elif not rules: new = inp
    else:
        k = h.ctx.choose(5, 'the optimizer'); new = inp
        if k == 1:
            for q in allr: h.assume(bnot(q))
            new = lp('EmptyRelation', produce_one_row=False)
        if k == 2:
            for q in allr: h.assume(q)
            new = tscan()
        if k == 3: new = lp('Projection', expr=Vec([E('Column', DF.column(f.name)) for f in T.schema.fields]), input=filt(lp('Projection', expr=Vec([]), input=tscan()), E('Common')))
        if k == 4: new = lp('Join', left=tscan(), right=tscan())
    if top is not None: new = lp('Projection', expr=top.f['expr'], input=new)
    return Enum('LogicalPlan', 'Dml', {'0': Struct('DmlStatement', dict(d.f, input=new))})
_opt = State.m_optimize
def s_opt(self, it, a, c):
    u = U(); return _opt(self, it, a, c) if getattr(u, 'tables', None) is None else Ok(replaced(u.h, list(u.tables.values())[0], deref(a[0]), None or ['all']))
State.m_optimize = s_opt
class Analyzer(Obj):
    def m_execute_and_check(self, it, a, c): return Ok(deref(a[0]))
EXT_FN['Analyzer::new'] = lambda it, a, c: Analyzer()
class Optimizer(Obj):
    def __init__(self, rules): self.rules = rules
    def m_optimize(self, it, a, c): u = U(); return Ok(replaced(u.h, list(u.tables.values())[0], deref(a[0]), self.rules))
EXT_FN['Optimizer::with_rules'] = lambda it, a, c: Optimizer([deref(x).name for x in deref(a[0]).a])
EXT_FN['Optimizer::new'] = EXT_FN['Optimizer::default'] = lambda it, a, c: Optimizer(['all'])
EXT_FN['OptimizerContext::default'] = EXT_FN['OptimizerContext::new'] = lambda it, a, c: Opaque('optimizer config')
S.Session.m_copied_config = lambda self, it, a, c: Config()
class Config(Obj):
    def m_options(self, it, a, c): return Opaque('options')
def rule(n): EXT_FN[n + '::new'] = EXT_FN[n + '::default'] = lambda it, a, c: Opaque(n)
for _n in ('SimplifyExpressions', 'EliminateFilter', 'CommonSubexprEliminate', 'PushDownFilter', 'DecorrelatePredicateSubquery', 'PropagateEmptyRelation', 'OptimizeProjections'): rule(_n)

def stmt(var, **f): return Enum('Statement', 'Statement', {'0': Enum('Statement', var, f)})
def final(h, w, u, t, T, r, what):
    """the rows of the table after the statement; checks that the commit is well formed and recorded. None: failed"""
    path = T.path; cm = u.did('commit'); nv = [v for v in w.rows('table_version') if w.by_id('table_version', v['id'], w.before) is None]
    h.check(not u.did('delete', 'create', 'convert', 'vacuum', 'gc'), f'{what} does something else')
    if u.failed():
        h.check(r.var == 'Err', f'a failed {what} is reported as success'); h.check(not nv, f'a failed {what} is recorded as a table version')
        if u.failing != 'committing fails': h.check(not cm, f'a {what} that could not write its files commits')
        h.wit('failed'); return None
    h.check(r.var == 'Ok', f'{what} fails', info=lambda m: {'result': repr(r)[:400], 'errors': repr(h.ctx.user.get('sqlerrors'))})
    h.check(len(cm) == 1 and eq(cm[0][1], path) is True, f'{what} does not commit to exactly the table named', info=lambda m: {'events': repr(u.events)[:500]})
    h.check(len(nv) == 1 and nv[0]['table_id'] == t['id'] and h.ctx.branch(X.veq(nv[0]['version'], u.version.v)), f'{what} does not record the version it committed')
    acts = [deref(x) for x in deref(cm[0][2]).a]; rem = [deref(x.f['0']) for x in acts if x.var == 'Remove']; ad = [deref(x.f['0']).f['path'] for x in acts if x.var == 'Add']
    paths = [deref(x.f['path']) for x in rem]; by = {f.path: f for f in T.files}; new = getattr(u, 'new', {})
    h.check(all(p in by for p in paths) and len(set(paths)) == len(paths), f'{what} removes a file that the table does not have', info=lambda m: {'removed': paths})
    h.check(sorted(ad) == sorted(new), f'{what} does not commit exactly the files it wrote', info=lambda m: {'added': ad, 'written': sorted(new)})
    if new: h.check(eq(u.new_schema, T.schema), f'{what} writes files of another schema')
    h.check(all(deref(x.f['data_change']) is True for x in rem), f'{what} commits removals that do not change data')
    return [r for f in T.files if f.path not in paths for r in f.rows] + [r for p in ad for r in new[p].rows]
def unfailing(u):
    u.failing = None; old = u.flip
    def flip(what):
        k = old(what)
        if k: u.failing = what
        return k
    u.flip = flip; return u
def judge(h, T, out, what, gone, value):
    """every row of the table is in `out` once with its expected value, unless gone"""
    def show(m): return {'files': [[{'row': r.rid, 'predicate': str(m(r.p[1])) if str(m(r.p[0])) == 'True' else 'NULL'} for r in f.rows] for f in T.files], 'after': [r.rid for r in out if str(m(mk(r.guard))) == 'True']}
    for r in T.rows:
        occ = [x for x in out if x.rid == r.rid]; n = z3.Sum([z3.If(mk(x.guard), 1, 0) for x in occ] + [z3.IntVal(0)])
        h.check(mkbool(z3.Implies(mk(gone(r)), n == 0)), f'{what} keeps a row it should remove', info=show)
        h.check(mkbool(z3.Implies(z3.Not(mk(gone(r))), n >= 1)), f'{what} loses a row', info=show)
        h.check(mkbool(n <= 1), f'{what} duplicates a row', info=show)
        for x in occ: h.check(mkbool(z3.Implies(mk(x.guard), z3.And(*[a == b for a, b in zip(x.cells, value(r))]) if len(x.cells) == len(value(r)) else z3.BoolVal(False))), f'{what} gives a row a wrong value', info=show)
