"""C11: pruning never hides a file that can hold a touched row."""
from checks.flush import *
NATIVE = None
BOUNDS = 'tables of up to 2 files (3 thorough), one or two syncs with up to 2 changes of any kind and any keys, keys of one or two columns; every file with any minimum and maximum, any of them unknown, statistics missing for a file or for a whole column, any number of rows per file (below 2^40; so both the coarse and the row-by-row pruning run)'
ASSUMPTIONS = [dict(reason='the statistics a file has are right: minimum <= key <= maximum for every key in it'), dict(reason='key columns hold no NULLs')]
MODELS = 'PruningPredicate (DataFusion 44: a file stays unless the predicate over its minimum and maximum is definitely false), Min/MaxAccumulator and the arrow kernels, the Delta snapshot and its statistics'
class Acc(Obj):
    def __init__(self, ty, mx): self.ty = ty; self.mx = mx; self.c = (False, None)
    def m_update_batch(self, it, a, c):
        for arr in it_list(it, a[0]):
            for ok, v in deref(arr).vals:
                if v is None: continue
                o, w = self.c; b = V(v) if w is None else z3.If((V(v) > w) if self.mx else (V(v) < w), V(v), w)
                self.c = (bor(o, ok), V(v) if w is None else ite(ok, ite(o, b, v), w))
        return Ok(UNIT())
    def m_evaluate(self, it, a, c): return Ok(SV(deref(self.ty), *self.c))
def acc(mx):
    return lambda it, a, c: Ok(Acc(deref(a[0]), mx))
class Phys(Obj):
    def __init__(self, e): self.e = e
    def m_clone(self, it, a, c): return self
@guard
def phys(it, a, c):
    s = deref(a[1]); e = deref(a[0]); t, _ = ev(e, Rel(s.cols, []))
    return Ok(Phys(e))
class Pred(Obj):
    def __init__(self, e): self.e = e
    def m_clone(self, it, a, c): return self
    def debug_(self, it): return 'pruning predicate'
    def m_prune(self, it, a, c):
        snap = deref(a[0]); return Ok(Vec([self.keep(f) for f in snap.files]))
    def keep(self, f):
        def lit(e): 
            x = deref(e).f['0']; return (x[2] if isinstance(x, tuple) else (x.ok, x.v))
        def at(e): return text(deref(deref(e).f['0']).f['name'])
        def ge(n, l): o, v = f.mx.get(n, (False, 0)); return (band(o, l[0]), mkbool(V(v) >= V(l[1])) if l[1] is not None else False)
        def le(n, l): o, v = f.mn.get(n, (False, 0)); return (band(o, l[0]), mkbool(V(v) <= V(l[1])) if l[1] is not None else False)
        def gt(n, l): o, v = f.mx.get(n, (False, 0)); return (band(o, l[0]), mkbool(V(v) > V(l[1])) if l[1] is not None else False)
        def lt(n, l): o, v = f.mn.get(n, (False, 0)); return (band(o, l[0]), mkbool(V(v) < V(l[1])) if l[1] is not None else False)
        def go(e):
            e = deref(e)
            if e.var == 'BinaryExpr':
                b = deref(e.f['0']); op = deref(b.f['op']).var
                if op in ('And', 'Or'): return (B.kand if op == 'And' else B.kor)(*go(b.f['left']), *go(b.f['right']))
                l, r = deref(b.f['left']), deref(b.f['right'])
                if l.var == 'Column' and r.var == 'Literal':
                    g = {'GtEq': ge, 'LtEq': le, 'Gt': gt, 'Lt': lt}.get(op)
                    if g: return g(at(l), lit(r))
                    if op == 'Eq': return B.kand(*ge(at(l), lit(r)), *le(at(l), lit(r)))
                raise Unsupported(f'pruning by {op}')
            if e.var == 'Between':
                b = deref(e.f['0']); n = at(b.f['expr']); lo, hi = lit(b.f['low']), lit(b.f['high'])
                return B.kor(*lt(n, lo), *gt(n, hi)) if b.f['negated'] is True else B.kand(*ge(n, lo), *le(n, hi))
            if e.var == 'Literal': return lit(e)
            raise Unsupported(f'pruning by {e.var}')
        o, v = go(self.e); return bor(bnot(o), v)
class FileS:
    """a file: statistics, and one of the keys it holds"""
    def __init__(self, i, pk, ty, missing, stats):
        self.add = Add(i, stats); self.key = tuple(fresh(f'file{i} holds {p}', ty[p]) for p in pk); self.mn = {}; self.mx = {}
        for p, k in zip(pk, self.key):
            for d, nm, rel in ((self.mn, 'min', lambda x, k: x <= k), (self.mx, 'max', lambda x, k: x >= k)):
                if stats != 'full' or (p, nm) in missing: d[p] = (False, 0); continue
                ok = fresh(f'file{i} {nm} {p} known', 'Boolean'); v = fresh(f'file{i} {nm} {p}', ty[p]); Ctx.cur.add(z3.Implies(Z(ok), rel(V(v), V(k)))); d[p] = (ok, v)
        for p in [x for x in ty if x not in pk]:
            for d, nm in ((self.mn, 'min'), (self.mx, 'max')): d[p] = (fresh(f'file{i} {nm} {p} known', 'Boolean'), fresh(f'file{i} {nm} {p}', ty[p])) if stats == 'full' else (False, 0)
class Add(Obj):
    tname = 'Add'
    def __init__(self, i, stats):
        self.stats = stats; n = Ctx.cur.fresh(f'file{i} rows'); Ctx.cur.add(z3.And(n >= 0, n < 2 ** 40)) if z3.is_expr(n) else None
        self.f = {'path': f'part-{i}', 'partition_values': Map(), 'size': Int(10 + i, 'i64'), 'stats': NONE()}; self.n = n
    def m_get_json_stats(self, it, a, c):
        if self.stats == 'broken': return Err(Opaque('serde_json::Error'))
        return Ok(NONE() if self.stats == 'none' else Some(Struct('Stats', {'num_records': Int(self.n, 'i64')})))
    def m_clone(self, it, a, c): return self
    def debug_(self, it): return self.f['path']
class Snap(Obj):
    def __init__(self, files, ty, missing, schema): self.files = files; self.ty = ty; self.missing = missing; self.schema = schema; self.rows = []
    def m_file_actions(self, it, a, c): return Ok(Vec([f.add for f in self.files]))
    def m_num_containers(self, it, a, c): return Int(len(self.files), 'usize')
    def m_clone(self, it, a, c): return self
    def col(self, a, which):
        n = text(column(a[0]).f['name'])
        if n not in self.ty or (n, which) in self.missing: return NONE()
        return Some(SArr(self.ty[n], [(f.mn if which == 'min' else f.mx)[n] for f in self.files]))
    def m_min_values(self, it, a, c): return self.col(a, 'min')
    def m_max_values(self, it, a, c): return self.col(a, 'max')
class Table(FakeTable):
    def m_snapshot(self, it, a, c): return Ok(self.snap)
I1 = [('OldPk', 'k', 'Int32'), ('NewPk', 'k', 'Int32'), ('Value', 'v', 'Int32')]
I2 = [('OldPk', 'Zone', 'Int32'), ('OldPk', 'id', 'Int64'), ('NewPk', 'id', 'Int64'), ('NewPk', 'Zone', 'Int32'), ('Value', 'zone', 'Int32')]
LAY = {'one key column': I1, 'two key columns': I2}
CASES = [('one key column', (2,), ('full', 'full'), ''), ('one key column', (2,), ('full', 'none'), ''), ('one key column', (1, 1), ('full', 'full'), ''), ('two key columns', (2,), ('full',), ''), ('two key columns', (1, 1), ('full', 'broken'), ''),
         ('one key column', (2,), ('full',), 'k:min'), ('one key column', (2,), ('full',), 'k:max'), ('one key column', (1,), ('full', 'full'), 'k:min k:max'), ('two key columns', (1,), ('full', 'full'), 'id:min'), ('two key columns', (1,), ('full', 'full'), 'Zone:min Zone:max'),
         ('one key column', (0,), ('full', 'none'), ''), ('one key column', (0, 1), ('full',), ''), ('one key column', (1, 0), ('full',), '')]
DEEP = [('one key column', (3,), ('full', 'full'), ''), ('one key column', (2, 1), ('full', 'none'), ''), ('two key columns', (2, 1), ('full',), ''), ('one key column', (2,), ('full', 'full', 'full'), '')]
@case('pruning', over=[dict(layout=l, n=n, files=f, missing=m, _name=f'{l} {n} changes files {f} {m}', _tier=t) for t, cs in (('quick', CASES), ('thorough', DEEP)) for l, n, f, m in cs], expects=['planned'])
def pruning(h, layout, n, files, missing):
    it = h.it; lay = LAY[layout]; pk = pks(lay); ty = {p: t for r, p, t in lay if r in ('OldPk', 'Value')}
    miss = {tuple(x.split(':')) for x in missing.split()}
    p = world(h, prune=True); F = EXT_FN
    F['MinAccumulator::try_new'] = acc(False); F['MaxAccumulator::try_new'] = acc(True); F['create_physical_expr'] = phys; F['ExecutionProps::new'] = lambda it, a, c: Opaque('props')
    F['PruningPredicate::try_new'] = lambda it, a, c: Ok(Pred(deref(a[0]).e))
    chs = [changes(h, lay, k, 'ab'[i]) for i, k in enumerate(n)]
    for i, cs in enumerate(chs):
        for j, c in enumerate(cs):
            c.o, c.n = h.pick([(False, True), (True, False), (True, True), (False, False)] if len(cs) < 3 else [(False, True), (True, True)], f'{i}.{j} kind')
    cols = order([lay], pk + [x for r, x, t in lay if r == 'Value'])
    fs = [FileS(i, pk, ty, miss, s) for i, s in enumerate(files)]
    t = Table(B.Schema([B.Field(c, dt(x)) for c, x in cols]), []); t.snap = Snap(fs, ty, miss, t.schema)
    r = it.await_(it.call_fn(PL + 'SeafowlSyncPlanner::plan_delta_syncs', p, Vec([item(h, lay, batch(lay, c)) for c in chs]), t))
    info = lambda m: {'changes': [showch(m, c) for c in chs], 'files': [{'key': [m(x) for x in f.key], 'min': {k: cell(m, v) for k, v in f.mn.items()}, 'max': {k: cell(m, v) for k, v in f.mx.items()}, 'rows': m(f.add.n)} for f in fs], 'result': repr(r)[:200]}
    h.check(r.var == 'Ok', 'the flush cannot be planned', info=info)
    removes = [text(deref(deref(x).f['0']).f['path']) for x in it_list(it, deref(r.f['0']).a[1])]
    for x in it_list(it, deref(r.f['0']).a[1]): h.check(deref(x).var == 'Remove', 'something other than removals', info=info)
    scan = [text(deref(x).f['path']) for x in it_list(it, Ctx.cur.user['prov'].files)]
    h.check(sorted(removes) == sorted(scan) and len(set(scan)) == len(scan), 'the files removed are not those that are read', info=lambda m: {**info(m), 'removed': removes, 'read': scan})
    for i, f in enumerate(fs):
        if f'part-{i}' in scan: continue
        hit = bor(*[bor(keq(c.old, f.key) if c.o else False, keq(c.new, f.key) if c.n else False) for cs in chs for c in cs])
        h.check(bnot(hit), 'a file that holds a touched row is left alone', info=lambda m, i=i: {**info(m), 'file': i, 'read': scan})
        h.wit('pruned')
    h.wit('planned')
