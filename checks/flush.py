"""Flushing syncs: the plan the real planner builds, executed on symbolic rows, against the meaning of the changes."""
from checks.plans import *
from engine.harness import *
def fresh(name, ty): return Ctx.cur.fresh(name, 'bool') if ty == 'Boolean' else Ctx.cur.fresh(name)
class Chg:
    """one row change: keys (present, tuple of terms), values and flags by column"""
    def __init__(self, o, old, n, new, vals, flags): self.o = o; self.old = old; self.n = n; self.new = new; self.vals = vals; self.flags = flags
def keq(a, b): return band(*[veq(x, y) for x, y in zip(a, b)])
def pks(layout): return sorted(n for r, n, t in layout if r == 'OldPk')
def changes(h, layout, n, tag, append=False, whole=True):
    pk = pks(layout); ty = {nm: t for r, nm, t in layout}; out = []
    for j in range(n):
        o = False if append else fresh(f'{tag}{j} has old', 'Boolean'); nw = True if append else fresh(f'{tag}{j} has new', 'Boolean')
        old = tuple(fresh(f'{tag}{j} old {p}', ty[p]) for p in pk); new = tuple(fresh(f'{tag}{j} new {p}', ty[p]) for p in pk)
        vals = {nm: (fresh(f'{tag}{j} {nm} ok', 'Boolean'), fresh(f'{tag}{j} {nm}', 'Int32')) for r, nm, t in layout if r == 'Value'}
        flags = {nm: fresh(f'{tag}{j} {nm} changed', 'Boolean') for r, nm, t in layout if r == 'Changed'}
        out.append(Chg(o, old, nw, new, vals, flags))
    return out
def batch(layout, chs, names=None):
    pk = pks(layout); cols = []
    for r, nm, t in layout:
        vs = []
        for c in chs:
            if r == 'OldPk': vs.append((c.o, c.old[pk.index(nm)]))
            elif r == 'NewPk': vs.append((c.n, c.new[pk.index(nm)]))
            elif r == 'Changed': vs.append((True, c.flags[nm]))
            else: vs.append(c.vals[nm])
        cols.append(SArr(t, vs))
    names = names or (lambda r, n: f'{r}_{n}'.lower())
    return SBatch(B.Schema([B.Field(names(r, n), dt(t)) for r, n, t in layout]), cols, len(chs))
class State:
    """a table as a function of the key"""
    put = touched = over = flag = has = staticmethod(lambda *a: False); first = True
    def __init__(self, ex, val): self.ex = ex; self.val = val       # ex(K) -> bool, val(K, col) -> cell
def table(h, layout, n, cols, pk, tag='base'):
    """n rows with distinct keys; cols: every column of the table that is not a key"""
    ty = {nm: t for r, nm, t in layout}; rows = []
    for i in range(n): rows.append((fresh(f'{tag}{i} exists', 'Boolean'), tuple(fresh(f'{tag}{i} {p}', 'Int32') for p in pk), {c: (fresh(f'{tag}{i} {c} ok', 'Boolean'), fresh(f'{tag}{i} {c}', 'Int32')) for c in cols}))
    for i in range(n):
        for j in range(i): Ctx.cur.add(Z(bnot(band(rows[i][0], rows[j][0], keq(rows[i][1], rows[j][1])))))
    def val(K, c):
        v = (False, None)
        for g, k, vs in rows: v = cite(band(g, keq(k, K)), vs[c], v)
        return v
    return rows, State(lambda K: bor(*[band(g, keq(k, K)) for g, k, _ in rows]), val)
def If(c, a, b): return bor(band(c, a), band(bnot(c), b))
def after(prev, layout, chs):
    """the changes of one sync applied at once"""
    sent = {nm for r, nm, t in layout if r == 'Value'}
    gone = lambda K: bor(*[band(c.o, keq(c.old, K)) for c in chs]); made = lambda K: bor(*[band(c.n, keq(c.new, K)) for c in chs])
    def val(K, col):
        v = prev.val(K, col)
        for c in reversed(chs):
            was = cite(c.o, prev.val(c.old, col), (False, None))
            v = cite(band(c.n, keq(c.new, K)), cite(c.flags.get(col, True), c.vals[col], was) if col in sent else was, v)
        return v
    def put(K, col):
        "the value of col in row K was given by some sync (None: by nobody, so it is the one the row had before)"
        v = prev.put(K, col)
        for c in reversed(chs): v = If(band(c.n, keq(c.new, K)), bor(c.flags.get(col, True) if col in sent else False, band(c.o, prev.put(c.old, col))), v)
        return v
    hasflag = lambda col: any(r == 'Changed' and nm == col for r, nm, t in layout)
    fl = lambda col: hasflag(col) or prev.flag(col) or (not prev.first and (col in sent) != prev.has(col))
    def over(K, col):
        "... and a later sync touched the row without giving it, where one of the two has a flag for it"
        v = prev.over(K, col)
        for c in reversed(chs):
            byme = c.flags.get(col, True) if col in sent else False
            v = If(band(c.n, keq(c.new, K)), band(bnot(byme), c.o, prev.put(c.old, col), True if hasflag(col) or prev.flag(col) else prev.over(c.old, col)), v)
        return v
    s = State(lambda K: bor(made(K), band(prev.ex(K), bnot(gone(K)))), val); s.over = over; s.flag = fl; s.has = lambda col: col in sent or prev.has(col); s.first = False; s.put = put; s.touched = lambda K: bor(made(K), band(prev.touched(K), bnot(gone(K))))
    s.gone = gone; s.made = made; s.sent = sent; s.chs = chs; s.prev = prev
    return s
def wellformed(prev, chs, s, fullinsert=True):
    add = lambda x: Ctx.cur.add(Z(x))
    for i, c in enumerate(chs):
        add(bor(bnot(c.o), prev.ex(c.old))); add(bor(bnot(c.n), bnot(prev.ex(c.new)), s.gone(c.new)))
        for d in chs[:i]: add(bnot(band(c.o, d.o, keq(c.old, d.old)))); add(bnot(band(c.n, d.n, keq(c.new, d.new))))
        for f in c.flags.values(): add(bor(c.o, bnot(c.n), f))         # an insert changes every column it sends
class Files(Obj):
    def __init__(self, rows): self.rows = rows
class FakeTable(Obj):
    """the Delta table being flushed to"""
    tname = 'DeltaTable'
    def __init__(self, schema, rows): self.schema = schema; self.rows = rows
    def m_schema(self, it, a, c): return self.schema
    def m_snapshot(self, it, a, c): return Ok(self)
    def m_log_store(self, it, a, c): return Opaque('LogStore')
    def m_clone(self, it, a, c): return self
    def m_arrow_schema(self, it, a, c): return Ok(self.schema)
class Metric(Obj):
    def method_missing(self, it, n, a, c): return UNIT()
class Metrics(Obj):
    def __init__(self): self.f = {}
    def __getattr__(self, n): raise AttributeError(n)
class AnyF(dict):
    def __missing__(self, k): return Metric()
    def __contains__(self, k): return True
    def get(self, k, d=None): return Metric()
PL = S + 'planner::'
def world(h, prune=False):
    it = h.it; install(); it.overrides.clear()
    EXT_FN['TableProvider::schema'] = lambda it, a, c: deref(a[0]).schema
    EXT_FN['DeltaTableProvider::try_new'] = lambda it, a, c: Ok(Prov(deref(a[0]), None))
    it.overrides['SeafowlSyncPlanner::session_state'] = lambda it, a, c: Opaque('SessionState')
    if not prune: it.overrides['SeafowlSyncPlanner::prune_partitions'] = lambda it, a, c: Ok(Vec([]))
    it.overrides['now'] = lambda it, a, c: Int(1, 'u64')
    ctx = Obj(); m = Struct('SyncPlanMetrics', AnyF())
    return it.mk('SeafowlSyncPlanner', context=ctx, metrics=m)
class Prov(Obj):
    tname = 'DeltaTableProvider'
    def __init__(self, t, files): Ctx.cur.user['prov'] = self; self.t = t; self.files = files; self.schema = t.schema; self.rows = t.rows
    def m_with_files(self, it, a, c): self.files = deref(a[0]); return self
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return self.schema
def item(h, layout, b):
    s = schema_of(h, [(r, n, t, f.name) for (r, n, t), f in zip(layout, b.schema.fields)])
    return h.it.mk('DataSyncItem', is_squashed=True, tx_ids=Vec([]), sync_schema=s, data=Vec([b]))
def plan_syncs(h, order, syncs, base):
    """order: the table's columns (name, type); syncs: [(layout, batch)]; base: rows of cells"""
    it = h.it; p = world(h)
    t = FakeTable(B.Schema([B.Field(n, dt(ty)) for n, ty in order]), base)
    r = it.await_(it.call_fn(PL + 'SeafowlSyncPlanner::plan_delta_syncs', p, Vec([item(h, l, b) for l, b in syncs]), t))
    return r
def cell(m, c): return m(c[1] if not isinstance(c[1], int) else c[1]) if c[1] is not None and m(Z(c[0])) in (True, 'True') else None
def showch(m, chs): return [{'old': [m(x) for x in c.old] if m(Z(c.o)) is True else None, 'new': [m(x) for x in c.new] if m(Z(c.n)) is True else None, 'values': {k: cell(m, v) for k, v in c.vals.items()}, 'changed': {k: m(Z(v)) for k, v in c.flags.items()}} for c in chs]

def same(x, y):
    if x[1] is None and y[1] is None: return True
    if x[1] is None: return bnot(y[0])
    if y[1] is None: return bnot(x[0])
    return bor(band(bnot(x[0]), bnot(y[0])), band(x[0], y[0], veq(x[1], y[1])))
def order(layouts, cols):
    ty = {n: t for l in layouts for r, n, t in l if r != 'Changed'}; return [(c, ty.get(c, 'Int32')) for c in cols]
def judge(h, r, o, pk, s, info, tol=()):
    """the rows of the plan are those of state s, for every key; tol: [(known key, what, lambda K, col, got)] wrong values that are recorded findings"""
    h.check(r.var == 'Ok', 'the flush cannot be planned', info=lambda m: {**info(m), 'result': repr(r)[:300]})
    rel = deref(deref(r.f['0']).a[0]).rel; names = [x.name for x in rel.cols]
    h.check(names == [c for c, _ in o], 'the rows written do not have the columns of the table', info=lambda m: {'columns': names})
    K = tuple(fresh(f'key {p}', 'Int32') for p in pk); at = {c: i for i, c in enumerate(names)}
    inf = lambda m: {**info(m), 'key': [m(x) for x in K], 'written': [[cell(m, x) for x in row] for g, row in rel.rows if m(Z(g)) is True]}
    h.check(band(*[bor(bnot(g), band(*[row[at[p]][0] for p in pk])) for g, row in rel.rows]), 'a row without a key is written', info=inf)
    hit = [band(g, keq([row[at[p]][1] if row[at[p]][1] is not None else z3.IntVal(-9) for p in pk], K)) for g, row in rel.rows]
    h.check(bor(bnot(s.ex(K)), *hit), 'a row that should be there is not', info=inf)
    h.check(bor(s.ex(K), band(*[bnot(x) for x in hit])), 'a row that should be gone is there', info=inf)
    h.check(z3.AtMost(*[Z(x) for x in hit], 1) if hit else True, 'a row is there twice', info=inf)
    late = []
    for c, _ in o:
        if c in pk: continue
        want = s.val(K, c); good = []; bad = {k: [] for k, _, _ in tol}
        for x, (g, row) in zip(hit, rel.rows):
            got = row[at[c]]; ok = bor(bnot(x), bnot(s.ex(K)), same(got, want)); known = [(k, f(K, c, got)) for k, _, f in tol]
            good.append(bor(ok, *[t for _, t in known]))
            for k, t in known: bad[k].append(bor(ok, bnot(t)))
        i = lambda m, c=c, want=want: {**inf(m), 'column': c, 'expected': cell(m, want)}
        h.check(band(*good), f'a row has the wrong value of {c}', info=i)
        late += [(k, w, band(*bad[k]), i) for k, w, _ in tol]
    for k, w, cond, i in late: h.check(cond, w, key=k, info=i)
    h.wit('flushed')
def moved(s0, s):
    """the value of a column nobody sent is looked up under the row's new key instead of the key it had"""
    return ('column not sent, row under another key', 'a column that the syncs do not change is lost when the key of the row changes', lambda K, c, got: band(s.touched(K), bnot(s.put(K, c)), same(got, s0.val(K, c))))
def show_rows(m, base): return [dict(key=[m(x) for x in k], **{c: cell(m, v) for c, v in vs.items()}) for g, k, vs in base if m(Z(g)) is True]
def base_rows(base, pk, cols): return [(g, [(True, k[pk.index(c)]) if c in pk else vs[c] for c in cols]) for g, k, vs in base]
