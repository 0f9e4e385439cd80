"""C08: squashing a batch of row changes keeps their meaning."""
from checks.syncs import *
NATIVE = None
BOUNDS = 'histories of up to 4 row changes (5 thorough) split over up to 2 batches, each an insert, update, delete, key change or nothing, with arbitrary 32-bit keys of one or two columns and arbitrary Changed flags; several column orders; up to 2 Changed columns'
ASSUMPTIONS = ['the history is well-formed: an update or delete names a row that exists at that point, an insert or key change a key that does not', 'primary keys are wholly NULL or wholly not', 'arrow contracts of concat_batches, take and RowConverter (equal rows encode equal)', 'Changed columns hold no NULL']
MODELS = 'arrow RecordBatch, take, concat, RowConverter'
LAYOUTS = {
    'plain': [('OldPk', 'k', 'Int32'), ('NewPk', 'k', 'Int32'), ('Value', 'v', 'Int32')],
    'changed': [('OldPk', 'k', 'Int32'), ('NewPk', 'k', 'Int32'), ('Changed', 'v', 'Boolean'), ('Value', 'v', 'Int32')],
    'two changed': [('OldPk', 'k', 'Int32'), ('NewPk', 'k', 'Int32'), ('Changed', 'v', 'Boolean'), ('Value', 'v', 'Int32'), ('Changed', 'w', 'Boolean'), ('Value', 'w', 'Int32')],
    'mixed order': [('Value', 'w', 'Int32'), ('NewPk', 'k', 'Int32'), ('Value', 'v', 'Int32'), ('Changed', 'w', 'Boolean'), ('Value', 'u', 'Int32'), ('OldPk', 'k', 'Int32'), ('Changed', 'v', 'Boolean')],
    'composite': [('OldPk', 'a', 'Int32'), ('OldPk', 'b', 'Int32'), ('NewPk', 'a', 'Int32'), ('NewPk', 'b', 'Int32'), ('Value', 'v', 'Int32')],
    'composite, keys in another order': [('OldPk', 'a', 'Int32'), ('OldPk', 'b', 'Int32'), ('NewPk', 'b', 'Int32'), ('NewPk', 'a', 'Int32'), ('Changed', 'v', 'Boolean'), ('Value', 'v', 'Int32')],
    'composite of different types': [('OldPk', 'a', 'Int32'), ('OldPk', 'b', 'Int64'), ('NewPk', 'b', 'Int64'), ('NewPk', 'a', 'Int32'), ('Value', 'v', 'Int32')],
}
NULLV = -2
class Change:
    """one row change: keys as tuples of terms or None, values and flags by column name"""
    def __init__(self, old, new, vals, flags): self.old = old; self.new = new; self.vals = vals; self.flags = flags
def keyeq(a, b): return band(*[mkbool(x == y) for x, y in zip(a, b)])
def bt(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def it_(c, a, b): return z3.If(bt(c), a if z3.is_expr(a) else z3.IntVal(a), b if z3.is_expr(b) else z3.IntVal(b))
def base(name, key): return z3.Function('base_' + name, *([z3.IntSort()] * len(key)), z3.IntSort())(*[k if z3.is_expr(k) else z3.IntVal(k) for k in key])

class Entry: pass
def sequential(h, changes, names):
    """apply one after another to any table; returns [Entry(orig, cur, vals, chg)]"""
    br = h.ctx.branch; es = []
    for c in changes:
        e = None
        if c.old is not None:
            for x in es:
                if x.cur is not None and br(keyeq(x.cur, c.old)): e = x; break
            if e is None:
                for x in es:
                    if x.orig is not None: h.assume(bnot(keyeq(x.orig, c.old)))
                e = Entry(); e.orig = c.old; e.vals = {n: base(n, c.old) for n in names}; e.chg = {n: False for n in names}; es.append(e)
        elif c.new is not None:
            e = Entry(); e.orig = None; e.vals = {n: z3.IntVal(NULLV) for n in names}; e.chg = {n: False for n in names}; es.append(e)
        else: continue
        if c.new is not None:
            for x in es:
                if x is not e and x.cur is not None: h.assume(bnot(keyeq(x.cur, c.new)))
        e.cur = c.new
        if c.new is not None:
            for n in names:
                f = c.flags.get(n, True)
                e.vals[n] = it_(f, c.vals[n], e.vals[n]); e.chg[n] = bor(e.chg[n], f)
    return es
def at_once(changes, names):
    """a change set applied at once: (keys removed, [(key, vals)])"""
    gone = []; made = []
    for c in changes:
        if c.old is None and c.new is None: continue
        b = {n: base(n, c.old) if c.old is not None else z3.IntVal(NULLV) for n in names}
        if c.old is not None: gone.append(c.old)
        if c.new is not None: made.append((c.new, {n: it_(c.flags.get(n, True), c.vals[n], b[n]) for n in names}))
    return gone, made
def match(h, xs, ys, key, msg, info):
    """pairs of equal keys between two lists (keys distinct on each side)"""
    br = h.ctx.branch; ys = list(ys); out = []
    for x in xs:
        j = next((j for j, y in enumerate(ys) if br(keyeq(key(x), key(y)))), None)
        h.check(j is not None, msg, info=info)
        out.append((x, ys.pop(j)))
    h.check(not ys, msg, info=info)
    return out

def make_changes(h, layout, n, markers=100, ck=('insert', 'update', 'delete', 'nothing')):
    roles = lambda r: [(i, nm) for i, (ro, nm, t) in enumerate(layout) if ro == r]
    pk = sorted(nm for i, nm in roles('OldPk')); ty = {nm: t for r, nm, t in layout if r == 'OldPk'}
    names = [nm for i, nm in roles('Value')]; flagged = {nm for i, nm in roles('Changed')}
    out = []
    for r in range(n):
        k = h.pick(list(ck), f'kind of change {r}')
        key = lambda side: tuple(h.int(f'{side}{r}{nm}', 'i32').v for nm in pk)
        old = key('old') if k in ('update', 'delete') else None; new = key('new') if k in ('insert', 'update') else None
        out.append(Change(old, new, {nm: markers + 10 * r + i for i, nm in enumerate(names)}, {nm: h.bool(f'changed {nm} {r}') for nm in sorted(flagged)}))
    return out, pk, names
def to_batch(layout, pk, changes, nullable=True, tag=None):
    cols = []
    for role, nm, t in layout:
        vs = []
        for c in changes:
            if role in ('OldPk', 'NewPk'):
                k = c.old if role == 'OldPk' else c.new
                vs.append((False, None) if k is None else (True, Int(k[pk.index(nm)], 'i32' if t == 'Int32' else 'i64')))
            elif role == 'Changed': vs.append((True, c.flags[nm]))
            else: vs.append((True, Int(c.vals[nm], 'i32')))
        cols.append(Arr(t, vs))
    return Batch(Schema([Field(f'{r}_{n}'.lower(), dt(t), not (r == 'Changed' and not nullable)) for r, n, t in layout]), cols, len(changes), tag=tag)
def from_batch(layout, pk, b):
    out = []
    for i in range(b.n):
        cell = {(r, n): b.cols[j].vals[i] for j, (r, n, t) in enumerate(layout)}
        def key(r):
            ks = [cell[(r, n)] for n in pk]
            oks = [Ctx.cur.branch(o) for o, _ in ks]
            if not any(oks): return None
            if not all(oks): return 'mixed'
            return tuple(v.v for _, v in ks)
        vals = {}
        for (r, n), (ok, v) in cell.items():
            if r == 'Value': vals[n] = v.v if ok is True else NULLV
        out.append(Change(key('OldPk'), key('NewPk'), vals, {n: v for (r, n), (ok, v) in cell.items() if r == 'Changed'}))
    return out
def show(m, cs):
    return [{'old': None if c.old is None else [m(Int(k)) for k in c.old], 'new': None if c.new is None else [m(Int(k)) for k in c.new], 'vals': {k: m(Int(v)) for k, v in c.vals.items()}, 'flags': {k: m(v) for k, v in c.flags.items()}} for c in cs]
def compare(h, inp, out, names, what, flags=True, info=None):
    info = info or (lambda m: {'input': show(m, inp), 'output': show(m, out)})
    es = sequential(h, inp, names)
    h.check(not any(c.old == 'mixed' or c.new == 'mixed' for c in out), f'{what} breaks up a composite key', info=info)
    gone, made = at_once(out, names)
    want_gone = [e.orig for e in es if e.orig is not None]
    match(h, want_gone, gone, lambda x: x, f'{what} does not touch the same existing rows', info)
    wm = [(e.cur, e) for e in es if e.cur is not None]
    for (k, e), (k2, vals) in match(h, wm, made, lambda x: x[0], f'{what} leaves rows of other keys', info):
        for n in names: h.check(mkbool(e.vals[n] == vals[n]), f'{what} changes the value a row ends with', info=info)
    if flags:
        for e in es:
            if e.cur is None: continue
            for c in out:
                if c.new is None or (c.old is None) != (e.orig is None): continue
                if not h.ctx.branch(keyeq(c.new, e.cur)) or (c.old is not None and not h.ctx.branch(keyeq(c.old, e.orig))): continue
                for n, f in c.flags.items(): h.check(mkbool(bt(f) == bt(e.chg[n])), f'{what}: a column is flagged changed although nothing changed it, or the reverse', info=info)
    return es

@case('squash', over=[dict(layout=l, n=n, split=s, _tier=t) for l, n, s, t in
      [('plain', 1, False, 'quick'), ('plain', 3, True, 'quick'), ('changed', 3, False, 'quick'), ('two changed', 3, True, 'quick'), ('mixed order', 3, False, 'quick'), ('composite', 3, False, 'quick'), ('composite, keys in another order', 2, False, 'quick'), ('composite, keys in another order', 3, True, 'quick'), ('composite of different types', 2, True, 'quick'), ('changed', 4, True, 'quick'),
       ('plain', 4, True, 'thorough'), ('two changed', 4, False, 'thorough'), ('composite, keys in another order', 4, False, 'thorough'), ('changed', 5, False, 'thorough')]], budget=880)
def squash(h, layout, n, split):
    it = h.it; lay = LAYOUTS[layout]
    ch, pk, names = make_changes(h, lay, n)
    es = sequential(h, ch, names)        # also assumes the history well-formed
    nullable = h.flip('flags nullable') if any(r == 'Changed' for r, _, _ in lay) and n <= 2 else False
    cut = (n + 1) // 2 if split else n
    parts = [to_batch(lay, pk, ch[:cut], nullable)] + ([to_batch(lay, pk, ch[cut:], nullable)] if split and cut < n else [])
    s = schema_of(h, [(r, nm, t, f.name) for (r, nm, t), f in zip(lay, parts[0].schema.fields)])
    r = it.call_fn(S + 'utils::squash_batches', s, Vec(parts))
    info = lambda m: {'input': show(m, ch), 'result': repr(r)[:200]}
    h.check(r.var == 'Ok', 'a well-formed history cannot be squashed', info=info)
    b = deref(r.f['0'])
    h.check(b.n <= n, 'squashing adds rows', info=info)
    out = from_batch(lay, pk, b)
    compare(h, ch, out, names, 'squashing')
    cs = it.method(s, 'columns').a
    h.check(len(cs) == len(lay) and all(it.method(c, 'role').var == r and it.method(c, 'name') == nm for c, (r, nm, t) in zip(cs, lay)) and all(f.name == g.name and f.ty.var == g.ty.var for f, g in zip(b.schema.fields, parts[0].schema.fields)), 'squashing changes the columns')
    if b.n < n: h.wit('fewer rows')
    if any(e.orig is None and e.cur is None for e in es): h.wit('temporary row')
