"""shared by C06, C07, C24: the sync writer executed over a stub lakehouse"""
from checks.syncs import *
from engine import interp as I
W = 'seafowl::sync::writer::'
class Bag(Obj):
    def __init__(self, **f): self.f = f
    def m_clone(self, it, a, c): return self
    def debug_(self, it): return Text([OpaquePiece(self)])
    display_ = debug_
SCHEMAS = [[('OldPk', 'k', 'Int32', 'old_pk_k'), ('NewPk', 'k', 'Int32', 'new_pk_k'), ('Value', 'v', 'Int32', 'value_v')],
           [('OldPk', 'k', 'Int32', 'old_pk_k'), ('NewPk', 'k', 'Int32', 'new_pk_k'), ('Value', 'w', 'Int32', 'value_w')]]
def delta_err(): return Err(Enum('DeltaTableError', 'Generic', {'0': 'injected'}))
STEPS = ['location', 'create', 'load', 'history', 'squash', 'plan', 'adds', 'commit']

class Msg:
    """one accepted message with rows"""
    def __init__(self, i, url, origin, tx, rows, mem, kind, at): self.i = i; self.url = url; self.origin = origin; self.tx = tx; self.rows = rows; self.mem = mem; self.kind = kind; self.at = at; self.commits = []
class Tx:
    def __init__(self, origin): self.origin = origin; self.seq = None
class Commit: pass

class LogStore(Obj):
    tname = 'LogStore'
    def __init__(self, w, url): self.w = w; self.url = url
    def m_clone(self, it, a, c): return self
    def m_root_uri(self, it, a, c): return self.url
    def m_object_store(self, it, a, c): return ('store', self.url)
    def m_is_delta_table_location(self, it, a, c):
        return delta_err() if self.w.fails('location') else Ok(self.url in self.w.tables)
class Table(Obj):
    tname = 'DeltaTable'
    def __init__(self, w, store): self.w = w; self.store = store; self.ver = None
    def m_load(self, it, a, c):
        if self.w.fails('load') or self.store.url not in self.w.tables: return delta_err()
        self.ver = self.w.tables[self.store.url]; return Ok(UNIT())
    def m_history(self, it, a, c):
        if self.w.fails('history'): return delta_err()
        cs = [x for x in self.w.commits if x.url == self.store.url]
        inf = cs[-1].info if cs else None
        return Ok(Vec([Bag(info=InfoMap(inf))]))
    def m_get_files_count(self, it, a, c): return Int(0, 'usize')
class InfoMap(Obj):
    def __init__(self, v): self.v = v
    def m_get(self, it, a, c):
        if deref(a[0]) != 'sync_commit_info': raise Unsupported('commit info key')
        return NONE() if self.v is None else Some(Json(self.v))
class Create(Obj):
    def __init__(self, w): self.w = w; self.store = None
    def method_missing(self, it, name, args, c):
        if name == 'with_log_store': self.store = deref(args[0])
        if name == 'with_columns': self.cols = [(x.name, x.ty) for x in map(deref, it_list(it, args[0]))]
        if name.startswith('with_'): return self
        raise Unsupported('CreateBuilder::' + name)
    def await_(self, it):
        if self.w.fails('create'): return delta_err()
        if self.store is None: raise Unsupported('no log store')
        q = self.w.queued(self.store.url); k = SCHEMAS[q[0].kind] if q else None
        self.w.h.check(k is not None and sorted(n for n, _ in self.cols) == sorted(n for r, n, t, f in k if r in ('NewPk', 'Value')), 'the table is created with other columns than those of the sync', info=self.w.info)
        self.w.tables[self.store.url] = 0; t = Table(self.w, self.store); t.ver = 0; return Ok(t)
class Json(Obj):
    """a serialised value; deserialises to itself"""
    def __init__(self, v): self.v = v
    def m_clone(self, it, a, c): return self
    def debug_(self, it): return Text([OpaquePiece(self)])

class World:
    def __init__(self, h, urls=('file:///t1', 'file:///t2'), origins=('A', 'B'), schemas=1, budget=1, fresh_tables=True):
        self.h = h; self.msgs = []; self.txs = []; self.commits = []; self.open = None; self.durable = {}; self.memory = {}
        self.tables = {} if fresh_tables else {u: 0 for u in urls}
        self.budget = budget; self.failed = []; self.nsq = 0; self.sq = {}; self.faulty = True; self.maxrows = 150000
        ctx = h.ctx; ctx.user['w'] = self; self.now = h.int('t0', 'u64', 0, 1 << 40).v; ctx.user['wall'] = self.now
        it = h.it
        self.conf = Bag(max_in_memory_bytes=h.int('max_in_memory_bytes', 'usize', 0, 1 << 40), max_replication_lag_s=h.int('max_replication_lag_s', 'u64', 0, 1 << 40),
                        max_syncs_per_url=h.int('max_syncs_per_url', 'usize', 1, 1 << 20), write_lock_timeout_s=Int(3, 'u64'), flush_task_interval_s=Int(900, 'u64'))
        self.ctxobj = Bag(config=Bag(misc=Bag(sync_conf=self.conf, max_partition_size=Int(1024, 'u32'))), inner=CtxInner())
        self.ctxobj.m_commit_delta_table = self.commit
        self.urls = list(urls); self.stores = {u: LogStore(self, u) for u in urls}; self.origins = list(origins)
        self.schemas = [schema_of(h, s) for s in SCHEMAS[:schemas]]
        self.writer = it.call_fn(W + 'SeafowlDataSyncWriter::new', self.ctxobj)
        self.count = {}
    def fails(self, step):
        if not self.faulty or self.budget == 0: return False
        if self.h.flip(f'{step} fails'): self.budget -= 1; self.failed.append(step); return True
        return False
    def tick(self, dt=None):
        t = self.h.int('t', 'u64', 0, 1 << 41).v; self.h.assume(mkbool(t >= self.now)); self.now = self.h.ctx.user['wall'] = t
    # --- what the code calls
    def commit(self, it, a, c):
        if self.fails('commit'): return delta_err()
        actions, table, op = [deref(x) for x in a]
        k = Commit(); k.url = table.store.url; k.info = None; k.msgs = []; k.items = []; k.removes = []; k.at = self.now
        for act in it_list(it, actions):
            act = deref(act)
            if isinstance(act, Obj) and act.__class__.__name__ == 'CInfo': k.info = act.v
            elif isinstance(act, Enum) and act.var == 'Add':
                p = deref(act.f['0']); k.items.append(p)
            else: k.removes.append(act)
        k.ver = table.ver
        self.commits.append(k); self.on_commit(k)
        return Ok(UNIT())
    def on_commit(self, k):
        h = self.h
        plans = [p.f['plan'] for p in k.items]
        h.check(len(plans) == 1 and k.removes == [('remove', k.url, plans[0].id)], 'a flush does not commit the adds and removes of one plan', info=lambda m: {'adds': len(plans), 'removes': repr(k.removes)})
        p = plans[0]
        h.check(p.url == k.url, 'the rows of one table are committed to another')
        k.plan = p
        for i in p.tags:
            h.check(not self.msgs[i].commits, 'a sync message is committed twice', info=self.info); self.msgs[i].commits.append(k)
        k.msgs = p.tags
        due = [x.i for x in self.msgs if x.url == k.url and (not x.commits or x.commits == [k])]
        h.check(p.tags == due, 'a flush commits other messages than those queued for the table, or in another order', info=lambda m: {'committed': p.tags, 'queued': due})
        self.trigger(k, p); self.commit_note(k)
        h.wit('commit')
    def commit_note(self, k):
        """the sequence recorded in the table's log is one all of whose changes to this table are in it"""
        h = self.h; br = h.ctx.branch
        if k.info is None:
            h.check(not any(x.tx.seq is not None for x in self.msgs if x.url == k.url and x.commits and x.commits[0] is k), 'a finished transaction is committed without recording its sequence', info=self.info); return
        o, seq, new = k.info.f['origin'], k.info.f['sequence'].v, k.info.f['new_tx']
        h.wit('recorded')
        h.check(any(t.origin == o and t.seq is not None and br(mkbool(t.seq == seq)) for t in self.txs), 'the sequence recorded in the log is none the origin sent', info=self.info)
        for x in self.msgs:
            if x.url == k.url and x.origin == o and not x.commits and x.tx.seq is not None:
                h.check(mkbool(x.tx.seq > seq), 'the log records a sequence whose changes are still queued', info=self.info)
        done = [x for x in self.msgs if x.url == k.url and x.commits and x.commits[0] is k and x.tx.seq is not None]
        if done:
            t = done[-1].tx      # the last finished transaction with changes in this commit
            h.check(o == t.origin and mkbool(seq == t.seq), 'the sequence recorded in the log is not that of the last finished transaction in the table', info=self.info)
        openrows = any(x.tx.seq is None for x in self.msgs if x.url == k.url and x.commits and x.commits[0] is k)
        h.check(new == openrows, 'the log does not say whether an unfinished transaction is in the table', info=lambda m: {**self.info(m), 'flag': repr(new)})
        prev = [y.info for y in self.commits if y is not k and y.url == k.url and y.info is not None and y.info.f['origin'] == o]
        if prev: h.check(mkbool(seq >= prev[-1].f['sequence'].v), 'the sequence recorded in the log goes backwards', info=self.info)
    def total(self, url=None): 
        """true size and rows of what is queued"""
        size = 0; rows = 0
        left = [x for x in self.msgs if not x.commits and (url is None or x.url == url)]
        ids = {x.i for x in left}
        groups = self.cover(ids)
        for g in groups:
            if len(g) == 1 and g not in self.sq: size = size + self.msgs[g[0]].mem; rows = rows + self.msgs[g[0]].rows
            else: s = self.sq[g]; size = size + s[0]; rows = rows + s[1]
        return size, rows
    def cover(self, ids):
        out = []; left = set(ids)
        for g in sorted(self.sq, key=lambda g: -len(g)):
            if set(g) <= left: out.append(g); left -= set(g)
        return out + [(i,) for i in left]
    def queued(self, url): return [x for x in self.msgs if x.url == url and not x.commits]
    def trigger(self, k, p):
        """a flushed table is one for which a limit holds"""
        h = self.h; w = self
        if getattr(self, 'drain', False): return
        # state before this commit: the messages of k count as queued
        for i in p.tags: self.msgs[i].commits.remove(k)
        size, _ = self.total(); mine, _ = self.total(k.url)
        oldest = [x.at for x in sorted((y for y in self.msgs if not y.commits), key=lambda y: y.i)]
        first = {}
        for x in self.msgs:
            if not x.commits: first.setdefault(x.url, x.at)
        others = [self.total(u)[0] for u in first if u != k.url]
        for i in p.tags: self.msgs[i].commits.append(k)
        lag = mkbool(k.at - first[k.url] >= self.conf.f['max_replication_lag_s'].v)
        syncs = mkbool(p.nitems >= self.conf.f['max_syncs_per_url'].v)
        # by size: the whole queue is over the limit (the largest table is squashed, then flushed)
        big = mkbool(size >= self.conf.f['max_in_memory_bytes'].v)
        h.check(bor(lag, bor(syncs, big)), 'a table is flushed although no limit is reached', info=lambda m: {**self.info(m), 'table': k.url, 'items': p.nitems, 'size': m(Int(size))}, key='needless flush')
    # --- operations
    def enqueue(self, url, origin, seq, kind=0, zero=False):
        h = self.h; it = h.it; i = len(self.msgs)
        rows = 0 if zero else h.int('rows', 'usize', 1, self.maxrows).v
        mem = 0 if zero else h.int('bytes', 'usize', 1, 1 << 40).v
        s = self.schemas[kind]
        sch = Schema([Field(f, dt(t)) for r, n, t, f in SCHEMAS[kind]])
        bs = [] if zero else [Batch(sch, [], rows, mem=Int(mem, 'usize'), tag=(i,))]
        r = it.method(self.writer, 'enqueue_sync', I_enum('LakehouseSyncTarget', 'Delta', self.stores[url]), opt(Int(seq, 'u64') if seq is not None else None), origin, clone(s), Vec(bs))
        ok = r.var == 'Ok'
        if not ok: self.h.wit('refused'); return r
        if self.open is None: self.open = Tx(origin); self.txs.append(self.open)
        tx = self.open
        h.check(tx.origin == origin, 'a message of another origin is accepted into an open transaction', key='mixed transaction')
        if not zero: self.msgs.append(Msg(i, url, origin, tx, rows, mem, kind, self.now))
        if seq is not None: tx.seq = seq; self.open = None; self.memory[origin] = seq
        return r
    def flush(self):
        return self.h.it.method(self.writer, 'flush')
    def sequences(self, origin):
        r = self.h.it.method(self.writer, 'stored_sequences', origin)
        return [None if x.var == 'None' else deref(x.f['0']).v for x in (deref(y) for y in r.a)]
    def check_sequences(self):
        h = self.h; br = h.ctx.branch
        for o in self.origins:
            mem, dur = self.sequences(o)
            want = self.memory.get(o)
            h.check((mem is None) == (want is None) and (mem is None or mkbool(mem == want)), 'the sequence reported as in memory is not the last one accepted', info=self.info)
            old = self.durable.get(o)
            if old is not None: h.check(dur is not None and mkbool(dur >= old), 'the durable sequence number goes backwards', info=self.info)
            self.durable[o] = dur
            if dur is None: continue
            h.wit('durable')
            h.check(mem is not None and mkbool(dur <= mem), 'the durable sequence number is past the one in memory', info=self.info)
            mine = [t for t in self.txs if t.origin == o and t.seq is not None]
            h.check(any(br(mkbool(t.seq == dur)) for t in mine), 'the durable sequence number is none the origin sent', info=self.info)
            for x in self.msgs:
                if x.origin == o and not x.commits:
                    # a message that is still queued belongs to a later transaction
                    if x.tx.seq is None: continue      # its number will be higher than every earlier one
                    h.check(mkbool(x.tx.seq > dur), 'a change is reported durable before it is committed', info=self.info)
    def gauges(self):
        b = r = 0; oldest = None
        for kind, name, labels, op, v in self.h.ctx.user.get('metrics', []):
            nm = str(name)
            if nm.endswith('in_memory_bytes_current'): b = b + sgn(op) * num(v)
            elif nm.endswith('in_memory_rows_current'): r = r + sgn(op) * num(v)
            elif nm.endswith('in_memory_oldest_timestamp_seconds'): oldest = num(v)
        return b, r, oldest
    def check_accounting(self):
        h = self.h
        size, rows = self.total(); b, r, oldest = self.gauges()
        h.check(mkbool(b == size), 'the in-memory size is not the size of what is queued', info=lambda m: {**self.info(m), 'reported': m(Int(b)), 'true': m(Int(size))}, key='size accounting')
        h.check(mkbool(r == rows), 'the in-memory row count is not that of what is queued', info=lambda m: {**self.info(m), 'reported': m(Int(r)), 'true': m(Int(rows))}, key='row accounting')
    def check_oldest(self):
        old = next((x.at for x in self.msgs if not x.commits), 0); g = self.gauges()[2]
        self.h.check(g is not None and mkbool(g == old), 'the age of the oldest queued change is not what is reported', info=lambda m: {**self.info(m), 'reported': m(Int(g)) if g is not None else None}, key='age accounting')
    def idle(self):
        """after a successful flush no limit is exceeded"""
        h = self.h; size, _ = self.total(); self.check_oldest()
        if any(not x.commits for x in self.msgs):
            h.check(mkbool(size < self.conf.f['max_in_memory_bytes'].v), 'a flush leaves more in memory than the configured limit', info=self.info, key='memory limit')
            oldest = next(x for x in self.msgs if not x.commits)
            h.check(mkbool(self.now - oldest.at < self.conf.f['max_replication_lag_s'].v), 'a flush leaves changes older than the configured lag', info=self.info, key='lag limit')
            h.wit('left queued')
    def finish(self, idle=False):
        """everything still queued is committed by a flush that succeeds"""
        h = self.h; self.faulty = False; self.drain = True
        limit = self.conf.f['max_syncs_per_url']; before = len(self.commits)
        self.conf.f['max_replication_lag_s'] = Int(0, 'u64')
        r = self.flush()
        h.check(r.var == 'Ok', 'a flush without faults fails', info=lambda m: {'error': repr(r), **self.info(m)})
        for x in self.msgs: h.check(len(x.commits) == 1, 'an accepted sync message is lost', info=self.info)
        if idle:
            for k in self.commits[before:]: h.check(mkbool(k.plan.nitems < limit.v), 'a flush leaves a table with more syncs than the configured limit', info=lambda m: {**self.info(m), 'table': k.url, 'syncs': k.plan.nitems}, key='syncs limit')
        return self.commits[before:]
    def info(self, m):
        return {'messages': [dict(i=x.i, table=x.url, origin=x.origin, rows=m(Int(x.rows)), bytes=m(Int(x.mem)), seq=None if x.tx.seq is None else m(Int(x.tx.seq)), at=m(Int(x.at)), committed=bool(x.commits)) for x in self.msgs],
                'failed': self.failed, 'durable': {o: None if v is None else m(Int(v)) for o, v in self.durable.items()}, 'limits': {k: m(v) for k, v in self.conf.f.items()}}
def sgn(op): return {'inc': 1, 'dec': -1}[op]
def num(v):
    v = deref(v)
    if isinstance(v, Int): return v.v
    if isinstance(v, (int, float)): return v
    if hasattr(v, 'v'): return v.v
    return v
class CtxInner(Obj):
    def m_state(self, it, a, c): return Opaque('SessionState')
    def m_clone(self, it, a, c): return self
def I_enum(t, v, x): return Ctx.cur.user['w'].h.it.mke(t, v, x)
class Plan(Obj):
    def __init__(self, url, tags, nitems, items, id): self.url = url; self.tags = tags; self.nitems = nitems; self.items = items; self.id = id
    def m_clone(self, it, a, c): return self
from engine.ext_batch import it_list

class Planner(Obj):
    def m_plan_delta_syncs(self, it, a, c): return plan_syncs(it, [self] + list(a), c)
def plan_syncs(it, a, c):
    w = Ctx.cur.user['w']; syncs = [deref(s) for s in deref(a[1]).a]; table = deref(a[2])
    if w.fails('plan'): return Err(w.h.it.mke('SyncError', 'NotImplemented'))
    tags = []; items = []
    for s in syncs:
        data = [deref(b) for b in deref(s.f['data']).a]
        w.h.check(len(data) == 1, 'a sync is planned with unsquashed batches', info=w.info, key='unsquashed')
        tags += list(data[0].tag); items.append(s)
        for i in data[0].tag:
            w.h.check(it.method(w.schemas[w.msgs[i].kind], 'is_compatible_with', s.f['sync_schema']), 'batches of different shapes are merged without regard to their columns', info=w.info)
    w.h.check(table.ver is not None and table.ver == w.tables[table.store.url], 'planned against an unloaded table')
    id = len(w.commits)
    p = Plan(table.store.url, tags, len(syncs), items, id)
    w.last_plan = p
    return Ok(Tup((p, Vec([('remove', p.url, id)]))))
def squash(it, a, c):
    w = Ctx.cur.user['w']; data = [deref(b) for b in deref(a[1]).a]
    if w.fails('squash'): return Err(w.h.it.mke('SyncError', 'SchemaError', reason='injected'))
    tags = tuple(t for b in data for t in b.tag)
    rows = 0
    for b in data: rows = rows + b.n
    n = w.h.int('squashed rows', 'usize', 0, 150000 * 8); mem = w.h.int('squashed bytes', 'usize', 0, 1 << 40)
    w.h.assume(mkbool(n.v <= rows))
    w.sq[tags] = (mem.v, n.v)
    return Ok(Batch(data[0].schema, [], n.v, mem=mem, tag=tags))
def to_adds(it, a, c):
    w = Ctx.cur.user['w']; p = deref(a[1])
    if w.fails('adds'): return Err(Enum('DataFusionError', 'Execution', {'0': 'injected'}))
    w.h.check(deref(a[2]) == ('store', p.url), 'the data files are uploaded to another table')
    return Ok(Vec([Opaque('Add', plan=p)]))
class CInfo(Obj):
    def __init__(self, v): self.v = v
def commit_info(it, a, c):
    m = deref(a[0])
    v = next((deref(x[1]) for x in m.e if x[0] == 'sync_commit_info'), None); return CInfo(None if v is None else v.v)
def install(h, real_create=False):
    it = h.it; ov = it.overrides
    ov['SeafowlSyncPlanner::new'] = lambda it, a, c: Planner()
    ov['squash_batches'] = squash; ov['plan_to_delta_adds'] = to_adds
I.EXT_FN['DeltaTable::new'] = lambda it, a, c: Table(Ctx.cur.user['w'], deref(a[0]))
I.EXT_FN['CreateBuilder::new'] = lambda it, a, c: Create(Ctx.cur.user['w'])
I.EXT_FN['Action::commit_info'] = commit_info
I.EXT_FN['serde_json::to_value'] = lambda it, a, c: Ok(Json(clone(deref(a[0]))))
def from_value(it, a, c):
    v = clone(deref(a[0]).v); t = c.tf[0] if c.tf else c.hint
    while t is not None and t.n == 'Result' and t.a: t = t.a[0]
    if t is None: raise Unsupported('from_value of unknown type')
    return Ok(Some(v) if t.n == 'Option' else v)
I.EXT_FN['serde_json::from_value'] = from_value
class DSchema(Obj):
    def __init__(self, s): self.s = s
    def m_fields(self, it, a, c): return Iter(list(self.s.fields))
I.EXT_FN['Schema::try_from'] = lambda it, a, c: Ok(DSchema(deref(a[0])))

def play(h, script, seqs, shapes=1, faults=0, limits='all', small=True, fresh=True, origins=('A', 'B'), urls=('file:///t1', 'file:///t2'), each=lambda w, op: None):
    """a history: e = enqueue rows, z = end the open transaction without rows, f = flush; seqs: which message carries a sequence number (1 - ?)"""
    w = World(h, urls, origins, shapes, budget=faults, fresh_tables=fresh); install(h)
    w.maxrows = 100_000 // len(script) if small else 150_000
    if limits != 'all':
        if limits != 'lag': w.conf.f['max_replication_lag_s'] = Int(1 << 62, 'u64')
        if limits != 'size': w.conf.f['max_in_memory_bytes'] = Int(1 << 62, 'usize')
        if limits != 'syncs': w.conf.f['max_syncs_per_url'] = Int(1 << 62, 'usize')
    last = {o: 0 for o in origins}; n = 0
    for op in script:
        w.tick()
        if op in 'ez':
            url = urls[0] if n == 0 else h.pick(list(urls), f'table {n}')
            org = w.open.origin if w.open is not None else origins[0] if n == 0 else h.pick(list(origins), f'origin {n}')
            seq = None
            if seqs[n] == '1' or (seqs[n] == '?' and h.flip(f'sequence {n}')):
                seq = h.int(f'seq{n}', 'u64', 1).v; h.assume(mkbool(seq > last[org])); last[org] = seq
            w.enqueue(url, org, seq, h.choose(shapes, f'shape {n}') if shapes > 1 else 0, zero=op == 'z'); n += 1
            if op == 'e': w.check_oldest()
        else:
            nf = len(w.failed); r = w.flush()
            if r.var == 'Ok':
                h.check(len(w.failed) == nf, 'a failed flush is reported as done', info=w.info); w.idle()
            else:
                h.check(len(w.failed) > nf, 'a flush without faults fails', info=lambda m: {'error': repr(r), **w.info(m)}); h.wit('failure')
        w.check_accounting(); each(w, op)
    w.idle_end = script[-1] == 'f' and r.var == 'Ok'
    return w
