"""C24: sync acknowledgements and query tickets are honest."""
from checks.syncs import *
from engine import ext_flight as F, interp as I
from engine.ext_flight import Bag, TRequest, TResponse, Status, Encoded, Batches, QStream
NATIVE = None
BOUNDS = 'one request of every kind against any sequence numbers; up to 3 sync requests in sequence and in every nesting of 2 or 3 concurrent ones at await points and atomic operations; up to 3 queries with up to 4 fetches in any order'
ASSUMPTIONS = ['concurrent requests interleave at await points and atomic operations, the one that cuts in running to its end', 'Uuid::new_v4 never repeats']
MODELS = 'the sync writer and the contexts (recording stubs; C06/C07, C20), tonic and arrow-flight messages, DashMap, RwLock, timeout'
P = 'seafowl::frontend::flight::'
class Writer(Obj):
    """records what it is asked; its sequence numbers are arbitrary at every moment"""
    def __init__(self, h, log): self.h = h; self.log = log; self.seqs = []
    def m_enqueue_sync(self, it, a, c):
        self.log.append(('enqueue', [deref(x) for x in a]))
        if self.h.flip('enqueue fails'): return Err(self.h.it.mke('SyncError', 'InvalidMessage', reason='because'))
        return Ok(UNIT())
    def m_flush(self, it, a, c):
        self.log.append(('flush',)); return Err(self.h.it.mke('SyncError', 'SchemaError', reason='disk full')) if self.h.flip('flush fails') else Ok(UNIT())
    def m_stored_sequences(self, it, a, c):
        h = self.h; r = [opt(h.int(f'{w}{len(self.seqs)}', 'u64')) if h.flip(f'{w} known') else NONE() for w in ('memory', 'durable')]
        self.seqs.append(r); self.log.append(('sequences', deref(a[0]), r)); return Tup(r)
class Lock(Obj):
    def __init__(self, w, log): self.w = w; self.log = log
    def m_write(self, it, a, c): return LockFut(self, 'write')
    def m_read(self, it, a, c): return LockFut(self, 'read')
    def m_clone(self, it, a, c): return self
class LockFut(Obj):
    def __init__(self, l, k): self.l = l; self.k = k
    def await_(self, it): it.sched(); self.l.log.append((self.k,)); return self.l.w
class LStore(Obj):
    def __init__(self, url): self.url = url
    def m_root_uri(self, it, a, c): return self.url
    def m_clone(self, it, a, c): return self
    def debug_(self, it): return Text([I.OpaquePiece(self)])
class Stores(Obj):
    def __init__(self, h, log): self.h = h; self.log = log
    def m_get_internal_object_store(self, it, a, c): return Ok(self)
    def m_get_log_store(self, it, a, c): p = deref(a[0]); self.log.append(('internal', p)); return LStore(('internal', p))
    def m_get_log_store_for_table(self, it, a, c):
        x = [deref(y) for y in a]; self.log.append(('external', *x))
        return Err(Enum('DataFusionError', 'Execution', {'0': 'no such store'})) if self.h.flip('store fails') else Ok(LStore(('external', x[2])))
    def m_clone(self, it, a, c): return self
def handler(h, log, w=None):
    it = h.it; w = w or Writer(h, log); st = Stores(h, log)
    ctx = Bag(config=Bag(misc=Bag(sync_conf=Bag(write_lock_timeout_s=h.int('lock timeout', 'u64', 0, 1 << 30)))), metastore=Bag(object_stores=st))
    ctx.m_get_internal_object_store = st.m_get_internal_object_store
    def timeout(it, a, c):
        s = it.method(deref(a[0]), 'as_secs'); h.check(mkbool(s.v == ctx.f['config'].f['misc'].f['sync_conf'].f['write_lock_timeout_s'].v), 'the lock is awaited for another time than the configured one', key='timeout')
        if h.flip('lock is busy'): return Err(Opaque('Elapsed'))
        return Ok(it.await_(a[1]))
    h.ctx.user['on_timeout'] = timeout
    I.EXT_FN['Url::parse'] = lambda it, a, c: Err(Opaque('ParseError')) if Ctx.cur.choose(2, 'bad url') else Ok(('url', deref(a[0])))
    H_ = it.call_fn(P + 'handler::SeafowlFlightHandler::new', ctx, Lock(w, log))
    return H_, w
def command(h, path='some/path', origin=None, seq='?', store=None, fmt=None):
    store = h.flip('own store') if store is None else store
    loc = NONE()
    if store: loc = Some(Struct('StorageLocation', {'name': 'n', 'location': h.str('location'), 'options': Map('HashMap', [['k', 'v']])}))
    q = NONE() if seq == '-' or (seq == '?' and not h.flip('sequence')) else Some(h.int('sequence', 'u64'))
    return Struct('DataSyncCommand', {'path': path, 'store': loc, 'column_descriptors': Vec([desc('NewPk', 'k')]), 'origin': origin if origin is not None else h.str('origin'), 'sequence_number': q, 'format': fmt or h.int('format', 'i32')})
def resp(r): return {k: deref(v) for k, v in deref(r.f['0']).f.items()}
def same(a, b): return a.var == b.var and (a.var == 'None' or mkbool(deref(a.f['0']).v == deref(b.f['0']).v))
SCH = [('NewPk', 'k', 'Int32', 'new_pk_k')]
def batches(h, kind):
    sch = Schema([Field('new_pk_k', dt('Int32'))])
    return [Batch(sch, [], n, tag=(i,)) for i, n in enumerate({'none': [], 'empty': [0], 'rows': [2], 'two': [0, 3]}[kind])]

@case('sync request', over=[dict(kind=k) for k in ('none', 'empty', 'rows', 'two')], expects=['answered'])
def request(h, kind):
    it = h.it; log = []; H_, w = handler(h, log); cmd = command(h); bs = batches(h, kind); sch = Opaque('SyncSchema'); loc = clone(cmd.f['store']); o = cmd.f['origin']; seq = clone(cmd.f['sequence_number'])
    r = it.method(H_, 'process_sync_cmd', cmd, sch, Vec(bs))
    kinds = [x[0] for x in log]; rows = kind in ('rows', 'two')
    info = lambda m: {'calls': repr(log)[:600], 'answer': repr(r)[:200]}
    if not rows and seq.var == 'None':
        h.check(r.var == 'Ok', 'a probe fails', info=info); a = resp(r); h.wit('probe')
        h.check('enqueue' not in kinds and 'flush' not in kinds and 'write' not in kinds, 'a probe changes something', info=info)
        h.check(a['accepted'] is True, 'a probe is not answered as accepted', info=info)
    elif r.var == 'Err':
        h.wit('failed'); return
    else:
        a = resp(r)
        if a['accepted'] is False:
            h.check('enqueue' not in kinds and 'flush' not in kinds, 'a message that is answered as not accepted was queued', info=info); h.wit('not accepted')
            h.check('write' not in kinds, 'a message is refused although the lock was free', info=info)
            for k in ('memory_sequence_number', 'durable_sequence_number'): h.check(a[k].var == 'None', 'a refused message is answered with sequence numbers it does not know', info=info)
            return
        h.check(kinds.count('enqueue') == 1 and kinds.count('flush') == 1, 'a message is answered as accepted without being queued once and a flush being attempted', info=info)
        h.check(kinds.index('write') < kinds.index('enqueue') < kinds.index('flush') < kinds.index('sequences'), 'the message is not queued, flushed and then answered, under the lock', info=info)
        e = next(x[1] for x in log if x[0] == 'enqueue')
        t = e[0]; ls = deref(t.f['0']) if isinstance(t, Enum) else None
        h.check(isinstance(t, Enum) and t.var == 'Delta' and ls.url == ('external' if loc.var == 'Some' else 'internal', 'some/path'), 'the message is queued for another table', info=info)
        h.check(same(e[1], seq), 'the message is queued with another sequence number', info=info); h.check(eq(e[2], o), 'the message is queued for another origin', info=info)
        h.check(e[3] is sch and [id(deref(b)) for b in e[4].a] == [id(b) for b in bs], 'other rows than those of the message are queued', info=info)
        if loc.var == 'Some':
            x = next(x for x in log if x[0] == 'external')
            h.check(x[1] == ('url', loc.f['0'].f['location']) and eq(x[2], loc.f['0'].f['options']), 'the table is looked up in another store than the message names', info=info)
        h.wit('accepted')
    s = [x for x in log if x[0] == 'sequences'][-1]
    h.check(eq(s[1], o), 'the sequence numbers of another origin are reported', info=info)
    h.check(same(a['memory_sequence_number'], s[2][0]) and same(a['durable_sequence_number'], s[2][1]), 'other sequence numbers than those in force are reported', info=info, key='reported sequences')
    h.wit('answered')

@case('first response', over=[dict(n=3, conc=False), dict(n=2, conc=True), dict(n=3, conc=True)], expects=['answered'])
def first(h, n, conc):
    it = h.it; log = []; done = []
    class W(Writer):
        def m_enqueue_sync(self, it, a, c): return Err(h.it.mke('SyncError', 'InvalidMessage', reason='no')) if h.flip('fails') else Ok(UNIT())
        def m_flush(self, it, a, c): return Ok(UNIT())
        def m_stored_sequences(self, it, a, c): return Tup([NONE(), NONE()])
    H_, w = handler(h, log, W(h, log))
    def go(i):
        probe = h.flip(f'probe {i}')
        cmd = command(h, origin='o', seq='-', store=False, fmt=Int(0, 'i32'))
        def f():
            r = it.method(H_, 'process_sync_cmd', cmd, Opaque('SyncSchema'), Vec(batches(h, 'none' if probe else 'rows')))
            if r.var == 'Ok': done.append((i, deref(r.f['0']).f['first']))
            return UNIT()
        return Future(f)
    if conc:
        h.ctx.interleave = True; h.ctx.user['preempt'] = True
        fs = [it.spawn(go(i)) for i in range(n)]
        for f in fs: it.await_(f)
    else:
        for i in range(n): it.await_(go(i))
    info = lambda m: {'responses (request, first)': done}
    flags = [f for _, f in done]
    if done:
        h.wit('answered')
        h.check(flags.count(True) == 1, 'not exactly one response is marked as the first', info=info, key='first flag')
        if not conc: h.check(flags[0] is True, 'another response than the first is marked', info=info)

def qhandler(h, log):
    it = h.it
    class C(Obj):
        def __init__(self, tag): self.tag = tag; self.f = {'metastore': Bag(object_stores='stores')}
        def m_clone(self, it, a, c): return self
        def m_scope_to_schema(self, it, a, c): return C(self.tag + [('path', deref(a[0]))])
        def m_with_metastore(self, it, a, c): return C(self.tag + [('metastore', deref(a[0]))])
        def m_plan_query(self, it, a, c):
            if h.flip('plan fails'): return Err(Enum('DataFusionError', 'Plan', {'0': 'no'}))
            return Ok(('plan', deref(a[0]), self.tag))
        def m_execute_stream(self, it, a, c):
            if h.flip('execution fails'): return Err(Enum('DataFusionError', 'Execution', {'0': 'no'}))
            p = a[0]; q = QStream(p[1], ('schema', p[1])); q.tag = p[2]; q.ctx = self.tag; return Ok(q)
    I.EXT_FN['Metastore::new_from_memory'] = lambda it, a, c: ('memory', deref(a[0]), deref(a[1]))
    it.overrides['Metastore::new_from_memory'] = I.EXT_FN['Metastore::new_from_memory']
    return it.call_fn(P + 'handler::SeafowlFlightHandler::new', C([]), Lock(None, log))
def ask(h, H_, q, meta=None, inline=None):
    it = h.it; d = ('descriptor', q)
    if inline is None: return it.method(H_, 'get_flight_info_statement', Struct('CommandStatementQuery', {'query': q, 'transaction_id': NONE()}), TRequest(d, meta))
    return it.method(H_, 'get_flight_info_fallback', Enum('Command', 'Unknown', {'0': Struct('Any', {'type_url': '', 'value': Encoded(inline)})}), TRequest(d, meta))
def ticket_of(r):
    info = deref(r.f['0']).v; b = info.endpoints[0].ticket.b
    return info, (b.v if isinstance(b, Encoded) else deref(b))
@case('tickets', over=[dict(n=2, k=3), dict(n=3, k=3, _tier='thorough'), dict(n=2, k=4, _tier='thorough')], expects=['fetched', 'unknown', 'failed'])
def tickets(h, n, k):
    it = h.it; log = []; H_ = qhandler(h, log); live = {}; ts = []
    for i in range(n):
        path = h.str('path') if h.flip(f'search path {i}') else None
        bad = path is not None and h.flip('bad header')
        inl = h.flip(f'inline {i}'); sch = Opaque('ListSchemaResponse')
        inline = Struct('InlineMetastoreCommandStatementQuery', {'query': f'query {i}', 'schemas': Some(sch)}) if inl else None
        r = ask(h, H_, f'query {i}', {'search-path': None if bad else path} if path is not None else {}, inline)
        if r.var == 'Err':
            h.check(r.f['0'].code == 'internal', 'a failed query is answered as something else'); h.wit('failed'); continue
        h.check(not bad, 'an unreadable search path is ignored')
        info, t = ticket_of(r)
        h.check(len(info.endpoints) == 1 and info.schema == ('schema', f'query {i}') and info.desc == ('descriptor', f'query {i}'), 'the schema or descriptor of another query is returned')
        live[len(ts)] = (i, path, sch if inl else None); ts.append(clone(t))
    for j in range(k):
        x = h.choose(len(ts) + 1, f'fetch {j}')
        t = ts[x] if x < len(ts) else Struct('TicketStatementQuery', {'statement_handle': 'no such query'})
        h.ctx.user['lossy'] = True
        r = it.method(H_, 'do_get_statement', clone(t), TRequest('ticket'))
        if x in live:
            i, path, sch = live.pop(x)
            h.check(r.var == 'Ok', 'a ticket does not return its stream', info=lambda m: {'answer': repr(r)}); h.wit('fetched')
            q = deref(deref(r.f['0']).v)
            h.check(isinstance(q, QStream) and q.id == f'query {i}' and q.encoded_with == q.schema, "a ticket returns another query's stream", info=lambda m: {'wanted': i, 'got': repr(getattr(q, 'id', q))})
            want = ([('path', path)] if path is not None else [])
            h.check([y for y in q.ctx if y[0] == 'path'] == want and q.ctx == q.tag, 'the query runs with another search path')
            ms = [y[1] for y in q.ctx if y[0] == 'metastore']
            h.check(len(ms) == (sch is not None), 'the query runs against another catalog')
            if sch is not None: h.check(ms[0][0] == 'memory' and ms[0][1].f['schemas'] is sch and ms[0][2] == 'stores', "the query runs against another catalog than the one it brought")
        else:
            h.check(r.var == 'Err' and r.f['0'].code == 'not_found', 'a ticket that was used or never issued returns something', info=lambda m: {'answer': repr(r)}); h.wit('unknown')

@case('put messages', over=[dict(kind=k) for k in ('none', 'empty', 'rows', 'broken', 'undecodable')], expects=['refused'])
def put(h, kind):
    it = h.it; log = []
    class Wd(Writer): pass
    H_, w = handler(h, log)
    cmd = command(h, store=False, fmt=Int(0, 'i32')); nd = h.choose(3, 'descriptors')
    cmd.f['column_descriptors'] = Vec([desc(r, n) for r, n in [('NewPk', 'k'), ('OldPk', 'k')][:nd]])
    seq = clone(cmd.f['sequence_number'])
    f2 = [Field('new_pk_k', dt('Int32')), Field('old_pk_k', dt('Int32'))][:h.choose(2, 'fields') + 1]
    bs = {'none': [], 'undecodable': [], 'broken': None}.get(kind, [Batch(Schema(f2), [], 0 if kind == 'empty' else 2, tag=(0,)), Batch(Schema(f2), [], 0 if kind == 'empty' else 1, tag=(1,))])
    r = it.method(H_, 'do_put_fallback', TRequest(Batches(bs)), Struct('Any', {'type_url': '', 'value': Encoded(None if kind == 'undecodable' else cmd)}))
    kinds = [x[0] for x in log]; info = lambda m: {'answer': repr(r), 'calls': repr(log)[:300], 'descriptors': nd, 'fields': len(f2)}
    if kind in ('broken', 'undecodable'):
        h.check(r.var == 'Err' and not kinds, 'a message that cannot be read is processed', info=info)
        if kind == 'undecodable': h.check(r.f['0'].code == 'invalid_argument', 'an unreadable command is not refused as such', info=info)
        h.wit('refused'); return
    ok = nd == len(f2) == 2
    if kind in ('empty', 'rows') and not ok:
        h.check(r.var == 'Err' and r.f['0'].code == 'invalid_argument' and not kinds, 'a message whose columns are not described is processed', info=info); h.wit('refused'); return
    e = next((x[1] for x in log if x[0] == 'enqueue'), None)
    if r.var == 'Err':
        h.wit('refused')
        if 'flush' in kinds: h.check(r.f['0'].code == 'internal', 'a failed flush is answered as the sender\'s fault', info=info)
        else: h.check(r.f['0'].code == 'invalid_argument', 'an invalid message is not refused as such', info=info)
        return
    st = list(deref(deref(r.f['0']).v).a if type(deref(deref(r.f['0']).v)) is Vec else deref(deref(r.f['0']).v))
    h.check(len(st) == 1 and st[0].var == 'Ok', 'not exactly one answer is sent', info=info); h.wit('answered')
    if e is not None: h.check([id(deref(b)) for b in e[4].a] == [id(b) for b in bs], 'other rows than those of the message are queued', info=info)
    else: h.check(kind in ('none', 'empty') and seq.var == 'None' or 'write' not in kinds, 'an accepted message is not queued', info=info)
@case('inline query without schemas', expects=['refused'])
def noschemas(h):
    log = []; H_ = qhandler(h, log)
    what = h.pick(['no schemas', 'undecodable'], 'message')
    r = ask(h, H_, 'q', {}, Struct('InlineMetastoreCommandStatementQuery', {'query': 'q', 'schemas': NONE()}) if what == 'no schemas' else None) if what == 'no schemas' else h.it.method(H_, 'get_flight_info_fallback', Enum('Command', 'Unknown', {'0': Struct('Any', {'type_url': '', 'value': Encoded(None)})}), TRequest('d'))
    h.check(r.var == 'Err' and r.f['0'].code == 'invalid_argument', 'an incomplete query message is not refused as the sender\'s fault', info=lambda m: {'answer': repr(r)}); h.wit('refused')
