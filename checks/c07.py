"""C07: accepted changes are kept, in order, until applied exactly once."""
from checks.writers import *
NATIVE = None
BOUNDS = 'histories of up to 4 sync messages (5 thorough) and up to 3 flushes over 2 tables, 2 origins and 2 column shapes; any row counts, batch sizes, memory limit, replication lag, syncs-per-table limit and times; one fault (two thorough) at any step of any flush'
ASSUMPTIONS = ['the clock does not go backwards and stands still during one call', 'batches of one message: one', 'a failed delta commit has not committed', 'squashing gives at most as many rows as it was given (C08)']
MODELS = 'delta log store, DeltaTable load/history, CreateBuilder; the sync planner, the file writer and squash_batches by their contracts (C08-C11, C15)'
@case('history', over=[dict(script=s, seqs=q, shapes=k, faults=f, limits=l, small=sm, fresh=fr, _tier=t) for s, q, k, f, l, sm, fr, t in
      [('eefef', '-11', 1, 0, 'all', True, True, 'quick'), ('eeef', '1-1', 1, 0, 'all', True, False, 'quick'), ('eef', '11', 2, 0, 'all', False, False, 'quick'), ('eeef', '111', 2, 0, 'syncs', True, False, 'quick'),
       ('eeff', '1-', 1, 1, 'lag', True, True, 'quick'), ('efef', '11', 1, 1, 'lag', True, False, 'quick'), ('efezf', '--1', 1, 0, 'lag', True, True, 'quick'), ('eeff', '11', 1, 1, 'size', True, False, 'quick'), ('eeeef', '1111', 1, 0, 'size', True, False, 'quick'),
       ('efefef', '1-1', 1, 0, 'lag', True, False, 'quick'), ('eeeff', '1-1', 1, 1, 'all', True, False, 'thorough'), ('eeefef', '1?-1', 2, 0, 'all', True, True, 'thorough'), ('eefeff', '1?1', 1, 2, 'lag', True, True, 'thorough'), ('eeeeef', '11111', 1, 0, 'size', True, False, 'thorough'), ('eeef', '111', 2, 0, 'all', False, False, 'thorough')]], expects=['commit'], budget=880)
def history(h, script, seqs, shapes, faults, limits, small, fresh):
    w = play(h, script, seqs, shapes, faults, limits, small, fresh)
    w.finish(w.idle_end); w.check_accounting()

@case('refused messages', over=[dict(what=k) for k in ('other origin', 'empty transaction')], expects=['refused', 'commit'])
def refused(h, what):
    """a message that is refused leaves everything as it was"""
    w = World(h, fresh_tables=False); install(h); w.tick()
    s1, s2 = h.int('seq1', 'u64', 1).v, h.int('seq2', 'u64', 1).v
    for i, u in enumerate(w.urls[:1 + h.choose(2, 'tables')]): w.enqueue(u, 'A', s1 if what == 'empty transaction' and i == 0 else None)
    if what == 'empty transaction' and w.open is not None: w.enqueue(w.urls[0], 'A', s2); h.assume(mkbool(s2 > s1))
    o = h.pick(['A', 'B'], 'origin') if what == 'empty transaction' else 'B'
    seq = h.int('seq3', 'u64', 1).v if what == 'empty transaction' or h.flip('sequence') else None
    before = [w.sequences(x) for x in w.origins]
    r = w.enqueue(h.pick(w.urls, 'table'), o, seq, zero=what == 'empty transaction')
    h.check(r.var == 'Err' and r.f['0'].var == 'InvalidMessage', 'a message that cannot be attributed to a transaction is accepted', info=w.info); h.wit('refused')
    h.check([w.sequences(x) for x in w.origins] == before, 'a refused message changes the reported sequences', info=w.info)
    w.check_accounting(); w.tick(); w.finish(); w.check_accounting()
@case('flush task', expects=['flushed', 'failed', 'busy'])
def task(h):
    """the background task flushes at each interval, whatever happened at the one before"""
    it = h.it; log = []
    class Writer(Obj):
        def m_flush(self, it, a, c):
            log.append('flush')
            if h.flip('fails'): h.wit('failed'); return Err(h.it.mke('SyncError', 'NotImplemented'))
            h.wit('flushed'); return Ok(UNIT())
    wr = Writer(); iv = Opaque('Duration'); to = Opaque('Duration')
    class Lock(Obj):
        def m_write(self, it, a, c): log.append('write'); return wr
    def timeout(it, a, c):
        h.check(deref(a[0]) is to, 'the lock is awaited for another time than the configured one')
        if h.flip('lock is busy'): h.wit('busy'); log.append('busy'); return Err(Opaque('Elapsed'))
        return Ok(it.await_(a[1]))
    n = [0]
    class Stop(Exception): pass
    def sleep(it, a, c):
        h.check(deref(a[0]) is iv, 'the task sleeps for another time than the configured one'); log.append('sleep'); n[0] += 1
        if n[0] > 3: raise Stop()
        return UNIT()
    Ctx.cur.user['on_sleep'] = sleep; Ctx.cur.user['on_timeout'] = timeout
    try: it.call_fn('seafowl::sync::flush_task', iv, to, Lock())
    except Stop: pass

    h.check(log.count('sleep') == 4, 'the flush task ends')
    runs = [[]]
    for x in log:
        if x == 'sleep': runs.append([])
        else: runs[-1].append(x)
    for r in runs[1:-1]: h.check('busy' in r or r.count('flush') == 1, 'an interval passes without a flush although the lock was free', info=lambda m: {'log': log})
    h.check(not runs[0] and not runs[-1], 'a flush outside of the intervals')
