"""C06: reported durable sequence numbers are really durable."""
from checks.writers import *
NATIVE = None
BOUNDS = 'histories of up to 5 sync messages (6 thorough) and up to 4 flushes over up to 3 tables and 2 origins, any sequence numbers (increasing per origin), any times, lags and sizes; one fault (two thorough) at any step of any flush'
ASSUMPTIONS = ['sequence numbers of one origin increase', 'the clock does not go backwards and stands still during one call', 'a failed delta commit has not committed']
MODELS = 'delta log store, DeltaTable load/history, CreateBuilder; the sync planner, the file writer and squash_batches by their contracts (C08-C11, C15)'
T3 = ('file:///t1', 'file:///t2', 'file:///t3')
@case('history', over=[dict(script=s, seqs=q, faults=f, limits=l, n=n, _tier=t) for s, q, f, l, n, t in
      [('eeff', '??', 0, 'lag', 2, 'quick'), ('eefef', '-??', 0, 'lag', 2, 'quick'), ('eefef', '1??', 0, 'lag', 2, 'quick'), ('efefef', '???', 0, 'lag', 2, 'quick'), ('eefzf', '--1', 0, 'lag', 2, 'quick'), ('eeeff', '--1', 0, 'lag', 3, 'quick'), ('efeff', '??', 1, 'lag', 2, 'quick'), ('eeff', '-1', 1, 'lag', 2, 'quick'),
       ('eeff', '1?', 0, 'size', 2, 'quick'), ('eeefef', '-1-1', 0, 'lag', 2, 'quick'), ('eeeef', '-1-1', 0, 'syncs', 2, 'quick'), ('efezef', '---1', 0, 'lag', 2, 'quick'), ('eefeef', '-11-1'[:4], 0, 'lag', 2, 'quick'),
       ('eeefeff', '-1-1', 1, 'lag', 2, 'thorough'), ('eefeff', '?1?', 2, 'lag', 2, 'thorough'), ('eeeeff', '-1-1', 0, 'lag', 3, 'thorough'), ('efefefef', '????', 0, 'lag', 2, 'thorough'), ('eeefef', '????', 0, 'lag', 2, 'thorough'), ('eeff', '1?', 0, 'all', 2, 'thorough')]], expects=['commit'], budget=880)
def history(h, script, seqs, faults, limits, n):
    w = play(h, script, seqs, 1, faults, limits, True, False, urls=T3[:n], each=lambda w, op: w.check_sequences())
    w.finish(); w.check_sequences()
    # with everything flushed, every finished transaction that rows or an end reached before the flush is durable
    h.sample(msgs=len(w.msgs))
