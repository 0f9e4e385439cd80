"""C09: flushing several syncs at once leaves the table as flushing them one after the other would."""
from checks.flush import *
NATIVE = None
BOUNDS = 'a table of up to 2 rows and two or three syncs of up to 2 row changes each, of any kind, with any keys, values, NULLs and Changed flags; keys of one or two columns; every combination of a column being sent, sent with a Changed flag or not sent by each sync'
ASSUMPTIONS = [dict(reason='the changes of a sync are consistent with the table as the syncs before it leave it; each sync was squashed before (C08)')]
MODELS = 'as C10'
P1 = [('OldPk', 'k', 'Int32'), ('NewPk', 'k', 'Int32')]
V1 = [('Value', 'v', 'Int32')]; C1 = [('Changed', 'v', 'Boolean')]; W1 = [('Value', 'w', 'Int32')]; X1 = [('Changed', 'w', 'Boolean')]
PA = [('OldPk', 'a', 'Int32'), ('OldPk', 'b', 'Int32'), ('NewPk', 'b', 'Int32'), ('NewPk', 'a', 'Int32')]; PB = [('NewPk', 'a', 'Int32'), ('OldPk', 'b', 'Int32'), ('NewPk', 'b', 'Int32'), ('OldPk', 'a', 'Int32')]
LAY = {
    'same': ([P1 + V1, P1 + V1], ['k', 'v']),
    'same with flags': ([P1 + C1 + V1, P1 + V1 + C1], ['k', 'v']),
    'flag first': ([P1 + C1 + V1, P1 + V1], ['k', 'v']),
    'flag second': ([P1 + V1, P1 + V1 + C1], ['k', 'v']),
    'different columns': ([P1 + V1, W1 + P1], ['k', 'v', 'w']),
    'different columns with flags': ([P1 + V1 + C1, X1 + P1 + W1], ['w', 'k', 'v', 'u']),
    'second adds': ([P1 + V1, P1 + V1 + W1], ['k', 'v', 'w']),
    'first has more': ([W1 + P1 + V1, P1 + V1], ['k', 'v', 'w']),
    'composite': ([PA + V1, V1 + PB], ['b', 'v', 'a']),
    'keys only': ([P1, P1 + V1], ['k', 'v']),
    'three': ([P1 + V1, P1 + V1, P1 + V1], ['k', 'v']),
    'three mixed': ([P1 + V1, P1 + W1, P1 + V1 + C1], ['k', 'v', 'w']),
}
CASES = [(x, (2, 2) if 'three' not in x else (1, 1, 1), 2, 'quick') for x in LAY]
@case('syncs', over=[dict(layout=l, n=n, rows=b, append=ap, _name=f'{l} {n} changes {b} rows{" append" if ap else ""}', _tier=t) for l, n, b, t in CASES for ap in (False, True)], expects=['flushed'])
def syncs(h, layout, n, rows, append):
    lays, cols = LAY[layout]; pk = pks(lays[0]); vcols = [c for c in cols if c not in pk]
    base, s0 = table(h, lays[0], rows, vcols, pk); st = [s0]; chs = []
    for i, (l, k) in enumerate(zip(lays, n)):
        ch = changes(h, l, k, 'abc'[i], append and i > 0); s = after(st[-1], l, ch); wellformed(st[-1], ch, s); st.append(s); chs.append(ch)
    o = order(lays, cols)
    r = plan_syncs(h, o, [(l, batch(l, ch, (lambda r, n, i=i: f'{r}_{n}_{i}'))) for i, (l, ch) in enumerate(zip(lays, chs))], base_rows(base, pk, cols))
    judge(h, r, o, pk, st[-1], lambda m: {'table': show_rows(m, base), 'syncs': [showch(m, c) for c in chs]}, [moved(s0, st[-1]), lost(st)])
def lost(st):
    return ('earlier change lost', 'a column set by an earlier sync is lost when a later sync in the same flush touches the row without changing the column', lambda K, c, got: band(st[-1].over(K, c), same(got, st[0].val(K, c))))
