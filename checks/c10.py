"""C10: a flushed sync leaves the table as its changes say."""
from checks.flush import *
NATIVE = None
BOUNDS = 'a table of up to 2 rows (3 thorough) and a sync of up to 2 row changes (3 thorough), of any kind, with any keys, values, NULLs and Changed flags; keys of one or two columns; several column orders, columns not sent, names with capitals and dots'
ASSUMPTIONS = [dict(reason='the changes of a sync are consistent with the table: a changed or deleted row exists, an inserted key is free or freed by the same sync, no key is changed or made twice (a squashed sync, which C08 decides)'),
    dict(reason='pruning keeps every file that can hold a touched key (decided by C11); here every file is scanned')]
MODELS = 'DataFusion 44 logical plans (scan, filter, project, full join, union, unnest, alias, CASE, make_array and name resolution) are executed over rows whose presence and values are terms; DeltaTableProvider and the session are stand-ins'
P1 = [('OldPk', 'k', 'Int32'), ('NewPk', 'k', 'Int32')]
LAY = {
    'plain': (P1 + [('Value', 'v', 'Int32')], ['k', 'v']),
    'keys only': (P1, ['k']),
    'changed': (P1 + [('Changed', 'v', 'Boolean'), ('Value', 'v', 'Int32')], ['k', 'v']),
    'not all sent': (P1 + [('Value', 'w', 'Int32')], ['v', 'k', 'w']),
    'composite': ([('OldPk', 'a', 'Int32'), ('OldPk', 'b', 'Int32'), ('NewPk', 'b', 'Int32'), ('NewPk', 'a', 'Int32'), ('Value', 'v', 'Int32')], ['b', 'v', 'a']),
    'mixed order': ([('Value', 'w', 'Int32'), ('NewPk', 'k', 'Int32'), ('Value', 'v', 'Int32'), ('Changed', 'w', 'Boolean'), ('OldPk', 'k', 'Int32')], ['k', 'u', 'v', 'w']),
    'capitals': ([('OldPk', 'Key', 'Int32'), ('NewPk', 'Key', 'Int32'), ('Changed', 'Some.Value', 'Boolean'), ('Value', 'Some.Value', 'Int32')], ['Key', 'Some.Value']),
}
CASES = [(x, 2, 2, 'quick') for x in LAY] + [('plain', 0, 2, 'quick'), ('changed', 1, 0, 'quick')] + [(x, 3, 3, 'thorough') for x in LAY]
@case('one sync', over=[dict(layout=l, n=n, rows=b, _name=f'{l} {n} changes {b} rows', _tier=t) for l, n, b, t in CASES], expects=['flushed'])
def one(h, layout, n, rows):
    lay, cols = LAY[layout]; pk = pks(lay); vcols = [c for c in cols if c not in pk]
    base, s0 = table(h, lay, rows, vcols, pk); ch = changes(h, lay, n, 'c'); s1 = after(s0, lay, ch); wellformed(s0, ch, s1)
    o = order([lay], cols); names = (lambda r, n: f'{r} {n}') if layout == 'capitals' else (lambda r, n: f'F.{r}{n}') if layout == 'mixed order' else None
    r = plan_syncs(h, o, [(lay, batch(lay, ch, names))], base_rows(base, pk, cols))
    judge(h, r, o, pk, s1, lambda m: {'table': show_rows(m, base), 'changes': showch(m, ch)}, [moved(s0, s1)])
