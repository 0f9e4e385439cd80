"""C13: DELETE removes exactly the rows that match."""
from checks.dml import *
from checks import dml as D
NATIVE = None
BOUNDS, ASSUMPTIONS, MODELS = D.BOUNDS, D.ASSUMPTIONS, D.MODELS
SHAPES = [dict(_name=str(s), shape=s) for s in ([1], [2], [0, 1], [1, 1], [2, 1], [1, 2, 1], [2, 2, 1])] + [dict(_name=str(s), shape=s, _tier='thorough') for s in ([3, 3], [3, 2, 2])]
FA = ('writing the files fails', 'committing fails')
def delete(): return stmt('Delete', **{'0': Struct('Delete', {'tables': Vec([]), 'from': Opaque('from'), 'using': NONE(), 'selection': NONE(), 'returning': NONE(), 'order_by': Vec([]), 'limit': NONE()})})
@case('delete where', over=[dict(p, fa=f) if not f else dict(p, fa=f, _name=p['_name'] + ' faults') for p in SHAPES for f in (False, True)], expects=['deleted'])
def delete_where(h, shape, fa):
    w, u, t, T = world(h, shape, ['Int64', 'Int64'][:1 + (len(shape) < 3)], faults=FA if fa else ()); unfailing(u)
    r = u.run(delete(), plan=dml('Delete', t, T, filt(tscan())))
    out = final(h, w, u, t, T, r, 'DELETE')
    if out is None: return
    judge(h, T, out, 'DELETE', lambda r: r.true(), lambda r: r.cells); h.wit('deleted')
@case('delete all', over=[dict(p, fa=f) if not f else dict(p, fa=f, _name=p['_name'] + ' faults') for p in SHAPES for f in (False, True)], expects=['deleted'])
def delete_all(h, shape, fa):
    w, u, t, T = world(h, shape, ['Int64'], faults=FA if fa else ()); unfailing(u)
    r = u.run(delete(), plan=dml('Delete', t, T, tscan()))
    out = final(h, w, u, t, T, r, 'DELETE')
    if out is None: return
    judge(h, T, out, 'DELETE', lambda r: True, lambda r: r.cells); h.wit('deleted')
@case('truncate', over=[dict(p, fa=f) if not f else dict(p, fa=f, _name=p['_name'] + ' faults') for p in SHAPES for f in (False, True)], expects=['truncated'])
def truncate(h, shape, fa):
    w, u, t, T = world(h, shape, ['Int64'], faults=FA if fa else ()); unfailing(u)
    r = u.run(stmt('Truncate', table=True, table_names=Vec([S.objname(S.ident(t['name'], '"'))]), partitions=NONE(), only=False))
    out = final(h, w, u, t, T, r, 'TRUNCATE')
    if out is None: return
    judge(h, T, out, 'TRUNCATE', lambda r: True, lambda r: r.cells); h.wit('truncated')
@case('delete with another shape of plan', over=[dict(kind=k) for k in ('empty', 'join', 'projection', 'nested')], expects=['harmless'])
def delete_odd(h, kind):
    """a plan the code does not understand deletes nothing that it should not"""
    w, u, t, T = world(h, [1, 1], ['Int64']); unfailing(u)
    inp = {'empty': lp('EmptyRelation', produce_one_row=False), 'join': lp('Join', left=tscan(), right=tscan()), 'projection': lp('Projection', expr=Vec([]), input=filt(tscan())), 'nested': lp('SubqueryAlias', input=filt(tscan()))}[kind]
    r = u.physical(dml('Delete', t, T, inp))
    h.check(not u.did('commit') or not [x for e in u.did('commit') for x in deref(e[2]).a if deref(x).var == 'Remove'], 'DELETE of rows chosen by a plan that is not understood removes files', info=lambda m: {'events': repr(u.events)[:400]}); h.wit('harmless')
