"""C14: UPDATE changes exactly the assigned columns of matching rows."""
from checks.dml import *
from checks import dml as D
NATIVE = None
BOUNDS, ASSUMPTIONS, MODELS = D.BOUNDS, D.ASSUMPTIONS, D.MODELS
FA = ('writing the files fails', 'committing fails')
KINDS = ['kept', 'value', 'other type', 'column']
def update(w, **o): return stmt('Update', **dict({'table': Struct('TableWithJoins', {'relation': Enum('TableFactor', 'Table', {'alias': NONE(), 'args': NONE(), 'with_hints': Vec([]), 'name': Opaque('n'), 'version': NONE(), 'with_ordinality': False, 'partitions': Vec([])}), 'joins': Vec([])}), 'from': NONE(), 'assignments': Vec([]), 'selection': NONE(), 'returning': NONE(), 'or': NONE()}, **o))
def assign(h, T, t):
    """one expression per column, and the value it stands for"""
    n = len(T.schema.fields); ex = []; val = []; al = h.flip('aliased')
    for j, f in enumerate(T.schema.fields):
        k = KINDS[h.ctx.choose(4 if n > 1 else 3, f'c{j} is assigned')]
        if k == 'kept': e = E('Column', DF.column(f.name, bare(t['name']))); val.append((lambda j: lambda r: r.cells[j])(j))
        elif k == 'value': e = E('Assigned', j, f.ty); val.append((lambda j: lambda r: r.e[j])(j))
        elif k == 'other type':
            e = E('Assigned', j, AR.dt('Utf8' if f.ty.var != 'Utf8' else 'Int32')); val.append((lambda j, ty: lambda r: caste(r.e[j], ty))(j, f.ty))
        else:
            o = (j + 1) % n; e = E('Column', DF.column(f'c{o}', bare(t['name']))); same = T.schema.fields[o].ty.var == f.ty.var
            val.append((lambda o, ty, same: lambda r: r.cells[o] if same else caste(r.cells[o], ty))(o, f.ty, same))
        if al: e = E('Alias', Struct('Alias', {'expr': e, 'relation': NONE(), 'name': f.name}))
        ex.append(e)
    return Vec(ex), lambda r: [v(r) for v in val]
SHAPES = [dict(_name=f'{s} {"".join(x[0] for x in ty)}', shape=s, types=ty) for s, ty in (([1], ['Int64']), ([1, 1], ['Int64', 'Int64']), ([2, 1], ['Int64', 'Utf8']), ([0, 1, 1], ['Int64']), ([2, 2, 1], ['Int64']))] + [dict(_name=str((s, ty)), shape=s, types=ty, _tier='thorough') for s, ty in (([2, 2], ['Int64', 'Utf8', 'Int64']), ([3, 2, 2], ['Int64', 'Int64']))]
@case('update where', over=[dict(p, fa=f) if not f else dict(p, fa=f, _name=p['_name'] + ' faults') for p in SHAPES for f in (False, True)], expects=['updated'])
def update_where(h, shape, types, fa):
    w, u, t, T = world(h, shape, types, faults=FA if fa else (), assigned=True); unfailing(u); ex, val = assign(h, T, t)
    r = u.run(update(w), plan=dml('Update', t, T, lp('Projection', expr=ex, input=filt(tscan()))))
    out = final(h, w, u, t, T, r, 'UPDATE')
    if out is None: return
    judge(h, T, out, 'UPDATE', lambda r: False, lambda r: [z3.If(mk(r.true()), a, b) for a, b in zip(val(r), r.cells)]); h.wit('updated')
@case('update all', over=[dict(p, fa=f) if not f else dict(p, fa=f, _name=p['_name'] + ' faults') for p in SHAPES for f in (False, True)], expects=['updated'])
def update_all(h, shape, types, fa):
    w, u, t, T = world(h, shape, types, faults=FA if fa else (), assigned=True); unfailing(u); ex, val = assign(h, T, t)
    r = u.run(update(w), plan=dml('Update', t, T, lp('Projection', expr=ex, input=tscan())))
    out = final(h, w, u, t, T, r, 'UPDATE')
    if out is None: return
    judge(h, T, out, 'UPDATE', lambda r: False, val); h.wit('updated')
@case('update from other tables', over=[dict(kind=k) for k in ('from', 'alias', 'joins')], expects=['harmless'])
def update_from(h, kind):
    """the forms that are not supported change nothing"""
    w, u, t, T = world(h, [1, 1], ['Int64'], assigned=True); unfailing(u)
    st = update(w); f = deref(st.f['0']).f; tw = deref(f['table']).f
    if kind == 'from': f['from'] = Some(Opaque('other table'))
    if kind == 'alias': deref(tw['relation']).f['alias'] = Some(Opaque('alias'))
    if kind == 'joins': tw['joins'] = Vec([Opaque('join')])
    pred = h.flip('with a WHERE clause over the table'); cross = lp('Join', left=tscan(), right=tscan()); ex, _ = assign(h, T, t)
    r = u.run(st, plan=dml('Update', t, T, lp('Projection', expr=ex, input=filt(cross) if pred else cross)))
    h.check(r.var == 'Err' and not u.did('commit', 'adds'), f'an UPDATE with {kind} is run as if it had none'); h.wit('harmless')
