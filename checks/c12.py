"""C12: malformed sync messages are refused."""
from checks.syncs import *
NATIVE = None
BOUNDS = 'messages of up to 3 columns (4 thorough) whose roles are any i32, names any strings, types among Int32, Utf8, Boolean and a struct of two leaves; one column more or fewer descriptors than fields; pairs of schemas of up to 3 columns each'
ASSUMPTIONS = ['prost: an unknown enum number is an error from try_from', 'arrow: flattened_fields lists a nested field and its children']
MODELS = 'arrow Field / Schema, prost messages generated from clade/proto'
TYPES = ['Int32', 'Boolean', 'Struct']
def mkfield(h, i, types=TYPES):
    t = h.pick(types, f'type {i}')
    return Field(h.str(f'field{i}'), dt(t), True, 2 if t == 'Struct' else 1)

def acceptable(h, roles, names, types, validate):
    """the statement: every branch already decided or decidable on this path"""
    br = h.ctx.branch
    rs = []
    for r in roles:
        k = next((v for v, (n, _) in B.ENUMS['ColumnRole'].items() if br(mkbool(r.v == n))), None)
        if k is None: return False
        rs.append(k)
    n = len(rs); same = lambda i, j: i == j or br(eq(names[i], names[j]))
    for i in range(n):
        if rs[i] == 'Changed':
            if types[i].var != 'Boolean': return False
            if not any(rs[j] == 'Value' and same(i, j) for j in range(n)): return False
    if validate:
        old = [i for i in range(n) if rs[i] == 'OldPk']; new = [i for i in range(n) if rs[i] == 'NewPk']
        if not old or not new: return False
        for p, q in ((old, new), (new, old)):
            for i in p:
                if not any(types[i].var == types[j].var and same(i, j) for j in q): return False
    return True

@case('acceptance', over=[dict(nd=a, nf=b, types=t, validate=v, _tier=tier, _expects=['refused'] + (['accepted'] if a == b else [])) for a, b, t, v, tier in
      [(1, 1, TYPES, False, 'quick'), (2, 2, TYPES, True, 'quick'), (3, 3, ['Int32', 'Boolean'], True, 'quick'), (3, 3, ['Int32', 'Struct'], True, 'quick'), (3, 2, TYPES, True, 'quick'), (2, 3, TYPES, True, 'quick'), (2, 2, TYPES, False, 'quick'), (4, 3, ['Int32', 'Struct'], True, 'quick'), (1, 0, TYPES, False, 'quick'),
       (3, 3, TYPES, True, 'thorough'), (4, 4, ['Int32', 'Boolean'], True, 'thorough')]], expects=['accepted', 'refused'], budget=800)
def acceptance(h, nd, nf, types, validate):
    it = h.it
    ds = [desc(h.int(f'role{i}', 'i32'), h.str(f'name{i}')) for i in range(nd)]
    fs = [mkfield(h, i, types) for i in range(nf)]
    r = try_schema(h, ds, fs, validate)
    info = lambda m: {'descriptors': [(m(d.f['role']), m(d.f['name'])) for d in ds], 'fields': [f.ty.var for f in fs], 'result': r.var}
    key = f'{nd} descriptors, fields {[f.ty.var for f in fs]}' if any(f.ty.var == 'Struct' for f in fs) else None
    if r.var == 'Ok':
        h.wit('accepted')
        h.check(nd == nf, 'accepted with descriptors and columns of different number', info=info)
        h.check(acceptable(h, [d.f['role'] for d in ds], [d.f['name'] for d in ds], [f.ty for f in fs], validate), 'a malformed message is accepted', info=info)
        s = r.f['0']; cs = it.method(s, 'columns').a
        h.check(len(cs) == nf, 'columns are lost', info=info)
        for i, c in enumerate(cs):
            c = deref(c)
            role = it.method(c, 'role'); d = ds[i]
            h.check(band(mkbool(d.f['role'].v == B.role_num(role.var)), eq(it.method(c, 'name'), d.f['name']), eq(it.method(c, 'field'), fs[i])), 'a column of the accepted schema is not the one described', info=info)
            g = it.method(s, 'column', it.method(c, 'name'), role)
            h.check(g.var == 'Some', 'a described column cannot be looked up', info=info)
            g = deref(g.f['0'])
            h.check(band(it.method(g, 'role').var == role.var, eq(it.method(g, 'name'), d.f['name'])), 'looking up a column gives another one', info=info)
    else:
        h.wit('refused')
        h.check(nd != nf or not acceptable(h, [d.f['role'] for d in ds], [d.f['name'] for d in ds], [f.ty for f in fs], validate), 'a well-formed message is refused', info=info)
        h.check(r.f['0'].var == 'SchemaError', 'the refusal is of another kind', info=info)

@case('compatibility', over=[dict(n=n, m=m, _expects=['apart'] + (['compatible'] if n == m else [])) for n, m in [(2, 2), (3, 3), (2, 3), (3, 2), (0, 2), (2, 0)]], budget=600)
def compat(h, n, m):
    it = h.it
    def mk(k, tag):
        if k == 0: return it.call_fn(S + 'schema::SyncSchema::empty'), []
        roles = ['OldPk', 'NewPk', 'Value'][:k]
        if k == 3 and h.flip(f'{tag} order'): roles = ['OldPk', 'Value', 'NewPk']
        t = h.pick(['Int32', 'Utf8'], f'{tag} key type'); nm = h.str(f'{tag} key')
        cols = [(r, nm if r != 'Value' else h.str(f'{tag} value'), t if r != 'Value' else h.pick(['Int32', 'Boolean'], f'{tag} value type')) for r in roles]
        r = try_schema(h, [desc(a, b) for a, b, c in cols], [Field(h.str(f'{tag} f{i}'), dt(c), h.flip(f'{tag} nullable {i}') if i == 0 else True) for i, (a, b, c) in enumerate(cols)])
        if r.var != 'Ok': raise Unsupported('schema')
        return r.f['0'], cols
    a, ca = mk(n, 'a'); b, cb = mk(m, 'b')
    r = it.method(a, 'is_compatible_with', b)
    want = n == m and band(*[band(x[0] == y[0], eq(x[1], y[1]), x[2] == y[2]) for x, y in zip(ca, cb)])
    info = lambda mm: {'a': [(x[0], mm(x[1]), x[2]) for x in ca], 'b': [(x[0], mm(x[1]), x[2]) for x in cb], 'compatible': mm(r)}
    h.check(eq(r, want), 'compatible although roles, names, types or their number differ' if want is False else 'the compatibility decision is wrong', info=info)
    h.wit('compatible' if h.ctx.branch(r) else 'apart')
