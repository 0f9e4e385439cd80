"""Logical plans over symbolic rows: every row has a condition under which it is present, every value is a term; joins, filters, CASE and
unnest build formulas, nothing is enumerated.  Names are resolved as DataFusion 44 does."""
from checks.syncs import *
from engine.values import *
from engine import interp as I, stdlib, ext_df as DF, ext_batch as B
from engine.ext_df import E, children
from engine.ext_arrow import Arr
from engine.ext_batch import it_list
from engine.interp import EXT_FN, METHODS, CONSTS, EXT_STRUCT
from engine.core import *
import z3
Z = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
V = lambda x: z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else Z(x)
def ite(c, a, b):
    c = mkbool(c) if z3.is_expr(c) else c
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, L) or isinstance(b, L):
        n = max(len(a.e), len(b.e)); pad = lambda l: l.e + [(False, None)] * (n - len(l.e))
        return L([(bor(band(c, g), band(bnot(c), k)), y if x is None else x if y is None else cite(c, x, y)) for (g, x), (k, y) in zip(pad(a), pad(b))])
    a, b = V(a), V(b)
    if z3.eq(a, b): return a
    return z3.If(c, a, b)
def cite(c, x, y): return (mkbool(ite(c, Z(x[0]), Z(y[0]))) if not (isinstance(x[0], bool) and x[0] is y[0]) else x[0], x[1] if y[1] is None else y[1] if x[1] is None else ite(c, x[1], y[1]))
class L:
    """a list value: elements, each present under a condition (a prefix)"""
    def __init__(self, e): self.e = e
def veq(a, b): return mkbool(V(a) == V(b))
class Bad(Exception): pass
def dferr(msg, kind='SchemaError'): return Err(Enum('DataFusionError', kind, {'0': msg}))
def guard(f):
    def g(it, *a):
        try: return f(it, *a)
        except Bad as x: return dferr(str(x))
    return g
class Col:
    def __init__(self, q, name, ty): self.q = q; self.name = name; self.ty = ty
    def __repr__(self): return f'{self.q}.{self.name}' if self.q else self.name
class Rel:
    """columns and rows [(present, cells)]; err: what physical planning says"""
    def __init__(self, cols, rows, err=None):
        self.cols = cols; self.rows = rows; self.err = err; seen = set()
        for c in cols:
            if (c.q, c.name) in seen: raise Bad(f'Schema contains duplicate field name {c!r}')
            seen.add((c.q, c.name))
        for c in cols:
            if c.q is not None and (None, c.name) in seen: raise Bad(f'Schema contains qualified and unqualified field name {c.name}: ambiguous')
    def find(self, c):
        """index of a column reference, or Bad"""
        q = deref(c.f['relation']); q = None if q.var == 'None' else text(q.f['0']); n = text(c.f['name'])
        m = [i for i, x in enumerate(self.cols) if x.name == n and (q is None or x.q == q)]
        if not m: raise Bad(f'No field named {n}')
        if len(m) > 1:
            u = [i for i in m if self.cols[i].q is None]
            if len(u) != 1: raise Bad(f'Ambiguous reference to unqualified field {n}')
            m = u
        return m[0]
def text(v):
    v = deref(v)
    if isinstance(v, str): return v
    t = v if not hasattr(v, 'parts') else v
    r = str(t) if not isinstance(t, Text) else None
    if r is None: raise Unsupported(f'name {v!r}')
    return r
class PSchema(Obj):
    tname = 'DFSchema'
    def __init__(self, cols): self.cols = cols
    def m_columns(self, it, a, c): return Vec([Struct('Column', {'relation': opt(x.q), 'name': x.name}) for x in self.cols])
    def arrow(self): return B.Schema([B.Field(x.name, x.ty) for x in self.cols])
    def m_inner(self, it, a, c): return self.arrow()
    m_as_arrow = m_inner
    def m_as_ref(self, it, a, c): return self
    m_clone = m_deref = m_as_ref
    def m_fields(self, it, a, c): return Vec(list(self.arrow().fields))
    def m_field_names(self, it, a, c): return Vec([repr(x) for x in self.cols])
# ------------------------------------------------------------------ expressions
def flat(n):
    """names given as text are parsed as SQL identifiers: lowercased unless quoted, cut at dots"""
    n = text(n)
    if n and n[0] == '"' and n[-1] == '"' and '"' not in n[1:-1]: return None, n[1:-1]
    if not re.fullmatch(r'[A-Za-z_][A-Za-z0-9_$]*(\.[A-Za-z_][A-Za-z0-9_$]*)?', n): return None, n
    p = n.lower().split('.'); return (p[0] if len(p) > 1 else None), p[-1]
import re
def column(v):
    v = deref(v)
    if type(v) is Struct and v.ty == 'Column': return v
    q, n = flat(v); return Struct('Column', {'relation': opt(q), 'name': n})
def ecol(it, a, c): return E('Column', column(a[0]))
def rel_name(v):
    v = deref(v)
    if type(v) is Enum and v.ty == 'Option': return NONE() if v.var == 'None' else Some(rel_name(v.f['0']))
    if type(v) is Enum and v.ty == 'TableReference': return text(v.f['table'] if 'table' in v.f else v.f['0'])
    return text(v)
def lit(it, a, c):
    v = deref(a[0])
    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): return E('Literal', ('cell', dt('Boolean'), (True, v)))
    if isinstance(v, tuple) and v[0] == 'cell': return E('Literal', v)
    if isinstance(v, SV): return E('Literal', ('cell', v.ty, (v.ok, v.v)))
    raise Unsupported(f'literal {v!r}')
class SV(Obj):
    """a ScalarValue of a term"""
    tname = 'ScalarValue'
    def __init__(self, ty, ok, v): self.ty = ty; self.ok = ok; self.v = v
    def m_is_null(self, it, a, c): return bnot(self.ok)
    def m_clone(self, it, a, c): return self
    def eq_(self, o): return isinstance(o, SV) and bor(band(bnot(self.ok), bnot(o.ok)), band(self.ok, o.ok, veq(self.v, o.v) if self.v is not None and o.v is not None else False))
    def debug_(self, it): return 'scalar'
    display_ = debug_
def cast_null(it, v, a, c):
    if v.var != 'Null': raise Unsupported('cast of a scalar')
    return Ok(SV(deref(a[0]), False, None))
class Case(Obj):
    tname = 'CaseBuilder'
    def __init__(self, ws): self.ws = ws
    def m_when(self, it, a, c): return Case(self.ws + [(deref(a[0]), deref(a[1]))])
    def m_otherwise(self, it, a, c): return Ok(E('Case', self.ws, deref(a[0])))
    def m_end(self, it, a, c): return Ok(E('Case', self.ws, None))
def alias(it, e, a, c): return E('Alias', Struct('Alias', {'expr': copyval(e), 'relation': NONE(), 'name': text(a[0])}))
def alias_q(it, e, a, c):
    r = deref(a[0]); r = rel_name(r) if type(r) is Enum and r.ty == 'Option' else Some(rel_name(r))
    return E('Alias', Struct('Alias', {'expr': copyval(e), 'relation': r, 'name': text(a[1])}))
def ev(e, rel):
    """(type, function of a row's cells); Bad on names and types"""
    e = deref(e); v = e.var; sub = lambda x: ev(x, rel)
    if v == 'Column': i = rel.find(deref(e.f['0'])); return rel.cols[i].ty, lambda r: r[i]
    if v == 'Literal':
        x = e.f['0']
        if isinstance(x, tuple): return x[1], lambda r: x[2]
        x = deref(x)
        if isinstance(x, SV): return x.ty, lambda r: (x.ok, x.v)
        raise Unsupported('literal')
    if v == 'Alias': return sub(deref(e.f['0']).f['expr'])
    if v == 'IsNull': t, f = sub(e.f['0']); return dt('Boolean'), lambda r: (True, bnot(f(r)[0]))
    if v == 'IsNotNull': t, f = sub(e.f['0']); return dt('Boolean'), lambda r: (True, f(r)[0])
    if v in ('Not', 'IsTrue', 'IsFalse', 'IsNotTrue', 'IsNotFalse', 'IsUnknown', 'IsNotUnknown'):
        t, f = sub(e.f['0'])
        if deref(t).var != 'Boolean': raise Bad(f'{v} of a value that is not boolean')
        g = {'Not': lambda o, b: (o, bnot(b)), 'IsTrue': lambda o, b: (True, band(o, b)), 'IsNotTrue': lambda o, b: (True, bnot(band(o, b))), 'IsFalse': lambda o, b: (True, band(o, bnot(b))), 'IsNotFalse': lambda o, b: (True, bnot(band(o, bnot(b)))), 'IsUnknown': lambda o, b: (True, bnot(o)), 'IsNotUnknown': lambda o, b: (True, o)}[v]
        def go(r):
            o, b = f(r)
            return g(o, False if b is None else b)
        return dt('Boolean'), go
    if v == 'BinaryExpr':
        b = deref(e.f['0']); op = deref(b.f['op']).var; (t1, f), (t2, g) = sub(b.f['left']), sub(b.f['right'])
        if op in ('And', 'Or'):
            if deref(t1).var != 'Boolean' or deref(t2).var != 'Boolean': raise Bad(f'{op} of values that are not boolean')
            k = B.kand if op == 'And' else B.kor; n = lambda c: (c[0], False if c[1] is None else c[1])
            return dt('Boolean'), lambda r: k(*n(f(r)), *n(g(r)))
        if not Ctx.cur.branch(eq(t1, t2)): raise Bad('comparison of different types')
        def cmp(r):
            x, y = f(r), g(r)
            if x[1] is None or y[1] is None:
                e_, o = False, (True if op.startswith('Is') else False)
            else:
                o = band(x[0], y[0])
                if op in ('Lt', 'LtEq', 'Gt', 'GtEq'):
                    p, q = V(x[1]), V(y[1]); return o, mkbool({'Lt': p < q, 'LtEq': p <= q, 'Gt': p > q, 'GtEq': p >= q}[op])
                e_ = veq(x[1], y[1])
            if op == 'Eq': return o, e_
            if op == 'NotEq': return o, bnot(e_)
            same = bor(band(bnot(x[0]), bnot(y[0])), band(x[0], y[0], e_))
            if op == 'IsNotDistinctFrom': return True, same
            if op == 'IsDistinctFrom': return True, bnot(same)
            raise Unsupported(f'operator {op}')
        return dt('Boolean'), cmp
    if v == 'Between':
        b = deref(e.f['0']); (t0, f), (t1, lo), (t2, hi) = sub(b.f['expr']), sub(b.f['low']), sub(b.f['high'])
        if not (Ctx.cur.branch(eq(t0, t1)) and Ctx.cur.branch(eq(t0, t2))): raise Bad('comparison of different types')
        def btw(r):
            x, l, u = f(r), lo(r), hi(r)
            o, k = B.kand(band(x[0], l[0]), mkbool(V(x[1]) >= V(l[1])), band(x[0], u[0]), mkbool(V(x[1]) <= V(u[1])))
            return (o, bnot(k)) if b.f['negated'] is True else (o, k)
        return dt('Boolean'), btw
    if v == 'MakeArray':
        xs = [sub(x) for x in e.f['0']]
        for t, _ in xs[1:]:
            if not Ctx.cur.branch(eq(t, xs[0][0])): raise Bad('array of different types')
        return Enum('DataType', 'List', {'0': B.Field('item', xs[0][0])}), lambda r: (True, L([(True, f(r)) for _, f in xs]))
    if v == 'Case':
        ws = [(sub(c), sub(x)) for c, x in e.f['0']]; el = sub(e.f['1']) if e.f['1'] is not None else None
        ty = ws[0][1][0]
        for (ct, _), _x in ws:
            if deref(ct).var != 'Boolean': raise Bad('WHEN is not a boolean')
        for t, _ in [x for _, x in ws[1:]] + ([el] if el else []):
            if not Ctx.cur.branch(eq(t, ty)): raise Bad('CASE branches of different types')
        def case(r):
            cur = el[1](r) if el else (False, None)
            for (ct, cf), (xt, xf) in reversed(ws):
                o, b = cf(r); k = band(o, False if b is None else b)
                x = xf(r) if k is not False else cur
                cur = cite(k, x, cur)
            return cur
        return ty, case
    raise Unsupported(f'expression {v}')
def out_name(e, rel):
    e = deref(e)
    if e.var == 'Alias': a = deref(e.f['0']); r = deref(a.f['relation']); return (None if r.var == 'None' else text(r.f['0'])), text(a.f['name'])
    if e.var == 'Column': c = deref(e.f['0']); r = deref(c.f['relation']); return (None if r.var == 'None' else text(r.f['0'])), text(c.f['name'])
    return None, f'#{id(e)}'
def qualify(e, rel):
    """the builder's normalisation: bare column references get their qualifier"""
    e = deref(e)
    if e.var == 'Column': x = rel.cols[rel.find(deref(e.f['0']))]; return E('Column', Struct('Column', {'relation': opt(x.q), 'name': x.name}))
    return e
# ------------------------------------------------------------------ plans
def plan(kind, rel, **f): return Enum('LogicalPlan', kind, {'0': Struct(kind, {**f, 'rel': rel, 'schema': PSchema(rel.cols)})})
def relof(p):
    p = deref(p)
    if isinstance(p, (LPB, Frame)): return p.rel
    return deref(p.f['0']).f['rel']
def project(exprs, p):
    rel = relof(p); out = []; fs = []
    for e in exprs: t, f = ev(e, rel); q, n = out_name(e, rel); out.append(Col(q, n, t)); fs.append(f)
    return Rel(out, [(g, [f(r) for f in fs]) for g, r in rel.rows])
def mkproj(it, a, c):
    es = [deref(x) for x in it_list(it, a[0])]; inp = deref(a[1])
    try: r = project(es, inp)
    except Bad as x: return dferr(str(x))
    return Ok(Struct('Projection', {'expr': Vec(es), 'input': inp, 'schema': PSchema(r.cols), 'rel': r}))
def filt(rel, e):
    t, f = ev(e, rel)
    if deref(t).var != 'Boolean': raise Bad('filter is not a boolean')
    out = []
    for g, r in rel.rows:
        o, b = f(r); k = band(g, o, False if b is None else b)
        if k is not False: out.append((k, r))
    return Rel(rel.cols, out)
def join(l, r, jt, lk, rk, cond):
    if deref(cond).var != 'None': raise Unsupported('join filter')
    jt = deref(jt).var; pairs = []
    for x, y in zip(lk, rk):
        try: pairs.append((l.find(x), r.find(y)))
        except Bad: pairs.append((l.find(y), r.find(x)))
    if not pairs: raise Bad('join without keys')
    for i, j in pairs:
        if not Ctx.cur.branch(eq(l.cols[i].ty, r.cols[j].ty)): raise Bad('join keys of different types')
    rows = []; hit_l = [False] * len(l.rows); hit_r = [False] * len(r.rows)
    nl = [(False, None)] * len(l.cols); nr = [(False, None)] * len(r.cols)
    for a, (g, x) in enumerate(l.rows):
        for b, (k, y) in enumerate(r.rows):
            m = band(g, k, *[band(x[i][0], y[j][0], veq(x[i][1], y[j][1])) if x[i][1] is not None and y[j][1] is not None else False for i, j in pairs])
            if m is False: continue
            hit_l[a] = bor(hit_l[a], m); hit_r[b] = bor(hit_r[b], m)
            rows.append((m, x + y))
    if jt in ('Full', 'Left'): rows += [(band(g, bnot(hit_l[a])), x + nr) for a, (g, x) in enumerate(l.rows)]
    if jt in ('Full', 'Right'): rows += [(band(k, bnot(hit_r[b])), nl + y) for b, (k, y) in enumerate(r.rows)]
    if jt not in ('Full', 'Left', 'Right', 'Inner'): raise Unsupported(f'join {jt}')
    return Rel(l.cols + r.cols, [(g, x) for g, x in rows if g is not False])
def union(l, r):
    if len(l.cols) != len(r.cols): raise Bad('UNION queries have different number of columns')
    for x, y in zip(l.cols, r.cols):
        if not Ctx.cur.branch(eq(x.ty, y.ty)): raise Bad('UNION of different types')
    return Rel(l.cols, l.rows + r.rows)
def unnest(rel, cs):
    ix = [rel.find(c) for c in cs]; cols = [Col(None, x.name, deref(x.ty).f['0'].ty) if i in ix else x for i, x in enumerate(rel.cols)]; rows = []
    for g, r in rel.rows:
        n = max(len(r[i][1].e) for i in ix)
        for j in range(n):
            at = {i: (r[i][1].e[j] if j < len(r[i][1].e) else (False, None)) for i in ix}
            k = band(g, bor(*[at[i][0] for i in ix])); 
            if k is False: continue
            rows.append((k, [(x if i not in ix else (False, None) if at[i][1] is None else (band(at[i][0], at[i][1][0]), at[i][1][1])) for i, x in enumerate(r)]))
    return Rel(cols, rows)
class LPB(Obj):
    tname = 'LogicalPlanBuilder'
    def __init__(self, p): self.p = p
    @property
    def rel(self): return relof(self.p)
    def m_build(self, it, a, c): return Ok(self.p)
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return PSchema(self.rel.cols)
    def m_plan(self, it, a, c): return self.p
    @guard
    def m_project(self, it, a, c):
        es = [qualify(x, self.rel) for x in it_list(it, a[0])]; return Ok(LPB(plan('Projection', project(es, self.p), expr=Vec(es), input=self.p)))
    @guard
    def m_filter(self, it, a, c): return Ok(LPB(plan('Filter', filt(self.rel, a[0]))))
    @guard
    def m_union(self, it, a, c): return Ok(LPB(plan('Union', union(self.rel, relof(a[0])))))
    @guard
    def m_join(self, it, a, c):
        k = deref(a[2]); return Ok(LPB(plan('Join', join(self.rel, relof(a[0]), a[1], [column(x) for x in it_list(it, k.a[0])], [column(x) for x in it_list(it, k.a[1])], a[3]))))
    @guard
    def m_unnest_columns_with_options(self, it, a, c): return Ok(LPB(plan('Unnest', unnest(self.rel, [column(x) for x in it_list(it, a[0])]))))
    @guard
    def m_alias(self, it, a, c):
        q = text(a[0]); return Ok(LPB(plan('SubqueryAlias', Rel([Col(q, x.name, x.ty) for x in self.rel.cols], self.rel.rows))))
class Frame(Obj):
    tname = 'DataFrame'
    def __init__(self, st, p): self.st = st; self.p = p
    @property
    def rel(self): return relof(self.p)
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return PSchema(self.rel.cols)
    def m_into_parts(self, it, a, c): return Tup([self.st, self.p])
    def m_into_unoptimized_plan(self, it, a, c): return self.p
    m_logical_plan = m_into_unoptimized_plan
    @guard
    def m_filter(self, it, a, c): return Ok(Frame(self.st, plan('Filter', filt(self.rel, a[0]))))
    @guard
    def m_with_column(self, it, a, c):
        n = text(a[0]); t, f = ev(a[1], self.rel)
        if any(x.name == n for x in self.rel.cols): raise Unsupported('with_column over an existing column')
        return Ok(Frame(self.st, plan('Projection', Rel(self.rel.cols + [Col(None, n, t)], [(g, r + [f(r)]) for g, r in self.rel.rows]))))
    @guard
    def m_join(self, it, a, c):
        return Ok(Frame(self.st, plan('Join', join(self.rel, relof(a[0]), a[1], [column(x) for x in it_list(it, a[2])], [column(x) for x in it_list(it, a[3])], a[4]))))
    @guard
    def m_select(self, it, a, c):
        es = [qualify(x, self.rel) for x in it_list(it, a[0])]; return Ok(Frame(self.st, plan('Projection', project(es, self.p), expr=Vec(es), input=self.p)))
    def m_create_physical_plan(self, it, a, c): return Future(lambda: Ok(Exec(self.rel)))
class Exec(Obj):
    tname = 'ExecutionPlan'
    def __init__(self, rel): self.rel = rel
    def m_clone(self, it, a, c): return self
class Source(Obj):
    """a table source: a schema and its rows"""
    tname = 'TableSource'
    def __init__(self, schema, rows): self.schema = schema; self.rows = rows
    def m_clone(self, it, a, c): return self
    def m_schema(self, it, a, c): return self.schema
@guard
def mkscan(it, a, c):
    s = deref(a[1]); q = text(a[0]); return Ok(LPB(plan('TableScan', Rel([Col(q, text(f.name), f.ty) for f in s.schema.fields], list(s.rows)))))
class SBatch(B.Batch):
    """a record batch of symbolic rows"""
    def rows(self): return [(True, [col.vals[i] for col in self.cols]) for i in range(self.n)]
class SArr(Arr):
    """an array whose NULLs are terms"""
    def m_null_count(self, it, a, c):
        n = 0
        for ok, _ in self.vals: n = n + (int(not ok) if isinstance(ok, bool) else z3.If(ok, 0, 1))
        return Int(n if isinstance(n, int) else z3.simplify(n), 'usize')
def memtable(it, a, c):
    rows = [r for part in it_list(it, a[1]) for b in it_list(it, part) for r in deref(b).rows()]
    for part in it_list(it, a[1]):
        for b in it_list(it, part):
            if not Ctx.cur.branch(eq(deref(a[0]), deref(b).schema)): return dferr('Mismatch between schema and batches', 'Plan')
    return Ok(Source(deref(a[0]), rows))
def install():
    """register the models (they replace other modules' of the same names)"""
    F = EXT_FN
    F['Column::new'] = lambda it, a, c: Struct('Column', {'relation': rel_name(a[0]), 'name': text(a[1])})
    F['Column::from'] = lambda it, a, c: column(a[0])
    F['Column::from_name'] = F['Column::new_unqualified'] = lambda it, a, c: Struct('Column', {'relation': NONE(), 'name': text(a[0])})
    F['col'] = F['datafusion_expr::col'] = F['logical_expr::col'] = F['expr_fn::col'] = ecol
    F['ident'] = lambda it, a, c: E('Column', Struct('Column', {'relation': NONE(), 'name': text(a[0])}))
    F['lit'] = F['datafusion_expr::lit'] = lit
    F['when'] = lambda it, a, c: Case([(deref(a[0]), deref(a[1]))])
    F['make_array'] = F['expr_fn::make_array'] = lambda it, a, c: E('MakeArray', [deref(x) for x in it_list(it, a[0])])
    F['quote_identifier'] = lambda it, a, c: text(a[0]) if re.fullmatch(r'[a-z_][a-z0-9_]*', text(a[0])) else '"' + text(a[0]) + '"'
    METHODS[('ScalarValue', 'cast_to')] = cast_null
    METHODS[('Expr', 'alias')] = alias; METHODS[('Expr', 'alias_qualified')] = alias_q
    F['Expr::default'] = lambda it, a, c: E('Literal', ('cell', dt('Null'), (False, None)))
    F['Expr::Column'] = lambda it, a, c: E('Column', deref(a[0]))
    F['Projection::try_new'] = mkproj
    F['LogicalPlanBuilder::scan'] = mkscan
    F['LogicalPlanBuilder::from'] = F['LogicalPlanBuilder::new'] = lambda it, a, c: LPB(deref(a[0]))
    F['MemTable::try_new'] = memtable; F['provider_as_source'] = lambda it, a, c: deref(a[0])
    F['DataFrame::new'] = lambda it, a, c: Frame(deref(a[0]), deref(a[1]))
    F['SchemaBuilder::from'] = lambda it, a, c: builder(deref(a[0]))
    METHODS[('LogicalPlan', 'schema')] = lambda it, v, a, c: deref(v.f['0']).f['schema']
    METHODS[('LogicalPlan', 'debug')] = lambda it, v, a, c: 'plan'
def builder(s):
    b = B.SchemaBuilder(); b.fs = list(s.fields); return b
def sb_remove(self, it, a, c): return self.fs.pop(stdlib.cint(a[0]))
B.SchemaBuilder.m_remove = sb_remove
B.Schema.m_to_dfschema = lambda self, it, a, c: Ok(PSchema([Col(None, text(f.name), f.ty) for f in self.fields]))
