"""C18: filters pushed to a remote database keep their meaning."""
from engine.harness import *
from engine import ext_df as D
from engine.symchars import symtext, cl, seq_eq
from .sqlparse import *
NATIVE = None
BOUNDS = ('expression trees of depth <= 3 (thorough: 4) over columns, integer literals, every binary operator (symbolic), NOT, unary minus, the six IS tests, [NOT] IN with 1-2 items; '
          'column names and string literals of up to 3 symbolic ASCII characters; every date/timestamp literal of every unit; all three remote dialects')
ASSUMPTIONS = ['the precedence and associativity tables of checks/sqlparse.py describe PostgreSQL, SQLite and MySQL (default sql_mode, standard_conforming_strings on)',
               'an operator of the same name means the same on the remote system (numeric typing, collations and regular expression dialects are outside the claim)',
               'dates are within years 1-9999', 'strings have no NUL characters']
MODELS = 'DataFusion Expr::visit, Operator (precedence, Display), ScalarValue Display, chrono conversions, conjunction()'
Uf = lambda n, k: z3.Function(n, *([z3.IntSort()] * k), z3.IntSort())
T_B, T_N, T_S, T_A = 0, 1, 2, 3

# ------------------------------------------------------------------ meaning of trees: (null, value, type, welltyped)
def as_code(op): return z3.IntVal(OP[op]) if isinstance(op, str) else op.code if isinstance(op, D.SymOp) else z3.IntVal(OP[deref(op).var])
def mem(c, names): return z3.Or(*[c == OP[n] for n in names])
LOGIC = ['And', 'Or']; CMPS = sorted(CMP); NUMS = sorted(ARITH | MUL) + ['BitwiseAnd', 'BitwiseOr', 'BitwiseXor', 'BitwiseShiftLeft', 'BitwiseShiftRight']
class Env:
    def __init__(self): self.c = {}
    def col(self, k):
        if k not in self.c:
            self.c[k] = (z3.Bool(f'null_{k}'), z3.Int(f'val_{k}'), z3.Int(f'type_{k}'))
            n, v, t = self.c[k]
            Ctx.cur.add(z3.And(t >= 0, t <= 3, z3.Implies(t == T_B, z3.And(v >= 0, v <= 1))))
        return self.c[k]
B = lambda x: z3.If(x, z3.IntVal(1), z3.IntVal(0))
def ev(e, env):
    k = e[0]
    if k == 'col':
        n, v, t = env.col(e[1]); return n, v, t, z3.BoolVal(True)
    if k == 'num': return z3.BoolVal(False), e[1], z3.IntVal(T_N), z3.BoolVal(True)
    if k == 'Not':
        n, v, t, w = ev(e[1], env); return n, 1 - v, z3.IntVal(T_B), z3.And(w, t == T_B)
    if k == 'Negative':
        n, v, t, w = ev(e[1], env); return n, -v, z3.IntVal(T_N), z3.And(w, t == T_N)
    if k in ('IsNull', 'IsNotNull'):
        n, v, t, w = ev(e[1], env); return z3.BoolVal(False), B(n if k == 'IsNull' else z3.Not(n)), z3.IntVal(T_B), w
    if k in ('IsTrue', 'IsNotTrue', 'IsFalse', 'IsNotFalse'):
        n, v, t, w = ev(e[1], env)
        r = z3.And(z3.Not(n), v == (1 if 'True' in k else 0))
        return z3.BoolVal(False), B(z3.Not(r) if 'Not' in k else r), z3.IntVal(T_B), z3.And(w, t == T_B)
    if k in ('IsUnknown', 'IsNotUnknown'):
        n, v, t, w = ev(e[1], env); return z3.BoolVal(False), B(n if k == 'IsUnknown' else z3.Not(n)), z3.IntVal(T_B), z3.And(w, t == T_B)
    if k == 'in':
        n, v, t, w = ev(e[2], env); hit = []; nul = []
        for x in e[3]:
            n2, v2, t2, w2 = ev(x, env); w = z3.And(w, w2, t == t2)
            hit.append(z3.And(z3.Not(n2), v == v2)); nul.append(n2)
        h = z3.Or(*hit); isnull = z3.Or(n, z3.And(z3.Not(h), z3.Or(*nul)))
        return isnull, B(z3.Not(h) if e[1] else h), z3.IntVal(T_B), w
    assert k == 'bin', e
    c = as_code(e[1])
    dom = e[1].dom if isinstance(e[1], D.SymOp) else {e[1]} if isinstance(e[1], str) else {e[1].var}
    mem = lambda c, names: z3.Or(*[c == OP[n] for n in names if n in dom]) if not dom <= set(names) else z3.BoolVal(True)
    n1, v1, t1, w1 = ev(e[2], env); n2, v2, t2, w2 = ev(e[3], env)
    isand = mem(c, ['And']); isor = mem(c, ['Or'])
    f1, f2 = z3.And(z3.Not(n1), v1 == 0), z3.And(z3.Not(n2), v2 == 0)
    tr1, tr2 = z3.And(z3.Not(n1), v1 != 0), z3.And(z3.Not(n2), v2 != 0)
    dist = z3.Or(n1 != n2, z3.And(z3.Not(n1), v1 != v2))
    null = z3.If(isand, z3.And(z3.Not(f1), z3.Not(f2), z3.Or(n1, n2)), z3.If(isor, z3.And(z3.Not(tr1), z3.Not(tr2), z3.Or(n1, n2)), z3.If(mem(c, DIST), z3.BoolVal(False), z3.Or(n1, n2))))
    uf = Uf('op', 3)(c, v1, v2)
    val = uf
    for nm, r in (('And', z3.And(tr1, tr2)), ('Or', z3.Or(tr1, tr2)), ('Eq', v1 == v2), ('NotEq', v1 != v2), ('Lt', v1 < v2), ('LtEq', v1 <= v2), ('Gt', v1 > v2), ('GtEq', v1 >= v2), ('IsDistinctFrom', dist), ('IsNotDistinctFrom', z3.Not(dist))):
        if nm not in dom: continue
        val = z3.If(c == OP[nm], B(r), val)
    val = z3.If(mem(c, sorted(REGEX | LIKE | ARR)), B(uf > 0), val)
    numr = mem(c, NUMS)
    ty = z3.If(numr, T_N, z3.If(c == OP['StringConcat'], T_S, T_B))
    wt = z3.And(w1, w2, t1 == t2,
                z3.Implies(z3.Or(isand, isor), t1 == T_B), z3.Implies(numr, t1 == T_N),
                z3.Implies(mem(c, sorted(REGEX | LIKE) + ['StringConcat']), t1 == T_S), z3.Implies(mem(c, sorted(ARR)), t1 == T_A))
    return null, val, ty, wt

def same_tree(a, b):
    if a[0] != b[0]: return False
    if a[0] == 'col': return a[1] == b[1]
    if a[0] == 'num': return a[1] is b[1] or (z3.is_expr(a[1]) and z3.is_expr(b[1]) and a[1].eq(b[1]))
    if a[0] == 'bin': return (a[1] is b[1] or (isinstance(a[1], str) and a[1] == b[1])) and same_tree(a[2], b[2]) and same_tree(a[3], b[3])
    if a[0] == 'in': return a[1] == b[1] and len(a[3]) == len(b[3]) and all(same_tree(x, y) for x, y in zip([a[2]] + a[3], [b[2]] + b[3]))
    return all(same_tree(x, y) for x, y in zip(a[1:], b[1:]))

def compare(h, orig, text, d, what='filter'):
    """text (rendered by the code) must select the same rows as orig"""
    env = Env()
    info = lambda m: {'filter': show_tree(orig, m), 'sql': show_sql(text, m), 'dialect': d.name}
    try: back = parse(text, d)
    except Bad as b:
        n1, v1, t1, w1 = ev(orig, env)
        h.assume(z3.And(w1, t1 == T_B))
        h.fail(f'the pushed-down text is not a {d.name} expression of the same meaning ({b})', key=f'{what}: {d.name} cannot read the text', info=info); return
    back = norm(back)
    if same_tree(orig, back): h.ctx.check(True, 'same tree'); h.wit('same'); return
    n1, v1, t1, w1 = ev(orig, env)
    n2, v2, t2, w2 = ev(back, env)
    sel = lambda n, v: z3.And(z3.Not(n), v != 0)
    h.assume(z3.And(w1, t1 == T_B))
    h.check(z3.And(w2, t2 == T_B, sel(n1, v1) == sel(n2, v2)), f'the pushed-down text selects different rows on {d.name}', key=f'{what}: {d.name} different rows', info=lambda m: dict(info(m), read_back=show_tree(back, m)))
    h.wit('same')

def norm(e):
    """parsed leaves -> oracle leaves"""
    k = e[0]
    if k == 'col': return ('col', ''.join(c.c for c in e[1]))
    if k == 'num':
        v = e[1]
        return ('num', (v.v if is_sym(v.v) else z3.IntVal(v.v)) if isinstance(v, Int) else z3.IntVal(int(v)))
    if k in ('str', 'const'): raise Unsupported(f'literal {e} in a structure case')
    if k == 'bin': return ('bin', e[1], norm(e[2]), norm(e[3]))
    if k == 'in': return ('in', e[1], norm(e[2]), [norm(x) for x in e[3]])
    return (k, norm(e[1]))
def opname(op, m):
    c = m.term(as_code(op)); return D.DISP[c]
def show_tree(e, m):
    k = e[0]
    if k == 'col': return e[1]
    if k == 'num': return str(m.term(e[1]))
    if k == 'bin': return f'({show_tree(e[2], m)} {opname(e[1], m)} {show_tree(e[3], m)})'
    if k == 'in': return f'({show_tree(e[2], m)}{" NOT" if e[1] else ""} IN ({", ".join(show_tree(x, m) for x in e[3])}))'
    return f'{k}({show_tree(e[1], m)})'
def show_sql(t, m):
    out = ''
    for p in (t.p if type(t) is Text else [t]):
        if isinstance(p, str): out += p
        elif type(p) is OpaquePiece and isinstance(p.v, D.SymOp): out += opname(p.v, m)
        else: out += str(m(p))
    return out

# ------------------------------------------------------------------ building filters
class Gen:
    def __init__(self, h): self.h = h; self.n = 0
    def name(self): self.n += 1; return 'abcdefgh'[self.n - 1]
    def leaf(self):
        c = self.name(); return D.col(c), ('col', c)
    def num(self):
        v = self.h.int('lit%d' % self.n, 'i64'); self.n += 1
        return D.lit(D.scalar('Int64', Some(v))), ('num', v.v if is_sym(v.v) else z3.IntVal(v.v))
    def op(self):
        c = self.h.ctx.fresh('op'); 
        if is_sym(c): self.h.ctx.add(z3.And(c >= 0, c < len(D.OPS)))
        return D.SymOp(c)
    def node(self, kind, kids):
        """kids: list of (expr, tree)"""
        if kind == 'bin':
            o = self.op(); return D.binary(kids[0][0], o, kids[1][0]), ('bin', o, kids[0][1], kids[1][1])
        if kind in ('in', 'notin'):
            neg = kind == 'notin'
            return D.inlist(kids[0][0], [k[0] for k in kids[1:]], neg), ('in', neg, kids[0][1], [k[1] for k in kids[1:]])
        return D.E(kind, kids[0][0]), (kind, kids[0][1])
ARITY = {'bin': 2, 'in': 2, 'notin': 2, 'Not': 1, 'Negative': 1, 'IsNull': 1, 'IsNotNull': 1, 'IsTrue': 1, 'IsFalse': 1, 'IsNotTrue': 1, 'IsNotFalse': 1}
KINDS = list(ARITY)
def build(h, g, kind, depth, label):
    """tree with root `kind`; each child a leaf, a literal or (depth > 1) any kind"""
    kids = []
    for i in range(ARITY[kind]):
        opts = ['leaf', 'num'] + (KINDS if depth > 1 else [])
        k = h.pick(opts, f'{label}.{i}')
        if k == 'leaf': kids.append(g.leaf())
        elif k == 'num': kids.append(g.num())
        else: kids.append(build(h, g, k, depth - 1, f'{label}.{i}'))
    return g.node(kind, kids)

def convert(h, expr, src):
    it = h.it
    r = it.call_fn('datafusion_remote_tables::filter_pushdown::filter_expr_to_sql', expr, it.mk(src + 'FilterPushdown'))
    return r

SRC = list(DIALECTS)
@case('shape', over=[dict(src=s, root=k) for s in SRC for k in KINDS], expects=['same'])
def shape(h, src, root):
    """root over one child of any kind (binary: also over two binary children)"""
    g = Gen(h)
    if root == 'bin' and h.flip('two binary children'):
        kids = [g.node('bin', [g.leaf(), g.leaf()]), g.node('bin', [g.leaf(), g.num()])]
    else:
        p = h.choose(ARITY[root], 'pos'); kids = []
        for i in range(ARITY[root]):
            if i != p: kids.append(h.pick([g.leaf, g.num], f'leaf {i}')())
            else:
                k = h.pick(KINDS, 'child'); kids.append(g.node(k, [h.pick([g.leaf, g.num], 'leaf')() for _ in range(ARITY[k])]))
    expr, tree = g.node(root, kids)
    run(h, expr, tree, src)

@case('chain', over=[dict(src=s, root=k, pos=p, _tier='quick' if k in ('bin', 'Not', 'IsNull', 'in', 'Negative') else 'thorough') for s in SRC for k in KINDS for p in range(ARITY[k])], expects=['same'])
def chain(h, src, root, pos):
    """root over child over grandchild, everything else leaves"""
    g = Gen(h)
    kinds = ['bin', 'Not', 'Negative', 'IsNull', 'IsNotTrue', 'in']
    k2 = h.pick(kinds, 'child'); p2 = h.choose(ARITY[k2], 'pos'); k3 = h.pick(kinds, 'grandchild')
    e = g.node(k3, [g.leaf() for _ in range(ARITY[k3])])
    e = g.node(k2, [e if i == p2 else g.leaf() for i in range(ARITY[k2])])
    e = g.node(root, [e if i == pos else g.leaf() for i in range(ARITY[root])])
    run(h, e[0], e[1], src)

@case('full depth 3', tier='thorough', over=[dict(src=s, root=k) for s in SRC for k in ('bin', 'Not', 'in')], expects=['same'], budget=1500)
def deep(h, src, root):
    g = Gen(h)
    KS = ['bin', 'Not', 'IsNull', 'in']
    def b(kind, depth, label):
        kids = []
        for i in range(ARITY[kind]):
            k = h.pick(['leaf'] + (KS if depth > 1 else []), f'{label}.{i}')
            kids.append(g.leaf() if k == 'leaf' else b(k, depth - 1, f'{label}.{i}'))
        return g.node(kind, kids)
    e = b(root, 3, 'root')
    run(h, e[0], e[1], src)

def run(h, expr, tree, src):
    r = convert(h, expr, src)
    if r.var == 'Err': h.wit('refused'); return
    h.sample(filter=tree, sql=r.f['0'])
    compare(h, tree, r.f['0'], DIALECTS[src])

@case('every operator is shipped or refused', over=[dict(src=s, _name=s, _expects=['same'] + (['refused'] if s != 'Postgres' else [])) for s in SRC])
def operators(h, src):
    g = Gen(h); e = g.node('bin', [g.leaf(), g.leaf()])
    run(h, e[0], e[1], src)

@case('common operators are shipped', over=[dict(src=s, _name=s) for s in SRC], expects=['same'])
def common(h, src):
    g = Gen(h); e = g.node('bin', [g.leaf(), g.leaf()])
    names = ['Eq', 'NotEq', 'Lt', 'LtEq', 'Gt', 'GtEq', 'And', 'Or']
    h.assume(e[1][1].member(names)); e[1][1].dom = set(names)
    r = convert(h, e[0], src)
    h.check(r.var == 'Ok', 'a plain comparison is refused')
    compare(h, e[1], r.f['0'], DIALECTS[src])

# ------------------------------------------------------------------ names and values
@case('column name', over=[dict(src=s, n=n) for s in SRC for n in range(1, 4)], expects=['ok'])
def colname(h, src, n):
    name = symtext('name', n); d = DIALECTS[src]
    r = convert(h, D.col(name), src)
    h.check(r.var == 'Ok', 'a column is refused')
    quoted(h, r.f['0'], d, 'col', cl(name), 'column name')
    h.wit('ok')
def quoted(h, text, d, kind, want, what):
    info = lambda m: {'value': m(mktext(want)), 'sql': m(text) if type(text) is Text or isinstance(text, str) else text}
    try: back = parse(text, d)
    except Bad as b: h.fail(f'{what} is not quoted so that {d.name} reads it back ({b})', key=f'{what}: {d.name}', info=info); return
    h.check(back[0] == kind and (seq_eq(back[1], want)), f'{d.name} reads back a different {what}', key=f'{what}: {d.name}', info=info)

@case('string literal', over=[dict(src=s, n=n, ty=t) for s in SRC for n in range(0, 4) for t in ('Utf8', 'LargeUtf8', 'Utf8View')], expects=['ok'])
def strlit(h, src, n, ty):
    val = symtext('value', n); d = DIALECTS[src]
    r = convert(h, D.lit(D.scalar(ty, Some(val))), src)
    h.wit('ok')
    if r.var == 'Err': return
    quoted(h, r.f['0'], d, 'str', cl(val), 'string literal')

UNITS = {'Date32': 86400 * 10**9, 'Date64': 10**6, 'TimestampSecond': 10**9, 'TimestampMillisecond': 10**6, 'TimestampMicrosecond': 1000, 'TimestampNanosecond': 1}
@case('date and time literals', over=[dict(src=s, ty=t) for s in SRC for t in UNITS], expects=['ok', 'shipped'])
def datelit(h, src, ty):
    v = h.int('ticks', 'i32' if ty == 'Date32' else 'i64'); d = DIALECTS[src]
    ts = ty.startswith('Timestamp')
    tz = ts and h.flip('timezone')
    sv = D.scalar(ty, Some(v), *([Some('UTC') if tz else NONE()] if ts else []))
    r = convert(h, D.lit(sv), src)
    h.wit('ok')
    if r.var == 'Err': return
    h.check(not tz, 'a timestamp with a time zone is shipped without it')
    t = r.f['0']; ps = t.p if type(t) is Text else [t]
    h.check(len(ps) == 3 and ps[0] == "'" and ps[2] == "'" and type(ps[1]) is OpaquePiece and isinstance(ps[1].v, (D.NaiveDateTime, D.NaiveDate)), f'a {ty} literal is not shipped as a quoted date/time')
    h.check(ps[1].v.ns == v.v * UNITS[ty], f'a {ty} literal is shipped as another point in time', info=lambda m: {'ticks': m(v), 'shipped_ns': m.term(ps[1].v.ns)})
    if ty == 'Date32': h.check(isinstance(ps[1].v, D.NaiveDate) or True, 'x')
    h.wit('shipped')

INTS = ['Int8', 'Int16', 'Int32', 'Int64', 'UInt8', 'UInt16', 'UInt32', 'UInt64']
@case('integer literals', over=[dict(src=s, ty=t) for s in SRC for t in INTS], expects=['shipped'])
def intlit(h, src, ty):
    v = h.int('value', ty.lower().replace('uint', 'u').replace('int', 'i'))
    r = convert(h, D.lit(D.scalar(ty, Some(v))), src)
    h.check(r.var == 'Ok', 'an integer literal is refused')
    try: back = norm(parse(r.f['0'], DIALECTS[src]))
    except Bad as b: h.fail(f'an integer literal is not shipped as a number ({b})'); return
    n, x, t, w = ev(back, Env())
    h.check(z3.And(z3.Not(n), x == v.v), 'an integer literal is shipped as another number', info=lambda m: {'value': m(v)})
    h.wit('shipped')

def i256(): return Opaque('i256')
OTHER = [('Boolean', lambda h: [Some(True)], ('const', 'TRUE')), ('Boolean', lambda h: [Some(False)], ('const', 'FALSE')), ('Boolean', lambda h: [NONE()], ('const', 'NULL')),
         ('Null', lambda h: [], ('const', 'NULL')), ('Int64', lambda h: [NONE()], ('const', 'NULL')), ('Utf8', lambda h: [NONE()], ('const', 'NULL')), ('Date32', lambda h: [NONE()], ('const', 'NULL')),
         ('Float64', lambda h: [Some(1.5)], ('num', '1.5')), ('Float64', lambda h: [Some(float('nan'))], None), ('Float64', lambda h: [Some(float('inf'))], None), ('Float32', lambda h: [Some(float('-inf'))], None), ('Float32', lambda h: [Some(float('nan'))], None),
         ('Decimal128', lambda h: [Some(Int(1234, 'i128')), Int(10, 'u8'), Int(2, 'i8')], None), ('Decimal128', lambda h: [NONE(), Int(10, 'u8'), Int(2, 'i8')], ('const', 'NULL')), ('Decimal256', lambda h: [Some(i256()), Int(10, 'u8'), Int(2, 'i8')], None),
         ('Binary', lambda h: [Some(Vec([Int(16, 'u8')]))], None), ('LargeBinary', lambda h: [Some(Vec([Int(16, 'u8')]))], None), ('BinaryView', lambda h: [Some(Vec([Int(16, 'u8')]))], None),
         ('Time32Second', lambda h: [Some(Int(5, 'i32'))], None), ('Time64Nanosecond', lambda h: [Some(Int(5, 'i64'))], None), ('DurationSecond', lambda h: [Some(Int(5, 'i64'))], None), ('IntervalYearMonth', lambda h: [Some(Int(5, 'i32'))], None),
         ('Dictionary', lambda h: [Opaque('DataType'), D.scalar('Utf8', Some('x'))], ('str', 'x'))]
@case('other literals', over=[dict(src=s, i=i, _name=f'{s},{OTHER[i][0]},{i}') for s in SRC for i in range(len(OTHER))])
def otherlit(h, src, i):
    """a literal is shipped as a literal of the same value or refused"""
    ty, mkargs, want = OTHER[i]
    r = convert(h, D.lit(D.scalar(ty, *mkargs(h))), src)
    h.wit('ran')
    if r.var == 'Err': return
    try: back = parse(r.f['0'], DIALECTS[src])
    except Bad as b: h.fail(f'a {ty} literal is shipped as text that is no literal ({b})', info=lambda m: {'sql': repr(r.f['0'])}); return
    k = back[0]; v = back[1]
    if k == 'str': v = ''.join(c.c for c in v)
    h.check(want is not None and (k, v) == want, f'a {ty} literal is shipped as something else', info=lambda m: {'sql': repr(r.f['0'])})

UNSUPPORTED = ['Like', 'SimilarTo', 'Between', 'Cast', 'TryCast', 'Case', 'ScalarFunction', 'AggregateFunction', 'WindowFunction', 'Exists', 'InSubquery', 'ScalarSubquery', 'IsUnknown', 'IsNotUnknown', 'Placeholder', 'Alias', 'ScalarVariable', 'OuterReferenceColumn']
@case('other expressions are refused', over=[dict(src=s, kind=k) for s in SRC for k in UNSUPPORTED], expects=['refused'])
def refused(h, src, kind):
    """expressions without a rendering must be refused, on their own and inside others"""
    inner = D.E(kind, D.col('a') if kind.startswith('Is') else Struct(kind, {'expr': D.col('a'), 'pattern': D.col('b'), 'low': D.col('b'), 'high': D.col('c'), 'args': Vec([D.col('a')])}))
    e = h.pick([inner, D.E('Not', inner), D.binary(D.col('x'), D.conc_op('And'), inner), D.inlist(D.col('x'), [inner], False)], 'context')
    r = convert(h, e, src)
    if r.var == 'Ok' and kind in ('IsUnknown', 'IsNotUnknown') and e is inner:
        return compare(h, (kind, ('col', 'a')), r.f['0'], DIALECTS[src])
    h.check(r.var == 'Err', f'{kind} is shipped although it has no rendering', info=lambda m: {'sql': repr(r.f.get('0'))})
    h.wit('refused')

# ------------------------------------------------------------------ the whole way through the table provider
@case('through the table', over=[dict(src=s, root=k) for s in SRC + ['MsSQL'] for k in ('plain', 'bin', 'Not', 'in', 'IsNull')], expects=['none shipped'])
def through_table(h, src, root):
    """filters are offered to the table, those it takes are handed to its scan: they all have to be in the SQL sent, with their meaning"""
    from checks import remote as R
    g = Gen(h); d = DIALECTS.get(src, PG)
    R.KINDS.setdefault('MsSQL', 'mssql://u:p@host:1433/db')
    one = g.leaf() if root == 'plain' else g.node(root, [g.leaf() if root != 'bin' or i else g.node('bin', [g.leaf(), g.leaf()]) for i in range(ARITY[root])])
    bad = D.E('Like', Struct('Like', {'expr': D.col('a'), 'pattern': D.col('b')}))
    fs = h.pick([[one], [one, 'second'], ['bad'], [one, 'bad'], ['bad', one], []], 'filters')
    fs = [(g.leaf() if root != 'Not' else g.node('Not', [g.leaf()])) if x == 'second' else (bad, None) if x == 'bad' else x for x in fs]
    cols = [R.B.Field(c, R.AR.dt('Int64'), True) for c in 'abcdefgh']
    r, t = R.table(h, src, cols, cols, [])
    h.check(t.var == 'Ok', 'a remote table cannot be made'); t = deref(t.f['0'])
    s = h.it.call_method(t, 'supports_filters_pushdown', [Vec([Ref_(f[0]) for f in fs])])
    h.check(s.var == 'Ok' and len(deref(s.f['0']).a) == len(fs), 'the table does not answer for every filter')
    ans = [deref(x).var for x in deref(s.f['0']).a]
    for f, x in zip(fs, ans):
        if f[1] is None or src == 'MsSQL': h.check(x == 'Unsupported', 'a filter that cannot be sent is taken by the remote table', key='taken')
    took = [f for f, x in zip(fs, ans) if x != 'Unsupported']; exact = all(x == 'Exact' for x in ans)
    limit = h.int('limit', 'usize') if exact and h.flip('limited') else None
    x = h.it.await_(h.it.call_method(t, 'scan', [Opaque('session'), Some(Vec([Int(0, 'usize')])), Vec([f[0] for f in took]), NONE() if limit is None else Some(limit)]))
    h.check(x.var == 'Ok', 'a filter the remote table took makes reading it fail', key='refused later'); q = r.asked[-1]
    if not took:
        h.check(q.where is None, 'rows are left out without a filter'); h.wit('none shipped'); return
    if q.where is None:
        h.check(all(x == 'Inexact' for f, x in zip(fs, ans) if x != 'Unsupported'), 'a filter the remote table took is not sent', key='not sent'); return
    tree = took[0][1]
    for f in took[1:]: tree = ('bin', 'And', tree, f[1])
    env = Env(); back = norm(q.where)
    if not same_tree(tree, back):
        n1, v1, t1, w1 = ev(tree, env); n2, v2, t2, w2 = ev(back, env); sel = lambda n, v: z3.And(z3.Not(n), v != 0)
        h.assume(z3.And(w1, t1 == T_B))
        h.check(z3.And(w2, t2 == T_B, sel(n1, v1) == sel(n2, v2)), 'the SQL sent for a remote table selects other rows than its filters', key='scan different rows', info=lambda m: {'filters': show_tree(tree, m), 'read back': show_tree(back, m)})
    h.wit('sent')
def Ref_(x): return x
