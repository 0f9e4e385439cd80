"""C17: time travel reads exactly the requested version of each table."""
from engine.harness import *
from engine.symchars import symtext, symchar, cl, code, from_cl
from engine import ext_chrono as X
NATIVE = None
BOUNDS = ('version strings: every string of the shapes RFC 3339 (T, t or space; Z or numeric offset; 0-3 fractional digits), RFC 2822 (numeric zone or GMT, with and without weekday), '
          '"Y-m-d H:M:S offset", "Y-m-d H:M:S", with all digits, signs and letters symbolic, plus malformed strings; queries of up to 3 table references with names of 1-3 parts')
ASSUMPTIONS = ['chrono\'s parsers follow their documentation (0.4.38)', 'leap seconds (:60) are outside the claim']
MODELS = 'chrono date-time parsing, sqlparser Ident/ObjectName/TableFactor, DataFusion TableReference'

def digits(name, n): return symtext(name, n, 48, 57)
def num(t):
    v = 0
    for c in cl(t): v = v * 10 + (code(c) - 48)
    return v
V2D = 'seafowl::version::TableVersionProcessor::version_to_datetime'
SHAPES = ['3339', '3339z', '3339frac', 'custom', 'customcolon', 'naive', '2822', '2822gmt', '2822wd']
@case('version string to instant', over=[dict(shape=s) for s in SHAPES], expects=['instant', 'rejected'])
def version(h, shape):
    it = h.it
    Y, m, d, H, M, S = digits('Y', 4), digits('m', 2), digits('d', 2), digits('H', 2), digits('M', 2), digits('S', 2)
    zh, zm = digits('zh', 2), digits('zm', 2)
    plus = h.flip('positive offset'); sg = '+' if plus else '-'
    ns = 0; off = (num(zh) * 3600 + num(zm) * 60) * (1 if plus else -1)
    mo = num(m)
    sep = h.pick(['T', 't', ' '], 'separator') if shape.startswith('3339') else ' '
    date = [Y, '-', m, '-', d]; time_ = [H, ':', M, ':', S]
    wdok = True
    if shape == '3339': t = date + [sep] + time_ + [sg, zh, ':', zm]
    elif shape == '3339z': t = date + [sep] + time_ + [h.pick(['Z', 'z'], 'zulu')]; off = 0
    elif shape == '3339frac':
        k = h.pick([1, 3], 'fraction digits'); f = digits('f', k); t = date + [sep] + time_ + ['.', f, sg, zh, ':', zm]; ns = num(f) * 10 ** (9 - k)
    elif shape == 'custom': t = date + [' '] + time_ + [' ', sg, zh, zm]
    elif shape == 'customcolon': t = date + [' '] + time_ + [' ', sg, zh, ':', zm]
    elif shape == 'naive': t = date + [' '] + time_; off = 0
    else:
        k = h.choose(12, 'month'); mo = k + 1
        t = [d, ' ', X.MON[k].capitalize(), ' ', Y, ' '] + time_ + [' '] + (['GMT'] if shape == '2822gmt' else [sg, zh, zm])
        if shape == '2822gmt': off = 0
        if shape == '2822wd':
            w = h.choose(7, 'weekday'); t = [X.WD[w].capitalize(), ', '] + t
            wdok = mkbool((X.days_civil(num(Y), mo, num(d)) + 3) % 7 == w)
    h.assume(mkbool(num(S) != 60))
    s = mktext(t)
    r = it.call_fn(V2D, s)
    has_off = shape in ('3339', '3339frac', 'custom', 'customcolon', '2822', '2822wd')
    ok = X.land(X.valid_date(num(Y), mo, num(d)), num(H) < 24, num(M) < 60, num(S) < 60, wdok, X.land(num(zh) < 24, num(zm) < 60) if has_off else True)
    info = lambda m_: {'version': m_(s), 'result': repr(r)}
    if r.var == 'Err':
        h.wit('rejected'); h.check(bnot(ok), 'a valid version string is refused', info=info); return
    h.wit('instant')
    h.check(ok, 'a malformed version string is accepted', info=info)
    got = deref(r.f['0'])
    want = X.secs_of(num(Y), mo, num(d), num(H), num(M), num(S)) - off
    h.check(X.land(got.s == want, got.ns == ns), 'a version string denotes another instant', info=lambda m_: dict(info(m_), got=m_(got.s), want=m_(want)))
    h.sample(version=s)

@case('other strings are errors', over=[dict(n=k) for k in (0, 1, 2, 3)] + [dict(n=-1, _name='date only'), dict(n=-2, _name='trailing text'), dict(n=-3, _name='no seconds')], expects=['refused'])
def junk(h, n):
    it = h.it
    Y, m, d, H, M, S = digits('Y', 4), digits('m', 2), digits('d', 2), digits('H', 2), digits('M', 2), digits('S', 2)
    if n >= 0: s = symtext('text', n)
    elif n == -1: s = mktext([Y, '-', m, '-', d])
    elif n == -2:
        x = symtext('x', 1, 33); h.assume(mkbool(z3.Or(code(cl(x)[0]) < 48, code(cl(x)[0]) > 57)))
        h.assume(mkbool(z3.And(code(cl(x)[0]) != ord('Z'), code(cl(x)[0]) != ord('z'))))
        s = mktext([Y, '-', m, '-', d, ' ', H, ':', M, ':', S, x])
    else: s = mktext([Y, '-', m, '-', d, ' ', H, ':', M])
    r = it.call_fn(V2D, s)
    h.check(r.var == 'Err', 'a string in no accepted format is taken for a version', info=lambda m_: {'version': m_(s), 'result': repr(r)})
    h.wit('refused')

# ------------------------------------------------------------------ rewriting of queries
from engine import ext_sqlparser as SQ
from engine.interp import EXT_FN
from engine.stdlib import OpaquePiece
POOL = {'v1': ('2022-01-01T20:01:01Z', 1641067261), 'v1 lower case': ('2022-01-01t20:01:01z', 1641067261), 'v2': ('2023-05-06 07:08:09 +02:00', 1683349689), 'not a time': ('yesterday', None)}
DC, DS = 'maincat', 'sess'
class Uuid_(Obj):
    def __init__(self, ref): self.ref = ref
    def display_(self, it): return Text([OpaquePiece(self)])
class State(Obj):
    def __init__(self, regs): self.regs = regs
class Session(Obj):
    def __init__(self, regs, base=False): self.regs = regs; self.base = base
    def m_state(self, it, a, c): return State(self.regs)
    def m_copied_config(self, it, a, c): return Opaque('SessionConfig')
    def m_table_exist(self, it, a, c):
        r = rref(it, a[0])
        return Ok(any(Ctx.cur.branch(same_ref(r, x)) for x, _ in self.regs))
    def m_register_table(self, it, a, c):
        if self.base: raise Violation('a versioned table is registered in the shared session', None)
        r = rref(it, a[0])
        if any(Ctx.cur.branch(same_ref(r, x)) for x, _ in self.regs): return Err(Enum('DataFusionError', 'Execution', {'0': 'exists'}))
        self.regs.append((r, deref(a[1]))); return Ok(NONE())
    def m_deregister_table(self, it, a, c):
        r = rref(it, a[0]); self.regs[:] = [x for x in self.regs if not Ctx.cur.branch(same_ref(r, x[0]))]; return Ok(NONE())
def rref(it, v):
    r = SQ.resolve(SQ.parse_ref(it, v), DC, DS); return r
def same_ref(a, b): return band(*[eq(a.f[k], b.f[k]) for k in ('catalog', 'schema', 'table')])
EXT_FN['SessionContext::new_with_state'] = lambda it, a, c: Session(list(deref(a[0]).regs))
class Store(Obj):
    def m_get_log_store(self, it, a, c):
        v = deref(a[0]); return LogStore(v.p[0].v if type(v) is Text else v)
    def m_table_prefix(self, it, a, c): return deref(a[0])
class LogStore(Obj):
    def __init__(self, u): self.u = u
class Delta(Obj):
    def __init__(self, store): self.store = store; self.at = None
    def m_load_with_datetime(self, it, a, c): self.at = deref(a[0]); return Ok(UNIT())
    def m_load(self, it, a, c): self.at = 'latest'; return Ok(UNIT())
EXT_FN['DeltaTable::new'] = lambda it, a, c: Delta(deref(a[0]))

def planner(name):
    """how the planner resolves a table name of a query"""
    ids = [deref(x) for x in deref(name.f['0']).a]
    ps = [x.f['value'] if deref(x.f['quote_style']).var == 'Some' else SQ.ascii_lower(x.f['value']) for x in ids]
    ps = [DC, DS][:3 - len(ps)] + ps
    return Struct('ResolvedTableReference', dict(zip(('catalog', 'schema', 'table'), ps)))

class Query(Obj):
    def __init__(self, fs): self.fs = fs
    def m_visit(self, it, a, c):
        v = deref(a[0])
        for f in self.fs:
            for hook in ('pre_visit_table_factor', 'pre_visit_relation', 'post_visit_relation', 'post_visit_table_factor'):
                if it.user_method(v, hook) is None: continue
                tgt = f if 'table_factor' in hook else f.f['name']
                r = deref(it.call_method(v, hook, [Ref(lambda t=tgt: t, lambda x, t=tgt: t.become(x))]))
                if r.var == 'Break': return r
        return Enum('ControlFlow', 'Continue', {'0': UNIT()})
    def display_(self, it): return Text([OpaquePiece(self)])

def arg_expr(e): return Enum('FunctionArg', 'Unnamed', {'0': Enum('FunctionArgExpr', 'Expr', {'0': e})})
def sqs(s, k='SingleQuotedString'): return Enum('Expr', 'Value', {'0': Enum('Value', k, {'0': s})})
def factor(name, args):
    a = NONE() if args is None else Some(Struct('TableFunctionArgs', {'args': Vec(args), 'settings': NONE()}))
    return Enum('TableFactor', 'Table', {'name': name, 'alias': NONE(), 'args': a, 'with_hints': Vec([]), 'version': NONE(), 'with_ordinality': False, 'partitions': Vec([]), 'json_path': NONE(), 'sample': NONE()})
def wordchar(name): 
    c = symchar(name, 48, 122); k = code(c)
    Ctx.cur.assume(mkbool(z3.Or(z3.And(k >= 65, k <= 90), z3.And(k >= 97, k <= 122), k == 95)))
    return c
def part(h, name, quoted, n=1, free=False):
    if free:
        t = symtext(name, n, 32, 126)
        for x in cl(t): h.assume(mkbool(z3.And(code(x) != 34, code(x) != 58)))
        return SQ.ident(t, '"' if quoted else None)
    return SQ.ident(from_cl([wordchar(f'{name}[{i}]') for i in range(n)]), '"' if quoted else None)
def mkname(h, tag, shape, n=1, free=False):
    ids = []
    for i, p in enumerate(shape.split('.')):
        ids.append(part(h, f'{tag}.{"cst"[3 - len(shape.split(".")) + i]}', p.startswith('"'), n if i == shape.count('.') else 1, free and p.startswith('"')))
    return SQ.objname(*ids)

def run(h, factors):
    it = h.it
    base = Session([], base=True)
    ctx = Struct(it.find_type('SeafowlContext'), {'default_catalog': DC, 'default_schema': DS, 'inner': base, 'internal_object_store': Some(Store()), 'config': Opaque('config'), 'metastore': Opaque('metastore')})
    it.overrides['SeafowlContext::get_table_uuid'] = lambda it, a, c: Ok(Uuid_(rref(it, a[1])))
    it.overrides['SeafowlContext::get_internal_object_store'] = lambda it, a, c: Ok(Store())
    q = Query(factors)
    return it.method(ctx, 'rewrite_time_travel_query', q)

def verify(h, refs, res):
    """refs: (factor, original name, version key or None)"""
    bad = any(v is not None and POOL[v][1] is None for _, _, v in refs)
    if bad:
        h.check(res.var == 'Err', 'a query with a malformed version is planned'); h.wit('malformed'); return
    h.check(res.var == 'Ok', 'a query with valid versions is refused', info=lambda m: {'result': repr(res)})
    regs = deref(res.f['0']).regs
    for f, orig, v in refs:
        want = planner(orig); got = planner(deref(f.f['name']))
        info = lambda m: {'written': m(want), 'rewritten': m(got), 'version': v, 'registered': [[m(r), m(d.store.u.ref), repr(d.at.s) if isinstance(d.at, X.DT) else repr(d.at)] for r, d in regs]}
        hit = None
        for r, d in regs:
            if h.ctx.branch(same_ref(r, got)): hit = d; break
        if v is None:
            h.check(hit is None and True, 'an unversioned reference reads a pinned version', info=info)
            h.check(same_ref(want, got), 'an unversioned reference is renamed', info=info); h.wit('unversioned'); continue
        h.check(deref(f.f['args']).var == 'None', 'the version argument is left in the query', info=info)
        h.check(hit is not None, 'a versioned reference resolves to no registered version', info=info)
        h.check(same_ref(hit.store.u.ref, want), 'a versioned reference reads another table', info=info)
        h.check(isinstance(hit.at, X.DT) and X.land(hit.at.s == POOL[v][1]), 'a versioned reference reads another version', info=info); h.wit('versioned')

SH = ['t', '"t"', 's.t', '"s"."t"', 'c.s.t', '"c"."s"."t"']
@case('one reference', over=[dict(shape=s, n=n, free=fr) for s in SH for n, fr in ((1, False), (2, True)) if fr is False or '"' in s], expects=['versioned'])
def one(h, shape, n, free):
    nm = mkname(h, 'a', shape, n, free); orig = clone(nm)
    v = h.pick(['v1', 'v2', 'not a time'], 'version')
    f = factor(nm, [arg_expr(sqs(POOL[v][0]))])
    verify(h, [(f, orig, v)], run(h, [f]))

@case('other references are left alone', over=[dict(kind=k) for k in ('none', 'two arguments', 'number', 'named', 'double quoted', 'no arguments', 'wildcard')], expects=['unversioned'])
def other(h, kind):
    args = {'none': None, 'no arguments': [], 'two arguments': [arg_expr(sqs(POOL['v1'][0])), arg_expr(sqs(POOL['v2'][0]))], 'number': [arg_expr(Enum('Expr', 'Value', {'0': Enum('Value', 'Number', {'0': '1', '1': False})}))],
            'named': [Enum('FunctionArg', 'Named', {'name': SQ.ident('x'), 'arg': Enum('FunctionArgExpr', 'Expr', {'0': sqs(POOL['v1'][0])}), 'operator': Enum('FunctionArgOperator', 'RightArrow')})],
            'double quoted': [arg_expr(sqs(POOL['v1'][0], 'DoubleQuotedString'))], 'wildcard': [Enum('FunctionArg', 'Unnamed', {'0': Enum('FunctionArgExpr', 'Wildcard')})]}[kind]
    shape = h.pick(['t', '"t"', 's.t'], 'name'); nm = mkname(h, 'a', shape); orig = clone(nm)
    f = factor(nm, args); before = clone(f.f['args'])
    res = run(h, [f])
    h.check(deref(f.f['args']).var == before.var, 'the arguments of another table function are dropped')
    verify(h, [(f, orig, None)], res)

@case('two references', over=[dict(a=a, b=b) for a in ('t', '"t"', 's.t', '"c"."s"."t"') for b in ('t', '"t"', 's.t', 'c.s.t')], expects=['versioned', 'unversioned'])
def two(h, a, b):
    refs = []
    for tag, shape in (('a', a), ('b', b)):
        nm = mkname(h, tag, shape); orig = clone(nm)
        v = h.pick([None, 'v1', 'v2'] + (['v1 lower case'] if tag == 'b' else []), 'version')
        refs.append((factor(nm, None if v is None else [arg_expr(sqs(POOL[v][0]))]), orig, v))
    verify(h, refs, run(h, [r[0] for r in refs]))

@case('three references', over=[dict(vs=vs, _tier='quick' if i % 3 == 0 else 'thorough') for i, vs in enumerate([(x, y, z) for x in ('v1', 'v2', None) for y in ('v1', 'v2', None) for z in ('v1', 'v1 lower case', None)])])
def three(h, vs):
    refs = []
    for tag, v in zip('abc', vs):
        nm = mkname(h, tag, h.pick(['t', '"t"', 's.t'] if tag == 'a' else ['t', 's.t'], 'name')); orig = clone(nm)
        refs.append((factor(nm, None if v is None else [arg_expr(sqs(POOL[v][0]))]), orig, v))
    verify(h, refs, run(h, [r[0] for r in refs]))
