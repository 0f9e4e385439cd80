"""C03: the cached GET endpoint."""
from engine.harness import *
from checks.web import *
from engine.symchars import symtext
NATIVE = None
BOUNDS = 'any path segment, query text, If-None-Match and Authorization header (SMT strings); every policy; every kind of plan; ETags: every pair of plans with up to 2 scanned tables each, in inputs, subqueries and nested subqueries, locations of 1-11 URL characters, versions below 2^48'
ASSUMPTIONS = ['SHA-256 has no collisions', 'serde_json renders different byte lists differently', 'percent decoding is one function of the text (uninterpreted)', 'table locations are URLs (printable ASCII)', 'warp filters as documented']
MODELS = 'warp filters, DataFusion logical plan traversal (inputs and subqueries), sha2, percent-encoding'

@case('what a GET runs', over=[dict(rm=r, wm=w, auth=t, src=s, _tier='quick' if (r, w) in (('any', 'off'), ('password', 'any'), ('password', 'password'), ('off', 'password'), ('off', 'off')) else 'thorough')
                               for r in MODES for w in MODES for t in (False, True) for s in ('path', 'header', 'body', 'both', 'bad body')], budget=300)
def get(h, rm, wm, auth, src):
    kinds = sorted(KINDS) if src == 'header' and rm != 'off' and not auth else ['SELECT', 'INSERT', 'SELECT INTO', 'EXPLAIN ANALYZE INSERT', 'EXPLAIN INSERT', 'ALTER TABLE', 'COPY TO / CONVERT']
    n = h.choose(3, 'number of statements') if src == 'path' else 1
    names = [h.pick(kinds, 'statement') if i == 0 else 'SELECT' for i in range(n)]
    w = World(h, [(x, KINDS[x][0]()) for x in names]); ctx = setup(h, w)
    ver = bytesint(h, 'version', 6)
    w.plan = lambda i: plan_of(KINDS[names[i]][3], i, [PL.scan(PL.DeltaTable('s3://a/b', ver))])
    f, rh, wh = server(h, ctx, rm, wm)
    hd = h.str('authorization') if auth else None
    seg = h.str('path segment'); h.assume(z3.Length(strterm(seg)) > 0)
    raw = None; headers = {'authorization': hd} if auth else {}; body = None
    if src in ('body', 'both'): raw = h.str('query in body'); body = ('json', raw)
    if src in ('header', 'both', 'bad body'):
        q = h.str('query in header'); headers['x-seafowl-query'] = q
        if raw is None: raw = q
    if src == 'bad body': body = ('bad',)
    inm = None
    if h.flip('if-none-match'): inm = h.str('if-none-match'); headers['if-none-match'] = inm
    db = h.pick(['none', 'other'], 'database') if src == 'header' else 'none'
    r = f.serve(h.it, Req('GET', (['other'] if db == 'other' else []) + ['q', seg], headers, body))
    s = status(r)
    can_r, can_w, turned = allowed(h, hd, rm, wm, rh, wh)
    runs = [(c, i) for k, c, i in w.events if k == 'run']
    info = lambda m: {'statements': names, 'policy': [rm, wm], 'source': src, 'segment': m(seg), 'raw': m(raw) if raw is not None else None, 'sql': m(w.sql) if w.sql is not None else None, 'events': repr(w.events), 'status': s}
    if yes(h, turned) or not yes(h, can_r) :
        h.check(not w.events, 'a caller who may not read reaches the query engine', info=info); h.check(400 <= s < 500, 'a caller who may not read is not refused', info=info); h.wit('refused'); return
    if rm == 'off': h.check(not runs and s == 405, 'the endpoint is open although reading is off', info=info); return
    e = strterm(seg); stem = SymStr(z3.If(z3.Contains(e, '.'), z3.SubString(e, 0, z3.IndexOf(e, z3.StringVal('.'), 0)), e))
    if w.sql is not None:
        text = SymStr(HT.PCTDEC(strterm(raw if raw is not None else stem)))
        h.check(eq(w.sql, text), 'another query than the given one is planned', info=info)
        if raw is not None: h.check(eq(HT.sha_hex(text), stem), 'a query is planned whose hash differs from the URL\'s', info=info); h.wit('hash matched')
        h.check(all(c == ('other' if db == 'other' else DB) for _, c, _ in w.events), 'a query runs in another database than the one the URL names', info=info)
    effect = any(KINDS[x][1] for x in names)
    if runs or s in (200, 304):
        h.check(n == 1 and not effect, 'a statement that is not a read-only query is run or confirmed', info=info)
    if runs: h.check(w.sql is not None, 'something runs without a query', info=info)
    if s == 304 or s == 200 or runs:
        etag = h.it.call_fn(HTTP + 'plan_to_etag', w.plan(0))
        same = eq(etag, inm) if inm is not None else False
        if s == 304: h.check(same, 'a changed result is answered with 304', info=info); h.check(not runs, 'a query is executed although the result is known'); h.wit('not modified')
        elif runs: h.check(bnot(same), 'an unchanged result is computed again', info=info)
        if s == 200:
            h.check(len(runs) == 1 and [k for k, _, _ in w.events].count('stream') == 1, 'a result is sent without running the query', info=info)
            hs = dict((k, v) for k, v in r.headers.e)
            h.check('etag' in hs and eq(HT.HeaderVal(hs['etag']).v, etag), 'the response carries another ETag', info=info)
            h.check(eq(HT.HeaderVal(hs.get('cache-control', '')).v, 'CACHE'), 'the configured Cache-Control is not sent', info=info); h.wit('executed')
    elif not w.failed and w.sql is not None and n == 1 and KINDS[names[0]][2] and KINDS[names[0]][3] != 'Analyze': h.fail('a permitted query is not run', info=info)
    if w.failed: h.check(s >= 400, 'a failed query is answered with success', info=info)

# ------------------------------------------------------------------ ETags
PLACES = ['input', 'subquery', 'nested']
def build(tables):
    """a plan that scans the given (place, provider)s"""
    top = [PL.scan(p) for k, p in tables if k == 'input']; subs = []
    for k, p in tables:
        if k == 'subquery': subs.append(PL.node('Projection', [PL.scan(p)]))
        if k == 'nested': subs.append(PL.node('Filter', [PL.node('EmptyRelation')], [PL.node('Aggregate', [PL.scan(p)])]))
    base = top[0] if len(top) == 1 else PL.node('Join', top) if top else PL.node('EmptyRelation')
    return PL.node('Projection', [PL.node('Filter', [base], subs)])
def bytesint(h, name, n):
    bs = [h.int(f'{name} byte {i}', 'u8', 0).v for i in range(n)]
    v = h.ctx.fresh(name, 'int'); h.ctx.add(v == z3.Sum([b * 256**i for i, b in enumerate(bs)])); h.ctx.user.setdefault('bytes', []).append((v, bs))
    return Int(v, 'i64')
SH = [(1,), (2,), (10,), (11,), (1, 1), (2, 1), (1, 2)]
@case('equal ETags mean equal tables', over=[dict(a=a, b=b, pa=p, pb=q) for i, a in enumerate(SH) for b in SH[i:] for p in PLACES for q in PLACES if sum(a) + 8 * len(a) == sum(b) + 8 * len(b)], expects=['different'])
def etags(h, a, b, pa, pb):
    mk = lambda tag, ls, p: [(p if i == 0 else 'input', PL.DeltaTable(symtext(f'{tag}{i}', n, 33, 126), bytesint(h, f'{tag}{i} version', 6))) for i, n in enumerate(ls)]
    ta, tb = mk('a', a, pa), mk('b', b, pb)
    ea, eb = (h.it.call_fn(HTTP + 'plan_to_etag', build(t)) for t in (ta, tb))
    inside = lambda x, t: bor(*[band(eq(x[1].uri, y[1].uri), eq(x[1].v, y[1].v)) for y in t])
    same = band(*[inside(x, tb) for x in ta], *[inside(x, ta) for x in tb])
    h.check(bor(bnot(eq(ea, eb)), same), 'two sets of tables or versions share an ETag', info=lambda m: {'a': [[m(t.uri), m(t.v), k] for k, t in ta], 'b': [[m(t.uri), m(t.v), k] for k, t in tb]})
    if h.ctx.possible(bnot(eq(ea, eb))): h.wit('different')
@case('the ETag of a plan is stable', over=[dict(p=p, o=o) for p in PLACES for o in (False, True)])
def stable(h, p, o):
    u = symtext('uri', 3, 33, 126); v = h.int('version', 'i64', 0); x = [(p, PL.DeltaTable(u, v))] + ([('input', PL.OtherProvider())] if o else [])
    h.check(eq(h.it.call_fn(HTTP + 'plan_to_etag', build(x)), h.it.call_fn(HTTP + 'plan_to_etag', build(x))), 'one plan has two ETags')
