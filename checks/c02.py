"""C02: no HTTP query runs without the permission it needs."""
from engine.harness import *
from checks.web import *
NATIVE = None
BOUNDS = 'batches of 0-3 statements of every kind (query, query INTO, nested query, EXPLAIN [ANALYZE] of reads and writes, SHOW, DML, DDL, COPY, Seafowl extensions); every policy; every Authorization header value (SMT strings); one failure at any step; every path of up to 3 segments'
ASSUMPTIONS = ['DataFusion plans each kind of statement as documented (SELECT INTO as CREATE TABLE, EXPLAIN ANALYZE runs the statement)', 'SHA-256 has no collisions among the strings of one request', 'warp filters as documented']
MODELS = 'warp filters, hyper responses, DataFusion statements and plans (by kind), the query context behind the HTTP layer'
GRID = [dict(rm=r, wm=w, auth=t) for r in MODES for w in MODES for t in (False, True)]
def wits(g, run):
    r, w, t = g['rm'], g['wm'], g['auth']
    return dict(g, _expects=['turned away'] * (t or 'any' not in (r, w)) + ['forbidden'] * (t and r == 'password' != w != 'any' or t and (r, w) == ('password', 'password')) + ['ran'] * bool(run and (r, w) != ('off', 'off') and (t and 'password' in (r, w) or not t and r == w == 'any')))

def post(h, rm, wm, auth, names, db):
    w = World(h, [(n, KINDS[n][0]()) for n in names]); ctx = setup(h, w)
    f, rh, wh = server(h, ctx, rm, wm)
    hd = h.str('authorization') if auth else None
    dbn = {'none': DB, 'same': DB, 'other': 'other'}[db]
    req = Req('POST', ['q'] if db == 'none' else [dbn, 'q'], {'authorization': hd} if auth else {}, ('json', 'THE QUERY'))
    r = f.serve(h.it, req)
    judge(h, w, r, hd, rm, wm, rh, wh, names, dbn)
def judge(h, w, r, hd, rm, wm, rh, wh, names, dbn):
    can_r, can_w, turned = allowed(h, hd, rm, wm, rh, wh)
    effect = any(KINDS[n][1] for n in names); reads = [KINDS[n][2] for n in names]
    runs = [(c, i) for k, c, i in w.events if k == 'run']
    info = lambda m: {'batch': list(names), 'policy': [rm, wm], 'events': repr(w.events), 'status': status(r), 'header': m(hd) if hd is not None else None}
    s = status(r)
    if yes(h, turned):
        h.check(not w.events, 'a request without valid credentials reaches the query engine', info=info); h.check(s in (400, 401), 'a request without valid credentials is not refused as such', info=info); h.wit('turned away'); return
    need = [can_w] * effect + [can_r] * (True in reads)       # SHOW, DESCRIBE: either permission is fine
    if not need: need = [bor(can_r, can_w)] if names else []
    if not yes(h, band(*need) if need else True):
        h.check(not runs, 'a statement runs without the permission it needs', info=info)
        h.check(s >= 400, 'a forbidden batch is answered with success', info=info); h.wit('forbidden'); return
    strict = None in reads      # SHOW, DESCRIBE: either class is fine
    if not strict:
        n = reads.count(True)
        if n > 1 or (n == 1 and reads[-1] is not True):
            h.check(not runs, 'part of a batch with a misplaced query runs', info=info); h.check(400 <= s < 500, 'a batch with a misplaced query is not refused', info=info); h.wit('misplaced'); return
        if not names: h.check(not runs and 400 <= s < 500, 'an empty batch is not refused', info=info); return
    elif not runs and s in (400, 403, 405): return
    if w.failed:
        h.check(s >= 400, 'a failed batch is answered with success', info=info)
        if w.failed.startswith('planning') or w.failed.startswith('running'):
            k = int(w.failed.split()[-1]); h.check([i for _, i in runs] == list(range(k + (w.failed[0] == 'r'))), 'statements run after a failed one', info=info)
        return
    h.check([i for _, i in runs] == list(range(len(names))), 'a permitted batch does not run each statement once, in order', info=info)
    h.check(all(c == dbn for _, c, _ in w.events), 'a batch runs in another database than the one the URL names', info=info)
    h.check(s == 200 and [i for k, c, i in w.events if k == 'stream'] == [len(names) - 1], 'the response does not carry the last statement\'s rows', info=info)
    h.check(eq(w.sql, 'THE QUERY'), 'another query text is run', info=info); h.wit('ran')

@case('one statement', over=[wits(g, True) for g in GRID])
def one(h, rm, wm, auth):
    post(h, rm, wm, auth, [h.pick(sorted(KINDS), 'statement')], h.pick(['none', 'same', 'other'], 'database'))
REP = ['SELECT', '(SELECT INTO)', 'EXPLAIN ANALYZE INSERT', 'EXPLAIN ANALYZE SELECT', 'INSERT', 'SHOW COLUMNS']
@case('two statements', over=[wits(g, False) for g in GRID], budget=300)
def two(h, rm, wm, auth):
    a = h.pick(sorted(KINDS), 'first'); b = h.pick(sorted(KINDS) if a in REP else REP, 'second')
    post(h, rm, wm, auth, [a, b], h.pick(['none', 'other'], 'database') if a == 'SELECT' else 'none')
@case('three statements', over=[dict(wits(g, False), _tier='quick' if g['rm'] != 'off' and (g['wm'] != 'off') else 'thorough') for g in GRID], budget=300)
def three(h, rm, wm, auth): post(h, rm, wm, auth, [h.pick(REP[:5], f'statement {i}') for i in range(3)], 'none')
@case('no statements', over=GRID)
def none(h, rm, wm, auth): post(h, rm, wm, auth, [], 'none')
