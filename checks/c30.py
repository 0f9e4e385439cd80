"""C30: INSERT into an Iceberg table appends exactly its rows as a new snapshot."""
from checks.iceberg import *
NATIVE = None
BOUNDS = 'tables of any version up to 2^40 with up to 2 earlier snapshots, any sequence number and schema id, with and without a version hint; a query of up to 2 partitions, 2 batches and 2 rows each; one failing step, another writer running (and possibly crashing) between any two steps'
ASSUMPTIONS = ['an exclusive write fails when the file exists and is atomic, as is every other write', 'snapshot ids drawn at random may coincide (the append is then refused)', 'the tables are not partitioned']
MODELS = 'iceberg-rust (FileIO, TableMetadata and its builder, manifest and manifest-list writers, ParquetWriter), opendal errors, the query plan'
def arrow(tys): return B.Schema([B.Field(n, AR.dt(t), nl) for n, t, nl in tys])
def world(h, kind, evolved=False, snaps=1, loc='s3://bucket/tab'):
    install(h); w = World(h, loc); h.ctx.user['ice'] = w
    cols = [('a', 'Int64', True), ('b', 'Utf8', False)]
    fs = [ifield(n, AR.dt(t), not nl) for n, t, nl in cols]
    sid = h.int('schema id', 'i32', 0, 5)
    if evolved: h.assume(mkbool(sid.v > 0)); schemas = [ISchema(fs[:1], Int(0, 'i32')), ISchema(fs, sid)]
    else: h.assume(mkbool(sid.v == 0)); schemas = [ISchema(fs, sid)]
    m = Meta(loc, schemas, sid, [], None, Int(0, 'i64')); w.old = []
    if snaps:
        m.seq = h.int('sequence', 'i64', snaps, 1 << 40); es = []
        for k in range(snaps):
            d = f'{loc}/data/old-{k}.parquet'; w.files.append([d, Data([f'old {k}'], schemas[-1])]); w.old.append(f'old {k}')
            mp = f'{loc}/metadata/m{k}.avro'; w.files.append([mp, Manifest(Holder({}), [Struct('ManifestEntry', {'status': Enum('ManifestStatus', 'Added' if k == 0 else 'Existing'), 'data_file': DataFile(d)})])])
            es.append(MFile(mp, Int(h.ctx.fresh(f'old snapshot {k}'), 'i64'), Int(k + 1, 'i64')))
            s = Snap(id=es[-1].added, seq=Int(k + 1, 'i64') if k + 1 < snaps else m.seq, list=f'{loc}/metadata/l{k}.avro', schema=sid, parent=None, op=Enum('Operation', 'Append')); w.files.append([s.f['list'], list(es)])
            m.snaps.append(s)
        if snaps > 1: h.assume(bnot(eq(es[0].added, es[1].added)))
        m.main = m.snaps[-1]
    v = h.int('version', 'u64', 0, 1 << 40); w.v0 = None
    pinned = m.copy()
    if kind == 'hinted':
        w.v0 = v; w.files.append([mktext([loc.rstrip('/') + '/metadata/v', v, '.metadata.json']), Blob(m)])
        w.files.append([w.hint, Blob(mktext([v] + (['\n'] if h.flip('newline') else [])))])
    else: w.files.append([loc.rstrip('/') + '/metadata/00001-abc.metadata.json', Blob(m)])
    w.cols = cols; w.meta = m; w.provider = Provider(Table(pinned)); w.base = w.snapshot()
    return w
def rows(h, who, shape): return [[[f'{who} {i}.{j}.{k}' for k in range(n)] for j, n in enumerate(p)] for i, p in enumerate(shape)]
def flat(ps): return [r for p in ps for b in p for r in b]
def judge(h, w, wrote, maybe=(), count=1):
    """the table reads as its old rows and those of the appends that succeeded, each exactly once"""
    v, m = w.current()
    if m is None: m = w.meta; h.check(not wrote, 'an append succeeds without the table leading to its rows', key='lost')
    got = sorted(w.read(m)); must = sorted(w.old + [r for x in wrote for r in flat(x)])
    ok = [must] + [sorted(must + flat(x)) for x in maybe]
    h.check(got in ok, 'after an append the table does not hold exactly its old rows and the new ones', key='rows', info=lambda k: {'rows': got, 'expected': must})
    if got == must and wrote:
        h.check(len(m.snaps) == len(w.meta.snaps) + len(wrote) and [x.f['list'] for x in m.snaps[:len(w.meta.snaps)]] == [x.f['list'] for x in w.meta.snaps], 'an append does not add exactly one snapshot to those of the table', key='snapshots')
        s = m.main; h.check(mkbool(z3.And(s.f['seq'].v == w.meta.seq.v + len(wrote), m.seq.v == w.meta.seq.v + len(wrote)) if not isinstance(w.meta.seq.v, int) or not isinstance(s.f['seq'].v, int) else s.f['seq'].v == w.meta.seq.v + len(wrote)), 'a snapshot does not have the next sequence number', key='sequence')
        h.check(s.f['op'].var == 'Append', 'a snapshot does not say that it appends', key='operation')
        h.check(s.f['schema'] is not None and eq(s.f['schema'], m.cur), 'a new snapshot is read with another schema than the current one of the table', key='schema of the snapshot', info=lambda k: {'schema of the snapshot': k(s.f['schema'].v), 'of the table': k(m.cur.v)})
        h.check(eq(m.cur, w.meta.cur) and len(m.schemas) == len(w.meta.schemas) and m.loc == w.meta.loc, 'an append changes the schema or location of a table', key='table')
        nm = [w.find(x.path)[1] for x in w.find(s.f['list'])[1]][len(w.meta.snaps):]
        for x in nm: h.check(eq(x.meta['schema_id'], m.cur) and x.meta['schema'].fields == m.schema().fields, 'a manifest is written for another schema than the current one of the table', key='schema of the snapshot')
    for e in w.base:
        n = w.find(e[0])
        h.check(n is not None and (n[1] is e[1] or Ctx.cur.branch(eq(e[0], w.hint))), 'a file of the table is lost', key='overwritten')
    if w.v0 is not None and wrote and got == must: h.check(mkbool(v.v == w.v0.v + len(wrote)), 'an append does not make the next version', key='version')
SH = {'one': [[1]], 'batches': [[1, 0, 2]], 'partitions': [[1], [2, 1]], 'empty': [[0]], 'none': [[]]}
@case('append', over=[dict(kind=k, shape=s, evolved=e, snaps=n) for k in ('hinted', 'unhinted') for s in SH for e in (False, True) for n in (0, 1, 2) if not (e and s != 'one') and (n == 1 or s in ('one', 'partitions'))], expects=['appended'])
def append(h, kind, shape, evolved, snaps):
    w = world(h, kind, evolved, snaps); ps = rows(h, 'new', SH[shape])
    r = run(h, Plan(arrow(w.cols), ps), w.provider)
    if r.var == 'Err': judge(h, w, []); h.check(w.snaps_coincide(), 'an append to a table is refused', key='refused'); return
    judge(h, w, [ps]); h.wit('appended')
FAULTS = ['store', 'query']
@case('failing append', over=[dict(kind=k, what=x, shape=s) for k in ('hinted', 'unhinted') for x in FAULTS for s in ('one', 'partitions') if (x, s) != ('store', 'partitions')], expects=['refused'])
def failing(h, kind, what, shape):
    w = world(h, kind); w.faults = what == 'store'; w.qf = what == 'query'; ps = rows(h, 'new', SH[shape])
    r = run(h, Plan(arrow(w.cols), ps), w.provider)
    if r.var == 'Ok': h.check(w.failed is None, 'an append succeeds although a step of it failed', key='failed step'); judge(h, w, [ps]); return
    # reported failed: nothing of it shows, unless all that was left was to say so
    told = what == 'store' and w.failed in ('write',)
    judge(h, w, [], [ps] if told else []); h.wit('refused')
    w.faults = w.qf = False; again = rows(h, 'again', [[1]]); r2 = run(h, Plan(arrow(w.cols), again), w.provider)
    if r2.var == 'Err':
        h.check(w.snaps_coincide(), 'after a failed append no append ever succeeds again', key=f'stuck after the failure of: {w.failed}'); return
    judge(h, w, [again], [ps] if told else [])
@case('two writers', over=[dict(kind=k, crash=c) for k in ('hinted', 'unhinted') for c in (False, True)], expects=['both refused or one', 'both'])
def two(h, kind, crash):
    w = world(h, kind); w.crash = crash; mine, theirs = rows(h, 'mine', [[1]]), rows(h, 'theirs', [[1]]); other = []
    def go(): other.append(run(h, Plan(arrow(w.cols), theirs), w.provider))
    w.other = go
    r = run(h, Plan(arrow(w.cols), mine), w.provider)
    ran = w.other is None
    ok = ([mine] if r.var == 'Ok' else []) + ([theirs] if other and other[0].var == 'Ok' else [])
    judge(h, w, ok, [theirs] if ran and not other else [])
    if len(ok) == 2: h.wit('both')
    else: h.wit('both refused or one')
@case('schemas', over=[dict(kind=k, what=x) for k in ('hinted', 'unhinted') for x in ('fewer', 'more', 'type', 'nullable', 'swapped', 'stricter')], expects=['judged'])
def schemas(h, kind, what):
    w = world(h, kind); ps = rows(h, 'new', [[1]]); c = list(w.cols)
    c = {'fewer': c[:1], 'more': c + [('c', 'Int64', True)], 'type': [c[0], ('b', 'Int64', False)], 'nullable': [c[0], ('b', 'Utf8', True)], 'swapped': c[::-1], 'stricter': [('a', 'Int64', False), c[1]]}[what]
    r = run(h, Plan(arrow(c), ps), w.provider)
    if what == 'stricter':
        if r.var == 'Ok': judge(h, w, [ps]); h.wit('judged')
        return
    h.check(r.var == 'Err', 'rows of another shape are appended to a table', key='shape'); judge(h, w, []); h.wit('judged')
@case('damaged', over=[dict(what=x) for x in ('hint is not a number', 'hint is not UTF-8', 'hint is empty', 'hint names no file', 'metadata is not JSON', 'metadata is not UTF-8', 'no manifest list')], expects=['refused'])
def damaged(h, what):
    w = world(h, 'hinted'); e = w.find(w.hint); m = next(x for x in w.files if isinstance(x[1], Blob) and isinstance(x[1].v, Meta))
    if what == 'hint is not a number': e[1] = Blob('v' )
    elif what == 'hint is not UTF-8': e[1] = Blob('1', bad=True)
    elif what == 'hint is empty': e[1] = Blob('')
    elif what == 'hint names no file': w.files.remove(m)
    elif what == 'metadata is not JSON': m[1] = Blob('{')
    elif what == 'metadata is not UTF-8': m[1] = Blob('', bad=True)
    else: w.files = [x for x in w.files if not (type(x[0]) is str and '/l0.avro' in x[0])]
    before = w.snapshot(); r = run(h, Plan(arrow(w.cols), rows(h, 'new', [[1]])), w.provider)
    h.check(r.var == 'Err', 'an append to a damaged table succeeds', key='damaged'); h.wit('refused')
    for x in before:
        n = w.find(x[0]); h.check(n is not None and n[1] is x[1], 'an append to a damaged table changes its files', key='damaged')
