"""C20: each table's storage location is its own."""
from engine.harness import *
from checks.cat import sym_name
from engine import ext_store as ST, ext_url as U, ext_objstore as O, interp as I
NATIVE = None
BOUNDS = ('any kind of store (local, memory, S3 with and without an endpoint, GCS); prefixes of up to 3 arbitrary segments with leading, trailing and doubled slashes; any two table identifiers; histories of up to three requests over arbitrary (possibly equal) '
          'URLs, up to two options each and table paths of up to two segments; every operation of the wrapped store with any outcome')
ASSUMPTIONS = ['path segments have no characters that a URL escapes', 'PrefixStore, LocalFileSystem and default_logstore root what they are given as documented', 'table identifiers are UUIDs']
MODELS = 'url::Url, object_store paths and builders, PrefixStore, default_logstore (recorded), the byte cache (recorded; C04), DashMap'
C = 'seafowl::object_store::'
class Log(Obj):
    def __init__(self, store, url, opts): self.store = store; self.url = url; self.opts = opts
I.EXT_FN['default_logstore'] = lambda it, a, c: Log(deref(a[0]), deref(a[1]), deref(a[2]))
I.EXT_FN['logstore::default_logstore'] = I.EXT_FN['default_logstore']
class Canon(Obj):
    def __init__(self, t): self.t = t
    def m_canonicalize(self, it, a, c): return Ok(mktext(['/canonical/'] + ST.parts(self.t)))
I.EXT_FN['StdPath::new'] = I.EXT_FN['std::path::Path::new'] = I.EXT_FN['path::Path::new'] = lambda it, a, c: Canon(deref(a[0]))
class Cached(Obj):
    def __init__(self, props, inner): self.props = props; self.inner = inner
    def m_clone(self, it, a, c): return self
PRE = [('none',), ('empty', ''), ('one', 0), ('lead', '', 0), ('trail', 0, ''), ('two', 0, 1), ('two-trail', 0, 1, ''), ('both', '', 0, 1, ''), ('double', 0, '', 1), ('three', 0, 1, 2)]
def nm(t): return sym_name(t, 'abc')
def prefix(h, shape):
    if shape == ('none',): return None, []
    segs = {i: nm(f'segment {i}') for i in shape[1:] if i != ''}
    r = []
    for k, i in enumerate(shape[1:]): r += (['/'] if k else []) + ([segs[i]] if i != '' else [])
    if shape[0] == 'lead': r = ['/', segs[0]]
    return mktext(r) if r else '', [segs[i] for i in shape[1:] if i != '']
KINDS = ['local', 'memory', 's3', 's3-endpoint', 'gcs']
def stub_cache(it):
    it.overrides['CachingObjectStore::new_from_config'] = lambda it, a, c: Cached(deref(a[0]), deref(a[1]))
    it.overrides['ObjectStoreConfig::build_object_store'] = lambda it, a, c: Ok(Opaque('store', of=deref(a[0])))
def config(h, kind, shape):
    """(configuration, scheme, host, segments of the root below the host, prefix segments)"""
    it = h.it; stub_cache(it); pre, ps = prefix(h, shape)
    if kind == 'local':
        dd = nm('data dir'); d = mktext(['/data/'] + ST.parts(dd)); return it.mke('ObjectStoreConfig', 'Local', it.mk('LocalConfig', data_dir=d, disable_hardlinks=h.bool('disable hardlinks'))), 'file', None, ['canonical', 'data', dd], []
    if kind == 'memory': return it.mke('ObjectStoreConfig', 'Memory'), 'memory', None, [], []
    b = nm('bucket')
    if kind == 'gcs': return it.mke('ObjectStoreConfig', 'GoogleCloudStorage', it.mk('GCSConfig', bucket=b, prefix=opt(pre), google_application_credentials=NONE())), 'gs', b, [], ps
    en = nm('endpoint'); e = mktext(['http://'] + ST.parts(en)) if kind == 's3-endpoint' else None
    return it.mke('ObjectStoreConfig', 'AmazonS3', it.mk('S3Config', region=NONE(), access_key_id=NONE(), secret_access_key=NONE(), session_token=NONE(), endpoint=opt(e), bucket=b, prefix=opt(pre), allow_http=True, skip_signature=True)), 'http' if e else 's3', en if e else b, [b] if e else [], ps
def uuid(h, n): return mktext([nm(n)])
def utext(it, u): return u
def seq(a, b): return len(a) == len(b) and (band(*[eq(x, y) for x, y in zip(a, b)]) if a else True)
def hosteq(a, b): return (a is None) == (b is None) and (True if a is None else eq(a, b))
def unwrap(st):
    """(the store at the bottom, the segments all the prefixes put before a key)"""
    segs = []
    while isinstance(st, O.Built) and st.b.kind == 'prefix':
        p = st.b.set['prefix']; segs = [x for x in (p.s if isinstance(p, ST.PathV) else ST.split_path(p))] + segs; st = deref(st.b.set['inner'])
        if isinstance(st, Enum) and st.ty == 'Result': st = deref(st.f['0'])
    return st, segs
def shown(x): return repr(x)[:300]
def disjoint(h, a, b, msg, info):
    """neither location is the other or lies below it"""
    n = min(len(a), len(b)); h.check(bnot(band(*[eq(x, y) for x, y in zip(a[:n], b[:n])]) if n else True), msg, info=info)

@case('a table of the internal store', over=[dict(kind=k, shape=s, _name=f'{k},{s[0]}') for k in KINDS for s in (PRE if k in ('s3', 's3-endpoint', 'gcs') else PRE[:1])], expects=['located'])
def internal(h, kind, shape):
    it = h.it; stub_cache(it); cfg, scheme, host, root, pre = config(h, kind, shape); inner = Opaque('inner store')
    st = it.call_fn(C + 'wrapped::InternalObjectStore::new', inner, cfg)
    us = [uuid(h, f'table {i}') for i in range(2)]; h.assume(bnot(eq(us[0], us[1]))); loc = []
    for u in us:
        t = utext(it, u); ls = it.method(st, 'get_log_store', t); base, segs = unwrap(ls.store); inf = lambda m: {'prefix': shown(cfg), 'url': m(ls.url.display_(it)), 'segments': [m(x) for x in segs]}
        h.check(isinstance(base, Struct) and deref(base.f['inner']) is inner and eq(base.f['config'], cfg), 'a table is not kept in the configured store', info=inf)
        h.check(seq(segs, pre + [t]), 'a table does not lie under the configured prefix and its own identifier', info=inf)
        h.check(ls.url.s == scheme and hosteq(ls.url.host, host), 'the location reported names another store', info=inf)
        h.check(seq(ls.url.keys(), root + pre + [t]), 'the location reported is not the one written to', info=inf)
        p = it.method(st, 'table_prefix', t); h.check(seq(deref(p).s, pre + [t]), 'the prefix of a table is not where its log store writes', info=inf)
        d = it.method(st, 'local_table_dir', t)
        h.check((d.var == 'Some') == (kind == 'local'), 'a table directory is reported for a store that is not local', info=inf)
        if d.var == 'Some': h.check(eq(d.f['0'], mktext(ST.parts(deref(cfg.f['0']).f['data_dir']) + ['/'] + ST.parts(t))), 'the directory of a table is not under the data directory', info=inf)
        loc.append(segs)
    disjoint(h, loc[0], loc[1], 'two tables share a location', None); h.wit('located')

@case('dropping the objects of a table', over=[dict(n=n) for n in (1, 2, 3)], expects=['gone', 'kept', 'failed'])
def in_prefix(h, n):
    it = h.it; stub_cache(it); segs = [mktext([nm(f's{i}')]) for i in range(2)]; pre = ST.PathV(segs[:h.choose(2, 'prefix length') + 1])
    objs = []
    for i in range(n):
        k = h.choose(3, f'depth {i}') + 1; objs.append(ST.PathV([mktext([nm(f'o{i}.{j}')]) for j in range(k)]))
    for i in range(n):
        for j in range(i): h.assume(bnot(objs[i].eq_(objs[j])))
    bad = []
    def fail(op, p):
        if bad or not h.flip(f'{op} fails'): return False
        bad.append(op); return True
    s = ST.Store([(o, Int(1, 'usize')) for o in objs], fail)
    cfg = it.mke('ObjectStoreConfig', 'Memory'); w = it.call_fn(C + 'wrapped::InternalObjectStore::new', s, cfg)
    r = it.method(w, 'delete_in_prefix', pre); left = [o[0] for o in s.o]
    inf = lambda m: {'prefix': [m(x) for x in pre.s], 'objects': [[m(x) for x in o.s] for o in objs], 'left': [[m(x) for x in o.s] for o in left], 'result': shown(r)}
    for o in objs:
        below = h.ctx.branch(ST.under(o, pre)); there = any(o is x for x in left)
        if not below: h.check(there, 'an object outside of the prefix is deleted', info=inf); h.wit('kept')
        elif not bad: h.check(not there, 'an object under the prefix is left behind', info=inf); h.wit('gone')
    h.check((r.var == 'Err') == bool(bad), 'a failure while deleting is not reported', info=inf)
    if bad: h.wit('failed')

OPS = {'put': 2, 'put_opts': 3, 'put_multipart': 1, 'put_multipart_opts': 2, 'get': 1, 'get_opts': 2, 'get_range': 2, 'head': 1, 'delete': 1, 'list': 1, 'list_with_delimiter': 1, 'copy': 2, 'copy_if_not_exists': 2, 'rename_if_not_exists': 2}
class Recorder(Obj):
    def __init__(self, h): self.h = h; self.log = []; self.ret = {}
    def m_clone(self, it, a, c): return self
    def method_missing(self, it, name, a, c):
        def go():
            args = [deref(x) for x in a]; k = self.h.choose(2, f'outcome {len(self.log)}')
            r = Ok(Opaque(name + ' result')) if k == 0 else Err(ST.osgeneric('no')); self.log.append((name, args, r)); return r
        return go() if name == 'list' else Future(go)
@case('operations of the wrapped store', over=[dict(kind=k, op=o) for k in KINDS for o in OPS], expects=['same'])
def passing(h, kind, op):
    it = h.it; stub_cache(it); cfg, *_ = config(h, kind, ('none',)); r = Recorder(h); w = it.call_fn(C + 'wrapped::InternalObjectStore::new', r, cfg)
    nolinks = kind == 'local' and h.ctx.branch(deref(cfg.f['0']).f['disable_hardlinks'])
    args = [ST.PathV([mktext([nm(f'path {i}')])]) for i in range(OPS[op])]
    if op == 'list': args = [Some(args[0])]
    if op == 'get_range': args[1] = Struct('Range', {'start': h.int('start', 'usize', 0, 1 << 30), 'end': h.int('end', 'usize', 0, 1 << 30)})
    if op in ('put', 'put_opts'): args[1] = Opaque('payload')
    if op == 'put_opts': args[2] = Struct('PutOptions', {'mode': Enum('PutMode', h.pick(['Create', 'Overwrite', 'Update'], 'mode')), 'tags': Opaque('tags'), 'attributes': Opaque('attributes')})
    given = [clone(x) for x in args]
    got = it.method(w, op, *args)
    want = {'copy_if_not_exists': 'copy' if nolinks else op, 'rename_if_not_exists': 'rename' if nolinks or kind.startswith('s3') else op}.get(op, op)
    inf = lambda m: {'operation': op, 'calls': shown(r.log), 'result': shown(got)}
    h.check(bool(r.log), 'an operation is not passed to the store', info=inf)
    for name, a, res in r.log:
        h.check(name in (want, 'put_opts' if op == 'put' else want), 'an operation becomes another one', info=inf)
        h.check(len(a) == len(given), 'an operation is passed on with other arguments', info=inf)
        for i, (x, y) in enumerate(zip(a, given)):
            if op == 'put_opts' and i == 2:
                m = deref(x.f['mode']); h.check(m.var == 'Overwrite' if nolinks else eq(m, y.f['mode']), 'an upload that must not overwrite is not passed on as one', info=inf)
                h.check(band(*[eq(x.f[k], y.f[k]) for k in ('tags', 'attributes')]), 'options of an upload are lost', info=inf)
            else: h.check(x is y or eq(x, y), 'an operation is passed on with other arguments', info=inf)
    h.check(len(r.log) == 1 and (got is r.log[0][2] or eq(got, r.log[0][2]) is True), 'the result of an operation is changed', info=inf); h.wit('same')

@case('deleting a stream of objects', over=[dict(n=n) for n in (0, 1, 2, 3)], expects=['done'])
def delete_stream(h, n):
    it = h.it; stub_cache(it); bad = {}
    class In(Obj):
        def __init__(self): self.log = []
        def m_clone(self, it, a, c): return self
        def m_delete(self, it, a, c):
            p = deref(a[0]); self.log.append(p); i = len(self.log)
            if h.flip(f'delete {i} fails'): bad[id(p)] = True; return Err(ST.osgeneric('delete'))
            return Ok(UNIT())
    s = In(); w = it.call_fn(C + 'wrapped::InternalObjectStore::new', s, it.mke('ObjectStoreConfig', 'Memory')); ps = [ST.PathV([mktext([nm(f'p{i}')])]) for i in range(n)]
    src = [Err(ST.osgeneric('listing')) if h.flip(f'item {i} is an error') else Ok(p) for i, p in enumerate(ps)]
    out = [deref(x) for x in it.iter_of(it.method(w, 'delete_stream', Iter(iter(src), True)))]
    good = [deref(x.f['0']) for x in src if x.var == 'Ok']
    inf = lambda m: {'given': shown(src), 'deleted': shown(s.log), 'out': shown(out)}
    h.check(seq(s.log, good), 'other objects are deleted than those given', info=inf)
    h.check(len(out) == n, 'an object is not reported', info=inf)
    for i, (x, o) in enumerate(zip(src, out)):
        k = x.var == 'Ok' and not (s.log and id(s.log[[id(g) for g in good].index(id(deref(x.f['0'])))]) in bad)
        h.check((o.var == 'Ok') == k, 'the outcome of a deletion is reported wrongly', info=inf)
        if k: h.check(eq(o.f['0'], x.f['0']), 'another object is reported as deleted', info=inf)
    h.wit('done')

def props(h): return h.it.mk('ObjectCacheProperties', capacity=h.int('capacity', 'u64'), min_fetch_size=h.int('fetch', 'u64'), ttl=h.int('ttl', 'u64'))
@case('which stores are cached', over=[dict(kind=k, cache=b) for k in KINDS for b in (False, True)], expects=['built'])
def caching(h, kind, cache):
    it = h.it; stub_cache(it); cfg, *_ = config(h, kind, ('none',)); p = props(h)
    f = it.call_fn(C + 'factory::ObjectStoreFactory::new_from_config', Struct('SeafowlConfig', {'object_store': Some(cfg), 'misc': Struct('Misc', {'object_store_cache': opt(p if cache else None)})}))
    h.check(f.var == 'Ok', 'a valid store is refused'); f = deref(f.f['0']); st = it.method(f, 'get_internal_store'); h.check(st.var == 'Some', 'the configured store is not there'); w = deref(st.f['0'])
    inner = deref(w.f['inner']); remote = kind not in ('local', 'memory')
    h.check(isinstance(inner, Cached) == (remote and cache), 'a remote store is not cached as configured, or a local one is')
    if isinstance(inner, Cached): h.check(eq(inner.props, p), 'the cache is configured otherwise'); inner = inner.inner
    h.check(band(eq(inner.f['of'], cfg), eq(w.f['config'], cfg)), 'another store than the configured one is used')
    u = utext(it, uuid(h, 't')); ls = it.method(f, 'get_default_log_store', u); h.check(ls.var == 'Some', 'the default store has no tables')
    base, segs = unwrap(deref(ls.f['0']).store); h.check(base is w or deref(base.f['inner']) is deref(w.f['inner']), 'a table of the default store lies in another one'); h.check(seq(segs, [u]), 'a table of the default store lies elsewhere'); h.wit('built')
@case('no store configured', expects=['none'])
def nostore(h):
    it = h.it; stub_cache(it); f = it.call_fn(C + 'factory::ObjectStoreFactory::new_from_config', Struct('SeafowlConfig', {'object_store': NONE(), 'misc': Struct('Misc', {'object_store_cache': NONE()})})); f = deref(f.f['0'])
    h.check(it.method(f, 'get_default_log_store', 'x').var == 'None' and it.method(f, 'get_internal_store').var == 'None', 'a store comes from nowhere'); h.wit('none')

def url_of(h, i, schemes):
    s = h.pick(schemes, f'scheme {i}'); host = mktext([nm(f'host {i}')]) if s not in ('memory', 'file') else None
    sh = h.pick(['none', 'slash', 'one', 'one-trail', 'two'], f'path {i}') if s != 'file' else h.pick(['one', 'one-trail'], f'path {i}')
    g = [mktext([nm(f'url {i}.{k}')]) for k in range({'none': 0, 'slash': 0, 'two': 2}.get(sh, 1))]
    if sh in ('slash', 'one-trail'): g = g + ['']
    return U.UrlV(s, host, g)
def opts(h, i, n):
    e = []
    for k in range(n):
        kk, v = h.pick(['region', 'endpoint'], f'option {i}.{k}'), h.str(f'value {i}.{k}')
        if not any(x[0] == kk for x in e): e.append([kk, v])
    return Map('HashMap', e)
@case('requests to custom stores', over=[dict(n=1, schemes=('s3', 'gs', 'memory', 'file', 's3a'), no=0, cache=b) for b in (False, True)] + [dict(n=2, schemes=('s3',), no=1, cache=False), dict(n=2, schemes=('s3',), no=1, cache=True), dict(n=2, schemes=('s3', 'gs', 'memory'), no=0, cache=False, _tier='thorough'), dict(n=2, schemes=('s3',), no=2, cache=True, _tier='thorough'), dict(n=3, schemes=('s3',), no=1, cache=False, _tier='thorough')], expects=['located'], budget=700)
def custom(h, n, schemes, no, cache):
    it = h.it; stub_cache(it); p = props(h); h.ctx.user['env'] = {}
    f = it.call_fn(C + 'factory::ObjectStoreFactory::new_from_config', Struct('SeafowlConfig', {'object_store': NONE(), 'misc': Struct('Misc', {'object_store_cache': opt(p if cache else None)})})); f = deref(f.f['0'])
    seen = []
    for i in range(n):
        u = url_of(h, i, schemes) if n == 1 or i == 0 or h.flip(f'other URL {i}') else seen[0][0].copy()
        m = opts(h, i, no); tp = [mktext([nm(f'table {i}.{k}')]) for k in range(h.choose(2, f'table path {i}') + 1)]
        given = u.copy(); mo = Map('HashMap', [list(x) for x in m.e]); t = mktext([x for k, s in enumerate(tp) for x in (['/'] if k else []) + ST.parts(s)])
        h.ctx.user['parse_as'] = lambda s: O.from_str('AmazonS3ConfigKey', s)
        r = it.method(f, 'get_log_store_for_table', u.copy(), m, t); inf = lambda mm: {'url': mm(given.display_(it)), 'table': mm(t), 'result': shown(r)}
        h.check(r.var == 'Ok', 'a table of a custom store is refused', info=inf); ls = deref(r.f['0'])
        whole = ls.store; base, segs = whole, []
        h.check(isinstance(whole, O.Built) and whole.b.kind == 'prefix', 'a table is not kept under its own path', info=inf)
        outer = deref(whole.b.set['inner']); tsegs = unwrap(O.Built(whole.b))[1] if False else (whole.b.set['prefix'].s if isinstance(whole.b.set['prefix'], ST.PathV) else ST.split_path(whole.b.set['prefix']))
        h.check(isinstance(outer, Cached) == (cache and u.s not in ('memory', 'file')), 'a remote custom store is not cached as configured, or a local one is', info=inf)
        conn = outer; core = outer
        if isinstance(core, Cached): h.check(eq(core.props, p), 'the cache is configured otherwise', info=inf); core = core.inner
        base, isegs = unwrap(core)
        if isinstance(base, Enum) and base.ty == 'Result': base = deref(base.f['0'])
        ukeys = given.keys()
        if u.s == 'file': h.check(base.b.kind == 'local' and not isegs and seq(ST.split_path(base.b.set['prefix']), ukeys), 'a local custom store is rooted elsewhere', info=inf)
        else: h.check(seq(isegs, ukeys), 'a custom store is rooted elsewhere than its URL', info=inf)
        if u.s == 'memory': h.check(base.b.kind == 'memory', 'another kind of store is used', info=inf)
        elif u.s != 'file': h.check(base.b.kind == 'opts' and eq(base.b.set['url'], given), 'a table is kept in another store than its URL says', info=inf)
        h.check(seq(tsegs, tp), 'a table of a custom store lies elsewhere than its path', info=inf)
        h.check(ls.url.s == given.s and band(hosteq(ls.url.host, given.host), seq(ls.url.g, [x for j, x in enumerate(given.g) if x != '' or j < len(given.g) - 1] + tp)), 'the location reported is not the one written to', info=inf)
        for (ou, om, oc) in seen:
            same = h.ctx.branch(eq(ou, given)) and h.ctx.branch(eq(om, mo))
            if same: h.wit('shared')
            h.check(same or oc is not conn, 'requests with another URL or other options share a connection', info=inf)
            if same: h.check(oc is conn, 'a connection is not reused, so that its in-memory data and cache are lost', info=inf)
        seen.append((given, mo, conn)); h.wit('located')
