"""C04: the byte cache is transparent."""
from engine.harness import *
from engine import ext_cache as K, ext_store as ST, ext_http, interp as I
from engine.ext_cache import BytesV, FP, mkz
import z3
NATIVE = None
BOUNDS = ('one or two objects of any length; ranges spanning up to 3 chunks (4 in the thorough tier) at any offset, also past the end; minimum fetch sizes 1, 2, 3, 16 and 1 MiB; every cache state per chunk (missing, in memory, on disk, on disk but unreadable, '
          'file left over without an entry); up to 2 faults per history in the inner store, file writes (before and midway), reads, removals and renames; entries evicted at any access; up to two concurrent reads with every interleaving of the background writes')
ASSUMPTIONS = ['objects do not change while they are cached (data files are immutable)', 'moka\'s cache keeps or drops entries and runs its eviction listener after an entry is gone', 'SHA-256 does not collide on object paths',
               'the inner store truncates a range at the end of the object and refuses one that starts there']
MODELS = 'bytes (segments of symbolic objects), moka cache, tokio::fs (in memory, failing at will), inner object store'
C = 'seafowl::object_store::cache::'
class Inner(Obj):
    def __init__(self, h, lens, fail): self.h = h; self.lens = lens; self.fail = fail; self.log = []
    def m_get_range(self, it, a, c):
        def go():
            p, r = deref(a[0]), deref(a[1]); lo, hi = K.iv(r.f['start']), K.iv(r.f['end']); n = self.lens[p.s[0]]
            it.sched(); self.log.append((p.s[0], lo, hi))
            if self.fail('get', p): return Err(ST.osgeneric('connection'))
            br = self.h.ctx.branch
            if br(K.mkb(lo >= hi)) or br(K.mkb(lo >= n)): return Err(ST.osgeneric('range'))
            it.sched()
            return Ok(BytesV([(p.s[0], lo, hi if br(K.mkb(hi <= n)) else n)]))
        return Future(go)
    def display_(self, it): return 'inner'

for _k, _f in K.FSX.items(): I.EXT_FN['fs::' + _k] = I.EXT_FN['tokio::fs::' + _k] = _f
def world(h, m, chunks, faults, paths=('a',), evict=0, interleave=False):
    it = h.it; u = h.ctx.user; h.ctx.interleave = interleave
    bud = [faults]; ev = [evict]
    def fail(op, p):
        if bud[0] == 0: return False
        if op == 'write':
            k = h.choose(3, 'write fails')
            if k: bud[0] -= 1; h.wit('write fault'); return ('open', 'partial')[k - 1]
            return False
        if h.flip(f'{op} fails'): bud[0] -= 1; h.wit(f'{op} fault'); return True
        return False
    w = u['fs'] = K.World(h, m, chunks + 2, fail)
    lens = {p: h.int(f'length of {p}', 'usize', 0, (chunks + 1) * m).v for p in paths}
    w.lens = lens
    inner = Inner(h, lens, fail); w.inner = inner
    store = it.call_fn(C + 'CachingObjectStore::new', inner, FP(['cache'], w), Int(m, 'u64'), h.int('capacity', 'u64', 1, 1 << 40), Opaque('ttl'))
    w.used = lambda: faults - bud[0]
    w.cache = store.f['cache']; w.store = store
    def evicted(k):
        if ev[0] and h.flip('evicted'): ev[0] -= 1; h.wit('evicted'); return True
        return False
    w.cache.evict = evicted
    w.m = m; w.chunks = chunks
    return w
def P(x): return ST.PathV([x, 'data.parquet'])            # objects of the same file name in different directories
def key(h, p, k, m): return h.it.mk('CacheKey', path=P(p), range=Struct('Range', {'start': Int(k * m, 'usize'), 'end': Int((k + 1) * m, 'usize')}))
def piece(w, p, k):
    n = w.lens[p]; lo = k * w.m
    return lo, z3.If(mkz(n < lo + w.m), z3.If(mkz(n > lo), n, lo) if is_sym(n) else max(n, lo), lo + w.m)
def fname(h, p, k, m): return h.it.method(key(h, p, k, m), 'as_filename')
def prepare(h, w, p, k, faulty=True):
    """an arbitrary reachable state of chunk k of object p"""
    it = h.it; m = w.m
    st = h.pick(['missing', 'memory', 'file', 'unreadable', 'left over'], f'chunk {k} of {p}')
    if st == 'missing': return
    lo, hi = piece(w, p, k); data = BytesV([(p, lo, hi)])
    nm = '/'.join(['cache', w.canon(fname(h, p, k, m))])
    if st in ('file', 'left over'): w.files[nm] = data
    if st == 'memory': v = it.mke('CacheValue', 'Memory', data)
    elif st == 'left over': return
    else: v = it.mke('CacheValue', 'File', FP(nm.split('/'), w), data.m_len(it, [], None))
    h.wit(st); w.cache.e.append([key(h, p, k, m), v])
def consistent(h, w, info=None):
    """every entry holds exactly its chunk, every complete file exactly the chunk it is named for"""
    it = h.it; m = w.m
    for kk, v in w.cache.e:
        p = deref(kk.f['path']).s[0]; lo, hi = K.iv(kk.f['range'].f['start']), K.iv(kk.f['range'].f['end']); n = w.lens[p]
        end = z3.If(mkz(n < hi), n, hi)
        if v.var == 'Memory': d = deref(v.f['0'])
        else:
            f = deref(v.f['0']).key()
            if f not in w.files: continue
            d = w.files[f]
            h.check(K.mkb(K.iv(v.f['1']) == d.total()) if is_sym(d.total()) or is_sym(K.iv(v.f['1'])) else K.iv(v.f['1']) == d.total(), 'the recorded size of a cached file is not its size', info=info, key='cached size')
        h.check(d.same(p, lo, end), 'the cache holds other bytes than the chunk\'s', info=info, key='wrong chunk cached')
    names = {'/'.join(['cache', w.canon(fname(h, p, k, m))]): (p, k) for p in w.lens for k in range(w.chunks + 1)}
    h.check(len(names) == len(w.lens) * (w.chunks + 1), 'two chunks share a file')
    for f, d in w.files.items():
        if f in names:
            p, k = names[f]; lo, hi = piece(w, p, k)
            h.check(d.same(p, lo, hi), 'a file holds other bytes than the chunk it is named for', info=info, key='wrong bytes on disk')
def read(h, w, p, lo, hi):
    return h.it.method(w.store, 'get_range', P(p), Struct('Range', {'start': Int(lo, 'usize'), 'end': Int(hi, 'usize')}))
def verdict(h, w, p, lo, hi, r, faults, info):
    n = w.lens[p]
    if r.var == 'Err':
        h.wit('error'); h.check(bor(faults > 0, K.mkb(lo >= n)), 'a read inside the object fails although nothing failed', info=info, key='needless error'); return
    d = deref(r.f['0']); h.wit('read')
    if h.ctx.branch(K.mkb(lo >= hi)): h.check(K.mkb(d.total() == 0) if is_sym(d.total()) else d.total() == 0, 'an empty range returns bytes', info=info); return
    h.check(K.mkb(lo < n), 'a read that starts past the end of the object succeeds', info=info, key='past the end')
    h.check(d.same(p, lo, z3.If(mkz(hi < n), hi, n)), 'a ranged read returns other bytes than the object\'s', info=info, key='wrong bytes')
def rng(h, w, i):
    lo = h.int(f'start{i}', 'usize', 0, w.chunks * w.m - 1).v; hi = h.int(f'end{i}', 'usize', 0, w.chunks * w.m).v
    h.assume(K.mkb(hi >= lo))
    return lo, hi
def info_of(w, *reads): return lambda mm: {'chunk size': w.m, 'lengths': {p: mm(Int(n)) for p, n in w.lens.items()}, 'reads': [(p, mm(Int(lo)), mm(Int(hi)), repr(r)[:200]) for p, lo, hi, r in reads]}

@case('one read from any state', over=[dict(m=m, chunks=c, faults=f, _tier=t) for m, c, f, t in
      [(16, 2, 0, 'quick'), (16, 2, 1, 'quick'), (1, 2, 0, 'quick'), (3, 2, 0, 'quick'), (2, 3, 0, 'quick'), (1 << 20, 2, 1, 'quick'), (16, 3, 0, 'quick'), (16, 3, 1, 'thorough'), (16, 4, 0, 'thorough'), (3, 2, 2, 'thorough')]],
      expects=['read', 'error', 'memory', 'file', 'unreadable'])
def state(h, m, chunks, faults):
    w = world(h, m, chunks, faults)
    lo, hi = rng(h, w, 0)
    for k in range(chunks): prepare(h, w, 'a', k)
    r = read(h, w, 'a', lo, hi)
    inf = info_of(w, ('a', lo, hi, r))
    verdict(h, w, 'a', lo, hi, r, w.used(), inf)
    h.it.run_pending(); consistent(h, w, inf)
    h.sample(start=Int(lo), end=Int(hi))

@case('one read over a patchwork', over=[dict(m=16, chunks=4), dict(m=16, chunks=5, _tier='thorough')], expects=['read', 'memory'])
def patchwork(h, m, chunks):
    """every pattern of cached and missing chunks, so that missing ones are fetched in several batches"""
    w = world(h, m, chunks, 0); h.assume(K.mkb(w.lens['a'] >= m * chunks))
    for k in range(chunks):
        if h.flip(f'chunk {k} cached'): lo, hi = piece(w, 'a', k); w.cache.e.append([key(h, 'a', k, m), h.it.mke('CacheValue', 'Memory', BytesV([('a', lo, hi)]))]); h.wit('memory')
    lo, hi = h.int('start', 'usize', 0, m - 1).v, h.int('end', 'usize', m * (chunks - 1) + 1, m * chunks).v
    r = read(h, w, 'a', lo, hi); inf = info_of(w, ('a', lo, hi, r)); verdict(h, w, 'a', lo, hi, r, 0, inf); h.it.run_pending(); consistent(h, w, inf)

@case('reads in turn', over=[dict(m=m, chunks=c, n=n, faults=f, evict=e, two=two, _tier=t) for m, c, n, f, e, two, t in
      [(16, 2, 2, 0, 0, False, 'quick'), (16, 2, 2, 1, 0, False, 'quick'), (16, 2, 2, 0, 1, False, 'quick'), (16, 1, 2, 0, 0, True, 'quick'), (16, 1, 3, 1, 0, False, 'quick'), (16, 1, 3, 1, 1, False, 'quick'),
       (16, 2, 3, 0, 0, False, 'thorough'), (16, 1, 3, 2, 0, False, 'thorough'), (16, 2, 2, 2, 1, False, 'thorough'), (3, 2, 2, 1, 1, True, 'thorough')]], expects=['read', 'error'])
def history(h, m, chunks, n, faults, evict, two):
    w = world(h, m, chunks, faults, ('a', 'b') if two else ('a',), evict); rs = []
    for i in range(n):
        p = 'a' if not two or i == 0 else h.pick(['a', 'b'], f'object {i}')
        lo, hi = rng(h, w, i) if i == n - 1 or n < 3 else (0, w.chunks * m); u = w.used()
        r = read(h, w, p, lo, hi); rs.append((p, lo, hi, r)); inf = info_of(w, *rs)
        verdict(h, w, p, lo, hi, r, w.used() - u, inf)
        if i < n - 1 and h.flip(f'background writes wait {i}'): continue
        h.it.run_pending()
    h.it.run_pending(); consistent(h, w, inf)
    if not w.used():
        held = [deref(v.f['0']).key() for _, v in w.cache.e if v.var == 'File']
        h.check(all(f in held for f in w.files), 'a file stays on disk without an entry, so the cache outgrows its capacity', info=inf, key='file without an entry'); h.wit('tidy')
    for k, v in w.cache.e: h.check(eq(h.it.call(w.cache.w, [k, v]), Int(K.iv(v.f['1'] if v.var == 'File' else deref(v.f['0']).m_len(h.it, [], None)), 'u32')) if w.cache.w is not None else False, 'an entry is not weighed by its size', info=inf, key='weight')

@case('concurrent reads', over=[dict(m=m, chunks=c, faults=f, evict=e, n=n, free=fr, _tier=t) for m, c, f, e, n, fr, t in
      [(16, 1, 0, 0, 2, True, 'quick'), (16, 1, 1, 0, 2, False, 'quick'), (16, 1, 0, 1, 2, False, 'quick'), (16, 2, 0, 0, 2, True, 'thorough'), (16, 1, 1, 1, 2, False, 'thorough'), (16, 1, 0, 1, 3, False, 'thorough')]], expects=['read'], budget=800)
def concurrent(h, m, chunks, faults, evict, n, free):
    w = world(h, m, chunks, faults, evict=evict, interleave=True); it = h.it; rs = []
    h.assume(K.mkb(w.lens['a'] > 0)) if free else h.assume(K.mkb(w.lens['a'] >= m * chunks))
    def one(i):
        lo, hi = rng(h, w, i) if i == 0 and free else (0, m * chunks)
        def go():
            r = read(h, w, 'a', lo, hi); rs.append(('a', lo, hi, r)); verdict(h, w, 'a', lo, hi, r, w.used(), info_of(w, *rs)); return UNIT()
        return Future(go)
    for i in range(n): it.spawn(one(i))
    it.run_pending()
    h.check(len(rs) == n, 'a read does not finish')
    h.ctx.interleave = False
    lo, hi = 0, m                        # whatever is cached now serves right bytes
    r = read(h, w, 'a', lo, hi); verdict(h, w, 'a', lo, hi, r, w.used(), info_of(w, *rs, ('a', lo, hi, r)))
    it.run_pending(); consistent(h, w, info_of(w, *rs))

OPS = {'head': 1, 'get_opts': 2, 'put_opts': 3, 'put_multipart': 1, 'put_multipart_opts': 2, 'delete': 1, 'list': 1, 'list_with_delimiter': 1, 'copy': 2, 'copy_if_not_exists': 2, 'delete_stream': 1}
class Recorder(Obj):
    def __init__(self, h): self.h = h; self.log = []
    def method_missing(self, it, name, a, c):
        def go():
            self.log.append((name, [deref(x) for x in a])); k = self.h.choose(3, 'outcome')
            self.ret = Ok(Opaque(name + ' result')) if k == 0 else Err(ST.notfound('x/_last_checkpoint')) if k == 1 else Err(ST.osgeneric('no'))
            return self.ret
        return go() if name in ('list', 'delete_stream') else Future(go)
@case('other operations pass through', over=[dict(op=o) for o in OPS], expects=['same'])
def passing(h, op):
    it = h.it; w = world(h, 16, 1, 0); r = Recorder(h); w.store.f['inner'] = r
    prepare(h, w, 'a', 0)
    args = [P(f'arg{i}') if op != 'list' else Some(P('a')) for i in range(OPS[op])]
    before = len(w.cache.e), dict(w.files)
    got = it.method(w.store, op, *args)
    h.check([x[0] for x in r.log] == [op], 'an operation is not passed to the store once', info=lambda m: {'calls': repr(r.log)})
    h.check(len(r.log[0][1]) == len(args) and all(x is y or eq(x, y) is True for x, y in zip(r.log[0][1], args)), 'an operation is passed on with other arguments', info=lambda m: {'calls': repr(r.log)})
    h.check(got is r.ret or eq(got, r.ret) is True, 'the result of an operation is changed', info=lambda m: {'result': repr(got), 'inner': repr(r.ret)}); h.wit('same')
    h.check((len(w.cache.e), dict(w.files)) == before, 'an operation changes the cache')

@case('sibling stores share the cache', expects=['read'])
def sibling(h):
    w = world(h, 16, 1, 0); it = h.it; prepare(h, w, 'a', 0)
    second = Inner(h, w.lens, lambda *x: False)
    sib = it.call_fn(C + 'CachingObjectStore::new_from_sibling', w.store, second)
    lo, hi = rng(h, w, 0); inf = lambda r: info_of(w, ('a', lo, hi, r))
    main, w.store = w.store, sib
    r = read(h, w, 'a', lo, hi); verdict(h, w, 'a', lo, hi, r, 0, inf(r)); it.run_pending(); consistent(h, w, inf(r))
    h.check(not w.inner.log, 'a sibling reads through the other store')
    k = len(second.log); w.store = main
    r = read(h, w, 'a', lo, hi); verdict(h, w, 'a', lo, hi, r, 0, inf(r)); it.run_pending(); consistent(h, w, inf(r))
    h.check(len(second.log) == k, 'a store reads through its sibling')

@case('configured sizes', expects=['built'])
def configured(h):
    it = h.it; w = h.ctx.user['fs'] = K.World(h, 16, 1, lambda *a: False); u = h.ctx.user
    I.EXT_FN['TempDir::new'] = lambda it, a, c: Ok(Tmp())
    m, cap, ttl = h.int('min_fetch_size', 'u64', 1), h.int('capacity', 'u64', 1), h.int('ttl', 'u64')
    inner = Opaque('inner')
    s = it.call_fn(C + 'CachingObjectStore::new_from_config', it.mk('ObjectCacheProperties', min_fetch_size=m, capacity=cap, ttl=ttl), inner)
    f = s.f['cache'].conf
    h.check(eq(s.f['min_fetch_size'], m), 'the cache does not use the configured fetch size'); h.check(eq(f['cap'], cap), 'the cache does not use the configured capacity')
    h.check(eq(it.method(f['time_to_live'], 'as_secs'), ttl), 'the cache does not use the configured lifetime'); h.check(deref(s.f['inner']) is inner, 'the cache wraps another store'); h.wit('built')
class Tmp(Obj):
    def m_into_path(self, it, a, c): return FP(['tmp'], Ctx.cur.user['fs'])
    def m_path(self, it, a, c): return FP(['tmp'], Ctx.cur.user['fs'])
    m_keep = m_into_path
