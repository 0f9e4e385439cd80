"""bytes::Bytes/BytesMut over objects of symbolic content, moka's async cache, and the files the byte cache writes.
A byte is known by (object, offset): a Bytes value is a list of segments (object, lo, hi) with symbolic bounds."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS, CONSTS
from .stdlib import *
iv = lambda x: deref(x).v if type(deref(x)) is Int else x
us = lambda e: Int(e if isinstance(e, int) else (lambda s: s.as_long() if z3.is_int_value(s) else s)(z3.simplify(e)), 'usize')
class BytesV(Obj):
    tname = 'Bytes'
    def __init__(self, segs=()): self.s = [tuple(x) for x in segs]
    def total(self):
        t = 0
        for _, lo, hi in self.s: t = t + (hi - lo)
        return t
    def __repr__(self): return 'Bytes' + repr(self.s)
    def m_len(self, it, a, c): return us(self.total())
    def m_is_empty(self, it, a, c): return mkbool(self.total() == 0) if is_sym(self.total()) else self.total() == 0
    def m_clone(self, it, a, c): return BytesV(self.s)
    m_into = m_to_vec = m_to_owned = m_freeze = m_clone
    def m_as_ref(self, it, a, c): return self
    m_as_slice = m_chunk = m_deref = m_as_mut = m_as_ref
    def m_remaining(self, it, a, c): return self.m_len(it, a, c)
    def m_extend_from_slice(self, it, a, c): self.s += deref(a[0]).s; return UNIT()
    m_put = m_put_slice = m_unsplit = m_extend_from_slice
    def m_clear(self, it, a, c): self.s = []; return UNIT()
    def m_reserve(self, it, a, c): return UNIT()
    def take(self, n):
        """remove and return the first n bytes; n is at most the length"""
        br = Ctx.cur.branch; out = []
        while self.s:
            t, lo, hi = self.s[0]; k = hi - lo
            if br(mkb(n <= 0)): break
            if br(mkb(k <= n)): out.append(self.s.pop(0)); n = n - k
            else: out.append((t, lo, lo + n)); self.s[0] = (t, lo + n, hi); break
        return out
    def need(self, n, what):
        if not Ctx.cur.branch(mkb(n <= self.total())): raise Panic(f'{what} out of bounds of the bytes')
    def m_split_to(self, it, a, c): n = iv(a[0]); self.need(n, 'split_to'); return BytesV(self.take(n))
    m_copy_to_bytes = m_split_to
    def m_split_off(self, it, a, c): n = iv(a[0]); self.need(n, 'split_off'); h = self.take(n); r = BytesV(self.s); self.s = h; return r
    def m_advance(self, it, a, c): n = iv(a[0]); self.need(n, 'advance'); self.take(n); return UNIT()
    def m_truncate(self, it, a, c):
        n = iv(a[0])
        if Ctx.cur.branch(mkb(n < self.total())): self.s = self.take(n)
        return UNIT()
    def sub(self, it, r):
        f = r.f; lo = iv(f['start']) if 'start' in f else 0; n = self.total()
        hi = iv(f['end']) if 'end' in f else n
        if r.x if hasattr(r, 'x') else False: hi = hi + 1
        if not Ctx.cur.branch(mkb(lo <= hi)) or not Ctx.cur.branch(mkb(hi <= n)): raise Panic('range out of the bounds of the bytes')
        b = BytesV(self.s); b.take(lo); b.s = b.take(hi - lo); return b
    def m_slice(self, it, a, c): return self.sub(it, deref(a[0]))
    def index_(self, it, i): return self.sub(it, deref(i))
    def same(self, tag, lo, hi):
        """formula: these are exactly bytes lo..hi of the object"""
        p = lo; ok = []
        for t, a, b in self.s:
            if t == tag: ok.append(z3.Or(a >= b, a == p))
            else: ok.append(z3.BoolVal(True) if False else mkz(a >= b))
            p = p + z3.If(mkz(b > a), b - a, 0)
        ok.append(mkz(p == z3.If(mkz(hi > lo), hi, lo)))
        return z3.And(*[mkz(x) for x in ok])
def mkz(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def mkb(b): return b if isinstance(b, bool) else mkbool(b)
EXT_FN['BytesMut::with_capacity'] = EXT_FN['BytesMut::new'] = EXT_FN['Bytes::new'] = lambda it, a, c: BytesV()
EXT_FN['Bytes::from'] = lambda it, a, c: deref(a[0])

class FP(Obj):
    """a file path below the cache directory"""
    tname = 'PathBuf'
    def __init__(self, t, w): self.t = list(t); self.w = w
    def __repr__(self): return '/'.join(map(str, self.t))
    def m_to_path_buf(self, it, a, c): return FP(self.t, self.w)
    m_clone = m_to_owned = m_into = m_to_path_buf
    def m_as_ref(self, it, a, c): return self
    m_as_path = m_as_ref
    def m_push(self, it, a, c): self.t.append(self.w.canon(deref(a[0]))); return UNIT()
    def m_join(self, it, a, c): return FP(self.t + [self.w.canon(deref(a[0]))], self.w)
    def m_with_extension(self, it, a, c):
        x = self.w.canon(deref(a[0])); return FP(self.t[:-1] + [self.t[-1].rsplit('.', 1)[0] + '.' + x], self.w)
    m_with_file_name = lambda self, it, a, c: FP(self.t[:-1] + [self.w.canon(deref(a[0]))], self.w)
    def m_display(self, it, a, c): return '/'.join(self.t)
    m_to_string_lossy = m_display
    def m_exists(self, it, a, c): self.w.tick(); return self.key() in self.w.files
    m_is_file = m_exists
    def key(self): return '/'.join(self.t)
    def eq_(self, o): return isinstance(o, FP) and self.t == o.t
    def display_(self, it): return self.key()
    debug_ = display_

class World:
    """the file system of the cache directory, and the knobs of the model"""
    def __init__(self, h, unit, chunks, fail): self.h = h; self.files = {}; self.unit = unit; self.chunks = chunks; self.fail = fail; self.log = []
    def tick(self): self.h.it.sched()
    def num(self, e):
        if not is_sym(e): return e
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        for k in range(self.chunks + 2):
            if Ctx.cur.branch(e == k * self.unit): return k * self.unit
        raise Unsupported('a symbolic number in a cache file name')
    def canon(self, t):
        t = deref(t)
        if isinstance(t, str): return t
        if type(t) is Text: return ''.join(p if isinstance(p, str) else str(self.num(p.v)) if type(p) is Int else str(p) for p in t.p)
        return str(t)
    def path(self, p): return deref(p).key()
    def ioerr(self): return Err(Enum('io::Error', 'Other', {}))
    def write(self, p, data):
        k = self.path(p); data = BytesV(deref(data).s); self.tick()
        w = self.fail('write', k)
        if w == 'open': return self.ioerr()
        self.files[k] = BytesV()                       # truncated, then filled: other tasks can see it partly written
        if w == 'partial': self.files[k] = cut(self.h, data); return self.ioerr()
        if self.h.ctx.interleave: self.files[k] = cut(self.h, data); self.tick()
        self.files[k] = data; self.log.append(('write', k)); self.tick(); return Ok(UNIT())
    def read(self, p):
        k = self.path(p); self.tick()
        if k not in self.files or self.fail('read', k): return self.ioerr()
        return Ok(BytesV(self.files[k].s))
    def remove(self, p):
        k = self.path(p); self.tick()
        if k not in self.files or self.fail('remove', k): return self.ioerr()
        del self.files[k]; return Ok(UNIT())
    def rename(self, a, b):
        k = self.path(a); self.tick()
        if k not in self.files or self.fail('rename', k): return self.ioerr()
        self.files[self.path(b)] = self.files.pop(k); self.log.append(('write', self.path(b))); return Ok(UNIT())
def cut(h, b):
    """any prefix of the bytes, known to be shorter"""
    if not b.s: return BytesV()
    t, lo, hi = b.s[0]; n = h.ctx.fresh('partial'); h.ctx.add(z3.And(n >= 0, z3.Or(n < hi - lo, n == 0)))
    return BytesV([(t, lo, lo + n)])
W = lambda: Ctx.cur.user['fs']
for _n in ('fs::write', 'tokio::fs::write'): EXT_FN[_n] = lambda it, a, c: Future(lambda: W().write(a[0], a[1]))
METHODS.setdefault(('io::Error', 'display'), lambda it, v, a, c: 'io error')
FSX = {'read': lambda it, a, c: Future(lambda: W().read(a[0])), 'remove_file': lambda it, a, c: Future(lambda: W().remove(a[0])), 'rename': lambda it, a, c: Future(lambda: W().rename(a[0], a[1])),
       'write': lambda it, a, c: Future(lambda: W().write(a[0], a[1])), 'try_exists': lambda it, a, c: Future(lambda: Ok(deref(a[0]).m_exists(it, [], c)))}

# ---- moka::future::Cache
class CacheBuilder(Obj):
    def __init__(self, cap): self.f = {'cap': cap}
    def method_missing(self, it, name, a, c): self.f[name] = a[0] if a else None; return self
    def m_build(self, it, a, c): return MokaCache(self.f.get('weigher'), self.f.get('async_eviction_listener') or self.f.get('eviction_listener'), self.f)
EXT_FN['CacheBuilder::new'] = EXT_FN['Cache::builder'] = lambda it, a, c: CacheBuilder(a[0] if a else None)
CONSTS['RemovalCause::Replaced'] = lambda *a: Enum('RemovalCause', 'Replaced')
EXT_FN['EvictionPolicy::lru'] = lambda it, a, c: Opaque('lru')
class MokaCache(Obj):
    tname = 'Cache'
    def __init__(self, weigher, listener, conf): self.e = []; self.w = weigher; self.l = listener; self.conf = conf; self.evict = lambda k: False
    def m_clone(self, it, a, c): return self
    def find(self, k):
        for e in self.e:
            q = eq(e[0], k)
            if q is True or (q is not False and Ctx.cur.branch(q)): return e
        return None
    def gone(self, it, k, v, cause):
        if self.l is None: return
        fut = it.call(self.l, [k, v, Enum('RemovalCause', cause)])
        if Ctx.cur.interleave: it.spawn(fut)              # moka runs the listener some time after the entry is gone
        else: it.await_(fut)
    def may_evict(self, it):
        for e in list(self.e):
            if e in self.e and self.evict(e[0]): self.e.remove(e); self.gone(it, e[0], e[1], 'Expired')
    def m_get(self, it, a, c):
        def go():
            it.sched(); self.may_evict(it); e = self.find(deref(a[0])); return Some(clone(e[1])) if e else NONE()
        return Future(go)
    def m_contains_key(self, it, a, c): return self.find(deref(a[0])) is not None
    def put(self, it, k, v):
        if self.w is not None: it.call(self.w, [k, v])
        e = self.find(k)
        if e is None: self.e.append([k, v]); return
        old = e[1]; e[1] = v; self.gone(it, k, old, 'Replaced')
    def m_insert(self, it, a, c):
        def go(): it.sched(); self.put(it, deref(a[0]), deref(a[1])); return UNIT()
        return Future(go)
    def m_invalidate(self, it, a, c):
        def go():
            it.sched(); e = self.find(deref(a[0]))
            if e: self.e.remove(e); self.gone(it, e[0], e[1], 'Explicit')
            return UNIT()
        return Future(go)
    m_remove = m_invalidate
    def m_entry_by_ref(self, it, a, c): return Sel(self, deref(a[0]))
    m_entry = m_entry_by_ref
    def m_run_pending_tasks(self, it, a, c):
        def go(): it.sched(); self.may_evict(it); return UNIT()
        return Future(go)
    def m_weighted_size(self, it, a, c): return Int(Ctx.cur.user.setdefault('weighted', 0), 'u64')
    def m_entry_count(self, it, a, c): return Int(len(self.e), 'u64')
class Sel(Obj):
    def __init__(self, c, k): self.c = c; self.k = k
    def m_or_insert(self, it, a, c):
        def go():
            it.sched(); e = self.c.find(self.k)
            if e: return Got(False, e[1])
            self.c.put(it, clone(self.k), deref(a[0])); return Got(True, deref(a[0]))
        return Future(go)
    def m_or_insert_with(self, it, a, c):
        def go():
            it.sched(); e = self.c.find(self.k)
            if e: return Got(False, e[1])
            v = it.await_(a[0]); self.c.put(it, clone(self.k), v); return Got(True, v)
        return Future(go)
class Got(Obj):
    def __init__(self, fresh, v): self.fr = fresh; self.v = v
    def m_is_fresh(self, it, a, c): return self.fr
    def m_into_value(self, it, a, c): return clone(self.v)
    m_value = m_into_value
