"""object_store: paths and an in-memory store whose operations may fail."""
import re
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS

def parts(t):
    """pieces of a text: list of str / symbolic pieces"""
    t = deref(t)
    if isinstance(t, str): return [t]
    if type(t) is Text: return list(t.p)
    return [t]
def split_path(t):
    """segments (each a text); a symbolic piece is taken to be free of separators and not empty"""
    segs = [[]]
    for p in parts(t):
        if isinstance(p, str):
            b = p.split('/')
            if b[0]: segs[-1].append(b[0])
            for x in b[1:]: segs.append([x] if x else [])
        elif isinstance(p, interp.OpaquePiece) and isinstance(deref(p.v), stdlib.Uuid): segs[-1].append(p)
        else: segs[-1].append(p)
    return [mktext(s) for s in segs if s]
class PathV(Obj):
    """object_store::path::Path"""
    tname = 'Path'
    def __init__(self, segs): self.s = list(segs)
    def text(self):
        r = []
        for i, s in enumerate(self.s):
            if i: r.append('/')
            r += parts(s)
        return mktext(r) if r else ''
    def display_(self, it): return self.text()
    def debug_(self, it): return self.text()
    def __repr__(self): return f'Path({self.text()!r})'
    def eq_(self, o):
        o = deref(o)
        if not isinstance(o, PathV): return eq(self.text(), o)
        return len(self.s) == len(o.s) and band(*[eq(a, b) for a, b in zip(self.s, o.s)])
    def m_clone(self, it, a, c): return PathV(self.s)
    def m_as_ref(self, it, a, c): return self.text()
    def m_to_string(self, it, a, c): return self.text()
    def m_child(self, it, a, c): return PathV(self.s + split_path(a[0]))
    def m_parts(self, it, a, c): return Iter(iter(self.s))
    def m_filename(self, it, a, c): return Some(self.s[-1]) if self.s else NONE()
    def m_prefix_matches(self, it, a, c): return under(self, deref(a[0]))
def under(p, prefix):
    """p lies under prefix (segment-wise)"""
    if len(p.s) < len(prefix.s): return False
    return band(*[eq(a, b) for a, b in zip(p.s, prefix.s)])
def mkpath(x):
    x = deref(x)
    return x if isinstance(x, PathV) else PathV(split_path(x))
EXT_FN['path::Path::from'] = lambda it, a, c: mkpath(a[0])
EXT_FN['object_store::path::Path::from'] = EXT_FN['path::Path::from']
EXT_FN['Path::from'] = EXT_FN['path::Path::from']
EXT_FN['path::Path::parse'] = lambda it, a, c: Ok(mkpath(a[0]))
EXT_FN['Path::from_url_path'] = lambda it, a, c: Ok(mkpath(a[0]))

def osgeneric(what): return Enum('object_store::Error', 'Generic', {'store': 'test', 'source': Opaque(what)})
def notfound(p): return Enum('object_store::Error', 'NotFound', {'path': p, 'source': Opaque('missing')})

class Store(Obj):
    """an object store: objects is a list of [PathV, content]; `fail(op, path)` says whether an operation fails"""
    tname = 'Store'
    def __init__(self, objects=(), fail=None): self.o = [list(x) for x in objects]; self.log = []; self.fail = fail or (lambda op, p: False)
    def m_clone(self, it, a, c): return self
    def find(self, p):
        for e in self.o:
            if Ctx.cur.branch(e[0].eq_(p)): return e
        return None
    def m_list(self, it, a, c):
        a0 = deref(a[0]); pre = None if a0.var == 'None' else deref(a0.f['0'])
        self.log.append(('list', pre))
        def g():
            for e in list(self.o):
                if pre is not None and not Ctx.cur.branch(under(e[0], pre)): continue
                if self.fail('list', e[0]): yield Err(osgeneric('list')); continue
                yield Ok(Struct('ObjectMeta', {'location': e[0], 'size': e[1], 'last_modified': Opaque('now'), 'e_tag': NONE(), 'version': NONE()}))
            if self.fail('list end', pre): yield Err(osgeneric('list'))
        return Iter(g(), True)
    def m_delete(self, it, a, c):
        p = deref(a[0])
        if self.fail('delete', p): self.log.append(('delete failed', p)); return Err(osgeneric('delete'))
        e = self.find(p); self.log.append(('delete', p))
        if e is None: return Err(notfound(p))
        self.o.remove(e); return Ok(UNIT())
