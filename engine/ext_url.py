"""url::Url over texts whose segments may be symbolic (taken to be free of separators and of characters a URL escapes)."""
from .core import *
from .values import *
from . import interp, stdlib, ext_store as ST
from .interp import EXT_FN
SPECIAL = ('http', 'https', 'file', 'ftp', 'ws', 'wss')
def segs_of(t):
    """split a text on '/', keeping empty segments"""
    out = [[]]
    for p in ST.parts(t):
        if isinstance(p, str):
            b = p.split('/'); out[-1] += [b[0]] if b[0] else []
            for x in b[1:]: out.append([x] if x else [])
        else: out[-1].append(p)
    return [mktext(s) if s else '' for s in out]
class UrlV(Obj):
    tname = 'Url'
    def __init__(self, scheme, host, segs): self.s = scheme; self.host = host; self.g = list(segs); self.fix()
    def fix(self):
        if not self.g and self.s in SPECIAL: self.g = ['']
    def copy(self): return UrlV(self.s, self.host, self.g)
    def m_clone(self, it, a, c): return self.copy()
    @property
    def p(self):
        r = []
        for x in self.g: r += ['/'] + ST.parts(x)
        return mktext(r) if r else ''
    def m_path(self, it, a, c): return self.p
    def m_scheme(self, it, a, c): return self.s
    def m_host_str(self, it, a, c): return opt(self.host)
    m_host = m_host_str
    def display_(self, it): return mktext([self.s, '://'] + (ST.parts(self.host) if self.host is not None else []) + ST.parts(self.p))
    debug_ = display_
    def m_as_str(self, it, a, c): return self.display_(it)
    m_to_string = m_into = m_as_ref = m_as_str
    def eq_(self, o):
        o = deref(o)
        if not isinstance(o, UrlV) or self.s != o.s or (self.host is None) != (o.host is None) or len(self.g) != len(o.g): return False
        return band(*([] if self.host is None else [eq(self.host, o.host)]), *[eq(a, b) for a, b in zip(self.g, o.g)])
    def m_set_path(self, it, a, c):
        g = segs_of(a[0])
        if g and g[0] == '' and len(g) > 1: g = g[1:]
        self.g = g; self.fix(); return UNIT()
    def m_join(self, it, a, c):
        g = segs_of(a[0])
        if g[0] == '' and len(g) > 1: return Ok(UrlV(self.s, self.host, g[1:]))
        return Ok(UrlV(self.s, self.host, self.g[:-1] + g))
    def m_path_segments_mut(self, it, a, c): return Ok(SegMut(self))
    def m_path_segments(self, it, a, c): return Some(Iter(iter(list(self.g))))
    def keys(self):
        """the object path this URL stands for: its segments that are not empty"""
        return [x for x in self.g if x != '']
class SegMut(Obj):
    def __init__(self, u): self.u = u
    def m_pop_if_empty(self, it, a, c):
        if len(self.u.g) > 1 and self.u.g[-1] == '': self.u.g.pop()
        return self
    def m_pop(self, it, a, c):
        if len(self.u.g) > 1: self.u.g.pop()
        elif self.u.g: self.u.g = ['']
        return self
    def m_push(self, it, a, c):
        x = deref(a[0])
        if x in ('.', '..'): return self
        if self.u.g == ['']: self.u.g = [x]
        else: self.u.g.append(x)
        return self
    def m_extend(self, it, a, c):
        for x in it.iter_of(a[0]): self.m_push(it, [x], c)
        return self
    def m_clear(self, it, a, c): self.u.g = ['']; return self
def parse(t):
    ps = ST.parts(t); i = next((k for k, p in enumerate(ps) if isinstance(p, str) and '://' in p), None)
    if i is None: raise Unsupported('a URL without a scheme')
    if i: raise Unsupported('a URL of unknown scheme')
    sch, rest = ps[0].split('://', 1); g = segs_of(mktext([rest] + ps[1:]) if rest or ps[1:] else '')
    return UrlV(sch, g[0] if g[0] != '' else None, g[1:])
for _n in ('Url::parse', 'Url::from_str'): EXT_FN[_n] = lambda it, a, c: Ok(parse(deref(a[0])))
def _dir(it, a, c): return Ok(UrlV('file', None, [x for x in segs_of(deref(a[0])) if x != ''] + ['']))
EXT_FN['Url::from_directory_path'] = _dir
EXT_FN['Url::from_file_path'] = lambda it, a, c: Ok(UrlV('file', None, [x for x in segs_of(deref(a[0])) if x != '']))
