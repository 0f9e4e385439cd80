"""reqwest: a client that records requests; the harness decides each response. Also percent-encoding and object paths on symbolic characters."""
import z3
from .core import *
from .values import *
from . import interp, stdlib, ext_http as H, ext_store as ST
from .interp import EXT_FN, METHODS, CONSTS
from .symchars import cl, code, from_cl
class Client(Obj):
    """`serve(request)` gives a Reply or None (no connection)"""
    def __init__(self, serve): self.serve = serve; self.log = []
    def m_clone(self, it, a, c): return self
    def req(self, m): return lambda it, a, c: Req(self, m, deref(a[0]))
    def method_missing(self, it, name, a, c):
        if name in ('get', 'head', 'post', 'put', 'delete', 'patch'): return Req(self, name.upper(), deref(a[0]))
        if name == 'request': return Req(self, deref(a[0]).var, deref(a[1]))
        raise Unsupported('reqwest client ' + name)
class Req(Obj):
    tname = 'RequestBuilder'
    def __init__(self, c, m, url): self.c = c; self.m = m; self.url = url; self.h = []
    def m_header(self, it, a, c): self.h.append((H.conc_str(a[0]).lower(), deref(a[1]))); return self
    def m_headers(self, it, a, c): self.h += [tuple(x) for x in deref(a[0]).e]; return self
    def m_timeout(self, it, a, c): return self
    def m_send(self, it, a, c):
        def go():
            self.c.log.append(self); r = self.c.serve(self)
            return Err(ReqErr(None)) if r is None else Ok(r)
        return Future(go)
    def get(self, k): return [v for n, v in self.h if n == k]
class ReqErr(Obj):
    tname = 'Error'
    def __init__(self, st): self.st = st
    def m_status(self, it, a, c): return opt(self.st)
    def m_is_timeout(self, it, a, c): return False
    m_is_connect = m_is_timeout
    def is_type(self, n): return n == 'Error'
    def display_(self, it): return 'reqwest error'
    debug_ = display_
class Reply(Obj):
    tname = 'Response'
    def __init__(self, status, headers, body, broken=False): self.status = H.StatusCode(status); self.h = H.HeaderMap(headers); self.body = body; self.broken = broken
    def m_status(self, it, a, c): return self.status
    def m_headers(self, it, a, c): return self.h
    def m_content_length(self, it, a, c): raise Unsupported('content_length of a response')
    def m_error_for_status(self, it, a, c):
        n = self.status.n
        if Ctx.cur.branch(n >= 400 if not isinstance(n, int) else n >= 400): return Err(ReqErr(self.status))
        return Ok(self)
    def m_bytes(self, it, a, c): return Future(lambda: Err(ReqErr(None)) if self.broken else Ok(self.body))
    def m_bytes_stream(self, it, a, c): return Iter([Err(ReqErr(None))] if self.broken else [Ok(self.body)], True)
METHODS.setdefault((H.HeaderMap, 'clone'), lambda it, v, a, c: H.HeaderMap(v.e))

# ---- percent-encoding of symbolic characters
def hexchar(v):
    if isinstance(v, int): return Char('%X' % v)
    return Char(z3.simplify(z3.If(v < 10, v + 48, v + 55)))
def hexval(ch):
    c = code(ch)
    if isinstance(c, int):
        try: return int(chr(c), 16)
        except ValueError: return None
    if not Ctx.cur.branch(z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))): return None
    return z3.simplify(z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87)))
def encode(v, keep):
    out = []
    for ch in cl(v):
        c = code(ch)
        if isinstance(c, int) and c >= 128:
            for b in chr(c).encode(): out += [Char('%'), Char('%X' % (b >> 4)), Char('%X' % (b & 15))]
            continue
        k = keep(c)
        if (k if isinstance(k, bool) else Ctx.cur.branch(k)): out.append(ch)
        else: out += [Char('%'), hexchar(c >> 4 if isinstance(c, int) else c / 16), hexchar(c & 15 if isinstance(c, int) else c % 16)]
    return from_cl(out)
def alnum(c):
    if isinstance(c, int): return c < 128 and chr(c).isalnum()
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))
def decode(v):
    """the decoded text, or None when it is not UTF-8 (bytes above 127 only when concrete)"""
    s = cl(v); out = []; i = 0; br = Ctx.cur.branch
    def raw(ch): out.append(ch)
    while i < len(s):
        c = code(s[i])
        if (c == 37 if isinstance(c, int) else br(c == 37)) and i + 2 < len(s):
            a = hexval(s[i + 1]); b = hexval(s[i + 2]) if a is not None else None
            if b is not None: out.append(a * 16 + b); i += 3; continue
        raw(s[i]); i += 1
    # assemble: numbers are bytes
    res = []; k = 0
    while k < len(out):
        x = out[k]
        if type(x) is Char: res.append(x); k += 1; continue
        if not isinstance(x, int):
            x = z3.simplify(x)
            if z3.is_int_value(x): x = x.as_long()
        if not isinstance(x, int):
            if br(x < 128): res.append(Char(x)); k += 1; continue
            return None                     # a lone byte above 127 (longer sequences of symbolic bytes are outside the model)
        if x < 128: res.append(Char(chr(x))); k += 1; continue
        n = 2 if 0xC2 <= x <= 0xDF else 3 if 0xE0 <= x <= 0xEF else 4 if 0xF0 <= x <= 0xF4 else 0
        bs = out[k:k + n]
        if not n or not all(isinstance(b, int) for b in bs): return None
        try: res += [Char(y) for y in bytes(bs).decode()]
        except UnicodeDecodeError: return None
        k += n
    return from_cl(res)
def _enc(it, a, c):
    if cl(a[0]) is None: return OLD(it, a, c)
    st = deref(a[1])
    if type(st) is Opaque and st.name == 'NON_ALPHANUMERIC' or getattr(st, 'name', None) == 'NON_ALPHANUMERIC': return encode(a[0], alnum)
    raise Unsupported('another percent-encoding set')
OLD = EXT_FN['utf8_percent_encode']
EXT_FN['utf8_percent_encode'] = EXT_FN['percent_encoding::utf8_percent_encode'] = _enc
class Dec(Obj):
    def __init__(self, s): self.s = s
    def m_decode_utf8(self, it, a, c): r = decode(self.s); return Err(Enum('Utf8Error', 'Utf8Error')) if r is None else Ok(r)
    def m_decode_utf8_lossy(self, it, a, c):
        r = decode(self.s)
        if r is None: raise Unsupported('lossy decoding')
        return r
EXT_FN['percent_decode_str'] = EXT_FN['percent_encoding::percent_decode_str'] = lambda it, a, c: Dec(deref(a[0]))
def url_path(p):
    """object_store::Path::from_url_path: text of the path, or None when refused"""
    d = decode(p)
    if d is None: return None
    s = cl(d); br = Ctx.cur.branch; is_ = lambda ch, k: code(ch) == k if isinstance(code(ch), int) else br(code(ch) == k)
    if s and is_(s[0], 47): s = s[1:]
    if not s: return ''
    if is_(s[-1], 47): s = s[:-1]
    seg = []; segs = [seg]
    for ch in s:
        if is_(ch, 47): seg = []; segs.append(seg); continue
        c = code(ch)
        if (c < 32 or c == 127) if isinstance(c, int) else br(z3.Or(c < 32, c == 127)): return None
        seg.append(ch)
    for g in segs:
        if not g: return None
        if len(g) <= 2 and all(is_(x, 46) for x in g): return None
    return from_cl(s)
class OPath(Obj):
    """an object_store path known by its text"""
    tname = 'Path'
    def __init__(self, t): self.t = t
    def m_clone(self, it, a, c): return self
    def m_to_string(self, it, a, c): return self.t
    def m_as_ref(self, it, a, c): return self.t
    def display_(self, it): return mktext([self.t]) if not isinstance(self.t, str) else self.t
    debug_ = display_
    def eq_(self, o): return isinstance(o, OPath) and eq(self.t, o.t)
    def __repr__(self): return f'Path({self.t!r})'
