"""sha2 / hex / percent-encoding / warp / hyper: only what the repository's HTTP layer uses."""
import hashlib, urllib.parse
import z3
from .interp import *
from .stdlib import *

SHA = z3.Function('sha256_hex', z3.StringSort(), z3.StringSort())

def conc_str(v):
    """python str if the string value is concrete"""
    v = deref(v)
    if type(v) is str: return v
    if type(v) in (SymStr, Text):
        try: e = z3.simplify(strterm(v))
        except Unsupported: return None
        if z3.is_string_value(e):
            from .harness import zstr
            return zstr(e)
    return None

def sha_hex(v):
    c = conc_str(v)
    if c is not None: return hashlib.sha256(c.encode()).hexdigest()
    t = strterm(v); r = SHA(t)
    ctx = Ctx.cur
    # a digest is 64 characters; no collisions among the strings hashed in one execution
    seen = ctx.user.setdefault('sha', [])
    if not any(t.eq(x) for x, _ in seen):
        for x, rx in seen: ctx.add(z3.Implies(rx == r, x == t))
        seen.append((t, r))
    return SymStr(r)

class JsonVal(Obj):
    """serde_json: the text of a value, known by the value (injective)"""
    tname = 'Value'
    def __init__(self, v): self.v = v
    def m_to_string(self, it, a, c): return self
    def m_clone(self, it, a, c): return self
    def m_as_bytes(self, it, a, c): return self
    m_into_bytes = m_as_bytes; m_as_str = m_as_bytes
    def eq_(self, o): return isinstance(o, JsonVal) and eq(self.v, o.v)
    def display_(self, it): return Text([OpaquePiece(self)])
MACROS['json'] = lambda it, a, c: JsonVal(clone(a[0]))
class Hasher(Obj):
    def __init__(self): self.p = []
    def m_update(self, it, a, c): self.p.append(hash_part(a[0])); return UNIT()
    def m_chain_update(self, it, a, c): self.p.append(hash_part(a[0])); return self
    def m_finalize(self, it, a, c): return digest(self.p)
def hash_part(v):
    v = deref(v)
    if isinstance(v, JsonVal): return v
    if type(v) is Vec and not all(type(deref(x)) is Int and deref(x).conc() for x in v.a): return clone(v)
    return as_text(v)
def digest(ps):
    if all(type(p) in (str, SymStr, Text) for p in ps): return DigestV(mktext(ps))
    if len(ps) == 1 and isinstance(ps[0], JsonVal): return DigestV(ps[0])
    if any(isinstance(p, JsonVal) for p in ps): raise Unsupported('hash of JSON and other parts')
    out = []
    for p in ps:
        if type(p) is Vec: out += p.a
        else:
            from .symchars import cl, code
            cs = cl(p)
            if cs is None: raise Unsupported('hash of opaque text and bytes')
            for x in cs:
                k = code(x)
                if isinstance(k, int) and k >= 128: out += [Int(b, 'u8') for b in chr(k).encode()]
                else: out.append(Int(k, 'u8'))
    return DigestV(Vec(out))
def struct_hash(v):
    """digest of a structured value: a constant equal to another one's exactly when the values are (no collisions)"""
    ctx = Ctx.cur; seen = ctx.user.setdefault('sha_s', [])
    for x, t in seen:
        if x is v: return t
    n = len(seen); e = z3.String(f'digest{n}'); ctx.add(z3.Length(e) == 64)
    for x, t in seen:
        q = eq(x, v) if type(x) is type(v) else False
        ctx.add((strterm(t) == e) == (z3.BoolVal(q) if isinstance(q, bool) else q))
    t = SymStr(e); seen.append((v, t)); return t
    def m_reset(self, it, a, c): self.p = []; return UNIT()
class DigestV(Obj):
    def __init__(self, t): self.t = t
def as_text(v):
    v = deref(v)
    if type(v) in (str, SymStr, Text): return v
    if type(v) is Vec:
        if all(type(deref(x)) is Int and deref(x).conc() for x in v.a):
            try: return bytes(deref(x).v for x in v.a).decode()
            except UnicodeDecodeError: pass
        raise Unsupported('hash of symbolic bytes')
    raise Unsupported(f'hash input {v!r}')
@ext('Sha256::new')
def _shanew(it, a, c): return Hasher()
@ext('Sha256::digest')
def _shadig(it, a, c): return digest([hash_part(a[0])])
@ext('hex::encode', 'encode')
def _hexenc(it, a, c):
    v = deref(a[0])
    if isinstance(v, DigestV): return sha_hex(v.t) if type(v.t) in (str, SymStr, Text) else struct_hash(v.t)
    if type(v) is Vec and all(deref(x).conc() for x in v.a): return ''.join('%02x' % deref(x).v for x in v.a)
    if type(v) is str: return v.encode().hex()
    raise Unsupported('hex of symbolic bytes')
METHODS[(Opaque, 'x')] = None; del METHODS[(Opaque, 'x')]
class Dig2: pass

# ---- status codes
STATUS = {'OK': 200, 'CREATED': 201, 'ACCEPTED': 202, 'NO_CONTENT': 204, 'PARTIAL_CONTENT': 206, 'MOVED_PERMANENTLY': 301, 'FOUND': 302, 'NOT_MODIFIED': 304,
          'BAD_REQUEST': 400, 'UNAUTHORIZED': 401, 'PAYMENT_REQUIRED': 402, 'FORBIDDEN': 403, 'NOT_FOUND': 404, 'METHOD_NOT_ALLOWED': 405, 'NOT_ACCEPTABLE': 406,
          'REQUEST_TIMEOUT': 408, 'CONFLICT': 409, 'GONE': 410, 'LENGTH_REQUIRED': 411, 'PRECONDITION_FAILED': 412, 'PAYLOAD_TOO_LARGE': 413, 'URI_TOO_LONG': 414, 'UNSUPPORTED_MEDIA_TYPE': 415,
          'RANGE_NOT_SATISFIABLE': 416, 'IM_A_TEAPOT': 418, 'UNPROCESSABLE_ENTITY': 422, 'TOO_MANY_REQUESTS': 429,
          'INTERNAL_SERVER_ERROR': 500, 'NOT_IMPLEMENTED': 501, 'BAD_GATEWAY': 502, 'SERVICE_UNAVAILABLE': 503, 'GATEWAY_TIMEOUT': 504}
class StatusCode(Obj):
    def __init__(self, n): self.n = n
    def __repr__(self): return f'StatusCode({self.n})'
    def eq_(self, o): return isinstance(o, StatusCode) and (self.n == o.n if isinstance(self.n, int) and isinstance(o.n, int) else mkbool(self.n == o.n))
    def m_as_u16(self, it, a, c): return Int(self.n, 'u16')
    def m_as_str(self, it, a, c): return str(self.n)
    def m_is_success(self, it, a, c): return mkbool(band(self.n >= 200, self.n < 300))
    def m_is_client_error(self, it, a, c): return mkbool(band(self.n >= 400, self.n < 500))
    def m_is_server_error(self, it, a, c): return mkbool(band(self.n >= 500, self.n < 600))
    def m_is_redirection(self, it, a, c): return mkbool(band(self.n >= 300, self.n < 400))
    def display_(self, it): return mktext([Int(self.n, 'u16')])
    debug_ = display_
for _k, _v in STATUS.items(): CONSTS['StatusCode::' + _k] = (lambda n: lambda *a: StatusCode(n))(_v)
@ext('StatusCode::from_u16')
def _scfu(it, a, c): return Ok(StatusCode(ival(a[0])))

# ---- headers / responses
HEADERS = ['AUTHORIZATION', 'CONTENT_TYPE', 'ETAG', 'IF_NONE_MATCH', 'CACHE_CONTROL', 'VARY', 'RANGE', 'CONTENT_LENGTH', 'CONTENT_RANGE', 'IF_MATCH', 'IF_MODIFIED_SINCE', 'IF_UNMODIFIED_SINCE', 'LAST_MODIFIED', 'ACCEPT_RANGES', 'DATE', 'HOST', 'ORIGIN', 'USER_AGENT']
for _h in HEADERS: CONSTS['header::' + _h] = (lambda n: lambda *a: n)(_h.lower().replace('_', '-'))
class HeaderMap(Obj):
    def __init__(self, e=()): self.e = [list(x) for x in e]
    def _k(self, k):
        k = conc_str(k)
        if k is None: raise Unsupported('symbolic header name')
        return k.lower()
    def m_insert(self, it, a, c):
        k = self._k(a[0])
        self.e = [x for x in self.e if x[0] != k] + [[k, deref(a[1])]]
        return NONE()
    def m_append(self, it, a, c): self.e.append([self._k(a[0]), deref(a[1])]); return True
    def m_get(self, it, a, c):
        k = self._k(a[0])
        for x in self.e:
            if x[0] == k: return Some(HeaderVal(x[1]))
        return NONE()
    def m_contains_key(self, it, a, c): return any(x[0] == self._k(a[0]) for x in self.e)
    def m_remove(self, it, a, c):
        r = self.m_get(it, a, c); k = self._k(a[0]); self.e = [x for x in self.e if x[0] != k]; return r
class HeaderVal(Obj):
    def __init__(self, v, bad=False): self.v = v.v if isinstance(v, HeaderVal) else v; self.bad = bad or (isinstance(v, HeaderVal) and v.bad)
    def m_to_str(self, it, a, c):
        if self.bad is not False and Ctx.cur.branch(self.bad): return Err(Enum('ToStrError', 'ToStrError'))
        return Ok(self.v)
    def m_as_bytes(self, it, a, c): return self.v
    def eq_(self, o): return eq(self.v, o.v if isinstance(o, HeaderVal) else o)
    def display_(self, it): return mktext([self.v])
    debug_ = display_
for _n in ('HeaderValue::from_str', 'HeaderValue::try_from'): EXT_FN[_n] = lambda it, a, c: Ok(HeaderVal(deref(a[0])))
for _n in ('HeaderValue::from_static', 'HeaderValue::from'): EXT_FN[_n] = lambda it, a, c: HeaderVal(deref(a[0]))
EXT_FN['HeaderMap::new'] = lambda it, a, c: HeaderMap()

class Response(Obj):
    """http response of the server"""
    def __init__(self, status=200, body=None, headers=None): self.status = StatusCode(status) if isinstance(status, int) else status; self.body = body; self.headers = headers or HeaderMap()
    def m_status(self, it, a, c): return self.status
    def m_headers_mut(self, it, a, c): return self.headers
    def m_headers(self, it, a, c): return self.headers
    def m_into_response(self, it, a, c): return self
    def m_body(self, it, a, c): return self.body
    def m_into_body(self, it, a, c): return self.body
    def m_status_mut(self, it, a, c):
        def s(x): self.status = deref(x)
        return Ref(lambda: self.status, s)
class RespBuilder(Obj):
    def __init__(self): self.r = Response()
    def m_status(self, it, a, c):
        v = deref(a[0]); self.r.status = v if isinstance(v, StatusCode) else StatusCode(ival(v)); return self
    def m_header(self, it, a, c): self.r.headers.m_append(it, a, c); return self
    def m_body(self, it, a, c): self.r.body = deref(a[0]); return Ok(self.r)
EXT_FN['Response::builder'] = lambda it, a, c: RespBuilder()
EXT_FN['Response::new'] = lambda it, a, c: Response(200, deref(a[0]))
EXT_FN['Body::wrap_stream'] = lambda it, a, c: deref(a[0])
EXT_FN['Body::from'] = lambda it, a, c: deref(a[0])
EXT_FN['Body::empty'] = lambda it, a, c: ''
def to_response(it, v):
    v = deref(v)
    if isinstance(v, Response): return v
    if type(v) in (str, SymStr, Text): return Response(200, v)
    if isinstance(v, StatusCode): return Response(v)
    return deref(it.call_method(v, 'into_response', []))
@ext('reply::with_status', 'with_status')
def _wst(it, a, c):
    v = deref(a[0])
    if type(v) is Enum and v.ty == 'Result': r = to_response(it, v.f['0'])
    else: r = to_response(it, v)
    if type(v) is Enum and v.var == 'Err': return r
    r.status = deref(a[1]); return r
@ext('reply::with_header', 'with_header')
def _wh(it, a, c):
    r = to_response(it, a[0]); r.headers.m_insert(it, [a[1], a[2]], c); return r
@ext('reply::json')
def _rjson(it, a, c): return Response(200, deref(a[0]))
@ext('reject::custom')
def _rcust(it, a, c): return Opaque('Rejection', cause=deref(a[0]))
@ext('reject::not_found', 'reject::reject')
def _rnf(it, a, c): return Opaque('Rejection', cause=None)
@method('Rejection', 'find')
def _rfind(it, v, a, c):
    x = v.f.get('cause')
    if x is None: return NONE()
    n = c.tf[0].n if c.tf else None
    return Some(x) if n is None or tname(x) == n else NONE()

# ---- percent encoding
PCT = z3.Function('percent_encode', z3.StringSort(), z3.StringSort())
@ext('percent_decode_str', 'percent_encoding::percent_decode_str')
def _pds(it, a, c): return PctDecode(deref(a[0]))
PCTDEC = z3.Function('percent_decode', z3.StringSort(), z3.StringSort())
PCTOK = z3.Function('percent_decodes_to_utf8', z3.StringSort(), z3.BoolSort())
class PctDecode(Obj):
    def __init__(self, s): self.s = s
    def m_decode_utf8(self, it, a, c):
        s = conc_str(self.s)
        if s is None:
            t = strterm(self.s)
            return Ok(SymStr(PCTDEC(t))) if Ctx.cur.branch(PCTOK(t)) else Err(Enum('Utf8Error', 'Utf8Error'))
        b = urllib.parse.unquote_to_bytes(s)
        try: return Ok(b.decode())
        except UnicodeDecodeError: return Err(Enum('Utf8Error', 'Utf8Error'))
    def m_decode_utf8_lossy(self, it, a, c): return urllib.parse.unquote_to_bytes(conc_str(self.s)).decode(errors='replace')
CONSTS['NON_ALPHANUMERIC'] = CONSTS['percent_encoding::NON_ALPHANUMERIC'] = lambda *a: Opaque('NON_ALPHANUMERIC')
@ext('utf8_percent_encode', 'percent_encoding::utf8_percent_encode')
def _upe(it, a, c):
    s = conc_str(a[0])
    if s is None:
        try: return SymStr(PCT(strterm(a[0])))
        except Unsupported: return Text([OpaquePiece(Opaque('pct'))])
    st = deref(a[1])
    keep = getattr(st, 'keep', None)
    if keep is None: keep = lambda ch: ch.isascii() and ch.isalnum()
    return ''.join(ch if keep(ch) else ''.join('%%%02X' % b for b in ch.encode()) for ch in s)
