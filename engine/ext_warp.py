"""warp filters: a filter is run against one request; rejections combine and are answered as warp answers them."""
import z3
from .core import *
from .values import *
from . import interp, stdlib, ext_http as H
from .interp import ext, EXT_FN, METHODS, MACROS, CC, OpaquePiece
from .ext_http import Response, HeaderMap, to_response, conc_str, StatusCode

class Req:
    """segs: path segments (str values), method, headers {name: value}, body: None | ('json', value of the query or None when it is not of that shape) | ('bad', ), form"""
    def __init__(self, method, segs, headers=None, body=None, form=None): self.method = method; self.segs = segs; self.headers = headers or {}; self.body = body; self.form = form; self.pos = 0
class Rej(Obj):
    tname = 'Rejection'
    def __init__(self, items): self.items = items            # [(status, cause)]
    def m_find(self, it, a, c):
        n = c.tf[0].n if c.tf else None
        for _, x in self.items:
            if x is not None and (n is None or interp.tname(x) == n): return Some(x)
        return NONE()
    def m_is_not_found(self, it, a, c): return all(s == 404 for s, _ in self.items)
    def status(self):
        r = None
        def better(a, b):
            if a is None: return b
            if a == 404: return b
            if b == 404: return a
            if a == 405: return b
            if b == 405: return a
            return a if not a < b else b
        for s, _ in self.items: r = better(r, s)
        return r
    def display_(self, it): return Text([OpaquePiece(self)])
    debug_ = display_
def rej(s, cause=None): return Rej([(s, cause)])
EXT_FN['reject::custom'] = EXT_FN['warp::reject::custom'] = lambda it, a, c: rej(500, deref(a[0]))
EXT_FN['reject::not_found'] = EXT_FN['warp::reject::not_found'] = lambda it, a, c: rej(404)
EXT_FN['reject::reject'] = lambda it, a, c: rej(400)
def isrej(v): return isinstance(deref(v), Rej)

class F(Obj):
    """run(it, req) -> (True, [values]) or (False, Rej)"""
    tname = 'Filter'
    def __init__(self, run, name=''): self.run = run; self.name = name
    def m_clone(self, it, a, c): return self
    def m_boxed(self, it, a, c): return self
    def m_and(self, it, a, c):
        o = deref(a[0])
        def run(it, r):
            ok, v = self.run(it, r)
            if not ok: return ok, v
            ok, w = o.run(it, r)
            return (True, v + w) if ok else (False, w)
        return F(run)
    def m_or(self, it, a, c):
        o = deref(a[0])
        def run(it, r):
            p = r.pos; ok, v = self.run(it, r)
            if ok: return ok, v
            r.pos = p; ok, w = o.run(it, r)
            return (True, w) if ok else (False, Rej(v.items + w.items))
        return F(run)
    def m_unify(self, it, a, c): return self
    def m_untuple_one(self, it, a, c):
        def run(it, r):
            ok, v = self.run(it, r)
            if not ok: return ok, v
            x = deref(v[0]); return True, list(x.a)
        return F(run)
    def m_map(self, it, a, c):
        f = a[0]
        def run(it, r):
            ok, v = self.run(it, r)
            return (True, [it.call(f, v)]) if ok else (False, v)
        return F(run)
    def m_then(self, it, a, c):
        f = a[0]
        def run(it, r):
            ok, v = self.run(it, r)
            return (True, [it.await_(it.call(f, v))]) if ok else (False, v)
        return F(run)
    def m_and_then(self, it, a, c):
        f = a[0]
        def run(it, r):
            ok, v = self.run(it, r)
            if not ok: return ok, v
            x = deref(it.await_(it.call(f, v)))
            if x.var == 'Ok': return True, [x.f['0']]
            return False, torej(x.f['0'])
        return F(run)
    def m_or_else(self, it, a, c):
        f = a[0]
        def run(it, r):
            p = r.pos; ok, v = self.run(it, r)
            if ok: return ok, v
            r.pos = p
            x = deref(it.await_(it.call(f, [v])))
            if x.var == 'Ok':
                y = deref(x.f['0']); return True, list(y.a) if type(y) is Tup else [y]
            return False, torej(x.f['0'])
        return F(run)
    def m_recover(self, it, a, c):
        f = a[0]
        def run(it, r):
            p = r.pos; ok, v = self.run(it, r)
            if ok: return ok, v
            r.pos = p
            x = deref(it.await_(it.call(f, [v])))
            return (True, [x.f['0']]) if x.var == 'Ok' else (False, torej(x.f['0']))
        return F(run)
    def m_with(self, it, a, c): return self
    def m_max_length(self, it, a, c): return self
    # what the server answers
    def serve(self, it, req):
        ok, v = self.run(it, req)
        if ok: return to_response(it, v[0])
        return Response(v.status(), 'warp')
def torej(x):
    x = deref(x)
    if not isinstance(x, Rej): raise Unsupported(f'rejection expected, got {x!r:.60}')
    return x
def const(f): return lambda it, a, c: f
def take(it, r, part):
    """one path part: a literal or a parameter"""
    if r.pos >= len(r.segs): return False, rej(404)
    s = r.segs[r.pos]
    if part is not None:
        if not interp_truth(eq(s, part)): return False, rej(404)
        r.pos += 1; return True, []
    if interp_truth(eq(s, '')): return False, rej(404)
    r.pos += 1; return True, [s]
def interp_truth(b): return b if isinstance(b, bool) else Ctx.cur.branch(b)
def path_filter(parts, end=True):
    def run(it, r):
        out = []
        for p in parts:
            ok, v = take(it, r, p)
            if not ok: return ok, v
            out += v
        if end and r.pos < len(r.segs): return False, rej(404)
        return True, out
    return F(run, f'path {parts}')
@ext('warp::any')
def _any(it, a, c): return F(lambda it, r: (True, []), 'any')
@ext('path::end', 'warp::path::end')
def _end(it, a, c): return F(lambda it, r: (True, []) if r.pos >= len(r.segs) else (False, rej(404)), 'end')
@ext('warp::path', 'path::path')
def _path(it, a, c): return path_filter([a[0]], False)
EXT_FN['path::param'] = EXT_FN['warp::path::param'] = lambda it, a, c: path_filter([None], False)
for _m in ('get', 'post', 'put', 'delete', 'head', 'options', 'patch'):
    EXT_FN['warp::' + _m] = EXT_FN['method::' + _m] = (lambda m: lambda it, a, c: F(lambda it, r: (True, []) if r.method == m.upper() else (False, rej(405)), m))(_m)
def _hname(a):
    n = conc_str(a[0])
    if n is None: raise Unsupported('symbolic header name')
    return n.lower()
@ext('warp::header::optional', 'header::optional')
def _hopt(it, a, c):
    n = _hname(a)
    return F(lambda it, r: (True, [Some(r.headers[n]) if n in r.headers else NONE()]), 'header ' + n)
@ext('warp::header::header', 'warp::header')
def _hreq(it, a, c):
    n = _hname(a)
    return F(lambda it, r: (True, [r.headers[n]]) if n in r.headers else (False, rej(400)), 'header ' + n)
@ext('warp::body::json', 'body::json')
def _bjson(it, a, c):
    def run(it, r):
        # a query in the shape the repository's QueryBody has; anything else is refused by serde
        if r.body is None or r.body[0] != 'json': return False, rej(415 if r.body is not None and r.body[0] == 'type' else 400)
        d = it.find_type('QueryBody')
        return True, [Struct(d, {'query': r.body[1]})]
    return F(run, 'json')
@ext('warp::multipart::form', 'multipart::form')
def _mform(it, a, c): return F(lambda it, r: (True, [r.form]) if r.form is not None else (False, rej(400)), 'multipart')
class Cfg(Obj):
    def method_missing(self, it, name, a, c): return self
EXT_FN['warp::cors'] = lambda it, a, c: Cfg()
EXT_FN['warp::log::custom'] = EXT_FN['log::custom'] = lambda it, a, c: Cfg()

def _parts(e):
    if e[0] == 'Binary' and e[2] == '/': return _parts(e[3]) + _parts(e[4])
    return [e]
def mac_path(self, args, line, hint):
    parts = []; end = True
    xs = [p for a in args for p in _parts(a)]
    for p in xs:
        if p[0] == 'Lit': parts.append(self.lit(p[2]) if isinstance(p[2], list) else p[2])
        elif p[0] == 'Path': parts.append(None)
        else: raise Unsupported(self.err(line, f'path! part {p[0]}'))
    it = self.it
    return lambda fr: path_filter(parts, end)
interp.FnCompiler.mac_path = mac_path
