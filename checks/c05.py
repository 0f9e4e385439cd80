"""C05: HTTP-hosted files: exact ranges, sizes and locations."""
from engine.harness import *
from engine import ext_http as H, ext_regex as RX, ext_chrono as X, interp as I
from engine.ext_reqwest import *
from engine import ext_reqwest as RQ
from engine.symchars import symtext, symchar, cl, code, from_cl
from engine import stdlib as SL
from engine.ext_cache import BytesV
import z3, re, os
NATIVE = None
BOUNDS = ('any range of 64-bit offsets; any status code; headers present or absent, with every text of the shape "bytes a-b/size" (numbers of 1-3 digits, * and missing parts), of up to 3 free ASCII characters, and the largest 64-bit numbers; '
          'locations of up to 4 free ASCII characters after the scheme plus multi-byte samples')
ASSUMPTIONS = ['reqwest sends the URL and headers it is given and reports the status, headers and body of the response', 'object_store 0.11.2 Path::from_url_path (percent-decodes once, drops one leading and one trailing slash)', 'bytes above 127 in a location only in the sample characters']
MODELS = 'reqwest client, header map, percent-encoding, regex, object_store Path and GetRange'
def regexes(h):
    """lazy statics of http.rs holding a regular expression"""
    from engine import harness as HN
    src = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src/object_store/http.rs')).read()
    for m in re.finditer(r'static\s+(?:ref\s+)?(\w+)\s*:[^=]*Regex[^=]*=.*?Regex::new\(\s*r(#*)"(.*?)"\2', src, re.S):
        I.CONSTS[m.group(1)] = (lambda p: lambda *a: RX.Regex(p))(m.group(3))
def digits(h, name, n): return symtext(name, n, 48, 57)
def number(t):
    v = 0
    for ch in cl(t): v = v * 10 + (code(ch) - 48)
    return v
def store(h, serve):
    regexes(h); c = Client(serve)
    h.ctx.user['parse_as'] = lambda v: SL.from_str(h.it, v, USIZE)        # the size field of object_store's ObjectMeta
    return h.it.mk('HttpObjectStore', client=c, scheme=h.pick(['http', 'https'], 'scheme')), c
class Now(Obj):
    def m_clone(self, it, a, c): return self
I.EXT_FN['Bytes::new'] = lambda it, a, c: BytesV([])
class USIZE: n = 'usize'; a = []
NOW = Now()
I.EXT_FN['Utc::now'] = I.EXT_FN['chrono::Utc::now'] = lambda it, a, c: NOW
METHODS[('Utc', 'timestamp_nanos')] = METHODS[(I.ExtCtor, 'timestamp_nanos')] = lambda it, v, a, c: X.DT(0, 0, 0)
LOC = OPath('host/dir/file.parquet')
def url_ok(h, s, r): return eq(r.url, mktext([s.f['scheme'], '://host/dir/file.parquet']) if not isinstance(s.f['scheme'], str) else s.f['scheme'] + '://host/dir/file.parquet')
def status(h, name='status', lo=100, hi=599): return h.int(name, 'u16', lo, hi).v
def inclusive(h, v, lo, last, msg, info=None):
    """the header text is bytes=<lo>-<last>"""
    v = deref(v); t = v.p if type(v) is Text else [v]
    nums = [p for p in t if type(p) is Int]; lits = [p if isinstance(p, str) else '#' for p in t]
    if all(isinstance(p, str) for p in t):
        m = re.fullmatch(r'bytes=(\d+)-(\d+)', ''.join(t)); h.check(m is not None, msg, info=info)
        return h.check(band(K(lo == int(m[1])), K(last == int(m[2]))), msg, info=info)
    pat = ''.join(lits)
    if pat == 'bytes=#-#': c = [nums[0].v == lo, nums[1].v == last]
    else:
        m = re.fullmatch(r'bytes=(#|\d+)-(#|\d+)', pat); h.check(m is not None, msg, info=info); k = iter(nums)
        c = [(next(k).v if m[1] == '#' else int(m[1])) == lo, (next(k).v if m[2] == '#' else int(m[2])) == last]
    h.check(band(*[K(x) for x in c]), msg, info=info)
def K(b): return b if isinstance(b, bool) else mkbool(b)

@case('ranged read', expects=['request', 'bytes', 'error', 'empty'])
def ranged(h):
    it = h.it; body = Opaque('body'); st = status(h); broken = h.flip('body breaks off'); down = h.flip('no connection')
    s, c = store(h, lambda r: None if down else Reply(st, [['content-length', '5']], body, broken))
    lo, hi = h.int('start', 'usize'), h.int('end', 'usize')
    r = it.method(s, 'get_range', LOC, Struct('Range', {'start': lo, 'end': hi}))
    info = lambda m: {'start': m(lo), 'end': m(hi), 'requests': [(q.m, repr(q.h)) for q in c.log], 'result': repr(r)}
    if h.ctx.branch(lo.v >= hi.v):
        h.wit('empty'); h.check(not c.log and (r.var == 'Err' or eq_empty(r)), 'an empty range reads bytes', info=info, key='empty range'); return
    h.check(len(c.log) == 1 and c.log[0].m == 'GET' and url_ok(h, s, c.log[0]) is True, 'a ranged read does not send one GET for the file', info=info); h.wit('request')
    v = c.log[0].get('range'); h.check(len(v) == 1, 'a ranged read does not carry one Range header', info=info)
    inclusive(h, v[0], lo.v, hi.v - 1, 'the range asked for is not the half-open range requested', info=info)
    ok = r.var == 'Ok'
    if ok: h.wit('bytes'); h.check(not down and not broken and deref(r.f['0']) is body, 'a ranged read returns other bytes than the server sent', info=info); h.check(K(st == 206), 'a reply that is not partial content is taken for the range', info=info)
    else: h.wit('error'); h.check(bor(down or broken, K(st != 206)), 'a partial reply is refused', info=info)
def eq_empty(r):
    from engine.ext_cache import BytesV
    b = deref(r.f['0'])
    return type(b) is Vec and not b.a or isinstance(b, BytesV) and not b.s

# ---- sizes
def cr_text(h, shape):
    """(header text, stated size or None when malformed)"""
    A, B = digits(h, 'a', 1), digits(h, 'b', h.pick([1, 2], 'end digits'))
    if shape == 'full':
        n = h.pick([1, 3], 'size digits'); S = digits(h, 'size', n); return mktext(['bytes ', A, '-', B, '/', S]), number(S), (number(A), number(B))
    if shape == 'huge': return f'bytes 0-0/{2**64 - 1}', 2**64 - 1, (0, 0)
    if shape == 'toobig': return f'bytes 0-0/{2**64}', None, None
    if shape == 'bigend': return f'bytes 0-{2**64 - 1}/5', 5, (0, 2**64 - 1)
    if shape == 'star': return mktext(['bytes ', A, '-', B, '/*']), None, None
    if shape == 'nosize': return mktext(['bytes ', A, '-', B]), None, None
    if shape == 'slash': return mktext(['bytes ', A, '-', B, '/']), None, None
    if shape == 'unit':
        c = symchar('unit', 33, 126); h.assume(K(code(c) != ord('b'))); return from_cl([c] + cl('ytes ') + cl(A) + cl('-') + cl(B) + cl('/9')), None, None
    if shape == 'junk':          # free text where the size should be
        t = symtext('junk', h.pick([1, 2, 3], 'junk length'), 33, 126)
        good = z3.And(*[z3.And(code(x) >= 48, code(x) <= 57) if not isinstance(code(x), int) else z3.BoolVal(48 <= code(x) <= 57) for x in cl(t)])
        plus = code(cl(t)[0]) == 43                     # Rust's parser reads +5 as 5
        h.assume(bnot(K(good))); h.assume(bnot(K(plus))); return mktext(['bytes 0-0/', t]), None, None
    if shape == 'free': return symtext('free', h.pick([0, 1, 3], 'length'), 32, 126), None, None
    if shape == 'space':         # no slash before the size
        return mktext(['bytes ', A, '-', B, ' ', digits(h, 'x', 1)]), None, None
SHAPES = ['full', 'huge', 'toobig', 'bigend', 'star', 'nosize', 'slash', 'unit', 'junk', 'free', 'space']
def num_text(h):
    """(text, number or None) of a Content-Length"""
    k = h.pick(['digits', 'max', 'over', 'free', 'none'], 'content length')
    if k == 'digits': t = digits(h, 'len', h.pick([1, 3], 'length digits')); return t, number(t)
    if k == 'max': return str(2**64 - 1), 2**64 - 1
    if k == 'over': return str(2**64), None
    if k == 'none': return None, None
    t = symtext('cl', h.pick([0, 1, 2], 'length'), 32, 126)
    if cl(t):
        good = z3.And(*[mkz(x) for x in cl(t)]); h.assume(bnot(K(good))); h.assume(bnot(K(code(cl(t)[0]) == 43)))
    return t, None
def mkz(ch): c = code(ch); return z3.BoolVal(48 <= c <= 57) if isinstance(c, int) else z3.And(c >= 48, c <= 57)
def opq(v, n): return v.var == 'Some' and eq(deref(v.f['0']), n)

@case('size by HEAD', expects=['size', 'error', 'malformed', 'no ranges'])
def head(h):
    it = h.it; st = status(h); h.assume(K(st != 403)); t, n = num_text(h); down = h.flip('no connection')
    acc = h.pick(['bytes', 'BYTES', 'none', '', None], 'accept-ranges')
    badh = h.flip('header not text')
    hd = [] if t is None else [['content-length', H.HeaderVal(t, bad=badh)]]
    if acc is not None: hd.append(['accept-ranges', acc])
    s, c = store(h, lambda r: None if down else Reply(st, hd, ''))
    r = it.method(s, 'head', LOC)
    info = lambda m: {'content-length': None if t is None else m(t), 'accept-ranges': acc, 'status': m(Int(st)), 'result': repr(r)}
    h.check(len(c.log) == 1 and c.log[0].m == 'HEAD' and url_ok(h, s, c.log[0]) is True, 'the size is not asked for by one HEAD for the file', info=info)
    good = band(not down and n is not None and not badh and acc in ('bytes', 'BYTES'), K(st < 400))
    if r.var == 'Err':
        h.wit('error'); h.check(bnot(good), 'the size of a well-formed reply is refused', info=info)
        if n is None: h.wit('malformed')
        if acc not in ('bytes', 'BYTES'): h.wit('no ranges')
        return
    h.check(good, 'a size is reported for a reply that does not state one', info=info, key='size guessed')
    o = deref(r.f['0']); h.wit('size')
    h.check(K(o.f['size'].v == n), 'the reported size is not what the server states', info=info); h.check(eq(o.f['location'], LOC), 'the size is reported for another location')

@case('size by GET', over=[dict(shape=s) for s in SHAPES] + [dict(shape='absent')], expects=['fallback'])
def viaget(h, shape):
    it = h.it; t, n, _ = cr_text(h, shape) if shape != 'absent' else (None, None, None); down = h.flip('no connection'); st = status(h, 'second status')
    badh = h.flip('header not text')
    def serve(r): return Reply(403, [['content-length', '77'], ['accept-ranges', 'bytes']], '') if r.m == 'HEAD' else None if down else Reply(st, [] if t is None else [['content-range', H.HeaderVal(t, bad=badh)], ['content-length', '1']], 'x')
    s, c = store(h, serve)
    r = it.method(s, 'head', LOC)
    info = lambda m: {'content-range': None if t is None else m(t), 'status': m(Int(st)), 'result': repr(r)}
    h.check([q.m for q in c.log] == ['HEAD', 'GET'] and all(url_ok(h, s, q) is True for q in c.log), 'a forbidden HEAD is not followed by one GET for the file', info=info); h.wit('fallback')
    v = c.log[1].get('range'); h.check(len(v) == 1 and eq(v[0], 'bytes=0-0') is True, 'the emulated HEAD asks for more than the first byte', info=info)
    good = band(not down and n is not None and not badh, K(st < 400))
    if r.var == 'Err': h.check(bnot(good), 'the size in a well-formed Content-Range is refused', info=info); return
    h.check(good, 'a size is made up from a malformed Content-Range', info=info, key='size guessed')
    o = deref(r.f['0']); h.wit('size'); h.check(K(o.f['size'].v == n), 'the reported size is not what the server states', info=info); h.check(eq(o.f['location'], LOC), 'the size is reported for another location')

class GRange(Enum): pass
def get_range_value(h, kind):
    a, b = h.int('from', 'usize'), h.int('to', 'usize')
    if kind == 'Bounded': h.assume(K(a.v < b.v)); return Enum('GetRange', 'Bounded', {'0': Struct('Range', {'start': a, 'end': b})}), a, b
    return Enum('GetRange', kind, {'0': a}), a, None
def _gr_text(it, v, a=None, c=None):
    f = deref(v.f['0'])
    if v.var == 'Bounded': return mktext(['bytes=', f.f['start'], '-', Int(f.f['end'].v - 1, 'usize')])
    return mktext(['bytes=', f, '-']) if v.var == 'Offset' else mktext(['bytes=-', f])
METHODS[('GetRange', 'to_string')] = METHODS[('GetRange', 'display')] = _gr_text
I.EXT_FN['GetOptions::default'] = lambda it, a, c: Struct('GetOptions', {k: NONE() for k in ('if_match', 'if_none_match', 'if_modified_since', 'if_unmodified_since', 'range', 'version')} | {'head': False})
class Date(Obj):
    def __init__(self, n): self.n = n
    def m_format(self, it, a, c): return mktext([self.n, ' as ', deref(a[0])]) if False else f'{self.n} as {deref(a[0])}'
    def m_clone(self, it, a, c): return self
DATEF = '%a, %d %b %Y %H:%M:%S GMT'
@case('get', over=[dict(range=r, shape=s) for r, s in [('none', 'full'), ('Bounded', 'full'), ('Offset', 'full'), ('Suffix', 'full')] + [('Bounded', s) for s in SHAPES[1:] if s != 'space'] + [('Bounded', 'absent')]], expects=['request'])
def getopts(h, range, shape):
    it = h.it; st = status(h); t, n, ab = cr_text(h, shape) if range != 'none' and shape != 'absent' else (None, None, None)
    lt, ln = num_text(h) if range == 'none' else ('3', 3); body = Opaque('body'); down = h.flip('no connection') if range == 'none' else False; broken = h.flip('body breaks off') if range == 'none' or shape == 'full' else False
    hd = [] if lt is None else [['content-length', lt]]
    if t is not None: hd.append(['content-range', t])
    if range == 'none' and h.flip('etag'): hd.append(['etag', 'E'])
    s, c = store(h, lambda r: None if down else Reply(st, hd, body, broken))
    gr, a, b = get_range_value(h, range) if range != 'none' else (None, None, None)
    o = Struct('GetOptions', {'if_match': opt('tag1') if h.flip('if_match') else NONE(), 'if_none_match': opt('tag2') if h.flip('if_none_match') else NONE(), 'range': opt(gr), 'version': NONE(), 'head': False,
                              'if_modified_since': opt(Date('d1')) if range == 'none' and h.flip('modified') else NONE(), 'if_unmodified_since': opt(Date('d2')) if range == 'none' and h.flip('unmodified') else NONE()})
    oo = dict(o.f); r = it.method(s, 'get_opts', LOC, o)
    info = lambda m: {'content-range': None if t is None else m(t), 'content-length': None if lt is None else m(lt), 'status': m(Int(st)), 'from': a and m(a), 'to': b and m(b), 'result': repr(r)}
    h.check(len(c.log) == 1 and c.log[0].m == 'GET' and url_ok(h, s, c.log[0]) is True, 'a read does not send one GET for the file', info=info); h.wit('request'); q = c.log[0]
    for f, k in (('if_match', 'if-match'), ('if_none_match', 'if-none-match'), ('if_modified_since', 'if-modified-since'), ('if_unmodified_since', 'if-unmodified-since')):
        want = [] if oo[f].var == 'None' else [deref(oo[f].f['0'])]; want = [f'{x.n} as {DATEF}' if isinstance(x, Date) else x for x in want]
        h.check(len(q.get(k)) == len(want) and all(eq(deref(x), y) is True for x, y in zip(q.get(k), want)), f'the condition {k} is not passed on', info=info, key='conditions')
    v = q.get('range'); h.check(len(v) == (range != 'none'), 'the range asked for is not passed on', info=info)
    if range != 'none': h.check(eq(deref(v[0]), _gr_text(it, gr)), 'the range asked for is not passed on', info=info)
    good = band(not down and ln is not None, K(st < 400))
    if range != 'none':
        want = None
        if n is None: good = False
        else:
            A, B = ab; A, B = zi(A), zi(B); n = zi(n)
            e0, e1 = (a.v, z3.If(b.v < n, b.v, n)) if range == 'Bounded' else (a.v, n) if range == 'Offset' else (z3.If(n > a.v, n - a.v, 0), n)
            good = band(good, band(K(A == e0), K(B + 1 == e1)))
    if r.var == 'Err': h.wit('error'); h.check(bnot(good), 'a well-formed reply is refused', info=info); return
    h.check(good, 'a malformed reply, or one for another range, is taken for the answer', info=info, key='reply taken')
    g = deref(r.f['0']); h.wit('answer')
    h.check(K(g.f['meta'].f['size'].v == (ln if range == 'none' else n)), 'the size is not what the server states', info=info)
    x = g.f['range']; e = (0, ln) if range == 'none' else (e0, e1)
    h.check(band(K(x.f['start'].v == e[0]), K(x.f['end'].v == e[1])), 'the range reported is not the range returned', info=info)
    h.check(eq(g.f['meta'].f['location'], LOC), 'the read reports another location')
    p = deref(g.f['payload']); items = [deref(y) for y in it.iter_of(p.f['0'])]
    h.check(p.var == 'Stream' and len(items) == 1 and (items[0].var == 'Ok') == (not broken) and (broken or deref(items[0].f['0']) is body), 'the bytes returned are not the ones the server sent', info=info)
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x

@case('listing', expects=['one', 'refused'])
def listing(h):
    it = h.it; s, c = store(h, lambda r: Reply(200, [['content-length', '5'], ['accept-ranges', 'bytes']], ''))
    k = h.choose(3, 'prefix'); pre = NONE() if k == 0 else Some(OPath('host/dir/')) if k == 1 else Some(LOC)
    st = it.method(s, 'list', pre); items = [deref(x) for x in it.iter_of(st)]
    if k < 2: h.wit('refused'); h.check(len(items) == 1 and items[0].var == 'Err' and not c.log, 'a directory is listed over HTTP', info=lambda m: {'items': repr(items)}); return
    h.wit('one'); h.check(len(items) == 1 and items[0].var == 'Ok' and deref(items[0].f['0']).f['size'].v == 5 and len(c.log) == 1, 'listing a file does not give that file', info=lambda m: {'items': repr(items)})

@case('writes are refused', over=[dict(op=o, n=n) for o, n in [('put', 2), ('put_opts', 3), ('put_multipart', 1), ('put_multipart_opts', 2), ('delete', 1), ('copy', 2), ('copy_if_not_exists', 2), ('list_with_delimiter', 1)]], expects=['refused'])
def writes(h, op, n):
    s, c = store(h, lambda r: Reply(200, [], '')); r = h.it.method(s, op, *[OPath(f'p{i}') if op != 'list_with_delimiter' else NONE() for i in __import__('builtins').range(n)])
    h.check(r.var == 'Err' and not c.log, 'a write over HTTP is attempted'); h.wit('refused')

@case('location to path and back', over=[dict(n=k) for k in (1, 2, 3)] + [dict(n=4), dict(n=5, _tier='thorough'), dict(n=-1, _name='samples')], expects=['round trip'])
def location(h, n):
    it = h.it; sch = h.pick(['http', 'https'], 'scheme')
    SAMPLES = ['h/é', 'h/🦀?x=%C3%A9', 'h/a%2Fb?c=%2B%26%25', 'h/%FF', 'h:80/a b', 'u:p@h/x?y=1&z=%20#frag', 'h/x+y', 'h/%', 'h/%2', 'h/%zz']
    t = h.pick(SAMPLES, 'rest') if n == -1 else symtext('rest', n)
    loc = mktext([sch + '://', t]) if not isinstance(t, str) else sch + '://' + t
    r = it.call_fn('seafowl::object_store::http::try_prepare_http_url', loc)
    info = lambda m: {'location': m(loc), 'prepared': repr(r)}
    h.check(r.var == 'Some', 'an http location is not recognised', info=info)
    u = cl(deref(r.f['0'])); pre = cl(sch + '://anyhost')
    h.check(len(u) > len(pre) and from_cl(u[:len(pre)]) == sch + '://anyhost', 'the location is not routed to the HTTP store of its scheme', info=info)
    path = u[len(pre):]
    h.check(code(path[0]) == 47, 'the prepared location has no path', info=info)
    for ch in path[1:]:         # nothing a URL parser would interpret, drop or re-encode
        h.check(K(z3.Or(RQ.alnum(code(ch)), code(ch) == 37) if not isinstance(code(ch), int) else code(ch) == 37 or RQ.alnum(code(ch))), 'the prepared location has characters a URL parser interprets', info=info)
    p = RQ.url_path(from_cl(path))
    if p is None: h.wit('refused'); return           # DataFusion refuses it with an error (control characters, empty or dot segments)
    s, c = store(h, lambda r: Reply(200, [['content-length', '5'], ['accept-ranges', 'bytes']], '')); s.f['scheme'] = sch
    it.method(s, 'head', OPath(p))
    got = c.log[0].url; x, y = cl(got), cl(loc)
    info2 = lambda m: {'location': m(loc), 'requested': m(got)}
    slash = cl(t)[-1]; sl = code(slash) == 47
    if h.ctx.branch(sl if not isinstance(sl, bool) else sl) and len(x) == len(y) - 1:
        h.check(eq(got, from_cl(y[:-1])), 'the file requested is not the location the user gave', info=info2, key='round trip')
        h.wit('slash'); h.check(False, 'the slash at the end of a location is lost', info=info2, key='trailing slash'); return
    h.check(len(x) == len(y) and eq(got, loc), 'the file requested is not the location the user gave', info=info2, key='round trip'); h.wit('round trip'); h.sample(location=loc)

@case('other locations are left alone', over=[dict(n=k) for k in (0, 3, 7)], expects=['none'])
def other(h, n):
    t = symtext('loc', n); r = h.it.call_fn('seafowl::object_store::http::try_prepare_http_url', t)
    if n == 7: h.assume(bnot(eq(t, 'http://')))
    h.check(r.var == 'None', 'a location that is not http is rewritten', info=lambda m: {'location': m(t)}); h.wit('none')
