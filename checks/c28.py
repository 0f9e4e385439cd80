"""C28: failures reach HTTP clients as the right kind of error."""
from engine.harness import *
from checks.web import *
from engine.symchars import symtext, cl, code
NATIVE = None
BOUNDS = 'every ApiError with any payload; whole requests to every route: any Authorization header (SMT string), batches of 0-2 statements, any query text, one engine or I/O failure of any kind at any step (also midway through the rows), uploads of up to 4 form parts in 1-2 chunks with file names of 0-9 symbolic characters'
ASSUMPTIONS = ['warp filters and its default rejection statuses as documented', 'tempfile fails for suffixes that contain a path separator or NUL', 'DataFusionError and io::Error display their own message']
MODELS = 'warp filters, multipart forms, tempfile, serde_json, DataFusion behind the HTTP layer'
MSG = {'NotReadOnlyQuery': (405, 'NOT_READ_ONLY_QUERY'), 'ReadOnlyEndpointDisabled': (405, 'READ_ONLY_ENDPOINT_DISABLED'), 'ReadForbidden': (403, 'READ_FORBIDDEN'), 'WriteForbidden': (403, 'WRITE_FORBIDDEN'),
       'NeedAccessToken': (401, 'NEED_ACCESS_TOKEN'), 'UselessAccessToken': (400, 'USELESS_ACCESS_TOKEN'), 'WrongAccessToken': (401, 'INVALID_ACCESS_TOKEN'), 'InvalidAuthorizationHeader': (401, 'INVALID_AUTHORIZATION_HEADER'),
       'InvalidMultiStatement': (400, 'Only one read statement is allowed and it must be at the end of a multi-statement query'), 'EmptyMultiStatement': (400, 'Empty query received'),
       'UploadMissingFile': (400, 'No part containing file found in the request!'), 'UploadMissingFilename': (400, 'No filename found in the request!'), 'UploadHasHeaderParseError': (400, 'Invalid has_header'), 'QueryDecodeError': (400, 'QUERY_DECODE_ERROR'),
       'UploadMissingFilenameExtension': (400, ['File ', 0, ' missing extension']), 'UploadUnsupportedFileFormat': (400, ['File ', 0, ' not supported']),
       'UploadSchemaDeserializationError': (400, ['Error deserializing the file schema: ', 0]), 'UploadSchemaParseError': (400, ['Error parsing the file schema: ', 0]), 'UploadBodyLoadError': (400, ['Error loading the upload body: ', 0]), 'UploadFileLoadError': (400, ['Error loading the upload file: ', 0]),
       'QueryParsingError': (400, ['No query found in the request: ', 0]), 'DataFusionError': (400, [0]), 'IoError': (500, [0])}
class Msg(Obj):
    """an error only its message matters of"""
    def __init__(self, tn, text): self.tname = tn; self.text = text
    def display_(self, it): return self.text
    debug_ = display_
    def m_to_string(self, it, a, c): return self.text
    def m_clone(self, it, a, c): return self
def text_of(parts, args): return mktext([args[p] if isinstance(p, int) else p for p in parts])
def same_text(a, b):
    a, b = deref(a), deref(b)
    if type(a) is Text or type(b) is Text:
        pa = a.p if type(a) is Text else [a]; pb = b.p if type(b) is Text else [b]
        if any(isinstance(x, OpaquePiece) for x in pa + pb):
            return len(pa) == len(pb) and band(*[(x.v is y.v) if isinstance(x, OpaquePiece) and isinstance(y, OpaquePiece) else False if isinstance(x, OpaquePiece) or isinstance(y, OpaquePiece) else eq(x, y) for x, y in zip(pa, pb)])
    return eq(a, b)

@case('every error', expects=['all'], bounds='every variant of ApiError, payloads: any strings')
def errors(h):
    it = h.it; d = it.find_type('ApiError')
    v = h.pick(sorted(x for x in d.variants), 'error')
    args = {'0': h.str('first'), '1': h.str('second')}
    e = None
    if v in MSG and not isinstance(MSG[v][1], list): e = it.mke('ApiError', v)
    elif v == 'HashMismatch': e = it.mke('ApiError', v, args['0'], args['1'])
    elif v in ('UploadMissingFilenameExtension', 'UploadUnsupportedFileFormat'): e = it.mke('ApiError', v, args['0'])
    elif v in MSG: e = it.mke('ApiError', v, Msg(v, args['0']))
    if e is None: return              # a new kind of error: nothing documented
    for how in ('reply', 'rejection', 'result'):
        if how == 'reply': r = HT.to_response(it, e)
        elif how == 'rejection':
            x = deref(it.await_(it.call_fn('seafowl::frontend::http_utils::handle_rejection', W.Rej([(405, None), (500, e), (404, None)]))))
            h.check(x.var == 'Ok', 'an API error raised while routing is not answered as such'); r = HT.to_response(it, x.f['0'])
        else: r = HT.to_response(it, it.call_fn('seafowl::frontend::http_utils::into_response', Err(e)))
        info = lambda m: {'error': v, 'status': status(r), 'body': m(r.body) if type(deref(r.body)) in (str, SymStr) else repr(r.body)}
        if v == 'HashMismatch':
            h.check(status(r) == 400, 'an error has another status than documented', info=info)
            continue
        s, t = MSG[v]
        h.check(status(r) == s, 'an error has another status than documented', info=info)
        h.check(same_text(r.body, text_of(t, [args['0']]) if isinstance(t, list) else t), 'an error has another message than documented', info=info)
    h.wit('all')
@case('other rejections', expects=['kept'])
def other(h):
    r = W.Rej([(h.pick([400, 404, 405, 413, 415], 'status'), None)])
    x = deref(h.it.await_(h.it.call_fn('seafowl::frontend::http_utils::handle_rejection', r)))
    h.check(x.var == 'Err' and deref(x.f['0']) is r, 'a routing failure is answered as something else'); h.wit('kept')

# ------------------------------------------------------------------ whole requests
def auth_faults(h, hd, rm, wm, rh, wh):
    """what is wrong with the credentials: (faults, may read, may write)"""
    if hd is not None and not yes(h, z3.PrefixOf(z3.StringVal('Bearer '), strterm(hd))): return ['InvalidAuthorizationHeader'], False, False
    tok = None if hd is None else SymStr(z3.SubString(strterm(hd), 7, z3.Length(strterm(hd)) - 7))
    r, w, rejd, _, _ = oracle(h, tok, rm, wm, rh, wh)
    if yes(h, rejd): return ['NeedAccessToken' if tok is None else 'UselessAccessToken' if 'password' not in (rm, wm) else 'WrongAccessToken'], False, False
    return [], yes(h, r), yes(h, w)
def engine_error(w): return ('DataFusionError', w.err.f['0']) if w.err is not None else None
def matches(r, f, args=()):
    """is this response the documented one of fault f"""
    s = status(r)
    if isinstance(f, tuple) and isinstance(f[0], int): return s == f[0]
    k, a = (f[0], list(f[1:])) if isinstance(f, tuple) else (f, [])
    ds, t = MSG[k]
    if s != ds: return False
    if k in ('QueryParsingError',): return bool(starts(r.body, 'No query found in the request'))
    if k in ('UploadSchemaParseError', 'UploadSchemaDeserializationError', 'UploadBodyLoadError'): return bool(starts(r.body, t[0]))
    if k == 'DataFusionError': return has_piece(r.body, a[0])
    if k == 'IoError' and not a: return True
    return same_text(r.body, text_of(t, a) if isinstance(t, list) else t)
def starts(b, p):
    b = deref(b)
    if type(b) is Text: b = b.p[0] if b.p else ''
    return isinstance(b, str) and b.startswith(p)
def pieces(b):
    b = deref(b)
    if type(b) is Vec: return [x for y in b.a for x in pieces(y)]
    if type(b) is tuple: return []
    return [x.v for x in (b.p if type(b) is Text else [b]) if isinstance(x, OpaquePiece)]
def has_piece(b, m): return any(x is y for x in pieces(m) for y in pieces(b)) if pieces(m) else same_text(b, m)
def judge(h, r, faults, info, ok=200):
    """a request with these faults (any may be reported) is answered as documented; without one it succeeds"""
    s = status(r)
    if not faults: h.check(s == ok, 'a request nothing is wrong with fails', info=info); h.wit('ok'); return
    h.check(s >= 400, 'a failed request is answered with success', info=info)
    h.check(bor(*[matches(r, f) for f in faults]), 'a failure is reported with another status or message than documented', info=info)
    h.wit(faults[0] if isinstance(faults[0], str) else str(faults[0][0]))

def body_items(h, r):
    b = deref(r.body)
    return [deref(x) for x in deref(h.it.await_(h.it.method(b, 'collect'))).a]
MID = 'the rows break off'
def rows(h, w):
    def f(i):
        out = []
        for k in range(2):
            if failure(h, w, MID): out.append(Err(w.err)); return out
            out.append(Ok(Bag('RecordBatch', i=k)))
        return out
    return f
def check_rows(h, w, r, info):
    if status(r) != 200: return
    xs = [x for x in body_items(h, r)]
    if w.failed == MID: h.check(xs and xs[-1].var == 'Ok' and has_piece(xs[-1].f['0'], w.err.f['0']), 'a result that breaks off does not say why', info=info); h.wit('midway')
    elif not w.failed: h.check(len(xs) == 2 and all(x.var == 'Ok' for x in xs), 'a result is not sent whole', info=info); h.wit('rows')

POL = [('any', 'any'), ('any', 'off'), ('off', 'any'), ('off', 'off'), ('password', 'password'), ('any', 'password'), ('password', 'off'), ('password', 'any'), ('off', 'password')]
GRID = [dict(rm=r, wm=w, auth=t) for r, w in POL for t in (False, True)]
@case('queries over POST', over=GRID, budget=200)
def post(h, rm, wm, auth):
    names = []
    for i in range(h.choose(3, 'statements')): names.append(h.pick(['SELECT', 'INSERT', 'EXPLAIN ANALYZE INSERT'], f'statement {i}'))
    w = World(h, [(n, KINDS[n][0]()) for n in names]); w.kinds = True; w.rows = rows(h, w); ctx = setup(h, w)
    f, rh, wh = server(h, ctx, rm, wm); hd = h.str('authorization') if auth else None
    body = h.pick([('json', 'THE QUERY'), ('bad',), ('type',), None], 'body')
    r = f.serve(h.it, Req('POST', ['q'], {'authorization': hd} if auth else {}, body))
    faults, can_r, can_w = auth_faults(h, hd, rm, wm, rh, wh)
    info = lambda m: {'batch': names, 'policy': [rm, wm], 'header': m(hd) if hd is not None else None, 'body given': body, 'failed': w.failed, 'faults': repr(faults), 'status': status(r), 'body': repr(r.body)[:300]}
    if not faults:
        if body is None or body[0] != 'json': faults = ['QueryParsingError']
        elif w.failed and w.failed != MID: faults = [engine_error(w)]
        else:
            if not names: faults.append('EmptyMultiStatement')
            eff = any(KINDS[n][1] for n in names); reads = [KINDS[n][2] for n in names]
            if eff and not can_w: faults.append('WriteForbidden')
            if True in reads and not can_r: faults.append('ReadForbidden')
            if reads.count(True) > 1 or (True in reads and not reads[-1]): faults.append('InvalidMultiStatement')
    judge(h, r, faults, info); check_rows(h, w, r, info)

@case('queries over GET', over=[dict(g, src=s) for g in GRID for s in ('path', 'header')], budget=200)
def get(h, rm, wm, auth, src):
    kinds = ['SELECT', 'INSERT', 'EXPLAIN ANALYZE SELECT']
    names = [h.pick(kinds, 'statement')] + (['SELECT'] if h.flip('two statements') else [])
    w = World(h, [(x, KINDS[x][0]()) for x in names]); w.kinds = True; w.rows = rows(h, w); ctx = setup(h, w)
    f, rh, wh = server(h, ctx, rm, wm); hd = h.str('authorization') if auth else None
    headers = {'authorization': hd} if auth else {}; seg = h.str('path segment'); h.assume(z3.And(z3.Length(strterm(seg)) > 0, z3.Not(z3.Contains(strterm(seg), '.')))); raw = seg
    if src == 'header': raw = h.str('query'); headers['x-seafowl-query'] = raw
    r = f.serve(h.it, Req('GET', ['q', seg], headers))
    faults, can_r, can_w = auth_faults(h, hd, rm, wm, rh, wh)
    info = lambda m: {'statements': names, 'policy': [rm, wm], 'header': m(hd) if hd is not None else None, 'segment': m(seg), 'query': m(raw), 'failed': w.failed, 'faults': repr(faults), 'status': status(r), 'body': repr(r.body)[:300]}
    if not faults:
        if rm == 'off': faults.append('ReadOnlyEndpointDisabled')
        elif not can_r: faults.append('ReadForbidden')
        elif not yes(h, HT.PCTOK(strterm(raw))): faults.append('QueryDecodeError')
        elif src == 'header' and not yes(h, eq(HT.sha_hex(SymStr(HT.PCTDEC(strterm(raw)))), seg)): faults.append((400,))
        elif w.failed and w.failed != MID: faults.append(engine_error(w))
        else:
            if len(names) != 1: faults.append((400,))
            elif KINDS[names[0]][3] in ('Dml', 'Ddl', 'Analyze', 'Copy', 'Extension'): faults.append('NotReadOnlyQuery')
    judge(h, r, faults, info); check_rows(h, w, r, info)

@case('unknown requests', expects=['refused'], bounds='paths of 0-4 segments (SMT strings), every method')
def routes(h):
    n = h.choose(5, 'segments'); segs = [h.str(f'segment {i}') for i in range(n)]
    for s in segs: h.assume(z3.Length(strterm(s)) > 0)
    m = h.pick(['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'PATCH', 'OPTIONS'], 'method')
    w = World(h, []); w.can_fail = False; ctx = setup(h, w); f, _, _ = server(h, ctx, 'any', 'any')
    r = f.serve(h.it, Req(m, segs)); s = status(r)
    is_ = lambda i, t: yes(h, eq(segs[i], t))
    known = m == 'GET' and (n == 1 and (is_(0, 'healthz') or is_(0, 'readyz')) or n == 2 and is_(0, 'q') or n == 3 and is_(1, 'q')) or m == 'POST' and (n == 1 and is_(0, 'q') or n == 2 and is_(1, 'q') or n == 3 and is_(0, 'upload') or n == 4 and is_(1, 'upload'))
    if not known: h.check(400 <= s < 500, 'an unknown request is not refused', info=lambda mm: {'path': [mm(x) for x in segs], 'method': m, 'status': s}); h.wit('refused')

@case('health', expects=['ready', 'not ready'], bounds='Flight frontend configured or not, answering or not')
def health(h):
    w = World(h, []); w.can_fail = False
    if h.flip('Flight configured'): w.flight = Some(Bag('ArrowFlight', bind_host='localhost', bind_port=Int(1, 'u16')))
    ctx = setup(h, w); f, _, _ = server(h, ctx, *h.pick(POL, 'policy'))
    r = f.serve(h.it, Req('GET', [h.pick(['healthz', 'readyz'], 'path')]))
    h.check(status(r) == (503 if w.failed else 200), 'the health check does not say what works', info=lambda m: {'failed': w.failed, 'status': status(r)}); h.wit('not ready' if w.failed else 'ready')
# ------------------------------------------------------------------ uploads
class Form(Iter):
    pass
class Part(Obj):
    tname = 'Part'
    def __init__(self, name, filename, chunks): self.name_ = name; self.fn = filename; self.ch = list(chunks)
    def m_name(self, it, a, c): return self.name_
    def m_filename(self, it, a, c): return opt(self.fn)
    def m_data(self, it, a, c):
        if not self.ch: return NONE()
        x = self.ch.pop(0); w = Ctx.cur.user['w']
        if failure(w.h, w, 'reading the body'): self.ch = []; return Some(Err(Msg('Error', w.err.f['0'])))
        return Some(Ok(x))
class Chunk(Obj):
    def __init__(self, b): self.b = b
    def m_chunk(self, it, a, c): return Vec([Int(x, 'u8') for x in self.b])
    m_to_vec = m_bytes = m_chunk
    def method_missing(self, it, name, a, c): raise Unsupported('Buf::' + name)
class TBuilder(Obj):
    def __init__(self): self.suffix = ''
    def m_suffix(self, it, a, c): self.suffix = deref(a[0]); return self
    def m_prefix(self, it, a, c): return self
    def m_tempfile(self, it, a, c):
        w = Ctx.cur.user['w']; cs = cl(self.suffix)
        bad = False
        for ch in (cs if cs is not None else []):
            k = code(ch); bad = bor(bad, k == 47, k == 0) if not isinstance(k, int) else bor(bad, k in (0, 47))
        if Ctx.cur.branch(bad) if not isinstance(bad, bool) else bad: return Err(Msg('Error', 'no such directory'))
        if w.h.flip('no temporary file') and not w.failed: w.failed = 'no temporary file'; return Err(Msg('Error', 'disk'))
        t = Temp(self.suffix); w.temps.append(t); return Ok(t)
class Temp(Obj):
    tname = 'NamedTempFile'
    def __init__(self, suffix): self.suffix = suffix; self.data = []; self.p = Text([OpaquePiece(self)])
    def m_path(self, it, a, c): return self
    def m_display(self, it, a, c): return self
    def m_to_string(self, it, a, c): return self.p
    def m_to_string_lossy(self, it, a, c): return self.p
    def m_flush(self, it, a, c): return Ok(UNIT())
    def display_(self, it): return self.p
    def m_write_all(self, it, a, c):
        w = Ctx.cur.user['w']
        if not w.failed and w.h.flip('disk full'): w.failed = 'disk full'; return Err(Msg('Error', 'disk full'))
        self.data += [deref(x).v for x in deref(a[0]).a]; return Ok(UNIT())
EXT_FN['tempfile::Builder::new'] = EXT_FN['Builder::new'] = lambda it, a, c: TBuilder()
class Json(Obj):
    def __init__(self, t): self.t = t
def from_json(it, a, c):
    s = deref(a[0])
    return Ok(Bag('Schema', text=s)) if s == '{}' else Err(Msg('Error', 'not a schema'))
DATA = [b'a,b\n', b'1,2\n']
NAMES = ['a.csv', 'a.parquet', 'A.CSV', 'csv', 'x.csv.gz', 'x.', '.csv', 'a.csv/../../b', 'x.txt']
@case('uploads', over=[dict(shape=s, pol=p) for s, p in [(('file',), 'ok'), *[(('file',), p) for p in POL], (('header', 'file'), 'ok'), (('schema', 'file'), 'ok'), (('file', 'header', 'schema'), 'ok'), (('other', 'file'), 'ok'), ((), 'ok'), (('header', 'schema'), 'ok'), (('file', 'file'), 'ok')]], budget=250)
def upload(h, shape, pol):
    from engine.interp import EXT_FN
    rm, wm = ('any', 'any') if pol == 'ok' else pol
    w = World(h, []); w.temps = []; w.seen = None; ctx = setup(h, w); EXT_FN['serde_json::from_str'] = EXT_FN['from_str'] = from_json
    f, rh, wh = server(h, ctx, rm, wm); hd = h.str('authorization') if pol != 'ok' and h.flip('authorization given') else None
    parts = []; faults = []; exp = dict(header=True, schema=None, name=None, file=False, data=b'')
    broken = h.flip('the body breaks off') if pol == 'ok' else False; at = h.choose(len(shape) + 1, 'after parts') if broken else None
    stop = False          # parts after the first faulty one are not read
    for i, k in enumerate(shape):
        if broken and at == i: break
        if k == 'header':
            b = h.pick([[b'true'], [b'false'], [b'tr', b'ue'], [b'\xff'], []], 'has_header'); parts.append(Ok(Part('has_header', None, [Chunk(x) for x in b])))
            t = b''.join(b)
            if t == b'\xff': faults.append('UploadHasHeaderParseError')
            else: exp['header'] = t == b'true'
        elif k == 'schema':
            b = h.pick([[b'{}'], [b'{', b'}'], [b'{'], [b'\xff']], 'schema'); parts.append(Ok(Part('schema', None, [Chunk(x) for x in b])))
            t = b''.join(b)
            if t == b'\xff': faults.append(('UploadSchemaDeserializationError', ''))
            elif t != b'{}': faults.append(('UploadSchemaParseError', ''))
            else: exp['schema'] = '{}'
        elif k == 'other': parts.append(Ok(Part('comment', None, [Chunk(b'hello')])))
        else:
            n = h.pick([None, 0] + (NAMES + [3, 5, 9] if shape == ('file',) and pol == 'ok' else NAMES[:1] + [5]), 'file name')
            fn = None if n is None else '' if n == 0 else n if isinstance(n, str) else symtext('file name', n, 1, 126)
            ch = [DATA[:1], DATA, []][h.choose(3, 'chunks')]; parts.append(Ok(Part(h.pick(['data', 'file'], 'part name') if len(shape) == 1 else 'data', fn, [Chunk(x) for x in ch])))
            exp.update(file=True, data=b''.join(ch), name=fn)
            if n is None or n == 0: faults.append('UploadMissingFile')
            else:
                cs = cl(fn); dot = [eq(x, Char('.')) for x in cs]
                ends = lambda e: len(cs) > len(e) and yes(h, band(*[eq(x, Char(y)) for x, y in zip(cs[-len(e):], e)])) if len(cs) > len(e) else False
                typ = 'csv' if ends('.csv') or len(cs) == 4 and ends('csv') and yes(h, dot[0]) else 'parquet' if ends('.parquet') or len(cs) == 8 and ends('parquet') and yes(h, dot[0]) else None
                if not typ and (fn == '.csv'): typ = 'csv'
                exp['type'] = typ; exp['nodot'] = not yes(h, bor(*dot)) if not typ else False
                if not typ: faults += [('UploadUnsupportedFileFormat', fn), ('UploadMissingFilenameExtension', fn)] if exp['nodot'] else [('UploadUnsupportedFileFormat', fn)]
    if broken and at <= len(shape): parts.append(Err(Msg('Error', 'broken'))); faults.append(('UploadBodyLoadError', ''))
    db = h.pick(['none', 'other'], 'database') if len(shape) <= 1 else 'none'
    r = f.serve(h.it, Req('POST', (['other'] if db == 'other' else []) + ['upload', 'the_schema', 'the_table'], {'authorization': hd} if hd is not None else {}, None, Iter(parts, stream=True)))
    af, can_r, can_w = auth_faults(h, hd, rm, wm, rh, wh)
    info = lambda m: {'parts': shape, 'policy': [rm, wm], 'failed': w.failed, 'name': m(exp['name']) if exp['name'] is not None else None, 'faults': repr(faults), 'status': status(r), 'body': repr(r.body)[:300]}
    ups = [e for e in w.events if e[0] == 'upload']
    if af or not can_w:
        h.check(not ups and not w.temps, 'an upload without permission is read', info=info)
        faults = af or ['WriteForbidden']
    else:
        if not exp['file']: faults += ['UploadMissingFile', ('UploadUnsupportedFileFormat', '')]
        if w.failed == 'reading the body': faults = [('UploadBodyLoadError', '')] + faults
        elif w.failed in ('no temporary file', 'disk full'): faults.append(('IoError',))
        elif w.failed == 'the upload': faults.append(engine_error(w))
    judge(h, r, faults, info)
    if status(r) == 200 and not faults:
        h.check(len(ups) == 1, 'an upload is confirmed without being stored', info=info)
        p, typ, sch, hh, sn, tn = ups[0][2]
        h.check(ups[0][1] == ('other' if db == 'other' else DB) and sn == 'the_schema' and tn == 'the_table', 'an upload is stored in another table', info=info)
        t = w.temps[-1]
        h.check(band(same_text(p, t.p), bytes(t.data) == exp['data']), 'another file than the uploaded one is stored', info=info)
        h.check(band(eq(typ, exp['type']), eq(hh, exp['header']), deref(sch).var == 'None' if exp['schema'] is None else deref(sch).var == 'Some' and deref(deref(sch).f['0']).f['text'] == '{}'), 'an upload is stored with other options', info=info); h.wit('stored')
