"""C01: who may read and who may write."""
from engine.harness import *
from engine import ext_http
NATIVE = None
BOUNDS = 'tokens, passwords and Authorization headers: any strings (SMT strings, no length bound); every read/write access setting; one request'
ASSUMPTIONS = ['SHA-256 is modelled as an uninterpreted function and no collision among the strings hashed in one request',
               'warp hands the handler the Authorization header value unchanged']

MODES = ['any', 'off', 'password']
def setting(h, mode, name):
    it = h.it
    if mode == 'any': return it.mke('AccessSettings', 'Any'), None
    if mode == 'off': return it.mke('AccessSettings', 'Off'), None
    pw = h.str(name)
    hash_ = it.call_fn('seafowl::config::schema::str_to_hex_hash', pw)
    return it.mke('AccessSettings', 'Password', sha256_hash=hash_), hash_

def policy(h, rm, wm):
    r, rh = setting(h, rm, 'read_pw'); w, wh = setting(h, wm, 'write_pw')
    return h.it.mk('AccessPolicy', read=r, write=w), rh, wh

def oracle(h, tok, rm, wm, rh, wh):
    """may the caller read / write, per the property text"""
    th = ext_http.sha_hex(tok) if tok is not None else None
    is_w = eq(th, wh) if th is not None and wh is not None else False
    is_r = eq(th, rh) if th is not None and rh is not None else False
    can_r = bor(rm == 'any', is_r, is_w)
    can_w = bor(wm == 'any', is_w)
    # requests that never get in, whatever they ask for
    if tok is None: rejected = rm != 'any' and wm != 'any'
    elif rm != 'password' and wm != 'password': rejected = True
    else: rejected = bnot(bor(is_w, is_r))
    return can_r, can_w, rejected, is_w, is_r

GRID = [dict(rm=r, wm=w, has=t) for r in MODES for w in MODES for t in (False, True)]

def judge(h, res, tok, rm, wm, rh, wh, pol=None):
    it = h.it
    can_r, can_w, rejected, is_w, is_r = oracle(h, tok, rm, wm, rh, wh)
    info = lambda m: {'token': m(tok) if tok is not None else None, 'read': rm, 'write': wm, 'result': repr(res)}
    if res.var == 'Err':
        h.wit('rejected')
        h.check(rejected, 'a caller the policy lets in is rejected', info=info)
        return
    h.check(bnot(rejected), 'a wrong, useless or missing token is let in', info=info)
    uc = deref(res.f['0'])
    R = it.method(uc, 'can_perform_action', it.mke('Action', 'Read'))
    W = it.method(uc, 'can_perform_action', it.mke('Action', 'Write'))
    h.wit('admitted')
    same = lambda a, b: (a == b) if isinstance(a, bool) and isinstance(b, bool) else (a if is_sym(a) else z3.BoolVal(a)) == (b if is_sym(b) else z3.BoolVal(b))
    h.check(same(R, can_r), 'read permission differs from the policy', info=lambda m: dict(info(m), read_allowed=m(R)))
    h.check(same(W, can_w), 'write permission differs from the policy', info=lambda m: dict(info(m), write_allowed=m(W)))
    if is_w is not False and h.ctx.possible(is_w): h.wit('writer')

@case('token to permission', over=GRID)
def token(h, rm, wm, has):
    it = h.it
    pol, rh, wh = policy(h, rm, wm)
    tok = h.str('token') if has else None
    arg = Some(tok) if has else NONE()
    res = it.call_fn('seafowl::auth::token_to_principal', arg, pol)
    if res.var == 'Ok':
        p = res.f['0']
        uc = it.mk('UserContext', principal=p, policy=clone(pol))
        res = Ok(uc)
    judge(h, res, tok, rm, wm, rh, wh)

@case('authorization header to permission', over=GRID)
def header(h, rm, wm, has):
    """the Authorization header as the HTTP filter sees it: exactly `Bearer <token>` carries a token"""
    it = h.it
    pol, rh, wh = policy(h, rm, wm)
    if not has:
        res = it.call_fn('seafowl::frontend::http::header_to_user_context', NONE(), pol)
        return judge(h, res, None, rm, wm, rh, wh)
    hd = h.str('header')
    pre = z3.PrefixOf(z3.StringVal('Bearer '), hd.e)
    e = strterm(hd)
    tok = SymStr(z3.SubString(e, 7, z3.Length(e) - 7))
    res = it.call_fn('seafowl::frontend::http::header_to_user_context', Some(hd), pol)
    if not h.ctx.branch(z3.PrefixOf(z3.StringVal('Bearer '), e)):
        h.wit('malformed')
        h.check(res.var == 'Err', 'a malformed Authorization header is let in')
        return
    judge(h, res, tok, rm, wm, rh, wh)

@case('policy builders', over=[dict(_name='config')], expects=['ok'])
def builders(h):
    it = h.it
    rpw, wpw = h.str('r'), h.str('w')
    p = it.call_fn('seafowl::auth::AccessPolicy::free_for_all')
    h.check(p.f['read'].var == 'Any' and p.f['write'].var == 'Any', 'free_for_all is not open')
    q = it.method(clone(p), 'with_read_disabled'); h.check(q.f['read'].var == 'Off' and q.f['write'].var == 'Any', 'with_read_disabled')
    q = it.method(clone(p), 'with_write_disabled'); h.check(q.f['write'].var == 'Off' and q.f['read'].var == 'Any', 'with_write_disabled')
    q = it.method(it.method(clone(p), 'with_read_password', rpw), 'with_write_password', wpw)
    h.check(eq(q.f['read'].f['sha256_hash'], ext_http.sha_hex(rpw)), 'read password hash is not SHA-256 of the read password')
    h.check(eq(q.f['write'].f['sha256_hash'], ext_http.sha_hex(wpw)), 'write password hash is not SHA-256 of the write password')
    a, b = it.mke('AccessSettings', 'Password', sha256_hash=rpw), it.mke('AccessSettings', 'Password', sha256_hash=wpw)
    cfg = Struct(it.find_type('HttpFrontend'), {'read_access': a, 'write_access': b})
    q = it.call_fn('seafowl::auth::AccessPolicy::from_config', cfg)
    h.check(band(eq(q.f['read'], a), eq(q.f['write'], b)), 'from_config swaps or changes the configured access')
    h.wit('ok')
