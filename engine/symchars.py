"""Strings whose characters are symbolic: Text made of `str` pieces and Char pieces carrying a z3 code point.
Symbolic characters are ASCII (code 1..127), so byte length = character count for them."""
import z3
from .core import *
from .values import *
from . import values, stdlib, interp
from .interp import METHODS, method

def symchar(name, lo=1, hi=127):
    c = Ctx.cur.fresh(name)
    if not is_sym(c): return Char(chr(c))
    Ctx.cur.add(z3.And(c >= lo, c <= hi)); 
    if z3.is_int_value(c): return Char(chr(c.as_long()))
    return Char(c)

def symtext(name, n, lo=1, hi=127):
    """a string of exactly n symbolic characters"""
    return mktext([(lambda c: c.c if isinstance(c.c, str) else c)(symchar(f'{name}[{i}]', lo, hi)) for i in range(n)])

def code(ch):
    return ord(ch.c) if isinstance(ch.c, str) else ch.c
def cl(v):
    """list of Char, or None when the string has other pieces"""
    v = deref(v)
    if isinstance(v, str): return [Char(x) for x in v]
    if type(v) is Char: return [v]
    if type(v) is Text:
        out = []
        for p in v.p:
            if isinstance(p, str): out.extend(Char(x) for x in p)
            elif type(p) is Char: out.append(p)
            elif type(p) is Int and p.conc(): out.extend(Char(x) for x in str(p.v))
            else: return None
        return out
    return None
def from_cl(cs): return mktext([c.c if isinstance(c.c, str) else c for c in cs])
def ceq(a, b):
    x, y = code(a), code(b)
    return x == y if isinstance(x, int) and isinstance(y, int) else mkbool((x if is_sym(x) else z3.IntVal(x)) == y)
def seq_eq(a, b):
    if len(a) != len(b): return False
    return band(*[ceq(x, y) for x, y in zip(a, b)])
values.CL = cl; values.SEQ_EQ = seq_eq

def pat(it, p):
    """matcher (list, i) -> matched length or None; forks on symbolic characters"""
    p = deref(p); br = Ctx.cur.branch
    if type(p) is Char: return lambda s, i: 1 if i < len(s) and br(ceq(s[i], p)) else None
    if type(p) in (str, Text):
        q = cl(p)
        if q is None: raise Unsupported('opaque string pattern')
        return lambda s, i: len(q) if i + len(q) <= len(s) and all(br(ceq(s[i + j], q[j])) for j in range(len(q))) else None
    if type(p) is Vec: return lambda s, i: 1 if i < len(s) and any(br(ceq(s[i], deref(x))) for x in p.a) else None
    return lambda s, i: 1 if i < len(s) and br(it.call(p, [s[i]])) else None

SM = {}
def sm(*names):
    def d(f):
        for n in names: SM[n] = f
        return f
    return d
def usz(n): return Int(n, 'usize')
@sm('chars')
def _chars(it, s, a, c): return Iter(list(s))
@sm('char_indices')
def _ci(it, s, a, c):
    out = []; i = 0
    for x in s: out.append(Tup([usz(i), x])); i += len(x.c.encode()) if isinstance(x.c, str) else 1
    return Iter(out)
@sm('len')
def _len(it, s, a, c): return usz(sum(len(x.c.encode()) if isinstance(x.c, str) else 1 for x in s))
@sm('is_empty')
def _em(it, s, a, c): return not s
@sm('bytes')
def _by(it, s, a, c): return Iter([Int(code(x), 'u8') for x in s])
@sm('as_bytes', 'into_bytes')
def _ab(it, s, a, c): return Vec([Int(code(x), 'u8') for x in s])
@sm('replace')
def _rep(it, s, a, c):
    m = pat(it, a[0]); q = cl(a[1]); out = []; i = 0
    if q is None: raise Unsupported('replacement with an opaque string')
    while i < len(s):
        k = m(s, i)
        if k: out.extend(q); i += k
        else: out.append(s[i]); i += 1
    return from_cl(out)
@sm('replacen')
def _repn(it, s, a, c):
    m = pat(it, a[0]); q = cl(a[1]); out = []; i = 0; n = cint(a[2])
    while i < len(s):
        k = m(s, i) if n > 0 else None
        if k: out.extend(q); i += k; n -= 1
        else: out.append(s[i]); i += 1
    return from_cl(out)
@sm('contains')
def _cont(it, s, a, c):
    m = pat(it, a[0]); return any(m(s, i) is not None for i in range(len(s) + 1))
def find(it, s, p):
    m = pat(it, p)
    for i in range(len(s) + 1):
        if m(s, i) is not None: return i
    return None
@sm('find')
def _find(it, s, a, c):
    k = find(it, s, a[0]); return opt(None if k is None else _len(it, s[:k], (), c))
@sm('rfind')
def _rfind(it, s, a, c):
    m = pat(it, a[0])
    for i in range(len(s), -1, -1):
        if m(s, i) is not None: return Some(_len(it, s[:i], (), c))
    return NONE()
@sm('starts_with')
def _sw(it, s, a, c): return pat(it, a[0])(s, 0) is not None
@sm('strip_prefix')
def _sp(it, s, a, c):
    k = pat(it, a[0])(s, 0); return opt(None if k is None else from_cl(s[k:]))
def endlen(it, s, p):
    p = deref(p)
    if type(p) in (str, Text):
        q = cl(p); return len(q) if len(q) <= len(s) and pat(it, p)(s, len(s) - len(q)) is not None else None
    return 1 if s and pat(it, p)(s, len(s) - 1) else None
@sm('ends_with')
def _ew(it, s, a, c): return endlen(it, s, a[0]) is not None
@sm('strip_suffix')
def _ss(it, s, a, c):
    k = endlen(it, s, a[0]); return opt(None if k is None else from_cl(s[:len(s) - k]))
def trims(it, s, p):
    while s:
        k = pat(it, p)(s, 0)
        if not k: break
        s = s[k:]
    return s
def trime(it, s, p):
    while s:
        k = endlen(it, s, p)
        if not k: break
        s = s[:-k]
    return s
WS = interp_ws = Vec([Char(x) for x in ' \t\n\r\x0b\x0c'])
@sm('trim_start_matches')
def _tsm(it, s, a, c): return from_cl(trims(it, s, a[0]))
@sm('trim_end_matches')
def _tem(it, s, a, c): return from_cl(trime(it, s, a[0]))
@sm('trim_matches')
def _tm(it, s, a, c): return from_cl(trime(it, trims(it, s, a[0]), a[0]))
@sm('trim')
def _tr(it, s, a, c): return from_cl(trime(it, trims(it, s, WS), WS))
@sm('trim_start')
def _trs(it, s, a, c): return from_cl(trims(it, s, WS))
@sm('trim_end')
def _tre(it, s, a, c): return from_cl(trime(it, s, WS))
def split(it, s, p, limit=None):
    m = pat(it, p); out = []; start = 0; i = 0
    while i < len(s):
        k = m(s, i) if limit is None or len(out) < limit - 1 else None
        if k: out.append(from_cl(s[start:i])); i += k; start = i
        else: i += 1
    out.append(from_cl(s[start:])); return out
@sm('split')
def _split(it, s, a, c): return Iter(split(it, s, a[0]))
@sm('splitn')
def _splitn(it, s, a, c): return Iter(split(it, s, a[1], cint(a[0])))
@sm('rsplit')
def _rsplit(it, s, a, c): return Iter(split(it, s, a[0])[::-1])
@sm('split_once')
def _so(it, s, a, c):
    o = split(it, s, a[0], 2); return Some(Tup(o)) if len(o) == 2 else NONE()
@sm('rsplit_once')
def _rso(it, s, a, c):
    m = pat(it, a[0])
    for i in range(len(s) - 1, -1, -1):
        k = m(s, i)
        if k: return Some(Tup([from_cl(s[:i]), from_cl(s[i + k:])]))
    return NONE()
@sm('to_lowercase', 'to_ascii_lowercase')
def _lo(it, s, a, c): return from_cl([chlower(x) for x in s])
@sm('to_uppercase', 'to_ascii_uppercase')
def _up(it, s, a, c): return from_cl([chupper(x) for x in s])
def chlower(x):
    if isinstance(x.c, str): return Char(x.c.lower())
    return Char(z3.If(z3.And(x.c >= 65, x.c <= 90), x.c + 32, x.c))
def chupper(x):
    if isinstance(x.c, str): return Char(x.c.upper())
    return Char(z3.If(z3.And(x.c >= 97, x.c <= 122), x.c - 32, x.c))
@sm('eq_ignore_ascii_case')
def _eqi(it, s, a, c):
    w = cl(a[0])
    if w is None or len(w) != len(s): return False
    return band(*[ceq(chlower(x), chlower(y)) for x, y in zip(s, w)])
@sm('matches')
def _mat(it, s, a, c):
    m = pat(it, a[0]); out = []; i = 0
    while i < len(s):
        k = m(s, i)
        if k: out.append(from_cl(s[i:i + k])); i += k
        else: i += 1
    return Iter(out)
@sm('repeat')
def _rpt(it, s, a, c): return from_cl(s * cint(a[0]))
@sm('is_char_boundary')
def _icb(it, s, a, c): return True
def rng(it, r, n):
    from .interp import slice_bounds
    return slice_bounds(r, n)

def is_chars(v):
    return type(v) is Text and any(type(p) is Char for p in v.p) and cl(v) is not None
def wrap(name, f, old):
    def g(it, v, a, c):
        if is_chars(v): return f(it, cl(v), a, c)
        # a concrete string matched against symbolic characters
        if type(v) is str and any(is_chars(deref(x)) or (type(deref(x)) is Char and not isinstance(deref(x).c, str)) for x in a):
            return f(it, cl(v), a, c)
        if old is None: raise Unsupported(f'{name} on {v!r:.60}')
        return old(it, v, a, c)
    return g
for _n, _f in SM.items():
    for _t in (str, Text):
        METHODS[(_t, _n)] = wrap(_n, _f, METHODS.get((_t, _n)))

# --- character classes
def rngs(*rs):
    def cond(x):
        o = code(x)
        if isinstance(o, int): return any(l <= o <= h for l, h in rs)
        return mkbool(z3.Or(*[z3.And(o >= l, o <= h) if l != h else o == l for l, h in rs]))
    return cond
UP, LW, DG = (65, 90), (97, 122), (48, 57)
CLS = {'is_ascii_alphabetic': rngs(UP, LW), 'is_alphabetic': rngs(UP, LW), 'is_ascii_digit': rngs(DG), 'is_numeric': rngs(DG), 'is_digit': rngs(DG),
       'is_ascii_alphanumeric': rngs(UP, LW, DG), 'is_alphanumeric': rngs(UP, LW, DG), 'is_whitespace': rngs((9, 13), (32, 32)), 'is_ascii_whitespace': rngs((9, 10), (12, 13), (32, 32)),
       'is_ascii_uppercase': rngs(UP), 'is_uppercase': rngs(UP), 'is_ascii_lowercase': rngs(LW), 'is_lowercase': rngs(LW),
       'is_ascii_hexdigit': rngs(DG, (65, 70), (97, 102)), 'is_ascii_punctuation': rngs((33, 47), (58, 64), (91, 96), (123, 126)), 'is_ascii_control': rngs((0, 31), (127, 127)), 'is_control': rngs((0, 31), (127, 127)),
       'is_ascii_graphic': rngs((33, 126)), 'is_ascii': rngs((0, 127))}
for _n, _f in CLS.items():
    def _mk(fn, old):
        def g(it, v, a, c):
            if isinstance(v.c, str) and old is not None: return old(it, v, a, c)
            return fn(v)
        return g
    METHODS[(Char, _n)] = _mk(_f, METHODS.get((Char, _n)))
METHODS[(Char, 'to_ascii_lowercase')] = lambda it, v, a, c: chlower(v)
METHODS[(Char, 'to_ascii_uppercase')] = lambda it, v, a, c: chupper(v)
METHODS[(Char, 'len_utf8')] = lambda it, v, a, c: usz(len(v.c.encode()) if isinstance(v.c, str) else 1)
METHODS[(Char, 'eq_ignore_ascii_case')] = lambda it, v, a, c: ceq(chlower(v), chlower(deref(a[0])))
