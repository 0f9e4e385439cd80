"""chrono: parsing and conversion of date-times, over strings with symbolic characters."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS, method, ext
from .symchars import cl, code
from .stdlib import OpaquePiece
br = lambda c: Ctx.cur.branch(c)
MON = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
WD = ['mon', 'tue', 'wed', 'thu', 'fri', 'sat', 'sun']

def div(a, k): return a // k if isinstance(a, int) else a / z3.IntVal(k)
def ite(c, a, b): return (a if c else b) if isinstance(c, bool) else z3.If(c, a, b)
def days_civil(y, m, d):
    y = y - ite(m <= 2, 1, 0)
    era = div(y, 400); yoe = y - era * 400
    doy = div(153 * (m + ite(m > 2, -3, 9)) + 2, 5) + d - 1
    doe = yoe * 365 + div(yoe, 4) - div(yoe, 100) + doy
    return era * 146097 + doe - 719468
def land(*a): return band(*[x if isinstance(x, bool) else mkbool(x) for x in a])
def lor(*a): return bor(*[x if isinstance(x, bool) else mkbool(x) for x in a])
def valid_date(y, m, d):
    md = lambda a, b: (a % b) == 0
    leap = lor(land(md(y, 4), bnot(mkb(md(y, 100)))), md(y, 400))
    m30 = lor(m == 4, m == 6, m == 9, m == 11)
    return land(m >= 1, m <= 12, d >= 1, d <= 31, lor(bnot(mkb(m30)), d <= 30), lor(m != 2, d <= 28, land(leap, d <= 29)))
def mkb(x): return x if isinstance(x, bool) else mkbool(x)
def secs_of(y, mo, d, h, mi, s): return days_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s

class NaiveDT(Obj):
    tname = 'NaiveDateTime'
    def __init__(self, s, ns=0): self.s = s; self.ns = ns
    def m_and_utc(self, it, a, c): return DT(self.s, self.ns, 0)
    def m_and_local_timezone(self, it, a, c):
        o = tz(a[0]); return Enum('LocalResult', 'Single', {'0': DT(self.s - o, self.ns, o)})
    def m_date(self, it, a, c): return NaiveDay(div(self.s, 86400))
    def eq_(self, o): return band(eqt(self.s, o.s), eqt(self.ns, o.ns))
class NaiveDay(Obj):
    tname = 'NaiveDate'
    def __init__(self, d): self.d = d
    def m_and_hms_opt(self, it, a, c):
        h, m, s = [ival(x) for x in a]
        if not br(land(h >= 0, h < 24, m >= 0, m < 60, s >= 0, s < 60)): return NONE()
        return Some(NaiveDT(self.d * 86400 + h * 3600 + m * 60 + s))
    def eq_(self, o): return eqt(self.d, o.d)
def eqt(a, b): return a == b if isinstance(a, int) and isinstance(b, int) else mkbool(a == b)
class Off(Obj):
    tname = 'FixedOffset'
    def __init__(self, o): self.o = o
    def m_fix(self, it, a, c): return self
    def m_local_minus_utc(self, it, a, c): return Int(self.o, 'i32')
    def m_utc_minus_local(self, it, a, c): return Int(-self.o, 'i32')
    def m_from_utc_datetime(self, it, a, c): n = deref(a[0]); return DT(n.s, n.ns, self.o)
    def m_from_local_datetime(self, it, a, c): n = deref(a[0]); return Enum('LocalResult', 'Single', {'0': DT(n.s - self.o, n.ns, self.o)})
def tz(v):
    v = deref(v)
    if isinstance(v, Off): return v.o
    if isinstance(v, (interp.ExtCtor,)) and v.name == 'Utc': return 0
    if isinstance(v, Struct) and v.ty == 'Utc': return 0
    raise Unsupported(f'time zone {v!r}')
class DT(Obj):
    """DateTime<Tz>: instant (seconds since the epoch, nanoseconds) and offset"""
    tname = 'DateTime'
    def __init__(self, s, ns=0, off=0): self.s = s; self.ns = ns; self.off = off
    def m_timestamp(self, it, a, c): return Int(self.s, 'i64')
    def m_timestamp_millis(self, it, a, c): return Int(self.s * 1000 + div(self.ns, 10**6), 'i64')
    def m_timestamp_micros(self, it, a, c): return Int(self.s * 10**6 + div(self.ns, 1000), 'i64')
    def m_timestamp_nanos_opt(self, it, a, c): return Some(Int(self.s * 10**9 + self.ns, 'i64'))
    def m_timestamp_subsec_nanos(self, it, a, c): return Int(self.ns, 'u32')
    def m_naive_utc(self, it, a, c): return NaiveDT(self.s, self.ns)
    def m_naive_local(self, it, a, c): return NaiveDT(self.s + self.off, self.ns)
    def m_with_timezone(self, it, a, c): return DT(self.s, self.ns, tz(a[0]))
    def m_to_utc(self, it, a, c): return DT(self.s, self.ns, 0)
    def m_fixed_offset(self, it, a, c): return self
    def m_offset(self, it, a, c): return Off(self.off)
    def m_timezone(self, it, a, c): return Off(self.off)
    def m_into(self, it, a, c): return DT(self.s, self.ns, 0)
    def m_clone(self, it, a, c): return self
    def eq_(self, o): return band(eqt(self.s, o.s), eqt(self.ns, o.ns))
    def cmp_(self, o): raise Unsupported('DateTime ordering')
    def display_(self, it): return Text([OpaquePiece(self)])
    def debug_(self, it): return Text([OpaquePiece(self)])
METHODS[('LocalResult', 'unwrap')] = lambda it, v, a, c: v.f['0']
METHODS[('LocalResult', 'single')] = lambda it, v, a, c: Some(v.f['0'])
METHODS[('LocalResult', 'earliest')] = METHODS[('LocalResult', 'latest')] = METHODS[('LocalResult', 'single')]

class Bad(Exception): pass
class P:
    """cursor over a character list"""
    def __init__(self, cs): self.c = cs; self.i = 0
    def end(self): return self.i >= len(self.c)
    def peek(self, pred):
        return not self.end() and br(pred(code(self.c[self.i])))
    def isd(self): return self.peek(lambda x: land(x >= 48, x <= 57))
    def lit(self, ch):
        for x in ch:
            if not self.peek(lambda k: mkb(k == ord(x))): raise Bad()
            self.i += 1
    def oneof(self, s): return self.peek(lambda k: lor(*[mkb(k == ord(x)) for x in s]))
    def num(self, lo, hi):
        v = 0; n = 0
        while n < hi and self.isd(): v = v * 10 + (code(self.c[self.i]) - 48); self.i += 1; n += 1
        if n < lo: raise Bad()
        return v
    def ws(self):
        while self.oneof(' \t\n\r\x0b\x0c'): self.i += 1
    def space(self):
        if not self.oneof(' \t\n\r\x0b\x0c'): raise Bad()
        self.ws()
    def word(self, words):
        for w in words:
            if self.i + len(w) <= len(self.c) and all(br(lor(mkb(code(self.c[self.i + j]) == ord(w[j])), mkb(code(self.c[self.i + j]) == ord(w[j].upper())))) for j in range(len(w))):
                self.i += len(w); return words.index(w)
        return None
    def offset(self, colon, zulu=False):
        """colon: 'must' | 'may' | 'no'"""
        if zulu and self.oneof('Zz'): self.i += 1; return 0
        if self.oneof('+'): sg = 1
        elif self.oneof('-'): sg = -1
        else: raise Bad()
        self.i += 1
        h = self.num(2, 2)
        if colon == 'must': self.lit(':')
        elif colon == 'may':
            while self.oneof(': '): self.i += 1
        m = self.num(2, 2)
        if not br(mkb(m <= 59)): raise Bad()
        return sg * (h * 3600 + m * 60)
    def frac(self):
        v = 0; n = 0
        while self.isd():
            if n < 9: v = v * 10 + (code(self.c[self.i]) - 48); n += 1
            self.i += 1
        if n == 0: raise Bad()
        return v * 10 ** (9 - n)
def build(f, need_off):
    for k in ('Y', 'm', 'd', 'H', 'M'):
        if k not in f: raise Bad()
    s = f.get('S', 0)
    if not br(land(valid_date(f['Y'], f['m'], f['d']), f['H'] < 24, f['M'] < 60, s <= 60)): raise Bad()
    ns = f.get('f', 0)
    lp = mkb(s == 60)
    if br(lp): s = 59; ns = ns + 10**9
    local = secs_of(f['Y'], f['m'], f['d'], f['H'], f['M'], s)
    if need_off:
        if 'z' not in f: raise Bad()
        o = f['z']
        if not br(land(o > -86400, o < 86400)): raise Bad()
        return DT(local - o, ns, o)
    return NaiveDT(local, ns)
def p3339(cs):
    p = P(cs); f = {}
    f['Y'] = p.num(4, 4); p.lit('-'); f['m'] = p.num(2, 2); p.lit('-'); f['d'] = p.num(2, 2)
    if not p.oneof('tT '): raise Bad()
    p.i += 1
    f['H'] = p.num(2, 2); p.lit(':'); f['M'] = p.num(2, 2); p.lit(':'); f['S'] = p.num(2, 2)
    if p.oneof('.'): p.i += 1; f['f'] = p.frac()
    f['z'] = p.offset('must', True)
    if not p.end(): raise Bad()
    return build(f, True)
def p2822(cs):
    p = P(cs); f = {}
    p.ws()
    wd = p.word(WD)
    if wd is not None: p.lit(',')
    p.ws(); f['d'] = p.num(1, 2); p.space()
    m = p.word(MON)
    if m is None: raise Bad()
    f['m'] = m + 1; p.space()
    i0 = p.i; y = p.num(2, 99); n = p.i - i0
    f['Y'] = ite(mkb(y < 50), y + 2000, y + 1900) if n == 2 else y + 1900 if n == 3 else y
    p.space(); f['H'] = p.num(2, 2); p.ws(); p.lit(':'); p.ws(); f['M'] = p.num(2, 2); p.ws()
    if p.oneof(':'): p.i += 1; p.ws(); f['S'] = p.num(2, 2)
    p.space()
    z = p.word(['gmt', 'ut', 'edt', 'est', 'cdt', 'cst', 'mdt', 'mst', 'pdt', 'pst'])
    if z is not None: f['z'] = [0, 0, -4, -5, -5, -6, -6, -7, -7, -8][z] * 3600
    elif p.oneof('zZ'): p.i += 1; f['z'] = 0
    else: f['z'] = p.offset('no')
    p.ws()
    if not p.end(): raise Bad()
    r = build(f, True)
    if wd is not None:
        if not br(mkb((days_civil(f['Y'], f['m'], f['d']) + 3) % 7 == wd)): raise Bad()
    return r
def pfmt(cs, fmt, need_off):
    p = P(cs); f = {}
    for a, b in (('%F', '%Y-%m-%d'), ('%T', '%H:%M:%S'), ('%R', '%H:%M')): fmt = fmt.replace(a, b)
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch.isspace(): p.ws(); i += 1; continue
        if ch != '%': p.lit(ch); i += 1; continue
        j = i + 1
        while fmt[j] in ':#.369-_0' and j < len(fmt) - 1: j += 1
        sp = fmt[i + 1:j + 1]; i = j + 1
        if sp == 'Y':
            p.ws()
            if p.oneof('-'): p.i += 1; f['Y'] = -p.num(1, 99)
            elif p.oneof('+'): p.i += 1; f['Y'] = p.num(1, 99)
            else: f['Y'] = p.num(1, 4)
        elif sp in ('m', 'd', 'H', 'M', 'S', 'e'):
            p.ws(); f['d' if sp == 'e' else sp] = p.num(1, 2)
        elif sp in ('z', ':z'): p.ws(); f['z'] = p.offset('may')
        elif sp == '#z': p.ws(); f['z'] = p.offset('may', True)
        elif sp == '.f':
            if p.oneof('.'): p.i += 1; f['f'] = p.frac()
        elif sp == 'b':
            m = p.word(MON)
            if m is None: raise Bad()
            f['m'] = m + 1
        else: raise Unsupported('chrono format %' + sp)
    if not p.end(): raise Bad()
    return build(f, need_off)
def wrap(fn):
    try: return Ok(fn())
    except Bad: return Err(Enum('ParseError', 'Invalid', {}))
def chars(v):
    cs = cl(deref(v))
    if cs is None: raise Unsupported(f'date-time text {v!r:.60}')
    return cs
EXT_FN['DateTime::parse_from_rfc3339'] = lambda it, a, c: wrap(lambda: p3339(chars(a[0])))
EXT_FN['DateTime::parse_from_rfc2822'] = lambda it, a, c: wrap(lambda: p2822(chars(a[0])))
EXT_FN['DateTime::parse_from_str'] = lambda it, a, c: wrap(lambda: pfmt(chars(a[0]), deref(a[1]), True))
EXT_FN['NaiveDateTime::parse_from_str'] = lambda it, a, c: wrap(lambda: pfmt(chars(a[0]), deref(a[1]), False))
EXT_FN['DateTime::from_naive_utc_and_offset'] = lambda it, a, c: DT(deref(a[0]).s, deref(a[0]).ns, tz(a[1]))
EXT_FN['DateTime::from_utc'] = EXT_FN['DateTime::from_naive_utc_and_offset']
EXT_FN['DateTime::from'] = lambda it, a, c: DT(deref(a[0]).s, deref(a[0]).ns, 0)
EXT_FN['Utc::from_utc_datetime'] = lambda it, a, c: DT(deref(a[-1]).s, deref(a[-1]).ns, 0)
EXT_FN['FixedOffset::east_opt'] = lambda it, a, c: Some(Off(ival(a[0]))) if br(land(ival(a[0]) > -86400, ival(a[0]) < 86400)) else NONE()
EXT_FN['FixedOffset::west_opt'] = lambda it, a, c: Some(Off(-ival(a[0]))) if br(land(ival(a[0]) > -86400, ival(a[0]) < 86400)) else NONE()
def _fts(it, a, c):
    return Some(DT(ival(a[0]), ival(a[1]), 0))
EXT_FN['DateTime::from_timestamp'] = _fts
def _fms(it, a, c):
    v = ival(a[0]); s = div(v, 1000); return Some(DT(s, (v - s * 1000) * 10**6, 0))
EXT_FN['DateTime::from_timestamp_millis'] = _fms
