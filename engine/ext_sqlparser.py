"""sqlparser identifiers / object names, DataFusion table references."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS, EXT_STRUCT
from .symchars import cl, code, from_cl
br = lambda c: Ctx.cur.branch(c)
def ident(value, quote=None): return Struct('Ident', {'value': value, 'quote_style': opt(Char(quote) if quote else None), 'span': Opaque('Span')})
def objname(*ids): return Struct('ObjectName', {'0': Vec(list(ids))})
EXT_FN['Ident::new'] = lambda it, a, c: ident(deref(a[0]))
def _iwq(it, a, c): return ident(deref(a[1]), deref(a[0]).c)
EXT_FN['Ident::with_quote'] = _iwq
EXT_FN['Ident::from'] = lambda it, a, c: ident(deref(a[0]))
def ident_text(it, v):
    q = deref(v.f['quote_style'])
    if q.var == 'None': return it.to_text(v.f['value'])
    ch = deref(q.f['0']).c
    cs = cl(deref(v.f['value']))
    if cs is None: raise Unsupported('display of a quoted opaque identifier')
    if ch == '[': return from_cl([Char('[')] + cs + [Char(']')])
    out = [Char(ch)]
    for x in cs:
        out.append(x)
        if br(mkb(code(x) == ord(ch))): out.append(x)
    out.append(Char(ch))
    return from_cl(out)
def mkb(x): return x if isinstance(x, bool) else mkbool(x)
METHODS[('Ident', 'display')] = lambda it, v, a, c: ident_text(it, v)
METHODS[('ObjectName', 'display')] = lambda it, v, a, c: mktext([y for i, x in enumerate(deref(v.f['0']).a) for y in (['.'] if i else []) + [ident_text(it, deref(x))]])
METHODS[('Ident', 'eq')] = lambda it, v, a, c: ident_eq(v, deref(a[0]))
def ident_eq(a, b): return band(eq(a.f['value'], b.f['value']), eq(a.f['quote_style'], b.f['quote_style']))

# ------------------------------------------------------------------ TableReference
def bare(t): return Enum('TableReference', 'Bare', {'table': t})
def partial(s, t): return Enum('TableReference', 'Partial', {'schema': s, 'table': t})
def full(c, s, t): return Enum('TableReference', 'Full', {'catalog': c, 'schema': s, 'table': t})
def lower(x):
    k = code(x)
    if isinstance(k, int): return Char(chr(k).lower() if k < 128 else chr(k))
    from .symchars import symchar
    if br(mkb(z3.And(k >= 65, k <= 90))): return Char(k + 32)
    return x
def ascii_lower(t):
    cs = cl(deref(t))
    if cs is None: raise Unsupported('lower case of an opaque string')
    return from_cl([lower(x) for x in cs])
def split_ident(t):
    """[(text, quoted)] or None when the text is not a multipart identifier (parse_multipart_identifier, GenericDialect)"""
    cs = cl(deref(t))
    if cs is None: raise Unsupported(f'table reference {t!r:.60}')
    i = 0; out = []; n = len(cs)
    isc = lambda i, ch: i < n and br(mkb(code(cs[i]) == ord(ch)))
    def cls(i, f): return i < n and br(mkb(f(code(cs[i]))))
    OR = lambda *a: (any(a) if all(isinstance(x, bool) for x in a) else z3.Or(*[x if z3.is_expr(x) else z3.BoolVal(x) for x in a]))
    AND = lambda *a: (all(a) if all(isinstance(x, bool) for x in a) else z3.And(*[x if z3.is_expr(x) else z3.BoolVal(x) for x in a]))
    start = lambda k: OR(AND(k >= 97, k <= 122), AND(k >= 65, k <= 90), k == 95, k == 35, k == 64)
    part = lambda k: OR(start(k), AND(k >= 48, k <= 57), k == 36)
    while True:
        if i >= n: return None
        if isc(i, '"') or isc(i, '`'):
            q = '"' if isc(i, '"') else '`'
            i += 1; w = []
            while True:
                if i >= n: return None
                if isc(i, q):
                    if isc(i + 1, q): w.append(cs[i]); i += 2; continue
                    i += 1; break
                w.append(cs[i]); i += 1
            out.append((w, True))
        elif cls(i, start):
            w = [cs[i]]; i += 1
            while cls(i, part): w.append(cs[i]); i += 1
            out.append((w, False))
        else: return None
        if i == n: return out
        if not isc(i, '.'): return None
        i += 1
def parse_ref(it, v):
    v = deref(v)
    if type(v) is Enum and v.ty == 'TableReference': return v
    if type(v) is Struct and v.ty == 'ResolvedTableReference': return full(v.f['catalog'], v.f['schema'], v.f['table'])
    if type(v) is Struct and v.ty == 'ObjectName': raise Unsupported('TableReference from ObjectName')
    parts = split_ident(v)
    ps = [from_cl(w if q else [lower(x) for x in w]) for w, q in (parts or [])]
    if len(ps) == 1: return bare(*ps)
    if len(ps) == 2: return partial(*ps)
    if len(ps) == 3: return full(*ps)
    return bare(v)
for _n in ('from', 'parse_str'): EXT_FN['TableReference::' + _n] = lambda it, a, c: parse_ref(it, a[0])
EXT_FN['TableReference::bare'] = lambda it, a, c: bare(deref(a[0]))
EXT_FN['TableReference::partial'] = lambda it, a, c: partial(deref(a[0]), deref(a[1]))
EXT_FN['TableReference::full'] = lambda it, a, c: full(deref(a[0]), deref(a[1]), deref(a[2]))
def resolve(v, cat, sch):
    if v.var == 'Bare': return Struct('ResolvedTableReference', {'catalog': cat, 'schema': sch, 'table': v.f['table']})
    if v.var == 'Partial': return Struct('ResolvedTableReference', {'catalog': cat, 'schema': v.f['schema'], 'table': v.f['table']})
    return Struct('ResolvedTableReference', dict(v.f))
METHODS[('TableReference', 'resolve')] = lambda it, v, a, c: resolve(v, deref(a[0]), deref(a[1]))
METHODS[('TableReference', 'table')] = lambda it, v, a, c: v.f['table']
METHODS[('TableReference', 'schema')] = lambda it, v, a, c: Some(v.f['schema']) if v.var != 'Bare' else NONE()
METHODS[('TableReference', 'catalog')] = lambda it, v, a, c: Some(v.f['catalog']) if v.var == 'Full' else NONE()
def ref_text(it, v):
    ks = [k for k in ('catalog', 'schema', 'table') if k in v.f]
    return mktext([y for i, k in enumerate(ks) for y in (['.'] if i else []) + [deref(v.f[k])]])
METHODS[('TableReference', 'display')] = lambda it, v, a, c: ref_text(it, v)
METHODS[('ResolvedTableReference', 'display')] = METHODS[('TableReference', 'display')]
