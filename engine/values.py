"""Runtime values of the symbolic executor."""
import z3
from .core import *

INT = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'u128': (0, 2**128-1),
       'usize': (0, 2**64-1), 'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1),
       'i64': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1), 'isize': (-2**63, 2**63-1)}
FLOATS = ('f32', 'f64')

class Int:
    __slots__ = ('v', 't')
    def __init__(self, v, t=None): self.v = v; self.t = t
    def __repr__(self): return f'{self.v}{self.t or ""}'
    def conc(self): return isinstance(self.v, int)

class Tup:
    __slots__ = ('a',)
    def __init__(self, a): self.a = list(a)
    def __repr__(self): return '(' + ', '.join(map(repr, self.a)) + ')'

def UNIT(): return Tup(())

class Char:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
    def __repr__(self): return f"'{self.c}'"

class SymStr:
    """symbolic string (z3 String term)"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return f'SymStr({self.e})'

class Text:
    """string assembled from known pieces and opaque/symbolic ones"""
    __slots__ = ('p',)
    def __init__(self, p):
        out = []
        for x in p:
            if isinstance(x, Text): out.extend(x.p)
            else: out.append(x)
        m = []
        for x in out:
            if isinstance(x, str) and m and isinstance(m[-1], str): m[-1] += x
            elif x != '' if isinstance(x, str) else True: m.append(x)
        self.p = m
    def __repr__(self): return 'Text' + repr(self.p)

def mktext(parts):
    t = Text(parts)
    if not t.p: return ''
    if len(t.p) == 1 and isinstance(t.p[0], (str, SymStr)): return t.p[0]
    return t

class Struct:
    __slots__ = ('ty', 'f', 'x')
    def __init__(self, ty, f): self.ty = ty; self.f = f
    def __repr__(self): return f'{tyname(self.ty)}{{' + ', '.join(f'{k}: {v!r}' for k, v in self.f.items()) + '}'

class Enum:
    __slots__ = ('ty', 'var', 'f')
    def __init__(self, ty, var, f=None): self.ty = ty; self.var = var; self.f = f if f is not None else {}
    def __repr__(self):
        if not self.f: return f'{tyname(self.ty)}::{self.var}'
        return f'{tyname(self.ty)}::{self.var}(' + ', '.join(f'{v!r}' if k.isdigit() else f'{k}: {v!r}' for k, v in self.f.items()) + ')'

def tyname(t): return t if isinstance(t, str) else t.name

class Vec:
    __slots__ = ('a', 'raw', 'k')
    def __init__(self, a, raw=False, k='Vec'): self.a = a; self.raw = raw; self.k = k
    def __repr__(self): return repr(self.a)

class Map:
    """HashMap/BTreeMap/IndexMap/HashSet...; entries keep insertion order"""
    __slots__ = ('k', 'e', 'set')
    def __init__(self, k='HashMap', e=None, set=False): self.k = k; self.e = e if e is not None else []; self.set = set
    def __repr__(self):
        if self.set: return '{' + ', '.join(repr(x[0]) for x in self.e) + '}'
        return '{' + ', '.join(f'{x[0]!r}: {x[1]!r}' for x in self.e) + '}'

class Ref:
    """mutable reference to a place"""
    __slots__ = ('get', 'set')
    def __init__(self, get, set): self.get = get; self.set = set
    def __repr__(self): return f'&mut {self.get()!r}'

class Cell:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class Shared:
    """interior mutability / guards: Mutex, RwLock, RefCell, Atomic*, Cell"""
    __slots__ = ('v', 'k', 'held')
    def __init__(self, v, k): self.v = v; self.k = k; self.held = 0
    def __repr__(self): return f'{self.k}({self.v!r})'

class Iter:
    __slots__ = ('g', 'buf', 'stream')
    def __init__(self, g, stream=False): self.g = iter(g); self.buf = []; self.stream = stream
    def __iter__(self): return self
    def __next__(self):
        if self.buf: return self.buf.pop(0)
        return next(self.g)

class Future:
    __slots__ = ('fn', 'done', 'v', 'name')
    def __init__(self, fn, name='future'): self.fn = fn; self.done = False; self.v = None; self.name = name
    def run(self):
        if not self.done:
            fn = self.fn; self.fn = None
            if fn is None: raise Unsupported('future re-entered')
            self.v = fn(); self.done = True
        return self.v

class Task:
    """tokio task"""
    __slots__ = ('fut', 'state', 'v', 'panic')
    def __init__(self, fut): self.fut = fut; self.state = 'pending'; self.v = None; self.panic = None

class Fn:
    """function value; call(args)->value"""
    __slots__ = ('call', 'name')
    def __init__(self, call, name='closure'): self.call = call; self.name = name
    def __repr__(self): return f'<fn {self.name}>'

class Opaque:
    """external value nothing is known about except its identity"""
    __slots__ = ('name', 'f')
    def __init__(self, name, **f): self.name = name; self.f = f
    def __repr__(self): return f'<{self.name}>'

class Obj:
    """base of Python-modelled external objects. methods: m_<name>(self, it, *args)"""
    tname = None
    def __repr__(self): return f'<{type(self).__name__}>'

class Ty:
    """a Rust type"""
    __slots__ = ('n', 'a', 'd')
    def __init__(self, n, a=(), d=None): self.n = n; self.a = tuple(a); self.d = d   # d: TypeDef for repo types
    def __repr__(self): return self.n + ('<' + ', '.join(map(repr, self.a)) + '>' if self.a else '')

def Some(v): return Enum('Option', 'Some', {'0': v})
def NONE(): return Enum('Option', 'None', {})
def Ok(v): return Enum('Result', 'Ok', {'0': v})
def Err(v): return Enum('Result', 'Err', {'0': v})
def opt(v): return NONE() if v is None else Some(v)

def deref(v):
    while type(v) is Ref: v = v.get()
    return v

def is_sym(v):
    return z3.is_expr(v)

def ival(v):
    """python int or z3 term of an Int value"""
    v = deref(v)
    if type(v) is Int: return v.v
    raise Unsupported(f'integer expected, got {v!r}')

def cint(v, what='integer'):
    x = ival(v)
    if isinstance(x, int): return x
    x = z3.simplify(x)
    if z3.is_int_value(x): return x.as_long()
    # unique value under the path condition?
    ctx = Ctx.cur
    m = ctx.model().eval(x, model_completion=True)
    if not ctx.sat(x != m): return m.as_long()
    # fork over values (small domains only)
    for i in range(64):
        m = ctx.model().eval(x, model_completion=True)
        if ctx.branch(x == m): return m.as_long()
    raise Unsupported(f'symbolic {what}: {x}')

def mkbool(a):
    if is_sym(a):
        a2 = z3.simplify(a)
        if z3.is_true(a2): return True
        if z3.is_false(a2): return False
        return a2
    return a

def band(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def bor(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def bnot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)

def strterm(v):
    v = deref(v)
    if isinstance(v, str): return z3.StringVal(v)
    if type(v) is SymStr: return v.e
    if type(v) is Char: return z3.StringVal(v.c) if isinstance(v.c, str) else z3.StrFromCode(v.c)
    if type(v) is Text:
        parts = [strterm(p) if not isinstance(p, Int) else z3.IntToStr(p.v) for p in v.p]
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    raise Unsupported(f'string expected, got {v!r}')

CL = SEQ_EQ = None
def text_eq(a, b):
    """equality of strings where either may have symbolic pieces"""
    if isinstance(a, str) and isinstance(b, str): return a == b
    if type(a) is Text and type(b) is Text and len(a.p) == len(b.p):
        # piecewise identical?
        same = True
        for x, y in zip(a.p, b.p):
            if isinstance(x, str) and isinstance(y, str) and x == y: continue
            if x is y: continue
            if isinstance(x, Int) and isinstance(y, Int) and (x.v is y.v or (is_sym(x.v) and is_sym(y.v) and x.v.eq(y.v))): continue
            if type(x) is SymStr and type(y) is SymStr and x.e.eq(y.e): continue
            same = False; break
        if same: return True
    if any(type(x) is Text and any(type(p) is Char for p in x.p) for x in (a, b)):
        ca, cb = CL(a), CL(b)
        if ca is not None and cb is not None: return SEQ_EQ(ca, cb)
    for x in (a, b):
        if type(x) is Text and any(not isinstance(p, (str, SymStr, Int, Char)) for p in x.p):
            raise Unsupported('comparison of text with opaque parts')
    return mkbool(strterm(a) == strterm(b))

def eq(a, b, it=None):
    """structural equality -> python bool or z3 Bool"""
    a = deref(a); b = deref(b)
    if a is b: 
        if isinstance(a, float) and a != a: return False
        return True
    ta, tb = type(a), type(b)
    if ta is Int and tb is Int:
        if isinstance(a.v, int) and isinstance(b.v, int): return a.v == b.v
        return mkbool(a.v == b.v)
    if ta is bool and tb is bool: return a == b
    if (ta is bool or z3.is_bool(a)) and (tb is bool or z3.is_bool(b)):
        if ta is bool: return b if a else mkbool(z3.Not(b))
        if tb is bool: return a if b else mkbool(z3.Not(a))
        return mkbool(a == b)
    if ta in (str, SymStr, Text) and tb in (str, SymStr, Text): return text_eq(a, b)
    if ta is float or tb is float:
        if ta is Int: a = float(a.v)
        if tb is Int: b = float(b.v)
        return mkbool(a == b)
    if ta is Char and tb is Char: return SEQ_EQ([a], [b])
    if it is not None:
        h = it.user_method(a, 'eq')
        if h is not None: return it.call_method_def(h, a, [b])
    if ta is Struct and tb is Struct:
        if tyname(a.ty) != tyname(b.ty) or a.f.keys() != b.f.keys(): return False
        return band(*[eq(a.f[k], b.f[k], it) for k in a.f])
    if ta is Enum and tb is Enum:
        if tyname(a.ty) != tyname(b.ty) and not (isinstance(a.ty, str) or isinstance(b.ty, str)): return False
        if a.var != b.var or a.f.keys() != b.f.keys(): return False
        return band(*[eq(a.f[k], b.f[k], it) for k in a.f])
    if ta is Tup and tb is Tup:
        if len(a.a) != len(b.a): return False
        return band(*[eq(x, y, it) for x, y in zip(a.a, b.a)])
    if ta is Vec and tb is Vec:
        if len(a.a) != len(b.a): return False
        return band(*[eq(x, y, it) for x, y in zip(a.a, b.a)])
    if ta is Map and tb is Map:
        if len(a.e) != len(b.e): return False
        out = []
        for k, v in [(x[0], x[1]) for x in a.e]:
            cs = []
            for k2, v2 in [(x[0], x[1]) for x in b.e]:
                ek = eq(k, k2, it)
                if ek is False: continue
                cs.append(band(ek, True if a.set else eq(v, v2, it)))
            out.append(bor(*cs))
        return band(*out)
    if ta is Shared and tb is Shared: return eq(a.v, b.v, it)
    for x, y in ((a, b), (b, a)):
        m = getattr(x, 'eq_', None)
        if m is not None: return m(y)
    if isinstance(a, Obj) and isinstance(b, Obj): return False
    if ta is Opaque and tb is Opaque: return a.name == b.name and all(eq(a.f[k], b.f.get(k), it) is True for k in a.f)
    if a is None and b is None: return True
    if a is None or b is None: return False
    raise Unsupported(f'equality of {a!r} and {b!r}')

def clone(v):
    """deep copy, as Rust's Clone (Arc-like objects are Obj/Shared and stay shared)"""
    t = type(v)
    if t is Ref: return clone(v.get())
    if t is Struct:
        r = Struct(v.ty, {k: clone(x) for k, x in v.f.items()})
        if hasattr(v, 'x'): r.x = v.x
        return r
    if t is Enum: return Enum(v.ty, v.var, {k: clone(x) for k, x in v.f.items()})
    if t is Tup: return Tup([clone(x) for x in v.a])
    if t is Vec: return Vec([clone(x) for x in v.a], v.raw, v.k)
    if t is Map: return Map(v.k, [[clone(x[0]), clone(x[1])] for x in v.e], v.set)
    if t is Iter:
        rest = list(v); v.g = iter(rest); return Iter(list(rest))
    m = getattr(v, 'clone_', None)
    if m is not None: return m()
    return v

def copyval(v):
    """by-value use of a place (move or Copy): detach small aggregates"""
    t = type(v)
    if t is Tup: return Tup([copyval(x) for x in v.a])
    if t is Enum and v.f: return Enum(v.ty, v.var, {k: copyval(x) for k, x in v.f.items()})
    if t is Struct and v.ty is not None and getattr(v.ty, 'copy', False):
        return Struct(v.ty, {k: copyval(x) for k, x in v.f.items()})
    return v

def become(dst, src):
    """*dst = src for heap objects"""
    src = deref(src)
    if type(dst) is not type(src): 
        return False
    t = type(dst)
    if t is Struct: dst.ty = src.ty; dst.f = dict(src.f); return True
    if t is Enum: dst.ty = src.ty; dst.var = src.var; dst.f = dict(src.f); return True
    if t is Tup: dst.a = list(src.a); return True
    if t is Vec: dst.a = list(src.a); dst.k = src.k; return True
    if t is Map: dst.e = list(src.e); dst.k = src.k; dst.set = src.set; return True
    return False

def ckey(v):
    """canonical hashable key for fully concrete values, else None"""
    v = deref(v); t = type(v)
    if t is str: return ('s', v)
    if t is bool: return ('b', v)
    if t is Int: return ('i', v.v) if isinstance(v.v, int) else None
    if t is Char: return ('c', v.c) if isinstance(v.c, str) else None
    return None
