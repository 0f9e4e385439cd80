"""AST -> closures; the symbolic interpreter."""
import sys, re, functools
import z3
from .values import *
from .program import *
sys.setrecursionlimit(60000)

class ReturnEx(Exception):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class BreakEx(Exception):
    def __init__(self, label, v): self.label = label; self.v = v
class ContinueEx(Exception):
    def __init__(self, label): self.label = label

EXT_FN = {}        # 'A::b' or 'b' -> f(it, args, c)
METHODS = {}       # (pyclass or name, method) -> f(it, v, args, c)
ANY_METHODS = {}   # method -> f
MACROS = {}
CONSTS = {}        # 'A::B' -> value factory
EXT_STRUCT = {}    # struct literal of external type -> f(it, fields)

ARG_HINT = {'increment': 'u64', 'absolute': 'u64'}   # argument types of external methods, where a conversion's target depends on them
def ext(*names):
    def d(f):
        for n in names: EXT_FN[n] = f
        return f
    return d
def method(cls, *names):
    def d(f):
        for c in (cls if isinstance(cls, (tuple, list)) else (cls,)):
            for n in names: METHODS[(c, n)] = f
        return f
    return d
def anymethod(*names):
    def d(f):
        for n in names: ANY_METHODS[n] = f
        return f
    return d

class CC:
    """call context handed to models"""
    __slots__ = ('hint', 'tf', 'place', 'line', 'file', 'path')
    def __init__(self, hint=None, tf=None, place=None, line=0, file='', path=()):
        self.hint = hint; self.tf = tf; self.place = place; self.line = line; self.file = file; self.path = path

class OpaquePiece:
    def __init__(self, v): self.v = v
    def __repr__(self): return f'<{type(self.v).__name__}>'

def tname(v):
    v = deref(v); t = type(v)
    if t is Struct or t is Enum: return tyname(v.ty)
    if t is Int: return v.t or 'i32'
    if t in (str, SymStr, Text): return 'String'
    if t is bool or z3.is_bool(v): return 'bool'
    if t is float or (is_sym(v) and v.is_real()): return 'f64'
    if t is Tup: return 'tuple'
    if t is Vec: return v.k
    if t is Map: return v.k
    if t is Char: return 'char'
    if t is Shared: return v.k
    if t is Iter: return 'Iter'
    if t is Opaque: return v.name
    if t is Fn: return 'fn'
    if isinstance(v, Obj): return v.tname or t.__name__
    return t.__name__

PRIMS = (str, bool, Int, float, SymStr, Text, Char)

class Interp:
    def __init__(self, prog):
        self.p = prog
        self.overrides = {}      # qualified or bare fn name -> f(it, args, c) replacing a repo function
        self.depth = 0
        self.consts = {}
        self.implicit_yield = None
        self.gstack = [];

    # ------------------------------------------------------------ dispatch
    def typedef(self, v):
        t = type(v)
        if (t is Struct or t is Enum) and not isinstance(v.ty, str): return v.ty
        return None

    def user_method(self, v, name):
        v = deref(v)
        td = self.typedef(v)
        if td is not None:
            m = td.methods.get(name)
            if m is not None: return m
            for trn in td.traits:
                for trd in self.p.traits_by_name.get(trn, ()):
                    if name in trd.defaults:
                        x, tm = trd.defaults[name]
                        return FnDef(name, x, tm, self.p, Ty(td.name, (), td), td, trn)
                    for sup in trd.node.get('supers', []):
                        for s in self.p.traits_by_name.get(sup[-1][0], ()):
                            if name in s.blanket: return s.blanket[name]
        else:
            for n in ((tname(v),) if type(v) not in (str, SymStr, Text) else ('String', 'str')):
                ms = self.p.ext_methods.get(n)
                if ms and name in ms: return ms[name]
        for trs in self.p.traits_by_name.values():
            for trd in trs:
                if name in trd.blanket: return trd.blanket[name]
        return None

    def call_method_def(self, d, recv, args, c=None):
        return self.call_def(d, [recv] + list(args), c)

    def call_def(self, d, args, c=None):
        ov = self.overrides.get(d.qname) or self.overrides.get((d.owner.name + '::' + d.name) if d.owner is not None and hasattr(d.owner, 'name') else d.name)
        if ov is not None: return ov(self, args, c or CC())
        if d.code is None:
            if d.node['body'] is None: raise Unsupported(f'call of required trait method {d.qname}')
            d.code = FnCompiler(self, d).compile()
        code = d.code
        Ctx.cur.stats.functions.add(d.qname)
        fr = [None] * code.n
        pt = d.types()
        if len(args) != len(code.params): raise Unsupported(f'{d.qname}: arity {len(args)} vs {len(code.params)}')
        for i, b in enumerate(code.params):
            a = args[i]
            if pt[i] is not None: a = self.coerce(a, pt[i])
            if not b(fr, a, None, False): raise Unsupported('refutable parameter')
        gb = None
        if d.generics and c is not None and c.tf:
            gb = dict(zip(d.generics, [self.gsub(t) for t in c.tf]))
        def go():
            if gb is not None: self.gstack.append(gb)
            try:
                self.depth += 1; Ctx.cur.user.setdefault('fstack', []).append(d)
                if self.depth > 400: raise Unsupported('recursion depth')
                return self.coerce(code.body(fr), d.ret)
            except ReturnEx as r: return self.coerce(r.v, d.ret)
            finally:
                self.depth -= 1; Ctx.cur.user['fstack'].pop()
                if gb is not None: self.gstack.pop()
        if d.is_async: return Future(go, d.qname)
        return go()

    def gsub(self, t):
        """a type with the generic parameters in scope replaced"""
        if t is None or not self.gstack: return t
        g = self.gstack[-1]
        if t.d is None and t.n in g: return g[t.n]
        if t.a: return Ty(t.n, [self.gsub(x) for x in t.a], t.d)
        return t

    def call_fn(self, name, *args, module=None):
        """harness entry: call a repo function by (module path, name)"""
        d = self.find_fn(name)
        return self.await_(self.call_def(d, list(args)))

    def find_fn(self, name):
        segs = name.split('::')
        for m in self.p.modules.values():
            pre = '::'.join(m.path)
            if pre == '::'.join(segs[:-1]):
                d = m.items.get(('fn', segs[-1]))
                if d is not None: return d
            if pre == '::'.join(segs[:-2]):
                td = m.items.get(('type', segs[-2]))
                if isinstance(td, TypeDef) and segs[-1] in td.assoc: return td.assoc[segs[-1]][0]
        raise Unsupported(f'function {name} not found in the tree')

    def find_type(self, name):
        segs = name.split('::')
        if len(segs) == 1:
            l = self.p.types_by_name.get(name, [])
            if len(l) == 1: return l[0]
            raise Unsupported(f'type {name} not found or ambiguous')
        m = self.p.modules.get(tuple(segs[:-1]))
        d = m.items.get(('type', segs[-1])) if m else None
        if not isinstance(d, TypeDef): raise Unsupported(f'type {name} not found in the tree')
        return d

    def mk(self, tname_, **f):
        td = self.find_type(tname_)
        ft = td.field_types(self.p)
        miss = [k for k in ft if k not in f]
        for k in miss: f[k] = self.default_of(ft[k])
        extra = [k for k in f if k not in ft]
        if extra: raise Unsupported(f'{tname_} has no field {extra}')
        return Struct(td, {k: self.coerce(v, ft[k]) for k, v in f.items()})

    def mke(self, tname_, var, *a, **f):
        td = self.find_type(tname_)
        if var not in td.variants: raise Unsupported(f'{tname_} has no variant {var}')
        if a: f = {str(i): x for i, x in enumerate(a)}
        return Enum(td, var, f)

    def method(self, v, name, *args):
        """harness entry: method call, awaited"""
        return self.await_(self.call_method(v, name, list(args)))

    def call(self, f, args, c=None):
        f = deref(f)
        if type(f) is Fn: return f.call(args)
        if isinstance(f, FnDef): return self.call_def(f, args, c)
        if type(f) is Enum and not f.f and f.var: return Enum(f.ty, f.var, {str(i): x for i, x in enumerate(args)})
        if callable(f): return f(*args)
        m = getattr(f, 'call_', None)
        if m: return m(self, args)
        raise Unsupported(f'call of {f!r}')

    def call_method(self, v, name, args, c=None):
        """v: value or Ref"""
        c = c or CC()
        r = v
        place = c.place
        while type(r) is Ref: place = r; r = r.get()
        return self._dispatch(r, place, name, args, c)

    def _dispatch(self, v, place, name, args, c):
        t = type(v)
        # user defined
        if t is Struct or t is Enum or True:
            d = self.user_method(v, name)
            if d is not None and d.selfkind is not None and not (name in ('clone', 'eq') and d.trait is None and False):
                sk = d.selfkind
                if sk == 'refmut': recv = place if place is not None and not (t is Struct) else v
                elif sk == 'value': recv = copyval(v)
                else: recv = v
                return self.call_def(d, [recv] + args, c)
        c.place = place
        for cls in t.__mro__ if isinstance(v, Obj) else (t,):
            f = METHODS.get((cls, name))
            if f is not None: return f(self, v, args, c)
        if t is Struct or t is Enum or t is Opaque:
            f = METHODS.get((tname(v), name))
            if f is not None: return f(self, v, args, c)
        if is_sym(v):
            f = METHODS.get((bool if z3.is_bool(v) else float, name))
            if f is not None: return f(self, v, args, c)
        m = getattr(v, 'm_' + name, None)
        if m is not None and isinstance(v, Obj): return m(self, args, c)
        f = ANY_METHODS.get(name)
        if f is not None:
            r = f(self, v, args, c)
            if r is not NotImplemented: return r
        # Deref of repo types
        td = self.typedef(v)
        if td is not None and 'deref' in td.methods:
            return self.call_method(self.call_def(td.methods['deref'], [v]), name, args, c)
        # field holding closure? no.
        if isinstance(v, Obj) and hasattr(v, 'method_missing'): return v.method_missing(self, name, args, c)
        raise Unsupported(f'method {name} on {tname(v)} ({v!r:.80}) at {c.file}:{c.line}')

    # ------------------------------------------------------------ async
    def await_(self, v):
        v = deref(v)
        if type(v) is Future:
            return v.run()
        if type(v) is Task:
            return self.join(v)
        m = getattr(v, 'await_', None)
        if m is not None and isinstance(v, Obj): return m(self)
        return v

    def spawn(self, fut):
        t = Task(fut); Ctx.cur.tasks.append(t)
        return t

    def run_task(self, t):
        if t.state != 'pending': return
        t.state = 'running'
        try: t.v = self.await_(t.fut)
        except Panic as p: t.panic = p
        t.state = 'done'
        if t in Ctx.cur.tasks: Ctx.cur.tasks.remove(t)

    def join(self, t):
        if t.state == 'running': raise Unsupported('task awaits itself')
        if t.state == 'aborted': return Err(Enum('JoinError', 'Cancelled'))
        self.run_task(t)
        if t.panic is not None: return Err(Enum('JoinError', 'Panic', {'0': t.panic.msg}))
        return Ok(t.v)

    def sched(self):
        """scheduling point: any subset of the pending tasks may run now, in any order"""
        ctx = Ctx.cur
        if not ctx.interleave: return
        while True:
            p = [t for t in ctx.tasks if t.state == 'pending']
            if not p: return
            k = ctx.choose(len(p) + 1, 'sched')
            if k == 0: return
            self.run_task(p[k - 1])

    def run_pending(self):
        while True:
            p = [t for t in Ctx.cur.tasks if t.state == 'pending']
            if not p: return
            self.run_task(p[0])

    # ------------------------------------------------------------ types
    def coerce(self, v, ty):
        if ty is None: return v
        t = type(v)
        if t is Int:
            if v.t is None and ty.n in INT: return Int(v.v, ty.n)
            if v.t is None and ty.n in FLOATS: return float(v.v)
            return v
        if t is Vec:
            if v.raw: return self.collect_into(v.a, ty)
            if ty.n == 'Vec' and ty.a and ty.a[0].n in INT:
                for i, x in enumerate(v.a):
                    if type(x) is Int and x.t is None: v.a[i] = Int(x.v, ty.a[0].n)
            return v
        if t is Enum and v.f:
            if ty.n in ('Option', 'Poll') and ty.a and v.var in ('Some', 'Ready'):
                x = v.f['0']; y = self.coerce(x, ty.a[0])
                if y is not x: v.f['0'] = y
            elif ty.n == 'Result' and ty.a and v.var == 'Ok':
                x = v.f['0']; y = self.coerce(x, ty.a[0])
                if y is not x: v.f['0'] = y
            return v
        if t is Tup and ty.n == 'tuple' and len(ty.a) == len(v.a):
            for i, x in enumerate(v.a):
                y = self.coerce(x, ty.a[i])
                if y is not x: v.a[i] = y
        return v

    def collect_into(self, items, ty):
        n = ty.n if ty is not None else None
        if n in ('HashMap', 'BTreeMap', 'IndexMap', 'Map', 'DashMap'):
            m = Map(n)
            for x in items:
                x = deref(x)
                self.map_insert(m, x.a[0], x.a[1])
            return m
        if n in ('HashSet', 'BTreeSet', 'IndexSet'):
            m = Map(n, set=True)
            for x in items: self.map_insert(m, x, True)
            return m
        if n == 'String':
            return mktext([self.to_text(x) for x in items])
        if n in ('Result', 'Option'):
            out = []
            good = 'Ok' if n == 'Result' else 'Some'
            for x in items:
                x = deref(x)
                if type(x) is not Enum: raise Unsupported('collect into Result of ' + repr(x))
                if x.var != good: return Enum(x.ty, x.var, dict(x.f))
                out.append(x.f['0'])
            if ty.a and ty.a[0].n == 'tuple': return Enum(n, good, {'0': UNIT()})
            return Enum(n, good, {'0': self.collect_into(out, ty.a[0] if ty.a else None)})
        if n in ('VecDeque', 'Bytes', 'BytesMut'): return Vec(list(items), k='VecDeque' if n == 'VecDeque' else 'Vec')
        if n == 'Fields' or n in ('Vec', 'Array'): return Vec(self.co_list(items, ty))
        if ty is not None and ty.d is not None and 'from_iter' in ty.d.methods:
            return self.call_def(ty.d.methods['from_iter'], [Vec(list(items))])
        f = EXT_FN.get(f'{n}::from_iter')
        if f: return f(self, [Vec(list(items))], CC(hint=ty))
        if n in (None, '?', 'Infer', 'Impl', 'Self') or True:
            return Vec(list(items), raw=(n not in ('Vec',)))

    def co_list(self, items, ty):
        if ty.a and ty.a[0].n in INT: return [self.coerce(x, ty.a[0]) for x in items]
        return list(items)

    def default_of(self, ty):
        if ty is None: raise Unsupported('default of unknown type')
        n = ty.n
        if ty.d is not None:
            d = ty.d
            if 'default' in d.methods: return self.call_def(d.methods['default'], [])
            if d.kind == 'struct': return Struct(d, {k: self.default_of(t) for k, t in d.field_types(self.p).items()})
            for v in d.node['variants']:
                if any(a.strip() == 'default' for a in v[3]): return Enum(d, v[0], {})
            raise Unsupported(f'default of {n}')
        if n in INT: return Int(0, n)
        if n in FLOATS: return 0.0
        if n == 'bool': return False
        if n in ('String', 'str'): return ''
        if n == 'Option': return NONE()
        if n in ('Vec', 'VecDeque'): return Vec([], k=n)
        if n in ('HashMap', 'BTreeMap', 'IndexMap'): return Map(n)
        if n in ('HashSet', 'BTreeSet', 'IndexSet'): return Map(n, set=True)
        if n == 'tuple': return Tup([self.default_of(x) for x in ty.a])
        if n in ('RwLock', 'Mutex', 'RefCell'): return Shared(self.default_of(ty.a[0]), n)
        if n.startswith('Atomic'): return Shared(self.coerce(Int(0), Ty(n[6:].lower())) if n != 'AtomicBool' else False, n)
        f = EXT_FN.get(n + '::default') or EXT_FN.get(n + '::new')
        if f is not None: return f(self, [], CC(hint=ty))
        raise Unsupported(f'default of {ty}')

    def matches_ty(self, v, ty):
        """does the dynamic value have this type? True/False/None(unknown)"""
        v = deref(v)
        if ty.d is not None: return self.typedef(v) is ty.d
        n = ty.n; tn = tname(v)
        if n == tn: return True
        if n in ('str', 'String') and tn == 'String': return True
        if type(v) is Int and n in INT: return v.t is None or v.t == n
        if n in ('?', 'Self') : return None
        return False

    # ------------------------------------------------------------ conversion
    def convert_err(self, e, ty):
        if ty is None: return e
        if ty.d is not None:
            td = self.typedef(e)
            if td is ty.d: return e
            fs = [f for f in ty.d.assoc.get('from', [])]
            for f in fs:
                if self.matches_ty(e, f.types()[0]): return self.call_def(f, [e])
            if ty.d.kind == 'enum':
                for vn, v in ty.d.variants.items():
                    for fl in v[1][1]:
                        if any(a.strip() == 'from' for a in fl[2]):
                            ft = self.p.ty(fl[1], ty.d.module, ty.d)
                            if self.matches_ty(e, ft): return Enum(ty.d, vn, {fl[0]: e})
            return e
        n = ty.n
        if tname(e) == n: return e
        for (kind, tgt, src, f) in self.p.from_impls:
            if kind == 'From' and tgt.n == n and tgt.d is None and self.matches_ty(e, src): return self.call_def(f, [e])
            if kind == 'Into' and tgt.n == n and self.matches_ty(e, src): return self.call_def(f, [e])
        f = EXT_FN.get(f'{n}::from_error')
        if f: return f(self, [e], CC())
        return e

    def into(self, v, hint):
        v0 = deref(v)
        if hint is not None and hint.n not in ('?', 'Impl', 'Self', 'Into'):
            if hint.d is not None:
                if self.typedef(v0) is hint.d: return v0
                for f in hint.d.assoc.get('from', []):
                    if f.trait == 'From' and self.matches_ty(v0, f.types()[0]): return self.call_def(f, [v0])
            for (kind, tgt, src, f) in self.p.from_impls:
                if tgt.n == hint.n and tgt.d is hint.d and kind in ('From', 'Into') and self.matches_ty(v0, src): return self.call_def(f, [v0])
            if hint.n in INT and type(v0) is Int: return Int(v0.v, hint.n)
            if hint.n in INT and (isinstance(v0, bool) or z3.is_bool(v0)):
                return Int(int(v0), hint.n) if isinstance(v0, bool) else Int(z3.If(v0, 1, 0), hint.n)
            if hint.n in FLOATS and type(v0) is Int: return float(v0.v) if v0.conc() else z3.ToReal(v0.v)
            if hint.n == 'Option' and not (type(v0) is Enum and v0.ty == 'Option'): return Some(self.into(v0, hint.a[0] if hint.a else None))
            f = EXT_FN.get(f'{hint.n}::from')
            if f is not None and tname(v0) != hint.n: return f(self, [v0], CC(hint=hint))
            return v0
        td = self.typedef(v0)
        if td is not None:
            c = [(t, f) for (k, t, s, f) in self.p.from_impls if k in ('From', 'Into') and s.d is td]
            if len(c) == 1: return self.call_def(c[0][1], [v0])
        return v0

    # ------------------------------------------------------------ containers
    def map_find(self, m, k):
        """index of key k in m.e, or -1 (forks on symbolic equality)"""
        ck = ckey(k)
        for i, en in enumerate(m.e):
            if ck is not None:
                c2 = ckey(en[0])
                if c2 is not None:
                    if c2 == ck: return i
                    continue
            if Ctx.cur.branch(eq(en[0], k, self)): return i
        return -1
    def map_insert(self, m, k, v):
        k = deref(k)
        i = self.map_find(m, k)
        if i >= 0:
            old = m.e[i][1]; m.e[i][1] = v; return Some(old)
        if m.k.startswith('BTree'):
            j = 0
            while j < len(m.e) and self.lt(m.e[j][0], k): j += 1
            m.e.insert(j, [k, v])
        else: m.e.append([k, v])
        return NONE()
    def iter_of(self, v):
        """iterator over a value in a for loop"""
        if type(v) is Ref:
            inner = deref(v)
            if type(inner) is Vec: return self.vec_refs(inner)
            if type(inner) is Map: return self.map_refs(inner)
            if type(inner) is Iter: return inner
            v = inner
        t = type(v)
        if t is Vec: return iter(list(v.a))
        if t is Iter: return v
        if t is Map: return iter([x[0] for x in v.e] if v.set else [Tup([x[0], x[1]]) for x in v.e])
        if t is Struct and v.ty == 'Range': return self.range_iter(v)
        if t is Enum and v.ty == 'Option': return iter([v.f['0']] if v.var == 'Some' else [])
        if t is Enum and v.ty == 'Result': return iter([v.f['0']] if v.var == 'Ok' else [])
        td = self.typedef(v)
        if td is not None:
            if 'next' in td.methods:
                def g():
                    while True:
                        r = self.call_def(td.methods['next'], [v])
                        if r.var == 'None': return
                        yield r.f['0']
                return g()
            if 'into_iter' in td.methods: return self.iter_of(self.call_def(td.methods['into_iter'], [v]))
        m = getattr(v, 'iter_', None)
        if m is not None: return iter(m(self))
        raise Unsupported(f'iteration over {v!r:.100}')
    def vec_refs(self, v):
        a = v.a
        return (self.elem_ref(a, i) for i in range(len(a)))
    @staticmethod
    def elem_ref(a, i):
        def s(x): a[i] = x
        return Ref(lambda: a[i], s)
    def map_refs(self, m):
        if m.set: return iter([e[0] for e in m.e])
        return (Tup([e[0], self.elem_ref(e, 1)]) for e in list(m.e))
    def range_iter(self, r):
        lo = deref(r.f['start']); hi = deref(r.f['end']); inc = r.f.get('incl', False)
        t = getattr(lo, 't', None) or getattr(hi, 't', None)
        if type(lo) is Char:
            for x in range(ord(lo.c), ord(hi.c) + (1 if inc else 0)): yield Char(chr(x))
            return
        i = lo.v; n = 0
        while True:
            if hi is not None and not (type(hi) is Enum):
                if not Ctx.cur.branch((i <= hi.v) if inc else (i < hi.v)): return
            n += 1
            if n > 300: raise Unsupported('range loop bound')
            yield Int(i, t)
            i = i + 1
            if is_sym(i): i = z3.simplify(i)

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, a, b):
        a = deref(a); b = deref(b)
        ta, tb = type(a), type(b)
        if ta is Int and tb is Int:
            t = a.t or b.t
            x, y = a.v, b.v
            if op in ('<<', '>>'): t = a.t
            conc = isinstance(x, int) and isinstance(y, int)
            if op == '+': r = x + y
            elif op == '-': r = x - y
            elif op == '*': r = x * y
            elif op in ('/', '%'):
                if conc:
                    if y == 0: raise Panic('attempt to divide by zero')
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0): q = -q
                    r = q if op == '/' else x - q * y
                else:
                    if Ctx.cur.branch(y == 0 if not isinstance(y, int) else (y == 0)): raise Panic('attempt to divide by zero')
                    if t in INT and INT[t][0] == 0: r = x / y if op == '/' else x % y
                    else:
                        ax = z3.If(x < 0, -x, x) if not isinstance(x, int) else abs(x)
                        ay = z3.If(y < 0, -y, y) if not isinstance(y, int) else abs(y)
                        q0 = (z3.IntVal(ax) if isinstance(ax, int) else ax) / ay
                        neg = z3.Xor((z3.IntVal(x) if isinstance(x, int) else x) < 0, (z3.IntVal(y) if isinstance(y, int) else y) < 0)
                        q = z3.If(neg, -q0, q0)
                        r = q if op == '/' else x - q * y
                    if isinstance(x, int) and op == '/' : pass
            elif op in ('&', '|', '^', '<<', '>>'):
                if not conc:
                    if op == '<<' and isinstance(y, int):
                        r = x * (1 << y)
                        if t in INT and not Ctx.cur.branch(z3.And(r >= INT[t][0], r <= INT[t][1])): r = self.wrap(r, t)
                        return Int(z3.simplify(r), t)
                    elif op == '>>' and isinstance(y, int): r = x / (1 << y)
                    elif op == '&' and isinstance(y, int) and (y & (y + 1)) == 0: r = x % (y + 1)
                    elif op == '&' and isinstance(x, int) and (x & (x + 1)) == 0: r = y % (x + 1)
                    elif op in '|^':
                        r = None
                        for u, v in ((x, y), (y, x)):
                            for k in (8, 16, 32, 64):
                                if r is None and self.must(self.zand((u % (1 << k)) == 0, v >= 0, v < (1 << k))): r = u + v
                        if r is None: r = self.bitvec(op, x, y, t)
                    elif t in INT: r = self.bitvec(op, x, y, t)
                    else: raise Unsupported('symbolic bit operation')
                else:
                    r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                    if op == '<<' and t in INT: r = self.wrap(r, t)
                return Int(r, t)
            else: raise Unsupported('op ' + op)
            return self.ranged(r, t, {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'divide', '%': 'calculate the remainder'}[op])
        if (ta is bool or z3.is_bool(a)) and (tb is bool or z3.is_bool(b)):
            if op == '&': return band(a, b)
            if op == '|': return bor(a, b)
            if op == '^':
                if ta is bool and tb is bool: return a != b
                return mkbool(z3.Xor(a if is_sym(a) else z3.BoolVal(a), b if is_sym(b) else z3.BoolVal(b)))
        if ta in (str, SymStr, Text) and op == '+': return mktext([a, b])
        if (ta is float or is_sym(a)) and (tb is float or is_sym(b) or tb is Int) or (ta is Int and (tb is float or is_sym(b))):
            if ta is Int: a = float(a.v) if a.conc() else z3.ToReal(a.v)
            if tb is Int: b = float(b.v) if b.conc() else z3.ToReal(b.v)
            try:
                if op == '+': return a + b
                if op == '-': return a - b
                if op == '*': return a * b
                if op == '/':
                    if isinstance(b, float) and b == 0: return float('nan') if a == 0 or a != a else (float('inf') if (a > 0) else float('-inf'))
                    return a / b
                if op == '%':
                    import math
                    return math.fmod(a, b)
            except OverflowError: return float('inf')
        d = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '&': 'bitand', '|': 'bitor'}.get(op)
        h = self.user_method(a, d) if d else None
        if h is not None: return self.call_def(h, [a, b])
        m = getattr(a, 'op_', None)
        if m is not None: return m(self, op, b)
        m = getattr(b, 'rop_', None)
        if m is not None: return m(self, op, a)
        if ta is Map and a.set and op in ('&', '|', '-'):
            if op == '|':
                r = clone(a)
                for x in b.e: self.map_insert(r, x[0], True)
                return r
            return Map(a.k, [e for e in a.e if (self.map_find(b, e[0]) >= 0) == (op == '&')], True)
        raise Unsupported(f'{op} on {a!r:.60} and {b!r:.60}')

    def must(self, c): return c if isinstance(c, bool) else Ctx.cur.sat(z3.Not(c)) is False
    def zand(self, *cs):
        if any(c is False for c in cs): return False
        cs = [c for c in cs if c is not True]
        return z3.And(*cs) if cs else True
    def bitvec(self, op, x, y, t):
        if t not in INT: raise Unsupported('symbolic bit operation')
        lo, hi = INT[t]; w = (hi - lo + 1).bit_length() - 1
        f = lambda v: z3.Int2BV(z3.IntVal(v) if isinstance(v, int) else v, w)
        b = {'&': lambda: f(x) & f(y), '|': lambda: f(x) | f(y), '^': lambda: f(x) ^ f(y), '<<': lambda: f(x) << f(y), '>>': lambda: (f(x) >> f(y)) if lo < 0 else z3.LShR(f(x), f(y))}[op]()
        return z3.BV2Int(b, lo < 0)
    def wrap(self, r, t):
        lo, hi = INT[t]; n = hi - lo + 1
        return (r - lo) % n + lo

    def ranged(self, r, t, what):
        if t in INT:
            lo, hi = INT[t]
            if isinstance(r, int):
                if r < lo or r > hi: raise Panic(f'attempt to {what} with overflow')
            else:
                r = z3.simplify(r)
                if not Ctx.cur.branch(z3.And(r >= lo, r <= hi)): raise Panic(f'attempt to {what} with overflow')
        elif not isinstance(r, int): r = z3.simplify(r)
        return Int(r, t)

    def cmp_bool(self, op, a, b):
        a = deref(a); b = deref(b)
        if op == '==': return eq(a, b, self)
        if op == '!=': return bnot(eq(a, b, self))
        ta, tb = type(a), type(b)
        if ta is Int and tb is Int:
            x, y = a.v, b.v
        elif (ta is float or (is_sym(a) and not z3.is_bool(a))) or (tb is float or (is_sym(b) and not z3.is_bool(b))):
            x = a.v if ta is Int else a; y = b.v if tb is Int else b
        elif ta is str and tb is str: x, y = a, b
        elif ta is Char and tb is Char: x, y = (ord(q.c) if isinstance(q.c, str) else q.c for q in (a, b))
        elif ta in (str, SymStr, Text) and tb in (str, SymStr, Text): x, y = strterm(a), strterm(b)
        else:
            o = self.compare(a, b)
            if o is None: return False
            return {'<': o < 0, '<=': o <= 0, '>': o > 0, '>=': o >= 0}[op]
        if op == '<': return mkbool(x < y)
        if op == '<=': return mkbool(x <= y)
        if op == '>': return mkbool(x > y)
        return mkbool(x >= y)

    def lt(self, a, b): return Ctx.cur.branch(self.cmp_bool('<', a, b))

    def compare(self, a, b):
        """-1/0/1 (forks)"""
        a = deref(a); b = deref(b); ta, tb = type(a), type(b)
        if (ta is Int and tb is Int) or ta in (str, SymStr, Text, float, Char) or (is_sym(a) and not z3.is_bool(a)):
            if ta is float and (a != a or b != b): return None
            if Ctx.cur.branch(self.cmp_bool('<', a, b)): return -1
            return 0 if Ctx.cur.branch(eq(a, b)) else 1
        if ta is bool or z3.is_bool(a):
            x = Ctx.cur.branch(a); y = Ctx.cur.branch(b); return (x > y) - (x < y)
        h = self.user_method(a, 'cmp') or self.user_method(a, 'partial_cmp')
        if h is not None:
            o = self.call_def(h, [a, b])
            if o.ty == 'Option':
                if o.var == 'None': return None
                o = o.f['0']
            return {'Less': -1, 'Equal': 0, 'Greater': 1}[o.var]
        m = getattr(a, 'cmp_', None)
        if m is not None: return m(self, b)
        if ta in (Tup, Vec) and tb is ta:
            for x, y in zip(a.a, b.a):
                o = self.compare(x, y)
                if o != 0: return o
            return (len(a.a) > len(b.a)) - (len(a.a) < len(b.a))
        if ta is Enum and tb is Enum:
            order = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'Ordering': ['Less', 'Equal', 'Greater']}.get(tyname(a.ty)) or (a.ty.vorder if not isinstance(a.ty, str) else None)
            if order is None: raise Unsupported('ordering of ' + repr(a))
            i, j = order.index(a.var), order.index(b.var)
            if i != j: return -1 if i < j else 1
            for k in a.f:
                o = self.compare(a.f[k], b.f[k])
                if o != 0: return o
            return 0
        if ta is Struct and tb is Struct:
            for k in a.f:
                o = self.compare(a.f[k], b.f[k])
                if o != 0: return o
            return 0
        raise Unsupported(f'ordering of {a!r:.60} and {b!r:.60}')

    def cast(self, v, ty):
        v = deref(v); n = ty.n
        m = getattr(v, 'cast_', None)
        if m is not None: return m(n)
        if n not in INT and n not in FLOATS and type(v) is Enum and n in ('_', '?', 'Infer', None): n = 'i32'
        if n in INT:
            lo, hi = INT[n]
            if type(v) is Int:
                x = v.v
                if isinstance(x, int): return Int(self.wrap(x, n), n)
                if v.t in INT and INT[v.t][0] >= lo and INT[v.t][1] <= hi: return Int(x, n)
                if Ctx.cur.branch(z3.And(x >= lo, x <= hi)): return Int(x, n)
                return Int(z3.simplify((x - lo) % (hi - lo + 1) + lo), n)
            if isinstance(v, bool): return Int(int(v), n)
            if z3.is_bool(v): return Int(z3.If(v, z3.IntVal(1), z3.IntVal(0)), n)
            if type(v) is Char: return Int(ord(v.c) if isinstance(v.c, str) else v.c, n)
            if isinstance(v, float):
                if v != v: return Int(0, n)
                return Int(max(lo, min(hi, int(v) if abs(v) != float('inf') else (hi if v > 0 else lo))), n)
            if type(v) is Enum:
                td = self.typedef(v)
                if td is not None:
                    i = 0
                    for var in td.node['variants']:
                        if var[2] is not None: i = int(var[2][2][1])
                        if var[0] == v.var: return Int(i, n)
                        i += 1
                m = CONSTS.get(('disc', tyname(v.ty), v.var))
                if m is not None: return Int(m, n)
            if is_sym(v) and v.is_real(): 
                return Int(z3.ToInt(v), n)
        if n in FLOATS:
            if type(v) is Int: return float(v.v) if v.conc() else z3.ToReal(v.v)
            return v
        if n == 'char' and type(v) is Int: return Char(chr(v.v) if v.conc() else v.v)
        if n == 'bool': return v
        return v

    # ------------------------------------------------------------ text
    def to_text(self, v):
        """Display"""
        v = deref(v); t = type(v)
        if t in (str, SymStr, Text): return v
        if t is Char: return v.c if isinstance(v.c, str) else Text([v])
        if t is Int: return str(v.v) if v.conc() else v
        if t is bool: return 'true' if v else 'false'
        if z3.is_bool(v): return 'true' if Ctx.cur.branch(v) else 'false'
        if t is float: return fmt_float(v)
        td = self.typedef(v)
        if td is not None:
            d = td.methods.get('fmt:Display') or td.methods.get('fmt') if 'fmt:Display' in td.methods else None
            if d is not None:
                f = Formatter(); 
                self.call_def(d, [v, f]); return f.text()
            if td.kind == 'enum':
                for a in td.variants[v.var][3]:
                    if a.startswith('error'): return self.thiserror(a, v)
                if 'Display' in td.derives or 'ToString' in td.derives or 'AsRefStr' in td.derives or any('strum' in a for a in td.attrs):
                    from . import stdlib
                    names, dflt = stdlib.strum_name(td, v.var)
                    return max(names, key=len) if names else dflt
            for a in td.attrs:
                if a.startswith('error'): return self.thiserror(a, v)
        m = getattr(v, 'display_', None)
        if m is not None: return m(self)
        f = METHODS.get((tname(v), 'display'))
        if f is not None: return f(self, v, [], CC())
        return Text([OpaquePiece(v)])

    def thiserror(self, attr, v):
        inner = attr[attr.index('(')+1:attr.rindex(')')].strip()
        if inner == 'transparent': return self.to_text(list(v.f.values())[0])
        m = re.match(r'"((?:[^"\\]|\\.)*)"', inner)
        if not m: return Text([OpaquePiece(v)])
        s = m.group(1).replace('\\"', '"').replace('\\n', '\n')
        out = []
        for kind, x, spec in parse_fmt(s):
            if kind == 's': out.append(x)
            else: out.append(self.fmt_spec(v.f.get(x, None) if x in v.f else Opaque('?'), spec))
        return mktext(out)

    def to_debug(self, v):
        v = deref(v); t = type(v)
        if t is str: return '"' + v.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace("\t", "\\t").replace("\r", "\\r") + '"'
        if t is Text and any(type(p) is Char for p in v.p):
            from .symchars import cl, from_cl, ceq
            cs = cl(v)
            if cs is not None:
                out = []
                for ch in cs:
                    for q, r in (('"', '\\"'), ('\\', '\\\\'), ('\n', '\\n'), ('\t', '\\t'), ('\r', '\\r')):
                        if Ctx.cur.branch(ceq(ch, Char(q))): out.append(r); break
                    else: out.append(from_cl([ch]))
                return mktext(['"'] + out + ['"'])
        if t in (SymStr, Text): return mktext(['"', v, '"'])
        if t in (Int, bool, float): 
            if t is float:
                s = fmt_float(v); return s + '.0' if re.match(r'^-?\d+$', s) else s
            return self.to_text(v)
        if t is Char: return mktext(["'", self.to_text(v), "'"])
        td = self.typedef(v)
        if td is not None and 'fmt:Debug' in td.methods:
            f = Formatter(); self.call_def(td.methods['fmt:Debug'], [v, f]); return f.text()
        if t is Vec: return mktext(['['] + self.joinl([self.to_debug(x) for x in v.a]) + [']'])
        if t is Tup: return mktext(['('] + self.joinl([self.to_debug(x) for x in v.a]) + [')'])
        if t is Map:
            return mktext(['{'] + self.joinl([self.to_debug(x[0]) if v.set else mktext([self.to_debug(x[0]), ': ', self.to_debug(x[1])]) for x in v.e]) + ['}'])
        if t is Enum or t is Struct:
            name = v.var if t is Enum else tyname(v.ty)
            if not v.f: return name
            ks = list(v.f)
            if ks[0].isdigit(): return mktext([name, '('] + self.joinl([self.to_debug(v.f[k]) for k in ks]) + [')'])
            return mktext([name, ' { '] + self.joinl([mktext([k, ': ', self.to_debug(v.f[k])]) for k in ks]) + [' }'])
        m = getattr(v, 'debug_', None)
        if m is not None: return m(self)
        return Text([OpaquePiece(v)])

    def joinl(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i: out.append(', ')
            out.append(x)
        return out

    def fmt_spec(self, v, spec):
        if not spec: return self.to_text(v)
        if spec in ('?', '#?'): return self.to_debug(v)
        m = re.match(r'^(?:(.)?([<>^]))?(\+)?(#)?(0)?(\d+)?(?:\.(\d+|\*))?([xXbeo?])?$', spec)
        if not m: raise Unsupported('format spec ' + spec)
        fill, al, plus, alt, zero, width, prec, ty = m.groups()
        v = deref(v)
        if ty in ('x', 'X', 'b', 'o'):
            if type(v) is not Int: 
                mm = getattr(v, 'hex_', None)
                if mm: return mm(self)
                return Text([OpaquePiece(v)])
            if not v.conc(): return Text(['0x'[:0], HexPiece(v, spec)])
            x = v.v
            if x < 0: x = self.wrap(x, 'u' + v.t[1:]) if v.t else x
            s = format(x, ty)
            if alt: s = '0x' + s
        elif ty == '?': s = self.to_debug(v)
        elif prec is not None:
            if isinstance(v, float): s = f'{v:.{int(prec)}f}'
            else: s = self.to_text(v)
        else: s = self.to_text(v)
        if width and isinstance(s, str):
            w = int(width)
            if zero: s = s.rjust(w, '0') if not s.startswith('-') else '-' + s[1:].rjust(w-1, '0')
            elif al == '<' or (al is None and not type(v) is Int): s = s.ljust(w, fill or ' ')
            elif al == '^': s = s.center(w, fill or ' ')
            else: s = s.rjust(w, fill or ' ')
        elif width: return Text([PadPiece(s, spec)])
        return s

class HexPiece:
    def __init__(self, v, spec): self.v = v; self.spec = spec
class PadPiece:
    def __init__(self, v, spec): self.v = v; self.spec = spec

def fmt_float(v):
    if v != v: return 'NaN'
    if v == float('inf'): return 'inf'
    if v == float('-inf'): return '-inf'
    if v == int(v) and abs(v) < 1e300: return ('-' if str(v).startswith('-') else '') + str(abs(int(v)))
    from decimal import Decimal
    return format(Decimal(repr(v)), 'f')

class Formatter(Obj):
    tname = 'Formatter'
    def __init__(self): self.parts = []
    def text(self): return mktext(self.parts)
    def push(self, x): self.parts.append(x)
    def m_write_str(self, it, a, c): self.push(deref(a[0])); return Ok(UNIT())
    def m_write_char(self, it, a, c): self.push(deref(a[0]).c); return Ok(UNIT())
    def m_write_fmt(self, it, a, c): self.push(deref(a[0])); return Ok(UNIT())
    def m_pad(self, it, a, c): self.push(deref(a[0])); return Ok(UNIT())
    def m_alternate(self, it, a, c): return False
    def m_debug_struct(self, it, a, c): self.push(deref(a[0])); return DebugB(self)
    m_debug_tuple = m_debug_struct
    def m_debug_list(self, it, a, c): return DebugB(self)
    m_debug_map = m_debug_list
class DebugB(Obj):
    def __init__(self, f): self.fm = f
    def m_field(self, it, a, c): self.fm.push(Text([OpaquePiece(self)])); return self
    m_entry = m_entries = m_field
    def m_finish(self, it, a, c): return Ok(UNIT())
    m_finish_non_exhaustive = m_finish

@functools.lru_cache(None)
def parse_fmt(s):
    """-> list of ('s', text, None) | ('a', key, spec)"""
    out = []; i = 0; buf = ''; nxt = 0
    while i < len(s):
        ch = s[i]
        if ch == '{':
            if s[i+1:i+2] == '{': buf += '{'; i += 2; continue
            j = s.index('}', i)
            body = s[i+1:j]; i = j + 1
            if buf: out.append(('s', buf, None)); buf = ''
            k, _, spec = body.partition(':')
            k = k.strip(); spec = spec.strip() if spec.strip() else spec
            if k == '': k = str(nxt); nxt += 1
            out.append(('a', k, spec))
        elif ch == '}': buf += '}'; i += 2
        else: buf += ch; i += 1
    if buf: out.append(('s', buf, None))
    return tuple(out)

class Code:
    __slots__ = ('params', 'body', 'n')

PLACE_KINDS = ('Path', 'Field', 'Index', 'Unary')

class FnCompiler:
    def __init__(self, it, d):
        self.it = it; self.d = d; self.p = it.p; self.module = d.module
        self.owner = d.owner; self.generics = d.generics
        self.scopes = []; self.n = 0
        self.locals = [d.outer] if isinstance(d.outer, dict) else []
        d.types(); self.ret = d.ret
        self.closure_ret = []
    # -------- helpers
    def ty(self, node):
        return self.p.ty(node, self.module, self.owner, self.generics, self.locals or None)
    def slot(self, name):
        i = self.n; self.n += 1
        self.scopes[-1][name] = i
        return i
    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s: return s[name]
        return None
    def compile(self):
        code = Code()
        self.scopes.append({})
        ps = []
        pt = self.d.types()
        for i, p in enumerate(self.d.sig['params']):
            if p[0] == 'self':
                s = self.slot('self')
                ps.append(lambda fr, v, pl, m, s=s: (fr.__setitem__(s, Cell(v)), True)[1])
            else: ps.append(self.pat(p[1]))
        code.params = ps
        r = self.ret
        code.body = self.block(self.d.node['body'], r)
        code.n = _N(self)
        code.n = self.n
        return code
    def err(self, line, msg):
        return f'{msg} at {self.module.file}:{line}'
    # -------- blocks and statements
    def block(self, stmts, hint=None, newscope=True):
        it = self.it
        if newscope: self.scopes.append({})
        loc = {}
        self.locals.append(loc)
        for s in stmts:          # items are visible in the entire block
            if s[0] == 'Item': self.local_item(s[2], loc)
        codes = []; tail = None
        n = len(stmts)
        for i, s in enumerate(stmts):
            k = s[0]
            if k == 'Item': continue
            if k == 'Let': 
                at = ' '.join(s[5]) if len(s) > 5 else ''
                if 'cfg' in at and 'test' in at: continue
                codes.append(self.let(s))
            else:
                last = i == n - 1
                if last and not s[3]: tail = self.expr(s[2], hint)
                else: codes.append(self.expr(s[2], None))
        self.locals.pop()
        if newscope: self.scopes.pop()
        if tail is None:
            if len(codes) == 1:
                c0 = codes[0]
                def f(fr): c0(fr); return Tup(())
                return f
            def f(fr):
                for c in codes: c(fr)
                return Tup(())
            return f
        if not codes: return tail
        def f(fr):
            for c in codes: c(fr)
            return tail(fr)
        return f
    def local_item(self, item, loc):
        k = item['k']
        outer = {}
        for l in self.locals: outer.update(l)
        if k == 'fn': 
            fd = FnDef(item['sig']['name'], item, self.module, self.p, None, self.owner if isinstance(self.owner, TypeDef) else None, outer=outer); loc[fd.name] = fd
        elif k == 'use':
            for name, p in item['uses']:
                if name == '*': raise Unsupported('local glob use')
                loc[name] = p
        elif k == 'const': loc[item['name']] = Const(item, self.module)
        elif k == 'struct': loc[item['name']] = TypeDef(item['name'], '::'.join(self.module.path + (item['name'],)), item, self.module, 'struct')
        elif k == 'enum': loc[item['name']] = TypeDef(item['name'], '::'.join(self.module.path + (item['name'],)), item, self.module, 'enum')
        elif k == 'type': loc[item['name']] = Alias(item, self.module)
        elif k == 'macro' : 
            if item.get('statics'):
                for s in item['statics']: self.local_item(s, loc)
        elif k == 'impl': self.p.add_impl(self.module, item, self.locals, outer)
        else: raise Unsupported(f'local item {k}')
    def let(self, s):
        _, line, pat, init, els, *_ = s
        it = self.it
        ty = self.ty(pat[3]) if pat[0] == 'PType' else None
        if init is None:
            pm = self.pat(pat)
            nm = []
            def walk(p):
                if p[0] == 'PIdent': nm.append(self.lookup(p[2]))
                elif p[0] == 'PType': walk(p[2])
                elif p[0] == 'PTuple':
                    for x in p[2]: walk(x)
            walk(pat)
            def f(fr):
                for i in nm: fr[i] = Cell(None)
            return f
        # scrutinee style when pattern destructures; value style for simple ident
        simple = pat[0] == 'PIdent' or (pat[0] == 'PType' and pat[2][0] == 'PIdent')
        if simple and not (pat if pat[0] == 'PIdent' else pat[2])[3]: code = self.expr(init, ty)
        else: code = self.expr(init, ty, 'p')
        elsec = self.expr(els) if els is not None else None
        pm = self.pat(pat)
        if elsec is not None:
            def f(fr):
                v = code(fr)
                if not pm(fr, v, None, False):
                    elsec(fr); raise Unsupported('let-else fell through')
            return f
        if simple:
            p0 = pat if pat[0] == 'PIdent' else pat[2]
            sl = self.lookup(p0[2]) if p0[5] is None else None
            if sl is not None and not p0[3]:
                if ty is None:
                    def f(fr): fr[sl] = Cell(code(fr))
                else:
                    def f(fr): fr[sl] = Cell(it.coerce(code(fr), ty))
                return f
        def f(fr):
            v = code(fr)
            if ty is not None: v = it.coerce(v, ty)
            if not pm(fr, v, None, False): raise Unsupported(self.err(line, 'irrefutable pattern did not match'))
        return f
    # -------- patterns: fn(fr, value, place, refmut) -> bool
    def pat(self, p):
        k = p[0]; it = self.it
        if k == 'PWild' or k == 'PRest': return lambda fr, v, pl, m: True
        if k == 'PIdent':
            name, byref, mut, sub = p[2], p[3], p[4], p[5]
            if sub is None and not byref and not mut and self.lookup_const_pat(name):
                return self.path_pat([[name, []]], p[1])
            subp = self.pat(sub) if sub is not None else None
            s = self.slot(name)
            if byref and mut:
                def f(fr, v, pl, m):
                    if subp is not None and not subp(fr, v, pl, m): return False
                    fr[s] = Cell(pl if pl is not None else v); return True
            else:
                def f(fr, v, pl, m):
                    if subp is not None and not subp(fr, v, pl, m): return False
                    if m and not byref and type(v) is not Ref:
                        fr[s] = Cell(pl if pl is not None else v)
                    else: fr[s] = Cell(v if type(v) is Ref else copyval(v))
                    return True
            return f
        if k == 'PType': return self.pat(p[2])
        if k == 'PRef':
            sub = self.pat(p[2])
            return lambda fr, v, pl, m: sub(fr, deref(v), None, False)
        if k == 'PLit':
            lv = self.lit(p[2])
            def f(fr, v, pl, m):
                v = deref(v)
                return Ctx.cur.branch(eq(v, lv(fr) if callable(lv) else lv, it))
            return f
        if k == 'PRange':
            lo = self.expr(p[2]) if p[2] is not None else None; hi = self.expr(p[3]) if p[3] is not None else None; inc = p[4]
            def f(fr, v, pl, m):
                v = deref(v); cs = []
                if lo is not None: cs.append(it.cmp_bool('>=', v, lo(fr)))
                if hi is not None: cs.append(it.cmp_bool('<=' if inc else '<', v, hi(fr)))
                return Ctx.cur.branch(band(*cs))
            return f
        if k == 'POr':
            # the same names are bound in each alternative: share slots
            alts = []
            base = dict(self.scopes[-1])
            first = None
            names = {}
            for q in p[2]:
                save = self.slot
                def slot(name, names=names):
                    if name in names: self.scopes[-1][name] = names[name]; return names[name]
                    i = self.n; self.n += 1; self.scopes[-1][name] = i; names[name] = i; return i
                self.slot = slot
                try: alts.append(self.pat(q))
                finally: self.slot = save
            paths = [q[2][-1][0] for q in p[2] if q[0] == 'PPath'] if all(q[0] == 'PPath' for q in p[2]) else None
            def f(fr, v, pl, m):
                if paths:
                    o = deref(v)
                    if isinstance(o, Obj) and hasattr(o, 'among'): return o.among(paths)
                for a in alts:
                    if a(fr, v, pl, m): return True
                return False
            return f
        if k == 'PTuple' or k == 'PSlice':
            subs = p[2]; rest = None; restp = None
            for i, q in enumerate(subs):
                if q[0] == 'PRest': rest = i
                if q[0] == 'PIdent' and q[5] is not None and q[5][0] == 'PRest': rest = i; restp = q
            pats = [None if i == rest else self.pat(q) for i, q in enumerate(subs)]
            rs = self.slot(restp[2]) if restp is not None else None
            n = len(subs)
            def f(fr, v, pl, m):
                if type(v) is Ref: pl = v; v = deref(v); m = True
                if not isinstance(v, (Tup, Vec)):
                    raise Unsupported(f'sequence pattern on {v!r:.60}')
                a = v.a
                if rest is None:
                    if len(a) != n: return False
                    pairs = [(pats[i], i) for i in range(n)]
                else:
                    if len(a) < n - 1: return False
                    tailn = n - 1 - rest
                    pairs = [(pats[i], i) for i in range(rest)] + [(pats[rest+1+j], len(a) - tailn + j) for j in range(tailn)]
                    if rs is not None: fr[rs] = Cell(Vec(a[rest:len(a) - tailn]))
                for q, i in pairs:
                    if not q(fr, a[i], it.elem_ref(a, i), m): return False
                return True
            return f
        if k == 'PTupleStruct':
            segs = p[2]; names = [s[0] for s in segs]
            var = names[-1]; subs = p[3]; n = len(subs)
            rest = None
            for i, q in enumerate(subs):
                if q[0] == 'PRest': rest = i
            pats = [None if i == rest else self.pat(q) for i, q in enumerate(subs)]
            var = self.variant_name(names)
            owner = self.variant_owner(names)
            def f(fr, v, pl, m):
                if type(v) is Ref: pl = v; v = deref(v); m = True
                t = type(v)
                if t is Enum:
                    if v.var != var: return False
                    if owner is not None and not isinstance(v.ty, str) and v.ty is not owner: return False
                elif t is Struct:
                    if tyname(v.ty) != var: raise Unsupported(f'pattern {var} on {tyname(v.ty)}')
                elif isinstance(v, Obj) and hasattr(v, 'as_variant'):
                    r = v.as_variant(it, names)
                    if r is None: return False
                    v = r
                else: raise Unsupported(self.err(p[1], f'pattern {"::".join(names)} on {v!r:.60}'))
                fs = v.f; ks = [k for k in fs if k[0] != '_'] if '_i' in fs else list(fs)
                if rest is None:
                    if len(ks) != n: raise Unsupported(self.err(p[1], f'pattern {var}: {n} fields vs {len(ks)}'))
                    pairs = [(pats[i], ks[i]) for i in range(n)]
                else:
                    tailn = n - 1 - rest
                    pairs = [(pats[i], ks[i]) for i in range(rest)] + [(pats[rest+1+j], ks[len(ks) - tailn + j]) for j in range(tailn)]
                for q, kk in pairs:
                    if not q(fr, fs[kk], it.elem_ref(fs, kk), m): return False
                return True
            return f
        if k == 'PStruct':
            names = [s[0] for s in p[2]]
            var = self.variant_name(names)
            fps = [(fn, self.pat(q)) for fn, q in p[3]]
            selfty = names[-1] == 'Self' and self.owner is not None and self.owner.name
            def f(fr, v, pl, m):
                if type(v) is Ref: pl = v; v = deref(v); m = True
                t = type(v)
                if t is Enum:
                    if v.var != var: return False
                    fs = v.f
                elif t is Struct:
                    if tyname(v.ty) != (selfty or var): raise Unsupported(self.err(p[1], f'struct pattern {var} on {v!r:.60}'))
                    fs = v.f
                elif isinstance(v, Obj) and hasattr(v, 'as_variant'):
                    r = v.as_variant(it, names)
                    if r is None: return False
                    fs = r.f
                elif isinstance(v, Obj):
                    for fn, q in fps:
                        if not q(fr, it_field(it, v, fn), None, m): return False
                    return True
                else: raise Unsupported(self.err(p[1], f'struct pattern {"::".join(names)} on {v!r:.60}'))
                for fn, q in fps:
                    if fn not in fs:
                        raise Unsupported(self.err(p[1], f'no field {fn} in {v!r:.80}'))
                    if not q(fr, fs[fn], it.elem_ref(fs, fn), m): return False
                return True
            return f
        if k == 'PPath': return self.path_pat(p[2], p[1])
        if k == 'PConst': 
            c = self.block(p[2])
            return lambda fr, v, pl, m: Ctx.cur.branch(eq(v, c(fr), it))
        raise Unsupported(self.err(p[1], f'pattern {k}'))
    def lookup_const_pat(self, name):
        if name == 'None': return True
        if not name[0].isupper(): return False
        r = self.resolve([name], ('const', 'type'))
        if isinstance(r, External): return len(r.path) > 1 or name.isupper() and len(r.path) > 1
        if isinstance(r, Const): return True
        if isinstance(r, tuple) and r[0] == 'assoc': return True
        if isinstance(r, TypeDef): return r.kind == 'struct' and r.field_kind() == 'unit'
        return False
    def variant_owner(self, names):
        if len(names) < 2: return None
        if names[-2] == 'Self': return self.owner if isinstance(self.owner, TypeDef) else None
        r = self.resolve(names[:-1], ('type',))
        return r if isinstance(r, TypeDef) else None
    def variant_name(self, names):
        if len(names) == 1:
            r = self.resolve(names, ('type', 'fn'))
            if isinstance(r, External) and len(r.path) > 1: return r.path[-1]
            if isinstance(r, tuple): return r[2][-1]
            if isinstance(r, Alias):
                t = self.p.ty(r.node['ty'], r.module); return t.n
            if isinstance(r, TypeDef): return r.name
        return names[-1]
    def path_pat(self, path, line):
        names = [s[0] for s in path]; it = self.it
        if names == ['None']: 
            def f(fr, v, pl, m):
                v = deref(v)
                if type(v) is not Enum: raise Unsupported(self.err(line, f'pattern None on {v!r:.60}'))
                return v.var == 'None'
            return f
        r = self.resolve(names, ('const', 'type'))
        if names[0] == 'Self' and isinstance(self.owner, TypeDef): r = ('assoc', self.owner, names[1:])
        if isinstance(r, Const):
            return lambda fr, v, pl, m: Ctx.cur.branch(eq(v, it_const(it, r), it))
        if isinstance(r, tuple) and isinstance(r[1], TypeDef) and r[1].kind == 'enum' and r[2][-1] in r[1].variants or isinstance(r, External):
            var = names[-1] if isinstance(r, tuple) else r.path[-1]
            if isinstance(r, External):
                cv = CONSTS.get('::'.join(r.path[-2:]))
                if cv is not None: 
                    def g(fr, v, pl, m):
                        return Ctx.cur.branch(eq(v, cv() if callable(cv) else cv, it))
                    return g
            def f(fr, v, pl, m):
                v = deref(v)
                if type(v) is Enum: return v.var == var
                if isinstance(v, Obj) and hasattr(v, 'as_variant'): return v.as_variant(it, names) is not None
                if type(v) is Int or type(v) in (str, SymStr, Text):
                    raise Unsupported(self.err(line, f'unknown constant {"::".join(names)}'))
                raise Unsupported(self.err(line, f'pattern {"::".join(names)} on {v!r:.60}'))
            return f
        if isinstance(r, TypeDef): return lambda fr, v, pl, m: True
        if isinstance(r, tuple):
            c = r[1].consts.get(r[2][-1])
            if c is not None: return lambda fr, v, pl, m: Ctx.cur.branch(eq(v, it_const(it, c), it))
        raise Unsupported(self.err(line, f'path pattern {"::".join(names)}'))
    def resolve(self, names, ns=NSKEYS):
        if names[0] == 'Self':
            if len(names) == 1: return self.owner
            if isinstance(self.owner, TypeDef): return ('assoc', self.owner, names[1:])
            if self.owner is not None: return External((self.owner.n,) + tuple(names[1:]))
        return self.p.resolve(list(names), self.module, ns, None, list(reversed(self.locals)) or None)
    # -------- literals
    def lit(self, l, hint=None):
        k = l[0]
        if k == 'Str': return l[1]
        if k == 'Int':
            if l[2] in FLOATS or (hint is not None and hint.n in FLOATS): return float(l[1])
            return Int(int(l[1]), l[2] or (hint.n if hint is not None and hint.n in INT else None))
        if k == 'Bool': return l[1]
        if k == 'Float': return float(l[1])
        if k == 'Char': return Char(l[1])
        if k == 'Byte': return Int(l[1], 'u8')
        if k == 'ByteStr': return (lambda fr: Vec([Int(b, 'u8') for b in l[1]]))
        raise Unsupported('literal ' + repr(l))
    # -------- expressions
    def expr(self, e, hint=None, mode='v'):
        m = getattr(self, 'x_' + e[0], None)
        if m is None: raise Unsupported(self.err(e[1], f'expression {e[0]} {e[2] if len(e) > 2 and isinstance(e[2], str) else ""}'))
        return m(e, hint, mode)
    def x_Lit(self, e, hint, mode):
        v = self.lit(e[2], hint)
        if callable(v): return v
        return lambda fr: v
    def x_Path(self, e, hint, mode):
        path = e[2]; names = [s[0] for s in path]; it = self.it
        if e[3] is not None: return self.qpath(e, hint)
        if len(names) == 1:
            s = self.lookup(names[0])
            if s is not None:
                nm = names[0]
                if mode == 'p': 
                    def f(fr):
                        c = fr[s]
                        if c is None: raise Unsupported(f'variable {nm} unset')
                        return c.v
                    return f
                def f(fr):
                    c = fr[s]
                    if c is None: raise Unsupported(f'variable {nm} unset')
                    v = c.v
                    t = type(v)
                    if t is Tup or t is Enum or t is Struct: return copyval(v)
                    return v
                return f
            if names[0] == 'None': return lambda fr: Enum('Option', 'None', {})
        return self.path_value(names, path, e[1], hint)
    def qpath(self, e, hint):
        names = [s[0] for s in e[2]]; ty = self.ty(e[3][0])
        it = self.it
        if ty.d is not None and names[-1] in ty.d.assoc:
            d = ty.d.assoc[names[-1]][0]
            return lambda fr: Fn(lambda args: it.call_def(d, args), d.name)
        return self.path_value([ty.n, names[-1]], [[ty.n, []], [names[-1], []]], e[1], hint)
    def path_value(self, names, path, line, hint):
        it = self.it
        r = self.resolve(names)
        # constant / static
        if isinstance(r, Const): return lambda fr: it_const(it, r)
        if isinstance(r, FnDef): return lambda fr: Fn(lambda args: it.call_def(r, args), r.name)
        if isinstance(r, Alias):
            t = self.p.ty(r.node['ty'], r.module)
            if t.d is not None: r = t.d
            else: r = External((t.n,))
        if isinstance(r, TypeDef):
            if r.kind == 'struct':
                if r.field_kind() == 'unit': return lambda fr: Struct(r, {})
                return lambda fr: Fn(lambda args: Struct(r, {str(i): x for i, x in enumerate(args)}), r.name)
        if isinstance(r, tuple):
            _, d, rest = r
            n = rest[-1]
            if isinstance(d, TypeDef):
                if d.kind == 'enum' and n in d.variants and len(rest) == 1:
                    kd = d.field_kind(n)
                    if kd == 'unit': return lambda fr: Enum(d, n, {})
                    return lambda fr: Fn(lambda args: Enum(d, n, {str(i): x for i, x in enumerate(args)}), n)
                if n in d.consts: return lambda fr: it_const(it, d.consts[n])
                if n in d.assoc:
                    return lambda fr: Fn(lambda args: self.pick_assoc(d, n, args), n)
                if n in d.methods:
                    m = d.methods[n]; return lambda fr: Fn(lambda args: it.call_def(m, args), n)
                # trait methods on types: ToString::to_string etc.
                return lambda fr: Fn(lambda args: self.call_assoc_builtin(d, n, args, CC(hint=hint, line=line, file=self.module.file)), n)
            if isinstance(d, TraitDef):
                return lambda fr: Fn(lambda args: it.call_method(args[0], n, args[1:]), n)
        if names[0] == 'Self' and len(names) == 2 and isinstance(self.owner, Ty) :
            r = External((self.owner.n, names[1]))
        if isinstance(r, External):
            full = list(r.path)
            key2 = '::'.join(full[-2:]); key1 = full[-1]
            if key2 in CONSTS: 
                cv = CONSTS[key2]
                return lambda fr: cv() if callable(cv) else cv
            if len(full) >= 2 and full[-2] in INT and key1 in ('MAX', 'MIN', 'BITS'):
                lo, hi = INT[full[-2]]
                v = {'MAX': hi, 'MIN': lo, 'BITS': (hi - lo + 1).bit_length() - 1}[key1]
                t = full[-2]
                return lambda fr: Int(v, t if key1 != 'BITS' else 'u32')
            f = EXT_FN.get('::'.join(full[-3:])) or EXT_FN.get(key2) or (EXT_FN.get(key1) if (key1[0].islower() and (len(full) == 1 or full[-2][0].islower())) else None)
            if f is not None:
                return lambda fr: Fn(lambda args: f(it, args, CC(hint=hint, line=line, file=self.module.file, path=full)), key2)
            if key1 in ('Some', 'Ok', 'Err') and len(full) <= 2:
                ty = 'Option' if key1 == 'Some' else 'Result'
                return lambda fr: Fn(lambda args: Enum(ty, key1, {'0': args[0]}), key1)
            if len(full) >= 2 and full[-2][0].isupper() and key1[0].islower():
                # Type::method as a value -> method call on the first argument
                tn = full[-2]
                def mk(fr):
                    def g(args):
                        d = it.p.ext_methods.get(tn, {}).get(key1)
                        if d is not None: return it.call_def(d, args)
                        if not args: raise Unsupported(self.err(line, f'call of {key2}'))
                        return it.call_method(args[0], key1, args[1:])
                    return Fn(g, key2)
                return mk
            if len(full) >= 2 and full[-2][0].isupper() and key1[0].isupper():
                ty = full[-2]
                if key1.isupper() and len(key1) > 2 and '_' in key1 or key2 in ('Uuid::NIL',):
                    def bad(fr): raise Unsupported(self.err(line, f'external constant {"::".join(full)}'))
                    return bad
                return lambda fr: Enum(ty, key1, {})
            if key1[0].isupper() and len(full) >= 1 and not key1.isupper():
                # unit struct / tuple struct constructor of an external type
                return lambda fr: Enum(key1, key1, {}) if False else ExtCtor(key1)
            if len(full) == 1 and full[0] in ('str', 'String'): pass
            def bad(fr): raise Unsupported(self.err(line, f'path {"::".join(full)}'))
            return bad
        def bad(fr): raise Unsupported(self.err(line, f'path {"::".join(names)} -> {r!r:.80}'))
        return bad
    def pick_assoc(self, d, n, args, c=None):
        it = self.it
        l = d.assoc[n]
        if len(l) > 1 and args:
            best = [f for f in l if f.types() and (f.types()[0] is None or it.matches_ty(args[0], f.types()[0]))]
            if best: return it.call_def(best[0], args, c)
        return it.call_def(l[0], args, c)
    def call_assoc_builtin(self, d, n, args, c):
        it = self.it
        ov = it.overrides.get(f'{d.name}::{n}')
        if ov is not None: return ov(it, args, c)
        if n == 'default' and not args: return it.default_of(Ty(d.name, (), d))
        if n in ('from', 'try_from') and len(args) == 1:
            for (k, t, s, f) in it.p.from_impls:
                if t.d is d and it.matches_ty(args[0], s):
                    return it.call_def(f, args)
            if n == 'from': return it.convert_err(args[0], Ty(d.name, (), d))
            return EXT_FN['T::try_from'](it, args, CC(hint=Ty(d.name, (), d)))
        f = EXT_FN.get(f'{d.name}::{n}')
        if f is not None: return f(it, args, c)
        f = EXT_FN.get(f'T::{n}')
        if f is not None:
            c.hint = Ty(d.name, (), d); return f(it, args, c)
        if args: return it.call_method(args[0], n, args[1:], c)
        raise Unsupported(self.err(c.line, f'{d.name}::{n}'))
    # calls
    def x_Call(self, e, hint, mode):
        it = self.it; fe = e[2]; line = e[1]; file = self.module.file
        if fe[0] == 'Path' and fe[3] is None:
            path = fe[2]; names = [s[0] for s in path]
            if not (len(names) == 1 and self.lookup(names[0]) is not None):
                return self.path_call(names, path, e[3], line, hint)
        f = self.expr(fe, None, 'p')
        args = [self.expr(a) for a in e[3]]
        def g(fr):
            fv = f(fr)
            return it.call(fv, [a(fr) for a in args], CC(hint=hint, line=line, file=file))
        return g
    def path_call(self, names, path, argx, line, hint):
        it = self.it; file = self.module.file
        n = names[-1]
        r = self.resolve(names)
        if len(names) == 1 and n in ('Some', 'Ok', 'Err', 'Ready') and isinstance(r, External):
            h = None
            if hint is not None and hint.a:
                h = hint.a[0] if n in ('Some', 'Ok') else (hint.a[1] if len(hint.a) > 1 else None)
            a = self.expr(argx[0], h)
            ty = 'Option' if n == 'Some' else 'Result'
            if h is not None:
                return lambda fr: Enum(ty, n, {'0': it.coerce(a(fr), h)})
            return lambda fr: Enum(ty, n, {'0': a(fr)})
        if isinstance(r, Alias):
            t = self.p.ty(r.node['ty'], r.module)
            r = t.d if t.d is not None else External((t.n,))
        tf = None
        for s in path:
            if s[1] and s[1][0] and s[1][0][0] != 'FnSig': tf = [self.ty(x) for x in s[1] if x[0] not in ('FnSig', 'ConstArg', 'Assoc')]
        if isinstance(r, FnDef):
            pt = r.types()
            args = [self.expr(a, pt[i] if i < len(pt) else None) for i, a in enumerate(argx)]
            return lambda fr: it.call_def(r, [a(fr) for a in args], CC(hint=hint, tf=tf, line=line, file=file))
        if isinstance(r, TypeDef) and r.kind == 'struct':
            ft = r.field_types(self.p)
            args = [self.expr(a, ft.get(str(i))) for i, a in enumerate(argx)]
            return lambda fr: Struct(r, {str(i): it.coerce(a(fr), ft.get(str(i))) for i, a in enumerate(args)})
        if isinstance(r, tuple):
            _, d, rest = r; n = rest[-1]
            if isinstance(d, TypeDef):
                if d.kind == 'enum' and n in d.variants and len(rest) == 1:
                    ft = d.field_types(self.p, n)
                    args = [self.expr(a, ft.get(str(i))) for i, a in enumerate(argx)]
                    return lambda fr: Enum(d, n, {str(i): it.coerce(a(fr), ft.get(str(i))) for i, a in enumerate(args)})
                cands = d.assoc.get(n)
                if cands:
                    if len(cands) == 1:
                        f = cands[0]; pt = f.types()
                        args = [self.expr(a, pt[i] if i < len(pt) else None) for i, a in enumerate(argx)]
                        return lambda fr: it.call_def(f, [a(fr) for a in args], CC(hint=hint, tf=tf, line=line, file=file))
                    args = [self.expr(a) for a in argx]
                    return lambda fr: self.pick_assoc(d, n, [a(fr) for a in args])
                if n in d.methods:
                    f = d.methods[n]; args = [self.expr(a) for a in argx]
                    return lambda fr: it.call_def(f, [a(fr) for a in args])
                args = [self.expr(a) for a in argx]
                return lambda fr: self.call_assoc_builtin(d, n, [a(fr) for a in args], CC(hint=hint, tf=tf, line=line, file=file))
            if isinstance(d, TraitDef):
                args = [self.expr(a) for a in argx]
                def g(fr):
                    vs = [a(fr) for a in args]
                    if not vs:
                        if hint is not None and hint.d is not None and n in hint.d.methods: return it.call_def(hint.d.methods[n], [])
                        raise Unsupported(self.err(line, 'trait static call'))
                    td = it.typedef(deref(vs[0]))
                    if td is not None:      # several traits of one type may share a method name
                        cs = [f for f in td.assoc.get(n, ()) if f.trait == d.name and f.selfkind is not None]
                        if len(cs) == 1: return it.call_def(cs[0], vs, CC(hint=hint, line=line, file=file))
                    return it.call_method(vs[0], n, vs[1:], CC(hint=hint, line=line, file=file))
                return g
        if isinstance(r, Const):
            args = [self.expr(a) for a in argx]
            return lambda fr: it.call(it_const(it, r), [a(fr) for a in args])
        if isinstance(r, External):
            full = list(r.path)
            # generic parameter: T::method()
            if len(full) == 2 and full[0] in self.generics:
                return self.generic_call(full, argx, line, hint)
            key2 = '::'.join(full[-2:]); key1 = full[-1]; key3 = '::'.join(full[-3:])
            if key1 == 'default' and len(full) >= 2 and not argx:
                if full[-2] == 'Default' :
                    def g(fr):
                        if hint is None: return Opaque('default')
                        return it.default_of(hint)
                    return g
                if 'X::default' and EXT_FN.get(key2) is None:
                    t = Ty(full[-2], tf or ())
                    return lambda fr: it.default_of(t)
            f = EXT_FN.get(key3) or EXT_FN.get(key2)
            if f is None and key1[0].islower() and (len(full) == 1 or full[-2][0].islower()): f = EXT_FN.get(key1)
            tyname_ = full[-2] if len(full) >= 2 else None
            extd = None
            if f is None and tyname_ in self.p.ext_assoc and n in self.p.ext_assoc[tyname_]:
                extd = self.p.ext_assoc[tyname_][n]
            wrap1 = len(full) >= 2 and full[-2] in WRAP and key1 in ('new', 'from', 'pin')
            args = [self.expr(a, hint if wrap1 else None, 'v') for a in argx]
            if wrap1 and f is None: return args[0]
            if f is not None:
                return lambda fr: f(it, [a(fr) for a in args], CC(hint=hint, tf=tf, line=line, file=file, path=full))
            if extd is not None:
                def g(fr):
                    vs = [a(fr) for a in args]
                    best = [x for x in extd if not vs or not x.types() or x.types()[0] is None or it.matches_ty(vs[0], x.types()[0])]
                    return it.call_def((best or extd)[0], vs, CC(hint=hint, line=line, file=file))
                return g
            if len(full) >= 2 and full[-2][:1].isupper() and key1[0].isupper():
                ty = full[-2]
                return lambda fr: Enum(ty, key1, {str(i): a(fr) for i, a in enumerate(args)})
            if key1[0].isupper():
                g2 = EXT_STRUCT.get(key1)
                if g2 is not None: return lambda fr: g2(it, {str(i): a(fr) for i, a in enumerate(args)})
                return lambda fr: Struct(key1, {str(i): a(fr) for i, a in enumerate(args)})
            if len(full) >= 2 and full[-2][:1].isupper():
                ft = EXT_FN.get('T::' + key1)
                if ft is not None:
                    ht = Ty(full[-2], tf or ())
                    return lambda fr: ft(it, [a(fr) for a in args], CC(hint=ht, tf=tf, line=line, file=file, path=full))
                def g(fr):
                    vs = [a(fr) for a in args]
                    if not vs: raise Unsupported(self.err(line, f'call of {"::".join(full)}'))
                    return it.call_method(vs[0], key1, vs[1:], CC(hint=hint, tf=tf, line=line, file=file))
                return g
            def bad(fr): raise Unsupported(self.err(line, f'call of {"::".join(full)}'))
            return bad
        def bad(fr): raise Unsupported(self.err(line, f'call of {"::".join(names)} ({r!r:.60})'))
        return bad
    def generic_call(self, full, argx, line, hint):
        it = self.it; args = [self.expr(a) for a in argx]; g, n = full
        bl = self.generics.get(g) or []
        def f(fr):
            vs = [a(fr) for a in args]
            if vs: 
                try: return it.call_method(vs[0], n, vs[1:], CC(hint=hint, line=line))
                except Unsupported: pass
            gb = getattr(it, 'generic_bindings', {}).get(g)
            if gb is not None and gb.d is not None and n in gb.d.methods: return it.call_def(gb.d.methods[n], vs)
            raise Unsupported(self.err(line, f'{g}::{n} of a type parameter'))
        return f
    def x_MethodCall(self, e, hint, mode):
        _, line, recv, name, tf, argx = e
        it = self.it; file = self.module.file
        tfy = [self.ty(x) for x in tf if x[0] not in ('ConstArg', 'Assoc', 'FnSig')] if tf else None
        rh = None
        if name in ('await', 'unwrap', 'expect', 'unwrap_or_default', 'unwrap_or', 'unwrap_or_else'):
            rh = Ty('Option', [hint]) if hint is not None else None
            if rh is not None and recv[0] == 'MethodCall' and recv[3] in ('parse', 'try_into', 'collect'): rh = Ty('Result', [hint])
        elif name in ('map_err', 'ok_or', 'ok_or_else', 'context', 'with_context', 'boxed', 'clone', 'cloned', 'to_owned', 'iter', 'into_iter', 'as_ref', 'or_else', 'transpose') and hint is not None and name in ('map_err', 'boxed', 'clone', 'or_else'):
            rh = hint
        pl = self.place_or_none(recv)
        rc = None if pl is not None else self.expr(recv, rh, 'p')
        ah = None
        if name in ('unwrap_or',) and hint is not None: ah = hint
        if name in ARG_HINT: ah = Ty(ARG_HINT[name])
        args = [self.expr(a, ah) for a in argx]
        if tfy and self.generics and any(self.mentions(t) for t in tfy):
            tf0 = tfy
            if pl is not None: rc = lambda fr: pl(fr); 
            def f(fr):
                v = rc(fr); p = None
                while type(v) is Ref: p = v; v = v.get()
                return it._dispatch(v, p, name, [a(fr) for a in args], CC(hint, [it.gsub(t) for t in tf0], p, line, file))
            return f
        # hints for arguments once the receiver's repository type is statically unknown: coerced on entry
        if pl is not None:
            def f(fr):
                p = pl(fr)
                v = p.get()
                while type(v) is Ref: p = v; v = v.get()
                return it._dispatch(v, p, name, [a(fr) for a in args], CC(hint, tfy, p, line, file))
            return f
        def f(fr):
            v = rc(fr); p = None
            while type(v) is Ref: p = v; v = v.get()
            return it._dispatch(v, p, name, [a(fr) for a in args], CC(hint, tfy, p, line, file))
        return f
    def mentions(self, t): return (t.d is None and t.n in self.generics) or any(self.mentions(x) for x in t.a)
    # -------- places
    def place_or_none(self, e):
        k = e[0]; it = self.it
        if k == 'Path':
            if e[3] is not None or len(e[2]) != 1: return None
            s = self.lookup(e[2][0][0])
            if s is None: return None
            nm = e[2][0][0]
            def f(fr):
                c = fr[s]
                if c is None: raise Unsupported(f'variable {nm} unset')
                return Ref(lambda: c.v, lambda x: setattr(c, 'v', x))
            return f
        if k == 'Field':
            b = self.place_or_none(e[2]); n = e[3]; line = e[1]
            bc = None if b is not None else self.expr(e[2], None, 'p')
            def f(fr):
                v = deref(b(fr).get() if b is not None else bc(fr))
                return field_place(it, v, n, self, line)
            return f
        if k == 'Index':
            b = self.place_or_none(e[2]); bc = None if b is not None else self.expr(e[2], None, 'p')
            ix = self.expr(e[3], Ty('usize'))
            line = e[1]
            def f(fr):
                v = deref(b(fr).get() if b is not None else bc(fr))
                i = deref(ix(fr))
                return index_place(it, v, i, self, line)
            return f
        if k == 'Unary' and e[2] == '*':
            b = self.place_or_none(e[3]); bc = None if b is not None else self.expr(e[3], None, 'p')
            def f(fr):
                if b is not None:
                    p = b(fr); v = p.get()
                    while type(v) is Ref: p = v; v = v.get()
                    if type(v) is Shared and False: pass
                    td = it.typedef(v)
                    return p
                v = bc(fr)
                if type(v) is Ref:
                    while type(v.get()) is Ref: v = v.get()
                    return v
                return ObjRef(v)
            return f
        return None
    def x_Field(self, e, hint, mode):
        b = self.expr(e[2], None, 'p'); n = e[3]; it = self.it; line = e[1]
        if mode == 'p':
            return lambda fr: it_field(it, deref(b(fr)), n, self, line)
        return lambda fr: copyval(it_field(it, deref(b(fr)), n, self, line))
    def x_Index(self, e, hint, mode):
        b = self.expr(e[2], None, 'p'); it = self.it; line = e[1]
        ix = self.expr(e[3], Ty('usize'))
        def f(fr):
            v = deref(b(fr)); i = deref(ix(fr))
            r = index_place(it, v, i, self, line).get()
            return r if mode == 'p' else copyval(r)
        return f
    def x_Unary(self, e, hint, mode):
        op = e[2]; it = self.it
        if op == '*':
            a = self.expr(e[3], None, 'p')
            def f(fr):
                v = deref(a(fr))
                td = it.typedef(v)
                m = getattr(v, 'deref_', None)
                if m is not None: return m(it)
                return v if mode == 'p' else copyval(v)
            return f
        a = self.expr(e[3], hint)
        if op == '!':
            def f(fr):
                v = deref(a(fr))
                if isinstance(v, bool): return not v
                if z3.is_bool(v): return mkbool(z3.Not(v))
                if type(v) is Int and v.conc() and v.t in INT:
                    lo, hi = INT[v.t]; return Int(hi - v.v if lo == 0 else ~v.v, v.t)
                h = it.user_method(v, 'not')
                if h is not None: return it.call_def(h, [v])
                m = getattr(v, 'op_not', None)
                if m is not None: return m(it)
                g = METHODS.get((tname(v), 'not'))
                if g is not None: return g(it, v, [], CC())
                raise Unsupported(f'! on {v!r:.60}')
            return f
        def f(fr):
            v = deref(a(fr))
            if type(v) is Int:
                if v.t in INT: return it.ranged(-v.v, v.t, 'negate')
                return Int(-v.v, v.t)
            if isinstance(v, float) or is_sym(v): return -v
            g = METHODS.get((tname(v), 'neg'))
            if g is not None: return g(it, v, [], CC())
            raise Unsupported(f'- on {v!r:.60}')
        return f
    def x_Ref(self, e, hint, mode):
        mut = e[2]; it = self.it
        if not mut:
            # &a[x..y], &v ...
            return self.expr(e[3], hint, 'p')
        p = self.place_or_none(e[3])
        if p is not None:
            def f(fr):
                r = p(fr)
                v = r.get()
                if type(v) is Ref: return v
                return r
            return f
        c = self.expr(e[3], hint)
        def f(fr):
            v = c(fr)
            if type(v) is Ref: return v
            cell = Cell(v)
            return Ref(lambda: cell.v, lambda x: setattr(cell, 'v', x))
        return f
    # -------- operators
    def simple(self, e):
        k = e[0]
        if k == 'Lit': return True
        if k == 'Path': return True
        if k == 'Field': return self.simple(e[2])
        if k == 'Ref': return self.simple(e[3])
        if k == 'Unary': return e[2] in ('!', '*') and self.simple(e[3])
        if k == 'Binary': return e[2] in ('==', '!=', '<', '<=', '>', '>=', '&&', '||') and self.simple(e[3]) and self.simple(e[4])
        if k == 'Matches': return False
        return False
    def x_Binary(self, e, hint, mode):
        _, line, op, l, r = e; it = self.it
        if op in ('&&', '||'):
            a = self.expr(l); 
            pure = self.simple(r)
            b = self.expr(r)
            if op == '&&':
                def f(fr):
                    x = deref(a(fr))
                    if x is False: return False
                    if x is True: return deref(b(fr))
                    if pure: return band(x, deref(b(fr)))
                    if not Ctx.cur.branch(x): return False
                    return deref(b(fr))
            else:
                def f(fr):
                    x = deref(a(fr))
                    if x is True: return True
                    if x is False: return deref(b(fr))
                    if pure: return bor(x, deref(b(fr)))
                    if Ctx.cur.branch(x): return True
                    return deref(b(fr))
            return f
        if op in ('==', '!=', '<', '<=', '>', '>='):
            a = self.expr(l, None, 'p'); b = self.expr(r, None, 'p')
            return lambda fr: it.cmp_bool(op, a(fr), b(fr))
        if op.endswith('=') :      # compound assignment
            p = self.place_or_none(l)
            if p is None: 
                lc = self.expr(l, None, 'p')
                p = lambda fr: lc(fr)
            b = self.expr(r); o = op[:-1]
            def f(fr):
                bv = b(fr)
                pl = p(fr)
                while type(pl.get()) is Ref: pl = pl.get()
                pl.set(it.arith(o, pl.get(), bv)); return Tup(())
            return f
        ih = hint if hint is not None and (hint.n in INT or hint.n in FLOATS) else None
        a = self.expr(l, ih if op not in ('<<', '>>') else ih, 'p'); b = self.expr(r, ih if op not in ('<<', '>>') else None, 'p')
        return lambda fr: it.arith(op, a(fr), b(fr))
    def x_Cast(self, e, hint, mode):
        a = self.expr(e[2]); t = self.ty(e[3]); it = self.it
        return lambda fr: it.cast(a(fr), t)
    def x_Assign(self, e, hint, mode):
        it = self.it
        if e[2][0] == 'Infer' or (e[2][0] == 'Path' and [s[0] for s in e[2][2]] == ['_']):
            b = self.expr(e[3])
            def f(fr): b(fr); return Tup(())
            return f
        if e[2][0] == 'Tuple':
            ps = [self.place_or_none(x) for x in e[2][2]]; b = self.expr(e[3])
            def f(fr):
                v = deref(b(fr))
                for p, x in zip(ps, v.a):
                    if p is not None: p(fr).set(x)
                return Tup(())
            return f
        b = self.expr(e[3])
        p = self.place_or_none(e[2])
        if p is None:
            lc = self.expr(e[2], None, 'p')
            p = lc
        if e[2][0] == 'Path':
            s = self.lookup(e[2][2][0][0])
            if s is None: raise Unsupported(self.err(e[1], 'assignment to static'))
            def f(fr):
                v = b(fr)
                c = fr[s]
                old = c.v
                if type(old) is Int and old.t and type(v) is Int and v.t is None: v = Int(v.v, old.t)
                c.v = v; return Tup(())
            return f
        deref_assign = e[2][0] == 'Unary'
        def f(fr):
            v = b(fr); pl = p(fr)
            if not isinstance(pl, Ref): raise Unsupported(self.err(e[1], 'assignment target'))
            old = pl.get()
            while type(old) is Ref and deref_assign: pl = old; old = old.get()
            o = deref(old)
            if type(o) is Int and o.t and type(v) is Int and v.t is None: v = Int(v.v, o.t)
            if not deref_assign and e[2][0] == 'Field':
                b0 = getattr(pl, 'fty', None)
            pl.set(v); return Tup(())
        return f
    # -------- control flow
    def x_Block(self, e, hint, mode):
        b = self.block(e[2], hint); label = e[3] if len(e) > 3 else None
        if label is None: return b
        def f(fr):
            try: return b(fr)
            except BreakEx as x:
                if x.label == label: return x.v
                raise
        return f
    def x_If(self, e, hint, mode):
        self.scopes.append({})
        c = self.expr(e[2]); t = self.block(e[3], hint)
        self.scopes.pop()
        el = self.expr(e[4], hint) if e[4] is not None else None
        def f(fr):
            if Ctx.cur.branch(deref(c(fr))): return t(fr)
            if el is not None: return el(fr)
            return Tup(())
        return f
    def x_Let(self, e, hint, mode):
        p0 = self.place_or_none(e[3])
        c = self.expr(e[3], None, 'p')
        pm = self.pat(e[2])
        if p0 is not None:
            def f(fr):
                pl = p0(fr); v = pl.get()
                return pm(fr, v, pl, False)
            return f
        return lambda fr: pm(fr, c(fr), None, False)
    def x_Match(self, e, hint, mode):
        it = self.it; line = e[1]
        p0 = self.place_or_none(e[2])
        c = self.expr(e[2], None, 'p') if p0 is None else None
        arms = []
        for pat, guard, body in e[3]:
            self.scopes.append({})
            pm = self.pat(pat)
            g = self.expr(guard) if guard is not None else None
            b = self.expr(body, hint)
            self.scopes.pop()
            arms.append((pm, g, b))
        def f(fr):
            if p0 is not None: pl = p0(fr); v = pl.get()
            else: pl = None; v = c(fr)
            for pm, g, b in arms:
                if pm(fr, v, pl, False) and (g is None or Ctx.cur.branch(deref(g(fr)))):
                    return b(fr)
            raise Unsupported(self.err(line, f'no match arm for {deref(v)!r:.100}'))
        return f
    def x_Matches(self, e, hint, mode):
        self.scopes.append({})
        c = self.expr(e[2], None, 'p'); pm = self.pat(e[3])
        g = self.expr(e[4]) if e[4] is not None else None
        self.scopes.pop()
        isassert = e[5] == 'assert_matches'
        def f(fr):
            r = pm(fr, c(fr), None, False) and (g is None or Ctx.cur.branch(deref(g(fr))))
            if isassert:
                if not r: raise Panic('assert_matches failed')
                return Tup(())
            return r
        return f
    def loop(self, e, bodyfn):
        pass
    def x_While(self, e, hint, mode):
        self.scopes.append({})
        c = self.expr(e[2]); b = self.block(e[3]); label = e[4]
        self.scopes.pop()
        line = e[1]
        def f(fr):
            n = 0
            while Ctx.cur.branch(deref(c(fr))):
                n += 1
                if n > 5000: raise LoopBound(self.err(line, 'loop bound'))
                Ctx.cur.steps += 1
                try: b(fr)
                except BreakEx as x:
                    if x.label is None or x.label == label: break
                    raise
                except ContinueEx as x:
                    if x.label is None or x.label == label: continue
                    raise
            return Tup(())
        return f
    def x_Loop(self, e, hint, mode):
        b = self.block(e[2]); label = e[3]; line = e[1]
        def f(fr):
            n = 0
            while True:
                n += 1
                if n > 5000: raise LoopBound(self.err(line, 'loop bound'))
                lim = getattr(Ctx.cur, 'loop_limit', None)
                if lim is not None and n > lim: raise Bounded()
                try: b(fr)
                except BreakEx as x:
                    if x.label is None or x.label == label: return x.v
                    raise
                except ContinueEx as x:
                    if x.label is None or x.label == label: continue
                    raise
        return f
    def x_For(self, e, hint, mode):
        it = self.it
        c = self.expr(e[3], None, 'p')
        self.scopes.append({})
        pm = self.pat(e[2]); b = self.block(e[4]); label = e[5]
        self.scopes.pop()
        def f(fr):
            for x in it.iter_of(c(fr)):
                pm(fr, x, None, False)
                try: b(fr)
                except BreakEx as x:
                    if x.label is None or x.label == label: break
                    raise
                except ContinueEx as x:
                    if x.label is None or x.label == label: continue
                    raise
            return Tup(())
        return f
    def x_Break(self, e, hint, mode):
        label = e[2]; v = self.expr(e[3]) if e[3] is not None else None
        def f(fr): raise BreakEx(label, v(fr) if v else Tup(()))
        return f
    def x_Continue(self, e, hint, mode):
        label = e[2]
        def f(fr): raise ContinueEx(label)
        return f
    def x_Return(self, e, hint, mode):
        v = self.expr(e[2], self.closure_ret[-1] if self.closure_ret else self.ret) if e[2] is not None else None
        def f(fr): raise ReturnEx(v(fr) if v else Tup(()))
        return f
    def x_Try(self, e, hint, mode):
        it = self.it
        rt = self.closure_ret[-1] if self.closure_ret else self.ret
        ety = rt.a[1] if rt is not None and rt.n == 'Result' and len(rt.a) > 1 else (Ty('DataFusionError') if rt is not None and rt.n == 'Result' and len(rt.a) == 1 and self.dfresult() else None)
        a = self.expr(e[2], Ty('Result', [hint]) if hint is not None else None)
        line = e[1]
        def f(fr):
            v = deref(a(fr))
            if type(v) is not Enum: raise Unsupported(self.err(line, f'? on {v!r:.80}'))
            var = v.var
            if var in ('Ok', 'Some'): return v.f['0']
            if var == 'Err': raise ReturnEx(Err(it.convert_err(v.f['0'], ety)))
            if var == 'None': raise ReturnEx(NONE())
            raise Unsupported(self.err(line, f'? on {v!r:.80}'))
        return f
    def dfresult(self):
        r = self.p.resolve(['Result'], self.module, ('type',), None, list(reversed(self.locals)) or None)
        return isinstance(r, External) and any('datafusion' in s for s in r.path)
    def x_Await(self, e, hint, mode):
        it = self.it
        a = self.expr(e[2], hint)
        def f(fr):
            it.sched()
            r = it.await_(a(fr))
            return r
        return f
    def x_Async(self, e, hint, mode):
        it = self.it
        self.closure_ret.append(None)
        b = self.block(e[2], None)
        self.closure_ret.pop()
        mv = e[3] if len(e) > 3 else False
        def f(fr):
            cap = snapshot(fr, mv)
            def go():
                try: return b(cap)
                except ReturnEx as r: return r.v
            return Future(go, 'async block')
        return f
    def x_Closure(self, e, hint, mode):
        it = self.it
        ret = self.ty(e[4]) if e[4] is not None else None
        self.closure_ret.append(ret)
        self.scopes.append({})
        ps = []
        pts = []
        for p in e[2]:
            pts.append(self.ty(p[3]) if p[0] == 'PType' else None)
            ps.append(self.pat(p))
        b = self.expr(e[3], ret)
        self.scopes.pop()
        self.closure_ret.pop()
        isasync = e[5]; mv = e[6] if len(e) > 6 else False
        n = len(ps)
        def f(fr):
            cap = snapshot(fr, mv)
            def call(args):
                if len(args) != n:
                    raise Unsupported(f'closure arity {len(args)} vs {n} at {self.module.file}:{e[1]}')
                fr2 = cap[:]
                for i, pm in enumerate(ps):
                    a = args[i]
                    if pts[i] is not None: a = it.coerce(a, pts[i])
                    pm(fr2, a, None, False)
                def go():
                    try: return b(fr2)
                    except ReturnEx as r: return r.v
                if isasync: return Future(go, 'async closure')
                return go()
            return Fn(call, f'closure@{self.module.file}:{e[1]}')
        return f
    # -------- aggregates
    def x_Tuple(self, e, hint, mode):
        hs = hint.a if hint is not None and hint.n == 'tuple' and len(hint.a) == len(e[2]) else [None] * len(e[2])
        xs = [self.expr(x, h) for x, h in zip(e[2], hs)]
        return lambda fr: Tup([x(fr) for x in xs])
    def x_Array(self, e, hint, mode):
        h = hint.a[0] if hint is not None and hint.a and hint.n in ('Vec', 'VecDeque', 'Array') else None
        xs = [self.expr(x, h) for x in e[2]]
        return lambda fr: Vec([x(fr) for x in xs])
    def x_Repeat(self, e, hint, mode):
        h = hint.a[0] if hint is not None and hint.a else None
        a = self.expr(e[2], h); n = self.expr(e[3], Ty('usize'))
        def f(fr):
            v = a(fr); k = cint(n(fr), 'repeat count')
            return Vec([clone(v) for _ in range(k)])
        return f
    def x_Range(self, e, hint, mode):
        it = self.it
        a = self.expr(e[2]) if e[2] is not None else None; b = self.expr(e[3]) if e[3] is not None else None
        inc = e[4]
        def f(fr):
            lo = deref(a(fr)) if a else None; hi = deref(b(fr)) if b else None
            if type(lo) is Int and type(hi) is Int:
                t = lo.t or hi.t; lo = Int(lo.v, t); hi = Int(hi.v, t)
            d = {}
            if lo is not None: d['start'] = lo
            else: d['start'] = Int(0, 'usize')
            d['end'] = hi
            kind = 'Range' if a and b else 'RangeFrom' if a else 'RangeTo' if b else 'RangeFull'
            s = Struct('Range', d)
            if inc: d['incl'] = True
            s.x = kind
            return s
        return f
    def x_Struct(self, e, hint, mode):
        it = self.it; names = [s[0] for s in e[2]]; line = e[1]
        base = self.expr(e[4], hint) if e[4] is not None else None
        r = self.resolve(names, ('type',)) if names != ['Self'] else self.owner
        if isinstance(r, Ty): r = r.d or External((r.n,))
        if isinstance(r, Alias):
            t = self.p.ty(r.node['ty'], r.module); r = t.d if t.d is not None else External((t.n,))
        if isinstance(r, tuple) and isinstance(r[1], TypeDef) and r[1].kind == 'enum':
            d = r[1]; var = r[2][-1]; ft = d.field_types(self.p, var)
            fs = [(n, self.expr(x, ft.get(n)), ft.get(n)) for n, x in e[3]]
            return lambda fr: Enum(d, var, {n: it.coerce(x(fr), t) for n, x, t in fs})
        if isinstance(r, TypeDef):
            ft = r.field_types(self.p)
            fs = [(n, self.expr(x, ft.get(n)), ft.get(n)) for n, x in e[3]]
            if base is not None and e[4][0] == 'Call': base = self.expr(e[4], Ty(r.name, (), r))
            order = list(ft)
            def f(fr):
                d = {n: it.coerce(x(fr), t) for n, x, t in fs}
                if base is not None:
                    b = deref(base(fr))
                    for k in b.f:
                        if k not in d: d[k] = b.f[k]
                return Struct(r, {k: d[k] for k in order if k in d})
            return f
        if isinstance(r, External) or r is None:
            full = list(r.path) if r is not None else names
            name = full[-1]
            fs = [(n, self.expr(x)) for n, x in e[3]]
            if e[4] is not None and e[4][0] == 'Call': base = self.expr(e[4], Ty(name))
            def f(fr):
                d = {n: x(fr) for n, x in fs}
                if base is not None:
                    b = deref(base(fr))
                    bf = b.f if hasattr(b, 'f') else None
                    if bf is None: raise Unsupported(self.err(line, f'struct update of {name}'))
                    for k in bf:
                        if k not in d: d[k] = bf[k]
                g = EXT_STRUCT.get(name)
                if g is not None: return g(it, d)
                if len(full) >= 2 and full[-2][0].isupper(): return Enum(full[-2], name, d)
                return Struct(name, d)
            return f
        raise Unsupported(self.err(line, f'struct literal {"::".join(names)}'))
    # -------- macros
    def x_Select(self, e, hint, mode):
        arms = [self.expr(a, hint) for a in e[2]]
        def f(fr):
            i = Ctx.cur.user.get('select')   # a harness may fix which arm completes
            return arms[Ctx.cur.choose(len(arms), 'which future completes first') if i is None else i](fr)
        return f
    def x_Macro(self, e, hint, mode):
        _, line, name, args = e
        short = name.split('::')[-1]
        m = getattr(self, 'mac_' + short, None)
        if m is None:
            f = MACROS.get(short)
            if f is None:
                def bad(fr): raise Unsupported(self.err(line, f'macro {name}!'))
                return bad
            cs = [self.expr(a) for a in args]; it = self.it
            return lambda fr: f(it, [c(fr) for c in cs], CC(hint=hint, line=line, file=self.module.file))
        return m(args, line, hint)
    def x_MacroRaw(self, e, hint, mode):
        name = e[2].split('::')[-1]
        if name in ('info', 'debug', 'warn', 'error', 'trace', 'println', 'eprintln', 'print'): return lambda fr: Tup(())
        if name in ('counter', 'gauge', 'histogram'): raise Unsupported(self.err(e[1], f'macro {e[2]}! {e[3][:60]}'))
        f = MACROS.get(name + ':raw')
        if f is not None: return f(self, e[3], e[1])
        def bad(fr): raise Unsupported(self.err(e[1], f'macro {e[2]}! {e[3][:60]}'))
        return bad
    def x_MacroLabels(self, e, hint, mode):
        name = e[2].split('::')[-1]
        if name in ('counter', 'gauge', 'histogram'): return self.metric(name, [x[0] for x in e[3] if x[1] is None], [(x[0], x[1]) for x in e[3] if x[1] is not None])
        def bad(fr): raise Unsupported(self.err(e[1], f'macro {e[2]}!'))
        return bad
    def metric(self, kind, args, labels):
        it = self.it
        k = self.expr(args[0], None, 'p'); ls = [(self.expr(a, None, 'p'), self.expr(b, None, 'v')) for a, b in labels]
        def f(fr): return Metric(kind, it.to_text(k(fr)), [(it.to_text(a(fr)), it.to_text(b(fr))) for a, b in ls])
        return f
    def x_MacroStmts(self, e, hint, mode):
        return self.x_MacroRaw([e[0], e[1], e[2], ''], hint, mode)
    def fmt(self, args):
        it = self.it
        if not args: return lambda fr: ''
        if args[0][0] == 'Macro' and args[0][2] in ('concat',):
            f0 = self.expr(args[0]); return lambda fr: f0(fr)
        if args[0][0] != 'Lit' or args[0][2][0] != 'Str': 
            c = self.expr(args[0]); return lambda fr: it.to_text(c(fr))
        s = args[0][2][1]
        pos = []; named = {}
        for a in args[1:]:
            if a[0] == 'Assign': named[a[2][2][0][0]] = self.expr(a[3], None, 'p')
            else: pos.append(self.expr(a, None, 'p'))
        parts = []
        for kind, x, spec in parse_fmt(s):
            if kind == 's': parts.append((None, x)); continue
            if x.isdigit():
                if int(x) >= len(pos): raise Unsupported('format argument')
                parts.append((pos[int(x)], spec))
            elif x in named: parts.append((named[x], spec))
            else: parts.append((self.expr(['Path', 0, [[x, []]], None], None, 'p'), spec))
        wid = {}
        def f(fr):
            return mktext([x if c is None else it.fmt_spec(c(fr), x) for c, x in parts])
        return f
    def mac_format(self, args, line, hint): return self.fmt(args)
    mac_format_args = mac_format
    def mac_vec(self, args, line, hint): return self.x_Array(['Array', line, args], hint, 'v')
    def mac_panic(self, args, line, hint):
        m = self.fmt(args)
        def f(fr): raise Panic(f'panic at {self.module.file}:{line}: {m(fr)}')
        return f
    mac_unreachable = mac_todo = mac_unimplemented = mac_panic
    def mac_assert(self, args, line, hint):
        c = self.expr(args[0])
        def f(fr):
            if not Ctx.cur.branch(deref(c(fr))): raise Panic(f'assertion failed at {self.module.file}:{line}')
            return Tup(())
        return f
    mac_debug_assert = mac_assert
    def mac_assert_eq(self, args, line, hint, neg=False):
        a = self.expr(args[0], None, 'p'); b = self.expr(args[1], None, 'p'); it = self.it
        def f(fr):
            c = eq(a(fr), b(fr), it)
            if not Ctx.cur.branch(bnot(c) if neg else c): raise Panic(f'assertion failed at {self.module.file}:{line}')
            return Tup(())
        return f
    mac_debug_assert_eq = mac_assert_eq
    def mac_assert_ne(self, args, line, hint): return self.mac_assert_eq(args, line, hint, True)
    def log(self, args, line):
        cs = []
        for a in args:
            try: cs.append(self.fmt([a]) if a[0] == 'Lit' and a[2][0] == 'Str' and '{' in a[2][1] and len(args) == 1 else self.expr(a, None, 'p'))
            except Unsupported: pass
        def f(fr):
            for c in cs:
                try: c(fr)
                except Unsupported: pass
            return Tup(())
        return f
    def mac_info(self, args, line, hint): return self.log([a for a in args if not (a[0] == 'Lit')], line)
    mac_debug = mac_warn = mac_error = mac_trace = mac_println = mac_eprintln = mac_print = mac_eprint = mac_info
    def null(self, args, line, hint): return lambda fr: NullMetric()
    def mac_counter(self, args, line, hint): return self.metric('counter', args, [])
    def mac_gauge(self, args, line, hint): return self.metric('gauge', args, [])
    def mac_histogram(self, args, line, hint): return self.metric('histogram', args, [])
    mac_describe_counter = mac_describe_gauge = mac_describe_histogram = null
    def mac_write(self, args, line, hint, nl=False):
        it = self.it
        p = self.place_or_none(args[0]) or self.expr(args[0], None, 'p')
        m = self.fmt(args[1:]) if len(args) > 1 else (lambda fr: '')
        def f(fr):
            t = m(fr)
            if nl: t = mktext([t, '\n'])
            pl = p(fr); v = deref(pl)
            if isinstance(v, Formatter): v.push(t); return Ok(UNIT())
            if type(v) in (str, SymStr, Text):
                while type(pl.get()) is Ref: pl = pl.get()
                pl.set(mktext([v, t])); return Ok(UNIT())
            if hasattr(v, 'write_text'): return v.write_text(it, t)
            raise Unsupported(f'write! to {v!r:.60}')
        return f
    def mac_writeln(self, args, line, hint): return self.mac_write(args, line, hint, True)
    def mac_concat(self, args, line, hint):
        cs = [self.expr(a) for a in args]; it = self.it
        return lambda fr: mktext([it.to_text(c(fr)) for c in cs])
    def mac_env(self, args, line, hint):
        n = args[0][2][1]
        return lambda fr: f'<{n}>'
    def mac_include_str(self, args, line, hint): return lambda fr: '<file>'
    def dferr(self, var):
        def g(args, line, hint):
            m = self.fmt(args)
            return lambda fr: Err(Enum('DataFusionError', var, {'0': m(fr)}))
        return g
    def mac_not_impl_err(self, a, l, h): return self.dferr('NotImplemented')(a, l, h)
    def mac_plan_err(self, a, l, h): return self.dferr('Plan')(a, l, h)
    def mac_exec_err(self, a, l, h): return self.dferr('Execution')(a, l, h)
    def mac_internal_err(self, a, l, h): return self.dferr('Internal')(a, l, h)
    def dferr_d(self, var):
        def g(args, line, hint):
            m = self.fmt(args)
            return lambda fr: Enum('DataFusionError', var, {'0': m(fr)})
        return g
    def mac_internal_datafusion_err(self, a, l, h): return self.dferr_d('Internal')(a, l, h)
    def mac_exec_datafusion_err(self, a, l, h): return self.dferr_d('Execution')(a, l, h)
    def mac_plan_datafusion_err(self, a, l, h): return self.dferr_d('Plan')(a, l, h)
    def mac_parser_err(self, args, line, hint):
        m = self.fmt(args)
        return lambda fr: Err(Enum('ParserError', 'ParserError', {'0': m(fr)}))
    def mac_pin_mut(self, args, line, hint): return lambda fr: Tup(())
    def mac_try_join(self, args, line, hint):
        cs = [self.expr(a) for a in args]; it = self.it
        def f(fr):
            out = []
            for c in [c(fr) for c in cs]:
                v = it.await_(c)
                if v.var == 'Err': return v
                out.append(v.f['0'])
            return Ok(Tup(out))
        return f
    def mac_join(self, args, line, hint):
        cs = [self.expr(a) for a in args]; it = self.it
        return lambda fr: Tup([it.await_(v) for v in [c(fr) for c in cs]])
    def mac_izip(self, args, line, hint):
        cs = [self.expr(a, None, 'p') for a in args]; it = self.it
        def f(fr):
            gs = [it.iter_of(c(fr)) for c in cs]
            return Iter(Tup(t) for t in zip(*gs))
        return f
    def mac_anyhow(self, args, line, hint):
        m = self.fmt(args); return lambda fr: Struct('AnyhowError', {'0': m(fr)})
    def mac_bail(self, args, line, hint):
        m = self.fmt(args)
        def f(fr): raise ReturnEx(Err(Struct('AnyhowError', {'0': m(fr)})))
        return f

def _N(fc): return fc.n

class Metric(Obj):
    """a metric handle; the recorder (ctx.user['metrics']) maps (kind, name, labels) -> list of (operation, value)"""
    def __init__(self, kind, name, labels): self.kind = kind; self.name = name; self.labels = labels
    def rec(self, op, v): Ctx.cur.user.setdefault('metrics', []).append((self.kind, self.name, self.labels, op, v)); return Tup(())
    def m_increment(self, it, a, c): return self.rec('inc', deref(a[0]))
    def m_decrement(self, it, a, c): return self.rec('dec', deref(a[0]))
    def m_set(self, it, a, c): return self.rec('set', deref(a[0]))
    def m_absolute(self, it, a, c): return self.rec('abs', deref(a[0]))
    def m_record(self, it, a, c): return self.rec('rec', deref(a[0]))
    def m_clone(self, it, a, c): return self
class NullMetric(Obj):
    def method_missing(self, it, name, args, c): return Tup(())

class ExtCtor:
    """name of an external tuple/unit struct used as a value"""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def call_(self, it, args):
        g = EXT_STRUCT.get(self.name)
        f = {str(i): x for i, x in enumerate(args)}
        return g(it, f) if g else Struct(self.name, f)
    def eq_(self, o): return isinstance(o, ExtCtor) and o.name == self.name

class ObjRef(Ref):
    __slots__ = ()
    def __init__(self, v):
        def s(x):
            if not become(v, x): raise Unsupported(f'*{v!r:.40} = {x!r:.40}')
        Ref.__init__(self, lambda: v, s)

def snapshot(fr, mv):
    if not mv: return fr[:]
    out = fr[:]
    for i, c in enumerate(out):
        if c is not None and isinstance(c.v, (Int, bool, str, float, Char, Text, SymStr)): out[i] = Cell(c.v)
    return out

def it_const(it, c):
    if not c.done:
        d = FnDef('<const>', {'sig': {'name': '<const>', 'params': [], 'ret': c.node['ty'], 'async': False, 'generics': []},
                              'body': [['Expr', c.node['line'], c.node['expr'], False]]}, c.module, it.p, None, c.owner)
        v = it.call_def(d, [])
        if isinstance(v, (Shared, Obj, Map, Vec)) : pass
        k = id(c)
        cache = Ctx.cur.user.setdefault('consts', {})
        if k in cache: return cache[k]
        cache[k] = v
        return v
    return c.v

def it_field(it, v, n, fc=None, line=0):
    t = type(v)
    if t is Struct:
        if n in v.f: return v.f[n]
        td = it.typedef(v)
        if td is not None and 'deref' in td.methods: return it_field(it, deref(it.call_def(td.methods['deref'], [v])), n, fc, line)
    elif t is Tup:
        i = int(n)
        if i < len(v.a): return v.a[i]
    elif t is Enum and n in v.f: return v.f[n]
    elif t is Shared: return it_field(it, deref(v.v), n, fc, line)
    elif t is Opaque and n in v.f: return v.f[n]
    elif isinstance(v, Obj):
        g = getattr(v, 'f_' + n, None)
        if g is not None: return g() if callable(g) and not isinstance(g, Obj) else g
        fs = getattr(v, 'f', None)
        if isinstance(fs, dict) and n in fs: return fs[n]
    raise Unsupported(f'field {n} of {v!r:.80}' + (f' at {fc.module.file}:{line}' if fc else ''))

def field_place(it, v, n, fc, line):
    t = type(v)
    if t is Struct and n in v.f:
        f = v.f; td = it.typedef(v)
        if td is not None:
            ft = td.field_types(it.p).get(n)
            return Ref(lambda: f[n], lambda x: f.__setitem__(n, it.coerce(x, ft)))
        return Ref(lambda: f[n], lambda x: f.__setitem__(n, x))
    if t is Tup: return it.elem_ref(v.a, int(n))
    if t is Enum and n in v.f: return it.elem_ref(v.f, n)
    if isinstance(v, Obj) and isinstance(getattr(v, 'f', None), dict): return it.elem_ref(v.f, n)
    x = it_field(it, v, n, fc, line)
    def bad(_): raise Unsupported(f'assignment to field {n} of {v!r:.60}')
    if isinstance(x, Ref): return x
    return Ref(lambda: x, bad)

def conc_index(i, n, what='index'):
    """resolve a possibly symbolic index within 0..n; forks; panics out of bounds"""
    x = i.v
    if isinstance(x, int):
        if x >= n or x < 0: raise Panic(f'index out of bounds: the len is {n} but the index is {x}')
        return x
    for k in range(n):
        if Ctx.cur.branch(x == k): return k
    raise Panic(f'index out of bounds: the len is {n}')

def index_place(it, v, i, fc, line):
    t = type(v)
    if type(i) is Struct and i.ty == 'Range':
        if t is Vec:
            lo, hi = slice_bounds(i, len(v.a))
            sub = Vec(SList(v.a, lo, hi))
            return Ref(lambda: sub, lambda x: None)
        if t is str:
            lo, hi = slice_bounds(i, len(v.encode()))
            try: s = v.encode()[lo:hi].decode()
            except UnicodeDecodeError: raise Panic('byte index is not a char boundary')
            return Ref(lambda: s, lambda x: None)
        if t is Text and any(type(p) is Char for p in v.p):
            from .symchars import cl, from_cl
            cs = cl(v)
            if cs is not None:
                lo, hi = slice_bounds(i, len(cs)); r = from_cl(cs[lo:hi])
                return Ref(lambda: r, lambda x: None)
        if t in (SymStr, Text):
            lo = i.f['start'].v; e = strterm(v); L = z3.Length(e)
            hi = i.f['end'].v if i.f['end'] is not None else L
            if not Ctx.cur.branch(z3.And(lo <= hi, hi <= L)): raise Panic('string slice out of bounds')
            r = SymStr(z3.simplify(z3.SubString(e, lo, hi - lo)))
            return Ref(lambda: r, None)
        m = getattr(v, 'slice_', None)
        if m is not None:
            r = m(it, i); return Ref(lambda: r, lambda x: None)
    if t is Vec and type(i) is Int:
        return it.elem_ref(v.a, conc_index(i, len(v.a)))
    if t is Map:
        k = it.map_find(v, i)
        if k < 0: raise Panic('key not found in map index')
        return it.elem_ref(v.e[k], 1)
    m = getattr(v, 'index_', None)
    if m is not None:
        r = m(it, i)
        if isinstance(r, Ref): return r
        return Ref(lambda: r, lambda x: None)
    td = it.typedef(v)
    if td is not None and 'index' in td.methods:
        r = it.call_def(td.methods['index'], [v, i]); return Ref(lambda: r, lambda x: None)
    if td is not None and 'deref' in td.methods:
        return index_place(it, deref(it.call_def(td.methods['deref'], [v])), i, fc, line)
    raise Unsupported(f'index {i!r:.40} of {v!r:.60} at {fc.module.file}:{line}')

class SList(list):
    """a sub-slice that writes through"""
    def __init__(self, p, lo, hi): super().__init__(p[lo:hi]); self.p = p; self.lo = lo
    def __setitem__(self, i, v):
        list.__setitem__(self, i, v)
        if isinstance(i, int): self.p[self.lo + i] = v
        else:
            for j, x in enumerate(self): self.p[self.lo + j] = x
def slice_bounds(r, n):
    lo = r.f['start']; hi = r.f['end']
    def res(x):
        if isinstance(x.v, int): return x.v
        for k in range(n + 1):
            if Ctx.cur.branch(x.v == k): return k
        raise Panic('slice index out of range')
    lo = res(lo) if lo is not None else 0
    hi = (res(hi) + (1 if r.f.get('incl') else 0)) if hi is not None else n
    if lo > hi: raise Panic(f'slice index starts at {lo} but ends at {hi}')
    if hi > n: raise Panic(f'range end index {hi} out of range for slice of length {n}')
    return lo, hi
