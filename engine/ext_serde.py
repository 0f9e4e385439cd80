"""serde derive(Deserialize) semantics read from the source's attributes, and the config crate's builder."""
import re
from .values import *
from .core import *
from . import interp as I
from .interp import EXT_FN
BAD = Err(Enum('ConfigError', 'Message', {'0': 'deserialisation'}))

class DeErr(Exception): pass
def serde_attrs(attrs):
    out = {}
    for a in attrs or []:
        a = a.replace(' ', '')
        m = re.match(r'serde\((.*)\)$', a)
        if not m: continue
        for p in re.findall(r'([A-Za-z_]+)(?:="([^"]*)")?', m.group(1)):
            out[p[0]] = p[1] if p[1] else True
    return out
def snake(s): return re.sub(r'(?<!^)(?=[A-Z])', '_', s).lower()
def rename(s, rule):
    if rule is None: return s
    if rule == 'snake_case': return snake(s)
    if rule == 'lowercase': return s.lower()
    if rule == 'kebab-case': return snake(s).replace('_', '-')
    if rule == 'SCREAMING_SNAKE_CASE': return snake(s).upper()
    raise Unsupported(f'serde rename_all {rule}')

class De(Obj):
    """a deserializer holding one value"""
    def __init__(self, v): self.v = v
def _string_de(it, a, c):
    d = deref(a[0])
    if isinstance(d.v, (str, SymStr, Text)): return Ok(d.v)
    return BAD
EXT_FN['String::deserialize'] = _string_de

def default_of(it, ty): return it.default_of(ty)

def call_named(it, name, module):
    r = it.p.resolve(name.split('::'), module, ('fn',))
    return it.call_def(r, [])

def de(it, ty, v):
    """value of type ty from v (dict / str / SymStr / Int / bool); raises DeErr"""
    d = ty.d
    if ty.n == 'Option': return Some(de(it, ty.a[0], v))
    if d is None:
        if ty.n == 'String' or ty.n in ('PathBuf',):
            if isinstance(v, (str, SymStr, Text)): return v
            raise DeErr()
        if ty.n == 'bool':
            if isinstance(v, bool) or is_sym(v): return v
            raise DeErr()
        if ty.n in INT:
            if isinstance(v, int) and not isinstance(v, bool): v = Int(v, ty.n)
            if type(v) is not Int: raise DeErr()
            lo, hi = INT[ty.n]
            ok = z3.And(v.v >= lo, v.v <= hi) if is_sym(v.v) else lo <= v.v <= hi
            if not Ctx.cur.branch(ok): raise DeErr()
            return Int(v.v, ty.n)
        if ty.n in ('HashMap', 'Map') and isinstance(v, dict): return Map('HashMap', [[k, de(it, ty.a[1], x)] for k, x in v.items()])
        raise Unsupported(f'deserialise {ty.n}')
    if 'Deserialize' not in d.derives:
        f = d.assoc.get('deserialize')
        if not f: raise DeErr()
        r = deref(it.call_def(f[0], [De(v)]))
        if r.var == 'Err': raise DeErr()
        return r.f['0']
    ca = serde_attrs(d.attrs)
    if d.kind == 'enum':
        rule = ca.get('rename_all'); names = {}
        for vn, node in d.variants.items():
            va = serde_attrs(node[3] if len(node) > 3 else [])
            names[va.get('rename') or rename(vn, rule)] = vn
            if 'alias' in va: names[va['alias']] = vn
        if 'tag' in ca:
            if not isinstance(v, dict) or ca['tag'] not in v: raise DeErr()
            tag = v[ca['tag']]; rest = {k: x for k, x in v.items() if k != ca['tag']}
            if not isinstance(tag, str):
                for n in names:
                    if Ctx.cur.branch(eq(tag, n)): tag = n; break
                else: raise DeErr()
        else:
            if isinstance(v, dict) and len(v) == 1: tag, rest = list(v.items())[0]
            else: tag, rest = v, None
        if tag not in names: raise DeErr()
        vn = names[tag]; ft = d.field_types(it.p, vn)
        if not ft: return it.mke(d.path, vn)
        if d.field_kind(vn) in ('Unnamed', 'tuple', 'Tuple') or list(ft) == ['0']: return it.mke(d.path, vn, **{'0': de(it, ft['0'], rest)})
        raise Unsupported('enum variant with named fields')
    if not isinstance(v, dict): raise DeErr()
    f = {}; base = None
    ft = d.field_types(it.p)
    if 'deny_unknown_fields' in ca and set(v) - set(ft): raise DeErr()
    for node in d.node['fields'][1]:
        n = node[0]; fa = serde_attrs(node[2] if len(node) > 2 else [])
        if n not in ft: continue
        if 'skip' in fa or 'skip_deserializing' in fa: f[n] = default_of(it, ft[n]); continue
        key = fa.get('rename') or rename(n, ca.get('rename_all'))
        keys = [key] + ([fa['alias']] if 'alias' in fa else [])
        got = [k for k in keys if k in v]
        if got:
            t = ft[n]
            if 'with' in fa and isinstance(fa['with'], str): 
                w = it.p.resolve([fa['with']], d.module, ('type',))
                x = v[got[0]]; cw = serde_attrs(w.attrs)
                for vn in w.vorder:
                    if Ctx.cur.branch(eq(x, rename(vn, cw.get('rename_all')))): f[n] = Enum(t.n, vn, {}); break
                else: raise DeErr()
            else: f[n] = de(it, t, v[got[0]])
        elif 'default' in fa:
            f[n] = default_of(it, ft[n]) if fa['default'] is True else call_named(it, fa['default'], d.module)
        elif 'default' in ca:
            if base is None: base = default_of(it, Ty(d.name, (), d)) if ca['default'] is True else call_named(it, ca['default'], d.module)
            f[n] = clone(deref(base).f[n])
        elif ft[n].n == 'Option' and 'with' not in fa: f[n] = NONE()
        else: raise DeErr()
    return it.mk(d.path, **f)

def from_value(it, name, v):
    """Ok(value)/Err"""
    d = it.find_type(name)
    try: return Ok(de(it, Ty(d.name, (), d), v))
    except DeErr: return clone(BAD)

# --- config crate
class Src(Obj):
    def __init__(self, kind, **f): self.kind = kind; self.o = f
    def m_required(self, it, a, c): self.o['required'] = deref(a[0]); return self
    def m_separator(self, it, a, c): self.o['separator'] = deref(a[0]); return self
    def m_prefix_separator(self, it, a, c): self.o['prefix_separator'] = deref(a[0]); return self
    def m_source(self, it, a, c): self.o['source'] = deref(a[0]); return self
    def m_format(self, it, a, c): self.o['format'] = deref(a[0]); return self
    def m_try_parsing(self, it, a, c): self.o['try_parsing'] = deref(a[0]); return self
    def m_list_separator(self, it, a, c): self.o['list_separator'] = deref(a[0]); return self
class Builder(Obj):
    def __init__(self): self.s = []
    def m_add_source(self, it, a, c): self.s.append(deref(a[0])); return self
    def m_build(self, it, a, c):
        Ctx.cur.user.setdefault('config sources', []).append(self.s)
        r = Ctx.cur.user.get('config build')
        return r if r is not None else Ok(Built(self.s))
class Built(Obj):
    def __init__(self, s): self.s = s
    def m_try_deserialize(self, it, a, c): return Ctx.cur.user['try_deserialize'](it, self.s)
EXT_FN['Config::builder'] = lambda it, a, c: Builder()
EXT_FN['File::with_name'] = lambda it, a, c: Src('file', name=deref(a[0]))
EXT_FN['File::from_str'] = lambda it, a, c: Src('text', text=deref(a[0]), format=deref(a[1]))
EXT_FN['Environment::with_prefix'] = lambda it, a, c: Src('env', prefix=deref(a[0]))
EXT_FN['Environment::default'] = lambda it, a, c: Src('env', prefix=None)

# --- std::path (text only, Unix separators)
class FsPath(Obj):
    def __init__(self, t): self.t = t
    def m_join(self, it, a, c):
        x = deref(a[0]); x = x.t if isinstance(x, FsPath) else x
        if isinstance(x, str) and x.startswith('/'): return FsPath(x)
        sep = '' if isinstance(self.t, str) and (self.t.endswith('/') or self.t == '') else '/'
        return FsPath(mktext([self.t, sep, x]) if not (isinstance(self.t, str) and isinstance(x, str)) else self.t + sep + x)
    def m_to_str(self, it, a, c): return Some(self.t)
    def m_to_string_lossy(self, it, a, c): return self.t
    def m_display(self, it, a, c): return self.t
    def m_to_path_buf(self, it, a, c): return FsPath(self.t)
    def m_as_path(self, it, a, c): return self
    def m_as_ref(self, it, a, c): return self
    def m_exists(self, it, a, c): return Ctx.cur.user['exists'](self)
    def m_clone(self, it, a, c): return FsPath(self.t)
    def eq_(self, o): return eq(self.t, o.t if isinstance(o, FsPath) else o)
    def display_(self): return self.t
EXT_FN['Path::new'] = lambda it, a, c: deref(a[0]) if isinstance(deref(a[0]), FsPath) else FsPath(deref(a[0]))
EXT_FN['PathBuf::from'] = EXT_FN['Path::new']
