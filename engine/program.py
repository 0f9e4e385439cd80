"""Loads the repository's AST: modules, items, impls, name resolution."""
import json, os, subprocess, sys
from .values import *

HERE = os.path.dirname(os.path.abspath(__file__))
FRONT = os.path.join(HERE, '..', 'front', 'target', 'release', 'front')
WRAP = ('Arc', 'Rc', 'Box', 'Pin', 'Cow', 'Ref', 'RefMut')

class TypeDef:
    def __init__(self, name, path, node, module, kind):
        self.name = name; self.path = path; self.node = node; self.module = module; self.kind = kind
        at = node.get('attrs', [])
        self.attrs = at
        der = ' '.join(a for a in at if a.startswith('derive'))
        self.derives = set(der.replace('derive', '').replace('(', ' ').replace(')', ' ').replace(',', ' ').replace('::', ' ').split())
        self.copy = 'Copy' in self.derives
        self.methods = {}     # name -> FnDef (inherent + trait, unique)
        self.assoc = {}       # name -> [FnDef]   (all, incl. several From impls)
        self.consts = {}; self.types = {}; self.traits = []
        self._ft = None
        if kind == 'enum':
            self.variants = {v[0]: v for v in node['variants']}
            self.vorder = [v[0] for v in node['variants']]
    def __repr__(self): return f'<type {self.path}>'
    def field_types(self, prog, var=None):
        if self._ft is None: self._ft = {}
        if var not in self._ft:
            fields = self.node['fields'] if var is None else self.variants[var][1]
            self._ft[var] = {f[0]: prog.ty(f[1], self.module, self) for f in fields[1]}
        return self._ft[var]
    def field_kind(self, var=None):
        return (self.node['fields'] if var is None else self.variants[var][1])[0]

class TraitDef:
    def __init__(self, name, path, node, module):
        self.name = name; self.path = path; self.node = node; self.module = module
        self.defaults = {}; self.blanket = {}
        self.implementors = []

class FnDef:
    __slots__ = ('name', 'node', 'module', 'self_ty', 'sig', 'prog', 'code', 'trait', 'trait_args', 'selfkind',
                 'is_async', 'qname', 'ptypes', 'ret', 'generics', 'owner', 'outer')
    def __init__(self, name, node, module, prog, self_ty=None, owner=None, trait=None, trait_args=(), outer=None):
        self.name = name; self.node = node; self.module = module; self.prog = prog; self.self_ty = self_ty
        self.sig = node['sig']; self.code = None; self.trait = trait; self.trait_args = trait_args
        self.owner = owner; self.outer = outer
        self.generics = {g[0]: g[1] for g in self.sig['generics']}
        ps = self.sig['params']
        self.selfkind = None
        if ps and ps[0][0] == 'self':
            self.selfkind = ('refmut' if ps[0][2] else 'ref') if ps[0][1] else 'value'
            if ps[0][3] is not None:
                tn = ps[0][3]
                if tn[0] == 'Ref': self.selfkind = 'refmut' if tn[1] else 'ref'
                elif tn[0] == 'Path' and tn[1][-1][0] == 'Pin': self.selfkind = 'refmut'
        self.is_async = self.sig['async']
        self.ptypes = None; self.ret = None
        self.qname = f"{module.file}::{(owner.name + '::') if owner is not None and hasattr(owner, 'name') else ''}{name}"
    def types(self):
        if self.ptypes is None:
            self.ptypes = [self.prog.ty(p[2], self.module, self.owner, self.generics, [self.outer] if isinstance(self.outer, dict) else self.outer) if p[0] == 'param' else None for p in self.sig['params']]
            self.ret = self.prog.ty(self.sig['ret'], self.module, self.owner, self.generics, [self.outer] if isinstance(self.outer, dict) else self.outer)
        return self.ptypes
    def __repr__(self): return f'<fn {self.qname}>'

class Module:
    def __init__(self, path, file, crate):
        self.path = path; self.file = file; self.crate = crate
        self.items = {}      # (ns, name) -> def
        self.uses = {}       # name -> abs-or-ext path list
        self.globs = []
        self.impls = []

class External:
    __slots__ = ('path',)
    def __init__(self, path): self.path = tuple(path)
    def __repr__(self): return 'ext:' + '::'.join(self.path)

class Const:
    def __init__(self, node, module, owner=None): self.node = node; self.module = module; self.v = None; self.done = False; self.owner = owner

class Alias:
    def __init__(self, node, module): self.node = node; self.module = module

NSKEYS = ('type', 'fn', 'const', 'mod')

def is_test(attrs):
    for a in attrs:
        b = a.replace(' ', '')
        if b.startswith('cfg(') and 'test' in b and 'not(test)' not in b and 'feature' not in b: return True
        if b in ('test', 'tokio::test', 'rstest') or b.startswith('tokio::test(') : return True
    return False

class Program:
    def __init__(self, repo='/repo', files=None, workdir=None, features=('frontend-postgres',)):
        import tempfile, shutil
        self.repo = repo; self.modules = {}; self.crates = {}
        out = tempfile.mkdtemp(prefix='ast', dir=workdir)
        try:
            if files is None:
                files = []
                for base in ('src', 'object_store_factory/src', 'datafusion_remote_tables/src', 'clade/src'):
                    for dp, dn, fn in os.walk(os.path.join(repo, base)):
                        for f in fn:
                            if f.endswith('.rs'): files.append(os.path.relpath(os.path.join(dp, f), repo))
            if not os.path.exists(FRONT):
                env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2024-12-30')
                subprocess.run(['cargo', 'build', '--offline', '--release', '-q'], cwd=os.path.join(HERE, '..', 'front'), env=env, check=True)
            r = subprocess.run([FRONT, out, repo] + sorted(files), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0: raise Unsupported('front end: ' + r.stderr.strip()[:2000])
            self.files = sorted(files)
            for f in self.files:
                with open(os.path.join(out, f.replace('/', '__') + '.json')) as h: ast = json.load(h)
                self.add_file(f, ast)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        self.types_by_name = {}
        self.traits_by_name = {}
        for m in list(self.modules.values()):
            for (ns, n), d in m.items.items():
                if isinstance(d, TypeDef): self.types_by_name.setdefault(n, []).append(d)
                if isinstance(d, TraitDef): self.traits_by_name.setdefault(n, []).append(d)
        self.ext_methods = {}     # external type name -> {method: FnDef}
        self.ext_assoc = {}
        self.ext_traits = {}
        self.from_impls = []      # (target Ty, source Ty, FnDef)
        self.conv = {}
        for m in list(self.modules.values()):
            for im in m.impls: self.add_impl(m, im)
    # ---- modules
    def add_file(self, f, ast):
        parts = f[:-3].split('/')
        i = parts.index('src')
        crate = parts[i-1] if i > 0 else 'seafowl'
        mp = parts[i+1:]
        if mp == ['main']: crate = 'seafowl_main'; mp = []
        elif mp and mp[-1] in ('mod',): mp = mp[:-1]
        elif mp == ['lib']: mp = []
        path = (crate,) + tuple(mp)
        self.add_module(path, f, crate, ast['items'])
    def add_module(self, path, f, crate, items):
        m = self.modules.get(path)
        if m is None: m = self.modules[path] = Module(path, f, crate)
        else: m.file = f
        if len(path) > 1:
            par = self.modules.setdefault(path[:-1], Module(path[:-1], f, crate))
            par.items.setdefault(('mod', path[-1]), m)
        for it in items: self.add_item(m, it)
        return m
    def add_item(self, m, it):
        if is_test(it.get('attrs', [])): return
        k = it['k']
        if k == 'fn': m.items[('fn', it['sig']['name'])] = FnDef(it['sig']['name'], it, m, self)
        elif k == 'struct': m.items[('type', it['name'])] = TypeDef(it['name'], '::'.join(m.path + (it['name'],)), it, m, 'struct')
        elif k == 'enum': m.items[('type', it['name'])] = TypeDef(it['name'], '::'.join(m.path + (it['name'],)), it, m, 'enum')
        elif k == 'trait':
            t = TraitDef(it['name'], '::'.join(m.path + (it['name'],)), it, m)
            m.items[('type', it['name'])] = t
            for x in it['items']:
                if x['k'] == 'fn' and x['body'] is not None: t.defaults[x['sig']['name']] = (x, m)
        elif k == 'const': m.items[('const', it['name'])] = Const(it, m)
        elif k == 'type': m.items[('type', it['name'])] = Alias(it, m)
        elif k == 'use':
            for name, p in it['uses']:
                if name == '*': m.globs.append(p)
                else: m.uses[name] = p
        elif k == 'mod':
            if it['items'] is not None: self.add_module(m.path + (it['name'],), m.file, m.crate, it['items'])
        elif k == 'impl': m.impls.append(it)
        elif k == 'macro' and it.get('statics'):
            for s in it['statics']: self.add_item(m, s)
    def add_impl(self, m, im, local=None, outer=None):
        tr = im['trait']; trn = tr[-1][0] if tr else None
        gens = {g[0]: g[1] for g in im['generics']}
        ty = self.ty(im['ty'], m, None, gens, local)
        targs = [self.ty(a, m, None, gens) for a in tr[-1][1]] if tr else []
        owner = ty.d
        blanket = owner is None and ty.n in gens
        trd = None
        if tr:
            r = self.resolve([s[0] for s in tr], m, ('type',))
            if isinstance(r, TraitDef): trd = r
        have = set()
        if owner is not None:
            methods, assoc = owner.methods, owner.assoc; owner.traits.append(trn)
        elif blanket:
            if trd is None: return
            methods, assoc = trd.blanket, {}
        else:
            methods = self.ext_methods.setdefault(ty.n, {}); assoc = self.ext_assoc.setdefault(ty.n, {})
            self.ext_traits.setdefault(ty.n, []).append(trn)
        ow = owner if owner is not None else ty
        for x in im['items']:
            if is_test(x.get('attrs', [])): continue
            if x['k'] == 'fn':
                n = x['sig']['name']; have.add(n)
                if owner is not None and x.get('attrs') and False: pass
                fd = FnDef(n, x, m, self, ty, ow, trn, targs, outer)
                fd.generics = dict(gens, **fd.generics)
                assoc.setdefault(n, []).append(fd)
                if trn in ('Display', 'Debug') and n == 'fmt':
                    methods['fmt:' + trn] = fd; continue
                if n in methods and trn is not None and methods[n].trait is None: continue   # inherent wins
                methods[n] = fd
                if trn in ('From', 'TryFrom') and n in ('from', 'try_from'): self.from_impls.append((trn, ty, targs[0], fd))
                if trn == 'Into' and n == 'into': self.from_impls.append(('Into', targs[0], ty, fd))
            elif x['k'] == 'const' and owner is not None: owner.consts[x['name']] = Const(x, m, owner)
            elif x['k'] == 'type' and owner is not None: owner.types[x['name']] = (x['ty'], m)
        if trd is not None:
            trd.implementors.append(ow)
            for n, (x, tm) in trd.defaults.items():
                if n not in have and n not in methods:
                    fd = FnDef(n, x, tm, self, ty, ow, trn, targs)
                    methods[n] = fd; assoc.setdefault(n, []).append(fd)
    # ---- name resolution
    def resolve(self, segs, module, ns=NSKEYS, seen=None, local=None):
        """segs: list of names. returns item def or External"""
        seen = seen or set()
        key = (tuple(segs), module.path, tuple(ns))
        if key in seen: return None
        seen = seen | {key}
        s0 = segs[0]
        if s0 in ('crate', 'self', 'super', '$crate') or (s0 in self.crate_names() and not (len(segs) == 1)):
            if s0 in ('crate', '$crate'): cur = self.modules.get((module.crate,)); rest = segs[1:]
            elif s0 == 'self': cur = module; rest = segs[1:]
            elif s0 == 'super':
                cur = self.modules.get(module.path[:-1]); rest = segs[1:]
                while rest and rest[0] == 'super': cur = self.modules.get(cur.path[:-1]); rest = rest[1:]
            else: cur = self.modules.get((s0,)); rest = segs[1:]
            if cur is None: return External(segs)
            if not rest: return cur
            r = self.in_module(rest, cur, ns, seen)
            return r if r is not None else External(segs)
        if local is not None:
            for l in local:
                r = l.get(s0)
                if r is not None:
                    if isinstance(r, list):
                        return self.resolve(r + segs[1:], module, ns, seen)
                    return self.descend(r, segs[1:], ns, seen)
        r = self.in_module(segs, module, ns, seen)
        return r if r is not None else External(segs)
    def crate_names(self):
        return ('seafowl', 'object_store_factory', 'datafusion_remote_tables', 'clade')
    def descend(self, d, rest, ns, seen):
        if not rest: return d
        if isinstance(d, Module): return self.in_module(rest, d, ns, seen)
        if isinstance(d, Alias):
            t = self.ty(d.node['ty'], d.module)
            if t.d is not None: return self.descend(t.d, rest, ns, seen)
            return External((t.n,) + tuple(rest))
        if isinstance(d, (TypeDef, TraitDef)): return ('assoc', d, rest)
        return None
    def in_module(self, segs, m, ns, seen):
        s0 = segs[0]
        kinds = ns if len(segs) == 1 else ('mod', 'type')
        for k in kinds:
            d = m.items.get((k, s0))
            if d is not None:
                r = self.descend(d, segs[1:], ns, seen)
                if r is not None: return r
        u = m.uses.get(s0)
        if u is not None:
            if u != [s0] or len(u) > 1:
                r = self.resolve(list(u) + list(segs[1:]), m, ns, seen)
                if r is not None: return r
            else: return External(segs)
        for g in m.globs:
            if len(segs) == 1 or True:
                gp = self.resolve(list(g), m, ('mod', 'type'), seen)
                if isinstance(gp, Module) and gp is not m:
                    r = self.in_module(segs, gp, ns, seen)
                    if r is not None and not isinstance(r, External): return r
                elif isinstance(gp, TypeDef) and gp.kind == 'enum' and s0 in gp.variants:
                    return ('assoc', gp, segs)
        if len(segs) > 1 and (s0,) in self.modules and s0 != 'seafowl_main':
            return self.in_module(segs[1:], self.modules[(s0,)], ns, seen)
        return None
    # ---- types
    def ty(self, node, module, owner=None, generics=None, local=None):
        k = node[0]
        if k == 'Path':
            segs = [s[0] for s in node[1]]
            args = node[1][-1][1]
            if segs[0] == 'Self':
                if len(segs) == 1:
                    if isinstance(owner, TypeDef): return Ty(owner.name, (), owner)
                    if isinstance(owner, Ty): return owner
                    return Ty('Self')
                if isinstance(owner, TypeDef) and segs[1] in owner.types:
                    n, m = owner.types[segs[1]]; return self.ty(n, m, owner)
                return Ty('?')
            if len(segs) == 1 and generics and segs[0] in generics: return Ty(segs[0])
            a = [self.ty(x, module, owner, generics, local) for x in args if x[0] not in ('Assoc', 'ConstArg', 'FnSig')]
            if segs[-1] in WRAP and a: return a[-1]
            r = self.resolve(segs, module, ('type',), None, local)
            if isinstance(r, TypeDef): return Ty(r.name, a, r)
            if isinstance(r, Alias):
                g = {x[0]: i for i, x in enumerate(r.node.get('generics') or [])}
                t = self.ty(r.node['ty'], r.module, None, g)
                def sub(t):
                    if t.n in g and t.d is None:
                        i = g[t.n]
                        if i < len(a): return a[i]
                        gd = r.node['generics'][i]
                        return self.ty(gd[2], r.module) if len(gd) > 2 and gd[2] else Ty('?')
                    return Ty(t.n, [sub(x) for x in t.a], t.d)
                return sub(t) if g else t
            if isinstance(r, TraitDef): return Ty(r.name, a, None)
            n = segs[-1]
            if isinstance(r, External): n = r.path[-1]
            ALIAS = {'SchemaRef': 'Schema', 'ArrayRef': 'Array', 'FieldRef': 'Field', 'DFSchemaRef': 'DFSchema', 'BoxFuture': 'Future', 'SchemaReference': 'SchemaReference', 'RawResult': 'Result'}
            if n in WRAP and a: return a[-1]
            return Ty(ALIAS.get(n, n), a)
        if k == 'Ref':
            return self.ty(node[2], module, owner, generics, local)
        if k == 'Tuple': return Ty('tuple', [self.ty(x, module, owner, generics, local) for x in node[1]])
        if k == 'Array': return Ty('Vec', [self.ty(node[1], module, owner, generics, local)])
        if k == 'Slice': return Ty('Vec', [self.ty(node[1], module, owner, generics, local)])
        if k in ('Impl', 'Dyn'):
            b = node[1][0] if node[1] else None
            if b:
                for g in b[-1][1]:
                    if g[0] == 'Assoc' and b[-1][0] in ('Future', 'Iterator', 'Stream'):
                        return Ty(b[-1][0], [self.ty(g[2], module, owner, generics, local)])
                return Ty(b[-1][0], [self.ty(x, module, owner, generics, local) for x in b[-1][1] if x[0] not in ('Assoc', 'ConstArg', 'FnSig')])
            return Ty('?')
        if k == 'QPath': return Ty('?')
        return Ty('?')
