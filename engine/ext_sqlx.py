"""sqlx over a small relational engine.  The schema is read from the repository's own migration scripts; every SQL
text is what the code under test produced, parsed and evaluated here over rows with symbolic names and numbers."""
import re, os, glob
from .core import *
from .values import *
from . import interp, stdlib, symchars as SC
from .interp import EXT_FN, METHODS, MACROS, EXT_STRUCT, CONSTS

class SqlError(Exception):
    def __init__(self, kind, msg): self.kind = kind; self.msg = msg; Exception.__init__(self, msg)

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s+|--[^\n]*|/\*.*?\*/|(?P<q>"(?:[^"]|"")*")|(?P<s>[xX]?'(?:[^']|'')*')|(?P<p>\$\d+|\?\d*)|(?P<n>\d+(?:\.\d+)?)|(?P<i>[A-Za-z_][A-Za-z_0-9]*)|(?P<o>::|<>|!=|<=|>=|\|\||[-+*/%(),.;=<>])''', re.S)
def tokens(sql):
    out = []; i = 0
    while i < len(sql):
        m = TOK.match(sql, i)
        if not m: raise SqlError('syntax', f'unrecognized token at {sql[i:i+20]!r}')
        i = m.end()
        k = m.lastgroup
        if k is None: continue
        t = m.group(k)
        if k == 'q': out.append(('id', t[1:-1].replace('""', '"'), True))
        elif k == 'i': out.append(('id', t, False))
        elif k == 's': out.append(('str', t) if t[0] == "'" else ('blob', t))
        elif k == 'p': out.append(('par', t))
        elif k == 'n': out.append(('num', t))
        else: out.append(('op', t))
    return out

RESERVED = {'select', 'from', 'where', 'group', 'order', 'by', 'having', 'limit', 'offset', 'union', 'on', 'inner', 'left', 'join', 'cross', 'full', 'right', 'returning', 'set', 'values', 'as', 'and', 'or', 'not', 'in', 'is', 'null', 'distinct', 'with', 'insert', 'update', 'delete', 'into', 'case', 'when', 'then', 'else', 'end', 'asc', 'desc', 'table', 'exists', 'between', 'like', 'over', 'partition', 'conflict', 'do', 'outer', 'using', 'nulls', 'for'}
NOTRES = {'over', 'partition', 'conflict', 'do', 'set', 'values', 'nulls', 'by', 'exists', 'insert', 'update', 'delete', 'between'}

class P:
    """recursive-descent SQL parser -> tuples"""
    def __init__(self, sql, pg): self.t = tokens(sql); self.i = 0; self.pg = pg; self.params = 0
    def err(self): raise SqlError('syntax', f'syntax error near {self.t[self.i] if self.i < len(self.t) else "end"}')
    def kw(self, *ws):
        for j, w in enumerate(ws):
            k = self.i + j
            if k >= len(self.t) or self.t[k][0] != 'id' or self.t[k][2] or self.t[k][1].lower() != w: return False
        self.i += len(ws); return True
    def op(self, o):
        if self.i < len(self.t) and self.t[self.i] == ('op', o): self.i += 1; return True
        return False
    def need(self, *ws):
        if not self.kw(*ws): self.err()
    def needop(self, o):
        if not self.op(o): self.err()
    def peekkw(self, w): return self.i < len(self.t) and self.t[self.i][0] == 'id' and not self.t[self.i][2] and self.t[self.i][1].lower() == w
    def name(self):
        if self.i >= len(self.t) or self.t[self.i][0] != 'id': self.err()
        t = self.t[self.i]
        if not t[2] and t[1].lower() in RESERVED - NOTRES: self.err()
        self.i += 1
        return t[1] if t[2] else t[1].lower()
    def colname(self):
        t = self.t[self.i] if self.i < len(self.t) else None
        if t is None or t[0] != 'id': self.err()
        self.i += 1; return t[1] if t[2] else t[1].lower()
    # statements
    def stmt(self):
        ctes = []
        if self.kw('with'):
            while True:
                n = self.name(); self.need('as'); self.needop('('); q = self.select(); self.needop(')'); ctes.append((n, q))
                if not self.op(','): break
        if self.peekkw('select'): r = ('select', self.select())
        elif self.kw('insert', 'into'): r = self.insert()
        elif self.kw('update'): r = self.update()
        elif self.kw('delete', 'from'): r = self.delete()
        else: self.err()
        self.op(';')
        if self.i < len(self.t): self.err()
        return (r, ctes)
    def returning(self):
        if not self.kw('returning'): return None
        return self.items()
    def items(self):
        out = []
        while True:
            if self.op('*'): out.append((('star', None), None))
            else:
                st = self.i; e = self.expr(); en = self.i; al = None
                if self.kw('as'): al = self.colname()
                elif self.i < len(self.t) and self.t[self.i][0] == 'id' and (self.t[self.i][2] or self.t[self.i][1].lower() not in RESERVED): al = self.colname()
                if al is None:
                    b = e
                    while b[0] == 'paren': b = b[1]
                    al = b[-1] if b[0] == 'col' else ' '.join(x[1] for x in self.t[st:en])
                out.append((e, al))
            if not self.op(','): return out
    def insert(self):
        tb = self.name(); cols = None
        if self.op('('):
            cols = [self.colname()]
            while self.op(','): cols.append(self.colname())
            self.needop(')')
        if self.kw('values'):
            rows = []
            while True:
                self.needop('('); r = [self.expr()]
                while self.op(','): r.append(self.expr())
                self.needop(')'); rows.append(r)
                if not self.op(','): break
            src = ('values', rows)
        elif self.peekkw('select'): src = ('query', self.select())
        else: self.err()
        conf = None
        if self.kw('on', 'conflict'):
            tgt = None
            if self.op('('):
                tgt = [self.colname()]
                while self.op(','): tgt.append(self.colname())
                self.needop(')')
            self.need('do')
            if self.kw('nothing'): conf = (tgt, None, None)
            else:
                self.need('update', 'set'); conf = (tgt, self.sets(), self.expr() if self.kw('where') else None)
        return ('insert', tb, cols, src, conf, self.returning())
    def sets(self):
        out = []
        while True:
            c = self.colname(); self.needop('='); out.append((c, self.expr()))
            if not self.op(','): return out
    def update(self):
        tb = self.name(); self.need('set'); s = self.sets(); w = self.expr() if self.kw('where') else None
        return ('update', tb, s, w, self.returning())
    def delete(self):
        tb = self.name(); w = self.expr() if self.kw('where') else None
        return ('delete', tb, w, self.returning())
    def select(self):
        self.need('select'); dist = None
        if self.kw('distinct'):
            dist = True
            if self.kw('on'):
                if not self.pg: self.err()
                self.needop('('); dist = [self.expr()]
                while self.op(','): dist.append(self.expr())
                self.needop(')')
        its = self.items(); fr = []; wh = gr = None; order = []; lim = None; hav = None
        if self.kw('from'):
            fr.append(('from', *self.source(), None))
            while True:
                if self.op(','): fr.append(('cross', *self.source(), None)); continue
                if self.kw('inner', 'join') or self.kw('join'): k = 'inner'
                elif self.kw('left', 'outer', 'join') or self.kw('left', 'join'): k = 'left'
                elif self.kw('right', 'outer', 'join') or self.kw('right', 'join'): k = 'right'
                elif self.kw('full', 'outer', 'join') or self.kw('full', 'join'): k = 'full'
                elif self.kw('cross', 'join'): fr.append(('cross', *self.source(), None)); continue
                else: break
                s = self.source(); self.need('on'); fr.append((k, *s, self.expr()))
        if self.kw('where'): wh = self.expr()
        if self.kw('group', 'by'):
            gr = [self.expr()]
            while self.op(','): gr.append(self.expr())
        if self.kw('having'): hav = self.expr()
        if self.kw('order', 'by'): order = self.orders()
        if self.kw('limit'): lim = self.expr()
        return dict(items=its, fr=fr, where=wh, group=gr, having=hav, order=order, limit=lim, distinct=dist)
    def orders(self):
        out = []
        while True:
            e = self.expr(); d = False; nf = None
            if self.kw('desc'): d = True
            elif self.kw('asc'): pass
            if self.kw('nulls', 'first'): nf = True
            elif self.kw('nulls', 'last'): nf = False
            out.append((e, d, nf))
            if not self.op(','): return out
    def source(self):
        if self.op('('):
            q = self.select(); self.needop(')'); self.kw('as'); return (q, self.name())
        n = self.name(); al = n
        if self.kw('as'): al = self.name()
        elif self.i < len(self.t) and self.t[self.i][0] == 'id' and (self.t[self.i][2] or self.t[self.i][1].lower() not in RESERVED): al = self.name()
        return (n, al)
    # expressions
    def expr(self):
        e = self.conj()
        while self.kw('or'): e = ('or', e, self.conj())
        return e
    def conj(self):
        e = self.neg()
        while self.kw('and'): e = ('and', e, self.neg())
        return e
    def neg(self):
        if self.kw('not'): return ('not', self.neg())
        return self.cmp()
    def cmp(self):
        e = self.add()
        while True:
            for o in ('=', '<>', '!=', '<=', '>=', '<', '>'):
                if self.op(o): e = ('cmp', '<>' if o == '!=' else o, e, self.add()); break
            else:
                if self.kw('is', 'not', 'null'): e = ('not', ('isnull', e))
                elif self.kw('is', 'null'): e = ('isnull', e)
                elif self.kw('not', 'in'): e = ('not', self.inlist(e))
                elif self.kw('in'): e = self.inlist(e)
                elif self.kw('like'): e = ('like', e, self.add())
                elif self.kw('between'): lo = self.add(); self.need('and'); e = ('and', ('cmp', '>=', e, lo), ('cmp', '<=', e, self.add()))
                else: return e
    def inlist(self, e):
        self.needop('(')
        if self.peekkw('select'): q = self.select(); self.needop(')'); return ('inq', e, q)
        if self.op(')'):
            if self.pg: self.err()
            return ('in', e, [])
        xs = [self.expr()]
        while self.op(','): xs.append(self.expr())
        self.needop(')'); return ('in', e, xs)
    def add(self):
        e = self.mul()
        while True:
            if self.op('+'): e = ('arith', '+', e, self.mul())
            elif self.op('-'): e = ('arith', '-', e, self.mul())
            elif self.op('||'): e = ('concat', e, self.mul())
            else: return e
    def mul(self):
        e = self.unary()
        while True:
            if self.op('*'): e = ('arith', '*', e, self.unary())
            elif self.op('/'): e = ('arith', '/', e, self.unary())
            else: break
        while self.op('::'):
            if not self.pg: self.err()
            e = ('cast', e, self.typ())
        return e
    def unary(self):
        if self.op('-'): return ('neg', self.unary())
        return self.prim()
    def typ(self):
        n = [self.colname()]
        while self.i < len(self.t) and self.t[self.i][0] == 'id' and self.t[self.i][1].lower() in ('precision', 'varying', 'unsigned'): n.append(self.colname())
        if self.op('('):
            if self.pg and n[0] in ('integer', 'bigint', 'int', 'int8', 'int4'): self.err()
            while not self.op(')'): self.i += 1
        return ' '.join(n)
    def prim(self):
        if self.i >= len(self.t): self.err()
        t = self.t[self.i]
        if t[0] == 'par':
            self.i += 1
            if t[1].startswith('?') and self.pg: self.err()
            if t[1] == '?': self.params += 1; return ('par', self.params)
            self.params = max(self.params, int(t[1][1:])); return ('par', int(t[1][1:]))
        if t[0] == 'num': self.i += 1; return ('lit', float(t[1]) if '.' in t[1] else int(t[1]))
        if t[0] == 'str': self.i += 1; return ('lit', t[1][1:-1].replace("''", "'"))
        if t[0] == 'blob': self.i += 1; return ('lit', stdlib.Uuid(int(t[1][2:-1] or '0', 16)))
        if self.op('('):
            if self.peekkw('select'): q = self.select(); self.needop(')'); return ('scalar', q)
            e = self.expr(); self.needop(')'); return ('paren', e)
        if t[0] != 'id': self.err()
        if not t[2]:
            w = t[1].lower()
            if w in ('true', 'false'): self.i += 1; return ('lit', w == 'true')
            if w == 'null': self.i += 1; return ('lit', None)
            if w == 'exists':
                self.i += 1; self.needop('('); q = self.select(); self.needop(')'); return ('existsq', q)
            if w == 'case':
                self.i += 1; base = None if self.peekkw('when') else self.expr(); ws = []
                while self.kw('when'): c = self.expr(); self.need('then'); ws.append((c, self.expr()))
                el = self.expr() if self.kw('else') else ('lit', None); self.need('end'); return ('case', base, ws, el)
            if w == 'cast' :
                self.i += 1; self.needop('('); e = self.expr(); self.need('as'); ty = self.typ(); self.needop(')'); return ('cast', e, ty)
            if w == 'extract':
                if not self.pg: self.err()
                self.i += 1; self.needop('('); f = self.colname(); self.need('from'); e = self.expr(); self.needop(')'); return ('extract', f, e)
            if self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '(') and w not in RESERVED - NOTRES:
                self.i += 2; args = []; dist = self.kw('distinct')
                if self.op('*'): args = [('star', None)]
                elif not (self.i < len(self.t) and self.t[self.i] == ('op', ')')):
                    args = [self.expr()]
                    while self.op(','): args.append(self.expr())
                self.needop(')')
                if self.kw('over'):
                    self.needop('('); part = []; order = []
                    if self.kw('partition', 'by'):
                        part = [self.expr()]
                        while self.op(','): part.append(self.expr())
                    if self.kw('order', 'by'): order = self.orders()
                    self.needop(')'); return ('window', w, args, part, order)
                return ('call', w, args, dist)
        n = self.name()
        if self.op('.'):
            if self.op('*'): return ('star', n)
            return ('col', n, self.colname())
        return ('col', None, n)

AGG = {'max', 'min', 'count', 'sum'}
def has_agg(e):
    if not isinstance(e, (tuple, list)): return False
    if isinstance(e, tuple) and e and e[0] == 'call' and e[1] in AGG: return True
    if isinstance(e, tuple) and e and e[0] in ('inq', 'scalar', 'existsq', 'window'): return False
    return any(has_agg(x) for x in e)

# ---------------------------------------------------------------- schema
class Table:
    def __init__(self, name): self.name = name; self.cols = []; self.c = {}; self.unique = []; self.fk = []; self.check = []; self.pk = None
def _balanced(s):
    out = []; d = 0; cur = ''; q = False
    for ch in s:
        if ch == "'": q = not q
        if not q:
            if ch == '(': d += 1
            if ch == ')': d -= 1
            if ch == ',' and d == 0: out.append(cur); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur)
    return out
def unq(s): s = s.strip(); return s[1:-1] if s.startswith('"') else s.lower()
def coldef(t, d, pg):
    m = re.match(r'\s*("[^"]+"|\w+)\s+(.*)$', d, re.S); n, rest = unq(m.group(1)), m.group(2)
    ty = re.match(r'(timestamp with time zone|\w+(?:\s*\(\d+\))?)', rest, re.I).group(1).lower()
    c = dict(type=ty, null=not re.search(r'\bNOT NULL\b|\bPRIMARY KEY\b', rest, re.I), default=None, has_default=False)
    if re.search(r'\bPRIMARY KEY\b', rest, re.I): t.pk = n
    c['identity'] = bool(re.search(r'GENERATED ALWAYS', rest, re.I)) or (not pg and t.pk == n and ty == 'integer')
    c['always'] = bool(re.search(r'GENERATED ALWAYS', rest, re.I))
    if re.search(r'\bUNIQUE\b', rest, re.I): t.unique.append([n])
    m = re.search(r"REFERENCES\s+(\"[^\"]+\"|\w+)\s*\((\w+)\)(\s+ON DELETE (CASCADE|SET NULL|RESTRICT|NO ACTION))?", rest, re.I)
    if m: t.fk.append((n, unq(m.group(1)), m.group(2).lower(), (m.group(4) or '').upper()))
    m = re.search(r'\bDEFAULT\s*(\(+[^)]*\)\)?\)?|x?\'[^\']*\'|[\w]+)', rest, re.I)
    if m: c['has_default'] = True; c['default'] = m.group(1)
    m = re.search(r"\bCHECK\s*\((.*)\)\s*$", rest, re.I | re.S)
    if m: t.check.append(m.group(1))
    t.cols.append(n); t.c[n] = c
_schemas = {}
def schema(root, pg):
    key = (root, pg)
    if key in _schemas: return _schemas[key]
    T = {}
    for f in sorted(glob.glob(os.path.join(root, 'migrations', 'postgres' if pg else 'sqlite', '*.up.sql'))):
        sql = re.sub(r'--[^\n]*', '', open(f).read())
        for st in sql.split(';'):
            st = st.strip()
            m = re.match(r'CREATE TABLE\s+(?:IF NOT EXISTS\s+)?("[^"]+"|\w+)\s*\((.*)\)\s*$', st, re.I | re.S)
            if m:
                t = Table(unq(m.group(1)))
                for d in _balanced(m.group(2)):
                    d = d.strip()
                    u = re.match(r'(?:CONSTRAINT\s+\w+\s+)?(UNIQUE|PRIMARY KEY)\s*\(([^)]*)\)', d, re.I)
                    if u: t.unique.append([unq(x) for x in u.group(2).split(',')]); continue
                    coldef(t, d, pg)
                T[t.name] = t; continue
            m = re.match(r'ALTER TABLE\s+("[^"]+"|\w+)\s+ADD\s+(?:COLUMN\s+)?(.*)$', st, re.I | re.S)
            if m: coldef(T[unq(m.group(1))], m.group(2), pg); continue
            m = re.match(r'ALTER TABLE\s+("[^"]+"|\w+)\s+DROP\s+(?:COLUMN\s+)?("[^"]+"|\w+)', st, re.I)
            if m: t = T[unq(m.group(1))]; c = unq(m.group(2)); t.cols.remove(c); t.c.pop(c); continue
            m = re.match(r'DROP TABLE\s+(?:IF EXISTS\s+)?("[^"]+"|\w+)', st, re.I)
            if m: T.pop(unq(m.group(1))); continue
            m = re.match(r'CREATE (UNIQUE )?INDEX\s+(?:IF NOT EXISTS\s+)?\w+\s+ON\s+("[^"]+"|\w+)\s*\(([^)]*)\)', st, re.I)
            if m:
                if m.group(1): T[unq(m.group(2))].unique.append([unq(x) for x in m.group(3).split(',')])
                continue
            if re.match(r'UPDATE\b', st, re.I) or not st: continue          # data migrations of an empty database
            raise Unsupported(f'migration statement {st[:60]}')
    _schemas[key] = T
    return T

# ---------------------------------------------------------------- database
class Db:
    """tables of rows (dict column -> value; None is NULL); pg: Postgres dialect; fk: foreign keys enforced"""
    def __init__(self, root, pg):
        self.s = schema(root, pg); self.pg = pg; self.rows = {n: [] for n in self.s}; self.seq = {}; self.fk = True; self.ro = False; self.now = None
    def copy(self):
        d = Db.__new__(Db); d.s = self.s; d.pg = self.pg; d.rows = {n: [dict(r) for r in rs] for n, rs in self.rows.items()}; d.seq = dict(self.seq); d.fk = self.fk; d.ro = self.ro; d.now = self.now
        return d
    def restore(self, o): self.rows = {n: [dict(r) for r in rs] for n, rs in o.rows.items()}; self.seq = dict(o.seq)
    def table(self, n):
        if n not in self.s: raise SqlError('schema', f'no such table: {n}')
        return self.s[n]
    def next_id(self, t):
        ids = [r[t.pk] for r in self.rows[t.name]]
        m = max([x for x in ids if isinstance(x, int)] + [0])
        if self.pg: m = max(m, self.seq.get(t.name, 0))
        self.seq[t.name] = m + 1; return m + 1
    def default(self, t, c):
        d = t.c[c]
        if d['identity']: return self.next_id(t)
        if not d['has_default']: return None
        x = d['default'].strip('() ').lower()
        if 'strftime' in x or x.startswith('now'): return self.now() if callable(self.now) else self.now
        if x.startswith("x'"): return stdlib.Uuid(int(x[2:].strip("'"), 16))
        if x.startswith("'"):
            s = d['default'].strip('()')[1:-1]
            return stdlib.Uuid(int(s.replace('-', ''), 16)) if d['type'] == 'uuid' else s
        if x in ('true', 'false'): return x == 'true'
        return int(x)
    def violates(self, t, row, others):
        for u in t.unique + ([[t.pk]] if t.pk else []):
            for o in others:
                if all(not isnull(row[c]) and not isnull(o[c]) for c in u) and Ctx.cur.branch(band(*[veq(row[c], o[c]) for c in u])): return u, o
        return None
    def validate(self, t, row, others, skip_unique=False):
        for c in t.cols:
            if row[c] is None and not t.c[c]['null']: raise SqlError('notnull', f'NOT NULL constraint failed: {t.name}.{c}')
            want = t.c[c]['type'].split('(')[0]
            if self.pg and row[c] is not None:
                k = kind(row[c])
                ok = {'bigint': 'int', 'integer': 'int', 'varchar': 'text', 'text': 'text', 'uuid': 'uuid', 'boolean': 'bool', 'timestamp with time zone': 'int'}.get(want)
                if ok is not None and k != ok: raise SqlError('type', f'column "{c}" is of type {want} but expression is of type {k}')
        if not skip_unique:
            v = self.violates(t, row, others)
            if v: raise SqlError('unique', 'UNIQUE constraint failed: ' + ', '.join(f'{t.name}.{c}' for c in v[0]))
        if self.fk:
            for c, rt, rc, _ in t.fk:
                if row[c] is None: continue
                src = self.rows[rt] + ([row] if rt == t.name else [])
                if not any(Ctx.cur.branch(veq(row[c], r[rc])) for r in src): raise SqlError('fk', 'FOREIGN KEY constraint failed')
        for chk in t.check:
            p = P(chk, self.pg); e = p.expr()
            if Ev(self, [], {}).truth(e, Scope({t.name: row}), null_ok=True) is False: raise SqlError('check', f'CHECK constraint failed: {t.name}')
    def delete(self, t, rows):
        for r in rows:
            if r not in self.rows[t.name]: continue
            self.rows[t.name] = [x for x in self.rows[t.name] if x is not r]
            if not self.fk: continue
            for n, o in self.s.items():
                for c, rt, rc, act in o.fk:
                    if rt != t.name: continue
                    hit = [x for x in self.rows[n] if x[c] is not None and Ctx.cur.branch(veq(x[c], r[rc]))]
                    if not hit: continue
                    if act == 'CASCADE': self.delete(o, hit)
                    elif act == 'SET NULL':
                        for x in hit: x[c] = None
                    else: raise SqlError('fk', 'FOREIGN KEY constraint failed')

def isnull(v): return v is None
def kind(v):
    if v is None: return 'null'
    if isinstance(v, bool): return 'bool'
    if isinstance(v, int): return 'int'
    if is_sym(v): return 'bool' if z3.is_bool(v) else 'int'
    if isinstance(v, stdlib.Uuid): return 'uuid'
    if isinstance(v, float): return 'float'
    return 'text'
def veq(a, b):
    ka, kb = kind(a), kind(b)
    if ka != kb:
        if {ka, kb} <= {'int', 'bool', 'float'}: pass
        else: return False
    if ka in ('int', 'bool', 'float'):
        r = a == b
        return mkbool(r) if is_sym(r) else bool(r)
    return eq(a, b)
def vlt(a, b):
    """a < b for non-null values of one kind -> bool or term"""
    ka, kb = kind(a), kind(b)
    rank = {'bool': 0, 'int': 0, 'float': 0, 'text': 1, 'uuid': 2}
    if rank[ka] != rank[kb]: return rank[ka] < rank[kb]
    if ka == 'uuid': return a.n < b.n
    if ka == 'text':
        x, y = SC.cl(a), SC.cl(b)
        if x is None or y is None: return mkbool(strterm(a) < strterm(b))
        for i in range(min(len(x), len(y))):
            cx, cy = SC.code(x[i]), SC.code(y[i])
            if Ctx.cur.branch(SC.ceq(x[i], y[i])): continue
            return mkbool((cx if is_sym(cx) else z3.IntVal(cx)) < cy) if is_sym(cx) or is_sym(cy) else cx < cy
        return len(x) < len(y)
    r = a < b
    return mkbool(r) if is_sym(r) else r

class Scope:
    """names in scope: alias -> row; out: output columns"""
    def __init__(self, rows, out=None, up=None): self.rows = rows; self.out = out or {}; self.up = up
    def get(self, tb, c, out_first=False):
        if tb is not None:
            if tb in self.rows:
                r = self.rows[tb]
                if c not in r: raise SqlError('schema', f'no such column: {tb}.{c}')
                return r[c]
        else:
            if out_first and c in self.out: return self.out[c]
            hit = [r for r in self.rows.values() if c in r]
            if len(hit) > 1: raise SqlError('schema', f'ambiguous column name: {c}')
            if hit: return hit[0][c]
            if c in self.out: return self.out[c]
        if self.up is not None: return self.up.get(tb, c)
        raise SqlError('schema', f'no such column: {(tb + ".") if tb else ""}{c}')

class Ev:
    def __init__(self, db, args, ctes): self.db = db; self.args = args; self.ctes = dict(ctes)
    def val(self, e, sc, group=None, wins=None, out_first=False):
        k = e[0]; V = lambda x: self.val(x, sc, group, wins, out_first)
        if k == 'lit': return e[1]
        if k == 'paren': return V(e[1])
        if k == 'par':
            if not 1 <= e[1] <= len(self.args):
                if self.db.pg: raise SqlError('bind', 'bind message supplies too few parameters')
                return None
            return self.args[e[1] - 1]
        if k == 'col': return sc.get(e[1], e[2], out_first)
        if k in ('and', 'or', 'not', 'cmp', 'isnull', 'in', 'inq', 'like', 'existsq'): return self.truth(e, sc, group=group, wins=wins)
        if k == 'call':
            n = e[1]
            if n in AGG:
                if group is None: raise SqlError('schema', f'misuse of aggregate: {n}()')
                if e[2] == [('star', None)]: return len(group)
                vs = [x for x in (self.val(e[2][0], g) for g in group) if x is not None]
                if e[3]: vs = self.distinct(vs)
                if n == 'count': return len(vs)
                if not vs: return None
                if n == 'sum': return sum(vs[1:], vs[0])
                b = vs[0]
                for x in vs[1:]:
                    if Ctx.cur.branch(vlt(b, x) if n == 'max' else vlt(x, b)): b = x
                return b
            if n == 'coalesce' or n == 'ifnull':
                for x in e[2]:
                    v = V(x)
                    if v is not None: return v
                return None
            if n in ('lower', 'upper'):
                v = V(e[2][0])
                if v is None: return None
                it = Ctx.cur.user['it']
                return deref(it.method(v, 'to_lowercase' if n == 'lower' else 'to_uppercase'))
            if n == 'now' and self.db.pg or n in ('strftime', 'unixepoch') and not self.db.pg: return self.db.now() if callable(self.db.now) else self.db.now
            raise SqlError('schema', f'no such function: {n}')
        if k == 'window':
            return wins(e, sc)
        if k == 'cast':
            v = V(e[1]); ty = e[2]
            if v is None or kind(v) == 'int' and ('int' in ty): return v
            if kind(v) == 'text' and ty in ('text', 'varchar'): return v
            if kind(v) == 'int' and ty in ('text', 'varchar'): return mktext([str(v) if isinstance(v, int) else Int(v, 'i64')])
            raise Unsupported(f'cast of {v!r} to {ty}')
        if k == 'extract':
            v = V(e[2])
            if e[1] != 'epoch': raise Unsupported(f'extract {e[1]}')
            return v
        if k == 'neg': v = V(e[1]); return None if v is None else -v
        if k == 'arith':
            a, b = V(e[2]), V(e[3])
            if a is None or b is None: return None
            return a + b if e[1] == '+' else a - b if e[1] == '-' else a * b
        if k == 'concat':
            a, b = V(e[1]), V(e[2]); return None if a is None or b is None else mktext([a, b])
        if k == 'case':
            for c, r in e[2]:
                if (self.truth(c, sc, group=group) if e[1] is None else self.truth(('cmp', '=', e[1], c), sc, group=group)) is True: return V(r)
            return V(e[3])
        if k == 'scalar':
            rs = self.query(e[1], sc); return list(rs[0].values())[0] if rs else None
        raise Unsupported(f'SQL expression {k}')
    def truth(self, e, sc, group=None, null_ok=False, wins=None):
        """True / False / None (unknown); symbolic conditions are branched on"""
        k = e[0]; T = lambda x: self.truth(x, sc, group=group, wins=wins); V = lambda x: self.val(x, sc, group, wins)
        if k == 'paren': return T(e[1])
        if k == 'and':
            a = T(e[1])
            if a is False: return False
            b = T(e[2]); return False if b is False else None if a is None or b is None else True
        if k == 'or':
            a = T(e[1])
            if a is True: return True
            b = T(e[2]); return True if b is True else None if a is None or b is None else False
        if k == 'not': a = T(e[1]); return None if a is None else not a
        if k == 'isnull': return V(e[1]) is None
        if k == 'cmp':
            a, b = V(e[2]), V(e[3])
            if a is None or b is None: return None
            o = e[1]
            if self.db.pg and kind(a) != kind(b) and not {kind(a), kind(b)} <= {'int', 'float'}: raise SqlError('type', f'operator does not exist: {kind(a)} {o} {kind(b)}')
            r = veq(a, b) if o == '=' else bnot(veq(a, b)) if o == '<>' else vlt(a, b) if o == '<' else vlt(b, a) if o == '>' else bnot(vlt(b, a)) if o == '<=' else bnot(vlt(a, b))
            return Ctx.cur.branch(r)
        if k in ('in', 'inq'):
            a = V(e[1]); xs = [V(x) for x in e[2]] if k == 'in' else [list(r.values())[0] for r in self.query(e[2], sc)]
            if not xs: return False
            if a is None: return None
            for x in xs:
                if x is not None and Ctx.cur.branch(veq(a, x)): return True
            return None if any(x is None for x in xs) else False
        if k == 'existsq': return bool(self.query(e[1], sc))
        if k == 'like':
            a, b = V(e[1]), V(e[2])
            if a is None or b is None: return None
            return like(a, b, self.db.pg)
        v = V(e)
        if v is None: return None
        if self.db.pg and kind(v) != 'bool': raise SqlError('type', 'argument of WHERE must be type boolean')
        return Ctx.cur.branch(v if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)) else v != 0)
    def distinct(self, vs):
        out = []
        for v in vs:
            if not any((v is None and o is None) or (v is not None and o is not None and Ctx.cur.branch(veq(v, o))) for o in out): out.append(v)
        return out
    def source(self, n, sc=None):
        """rows and columns of a table, a WITH query or a subquery"""
        if isinstance(n, dict): rs = self.query(n, sc); return rs, self.columns(n)
        if n in self.ctes:
            q = self.ctes[n]; rs = self.query(q); return rs, self.columns(q)
        t = self.db.table(n); return self.db.rows[n], t.cols
    def columns(self, q):
        out = []
        for e, al in q['items']:
            if e[0] == 'star':
                for k, n, a, on in q['fr']:
                    if e[1] is None or e[1] == a: out += list(self.source(n)[1])
            else: out.append(al)
        return out
    def less(self, ka, kb, order):
        """strictly before, in the order given"""
        for (a, b, (e, desc, nf)) in zip(ka, kb, order):
            if a is None and b is None: continue
            if a is None or b is None:
                first = nf if nf is not None else (self.db.pg == desc)
                return (a is None) == first
            if Ctx.cur.branch(veq(a, b)): continue
            return Ctx.cur.branch(vlt(b, a) if desc else vlt(a, b))
        return False
    def sort(self, xs, order):
        """xs: list of (key list, payload); stable insertion sort"""
        out = []
        for x in xs:
            i = len(out)
            while i > 0 and self.less(x[0], out[i - 1][0], order): i -= 1
            out.insert(i, x)
        return out
    def query(self, q, up=None):
        scs = [Scope({}, up=up)]
        for k, n, al, on in q['fr']:
            rows, cols = self.source(n, up)
            nul = {c: None for c in cols}
            if any(al in s.rows for s in scs): raise SqlError('schema', f'duplicate alias {al}')
            nxt = []; used = set()
            for s in scs:
                hit = False
                for j, r in enumerate(rows):
                    ns = Scope({**s.rows, al: r}, up=up)
                    if on is None or self.truth(on, ns) is True: nxt.append(ns); hit = True; used.add(j)
                if not hit and k in ('left', 'full'): nxt.append(Scope({**s.rows, al: nul}, up=up))
            if k in ('right', 'full'):
                base = {a2: {c: None for c in self.source(n2, up)[1]} for k2, n2, a2, o2 in q['fr'][:[x[2] for x in q['fr']].index(al)]}
                nxt += [Scope({**base, al: r}, up=up) for j, r in enumerate(rows) if j not in used]
            scs = nxt
            if not rows and on is not None:          # names are still checked
                self.names(on, Scope({**{a2: {c: None for c in self.source(n2, up)[1]} for k2, n2, a2, o2 in q['fr']}}, up=up))
        if q['where'] is not None: scs = [s for s in scs if self.truth(q['where'], s) is True]
        items = q['items']
        agg = q['group'] is not None or any(has_agg(e) for e, _ in items) or q['having'] is not None
        outs = []       # (out row, scope, group)
        if agg:
            groups = []
            if q['group'] is None: groups = [([], scs)]
            else:
                for s in scs:
                    key = [self.val(e, s) for e in q['group']]
                    for gk, g in groups:
                        if all((a is None and b is None) or (a is not None and b is not None and Ctx.cur.branch(veq(a, b))) for a, b in zip(gk, key)): g.append(s); break
                    else: groups.append((key, [s]))
            for gk, g in groups:
                rep = g[0] if g else Scope({al: {c: None for c in self.source(n, up)[1]} for k, n, al, on in q['fr']}, up=up)
                mm = [e for e, _ in items if e[0] == 'call' and e[1] in ('max', 'min')]
                if len(mm) == 1 and g:      # SQLite: bare columns come from the row holding the extreme
                    best = None
                    for s in g:
                        v = self.val(mm[0][2][0], s)
                        if v is None: continue
                        if best is None or Ctx.cur.branch(vlt(best[0], v) if mm[0][1] == 'max' else vlt(v, best[0])): best = (v, s)
                    if best: rep = best[1]
                if self.db.pg:
                    for e, al in items:
                        if not has_agg(e) and e[0] != 'lit' and not any(e == ge for ge in (q['group'] or [])): raise SqlError('schema', 'column must appear in the GROUP BY clause or be used in an aggregate function')
                if q['having'] is not None and self.truth(q['having'], rep, group=g) is not True: continue
                outs.append(({al: self.val(e, rep, group=g) for e, al in items}, rep, g))
        else:
            def wins(e, sc):
                _, fn, args, part, order = e
                key = [self.val(x, sc) for x in part]
                peers = [s for s in scs if all((a is None and b is None) or (a is not None and b is not None and Ctx.cur.branch(veq(a, b))) for a, b in zip([self.val(x, s) for x in part], key))]
                srt = self.sort([([self.val(o[0], s) for o in order], s) for s in peers], order)
                if fn == 'first_value': return self.val(args[0], srt[0][1])
                i = [j for j, x in enumerate(srt) if x[1] is sc][0]
                if fn == 'row_number': return i + 1
                if fn == 'rank': return 1 + sum(1 for x in srt if self.less(x[0], srt[i][0], order))
                if fn == 'last_value':
                    while i + 1 < len(srt) and not self.less(srt[i][0], srt[i + 1][0], order): i += 1
                    return self.val(args[0], srt[i][1])
                if fn in AGG:
                    upto = [x[1] for x in srt if not order or not self.less(srt[i][0], x[0], order)]
                    return self.val(('call', fn, args, False), sc, group=upto)
                raise Unsupported(f'window function {fn}')
            for s in scs:
                row = {}
                for e, al in items:
                    if e[0] == 'star':
                        for a2, r in s.rows.items():
                            if e[1] is None or e[1] == a2: row.update(r)
                    else: row[al] = self.val(e, s, wins=wins)
                outs.append((row, s, None))
            if not scs:
                ns = Scope({al: {c: None for c in self.source(n, up)[1]} for k, n, al, on in q['fr']}, up=up)
                for e, al in items: self.names(e, ns)
                if q['where'] is not None: self.names(q['where'], ns)
        if q['order'] or isinstance(q['distinct'], list):
            keys = []
            for row, s, g in outs:
                sc = Scope(s.rows, out=row, up=up); keys.append(([row[list(row)[e[1] - 1]] if e[0] == 'lit' and isinstance(e[1], int) else self.val(e, sc, group=g, out_first=True) for e, d, nf in q['order']], (row, s, g)))
            outs = [x[1] for x in self.sort(keys, q['order'])]
        if q['distinct'] is True:
            res = []
            for x in outs:
                if not any(all((a is None and b is None) or (a is not None and b is not None and Ctx.cur.branch(veq(a, b))) for a, b in zip(x[0].values(), y[0].values())) for y in res): res.append(x)
            outs = res
        elif isinstance(q['distinct'], list):
            if q['order'] and [e for e, _, _ in q['order'][:len(q['distinct'])]] != q['distinct']: raise SqlError('schema', 'SELECT DISTINCT ON expressions must match initial ORDER BY expressions')
            res = []; seen = []
            for x in outs:
                key = [self.val(e, x[1]) for e in q['distinct']]
                if any(all((a is None and b is None) or (a is not None and b is not None and Ctx.cur.branch(veq(a, b))) for a, b in zip(key, k2)) for k2 in seen): continue
                seen.append(key); res.append(x)
            outs = res
        if q['limit'] is not None: outs = outs[:int(self.val(q['limit'], Scope({})))]
        return [x[0] for x in outs]
    def names(self, e, sc):
        """name errors of an expression no row was evaluated with"""
        if isinstance(e, tuple):
            if e[0] == 'col': sc.get(e[1], e[2]); return
            if e[0] in ('inq', 'scalar', 'existsq', 'window'): return
        if isinstance(e, (tuple, list)):
            for x in e: self.names(x, sc)
    # statements -> (rows, affected)
    def run(self, st):
        (r, ctes) = st; self.ctes = dict(ctes); db = self.db
        if r[0] == 'select':
            return self.query(r[1]), 0
        if db.ro: raise SqlError('readonly', 'attempt to write a readonly database')
        t = db.table(r[1])
        def ret(items, rows):
            if items is None: return []
            out = []
            for row in rows:
                o = {}
                for e, al in items:
                    if e[0] == 'star': o.update(row)
                    else: o[al] = self.val(e, Scope({t.name: row}))
                out.append(o)
            return out
        if r[0] == 'insert':
            _, tb, cols, src, conf, rt = r
            cols = cols or t.cols
            for c in cols:
                if c not in t.c: raise SqlError('schema', f'table {tb} has no column named {c}')
                if db.pg and t.c[c]['always']: raise SqlError('schema', f'cannot insert a non-DEFAULT value into column "{c}"')
            vals = [[self.val(e, Scope({})) for e in row] for row in src[1]] if src[0] == 'values' else [list(x.values()) for x in self.query(src[1])]
            if src[0] == 'query' and len(self.columns(src[1])) != len(cols): raise SqlError('schema', f'{len(vals)} values for {len(cols)} columns')
            out = []; n = 0
            for v in vals:
                if len(v) != len(cols): raise SqlError('schema', f'{len(v)} values for {len(cols)} columns')
                row = {c: None for c in t.cols}
                given = dict(zip(cols, v))
                for c in t.cols:
                    row[c] = given[c] if c in given else db.default(t, c)
                    if c == t.pk and row[c] is None: row[c] = db.next_id(t)
                if conf is not None:
                    tgt, sets, wh = conf
                    if tgt is not None and sorted(tgt) not in [sorted(u) for u in t.unique + [[t.pk]]]: raise SqlError('schema', 'ON CONFLICT clause does not match any PRIMARY KEY or UNIQUE constraint')
                    hit = None
                    for o in db.rows[tb]:
                        if any(Ctx.cur.branch(band(*[veq(row[c], o[c]) for c in u])) for u in ([tgt] if tgt else t.unique)): hit = o; break
                    if hit is not None:
                        if sets is None: continue
                        sc = Scope({t.name: hit, 'excluded': row})
                        if wh is not None and self.truth(wh, sc) is not True: continue
                        new = dict(hit)
                        for c, e in sets:
                            if c not in t.c: raise SqlError('schema', f'no such column: {c}')
                            new[c] = self.val(e, sc)
                        db.validate(t, new, [x for x in db.rows[tb] if x is not hit]); hit.update(new); out.append(hit); n += 1; continue
                db.validate(t, row, db.rows[tb]); db.rows[tb].append(row); out.append(row); n += 1
            return ret(rt, out), n
        if r[0] == 'update':
            _, tb, sets, wh, rt = r
            for c, e in sets:
                if c not in t.c: raise SqlError('schema', f'no such column: {c}')
            hit = [x for x in db.rows[tb] if wh is None or self.truth(wh, Scope({t.name: x})) is True]
            if wh is not None and not db.rows[tb]: self.names(wh, Scope({t.name: {c: None for c in t.cols}}))
            for x in hit:
                new = dict(x)
                for c, e in sets: new[c] = self.val(e, Scope({t.name: x}))
                db.validate(t, new, [y for y in db.rows[tb] if y is not x]); x.update(new)
            return ret(rt, hit), len(hit)
        if r[0] == 'delete':
            _, tb, wh, rt = r
            hit = [x for x in db.rows[tb] if wh is None or self.truth(wh, Scope({t.name: x})) is True]
            if wh is not None and not db.rows[tb]: self.names(wh, Scope({t.name: {c: None for c in t.cols}}))
            out = ret(rt, hit); db.delete(t, hit)
            return out, len(hit)
        raise Unsupported(r[0])
def like(a, b, pg):
    x, y = SC.cl(a), SC.cl(b)
    if x is None or y is None: raise Unsupported('LIKE over opaque text')
    def low(ch):
        c = SC.code(ch)
        if pg: return c
        if isinstance(c, int): return c + 32 if 65 <= c <= 90 else c
        return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    def go(i, j):
        if j == len(y): return i == len(x)
        c = SC.code(y[j])
        if c == ord('%') if isinstance(c, int) else Ctx.cur.branch(c == ord('%')): return any(go(k, j + 1) for k in range(i, len(x) + 1))
        if i == len(x): return False
        if c == ord('_') if isinstance(c, int) else Ctx.cur.branch(c == ord('_')): return go(i + 1, j + 1)
        return Ctx.cur.branch(mkbool(low(x[i]) == low(y[j]))) and go(i + 1, j + 1)
    return go(0, 0)

# ---------------------------------------------------------------- sqlx
class DbErr(Obj):
    def __init__(self, e): self.e = e
    def m_message(self, it, a, c):
        return self.e.msg if self.e.kind not in ('fk', 'unique') or not self.e.pg else {'fk': 'insert or update on table violates foreign key constraint', 'unique': 'duplicate key value violates unique constraint'}[self.e.kind]
    def m_code(self, it, a, c):
        e = self.e
        if e.pg: return opt({'unique': '23505', 'fk': '23503', 'check': '23514', 'notnull': '23502', 'syntax': '42601', 'type': '42804', 'schema': '42703', 'bind': '08P01', 'readonly': '25006'}.get(e.kind))
        return opt({'unique': '2067', 'fk': '787', 'check': '275', 'notnull': '1299', 'readonly': '8'}.get(e.kind, '1'))
    def m_is_unique_violation(self, it, a, c): return self.e.kind == 'unique'
    def m_is_foreign_key_violation(self, it, a, c): return self.e.kind == 'fk'
    def m_constraint(self, it, a, c): return NONE()
    def display_(self, it): return self.e.msg
    debug_ = display_
class SqlxErr(Enum):
    __slots__ = ()
def sqlxerr(var, **f): return Enum('sqlx::Error', var, f)
def injected(): return sqlxerr('Io', **{'0': Opaque('injected failure')})

class Pool(Obj):
    """a pool of connections to one database; `fail(step)` says whether a step fails"""
    tname = 'Pool'
    def __init__(self, db, fail=None, single=None):
        self.db = db; self.fail = fail or (lambda w: False); self.single = (not db.pg) if single is None else single; self.open = []; self.log = []; self.failed = False
    def m_clone(self, it, a, c): return self
    def m_begin(self, it, a, c):
        if self.single and self.open: return Err(sqlxerr('PoolTimedOut'))
        if self.fail('begin'): self.failed = True; return Err(injected())
        t = Tx(self); self.open.append(t); return Ok(t)
    def m_acquire(self, it, a, c): return Ok(Conn(self))
    def m_close(self, it, a, c): return UNIT()
    def m_execute(self, it, a, c): return Query(deref(a[0])).m_execute(it, [self], c) if not isinstance(deref(a[0]), Query) else deref(a[0]).m_execute(it, [self], c)
    def target(self):
        if self.single and self.open: raise SqlError('pool', 'pool timed out')
        return self.db
class Conn(Obj):
    tname = 'PoolConnection'
    def __init__(self, pool): self.pool = pool
    def target(self): return self.pool.target()
    @property
    def fail(self): return self.pool.fail
    def deref_(self): return self
    def m_deref_mut(self, it, a, c): return self
class Tx(Obj):
    """a transaction: works on its own copy, commit writes it back"""
    tname = 'Transaction'
    def __init__(self, pool): self.pool = pool; self.db = pool.db.copy(); self.done = False; self.broken = False
    def target(self): return self.db
    @property
    def fail(self): return self.pool.fail
    def m_commit(self, it, a, c):
        if self.pool.fail('commit'): self.pool.failed = True; self.end(); return Err(injected())
        if not (self.broken and self.db.pg): self.pool.db.restore(self.db)
        self.end(); return Ok(UNIT())
    def m_rollback(self, it, a, c): self.end(); return Ok(UNIT())
    def end(self):
        self.done = True
        if self in self.pool.open: self.pool.open.remove(self)
    def m_deref_mut(self, it, a, c): return self
    def m_as_mut(self, it, a, c): return self
    def drop_(self): self.end()

def enc(it, v):
    v = deref(v)
    if type(v) is Enum and v.ty == 'Option': return None if v.var == 'None' else enc(it, v.f['0'])
    if type(v) is Int: return v.v
    if isinstance(v, bool) or z3.is_bool(v): return v
    if type(v) in (str, SymStr, Text): return v
    if isinstance(v, (stdlib.Uuid, float)): return v
    if type(v) is Enum: return v.var                       # derive(sqlx::Type) on a fieldless enum: the variant name
    if isinstance(v, interp.OpaquePiece): return mktext([v])
    if type(v).__name__ == 'JsonVal': return v
    raise Unsupported(f'binding {v!r}')
class Row(Obj):
    tname = 'Row'
    def __init__(self, row, pg): self.row = row; self.pg = pg
    def m_try_get(self, it, a, c):
        k = deref(a[0])
        if type(k) is Int:
            if k.v >= len(self.row): return Err(sqlxerr('ColumnIndexOutOfBounds', index=k, len=Int(len(self.row), 'usize')))
            k = list(self.row)[k.v]
        if k not in self.row: return Err(sqlxerr('ColumnNotFound', **{'0': k}))
        v = self.row[k]
        if v is None:
            ty = c.tf[0] if c.tf else c.hint
            if ty is not None and getattr(ty, 'n', None) == 'Option': return Ok(NONE())
            if self.pg: return Err(sqlxerr('ColumnDecode', index=k, source=Opaque('UnexpectedNullError')))
            return Ok(Int(0, 'i64'))
        return Ok(dec(v))
    def m_get(self, it, a, c):
        r = self.m_try_get(it, a, c)
        if r.var == 'Err': raise Panic(f'column {a[0]!r}')
        return r.f['0']
    def m_len(self, it, a, c): return Int(len(self.row), 'usize')
    def m_is_empty(self, it, a, c): return not self.row
def dec(v):
    if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)): return v
    if isinstance(v, int) or is_sym(v): return Int(v, 'i64')
    return v
def from_row(it, ty, row, pg):
    """derive(FromRow) for a struct of the repository -> Result"""
    d = ty.d; f = {}
    attrs = {x[0]: (x[2] if len(x) > 2 else []) for x in d.node['fields'][1]}
    for n, ft in d.field_types(it.p).items():
        at = ' '.join(str(a) for a in (attrs.get(n) or []))
        m = re.search(r'rename\s*=\s*"([^"]+)"', at) if 'sqlx' in at else None
        col = m.group(1) if m else n.replace('r#', '')
        if col not in row:
            if 'sqlx' in at and 'default' in at: f[n] = it.call_path_default(ft); continue
            return Err(sqlxerr('ColumnNotFound', **{'0': col}))
        v = row[col]
        if ft.n == 'Option': f[n] = NONE() if v is None else Some(dec(v)); continue
        if v is None:
            if pg: return Err(sqlxerr('ColumnDecode', index=col, source=Opaque('UnexpectedNullError')))
            want = ft.n
            v = 0 if want.startswith('i') or want.startswith('u') else '' if want == 'String' else None
            if v is None: return Err(sqlxerr('ColumnDecode', index=col, source=Opaque('null')))
        if 'try_from' in at:
            r = it.call_method(v, 'try_into', [], hint=ft) if False else it.call_def(ft.d.methods['try_from'], [v])
            r = it.await_(r)
            if r.var == 'Err': return Err(sqlxerr('ColumnDecode', index=col, source=r.f['0']))
            f[n] = r.f['0']; continue
        v = dec(v)
        isint = type(v) is Int
        want = it.p.resolve_alias(ft).n if hasattr(it.p, 'resolve_alias') else ft.n
        if want in INT and not isint or want == 'String' and type(v) not in (str, SymStr, Text) and type(v).__name__ != 'JsonVal' or want == 'Uuid' and not isinstance(v, stdlib.Uuid):
            return Err(sqlxerr('ColumnDecode', index=col, source=Opaque(f'mismatched types: {want}')))
        f[n] = Int(v.v, want) if isint and want in INT else v
    return Ok(Struct(d, f))
def target_type(it, tf):
    for t in reversed(tf or ()):
        if t is not None and t.d is not None: return t
    def find(t):
        if t is None: return None
        if t.d is not None and 'FromRow' in getattr(t.d, 'derives', ()): return t
        for x in t.a:
            r = find(x)
            if r is not None: return r
        return None
    for d in reversed(Ctx.cur.user.get('fstack', [])):
        r = find(d.ret)
        if r is not None: return r
    raise Unsupported('row type of a query: ' + repr([(d.name, d.ret) for d in Ctx.cur.user.get('fstack', [])][-2:]))

class Query(Obj):
    tname = 'Query'
    def __init__(self, sql, args=(), ty=None): self.sql = sql; self.args = list(args); self.ty = ty
    def m_bind(self, it, a, c): self.args.append(enc(it, a[0])); return self
    def m_persistent(self, it, a, c): return self
    def go(self, it, ex, want):
        """-> Ok((rows, affected)) or Err(sqlx error)"""
        ex = deref(ex)
        while not hasattr(ex, 'target'): ex = deref(it.method(ex, 'deref_mut'))
        Ctx.cur.user['it'] = it
        sql = self.sql
        if type(sql) is not str: raise Unsupported(f'SQL text with symbolic pieces: {sql!r}')
        pool = ex if isinstance(ex, Pool) else ex.pool
        pool.log.append(sql)
        try:
            db = ex.target()
            if ex.fail(re.sub(r'\s+', ' ', sql.strip())[:40]): pool.failed = True; raise SqlError('injected', 'injected')
            p = P(sql, db.pg); st = p.stmt()
            if p.params != len(self.args) and db.pg: raise SqlError('bind', f'expected {p.params} parameters but got {len(self.args)}')
            sav = db.copy()
            try: rows, n = Ev(db, self.args, {}).run(st)
            except SqlError: db.restore(sav); raise
            return Ok((rows, n, db.pg))
        except SqlError as e:
            if isinstance(ex, Tx): ex.broken = True
            if e.kind == 'pool': return Err(sqlxerr('PoolTimedOut'))
            if e.kind == 'injected': return Err(injected())
            e.pg = pool.db.pg
            Ctx.cur.user.setdefault('sqlerrors', []).append(str(e))
            return Err(sqlxerr('Database', **{'0': DbErr(e)}))
    def conv(self, it, row, pg):
        if self.ty is None: return Ok(Row(row, pg))
        return from_row(it, self.ty(it), row, pg)
    def m_fetch_one(self, it, a, c):
        r = self.go(it, a[0], 'one')
        if r.var == 'Err': return r
        rows, n, pg = r.f['0']
        return self.conv(it, rows[0], pg) if rows else Err(sqlxerr('RowNotFound'))
    def m_fetch_optional(self, it, a, c):
        r = self.go(it, a[0], 'one')
        if r.var == 'Err': return r
        rows, n, pg = r.f['0']
        if not rows: return Ok(NONE())
        r = self.conv(it, rows[0], pg); return r if r.var == 'Err' else Ok(Some(r.f['0']))
    def m_fetch_all(self, it, a, c):
        r = self.go(it, a[0], 'all')
        if r.var == 'Err': return r
        rows, n, pg = r.f['0']; out = []
        for x in rows:
            v = self.conv(it, x, pg)
            if v.var == 'Err': return v
            out.append(v.f['0'])
        return Ok(Vec(out))
    def m_fetch(self, it, a, c):
        ex = a[0]; q = self
        def g():
            r = q.go(it, ex, 'all')
            if r.var == 'Err': yield r; return
            rows, n, pg = r.f['0']
            for x in rows: yield q.conv(it, x, pg)
        return Iter(g(), True)
    def m_execute(self, it, a, c):
        r = self.go(it, a[0], 'none')
        if r.var == 'Err': return r
        return Ok(QueryResult(r.f['0'][1]))
class QueryResult(Obj):
    def __init__(self, n): self.n = n
    def m_rows_affected(self, it, a, c): return Int(self.n, 'u64')
class QB(Obj):
    """sqlx::QueryBuilder"""
    tname = 'QueryBuilder'
    def __init__(self, sql): self.sql = sql; self.args = []
    def m_push(self, it, a, c):
        s = deref(a[0])
        self.sql = mktext([self.sql, s if type(s) in (str, SymStr, Text) else it.method(s, 'to_string')]); return self
    def m_push_bind(self, it, a, c):
        self.args.append(enc(it, a[0])); self.sql = mktext([self.sql, f'${len(self.args)}']); return self
    def m_separated(self, it, a, c): return Sep(self, deref(a[0]))
    def m_push_values(self, it, a, c):
        self.sql = mktext([self.sql, 'VALUES ']); s = Sep(self, ', ')
        for i, x in enumerate(it.iter_of(a[0])):
            if i: self.sql = mktext([self.sql, ', '])
            self.sql = mktext([self.sql, '(']); it.call(a[1], [Sep(self, ', '), x]); self.sql = mktext([self.sql, ')'])
        return self
    def m_push_tuples(self, it, a, c):
        for i, x in enumerate(it.iter_of(a[0])):
            self.sql = mktext([self.sql, ', (' if i else '(']); it.call(a[1], [Sep(self, ', '), x]); self.sql = mktext([self.sql, ')'])
        return self
    def m_build(self, it, a, c): return Query(self.sql, self.args)
    def m_build_query_as(self, it, a, c):
        tf = c.tf; st = list(Ctx.cur.user.get('fstack', []))
        ty = target_type(it, tf)
        return Query(self.sql, self.args, lambda it2: ty)
    def m_sql(self, it, a, c): return self.sql
class Sep(Obj):
    def __init__(self, qb, sep): self.qb = qb; self.sep = sep; self.first = True
    def m_push(self, it, a, c):
        if not self.first: self.qb.m_push(it, [self.sep], c)
        self.first = False; self.qb.m_push(it, a, c); return self
    def m_push_bind(self, it, a, c):
        if not self.first: self.qb.m_push(it, [self.sep], c)
        self.first = False; self.qb.m_push_bind(it, a, c); return self
    def m_push_unseparated(self, it, a, c): self.qb.m_push(it, a, c); return self
    def m_push_bind_unseparated(self, it, a, c): self.qb.m_push_bind(it, a, c); return self

EXT_FN['sqlx::query'] = lambda it, a, c: Query(deref(a[0]))
def _qas(it, a, c):
    ty = target_type(it, c.tf); return Query(deref(a[0]), (), lambda it2: ty)
EXT_FN['sqlx::query_as'] = _qas
EXT_FN['QueryBuilder::new'] = lambda it, a, c: QB(deref(a[0]))
class Migrator(Obj):
    def __init__(self, path): self.path = path
    def m_run(self, it, a, c):
        p = deref(a[0]); db = p.db
        if self.path.endswith('postgres') != db.pg: raise Panic('migrations of the other database')
        if p.fail('migrate') or db.ro: return Err(Opaque('MigrateError'))
        p.log.append('migrate'); return Ok(UNIT())
MACROS['migrate'] = lambda it, a, c: Migrator(deref(a[0]) if a else '')

# ---- opening a database
class SqliteOpts(Obj):
    def __init__(self, dsn): self.dsn = dsn; self.f = {'foreign_keys': True, 'read_only': False, 'create_if_missing': False}
    def method_missing(self, it, name, a, c):
        if name in ('foreign_keys', 'read_only', 'create_if_missing', 'journal_mode', 'busy_timeout', 'synchronous', 'immutable', 'pragma', 'statement_cache_capacity', 'shared_cache'): self.f[name] = deref(a[0]); return self
        raise Unsupported(f'SqliteConnectOptions.{name}')
class PoolOpts(Obj):
    def __init__(self, pg): self.pg = pg; self.f = {'max_connections': 10}
    def m_connect_with(self, it, a, c):
        o = deref(a[0]); db = Ctx.cur.user['open_db'](o.dsn)
        db.fk = o.f['foreign_keys'] is True; db.ro = o.f['read_only'] is True
        n = deref(self.f['max_connections'])
        return Ok(Pool(db, single=(n.v if type(n) is Int else n) == 1))
    def m_connect(self, it, a, c):
        d = deref(a[0])
        return Ok(Pool(Ctx.cur.user['open_db'](d)))
    def method_missing(self, it, name, a, c): self.f[name] = a[0] if a else None; return self
EXT_FN['SqliteConnectOptions::from_str'] = lambda it, a, c: Ok(SqliteOpts(deref(a[0])))
EXT_FN['SqlitePoolOptions::new'] = lambda it, a, c: PoolOpts(False)
EXT_FN['PgPoolOptions::new'] = lambda it, a, c: PoolOpts(True)
EXT_FN['Postgres::database_exists'] = lambda it, a, c: Ok(True)
EXT_FN['Postgres::create_database'] = lambda it, a, c: Ok(UNIT())
def _json(it, a, c):
    from . import ext_http as H
    return Ok(H.JsonVal(clone(a[0])))
EXT_FN['serde_json::to_string'] = _json
def _unjson(prev):
    def f(it, a, c):
        from . import ext_http as H
        v = deref(a[0])
        if isinstance(v, H.JsonVal): return Ok(clone(v.v))       # what was written is what is read
        if prev is None: raise Unsupported('serde_json::from_str of text')
        return prev(it, a, c)
    return f
EXT_FN['serde_json::from_str'] = _unjson(EXT_FN.get('serde_json::from_str'))
