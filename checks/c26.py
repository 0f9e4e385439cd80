"""C26: statement text is parsed into the statement it says."""
from engine.harness import *
from engine import ext_sqltok as T
from engine.ext_sqlparser import ident_text
from engine.ext_sqltok import Tok, Eof, SqlParser, KINDS, WORDS, KW
NATIVE = None
BOUNDS = ('token sequences: every sequence of up to 3 (thorough: 4) tokens of any kind after each statement head, every statement template with one arbitrary token inserted, replaced or removed at any place, '
          'scripts of up to 3 statements; each token is any of %d kinds (every keyword the grammar uses, other words, quoted words, literals, punctuation) with one symbolic character of text' % len(KINDS))
ASSUMPTIONS = ['sqlparser 0.53 primitives as in its source (GenericDialect)', 'the tokenizer is outside the claim',
               'the native parsers (statements, queries, expressions, types, constraints) are arbitrary functions of the position: any failure or consumption',
               'PARTITIONED BY with no list counts as the empty list, as DataFusion has it']
MODELS = 'sqlparser tokens and Parser primitives'
class Bad(Exception): pass
class G:
    """the grammar, written from the documentation, over the same tokens"""
    def __init__(self, toks, nat): self.t = toks; self.i = 0; self.p = SqlParser(toks); self.p.nat = nat
    def at(self, d=0): return self.p.at(self.i + d)
    def is_(self, *ks, d=0): return self.at(d).among(list(ks))
    def eof(self): return isinstance(self.at(), Eof)
    def take(self, *ks):
        if self.is_(*ks): self.i += 1; return True
        return False
    def need(self, *ks):
        for k in ks:
            if not self.take(k): raise Bad(f'expected {k}')
    def ident(self):
        x = self.p.ident_at(self.i)
        if x is None: raise Bad('identifier')
        self.i += 1; return x
    def name(self):
        r = [self.ident()]
        while self.take('.'): r.append(self.ident())
        return r
    def literal(self):
        if not self.is_('word', 'quoted word', 'string', 'escaped'): raise Bad('literal')
        self.i += 1; return self.at(-1).text()
    def native(self, what, lo, hi, optional=False):
        n = self.p.native(what, self.i, lo, hi, optional=optional)
        if n is None: raise Bad('native ' + what)
        if n == 'absent': return None
        i = self.i; self.i += n; return f'{i}..{self.i}'
    # statements
    def script(self):
        out = []
        while True:
            while self.take(';'): pass
            if self.eof(): return out
            out.append(self.statement())
            if not self.eof() and not self.is_(';'): raise Bad('end of statement')
    def statement(self):
        if self.take('VACUUM'):
            if self.take('TABLE'): return ('vacuum table', self.name())
            if self.take('DATABASE'): return ('vacuum database', self.ident())
            raise Bad('vacuum target')
        if self.take('TRUNCATE'): self.need('TABLE'); return ('truncate', self.name())
        if self.take('CONVERT'):
            loc = self.literal(); self.need('TO', 'DELTA'); return ('convert', loc, self.name())
        if self.take('COPY'): return self.copy()
        if self.take('CREATE'): return self.create()
        return ('native', self.native('statement', 1, 99))
    def create(self):
        s = self.i; rep = False
        if self.is_('OR') and self.is_('REPLACE', d=1): rep = True; self.i += 2
        if self.take('FUNCTION'):
            n = self.name(); self.need('AS')
            if self.is_('dollar'): self.i += 1; return ('function', rep, n, 'DollarQuotedString', self.at(-1).text())
            return ('function', rep, n, 'SingleQuotedString', self.literal())
        if rep and self.is_('EXTERNAL', 'UNBOUNDED'): raise Bad('nothing that can be replaced')
        if rep: self.i = s; return ('native create', self.native('create', 1, 99))
        if self.take('EXTERNAL'): return self.external(False)
        if self.take('UNBOUNDED'): self.need('EXTERNAL'); return self.external(True)
        return ('native create', self.native('create', 1, 99))
    def clauses(self, spec):
        got = {}
        while True:
            for kw, (key, parse) in spec.items():
                if self.take(kw):
                    if key in got and key != 'order': raise Bad('twice ' + key)
                    v = parse()
                    if key == 'order': got.setdefault(key, []).append(v)
                    else: got[key] = v
                    break
            else:
                if self.eof() or self.is_(';'): return got
                raise Bad('unexpected token')
    def stored(self):
        self.need('AS')
        if not self.is_(*WORDS): raise Bad('format')
        self.i += 1; return upper(self.at(-1).text())
    def obsolete(self): raise Bad('obsolete clause')
    def options(self):
        self.need('('); r = []
        while True:
            if self.is_(*WORDS):
                k = [self.at().text()]; self.i += 1
                while self.take('.'):
                    if not self.is_(*WORDS): raise Bad('key')
                    k += ['.', self.at().text()]; self.i += 1
            elif self.is_('string', 'escaped'): k = [self.at().text()]; self.i += 1
            else: raise Bad('key')
            t = self.at()
            if self.is_(*WORDS, 'string'): v = ('SingleQuotedString', t.text())
            elif self.is_('escaped'): v = ('EscapedStringLiteral', t.text())
            elif self.is_('number'): v = ('Number', t.text())
            else: raise Bad('value')
            self.i += 1; r.append((mktext(k), v))
            c = self.take(',')
            if self.take(')'): return r
            if not c: raise Bad('separator')
    def names_list(self):
        if not self.take('(') or self.take(')'): return []
        r = []
        while True:
            if not self.is_(*WORDS): raise Bad('partition name')
            r.append(self.ident()); c = self.take(',')
            if self.take(')'): return r
            if not c: raise Bad('separator')
    def partitioned(self): self.need('BY'); return self.names_list()
    def copy(self):
        if self.take('('): src = ('query', self.native('query', 1, 2)); self.need(')')
        else: src = ('table', self.name())
        g = self.clauses({'STORED': ('stored', self.stored), 'TO': ('to', self.literal), 'PARTITIONED': ('part', self.partitioned), 'OPTIONS': ('options', self.options), 'WITH': ('with', self.obsolete)})
        if 'to' not in g: raise Bad('no target')
        return ('copy', src, g)
    # CREATE EXTERNAL TABLE
    def columns(self):
        cols, cons = [], []
        if not self.take('(') or self.take(')'): return cols, cons
        while True:
            c = self.native('table constraint', 1, 1, True)
            if c is not None: cons.append(c)
            elif self.is_(*WORDS): cols.append(self.column())
            else: raise Bad('column')
            c = self.take(',')
            if self.take(')'): return cols, cons
            if not c: raise Bad('separator')
    def column(self):
        n = self.ident(); ty = self.native('type', 1, 1); coll = self.name() if self.take('COLLATE') else None; o = []
        while True:
            if self.take('CONSTRAINT'):
                cn = self.ident(); x = self.native('column option', 1, 1, True)
                if x is None: raise Bad('constraint')
                o.append((cn, x)); continue
            x = self.native('column option', 1, 1, True)
            if x is None: return (n, ty, coll, o)
            o.append((None, x))
    def order(self):
        if self.take('ORDER'):
            self.need('('); r = []
            while True:
                e = self.native('expr', 1, 1); asc = True if self.take('ASC') else False if self.take('DESC') else None; nf = None
                if self.is_('NULLS') and self.is_('FIRST', 'LAST', d=1): nf = self.is_('FIRST', d=1); self.i += 2
                r.append((e, asc, nf))
                if not self.take(','): self.need(')'); return r
        self.obsolete()
    def external(self, unbounded):
        temp = self.take('TEMP', 'TEMPORARY'); self.need('TABLE')
        ine = False
        if self.is_('IF') and self.is_('NOT', d=1) and self.is_('EXISTS', d=2): ine = True; self.i += 3
        n = self.name(); cols, cons = self.columns(); extra = []
        def part():
            self.need('BY')
            if self.is_(',', ')', d=2): return self.names_list()
            c, k = self.columns()
            if k: raise Bad('constraints')
            extra.extend(c); return [x[0] for x in c]
        g = self.clauses({'STORED': ('stored', self.stored), 'LOCATION': ('location', self.literal), 'PARTITIONED': ('part', part), 'OPTIONS': ('options', self.options),
                          'WITH': ('order', self.order), 'DELIMITER': ('x', self.obsolete), 'COMPRESSION': ('y', self.obsolete)})
        if 'stored' not in g or 'location' not in g: raise Bad('missing clause')
        return ('external', dict(unbounded=unbounded, temp=temp, ine=ine, name=n, cols=cols + extra, cons=cons, **g))
def upper(t):
    if type(t) is str: return t.upper()
    from engine.symchars import cl, code, from_cl
    out = []
    for x in cl(t):
        k = code(x)
        if is_sym(k) and Ctx.cur.branch(mkbool(z3.And(k >= 97, k <= 122))): out.append(Char(k - 32))
        elif not is_sym(k): out.append(Char(chr(k).upper()))
        else: out.append(x)
    return from_cl(out)

# ------------------------------------------------------------------ comparison
def show_(x):
    if isinstance(x, tuple): return tuple(show_(y) for y in x)
    return x
def names_eq(obj, ids):
    got = [deref(x) for x in deref(deref(obj).f['0']).a]
    return len(got) == len(ids) and band(*[eq(g, w) for g, w in zip(got, ids)])
def nat_eq(v, want): v = deref(v); return type(v) is Enum and v.var == 'Native' and v.f['0'] == want
def optn(v): v = deref(v); return None if v.var == 'None' else deref(v.f['0'])
def nametext(it, ids): return mktext([y for i, x in enumerate(ids) for y in (['.'] if i else []) + [ident_text(it, x)]])
def lst(v): return [deref(x) for x in deref(v).a]
def all_(bs):
    bs = list(bs)
    return False if any(b is False for b in bs) else band(*bs) if bs else True
def opts_eq(v, want):
    got = lst(v)
    if len(got) != len(want): return False
    r = []
    for g, (k, (kind, val)) in zip(got, want):
        x = deref(g.a[1]); r += [eq(g.a[0], k), x.var == kind and eq(x.f['0'], val)]
    return all_(r)

def plan(h, st):
    """the extension node the planner makes of a statement"""
    it = h.it
    base = Opaque('session'); ctx = Struct(it.find_type('SeafowlContext'), {'default_catalog': 'maincat', 'default_schema': 'public', 'inner': base, 'internal_object_store': NONE(), 'config': Opaque('config'), 'metastore': Opaque('metastore')})
    it.overrides['SeafowlContext::reload_schema'] = lambda it, a, c: Ok(UNIT())
    r = it.method(ctx, 'create_logical_plan_from_statement', st)
    if r.var != 'Ok': return None
    p = deref(r.f['0'])
    if p.var != 'Extension': return None
    n = deref(deref(p.f['0']).f['node']); return n.var, deref(n.f['0'])
def agree(h, st, want):
    """the parsed statement is the one the grammar gives"""
    it = h.it; st = deref(st); k = want[0]
    if k in ('native', 'native create'):
        s = deref(st.f['0']); return st.var == 'Statement' and nat_eq(s, want[1])
    if k in ('vacuum table', 'vacuum database', 'truncate', 'convert'):
        x = plan(h, st)
        if x is None: return False
        kind, n = x
        if k == 'vacuum table': return kind == 'Vacuum' and optn(n.f['database']) is None and optn(n.f['table_name']) is not None and eq(optn(n.f['table_name']), nametext(it, want[1]))
        if k == 'vacuum database': return kind == 'Vacuum' and optn(n.f['table_name']) is None and optn(n.f['database']) is not None and eq(optn(n.f['database']), want[1].f['value'])
        if k == 'truncate': return kind == 'Truncate' and eq(n.f['table_name'], nametext(it, want[1]))
        return kind == 'ConvertTable' and all_([eq(n.f['location'], want[1]), eq(n.f['name'], nametext(it, want[2]))])
    if k == 'function':
        s = deref(st.f['0'])
        if st.var != 'Statement' or s.var != 'CreateFunction': return False
        f = deref(s.f['0']); b = deref(optn(f.f['function_body']).f['0'])
        v = deref(b.f['0'])
        return all_([deref(f.f['or_replace']) is want[1], names_eq(f.f['name'], want[2]), v.var == want[3] and eq(v.f['0'], want[4]), deref(f.f['temporary']) is False, deref(f.f['if_not_exists']) is False])
    if k == 'copy':
        if st.var != 'CopyTo': return False
        c = deref(st.f['0']); src = deref(c.f['source']); g = want[2]
        ok = [src.var == ('Query' if want[1][0] == 'query' else 'Relation')]
        ok.append(ok[0] and (nat_eq(src.f['0'], want[1][1]) if want[1][0] == 'query' else names_eq(src.f['0'], want[1][1])))
        sa = optn(c.f['stored_as'])
        ok += [eq(c.f['target'], g['to']), (sa is None) == ('stored' not in g) and (sa is None or eq(sa, g['stored'])), parts_eq(it, c.f['partitioned_by'], g.get('part', [])), opts_eq(c.f['options'], g.get('options', []))]
        return all_(ok)
    if k == 'external':
        if st.var != 'CreateExternalTable': return False
        c = deref(st.f['0']); w = want[1]
        ok = [deref(c.f['unbounded']) is w['unbounded'], deref(c.f['temporary']) is w['temp'], deref(c.f['if_not_exists']) is w['ine'], names_eq(c.f['name'], w['name']), eq(c.f['file_type'], w['stored']), eq(c.f['location'], w['location']),
              parts_eq(it, c.f['table_partition_cols'], w.get('part', [])), opts_eq(c.f['options'], w.get('options', []))]
        cs = lst(c.f['constraints']); ok.append(len(cs) == len(w['cons']) and all_(nat_eq(a, b) for a, b in zip(cs, w['cons'])))
        cols = lst(c.f['columns']); ok.append(len(cols) == len(w['cols']))
        for a, (n, ty, coll, o) in zip(cols, w['cols']):
            co = optn(a.f['collation']); os = lst(a.f['options'])
            ok += [eq(a.f['name'], n), nat_eq(a.f['data_type'], ty), (co is None) == (coll is None) and (co is None or names_eq(co, coll)), len(os) == len(o)]
            for x, (cn, b) in zip(os, o): y = optn(x.f['name']); ok += [nat_eq(x.f['option'], b), (y is None) == (cn is None) and (y is None or eq(y, cn))]
        oe = lst(c.f['order_exprs']); wo = w.get('order', []); ok.append(len(oe) == len(wo))
        for a, b in zip(oe, wo):
            a = lst(a); ok.append(len(a) == len(b))
            for x, (e, asc, nf) in zip(a, b): ok += [nat_eq(x.f['expr'], e), optn(x.f['asc']) is asc, optn(x.f['nulls_first']) is nf]
        return all_(ok)
def parts_eq(it, v, ids):
    got = lst(v); return len(got) == len(ids) and all_(eq(g, ident_text(it, w)) for g, w in zip(got, ids))

def judge(h, toks):
    it = h.it; h.ctx.user['tokens'] = toks
    nat = h.ctx.user['nat'] = {}
    r = it.call_fn('seafowl::datafusion::parser::DFParser::parse_sql', 'the script')
    try: want = G(toks, nat).script()
    except Bad as e: want = e
    info = lambda m: {'script': [[k, repr(m(t.text()))] if (k := sorted(t.dom)[0] if len(t.dom) == 1 else KINDS[m.term(t.code)]) not in T.PUNCT and k not in KW else k for t in toks], 'parsed': repr(r)[:600], 'expected': repr(want)[:300]}
    if isinstance(want, Bad):
        h.check(r.var == 'Err', 'text that is no such statement is accepted', info=info); h.wit('refused'); return
    h.check(r.var == 'Ok', 'a well-formed statement is refused', info=info)
    got = lst(r.f['0'])
    h.check(len(got) == len(want), 'statements are lost or invented', info=info)
    for g, w in zip(got, want): h.check(agree(h, g, w), 'a statement is parsed into something else', info=info)
    for w in want: h.wit(w[0])

def toks_of(h, spec):
    """spec: kinds, '?' any token"""
    out = []
    for i, k in enumerate(spec): out.append(Tok(f't{i}') if k == '?' else Tok(f't{i}', dom=set(k)) if isinstance(k, (tuple, list, set)) else Tok(f't{i}', k))
    return out
NAME = ('word', 'quoted word', 'string', 'TABLE')
HEADS = {'VACUUM': ['VACUUM'], 'VACUUM TABLE': ['VACUUM', 'TABLE'], 'VACUUM DATABASE': ['VACUUM', 'DATABASE'], 'TRUNCATE': ['TRUNCATE'], 'TRUNCATE TABLE': ['TRUNCATE', 'TABLE'], 'CONVERT': ['CONVERT'], 'CONVERT x TO': ['CONVERT', 'string', 'TO'],
         'COPY': ['COPY'], 'COPY t TO x': ['COPY', 'word', 'TO', 'string'], 'CREATE': ['CREATE'], 'CREATE OR REPLACE': ['CREATE', 'OR', 'REPLACE'], 'CREATE FUNCTION': ['CREATE', 'FUNCTION'], 'CREATE EXTERNAL': ['CREATE', 'EXTERNAL'],
         'CREATE EXTERNAL TABLE t': ['CREATE', 'EXTERNAL', 'TABLE', 'word'], 'OPTIONS': ['COPY', 'word', 'TO', 'string', 'OPTIONS', '('], 'COPY PARTITIONED': ['COPY', 'word', 'TO', 'string', 'PARTITIONED', 'BY', '('], '': []}
@case('any tokens after a statement head', over=[dict(head=k, n=n, _tier='quick' if n <= 3 else 'thorough') for k in HEADS for n in (1, 2, 3, 4)], expects=['refused'], budget=300)
def free(h, head, n): judge(h, toks_of(h, HEADS[head] + ['?'] * n))

TEMPL = {'vacuum table': ['VACUUM', 'TABLE', NAME, '.', NAME], 'vacuum database': ['VACUUM', 'DATABASE', NAME], 'truncate': ['TRUNCATE', 'TABLE', NAME, '.', NAME, '.', NAME], 'convert': ['CONVERT', 'string', 'TO', 'DELTA', NAME],
         'function': ['CREATE', 'OR', 'REPLACE', 'FUNCTION', NAME, 'AS', ('string', 'dollar')], 'function plain': ['CREATE', 'FUNCTION', NAME, 'AS', ('string', 'dollar', 'escaped')],
         'copy table': ['COPY', NAME, 'TO', 'string', 'STORED', 'AS', WORDS], 'copy query': ['COPY', '(', 'SELECT', 'number', ')', 'TO', 'string', 'OPTIONS', '(', ('word', 'string'), ('word', 'string', 'number', 'escaped'), ')'],
         'copy all': ['COPY', 'word', 'STORED', 'AS', 'word', 'OPTIONS', '(', 'word', '.', 'word', 'number', ',', 'string', 'string', ')', 'PARTITIONED', 'BY', '(', 'word', ',', 'quoted word', ')', 'TO', 'string'],
         'external': ['CREATE', 'EXTERNAL', 'TABLE', NAME, 'STORED', 'AS', 'word', 'LOCATION', 'string'], 'external unbounded': ['CREATE', 'UNBOUNDED', 'EXTERNAL', ('TEMP', 'TEMPORARY'), 'TABLE', 'IF', 'NOT', 'EXISTS', 'word', 'LOCATION', 'string', 'STORED', 'AS', 'word'],
         'external columns': ['CREATE', 'EXTERNAL', 'TABLE', 'word', '(', 'word', 'word', ',', 'word', 'word', ')', 'STORED', 'AS', 'word', 'LOCATION', 'string'],
         'external partitioned': ['CREATE', 'EXTERNAL', 'TABLE', 'word', 'STORED', 'AS', 'word', 'PARTITIONED', 'BY', '(', 'word', ',', 'quoted word', ')', 'LOCATION', 'string'],
         'external partition columns': ['CREATE', 'EXTERNAL', 'TABLE', 'word', 'STORED', 'AS', 'word', 'PARTITIONED', 'BY', '(', 'word', 'word', ')', 'LOCATION', 'string'],
         'external ordered': ['CREATE', 'EXTERNAL', 'TABLE', 'word', 'STORED', 'AS', 'word', 'WITH', 'ORDER', '(', 'word', ('ASC', 'DESC'), ',', 'word', 'NULLS', ('FIRST', 'LAST'), ')', 'LOCATION', 'string', 'OPTIONS', '(', 'word', 'word', ')'],
         'drop table': ['DROP', 'TABLE', 'word']}
WIT = {'vacuum table': 'vacuum table', 'vacuum database': 'vacuum database', 'drop table': 'native'}
@case('a statement and one arbitrary change', over=[dict(t=k, how=w, _expects=([WIT.get(k, k.split()[0])] if w != 'removed' else []) + (['refused'] if w != 'exact' and k != 'drop table' else [])) for k in TEMPL for w in ('exact', 'replaced', 'inserted', 'removed')])
def mutate(h, t, how):
    spec = list(TEMPL[t]); 
    if how != 'exact':
        i = h.choose(len(spec) + (1 if how == 'inserted' else 0), 'place')
        if how == 'replaced': spec[i] = '?'
        elif how == 'inserted': spec.insert(i, '?')
        else: del spec[i]
    judge(h, toks_of(h, spec))
SHORT = {'v': ['VACUUM', 'DATABASE', 'word'], 'tr': ['TRUNCATE', 'TABLE', 'word'], 'cp': ['COPY', 'word', 'TO', 'string'], 'fn': ['CREATE', 'FUNCTION', 'word', 'AS', 'string'], 'ex': ['CREATE', 'EXTERNAL', 'TABLE', 'word', 'STORED', 'AS', 'word', 'LOCATION', 'string'], 'sel': ['SELECT', 'number'], 'cv': ['CONVERT', 'string', 'TO', 'DELTA', 'word']}
@case('scripts', over=[dict(a=a, b=b, n=n, _tier='quick' if n < 2 or (a, b) in (('cp', 'sel'), ('sel', 'cp'), ('v', 'ex'), ('tr', 'fn')) else 'thorough') for a in SHORT for b in SHORT for n in (1, 2)])
def scripts(h, a, b, n):
    # separators: any token, possibly none
    k = h.choose(2, 'leading separator')
    spec = ([';'] if k else []) + SHORT[a] + ['?'] * n + SHORT[b] + ([';'] if h.flip('trailing separator') else [])
    judge(h, toks_of(h, spec))
@case('a script that cannot be tokenized', expects=['refused'])
def untok(h):
    h.ctx.user['tokens'] = None
    r = h.it.call_fn('seafowl::datafusion::parser::DFParser::parse_sql', 'the script')
    h.check(r.var == 'Err', 'a script that cannot be tokenized is accepted'); h.wit('refused')
