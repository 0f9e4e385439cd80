"""sqlparser 0.53 token stream and the Parser primitives DFParser builds on (GenericDialect).
A token is symbolic: its kind is an SMT integer over KINDS (keywords, words, literals, punctuation), its text symbolic characters.
The native statement/query/expression parsers are arbitrary: any outcome, any number of tokens consumed (memoised per position)."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS, CONSTS, ext
from .symchars import symtext, symchar, cl, code, from_cl
from .ext_sqlparser import ident, objname, ident_text
KW = ['CREATE', 'CONVERT', 'COPY', 'VACUUM', 'TRUNCATE', 'TABLE', 'DATABASE', 'TO', 'DELTA', 'STORED', 'AS', 'OPTIONS', 'WITH', 'HEADER', 'ROW', 'PARTITIONED', 'BY', 'LOCATION', 'EXTERNAL', 'UNBOUNDED',
      'FUNCTION', 'OR', 'REPLACE', 'TEMP', 'TEMPORARY', 'IF', 'NOT', 'EXISTS', 'ORDER', 'ASC', 'DESC', 'NULLS', 'FIRST', 'LAST', 'DELIMITER', 'COMPRESSION', 'TYPE', 'COLLATE', 'CONSTRAINT', 'SELECT', 'DROP', 'EXPLAIN', 'ONLY', 'FULL', 'TEMPORARY_', 'FROM', 'FORMAT', 'SCHEMA', 'ALL']
KW = [k for k in KW if not k.endswith('_')]
WORDS = KW + ['word', 'quoted word']
LIT = {'string': 'SingleQuotedString', 'dollar': 'DollarQuotedString', 'escaped': 'EscapedStringLiteral', 'number': 'Number'}
PUNCT = {'(': 'LParen', ')': 'RParen', ',': 'Comma', '.': 'Period', ';': 'SemiColon', '=': 'Eq'}
KINDS = WORDS + list(LIT) + list(PUNCT)
IDX = {k: i for i, k in enumerate(KINDS)}
VARIANT = {**LIT, **PUNCT}; KIND_OF = {v: k for k, v in VARIANT.items()}
class Tok(Obj):
    tname = 'Token'
    def __init__(self, name, kind=None, dom=None, text=None):
        self.name = name; self.dom = {kind} if kind else set(dom or KINDS); self.code = None; self._t = text
        if not kind:
            self.code = Ctx.cur.fresh(name + '.kind')
            if is_sym(self.code): Ctx.cur.add(z3.Or(*[self.code == IDX[k] for k in sorted(self.dom)]))
            else: self.dom = {KINDS[self.code]} if self.code in range(len(KINDS)) else self.dom
    def among(self, names):
        names = set(names) & self.dom
        if not names: return False
        if names == self.dom: return True
        r = Ctx.cur.fork(mkbool(z3.Or(*[self.code == IDX[n] for n in sorted(names)])))
        self.dom = names if r else self.dom - names
        return r
    def kind(self):
        for k in sorted(self.dom):
            if self.among([k]): return k
    def text(self):
        if self._t is None:
            if len(self.dom) == 1 and next(iter(self.dom)) in KW: self._t = next(iter(self.dom))
            else: self._t = symtext(self.name + '.text', 1, 35, 126)
        return self._t
    def word(self):
        q = self.among(['quoted word'])
        return Struct('Word', {'value': self.text(), 'quote_style': opt(Char('"') if q else None), 'keyword': Kw(self)})
    def as_variant(self, it, names):
        n = names[-1]
        if n == 'Word': return Enum('Token', 'Word', {'0': self.word()}) if self.among(WORDS) else None
        k = KIND_OF.get(n)
        if k is None or not self.among([k]): return None
        if k == 'number': return Enum('Token', 'Number', {'0': self.text(), '1': False})
        return Enum('Token', n, {'0': self.text()} if k in LIT else {})
    def eq_(self, o):
        o = deref(o)
        if isinstance(o, (Tok, TS)): return (o.t if isinstance(o, TS) else o) is self
        if type(o) is Enum and o.ty == 'Token':
            k = KIND_OF.get(o.var)
            return self.among([k]) if k and not o.f else False
        if isinstance(o, Eof): return False
        raise Unsupported(f'token == {o!r}')
    def m_clone(self, it, a, c): return self
    def m_eq(self, it, a, c): return self.eq_(a[0])
    def display_(self, it): return self.name
    debug_ = display_
class Eof(Tok):
    def __init__(self): self.name = 'EOF'; self.dom = set(); self.code = None; self._t = ''
    def as_variant(self, it, names): return Enum('Token', 'EOF') if names[-1] == 'EOF' else None
    def eq_(self, o):
        o = deref(o); return isinstance(o, Eof) or (isinstance(o, TS) and isinstance(o.t, Eof)) or (type(o) is Enum and o.var == 'EOF')
class TS(Obj):
    """TokenWithSpan"""
    tname = 'TokenWithSpan'
    def __init__(self, t): self.t = t; self.f = {'token': t, 'span': Opaque('Span')}
    def eq_(self, o):
        o = deref(o); return self.t.eq_(o.t if isinstance(o, TS) else o)
    def m_eq(self, it, a, c): return self.eq_(a[0])
    def m_clone(self, it, a, c): return self
    def display_(self, it): return self.t.name
    debug_ = display_
class Kw(Obj):
    tname = 'Keyword'
    def __init__(self, t): self.t = t
    def among(self, names): 
        if set(names) & {'NoKeyword'}: names = [n for n in names if n != 'NoKeyword'] + ['word', 'quoted word']
        return self.t.among([n for n in names if n in IDX])
    def as_variant(self, it, names): return Enum('Keyword', names[-1]) if self.among([names[-1]]) else None
    def eq_(self, o):
        o = deref(o); return self.among([o.var]) if type(o) is Enum else o.t is self.t
    def m_eq(self, it, a, c): return self.eq_(a[0])
    def m_clone(self, it, a, c): return self
def err(msg): return Err(Enum('ParserError', 'ParserError', {'0': msg}))
class SqlParser(Obj):
    tname = 'Parser'
    def __init__(self, toks=()): self.toks = list(toks); self.i = 0; self.nat = {}
    def m_with_tokens(self, it, a, c): self.toks = list(deref(a[0]).a); self.i = 0; return self
    m_with_tokens_with_locations = m_with_tokens
    def at(self, i): return self.toks[i] if 0 <= i < len(self.toks) else Eof()
    def m_peek_token(self, it, a, c): return TS(self.at(self.i))
    def m_peek_nth_token(self, it, a, c): return TS(self.at(self.i + stdlib.cint(a[0])))
    def m_next_token(self, it, a, c): self.i += 1; return TS(self.at(self.i - 1))
    def m_prev_token(self, it, a, c): self.i -= 1; return UNIT()
    def m_index(self, it, a, c): return Int(self.i, 'usize')
    def kw(self, k):
        k = deref(k).var
        if self.at(self.i).among([k] if k in IDX else []): self.i += 1; return True
        return False
    def m_peek_keyword(self, it, a, c): return self.at(self.i).among([deref(a[0]).var])
    def m_parse_keyword(self, it, a, c): return self.kw(a[0])
    def m_parse_keywords(self, it, a, c):
        s = self.i
        for k in deref(a[0]).a:
            if not self.kw(k): self.i = s; return False
        return True
    def m_parse_one_of_keywords(self, it, a, c):
        for k in deref(a[0]).a:
            if self.kw(k): return Some(deref(k))
        return NONE()
    def m_expect_one_of_keywords(self, it, a, c):
        r = self.m_parse_one_of_keywords(it, a, c)
        return Ok(r.f['0']) if r.var == 'Some' else err('expected one of keywords')
    def m_expect_keyword(self, it, a, c): return Ok(TS(self.at(self.i - 1))) if self.kw(a[0]) else err('expected keyword')
    def m_expect_keywords(self, it, a, c):
        for k in deref(a[0]).a:
            if not self.kw(k): return err('expected keyword')
        return Ok(UNIT())
    def m_consume_token(self, it, a, c):
        if self.at(self.i).eq_(deref(a[0])): self.i += 1; return True
        return False
    def m_expect_token(self, it, a, c):
        if self.m_consume_token(it, a, c): return Ok(TS(self.at(self.i - 1)))
        return err('expected token')
    def m_expected(self, it, a, c): return err('expected ...')
    def ident_at(self, i):
        t = self.at(i)
        if isinstance(t, Eof): return None
        if t.among(WORDS): return ident(t.text(), '"' if t.among(['quoted word']) else None)
        if t.among(['string']): return ident(t.text(), "'")
        return None
    def m_parse_identifier(self, it, a, c):
        x = self.ident_at(self.i); self.i += 1
        return Ok(x) if x is not None else err('expected identifier')
    def m_parse_object_name(self, it, a, c):
        ids = []
        while True:
            x = self.ident_at(self.i); self.i += 1
            if x is None: return err('expected identifier')
            ids.append(x)
            if not self.at(self.i).among(['.']): break
            self.i += 1
        return Ok(objname(*ids))
    def m_parse_literal_string(self, it, a, c):
        t = self.at(self.i); self.i += 1
        if t.among(['word', 'quoted word', 'string', 'escaped']): return Ok(t.text())
        return err('expected literal string')
    # ---- native parsers: arbitrary, the same at the same position
    def native(self, what, pos, lo, hi, may_fail=True, optional=False):
        k = (what, pos)
        if k not in self.nat:
            j = pos
            while j < len(self.toks) and j - pos < hi and (not self.toks[j].among([';'])): j += 1
            outs = [n for n in range(lo, j - pos + 1)]
            ch = ([None] if may_fail or not outs else []) + (['absent'] if optional else []) + outs
            self.nat[k] = ch[Ctx.cur.choose(len(ch), f'native {what} at {pos}')] if len(ch) > 1 else ch[0]
        return self.nat[k]
    def run(self, what, lo, hi, wrap, optional=False, kinds=None):
        p = self.i; n = self.native(what, p, lo, hi, optional=optional)
        if n is None: return err(f'native {what} error')
        if n == 'absent': return Ok(NONE())
        self.i = p + n; v = wrap(p, p + n)
        return Ok(Some(v) if optional else v)
    def m_parse_statement(self, it, a, c): return self.run('statement', 1, 99, lambda i, j: Enum('Statement', 'Native', {'0': f'{i}..{j}'}))
    def m_parse_create(self, it, a, c): return self.run('create', 1, 99, lambda i, j: Enum('Statement', 'Native', {'0': f'{i}..{j}'}))
    def m_parse_query(self, it, a, c): return self.run('query', 1, 2, lambda i, j: Enum('Query', 'Native', {'0': f'{i}..{j}'}))
    def m_parse_expr(self, it, a, c): return self.run('expr', 1, 1, lambda i, j: Enum('Expr', 'Native', {'0': f'{i}..{j}'}))
    def m_parse_data_type(self, it, a, c): return self.run('type', 1, 1, lambda i, j: Enum('DataType', 'Native', {'0': f'{i}..{j}'}))
    def m_parse_optional_table_constraint(self, it, a, c): return self.run('table constraint', 1, 1, lambda i, j: Enum('TableConstraint', 'Native', {'0': f'{i}..{j}'}), True)
    def m_parse_optional_column_option(self, it, a, c): return self.run('column option', 1, 1, lambda i, j: Enum('ColumnOption', 'Native', {'0': f'{i}..{j}'}), True)
def _pn(it, a, c):
    p = SqlParser(); p.nat = Ctx.cur.user.setdefault('nat', {}); return p
EXT_FN['Parser::new'] = _pn
class Tokenizer(Obj):
    def m_tokenize(self, it, a, c):
        t = Ctx.cur.user['tokens']
        return err('tokenizer') if t is None else Ok(Vec(list(t)))
    m_tokenize_with_location = m_tokenize
EXT_FN['Tokenizer::new'] = lambda it, a, c: Tokenizer()
@ext('DFSchema::empty')
def _dfs(it, a, c): return Opaque('DFSchema')
METHODS[('TruncateTableTarget', 'display')] = lambda it, v, a, c: it.to_text(v.f['name'])
