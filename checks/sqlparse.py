"""Precedence tables of the remote systems and a parser from rendered text (known pieces, symbolic operators,
symbolic literals) back to an expression tree."""
import z3
from engine.core import *
from engine.values import *
from engine.interp import OpaquePiece
from engine import ext_df as D
from engine.symchars import cl, ceq, code

class Bad(Exception): pass
OP = D.IDX
ALIAS = {'=': 'Eq', '<>': 'NotEq', '!=': 'NotEq', '<': 'Lt', '<=': 'LtEq', '>': 'Gt', '>=': 'GtEq', '+': 'Plus', '-': 'Minus', '*': 'Multiply', '/': 'Divide', '%': 'Modulo', '&': 'BitwiseAnd', '|': 'BitwiseOr', '<<': 'BitwiseShiftLeft', '>>': 'BitwiseShiftRight', 'AND': 'And', 'OR': 'Or'}
ARITH = {'Plus', 'Minus'}; MUL = {'Multiply', 'Divide', 'Modulo'}; CMP = {'Eq', 'NotEq', 'Lt', 'LtEq', 'Gt', 'GtEq'}
DIST = {'IsDistinctFrom', 'IsNotDistinctFrom'}
REGEX = {'RegexMatch', 'RegexIMatch', 'RegexNotMatch', 'RegexNotIMatch'}; LIKE = {'LikeMatch', 'ILikeMatch', 'NotLikeMatch', 'NotILikeMatch'}
ARR = {'AtArrow', 'ArrowAt'}

class Dialect:
    """levels: list of (level, nonassoc, {ops});   bad: ops whose text means something else or is a syntax error"""
    pass
class PG(Dialect):
    name = 'postgres'; ident = '"'; backslash = False
    alias = dict(ALIAS, **{'#': 'BitwiseXor', '||': 'StringConcat', '~': 'RegexMatch', '~*': 'RegexIMatch', '!~': 'RegexNotMatch', '!~*': 'RegexNotIMatch', '~~': 'LikeMatch', '~~*': 'ILikeMatch', '!~~': 'NotLikeMatch', '!~~*': 'NotILikeMatch', '@>': 'AtArrow', '<@': 'ArrowAt'})
    levels = [(1, False, {'Or'}), (2, False, {'And'}), (4, True, DIST), (5, True, CMP), (7, False, REGEX | LIKE | ARR | {'StringConcat', 'BitwiseAnd', 'BitwiseOr', 'BitwiseXor', 'BitwiseShiftLeft', 'BitwiseShiftRight'}), (8, False, ARITH), (9, False, MUL)]
    textbad = {'BitwiseXor'}          # BIT_XOR is no operator
    NOT = 3; IS = 4; ISTRUE = 4; IN = 6; NEG = 11; strict = False
class SQLITE(Dialect):
    name = 'sqlite'; ident = '"'; backslash = False
    alias = dict(ALIAS, **{'||': 'StringConcat', '==': 'Eq'})
    levels = [(1, False, {'Or'}), (2, False, {'And'}), (4, False, DIST | {'Eq', 'NotEq'}), (5, False, {'Lt', 'LtEq', 'Gt', 'GtEq'}), (6, False, {'BitwiseAnd', 'BitwiseOr', 'BitwiseShiftLeft', 'BitwiseShiftRight'}), (7, False, ARITH), (8, False, MUL), (9, False, {'StringConcat'})]
    textbad = {'BitwiseXor'} | REGEX | LIKE | ARR
    NOT = 3; IS = 4; ISTRUE = 4; IN = 4; NEG = 11; strict = False
class MYSQL(Dialect):
    name = 'mysql'; ident = '`'; backslash = True
    alias = dict(ALIAS, **{'^': 'BitwiseXor', 'RLIKE': 'RegexMatch', 'REGEXP': 'RegexMatch'})
    levels = [(1, False, {'Or'}), (3, False, {'And'}), (6, False, CMP), (7, True, {'RegexMatch', 'RegexNotMatch'}), (8, False, {'BitwiseOr'}), (9, False, {'BitwiseAnd'}), (10, False, {'BitwiseShiftLeft', 'BitwiseShiftRight'}), (11, False, ARITH), (12, False, MUL - {'Divide'}), (13, False, {'BitwiseXor'})]
    textbad = {'BitwiseXor', 'StringConcat', 'Divide'} | REGEX | LIKE | ARR | DIST
    NOT = 4; IS = 6; ISTRUE = 5; IN = 7; NEG = 14; strict = True
DIALECTS = {'Postgres': PG, 'SQLite': SQLITE, 'MySQL': MYSQL}

# ------------------------------------------------------------------ tokens
class Tok:
    __slots__ = ('k', 'v', 'sp')
    def __init__(self, k, v=None): self.k = k; self.v = v
    def __repr__(self): return f'{self.k}:{self.v}'
KW = {'AND', 'OR', 'NOT', 'IS', 'NULL', 'TRUE', 'FALSE', 'IN', 'DISTINCT', 'FROM', 'RLIKE', 'REGEXP', 'XOR', 'DIV', 'MOD', 'LIKE', 'BETWEEN', 'UNKNOWN', 'BIT_XOR', 'SELECT', 'WHERE', 'LIMIT', 'CASE', 'CAST'}
PUNCT = ['!~~*', '!~*', '!~~', '~~*', '<=>', '<=', '>=', '<>', '!=', '<<', '>>', '||', '~~', '~*', '!~', '@>', '<@', '==', '=', '<', '>', '+', '-', '*', '/', '%', '&', '|', '^', '#', '~', '(', ')', ',', ';']

def atoms(text):
    """flatten into characters and opaque pieces"""
    out = []
    for p in (text.p if type(text) is Text else [text]):
        if isinstance(p, str): out.extend(Char(c) for c in p)
        else: out.append(p)
    return out

def tokenise(text, d):
    a = atoms(text); i = 0; out = []
    br = Ctx.cur.branch
    def isc(x, ch): return type(x) is Char and br(ceq(x, Char(ch)))
    def conc(x): return x.c if type(x) is Char and isinstance(x.c, str) else None
    while i < len(a):
        x = a[i]; c = conc(x)
        if c is not None and c.isspace(): i += 1; continue
        if type(x) is Int:            # a number rendered from a symbolic integer
            if not x.conc() and br(x.v < 0):
                if i > 0 and conc(a[i-1]) == '-': raise Bad('`--` starts a comment')
                out.append(Tok('op', 'Minus')); out.append(Tok('num', Int(-x.v)))
            else:
                if x.conc() and x.v < 0: out.append(Tok('op', 'Minus')); out.append(Tok('num', Int(-x.v)))
                else: out.append(Tok('num', x))
            if i + 1 < len(a) and (type(a[i+1]) is Int or (conc(a[i+1]) or ' ') not in ' ),'): raise Bad('text glued to a number')
            i += 1; continue
        if type(x) is OpaquePiece:
            if isinstance(x.v, D.SymOp): out.append(Tok('sym', x.v)); i += 1; continue
            raise Bad(f'text of unknown meaning: {x!r}')
        if type(x) is not Char: raise Bad(f'{x!r} unquoted')
        if c is None: raise Bad('a character of a value outside quotes')
        if c == '-' and i + 1 < len(a) and conc(a[i+1]) == '-': raise Bad('`--` starts a comment')
        if c == d.ident or c == "'" or c in '"`[':
            if c != d.ident and c != "'": raise Bad(f'{c} does not quote identifiers in {d.name}')
            body = []; j = i + 1
            while True:
                if j >= len(a): raise Bad('unterminated quote')
                y = a[j]
                if isc(y, c):
                    if j + 1 < len(a) and isc(a[j+1], c): body.append(Char(c)); j += 2; continue
                    break
                if c == "'" and d.backslash and isc(y, '\\'):
                    if j + 1 >= len(a): raise Bad('unterminated quote')
                    z = a[j+1]
                    for esc, val in (("0", '\0'), ("'", "'"), ('"', '"'), ('b', '\b'), ('n', '\n'), ('r', '\r'), ('t', '\t'), ('Z', '\x1a'), ('\\', '\\')):
                        if isc(z, esc): body.append(Char(val)); break
                    else: body.append(z)
                    j += 2; continue
                body.append(y); j += 1
            out.append(Tok('id' if c == d.ident else 'str', body)); i = j + 1; continue
        if c.isdigit():
            j = i
            while j < len(a) and (conc(a[j]) or ' ') in '0123456789.eE': j += 1
            out.append(Tok('num', ''.join(conc(q) for q in a[i:j]))); i = j; continue
        if c.isalpha() or c == '_':
            j = i
            while j < len(a) and ((conc(a[j]) or ' ').isalnum() or conc(a[j]) == '_'): j += 1
            w = ''.join(conc(q) for q in a[i:j])
            if w.upper() in KW: out.append(Tok('kw', w.upper()))
            else: raise Bad(f'unquoted word {w}')
            i = j; continue
        for p in PUNCT:
            if all(i + k < len(a) and conc(a[i+k]) == p[k] for k in range(len(p))):
                if p in '(),;': out.append(Tok(p))
                elif p in d.alias: out.append(Tok('op', d.alias[p]))
                else: raise Bad(f'{p} is no {d.name} operator of this meaning')
                i += len(p); break
        else: raise Bad(f'character {c!r}')
    return out

# ------------------------------------------------------------------ parser
class Parser:
    def __init__(self, toks, d): self.t = toks; self.i = 0; self.d = d
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else Tok('end')
    def kw(self, *ws):
        for j, w in enumerate(ws):
            t = self.peek(j)
            if t.k != 'kw' or t.v != w: return False
        self.i += len(ws); return True
    def parse(self):
        e, _ = self.expr(0)
        if self.peek().k != 'end': raise Bad(f'trailing {self.peek()}')
        return e
    def level_of(self, t):
        """(level, nonassoc) of an infix operator token"""
        d = self.d
        if t.k == 'op':
            for l, na, ops in d.levels:
                if t.v in ops: return l, na
            raise Bad(f'{t.v} is not an operator of {d.name}')
        op = t.v
        if op.among(d.textbad): raise Bad('an operator whose text does not mean the same to ' + d.name)
        for l, na, ops in d.levels:
            if op.among(ops - d.textbad): return l, na
        raise Bad('an operator unknown to ' + d.name)
    def infix(self):
        """next infix/postfix: (kind, level, nonassoc, data, length)"""
        d = self.d; t = self.peek()
        def kws(*ws): return all(self.peek(j).k == 'kw' and self.peek(j).v == w for j, w in enumerate(ws))
        if t.k in ('op', 'sym'):
            l, na = self.level_of(t); return ('bin', l, na, t.v, 1)
        if kws('AND'): return ('bin',) + self.level_of(Tok('op', 'And')) + ('And', 1)
        if kws('OR'): return ('bin',) + self.level_of(Tok('op', 'Or')) + ('Or', 1)
        if kws('XOR'): raise Bad('XOR')
        for w, v in (('RLIKE', 'RegexMatch'), ('REGEXP', 'RegexMatch')):
            if kws(w) or kws('NOT', w):
                if d.name != 'mysql': raise Bad(f'{w} in {d.name}')
                neg = t.v == 'NOT'
                return ('bin',) + self.level_of(Tok('op', 'RegexMatch')) + ('RegexNotMatch' if neg else 'RegexMatch', 2 if neg else 1)
        if kws('IN') or kws('NOT', 'IN'): return ('in', d.IN, False, t.v == 'NOT', 2 if t.v == 'NOT' else 1)
        if kws('IS'):
            neg = kws('IS', 'NOT'); k = 2 if neg else 1
            w = self.peek(k)
            if w.k != 'kw': raise Bad(f'IS {w}')
            if w.v == 'NULL': return ('post', d.IS, False, 'IsNotNull' if neg else 'IsNull', k + 1)
            if w.v in ('TRUE', 'FALSE'): return ('post', d.ISTRUE, d.strict, ('IsNot' if neg else 'Is') + w.v.title(), k + 1)
            if w.v == 'UNKNOWN': return ('post', d.ISTRUE, d.strict, 'IsNotUnknown' if neg else 'IsUnknown', k + 1)
            if w.v == 'DISTINCT' and self.peek(k + 1).v == 'FROM':
                return ('bin',) + self.level_of(Tok('op', 'IsDistinctFrom')) + ('IsNotDistinctFrom' if neg else 'IsDistinctFrom', k + 2)
        if t.k in (')', ',', 'end'): return None
        raise Bad(f'unexpected {t}')
    def prefix(self, minl):
        d = self.d; t = self.peek()
        if t.k == 'kw' and t.v == 'NOT':
            if d.strict and minl > d.NOT: raise Bad('NOT is not allowed as this operand in ' + d.name)
            self.i += 1
            e, _ = self.expr(d.NOT); return ('Not', e), d.NOT
        if t.k == 'op' and t.v == 'Minus':
            self.i += 1; e, _ = self.prefix(d.NEG)
            return ('Negative', e), d.NEG
        if t.k == '(':
            self.i += 1; e, _ = self.expr(0)
            if self.peek().k != ')': raise Bad('missing )')
            self.i += 1; return e, 99
        self.i += 1
        if t.k == 'id': return ('col', t.v), 99
        if t.k == 'str': return ('str', t.v), 99
        if t.k == 'num': return ('num', t.v), 99
        if t.k == 'kw' and t.v in ('NULL', 'TRUE', 'FALSE'): return ('const', t.v), 99
        raise Bad(f'unexpected {t}')
    def expr(self, minl):
        e, lv = self.prefix(minl)
        block = None
        while True:
            save = self.i
            n = self.infix()
            if n is None: break
            kind, l, na, data, ln = n
            if l < minl: break
            if block == l: raise Bad('chained non-associative operator')
            if self.d.strict and lv < l: raise Bad('operand binds weaker than its operator')
            self.i += ln
            if kind == 'bin':
                r, _ = self.expr(l + 1)
                e = ('bin', data, e, r); block = l if na else None
            elif kind == 'post':
                e = (data, e); block = l if na else None
            else:
                if self.peek().k != '(': raise Bad('IN without (')
                self.i += 1; xs = []
                while True:
                    x, _ = self.expr(0); xs.append(x)
                    if self.peek().k == ',': self.i += 1; continue
                    break
                if self.peek().k != ')': raise Bad('missing ) of IN')
                self.i += 1; e = ('in', data, e, xs); block = None
            lv = l
        return e, lv

def parse(text, d): return Parser(tokenise(text, d), d).parse()
