"""regex on strings of symbolic characters: Python parses the pattern, a backtracking matcher forks on each character test."""
import re
try: import re._parser as sre, re._constants as rc
except ImportError: import sre_parse as sre, sre_constants as rc
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS, CONSTS
from .symchars import cl, code, from_cl
def ranges(cat):
    n = str(cat)
    if 'SPACE' in n: return [(9, 13), (32, 32)]
    if 'DIGIT' in n: return [(48, 57)]
    return [(48, 57), (65, 90), (95, 95), (97, 122)]
def test(c, rs, neg=False):
    if isinstance(c, int):
        r = any(a <= c <= b for a, b in rs); return r != neg
    e = z3.Or(*[z3.And(c >= a, c <= b) for a, b in rs]); return Ctx.cur.branch(z3.Not(e) if neg else e)
def inset(items):
    neg = False; rs = []
    for op, av in items:
        if op is rc.NEGATE: neg = True
        elif op is rc.LITERAL: rs.append((av, av))
        elif op is rc.RANGE: rs.append(av)
        elif op is rc.CATEGORY:
            if 'NOT' in str(av): raise Unsupported('negated class in a set')
            rs += ranges(av)
        else: raise Unsupported(f'regex set {op}')
    return rs, neg
def go(nodes, k, s, i, g):
    """yield (end, groups) for nodes[k:] at position i, in order of preference"""
    if k == len(nodes): yield i, g; return
    op, av = nodes[k]
    if op is rc.LITERAL or op is rc.NOT_LITERAL or op is rc.IN or op is rc.ANY:
        if i >= len(s): return
        c = code(s[i])
        if op is rc.LITERAL: ok = test(c, [(av, av)])
        elif op is rc.NOT_LITERAL: ok = test(c, [(av, av)], True)
        elif op is rc.ANY: ok = test(c, [(10, 10)], True)
        else:
            if len(av) == 1 and av[0][0] is rc.CATEGORY and 'NOT' in str(av[0][1]): ok = test(c, ranges(av[0][1]), True)
            else: ok = test(c, *inset(av))
        if ok: yield from go(nodes, k + 1, s, i + 1, g)
    elif op is rc.AT:
        n = str(av)
        if ('BEGINNING' in n and i == 0) or ('END' in n and i == len(s)): yield from go(nodes, k + 1, s, i, g)
    elif op is rc.SUBPATTERN:
        num, _, _, sub = av
        for j, g2 in go(list(sub), 0, s, i, g):
            yield from go(nodes, k + 1, s, j, {**g2, num: (i, j)} if num else g2)
    elif op is rc.BRANCH:
        for sub in av[1]:
            for j, g2 in go(list(sub), 0, s, i, g): yield from go(nodes, k + 1, s, j, g2)
    elif op is rc.MAX_REPEAT or op is rc.MIN_REPEAT:
        lo, hi, sub = av; sub = list(sub)
        def rep(n, i, g):
            more = lambda: (r for j, g2 in go(sub, 0, s, i, g) if j > i for r in rep(n + 1, j, g2)) if n < hi else iter(())
            rest = lambda: go(nodes, k + 1, s, i, g) if n >= lo else iter(())
            if op is rc.MAX_REPEAT: yield from more(); yield from rest()
            else: yield from rest(); yield from more()
        yield from rep(0, i, g)
    else: raise Unsupported(f'regex {op}')
class Regex(Obj):
    def __init__(self, pat): self.pat = pat; self.t = sre.parse(pat); self.groups = self.t.state.groups; self.names = self.t.state.groupdict
    def search(self, s, i0=0):
        for i in range(i0, len(s) + 1):
            for j, g in go(list(self.t), 0, s, i, {}): return {**g, 0: (i, j)}
        return None
    def _cl(self, v):
        s = cl(v)
        if s is None: raise Unsupported('regex on opaque text')
        return s
    def m_captures(self, it, a, c):
        s = self._cl(a[0]); g = self.search(s); return NONE() if g is None else Some(Captures(self, s, g))
    def m_is_match(self, it, a, c): return self.search(self._cl(a[0])) is not None
    def m_find(self, it, a, c):
        s = self._cl(a[0]); g = self.search(s); return NONE() if g is None else Some(Match(s, *g[0]))
class Captures(Obj):
    def __init__(self, r, s, g): self.r = r; self.s = s; self.g = g
    def m_get(self, it, a, c): x = self.g.get(deref(a[0]).v); return NONE() if x is None else Some(Match(self.s, *x))
    def m_name(self, it, a, c): x = self.g.get(self.r.names.get(deref(a[0]))); return NONE() if x is None else Some(Match(self.s, *x))
    def index_(self, it, i):
        i = deref(i); x = self.g.get(i.v if type(i) is Int else self.r.names.get(i))
        if x is None: raise Panic('no group at index')
        return from_cl(self.s[x[0]:x[1]])
class Match(Obj):
    def __init__(self, s, i, j): self.s = s; self.i = i; self.j = j
    def m_as_str(self, it, a, c): return from_cl(self.s[self.i:self.j])
    def m_start(self, it, a, c): return Int(self.i, 'usize')
    def m_end(self, it, a, c): return Int(self.j, 'usize')
def new(it, a, c):
    p = deref(a[0])
    try: return Ok(Regex(p))
    except re.error as e: return Err(Enum('regex::Error', 'Syntax'))
EXT_FN['Regex::new'] = new
