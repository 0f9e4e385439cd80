"""Path exploration: decisions, solver, assertions."""
import time, z3

class Unsupported(Exception):
    """The engine has no meaning for something: the check gives no answer."""

class LoopBound(Unsupported):
    """A loop of the real code ran far longer than any input within the bounds allows."""

class Panic(Exception):
    def __init__(self, msg, line=None):
        Exception.__init__(self, msg); self.msg = msg

class PathEnd(Exception):
    """path is infeasible / cut by an assumption"""

class Bounded(Exception):
    """a stated bound was hit; path is outside the claim"""

class Violation(Exception):
    def __init__(self, msg, model=None, info=None):
        Exception.__init__(self, msg); self.msg = msg; self.model = model; self.info = info

class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0; self.paths = 0; self.branches = 0
        self.obligations = 0; self.cut = 0; self.bounded = 0
        self.functions = set(); self.witness = {}; self.samples = []; self.models_used = set()
        self.deferred = []
    def merge(self, o):
        for k in ('queries', 'solver_s', 'paths', 'branches', 'obligations', 'cut', 'bounded'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.functions |= o.functions; self.models_used |= o.models_used
        for k, v in o.witness.items(): self.witness[k] = self.witness.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:12]

class Ctx:
    cur = None
    def __init__(self, prefix, stats, timeout_ms=20000):
        self.prefix = prefix; self.pos = 0; self.trace = []      # trace: list of [choice, n_alternatives_left]
        self.stats = stats
        self.solver = z3.Solver(); self.solver.set('timeout', timeout_ms)
        self.names = {}; self.vars = {}; self.pc = []
        self.tasks = []; self.interleave = False; self.events = []; self.steps = 0; self.max_steps = 400000
        self.log = []; self.user = {}
        self.known = {}
        self.deadline = None; self.bind = None; self.force = None
        Ctx.cur = self
    # --- symbols
    def fresh(self, name, sort='int'):
        n = self.names.get(name, 0); self.names[name] = n + 1
        nm = name if n == 0 else f'{name}#{n}'
        v = {'int': z3.Int, 'bool': z3.Bool, 'real': z3.Real, 'str': z3.String}[sort](nm)
        self.vars[nm] = v
        if self.bind is not None:
            if nm in self.bind:
                b = self.bind[nm]
                b = {'real': lambda: z3.RealVal(str(b)), 'int': lambda: z3.IntVal(b), 'bool': lambda: z3.BoolVal(b), 'str': lambda: z3.StringVal(b)}[sort]()
                self.vars[nm] = b
                return b
        return v
    # --- solver
    def add(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)): return
        if c is False: raise PathEnd()
        self.pc.append(c); self.solver.add(c)
    def sat(self, *extra):
        t = time.time(); self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported('solver gave unknown: ' + self.solver.reason_unknown())
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the harness exceeded')
        return r == z3.sat
    def assume(self, c):
        if isinstance(c, bool):
            if not c: self.stats.cut += 1; raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c) or not self.sat(c): self.stats.cut += 1; raise PathEnd()
        self.add(c)
    def branch(self, c):
        if isinstance(c, bool): return c
        if not z3.is_expr(c): raise Unsupported(f'branch on {c!r}')
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k in self.known: return self.known[k][0]
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]; self.trace.append(self.prefix[self.pos]); self.pos += 1
            r = bool(ch)
        else:
            t = self.sat(c); f = self.sat(z3.Not(c))
            if not t and not f: raise PathEnd()
            self.pos += 1; self.stats.branches += 1
            if t and f: self.trace.append([1, [0]]); r = True
            else: r = t; self.trace.append([1 if t else 0, []])
        self.known[k] = (r, c)
        self.add(c if r else z3.Not(c))
        return r
    def fork(self, c):
        """branch on c when the caller knows both outcomes are feasible (or does not mind an infeasible path)"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k in self.known: return self.known[k][0]
        if self.pos < len(self.prefix):
            r = bool(self.prefix[self.pos][0]); self.trace.append(self.prefix[self.pos])
        else:
            self.stats.branches += 1; self.trace.append([1, [0]]); r = True
        self.pos += 1
        self.known[k] = (r, c)
        self.add(c if r else z3.Not(c))
        return r
    def choose(self, n, label=''):
        """harness/scheduler nondeterminism: forks n ways"""
        if n <= 1: return 0
        if self.force is not None:
            if not self.force: raise PathEnd()
            ch = self.force.pop(0); self.log.append((label, ch)); return min(ch, n - 1)
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]; self.trace.append(self.prefix[self.pos])
        else:
            ch = 0; self.trace.append([0, list(range(1, n))]); self.stats.branches += 1
        self.pos += 1
        self.log.append((label, ch))
        return ch
    # --- obligations
    def check(self, cond, msg, info=None):
        self.stats.obligations += 1
        if isinstance(cond, bool):
            if cond: return
            if not self.sat(): raise PathEnd()
            raise Violation(msg, self.solver.model(), info)
        c = z3.simplify(cond)
        if z3.is_true(c): return
        if self.sat(z3.Not(c)):
            raise Violation(msg, self.solver.model(), info)
    def possible(self, cond):
        if isinstance(cond, bool): return cond
        return self.sat(cond)
    def witness(self, name):
        self.stats.witness[name] = self.stats.witness.get(name, 0) + 1
    def model(self):
        if not self.sat(): raise PathEnd()
        return self.solver.model()

def explore(fn, stats=None, max_paths=200000, deadline=None, on_violation=None, stop_at_first=True):
    """run fn(ctx) on every feasible path. returns list of violations"""
    stats = stats or Stats(); prefix = []; out = []
    while True:
        ctx = Ctx(prefix, stats); ctx.deadline = deadline
        try:
            fn(ctx); stats.paths += 1
        except PathEnd: pass
        except Bounded: stats.bounded += 1
        except Violation as v:
            stats.paths += 1
            v.ctx = ctx; v.log = list(ctx.log)
            if on_violation is None or on_violation(v):
                out.append(v)
                if stop_at_first: return out
        if stats.paths + stats.cut > max_paths: raise Unsupported('path bound exceeded')
        if deadline and time.time() > deadline: raise Unsupported('time budget of the harness exceeded')
        tr = ctx.trace
        while tr and not tr[-1][1]: tr.pop()
        if not tr: return out
        last = tr[-1]
        prefix = tr[:-1] + [[last[1][0], last[1][1:]]]
