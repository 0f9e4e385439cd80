"""C22: the metrics wrapper changes nothing a query can observe."""
from engine.harness import *
from engine.symchars import symtext
NATIVE = None
BOUNDS = 'histories of up to 3 operations (thorough: 5) of grow / shrink / try_grow / register / unregister with any usize amounts; consumer names of up to 4 symbolic ASCII characters'
ASSUMPTIONS = ['the wrapped pool is any pool: reserved() is an arbitrary function of the history, try_grow may succeed or fail arbitrarily; it never holds more than usize::MAX bytes',
               'the metrics recorder applies the operations it is given (metrics crate contract)', 'converting byte counts to f64 is exact in the model (reals)']
MODELS = 'DataFusion MemoryPool trait (recording stub), metrics::{counter, gauge} (recording)'

class Pool(Obj):
    """any MemoryPool"""
    def __init__(self, h): self.h = h; self.log = []; self.n = 0; self.cur = h.int('reserved0', 'usize')
    def m_register(self, it, a, c): self.log.append(('register', deref(a[0]))); return UNIT()
    def m_unregister(self, it, a, c): self.log.append(('unregister', deref(a[0]))); return UNIT()
    def step(self): self.n += 1; self.cur = self.h.int(f'reserved{self.n}', 'usize')
    def m_grow(self, it, a, c): self.log.append(('grow', deref(a[0]), deref(a[1]))); self.step(); return UNIT()
    def m_shrink(self, it, a, c): self.log.append(('shrink', deref(a[0]), deref(a[1]))); self.step(); return UNIT()
    def m_try_grow(self, it, a, c):
        self.log.append(('try_grow', deref(a[0]), deref(a[1]))); self.step()
        self.last = Ok(UNIT()) if self.h.flip('the wrapped pool grants it') else Err(Enum('DataFusionError', 'ResourcesExhausted', {'0': f'refused {self.n}'}))
        return self.last
    def m_reserved(self, it, a, c): return self.cur
class Consumer(Obj):
    def __init__(self, name): self.n = name
    def m_name(self, it, a, c): return self.n
    def m_can_spill(self, it, a, c): return False
class Reservation(Obj):
    def __init__(self, c, pool): self.c = c; self.p = pool
    def m_consumer(self, it, a, c): return self.c
    def m_size(self, it, a, c): return self.p.h.int('reservation size', 'usize')

def names(): return Ctx.cur.user.get('metrics', [])
ALLOC = 'seafowl_datafusion_memory_pool_allocated_bytes_total'; FREED = 'seafowl_datafusion_memory_pool_freed_bytes_total'
def real(x):
    x = deref(x)
    if type(x) is Int: x = x.v
    if isinstance(x, (int, float)): return z3.RealVal(x)
    return z3.ToReal(x) if z3.is_int(x) else x

@case('operations', over=[dict(n=1), dict(n=2), dict(n=3), dict(n=4, _tier='thorough'), dict(n=5, _tier='thorough')], expects=['granted', 'refused', 'bracketed name'])
def ops(h, n):
    it = h.it
    inner = Pool(h)
    w = it.call_fn('seafowl::memory_pool::MemoryPoolMetrics::new', inner)
    ms = names()
    h.check(len(ms) >= 1 and ms[-1][0] == 'gauge' and ms[-1][3] == 'set', 'the gauge is not initialised')
    gname = ms[-1][1]; gauge = real(ms[-1][4])
    # one symbolic name per history, four characters: the prefix up to the first '[' labels the counters
    name = symtext('consumer', 4)
    from engine.symchars import cl, ceq, from_cl
    cs = cl(name); res = Reservation(Consumer(name), inner)
    allocated = {}
    for i in range(n):
        op = h.pick(['grow', 'shrink', 'try_grow', 'register', 'unregister', 'reserved'], f'operation {i}')
        amt = h.int(f'amount{i}', 'usize'); k0 = len(inner.log); m0 = len(names())
        if op in ('register', 'unregister'):
            c = Consumer(name); it.method(w, op, c)
            h.check(len(inner.log) == k0 + 1 and inner.log[k0][0] == op and inner.log[k0][1] is c, f'{op} is not passed on once')
            h.check(len(names()) == m0, f'{op} changes metrics'); continue
        if op == 'reserved':
            r = it.method(w, op)
            h.check(eq(r, inner.cur), 'reserved() differs from the wrapped pool\'s')
            h.check(len(inner.log) == k0 and len(names()) == m0, 'reserved() has effects'); continue
        r = it.method(w, op, res, amt)
        h.check(len(inner.log) == k0 + 1 and inner.log[k0][0] == op and inner.log[k0][1] is res, f'{op} does not reach the wrapped pool exactly once')
        h.check(eq(inner.log[k0][2], amt), f'{op} is passed on with another amount', info=lambda m: {'asked': m(amt), 'passed': m(inner.log[k0][2])})
        ok = True
        if op == 'try_grow':
            ok = inner.last.var == 'Ok'; h.wit('granted' if ok else 'refused')
            h.check(deref(r).var == inner.last.var, 'try_grow reports another outcome than the wrapped pool')
            if not ok: h.check(eq(deref(r).f['0'], inner.last.f['0'], it), 'try_grow reports another error than the wrapped pool')
        new = names()[m0:]
        gs = [x for x in new if x[0] == 'gauge' and eq(x[1], gname) is True]
        for x in gs: gauge = real(x[4]) if x[3] == 'set' else gauge + real(x[4]) if x[3] == 'inc' else gauge - real(x[4])
        h.check(gauge == real(inner.cur), 'the gauge differs from the reserved bytes', info=lambda m: {'gauge': m(gauge), 'reserved': m(inner.cur)})
        # label: the name before its first '['
        j = 0
        while j < 4 and not h.ctx.branch(ceq(cs[j], Char('['))): j += 1
        if j < 4: h.wit('bracketed name')
        want_name = FREED if op == 'shrink' else ALLOC
        want = {'consumer': from_cl(cs[:j])}
        if op != 'shrink': want['result'] = 'success' if ok else 'error'
        tot = z3.RealVal(0)
        for x in new:
            if x[0] != 'counter': continue
            h.check(x[3] == 'inc', 'a counter is set instead of incremented')
            lab = dict(x[2])
            if x[1] == want_name and set(lab) == set(want) and all(h.ctx.branch(eq(lab[k], want[k])) for k in want): tot = tot + real(x[4])
            else: h.check(real(x[4]) == 0, 'a counter of another name, consumer or outcome is incremented', info=lambda m: {'name': x[1], 'labels': {k: m(v) for k, v in lab.items()}, 'wanted': {k: m(v) for k, v in want.items()}})
        h.check(tot == real(amt), 'the counter grows by another amount than requested', info=lambda m: {'asked': m(amt), 'counted': m(tot)})
        h.sample(op=op, amount=amt)
