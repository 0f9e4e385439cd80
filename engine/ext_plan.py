"""DataFusion logical plans: trees of nodes with inputs and subqueries, and the traversals over them."""
import z3
from .core import *
from .values import *
from . import interp
from .interp import METHODS, METHODS as M
from .stdlib import *

def node(kind, inputs=(), subs=(), **f):
    """LogicalPlan::kind(..) with the given inputs and the subqueries in its expressions"""
    return Enum('LogicalPlan', kind, {'0': Struct(kind, dict(f)), '_i': 0, '_inputs': list(inputs), '_subs': list(subs)})
def var(r): return deref(deref(r).f['0']).var          # TreeNodeRecursion in Ok
def OKR(x='Continue'): return Ok(Enum('TreeNodeRecursion', x))
def visit(subq):
    def go(it, v, vis):
        r = deref(it.call_method(vis, 'f_down', [v])) if it.user_method(vis, 'f_down') is not None else OKR()
        if r.var == 'Err' or var(r) == 'Stop': return r
        if var(r) == 'Continue':
            r = OKR()
            for s in (list(v.f['_subs']) if subq else []) + list(v.f['_inputs']):
                r = go(it, s, vis)
                if r.var == 'Err' or var(r) == 'Stop': return r
                if var(r) == 'Jump' : break
        if var(r) == 'Continue' and it.user_method(vis, 'f_up') is not None: return deref(it.call_method(vis, 'f_up', [v]))
        return OKR()
    return lambda it, v, a, c: go(it, deref(v), deref(a[0]))
def apply(subq):
    def go(it, v, f):
        r = deref(it.call(f, [v]))
        if r.var == 'Err' or var(r) == 'Stop': return r
        if var(r) == 'Jump': return OKR()
        for s in (list(v.f['_subs']) if subq else []) + list(v.f['_inputs']):
            r = go(it, s, f)
            if r.var == 'Err' or var(r) == 'Stop': return r
        return OKR()
    return lambda it, v, a, c: go(it, deref(v), a[0])
M[('LogicalPlan', 'visit')] = visit(False); M[('LogicalPlan', 'visit_with_subqueries')] = visit(True)
M[('LogicalPlan', 'apply')] = apply(False); M[('LogicalPlan', 'apply_with_subqueries')] = apply(True)
M[('LogicalPlan', 'inputs')] = lambda it, v, a, c: Vec(list(deref(v).f['_inputs']))
def exists(subq):
    def go(it, v, f):
        r = deref(it.call(f, [v]))
        if r.var == 'Err': return r
        if Ctx.cur.branch(r.f['0']): return Ok(True)
        for s in v.f['_inputs']:
            r = go(it, s, f)
            if r.var == 'Err' or r.f['0'] is True: return r
        return Ok(False)
    return lambda it, v, a, c: go(it, deref(v), a[0])
M[('LogicalPlan', 'exists')] = exists(False)
def dbg(it, v, a, c): return Text([interp.OpaquePiece(v)])
M[('LogicalPlan', 'debug')] = M[('LogicalPlan', 'display')] = dbg
class DefaultTableSource(Obj):
    tname = 'DefaultTableSource'
    def __init__(self, p): self.f = {'table_provider': p}
class OtherSource(Obj):
    tname = 'OtherSource'
class DeltaTable(Obj):
    tname = 'DeltaTable'
    def __init__(self, uri, version): self.uri = uri; self.v = version
    def m_table_uri(self, it, a, c): return self.uri
    def m_version(self, it, a, c): return self.v
class OtherProvider(Obj):
    tname = 'ListingTable'
def scan(provider): return node('TableScan', source=DefaultTableSource(provider))
