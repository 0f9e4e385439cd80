"""shared by the data-sync checks: descriptors, schemas, batches"""
import os
from engine.harness import *
from engine import ext_batch as B
from engine.ext_batch import Batch, Field, Schema, Arr, dt
B.load_protos(os.environ.get('VERIF_REPO', '/repo'))
S = 'seafowl::sync::'
def desc(role, name):
    return Struct('ColumnDescriptor', {'role': role if isinstance(role, Int) else Int(B.role_num(role), 'i32'), 'name': name})
def try_schema(h, descs, fields, validate=True):
    return h.it.call_fn(S + 'schema::SyncSchema::try_new', Vec([clone(d) for d in descs]), Schema(fields), validate)
def schema_of(h, cols):
    """cols: [(role, name, type, field name)] -> SyncSchema of the real code"""
    r = try_schema(h, [desc(r, n) for r, n, t, f in cols], [Field(f, dt(t)) for r, n, t, f in cols])
    if r.var != 'Ok': raise Unsupported(f'schema refused: {r!r}')
    return r.f['0']
def cells(b, i): return [c.vals[i] for c in b.cols]
