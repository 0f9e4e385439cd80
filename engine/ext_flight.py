"""arrow-flight and tonic: requests, responses, tickets, statuses."""
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS, CONSTS, EXT_STRUCT, OpaquePiece
class Bag(Obj):
    def __init__(self, **f): self.f = f
    def m_clone(self, it, a, c): return self
    def debug_(self, it): return Text([OpaquePiece(self)])
    display_ = debug_
class Meta(Obj):
    def __init__(self, e): self.e = e
    def m_get(self, it, a, c):
        k = deref(a[0])
        return Some(HVal(self.e[k])) if k in self.e else NONE()
    def m_insert(self, it, a, c): self.e[deref(a[0])] = deref(a[1]); return NONE()
    def debug_(self, it): return Text([OpaquePiece(self)])
class HVal(Obj):
    """header value: a string, or None when it is not valid text"""
    def __init__(self, v): self.v = v
    def m_to_str(self, it, a, c): return Ok(self.v) if self.v is not None else Err(Opaque('ToStrError'))
    def debug_(self, it): return Text([OpaquePiece(self)])
class TRequest(Obj):
    tname = 'Request'
    def __init__(self, inner, meta=None): self.inner = inner; self.meta = Meta(dict(meta or {}))
    def m_metadata(self, it, a, c): return self.meta
    m_metadata_mut = m_metadata
    def m_into_inner(self, it, a, c): return self.inner
    def m_get_ref(self, it, a, c): return self.inner
class TResponse(Obj):
    tname = 'Response'
    def __init__(self, v): self.v = v; self.meta = Meta({})
    def m_into_inner(self, it, a, c): return self.v
    def m_get_ref(self, it, a, c): return self.v
    def m_metadata_mut(self, it, a, c): return self.meta
class Status(Obj):
    tname = 'Status'
    def __init__(self, code, msg): self.code = code; self.msg = msg
    def __repr__(self): return f'Status({self.code})'
    def debug_(self, it): return Text([OpaquePiece(self)])
    display_ = debug_
for _c in ('invalid_argument', 'internal', 'not_found', 'unavailable', 'unimplemented', 'failed_precondition', 'unauthenticated', 'unknown', 'aborted', 'resource_exhausted', 'permission_denied', 'already_exists', 'cancelled', 'out_of_range'):
    EXT_FN[f'Status::{_c}'] = (lambda k: lambda it, a, c: Status(k, deref(a[0])))(_c)
EXT_FN['Status::from_error'] = lambda it, a, c: Status('unknown', '')
EXT_FN['Status::from'] = EXT_FN['Status::from_error']
EXT_FN['MetadataValue::try_from'] = lambda it, a, c: Ok(HVal(deref(a[0])))
class Ticket(Obj):
    def __init__(self, b): self.b = b
class Endpoint(Obj):
    def __init__(self): self.ticket = None
    def m_with_ticket(self, it, a, c): self.ticket = deref(a[0]); return self
    def method_missing(self, it, n, a, c):
        if n.startswith('with_'): return self
        raise Unsupported('FlightEndpoint::' + n)
class Info(Obj):
    def __init__(self): self.endpoints = []; self.schema = None; self.desc = None
    def m_try_with_schema(self, it, a, c): self.schema = deref(a[0]); return Ok(self)
    def m_with_endpoint(self, it, a, c): self.endpoints.append(deref(a[0])); return self
    def m_with_descriptor(self, it, a, c): self.desc = deref(a[0]); return self
    def method_missing(self, it, n, a, c):
        if n.startswith('with_'): return self
        raise Unsupported('FlightInfo::' + n)
EXT_FN['Ticket::new'] = lambda it, a, c: Ticket(deref(a[0]))
EXT_FN['FlightEndpoint::new'] = lambda it, a, c: Endpoint()
EXT_FN['FlightInfo::new'] = lambda it, a, c: Info()
class AnyMsg(Obj):
    def __init__(self, v): self.v = v
    def m_encode_to_vec(self, it, a, c): return Encoded(self.v)
class Encoded(Obj):
    """the bytes of a message"""
    def __init__(self, v): self.v = v
    def m_into(self, it, a, c): return self
    def m_clone(self, it, a, c): return self
METHODS[('TicketStatementQuery', 'as_any')] = lambda it, v, a, c: AnyMsg(v)
METHODS[('TicketStatementQuery', 'encode_to_vec')] = lambda it, v, a, c: Encoded(v)
def decode(it, a, c):
    v = deref(a[0])
    if isinstance(v, Encoded): v = v.v
    return Err(Opaque('DecodeError')) if v is None else Ok(clone(v))
EXT_FN['Message::decode'] = decode
EXT_FN['FlightRecordBatchStream::new_from_flight_data'] = lambda it, a, c: Batches(deref(a[0]))
class Batches(Obj):
    """a stream of batches; bs: list or None when the stream fails"""
    def __init__(self, bs): self.bs = bs.bs if isinstance(bs, Batches) else bs
    def m_try_collect(self, it, a, c): return Err(Status('internal', 'stream')) if self.bs is None else Ok(Vec(list(self.bs)))
    def m_map_err(self, it, a, c): return self
class QStream(Obj):
    """the result stream of one query"""
    tname = 'SendableRecordBatchStream'
    def __init__(self, id, schema): self.id = id; self.schema = schema; self.taken = False
    def m_schema(self, it, a, c): return self.schema
    def m_map(self, it, a, c): return self
    def m_map_err(self, it, a, c): return self
class Encoder(Obj):
    def __init__(self): self.s = None
    def m_with_schema(self, it, a, c): self.s = deref(a[0]); return self
    def m_build(self, it, a, c):
        q = deref(a[0]); q.encoded_with = self.s; return q
    def method_missing(self, it, n, a, c):
        if n.startswith('with_'): return self
        raise Unsupported('FlightDataEncoderBuilder::' + n)
EXT_FN['FlightDataEncoderBuilder::new'] = lambda it, a, c: Encoder()
EXT_FN['Response::new'] = EXT_FN['tonic::Response::new'] = lambda it, a, c: TResponse(deref(a[0]))
