"""object_store 0.11.2: configuration keys (their spelling and aliases), builders that record what they are given, URL schemes."""
import z3
from .core import *
from .values import *
from . import interp, stdlib
from .interp import EXT_FN, METHODS, CONSTS
CLIENT = ['allow_http', 'allow_invalid_certificates', 'connect_timeout', 'default_content_type', 'http1_only', 'http2_only', 'http2_keep_alive_interval', 'http2_keep_alive_timeout',
          'http2_keep_alive_while_idle', 'http2_max_frame_size', 'pool_idle_timeout', 'pool_max_idle_per_host', 'proxy_url', 'proxy_ca_certificate', 'proxy_excludes', 'timeout', 'user_agent']
camel = lambda s: ''.join(w.capitalize() for w in s.split('_'))
CVAR = {k: camel(k) for k in CLIENT}
S3 = {'AccessKeyId': ['aws_access_key_id', 'access_key_id'], 'SecretAccessKey': ['aws_secret_access_key', 'secret_access_key'], 'DefaultRegion': ['aws_default_region', 'default_region'],
      'Region': ['aws_region', 'region'], 'Bucket': ['aws_bucket', 'aws_bucket_name', 'bucket_name', 'bucket'], 'Endpoint': ['aws_endpoint', 'aws_endpoint_url', 'endpoint_url', 'endpoint'],
      'Token': ['aws_session_token', 'aws_token', 'session_token', 'token'], 'VirtualHostedStyleRequest': ['aws_virtual_hosted_style_request', 'virtual_hosted_style_request'],
      'S3Express': ['aws_s3_express', 's3_express'], 'ImdsV1Fallback': ['aws_imdsv1_fallback', 'imdsv1_fallback'], 'MetadataEndpoint': ['aws_metadata_endpoint', 'metadata_endpoint'],
      'UnsignedPayload': ['aws_unsigned_payload', 'unsigned_payload'], 'Checksum': ['aws_checksum_algorithm', 'checksum_algorithm'],
      'ContainerCredentialsRelativeUri': ['aws_container_credentials_relative_uri'], 'SkipSignature': ['aws_skip_signature', 'skip_signature'],
      'CopyIfNotExists': ['aws_copy_if_not_exists', 'copy_if_not_exists'], 'ConditionalPut': ['aws_conditional_put', 'conditional_put'], 'DisableTagging': ['aws_disable_tagging', 'disable_tagging'],
      'RequestPayer': ['aws_request_payer', 'request_payer']}
S3ENC = {'ServerSideEncryption': 'aws_server_side_encryption', 'KmsKeyId': 'aws_sse_kms_key_id', 'BucketKeyEnabled': 'aws_sse_bucket_key_enabled', 'CustomerEncryptionKey': 'aws_sse_customer_key_base64'}
GCS = {'ServiceAccount': ['google_service_account', 'service_account', 'google_service_account_path', 'service_account_path'], 'ServiceAccountKey': ['google_service_account_key', 'service_account_key'],
       'Bucket': ['google_bucket', 'google_bucket_name', 'bucket', 'bucket_name'], 'ApplicationCredentials': ['google_application_credentials']}
def ck(v): return Enum('ClientConfigKey', v)
def table(ty, tab, pre):
    t = {}
    for v, al in tab.items():
        for a in al: t[a] = (lambda v=v: Enum(ty, v))
    if ty == 'AmazonS3ConfigKey':
        for v, a in S3ENC.items(): t[a] = (lambda v=v: Enum(ty, 'Encryption', {'0': Enum('S3EncryptionConfigKey', v)}))
    for k in CLIENT:
        for a in (k, pre + k): t.setdefault(a, (lambda k=k: Enum(ty, 'Client', {'0': ck(CVAR[k])})))
    return t
TAB = {'AmazonS3ConfigKey': table('AmazonS3ConfigKey', S3, 'aws_'), 'GoogleConfigKey': table('GoogleConfigKey', GCS, 'google_')}
KEYS = set(TAB)
def from_str(ty, s):
    s = deref(s)
    if type(s) is str:
        f = TAB[ty].get(s)
    else:
        f = None
        for k, g in TAB[ty].items():
            if Ctx.cur.branch(eq(s, k)): f = g; break
    return Ok(f()) if f else Err(Enum('object_store::Error', 'Generic', {'store': 'S3', 'source': Opaque('UnknownConfigurationKey')}))
def spelling(k):
    k = deref(k)
    if k.var == 'Client': return next(c for c in CLIENT if CVAR[c] == deref(k.f['0']).var)
    if k.var == 'Encryption': return S3ENC[deref(k.f['0']).var]
    return (S3 if k.ty == 'AmazonS3ConfigKey' else GCS)[k.var][0]
for _t in KEYS:
    EXT_FN[_t + '::from_str'] = lambda it, a, c, _t=_t: from_str(_t, a[0])
    METHODS[(_t, 'as_ref')] = lambda it, v, a, c: spelling(v)
METHODS[('ClientConfigKey', 'as_ref')] = lambda it, v, a, c: next(x for x in CLIENT if CVAR[x] == v.var)
METHODS[('S3ConditionalPut', 'display')] = lambda it, v, a, c: 'etag'
METHODS[('S3ConditionalPut', 'to_string')] = lambda it, v, a, c: 'etag'

class LazyKey(Obj):
    """the result of str::parse whose type is only fixed by later use"""
class Builder(Obj):
    def __init__(self, kind): self.kind = kind; self.set = {}
    def method_missing(self, it, name, a, c):
        if name.startswith('with_'):
            b = Builder(self.kind); b.set = dict(self.set); b.set[name[5:]] = deref(a[0]) if len(a) == 1 else [deref(x) for x in a]; return b
        if name == 'build': return Ok(Built(self))
        raise Unsupported(f'{self.kind}::{name}')
class Built(Obj):
    def __init__(self, b): self.b = b
    def method_missing(self, it, name, a, c):
        if name.startswith('with_'): self.b.set[name[5:]] = deref(a[0]); return self
        raise Unsupported(f'object store .{name}')
EXT_FN['AmazonS3Builder::new'] = lambda it, a, c: Builder('s3')
EXT_FN['GoogleCloudStorageBuilder::new'] = lambda it, a, c: Builder('gcs')
def _lfs(it, a, c): b = Builder('local'); b.set['prefix'] = deref(a[0]); return Ok(Built(b))
EXT_FN['LocalFileSystem::new_with_prefix'] = _lfs
EXT_FN['InMemory::new'] = lambda it, a, c: Built(Builder('memory'))
def _ps(it, a, c): b = Builder('prefix'); b.set['inner'] = deref(a[0]); b.set['prefix'] = deref(a[1]); return Built(b)
EXT_FN['PrefixStore::new'] = _ps
class Url(Obj):
    def __init__(self, scheme, host, path): self.s = scheme; self.host = host; self.p = path
    def m_path(self, it, a, c): return self.p
    def m_scheme(self, it, a, c): return self.s
    def m_host_str(self, it, a, c): return opt(self.host)
    def m_host(self, it, a, c): return opt(self.host)
    def display_(self, it): return mktext([self.s, '://', self.host or '', self.p])
    def m_as_str(self, it, a, c): return self.display_(it)
SCHEMES = {'memory': 'Memory', 'file': 'Local', 's3': 'AmazonS3', 's3a': 'AmazonS3', 'gs': 'GoogleCloudStorage', 'az': 'MicrosoftAzure', 'http': 'Http'}
def _parse(it, a, c):
    u = deref(a[0])
    if u.s not in SCHEMES: return Err(Enum('object_store::Error', 'Generic', {'store': 'URL', 'source': Opaque('Unrecognised')}))
    return Ok(Tup([Enum('ObjectStoreScheme', SCHEMES[u.s]), u.p]))
EXT_FN['ObjectStoreScheme::parse'] = _parse
def _puo(it, a, c):
    b = Builder('opts'); u = deref(a[0]); b.set['url'] = u.copy() if hasattr(u, 'copy') else u; b.set['options'] = deref(a[1]); return Ok(Tup([Built(b), deref(a[0]).p]))
EXT_FN['parse_url_opts'] = _puo
EXT_FN['ClientOptions::new'] = lambda it, a, c: Opaque('ClientOptions')
def _rbr(it, a, c):
    Ctx.cur.user.setdefault('detected', []).append(deref(a[0])); return Future(lambda: Ok('detected-region')) if False else Ok('detected-region')
EXT_FN['resolve_bucket_region'] = _rbr
for n, v in dict(S3_ENDPOINT='s3.endpoint', S3_ACCESS_KEY_ID='s3.access-key-id', S3_SECRET_ACCESS_KEY='s3.secret-access-key', S3_REGION='s3.region', S3_ALLOW_ANONYMOUS='s3.allow-anonymous',
                 S3_DISABLE_EC2_METADATA='s3.disable-ec2-metadata', S3_DISABLE_CONFIG_LOAD='s3.disable-config-load').items(): CONSTS['io::' + n] = v
