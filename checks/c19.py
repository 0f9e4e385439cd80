"""C19: object-store settings survive translation unchanged."""
from engine.harness import *
from engine import ext_objstore as O
from engine.interp import EXT_FN, METHODS
NATIVE = None
BOUNDS = ('every subset of the optional settings, with any string (SMT strings, unbounded) as each value; option maps of up to 3 keys: every key spelling the store knows plus an arbitrary unknown key; '
          'environments of up to 3 variables; both iteration orders of a map')
ASSUMPTIONS = ['object_store 0.11.2 key spellings and aliases as in its source', 'two spellings of the same key in one map are outside the claim', 'AWS region detection answers some region']
MODELS = 'object_store ConfigKey parsing, AmazonS3Builder / GoogleCloudStorageBuilder / LocalFileSystem (recording), parse_url_opts (recording), environment (symbolic)'
S3M = 'object_store_factory::aws::'; GM = 'object_store_factory::google::'; LM = 'object_store_factory::local::'; L = 'object_store_factory::'

def mapof(pairs): return Map('HashMap', [[k, v] for k, v in pairs])
def order(h, pairs):
    pairs = list(pairs)
    return pairs[::-1] if len(pairs) > 1 and h.flip('reverse iteration order') else pairs
def dct(m):
    """model map -> list of (key, value)"""
    return [(deref(e[0]), deref(e[1])) for e in deref(m).e]
def optv(v):
    v = deref(v); return None if v.var == 'None' else deref(v.f['0'])
def same(a, b):
    if a is None or b is None: return a is b
    return eq(a, b)
def bstr(b):  # text of a bool
    return b if isinstance(b, bool) else b

S3OPT = ['region', 'access_key_id', 'secret_access_key', 'session_token', 'endpoint', 'prefix']
def s3cfg(h, subset=None, **over):
    f = {}
    for k in S3OPT:
        f[k] = opt(h.str(k)) if (k in subset if subset is not None else h.flip(f'{k} set')) else NONE()
    f.update(bucket=h.str('bucket'), allow_http=h.flip('allow_http'), skip_signature=h.flip('skip_signature')); f.update(over)
    return h.it.mk('S3Config', **f)
CANON = {'region': 'Region', 'access_key_id': 'AccessKeyId', 'secret_access_key': 'SecretAccessKey', 'session_token': 'Token', 'endpoint': 'Endpoint', 'bucket': 'Bucket'}
def keyname(k):
    k = deref(k); return k.var if not k.f else f"{k.var}.{deref(k.f['0']).var}"

def canonical(h, m, ty, allow=()):
    out = {}
    for k, v in dct(m):
        if k in allow: out[k] = v; continue
        r = O.from_str(ty, k)
        h.check(r.var == 'Ok', f'an option the store does not understand is produced', info=lambda mm: {'key': mm(k)})
        n = keyname(r.f['0'])
        h.check(n not in out, 'an option is produced twice', info=lambda mm: {'key': mm(k)})
        out[n] = v
    return out

@case('S3 configuration to options', over=[dict(whole=w) for w in (False, True)], expects=['all set', 'none set'])
def s3_to(h, whole):
    c = s3cfg(h)
    m = h.it.method(c, 'to_hashmap') if not whole else h.it.method(h.it.mke('ObjectStoreConfig', 'AmazonS3', **{'0': c}), 'to_hashmap')
    got = canonical(h, m, 'AmazonS3ConfigKey', ('prefix',))
    want = {CANON[k]: optv(c.f[k]) for k in S3OPT if k != 'prefix'}
    for k, v in want.items():
        h.check(same(got.get(k), v), f'setting {k} is lost or changed', info=lambda m_: {'config': m_(c), 'options': {a: m_(b) for a, b in got.items()}})
    for k, f in (('Client.AllowHttp', 'allow_http'), ('SkipSignature', 'skip_signature')):
        h.check(k in got and same(got[k], 'true' if c.f[f] else 'false'), f'setting {f} is lost or changed', info=lambda m_: {'options': {a: m_(b) for a, b in got.items()}})
    extra = set(got) - set(want) - {'Client.AllowHttp', 'SkipSignature'}
    for k in extra:
        src = {'Bucket': c.f['bucket'], 'prefix': optv(c.f['prefix'])}
        h.check(k in src and same(got[k], src[k]), 'an option that is not in the configuration is produced', info=lambda m_: {'key': k})
    if all(v is not None for v in want.values()): h.wit('all set')
    if all(v is None for v in want.values()): h.wit('none set')

FLAG = ['true', 'false', 'other', None]
def flagval(h, name):
    k = h.pick(FLAG, name)
    if k == 'other':
        s = h.str(name); h.assume(bnot(eq(s, 'false'))); return s
    return k
@case('options to S3 configuration', over=[dict(form=f) for f in ('plain', 'format.')], expects=['read'])
def s3_from(h, form):
    it = h.it
    pairs = []; want = {}
    for k in S3OPT:
        if form != 'plain' and k == 'prefix': want[k] = None; continue
        if h.flip(f'{k} given'): v = h.str(k); pairs.append((('' if form == 'plain' else form) + k, v)); want[k] = v
        else: want[k] = None
    for k in ('allow_http', 'skip_signature'):
        v = flagval(h, k)
        if v is not None: pairs.append((('' if form == 'plain' else form) + k, v))
        want[k] = v != 'false'
    bucket = h.str('bucket'); want['bucket'] = bucket
    other = h.str('other'); pairs.append(('some.other', other))
    if form == 'plain':
        pairs.append(('bucket', bucket))
        m = mapof(pairs); r = it.call_fn(S3M + 'S3Config::from_hashmap', m)
        h.check(len(m.e) == len(pairs), 'the options are changed by reading them')
    else:
        m = mapof(pairs); r = it.call_fn(S3M + 'S3Config::from_bucket_and_options', bucket, Ref(lambda: m, lambda x: m.e.__setitem__(slice(None), x.e)))
        left = dct(m)
        h.check(len(left) == 1 and left[0][0] == 'some.other', 'options of the store are left behind, or others consumed', info=lambda m_: {'left': [m_(k) for k, _ in left]})
    h.check(r.var == 'Ok', 'valid options are refused')
    c = deref(r.f['0'])
    for k, w in want.items():
        g = c.f[k] if k in ('bucket', 'allow_http', 'skip_signature') else optv(c.f[k])
        h.check(same(g, w), f'setting {k} is lost or changed', info=lambda m_: {'options': m_(m), 'config': m_(c)})
    h.wit('read')

@case('GCS configuration and options', expects=['both', 'back'])
def gcs(h):
    it = h.it
    c = it.mk('GCSConfig', bucket=h.str('bucket'), prefix=opt(h.str('prefix') if h.flip('prefix set') else None), google_application_credentials=opt(h.str('creds') if h.flip('creds set') else None))
    m = it.method(c, 'to_hashmap') if h.flip('directly') else it.method(it.mke('ObjectStoreConfig', 'GoogleCloudStorage', **{'0': c}), 'to_hashmap')
    got = canonical(h, m, 'GoogleConfigKey', ('prefix',))
    want = {'Bucket': c.f['bucket'], 'prefix': optv(c.f['prefix']), 'ApplicationCredentials': optv(c.f['google_application_credentials'])}
    for k, v in want.items(): h.check(same(got.get(k), v), f'setting {k} is lost or changed', info=lambda m_: {'config': m_(c), 'options': {a: m_(b) for a, b in got.items()}})
    h.check(set(got) <= set(want), 'an option that is not in the configuration is produced')
    h.wit('both')
    pairs = [('bucket', c.f['bucket']), ('some.other', h.str('other'))] + ([('prefix', want['prefix'])] if want['prefix'] is not None else []) + ([('google_application_credentials', want['ApplicationCredentials'])] if want['ApplicationCredentials'] is not None else [])
    r = it.call_fn(GM + 'GCSConfig::from_hashmap', mapof(pairs))
    h.check(r.var == 'Ok' and eq(deref(r.f['0']), c), 'options read back give another configuration', info=lambda m_: {'config': m_(c), 'result': repr(r)})
    pairs = [('some.other', h.str('other'))] + ([('format.google_application_credentials', want['ApplicationCredentials'])] if want['ApplicationCredentials'] is not None else [])
    m = mapof(pairs); r = it.call_fn(GM + 'GCSConfig::from_bucket_and_options', c.f['bucket'], Ref(lambda: m, lambda x: None))
    d = deref(r.f['0'])
    h.check(r.var == 'Ok' and band(eq(d.f['bucket'], c.f['bucket']), same(optv(d.f['prefix']), None), eq(d.f['google_application_credentials'], c.f['google_application_credentials'])), 'bucket and options give another configuration')
    h.check(len(m.e) == 1 and dct(m)[0][0] == 'some.other', 'options of the store are left behind, or others consumed')
    h.wit('back')

@case('local configuration and options', expects=['round trip', 'refused', 'built'])
def local(h):
    it = h.it
    c = it.mk('LocalConfig', data_dir=h.str('dir'), disable_hardlinks=h.flip('disable_hardlinks'))
    m = it.method(c, 'to_hashmap') if h.flip('directly') else it.method(it.mke('ObjectStoreConfig', 'Local', **{'0': c}), 'to_hashmap')
    r = it.call_fn(LM + 'LocalConfig::from_hashmap', m)
    h.check(r.var == 'Ok', 'a configuration turned into options is refused')
    h.check(eq(deref(r.f['0']), c), 'options read back give another configuration', info=lambda m_: {'config': m_(c), 'options': m_(m), 'back': m_(deref(r.f['0']))})
    h.wit('round trip')
    v = flagval(h, 'flag'); d = h.str('dir2')
    pairs = order(h, [('data_dir', d)] + ([('disable_hardlinks', v)] if v is not None else []))
    r = it.call_fn(LM + 'LocalConfig::from_hashmap', mapof(pairs)); b = deref(r.f['0'])
    if v in ('true', 'false', None): h.check(band(eq(b.f['data_dir'], d), eq(b.f['disable_hardlinks'], v == 'true')), 'an option is lost or changed')
    r = it.call_fn(LM + 'LocalConfig::from_hashmap', mapof([('disable_hardlinks', v)] if v is not None else []))
    h.check(r.var == 'Err', 'a local store without a directory is accepted'); h.wit('refused')
    r = it.method(it.mke('ObjectStoreConfig', 'Local', **{'0': c}), 'build_object_store')
    st = deref(r.f['0'])
    h.check(isinstance(st, O.Built) and st.b.kind == 'local', 'another kind of store is built')
    h.check(eq(st.b.set.get('prefix'), c.f['data_dir']), 'the store is rooted elsewhere'); h.wit('built')

# ------------------------------------------------------------------ option keys
MAPFN = {'AmazonS3ConfigKey': S3M + 'map_options_into_amazon_s3_config_keys', 'GoogleConfigKey': GM + 'map_options_into_google_config_keys'}
def mapped(r):
    return {keyname(k): v for k, v in dct(deref(r.f['0']))}
@case('every known key', over=[dict(ty=t) for t in MAPFN], expects=['mapped'])
def known(h, ty):
    k = h.pick(sorted(O.TAB[ty]), 'key'); v = h.str('v')
    r = h.it.call_fn(MAPFN[ty], mapof([(k, v)]))
    want = keyname(O.TAB[ty][k]())
    h.check(r.var == 'Ok', f'a known key is refused', info=lambda m: {'key': k})
    got = mapped(r)
    h.check(set(got) == {want} and eq(got[want], v), 'a known key is mapped to another setting or value', info=lambda m: {'key': k, 'mapped': {a: m(b) for a, b in got.items()}, 'value': m(v)})
    h.wit('mapped')
@case('unknown keys are refused', over=[dict(ty=t, n=n) for t in MAPFN for n in (0, 1, 2)], expects=['refused', 'accepted'])
def unknown(h, ty, n):
    ks = ['region', 'allow_http'] if ty == 'AmazonS3ConfigKey' else ['service_account', 'timeout']
    u = h.str('unknown')
    for k in O.TAB[ty]: h.assume(bnot(eq(u, k)))
    vals = [h.str(f'v{i}') for i in range(n + 1)]
    pos = h.choose(n + 1, 'position of the unknown key')
    keys = ks[:n]; keys.insert(pos, u)
    r = h.it.call_fn(MAPFN[ty], mapof(list(zip(keys, vals))))
    h.check(r.var == 'Err', 'an unknown option is ignored', info=lambda m: {'options': [[m(k), m(v)] for k, v in zip(keys, vals)]})
    h.wit('refused')
    keys = ks[:n]
    r = h.it.call_fn(MAPFN[ty], mapof(order(h, list(zip(keys, vals)))))
    h.check(r.var == 'Ok', 'known options are refused')
    got = mapped(r)
    h.check(len(got) == n and all(True for _ in got), 'an option is dropped or added')
    for k, v in zip(keys, vals): h.check(eq(got[keyname(O.TAB[ty][k]())], v), 'an option changes its value')
    h.wit('accepted')

# ------------------------------------------------------------------ environment variables and defaults
ENV = {'AmazonS3ConfigKey': ['AWS_ACCESS_KEY_ID', 'AWS_SECRET_ACCESS_KEY', 'AWS_SESSION_TOKEN', 'AWS_REGION', 'AWS_ENDPOINT', 'AWS_SKIP_SIGNATURE', 'AWS_CONDITIONAL_PUT', 'AWS_ALLOW_HTTP', 'AWS_SSE_KMS_KEY_ID', 'AWS_PROXY_URL', 'ALLOW_HTTP', 'AWS_NO_SUCH_SETTING', 'REGION', 'NOT_AWS_REGION', 'aws_region'],
       'GoogleConfigKey': ['GOOGLE_SERVICE_ACCOUNT', 'GOOGLE_SERVICE_ACCOUNT_KEY', 'GOOGLE_SERVICE_ACCOUNT_PATH', 'GOOGLE_BUCKET', 'GOOGLE_APPLICATION_CREDENTIALS', 'GOOGLE_PROXY_URL', 'GOOGLE_NOTHING', 'BUCKET', 'AWS_REGION']}
PRE = {'AmazonS3ConfigKey': 'AWS_', 'GoogleConfigKey': 'GOOGLE_'}
ENVFN = {'AmazonS3ConfigKey': S3M + 'add_amazon_s3_environment_variables', 'GoogleConfigKey': GM + 'add_google_cloud_storage_environment_variables'}
def from_env(ty, var):
    """the setting an environment variable stands for, or None"""
    if ty == 'AmazonS3ConfigKey' and var == 'ALLOW_HTTP': return 'Client.AllowHttp'
    if not var.startswith(PRE[ty]): return None
    f = O.TAB[ty].get(var.lower()); return keyname(f()) if f else None
def keyobj(ty, n):
    for f in O.TAB[ty].values():
        k = f()
        if keyname(k) == n: return k
SA = ('ServiceAccount', 'ServiceAccountKey')
def env_expect(ty, explicit, env):
    """what the options must be: explicit ones, then environment ones that do not conflict"""
    out = dict(explicit)
    blocked = ty == 'GoogleConfigKey' and any(s in explicit for s in SA)
    if ty == 'GoogleConfigKey' and not blocked:
        for v in ('GOOGLE_SERVICE_ACCOUNT', 'GOOGLE_SERVICE_ACCOUNT_KEY'):
            if v in env: out[from_env(ty, v)] = env[v]; break
    for v, x in env.items():
        n = from_env(ty, v)
        if n is None or n in out or (ty == 'GoogleConfigKey' and n in SA): continue
        if v == 'ALLOW_HTTP': continue
        out[n] = x
    if ty == 'AmazonS3ConfigKey' and 'ALLOW_HTTP' in env and 'Client.AllowHttp' not in out and Ctx.cur.branch(eq(env['ALLOW_HTTP'], 'true')): out['Client.AllowHttp'] = 'true'
    return out
def verify(h, got, want, explicit, env):
    info = lambda m: {'explicit': {k: m(v) for k, v in explicit.items()}, 'env': {k: m(v) for k, v in env.items()}, 'got': {k: m(v) for k, v in got.items()}}
    for k, v in explicit.items(): h.check(k in got and eq(got[k], v), 'an explicit option is overridden', info=info)
    for k, v in want.items(): h.check(k in got and eq(got[k], v), 'a setting of the environment is lost or changed', info=info)
    h.check(set(got) <= set(want), 'a setting appears from nowhere', info=info)

def scene(h, ty, nenv, nexp):
    env = {}; names = ENV[ty]
    i = 0
    for j in range(nenv):
        k = h.choose(len(names) - i, f'variable {j}'); v = names[i + k]; i += k + 1
        env[v] = h.str('env ' + v)
        if i >= len(names): break
    if len(env) > 1 and h.flip('environment in reverse order'): env = dict(list(env.items())[::-1])
    cand = []
    for v in env:
        n = from_env(ty, v)
        if n and n not in cand: cand.append(n)
    for n in (['Region', 'Bucket'] if ty == 'AmazonS3ConfigKey' else ['Bucket', *SA]):
        if n not in cand: cand.append(n)
    explicit = {}
    for j in range(nexp):
        n = h.pick(cand, f'explicit {j}')
        if n not in explicit: explicit[n] = h.str('opt ' + n)
    return env, explicit
@case('environment variables', over=[dict(ty=t, nenv=a, nexp=b, _tier='quick' if a + b <= 3 else 'thorough') for t in ENV for a in (1, 2, 3) for b in (0, 1, 2)])
def environ(h, ty, nenv, nexp):
    env, explicit = scene(h, ty, nenv, nexp)
    h.ctx.user['env'] = env; h.ctx.user['parse_as'] = lambda s: O.from_str(ty, s)
    m = mapof([(keyobj(ty, n), v) for n, v in explicit.items()])
    h.it.call_fn(ENVFN[ty], Ref(lambda: m, lambda x: None))
    got = {keyname(k): v for k, v in dct(m)}
    h.check(len(got) == len(m.e), 'a setting is there twice')
    verify(h, got, env_expect(ty, explicit, env), explicit, env)

@case('S3 defaults', expects=['detected', 'not detected'])
def s3_defaults(h):
    it = h.it
    explicit = {}
    for n in ('Region', 'Endpoint', 'ConditionalPut', 'Bucket'):
        if h.flip(n + ' given'): explicit[n] = h.str('opt ' + n)
    m = mapof([(keyobj('AmazonS3ConfigKey', n), v) for n, v in explicit.items()])
    it.call_fn(S3M + 'add_amazon_s3_specific_options', O.Url('s3', 'bucket', ''), Ref(lambda: m, lambda x: None))
    got = {keyname(k): v for k, v in dct(m)}
    want = dict(explicit); want.setdefault('ConditionalPut', 'etag')
    if 'Region' not in explicit and 'Endpoint' not in explicit: want['Region'] = 'detected-region'; h.wit('detected')
    else: h.wit('not detected')
    verify(h, got, want, explicit, {})

@case('a store from options', over=[dict(scheme=s) for s in ('s3', 'gs', 'memory', 'file', 'ftp')])
def from_opts(h, scheme):
    it = h.it
    ty = {'s3': 'AmazonS3ConfigKey', 'gs': 'GoogleConfigKey'}.get(scheme)
    path = h.pick(['', '/some/dir'], 'path')
    url = O.Url(scheme, 'bucket' if ty else None, path)
    env, explicit = {}, {}
    if ty:
        env, explicit = scene(h, ty, 1, 2)
        h.ctx.user['env'] = env; h.ctx.user['parse_as'] = lambda s: O.from_str(ty, s)
    inv = {keyname(f()): k for k, f in O.TAB[ty].items()} if ty else {}
    r = it.call_fn(L + 'build_object_store_from_opts', url, mapof([(inv[n], v) for n, v in explicit.items()]))
    if scheme == 'ftp': h.check(r.var == 'Err', 'a store is built for an unknown scheme'); return
    h.check(r.var == 'Ok', 'a store with valid options is refused', info=lambda m: {'explicit': {k: m(v) for k, v in explicit.items()}})
    st = deref(r.f['0'])
    pre = None
    if isinstance(st, O.Built) and st.b.kind == 'prefix': pre = st.b.set['prefix']; st = st.b.set['inner']
    if isinstance(st, Enum) and st.ty == 'Result': st = deref(st.f['0'])
    if scheme == 'file':
        h.check(st.b.kind == 'local' and eq(st.b.set['prefix'], path), 'a local store is rooted elsewhere'); return
    h.check(eq(pre, path) if path else pre is None, 'the path of the URL is lost')
    if scheme == 'memory': h.check(st.b.kind == 'memory', 'another kind of store is built'); return
    h.check(st.b.kind == 'opts' and st.b.set['url'] is url, 'the store is built for another URL')
    got = {keyname(k): v for k, v in dct(st.b.set['options'])}
    if ty == 'AmazonS3ConfigKey':
        e2 = dict(explicit)
        if 'Region' not in explicit and 'Endpoint' not in explicit and not any(from_env(ty, v) in ('Region', 'Endpoint') for v in env): e2['Region'] = 'detected-region'
        want = env_expect(ty, dict(e2), env); want.setdefault('ConditionalPut', got.get('ConditionalPut'))
        if 'Region' not in explicit and 'Endpoint' not in explicit:
            # environment or detected region: both are acceptable here
            want.setdefault('Region', got.get('Region')); want['Region'] = got.get('Region', want['Region'])
            h.check(got.get('Region') is not None, 'no region is known')
        if 'ConditionalPut' not in explicit: want['ConditionalPut'] = got.get('ConditionalPut'); h.check(got.get('ConditionalPut') is not None, 'conditional put is not set')
    else: want = env_expect(ty, explicit, env)
    verify(h, got, want, explicit, env)

@case('storage location info from options', expects=['told'])
def info_from_opts(h):
    it = h.it; inner = O.Built(O.Builder('memory'))
    it.overrides['object_store_factory::build_object_store_from_opts'] = lambda it, a, c: Ok(inner)
    m = mapof([('region', h.str('r')), ('endpoint', h.str('e'))]); u = O.Url('s3', 'bucket', '/x')
    r = it.call_fn(L + 'build_storage_location_info_from_opts', u, m)
    d = deref(r.f['0'])
    h.check(eq(deref(d.f['options']), m), 'the options reported differ from those given'); h.check(eq(d.f['url'], 's3://bucket/x'), 'another URL is reported'); h.wit('told')

# ------------------------------------------------------------------ file-IO properties
PROP = {'AccessKeyId': 's3.access-key-id', 'SecretAccessKey': 's3.secret-access-key', 'Region': 's3.region', 'Endpoint': 's3.endpoint'}
S3KEYS = sorted({keyname(f()) for f in O.TAB['AmazonS3ConfigKey'].values()})
INVS3 = {}
for _k, _f in O.TAB['AmazonS3ConfigKey'].items(): INVS3.setdefault(keyname(_f()), []).append(_k)
@case('file-IO properties', over=[dict(n=1), dict(n=2, _tier='quick'), dict(n=3, _tier='thorough')], expects=['anonymous', 'plain'])
def fileio(h, n):
    it = h.it
    pool = ['AccessKeyId', 'SecretAccessKey', 'Region', 'Endpoint', 'SkipSignature', 'Token', 'Client.AllowHttp', 'other'] if n > 1 else S3KEYS + ['other']
    opts = []; i = 0
    for j in range(n):
        if i >= len(pool): break
        k = h.choose(len(pool) - i, f'option {j}'); nm = pool[i + k]; i += k + 1
        if nm == 'other':
            key = h.str('other key')
            for z in O.TAB['AmazonS3ConfigKey']: h.assume(bnot(eq(key, z)))
            for z in list(PROP.values()) + ['s3.disable-config-load', 's3.allow-anonymous', 's3.disable-ec2-metadata']: h.assume(bnot(eq(key, z)))
        else: key = h.pick(INVS3[nm], 'spelling') if n == 1 else INVS3[nm][0]
        if nm == 'SkipSignature': v = h.pick(['true', 'True', 'TRUE', 't', 'T', '1', 'false', 'False', 'f', '0'], 'skip')
        else: v = h.str(f'v{j}')
        opts.append((nm, key, v))
    r = it.call_fn(L + 'object_store_opts_to_file_io_props', mapof(order(h, [(k, v) for _, k, v in opts])))
    got = dct(r); want = []
    for nm, k, v in opts:
        if nm == 'other': want.append((k, v))
        elif nm == 'SkipSignature' and v.lower() in ('true', 't', '1'):
            want += [('s3.allow-anonymous', v), ('s3.disable-ec2-metadata', v)]; h.wit('anonymous')
        else: want.append((PROP.get(nm) or O.spelling(keyobj('AmazonS3ConfigKey', nm)), v)); h.wit('plain')
    anys3 = any(nm != 'other' for nm, _, _ in opts)
    if anys3:
        want.append(('s3.disable-config-load', 'true'))
        if not any(nm == 'Region' for nm, _, _ in opts): want.append(('s3.region', 'dummy-region'))
    info = lambda m: {'options': [[m(k), m(v)] for _, k, v in opts], 'properties': [[m(k), m(v)] for k, v in got]}
    h.check(len(got) == len(want), 'a property is missing or invented', info=info)
    for k, v in want:
        vs = [y for x, y in got if Ctx.cur.branch(eq(x, k))]
        h.check(len(vs) == 1 and eq(vs[0], v), 'a property has another value', info=info)

# ------------------------------------------------------------------ the stores built from a configuration
@case('the S3 store built', expects=['signed', 'unsigned', 'refused'])
def s3_build(h):
    it = h.it
    c = s3cfg(h); f = {k: optv(c.f[k]) for k in S3OPT}
    how = h.pick(['direct', 'enum', 'info'], 'how')
    e = it.mke('ObjectStoreConfig', 'AmazonS3', **{'0': c})
    keys = f['access_key_id'] is not None and f['secret_access_key'] is not None
    try:
        r = it.method(c, 'build_amazon_s3') if how == 'direct' else it.method(e, 'build_object_store' if how == 'enum' else 'build_storage_location_info')
    except Panic:
        h.check(not keys and not c.f['skip_signature'], 'building the store panics'); h.wit('refused'); return
    if r.var == 'Err':
        h.check(not keys and not c.f['skip_signature'], 'a complete configuration is refused'); h.wit('refused'); return
    h.check(keys or c.f['skip_signature'], 'a store that cannot sign is built')
    st = deref(r.f['0'])
    if how == 'info':
        h.check(eq(st.f['url'], mktext(['s3://', c.f['bucket']])), 'another location is reported')
        h.check(eq(deref(st.f['options']), it.method(c, 'to_hashmap')), 'the options reported are not those of the store')
        st = deref(st.f['object_store'])
    s = st.b.set
    info = lambda m: {'config': m(c), 'store': {k: m(v) for k, v in s.items()}}
    h.check(st.b.kind == 's3' and eq(s.get('bucket_name'), c.f['bucket']), 'the bucket is lost', info=info)
    if f['region'] is not None: h.check(same(s.get('region'), f['region']), 'the region is lost', info=info)
    h.check(same(s.get('endpoint'), f['endpoint']), 'the endpoint is lost', info=info)
    h.check(same(s.get('allow_http'), c.f['allow_http']), 'allow_http is lost', info=info)
    if keys:
        h.wit('signed')
        h.check(band(same(s.get('access_key_id'), f['access_key_id']), same(s.get('secret_access_key'), f['secret_access_key']), same(s.get('token'), f['session_token'])), 'the credentials are lost or mixed up', info=info)
        h.check(not s.get('skip_signature', False), 'requests are not signed although credentials are given', info=info)
    else:
        h.wit('unsigned'); h.check(s.get('skip_signature') is True, 'unsigned access is lost', info=info)

@case('the GCS store built', expects=['built'])
def gcs_build(h):
    it = h.it
    c = it.mk('GCSConfig', bucket=h.str('bucket'), prefix=opt(h.str('prefix') if h.flip('prefix set') else None), google_application_credentials=opt(h.str('creds') if h.flip('creds set') else None))
    how = h.pick(['direct', 'enum', 'info'], 'how'); e = it.mke('ObjectStoreConfig', 'GoogleCloudStorage', **{'0': c})
    r = it.method(c, 'build_google_cloud_storage') if how == 'direct' else it.method(e, 'build_object_store' if how == 'enum' else 'build_storage_location_info')
    h.check(r.var == 'Ok', 'a valid configuration is refused'); st = deref(r.f['0'])
    if how == 'info':
        h.check(eq(st.f['url'], mktext(['gs://', c.f['bucket']])), 'another location is reported')
        h.check(eq(deref(st.f['options']), it.method(c, 'to_hashmap')), 'the options reported are not those of the store'); st = deref(st.f['object_store'])
    s = st.b.set
    creds = s.get('service_account_path', s.get('application_credentials'))
    h.check(st.b.kind == 'gcs' and eq(s.get('bucket_name'), c.f['bucket']), 'the bucket is lost')
    h.check(same(creds, optv(c.f['google_application_credentials'])), 'the credentials are lost'); h.wit('built')

@case('the prefix of a configuration', expects=['some', 'none'])
def base(h):
    it = h.it; EXT_FN['Path::from'] = lambda it, a, c: Struct('Path', {'raw': deref(a[0])})
    p = h.str('prefix') if h.flip('prefix set') else None
    k = h.pick(['s3', 'gcs', 'local', 'memory'], 'kind')
    c = {'s3': lambda: it.mke('ObjectStoreConfig', 'AmazonS3', **{'0': s3cfg(h, subset=(), prefix=opt(p))}),
         'gcs': lambda: it.mke('ObjectStoreConfig', 'GoogleCloudStorage', **{'0': it.mk('GCSConfig', bucket=h.str('bucket'), prefix=opt(p), google_application_credentials=NONE())}),
         'local': lambda: it.mke('ObjectStoreConfig', 'Local', **{'0': it.mk('LocalConfig', data_dir='d', disable_hardlinks=False)}),
         'memory': lambda: it.mke('ObjectStoreConfig', 'Memory')}[k]()
    r = optv(it.method(c, 'get_base_url'))
    if k in ('local', 'memory') or p is None: h.check(r is None, 'a prefix appears from nowhere'); h.wit('none'); return
    h.check(r is not None and eq(r.f['raw'], p), 'the prefix is lost or changed'); h.wit('some')
