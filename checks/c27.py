"""C27: unsafe configurations are refused at start-up; settings mean what they say."""
import tomllib
from engine.harness import *
from engine import ext_serde as S
NATIVE = None
BOUNDS = ('every combination of catalog kind, object-store kind, presence of each S3/GCS setting, object cache and memory limit, with any string as each text (SMT strings, unbounded) and any u64 as limit; '
          'every subset of the keys of each configuration section, unknown keys included')
ASSUMPTIONS = ['serde derive semantics (missing fields, default, rename, tag, with) as documented, read from the attributes in the source', 'the config crate merges sources in the order added',
               'an SQLite DSN contains ":memory:" or "mode=memory" only where it means an in-memory database; sqlx 0.7.4 meaning of a DSN (:memory: or mode=memory is an in-memory database)']
MODELS = 'serde derive(Deserialize), config::Config builder (recording), a TOML parser (tomllib) for the generated default configuration'
M = 'seafowl::config::schema::'
def unopt(v):
    v = deref(v); return None if v.var == 'None' else deref(v.f['0'])

def sqlite_dsn(h):
    """(text, is in memory) for any DSN sqlx understands"""
    if h.flip('persistent'):
        d = h.str('dsn'); h.assume(z3.And(z3.Not(z3.Contains(d.e, z3.StringVal(':memory:'))), z3.Not(z3.Contains(d.e, z3.StringVal('mode=memory')))))
        return d, False
    scheme = h.pick(['', 'sqlite:', 'sqlite://'], 'scheme')
    return scheme + h.pick([':memory:', ':memory:?cache=shared', 'dir/x.sqlite?mode=memory', 'x?cache=shared&mode=memory'], 'in-memory database'), True

def some_config(h, it, more=False):
    kind = h.pick(['none', 'sqlite', 'postgres', 'clade'], 'catalog'); mem = False
    if kind == 'none': cat = NONE()
    elif kind == 'sqlite':
        dsn, mem = sqlite_dsn(h)
        cat = Some(it.mke('Catalog', 'Sqlite', it.mk('Sqlite', dsn=dsn, journal_mode=Enum('SqliteJournalMode', 'Wal', {}), read_only=h.bool('read_only'))))
    elif kind == 'postgres': cat = Some(it.mke('Catalog', 'Postgres', it.mk('Postgres', dsn=h.str('dsn'), schema=h.str('schema'))))
    else: cat = Some(it.mke('Catalog', 'Clade', it.mk('Clade', dsn=h.str('dsn'))))
    sk = h.pick(['none', 'local', 'memory', 's3', 'gcs'], 'store'); s3 = None
    o = lambda n: Some(h.str(n)) if h.flip(n) else NONE()
    if sk == 'none': st = NONE()
    elif sk == 'local': st = Some(it.mke('ObjectStoreConfig', 'Local', it.mk('LocalConfig', data_dir=h.str('dir'), disable_hardlinks=h.bool('nohl'))))
    elif sk == 'memory': st = Some(it.mke('ObjectStoreConfig', 'Memory'))
    elif sk == 's3':
        s3 = it.mk('S3Config', region=o('region'), endpoint=o('endpoint'), access_key_id=o('key'), secret_access_key=NONE(), session_token=NONE(), bucket=h.str('bucket'), prefix=NONE(), allow_http=h.bool('http'), skip_signature=h.bool('skip'))
        st = Some(it.mke('ObjectStoreConfig', 'AmazonS3', s3))
    else: st = Some(it.mke('ObjectStoreConfig', 'GoogleCloudStorage', it.mk('GCSConfig', bucket=h.str('bucket'), prefix=o('prefix'), google_application_credentials=o('creds'))))
    lim = h.int('max_memory', 'u64') if h.flip('memory limit') else None
    cache = Some(it.mk('ObjectCacheProperties', capacity=h.int('cap'), min_fetch_size=h.int('min'), ttl=h.int('ttl'))) if h.flip('cache') else NONE()
    misc = it.mk('Misc', max_partition_size=h.int('mps', 'u32'), gc_interval=h.int('gc', 'u16'), object_store_cache=cache)
    cfg = it.mk('SeafowlConfig', object_store=st, catalog=cat, runtime=it.mk('Runtime', max_memory=opt(lim)), misc=misc)
    bad = bor(mem != (sk == 'memory'), s3 is not None and unopt(s3.f['region']) is None and unopt(s3.f['endpoint']) is None, False if lim is None else lim.v < 64)
    return cfg, bad

@case('validation', expects=['accepted', 'refused'])
def validation(h):
    cfg, bad = some_config(h, h.it); before = clone(cfg)
    r = deref(h.it.call_fn(M + 'validate_config', cfg))
    inf = lambda m: {'config': m(before), 'result': r.var}
    if h.ctx.branch(bad):
        h.wit('refused'); h.check(r.var == 'Err', 'an unsafe configuration is accepted', info=inf)
        return
    h.wit('accepted')
    h.check(r.var == 'Ok', 'a safe configuration is refused', info=inf)
    h.check(eq(deref(r.f['0']), before, h.it), 'the accepted configuration is not the one given', info=inf)

@case('loading validates', over=[dict(how=x) for x in ('file', 'string', 'string unvalidated')], expects=['accepted', 'refused', 'undecodable'])
def loading(h, how):
    it = h.it
    if h.flip('does not decode'):
        h.ctx.user['try_deserialize'] = lambda it, s: clone(S.BAD); cfg = None
    else:
        cat, mem = h.pick([(None, False), (':memory:', True), ('/x/y.sqlite', False)], 'catalog'); sk = h.pick(['none', 'memory', 's3'], 'store')
        st = {'none': lambda: NONE(), 'memory': lambda: Some(it.mke('ObjectStoreConfig', 'Memory')), 's3': lambda: Some(it.mke('ObjectStoreConfig', 'AmazonS3', it.mk('S3Config', bucket='b', endpoint=NONE(), region=NONE())))}[sk]()
        cfg = it.mk('SeafowlConfig', object_store=st, catalog=opt(None if cat is None else it.mke('Catalog', 'Sqlite', it.mk('Sqlite', dsn=cat, journal_mode=Enum('SqliteJournalMode', 'Wal', {})))))
        bad = mem != (sk == 'memory') or sk == 's3'; before = clone(cfg)
        h.ctx.user['try_deserialize'] = lambda it, s: Ok(cfg)
    path = h.str('path'); env = NONE()
    if how == 'file': r = it.call_fn(M + 'load_config', path)
    else: r = it.call_fn(M + 'load_config_from_string', path, how != 'string', env)
    r = deref(r); src = h.ctx.user['config sources'][-1]
    h.check([s.kind for s in src] == ['file' if how == 'file' else 'text', 'env'], 'environment variables do not override the configuration file')
    h.check(eq(src[0].o['name' if how == 'file' else 'text'], path), 'another configuration is read')
    h.check(src[1].o.get('prefix') == 'SEAFOWL' and src[1].o.get('separator') == '__', 'environment variables are read under another name')
    if cfg is None: h.wit('undecodable'); h.check(r.var == 'Err', 'an undecodable configuration is accepted'); return
    if bad and how != 'string unvalidated': h.wit('refused'); h.check(r.var == 'Err', 'an unsafe configuration is loaded')
    else:
        if bad: h.wit('refused')
        else: h.wit('accepted')
        h.check(r.var == 'Ok' and eq(deref(r.f['0']), before, it), 'the loaded configuration is not the one given')

@case('access settings', expects=['any', 'off', 'password'])
def access(h):
    s = h.str('text'); r = S.from_value(h.it, 'AccessSettings', s)
    h.check(r.var == 'Ok', 'an access setting is refused')
    a = deref(r.f['0']); inf = lambda m: {'text': m(s), 'read as': a.var}
    k = 'any' if h.ctx.branch(eq(s, 'any')) else 'off' if h.ctx.branch(eq(s, 'off')) else 'password'
    h.wit(k)
    h.check({'any': a.var == 'Any', 'off': a.var == 'Off', 'password': a.var == 'Password'}[k], f'access setting {k} is read as something else', info=inf)
    if k == 'password': h.check(eq(a.f['sha256_hash'], s), 'the password hash is not the one given', info=inf)

DOC = {  # section -> {key: (type, documented default)}; REQ = required, OPT = optional without default
    'HttpFrontend': dict(bind_host=('str', '127.0.0.1'), bind_port=('u16', 8080), read_access=('acc', 'Any'), write_access=('acc', 'Off'), upload_data_max_length=('u64', 256), cache_control=('str', 'max-age=43200, public')),
    'PostgresFrontend': dict(bind_host=('str', '127.0.0.1'), bind_port=('u16', 6432)),
    'FlightFrontend': dict(bind_host=('str', '127.0.0.1'), bind_port=('u16', 47470)),
    'Misc': dict(max_partition_size=('u32', 1024 * 1024), gc_interval=('u16', 0), ssl_cert_file=('str', None)),
    'seafowl::config::schema::Metrics': dict(host=('str', '127.0.0.1'), port=('u16', 9090)),
    'ObjectCacheProperties': dict(capacity=('u64', 1024 * 1024 * 1024), min_fetch_size=('u64', 1024 * 1024), ttl=('u64', 3 * 60)),
    'DataSyncConfig': dict(max_in_memory_bytes=('usize', 3 * 1024 ** 3), max_replication_lag_s=('u64', 600), max_syncs_per_url=('usize', 100), write_lock_timeout_s=('u64', 3), flush_task_interval_s=('u64', 900)),
    'Runtime': dict(max_memory=('u64', None), temp_dir=('str', None)),
    'Sqlite': dict(dsn=('str', 'REQ'), read_only=('bool', False)),
    'Postgres': dict(dsn=('str', 'REQ'), schema=('str', 'public')),
    'Clade': dict(dsn=('str', 'REQ')),
    'S3Config': dict(bucket=('str', 'REQ'), region=('str', None), access_key_id=('str', None), secret_access_key=('str', None), session_token=('str', None), endpoint=('str', None), prefix=('str', None)),
    'GCSConfig': dict(bucket=('str', 'REQ'), prefix=('str', None), google_application_credentials=('str', None)),
    'LocalConfig': dict(data_dir=('str', 'REQ'), disable_hardlinks=('bool', False)),
}
def section(h, name):
    v = {}; want = {}
    for k, (t, d) in DOC[name].items():
        if not h.flip(f'{k} given'):
            want[k] = d; continue
        if t in ('str', 'acc'): x = h.str(k)
        elif t == 'bool': x = h.bool(k)
        else: x = h.int(k, 'i64', lo=0)
        v[k] = x; want[k] = ('given', x, t)
    return v, want
def verify(h, got, want, what):
    for k, w in want.items():
        g = deref(got.f[k]); inf = lambda m: {'section': what, 'key': k, 'result': m(got)}
        if type(g) is Enum and g.ty == 'Option': g = None if g.var == 'None' else deref(g.f['0'])
        if isinstance(w, tuple):
            _, x, t = w
            if t == 'acc':
                a = deref(g); h.check(bor(band(a.var == 'Any', eq(x, 'any')), band(a.var == 'Off', eq(x, 'off')), band(a.var == 'Password', bnot(eq(x, 'any')), bnot(eq(x, 'off')), eq(a.f.get('sha256_hash', ''), x))), f'{what}.{k} is not the setting given', info=inf)
            else: h.check(g is not None and (eq(g, x) if type(x) is not Int else g.v == x.v), f'{what}.{k} is not the value given', info=inf)
        elif w is None: h.check(g is None, f'{what}.{k} has a value although none was given', info=inf)
        elif type(g) is Enum: h.check(g.var == w, f'{what}.{k}: an omitted setting is {g.var}', info=inf)
        else: h.check(eq(g, Int(w, g.t) if type(g) is Int else w), f'{what}.{k}: an omitted setting has another default than documented', info=inf)
LIM = {'u16': 2 ** 16, 'u32': 2 ** 32, 'u64': 2 ** 64, 'usize': 2 ** 64}
@case('sections', over=[dict(name=n) for n in DOC], expects=['read'])
def sections(h, name):
    v, want = section(h, name)
    if h.flip('unknown key'): v['no_such_key'] = h.str('unknown')
    r = S.from_value(h.it, name, v)
    good = all(not (w == 'REQ') for w in want.values())
    fit = band(*[x[1].v < LIM[x[2]] for x in want.values() if isinstance(x, tuple) and x[2] in LIM]) if good else False
    inf = lambda m: {'section': name, 'given': {k: m(x) for k, x in v.items()}, 'result': r.var}
    if r.var == 'Err': h.check(bnot(fit), 'a valid section is refused', info=inf); return
    h.check(fit, 'an invalid section is accepted', info=inf)
    verify(h, deref(r.f['0']), want, name); h.wit('read')

@case('whole configuration', over=[dict(store=s) for s in ('none', 'local', 'memory', 's3', 'gcs', 'other')], expects=['read', 'no http'])
def whole(h, store):
    it = h.it; v = {}
    TY = {'local': 'LocalConfig', 's3': 'S3Config', 'gcs': 'GCSConfig'}; VAR = {'local': 'Local', 'memory': 'Memory', 's3': 'AmazonS3', 'gcs': 'GoogleCloudStorage'}
    if store != 'none':
        o = {'type': store if store != 'other' else h.str('other type')}
        if store == 'other': h.assume(band(*[bnot(eq(o['type'], n)) for n in VAR]))
        if store in ('s3', 'gcs', 'other'): o['bucket'] = h.str('bucket')
        if store == 'local': o['data_dir'] = h.str('dir')
        v['object_store'] = o
    cat = h.pick(['none', 'sqlite', 'postgres', 'clade'], 'catalog')
    if cat != 'none': v['catalog'] = {'type': cat, 'dsn': h.str('dsn')}
    fr = {}; hw = None
    k = h.pick(['no frontend', 'no http', 'empty http', 'http'], 'frontend')
    if k == 'empty http': fr['http'] = {}; hw = {a: b[1] for a, b in DOC['HttpFrontend'].items()}
    if k == 'http':
        s = h.str('write'); fr['http'] = {'write_access': s}; hw = {a: b[1] for a, b in DOC['HttpFrontend'].items()}; hw['write_access'] = ('given', s, 'acc')
    pg = k != 'no frontend' and h.flip('postgres')
    if pg: fr['postgres'] = {}
    if k != 'no frontend': v['frontend'] = fr
    r = S.from_value(it, 'SeafowlConfig', v); inf = lambda m: {'given': repr(v), 'result': m(r)}
    if store == 'other': h.check(r.var == 'Err', 'an unknown kind of object store is accepted', info=inf); h.wit('read'); h.wit('no http'); return
    h.check(r.var == 'Ok', 'a valid configuration is refused', info=inf); h.wit('read')
    c = deref(r.f['0'])
    st = unopt(c.f['object_store']); h.check((st is None) == (store == 'none') and (st is None or st.var == VAR[store]), 'another kind of object store is configured', info=inf)
    ct = unopt(c.f['catalog']); h.check((ct is None) == (cat == 'none') and (ct is None or (ct.var.lower() == cat and eq(deref(ct.f['0']).f['dsn'], v['catalog']['dsn']))), 'another catalog is configured', info=inf)
    f = deref(c.f['frontend']); ht = unopt(f.f['http'])
    h.check((ht is None) == (hw is None), 'the HTTP frontend is configured although it was not, or the reverse', info=inf)
    if hw is None: h.wit('no http')
    else: verify(h, ht, hw, 'http')
    if 'postgres' in f.f: h.check((unopt(f.f['postgres']) is not None) == pg, 'the Postgres frontend (no authentication) is configured although it was not, or the reverse', info=inf)
    m = deref(c.f['misc']); verify(h, m, {a: b[1] for a, b in DOC['Misc'].items()}, 'misc'); verify(h, deref(m.f['sync_conf']), {a: b[1] for a, b in DOC['DataSyncConfig'].items()}, 'misc.sync_conf')

@case('generated default configuration', expects=['generated'])
def generated(h):
    it = h.it; seen = {}
    def de(it_, src):
        t = src[0].o['text']; seen['t'] = t
        if not isinstance(t, str): raise Unsupported('the default configuration text is not concrete')
        try: d = tomllib.loads(t)
        except tomllib.TOMLDecodeError: return clone(S.BAD)
        return S.from_value(it_, 'SeafowlConfig', d)
    h.ctx.user['try_deserialize'] = de
    r = deref(it.call_fn(M + 'build_default_config')); h.wit('generated')
    text, c = deref(r.a[0]), deref(r.a[1])
    h.check(eq(text, seen['t']), 'the configuration written is not the one used')
    ht = unopt(deref(c.f['frontend']).f['http'])
    h.check(ht is not None and deref(ht.f['read_access']).var == 'Any' and deref(ht.f['write_access']).var == 'Off', 'the default configuration allows writing or forbids reading', info=lambda m: {'text': text})
    h.check(eq(ht.f['bind_host'], '127.0.0.1'), 'the default configuration listens on other interfaces')
    st, ct = unopt(c.f['object_store']), unopt(c.f['catalog'])
    h.check(st is not None and st.var == 'Local' and ct is not None and ct.var == 'Sqlite', 'the default configuration does not persist data')
    h.check(deref(it.call_fn(M + 'validate_config', clone(c))).var == 'Ok', 'the default configuration is refused by validation')

from engine import ext_main as MN
@case('start-up', expects=['served', 'one-off', 'default written', 'version', 'nothing to serve'])
def startup(h):
    it = h.it
    web = it.mk('HttpFrontend', bind_host=h.str('host'), bind_port=h.int('port', 'u16'), read_access=it.mke('AccessSettings', 'Any'), write_access=it.mke('AccessSettings', 'Off')) if h.flip('http') else None
    pg = it.mk('PostgresFrontend', bind_host=h.str('pghost'), bind_port=h.int('pgport', 'u16')) if h.flip('postgres') else None
    fl = it.mk('FlightFrontend', bind_host=h.str('flhost'), bind_port=h.int('flport', 'u16')) if h.flip('flight') else None
    fe = dict(http=opt(web))
    ft = it.find_type('Frontend').field_types(it.p)
    if 'postgres' in ft: fe['postgres'] = opt(pg)
    else: pg = None
    if 'flight' in ft: fe['flight'] = opt(fl)
    else: fl = None
    cfg = it.mk('SeafowlConfig', frontend=it.mk('Frontend', **fe), object_store=NONE(), catalog=NONE())
    version = h.flip('--version'); one = h.str('command') if h.flip('--one-off') else None; cli = h.flip('--cli')
    exists = h.flip('file exists'); given = h.flip('other path')
    path = S.FsPath(h.str('path') if given else 'seafowl.toml')
    if given: h.assume(bnot(eq(path.t, 'seafowl.toml')))
    log = MN.run_main(h, dict(path=path, version=version, one_off=one, cli=cli, exists=exists), cfg, store=h.flip('object store'))
    kinds = [x[0] for x in log]
    if version: h.wit('version'); h.check(kinds == ['version'], '--version does something else'); return
    loads = [x for x in log if x[0] in ('load', 'default')]
    h.check(len(loads) == 1, 'the configuration is not read exactly once')
    if exists or given: h.check(loads[0][0] == 'load' and eq(loads[0][1], path), 'the configuration file named is not the one loaded')
    else:
        h.check(loads[0][0] == 'default', 'no default configuration is made'); h.wit('default written')
        w = h.ctx.user.get('files written', [])
        h.check(len(w) == 1 and w[0][0] == 'seafowl.toml' and eq(w[0][1], 'TEXT'), 'the default configuration written is not the one used')
    if exists or given: h.check(not h.ctx.user.get('files written'), 'a configuration file is overwritten')
    cx = [x for x in log if x[0] == 'context']
    h.check(len(cx) == 1 and cx[0][1] is cfg, 'the server is built from another configuration than the one loaded')
    served = [x for x in log if x[0] in ('http', 'pg', 'flight')]
    if one is not None or cli:
        h.check(not served, 'a front end is started for a one-off command or the command line'); h.wit('one-off')
        if one is not None: h.check([x for x in log if x[0] == 'one-off' and eq(x[2], one) is not False] != [], 'the one-off command is not run')
        return
    want = {k: v for k, v in (('http', web), ('pg', pg), ('flight', fl)) if v is not None}
    if not want: h.check('exit' in kinds and not served, 'a server without front ends keeps running'); h.wit('nothing to serve'); return
    h.check(sorted(x[0] for x in served) == sorted(want), 'a front end that is not configured is started, or one that is configured is not', info=lambda m: {'configured': list(want), 'started': [x[0] for x in served]})
    for x in served: h.check(eq(x[2], want[x[0]], it) if x[0] in want else False, 'a front end is started with other settings than configured'); h.check(x[1] is h.ctx.user['context'], 'a front end serves another context')
    h.wit('served')
