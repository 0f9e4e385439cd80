"""the process entry point: command line, subsystems, timers"""
from .values import *
from .core import *
from .interp import EXT_FN
from . import ext_serde as S

class Stop(Exception): pass
class Bag(Obj):
    def __init__(self, **f): self.f = f
class Sub(Obj):
    """SubsystemBuilder::new(name, closure)"""
    def __init__(self, name, fn): self.name = name; self.fn = fn
class Handle(Obj):
    def m_start(self, it, a, c): Ctx.cur.user['subsystems'].append(deref(a[0])); return UNIT()
    def m_on_shutdown_requested(self, it, a, c): return UNIT()
    def m_clone(self, it, a, c): return self
class Top(Obj):
    def m_catch_signals(self, it, a, c): return self
    def m_handle_shutdown_requests(self, it, a, c): return Ok(UNIT())
class Interval(Obj):
    def __init__(self, d): self.d = d; self.n = 0; Ctx.cur.user.setdefault('intervals', []).append(d)
    def m_tick(self, it, a, c):
        self.n += 1
        Ctx.cur.user['ticks'] = self.n
        if self.n > 3: raise Stop()
        return UNIT()
    def m_set_missed_tick_behavior(self, it, a, c): return UNIT()
def _top(it, a, c):
    Ctx.cur.user['subsystems'] = []
    it.await_(it.call(a[0], [Handle()])); return Top()
EXT_FN['Toplevel::new'] = _top
EXT_FN['SubsystemBuilder::new'] = lambda it, a, c: Sub(deref(a[0]), a[1])
EXT_FN['tokio::time::interval'] = lambda it, a, c: Interval(deref(a[0]))
def _exit(it, a, c): raise Stop('exit')
EXT_FN['process::exit'] = _exit
def _write(it, a, c): Ctx.cur.user.setdefault('files written', []).append((deref(a[0]), deref(a[1]))); return Ok(UNIT())
EXT_FN['fs::write'] = _write
EXT_FN['fs::create_dir_all'] = lambda it, a, c: Ok(UNIT())
EXT_FN['io::stdout'] = lambda it, a, c: Bag()

class Cli(Obj):
    def __init__(self, ctx): self.c = ctx
    def m_command_loop(self, it, a, c): Ctx.cur.user['cli'] = True; return Ok(UNIT())

def run_main(h, args, config, store=True):
    """execute main() with the given command line and configuration; returns a log"""
    it = h.it; u = h.ctx.user; log = []
    u['log'] = log; u['select'] = 0   # no shutdown request while serving
    def ov(name, f): it.overrides[name] = f
    A = Bag(config_path=args['path'], version=args['version'], one_off=opt(args['one_off']), cli=args['cli'], json_logs=False)
    u['main args'] = A; u['main config'] = config; u['main store'] = store
    u['exists'] = lambda p: args['exists']
    ov('Args::parse', lambda it, a, c: Ctx.cur.user['main args'])
    ov('prepare_tracing', lambda it, a, c: UNIT())
    ov('print_version_info', lambda it, a, c: (Ctx.cur.user['log'].append(('version',)), Ok(UNIT()))[1])
    ov('load_config', lambda it, a, c: (Ctx.cur.user['log'].append(('load', deref(a[0]))), Ok(Ctx.cur.user['main config']))[1])
    ov('build_default_config', lambda it, a, c: (Ctx.cur.user['log'].append(('default',)), Tup(['TEXT', Ctx.cur.user['main config']]))[1])
    ov('setup_metrics', lambda it, a, c: (Ctx.cur.user['log'].append(('metrics', deref(a[0]))), UNIT())[1])
    def bc(it, a, c):
        L = Ctx.cur.user; L['log'].append(('context', deref(a[0])))
        L['context'] = Bag(config=deref(a[0]), internal_object_store=opt(Bag(name='internal') if L['main store'] else None))
        return Ok(L['context'])
    ov('build_context', bc)
    ov('gc_databases', lambda it, a, c: (Ctx.cur.user['log'].append(('gc', deref(a[0]), deref(a[1]), deref(a[2]))), UNIT())[1])
    ov('run_one_off_command', lambda it, a, c: (Ctx.cur.user['log'].append(('one-off', deref(a[0]), deref(a[1]))), UNIT())[1])
    ov('run_server', lambda it, a, c: (Ctx.cur.user['log'].append(('http', deref(a[0]), deref(a[1]))), UNIT())[1])
    ov('run_pg_server', lambda it, a, c: (Ctx.cur.user['log'].append(('pg', deref(a[0]), deref(a[1]))), UNIT())[1])
    ov('run_flight_server', lambda it, a, c: (Ctx.cur.user['log'].append(('flight', deref(a[0]), deref(a[1]))), UNIT())[1])
    ov('SeafowlCli::new', lambda it, a, c: Cli(a[0]))
    try: it.call_fn('seafowl_main::main')
    except Stop as e: log.append(('exit',))
    subs = u.get('subsystems', [])
    for s in subs:
        log.append(('start', s.name))
        try: it.await_(it.call(s.fn, [Handle()]))
        except Stop: pass
    return log
