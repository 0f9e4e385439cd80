"""Check runner: cases -> explored paths -> verdict, evidence, exit code."""
import sys, os, time, json, traceback, threading, multiprocessing as mp, importlib, subprocess, hashlib
import z3
from .core import *
from .values import *
from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

class Case:
    def __init__(self, fn, name, expects=(), tier='quick', params=None, budget=None, native=None, bounds=''):
        self.fn = fn; self.name = name; self.expects = list(expects); self.tier = tier
        self.params = params or {}; self.budget = budget; self.native = native; self.bounds = bounds

class Registry:
    def __init__(self): self.cases = []
REG = Registry()

def case(name=None, expects=(), tier='quick', over=None, budget=None, native=None, bounds='', each_witness=False):
    """register a case; `over` = list of parameter dicts (one case each)"""
    def d(f):
        n = name or f.__name__
        if over is None:
            REG.cases.append(Case(f, n, expects, tier, {}, budget, native, bounds))
        else:
            for i, p in enumerate(over):
                p = dict(p)
                t = p.pop('_tier', tier)
                ex = p.pop('_expects', expects)
                nm = p.pop('_name', None) or ','.join(f'{k}={v}' for k, v in p.items())
                REG.cases.append(Case(f, f'{n}[{nm}]', ex, t, p, budget, native, bounds))
        return f
    return d

class H:
    """what a case sees"""
    def __init__(self, it, ctx, case, known, tier, native_on):
        self.it = it; self.ctx = ctx; self.case = case; self.known = known; self.tier = tier
        self.native_on = native_on
    # --- symbolic inputs
    def int(self, name, t='u64', lo=None, hi=None):
        from .values import INT
        v = self.ctx.fresh(name)
        l, h = INT[t]
        l = l if lo is None else lo; h = h if hi is None else hi
        if is_sym(v): self.ctx.add(z3.And(v >= l, v <= h))
        return Int(v, t)
    def bool(self, name): return self.ctx.fresh(name, 'bool')
    def str(self, name): 
        v = self.ctx.fresh(name, 'str')
        return SymStr(v) if is_sym(v) else v
    def choose(self, n, label=''): return self.ctx.choose(n, label)
    def pick(self, xs, label=''):
        xs = list(xs); return xs[self.ctx.choose(len(xs), label)]
    def flip(self, label=''): return self.ctx.choose(2, label) == 1
    # --- obligations
    def check(self, cond, msg, key=None, info=None):
        k = key or msg
        try:
            self.ctx.check(cond, msg, info)
        except Violation as v:
            v.key = k
            if k in self.known:
                self.ctx.stats.known[k] = self.ctx.stats.known.get(k, 0) + 1
                # go on with the executions that satisfy it
                self.ctx.assume(cond if not isinstance(cond, bool) else cond)
                return
            raise
        if not isinstance(cond, bool): self.ctx.add(cond)
    def fail(self, msg, key=None, info=None): self.check(False, msg, key, info)
    def assume(self, c): self.ctx.assume(c)
    def wit(self, name): self.ctx.witness(name)
    def sample(self, **kw):
        if len(self.ctx.stats.samples) < 3: self.ctx.stats.samples.append({k: show(v) for k, v in kw.items()})
    def replayable(self, op, build):
        """build(val) -> (args, expected) where val(x) concretises a value under the path's model"""
        self.ctx.user['native'] = (op, build)

def show(v):
    s = repr(v); return s if len(s) < 400 else s[:400] + '…'

class Model:
    """concretise engine values under a model"""
    def __init__(self, m): self.m = m
    def term(self, x):
        if not z3.is_expr(x): return x
        r = self.m.eval(x, model_completion=True)
        if z3.is_int_value(r): return r.as_long()
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        if z3.is_string_value(r): return zstr(r)
        if z3.is_rational_value(r): return float(r.as_fraction())
        return str(r)
    def __call__(self, v):
        v = deref(v); t = type(v)
        if t is Int: return self.term(v.v)
        if z3.is_expr(v): return self.term(v)
        if t is SymStr: return self.term(v.e)
        if t is Text: return ''.join(str(self(p)) if not isinstance(p, str) else p for p in v.p)
        if t is Tup: return [self(x) for x in v.a]
        if t is Vec: return [self(x) for x in v.a]
        if t is Map: return [self(x[0]) for x in v.e] if v.set else [[self(x[0]), self(x[1])] for x in v.e]
        if t is Char: return v.c if isinstance(v.c, str) else chr(self.term(v.c))
        if t is Enum:
            if v.ty == 'Option': return None if v.var == 'None' else self(v.f['0'])
            if not v.f: return v.var
            return {v.var: [self(x) for x in v.f.values()] if all(k.isdigit() for k in v.f) else {k: self(x) for k, x in v.f.items()}}
        if t is Struct: return {k: self(x) for k, x in v.f.items()}
        if isinstance(v, list): return [self(x) for x in v]
        if isinstance(v, dict): return {k: self(x) for k, x in v.items()}
        if isinstance(v, (str, bool, int, float)) or v is None: return v
        return repr(v)

def zstr(r):
    s = r.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)

def jsonable(x):
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None: return x
    if isinstance(x, float): return x if x == x and abs(x) != float('inf') else repr(x)
    return repr(x)

class CStats(Stats):
    def __init__(self): Stats.__init__(self); self.known = {}; self.natives = []
    def merge(self, o):
        Stats.merge(self, o)
        for k, v in o.known.items(): self.known[k] = self.known.get(k, 0) + v
        self.natives += o.natives

def run_case(prog, cs, known, tier, deadline, native_cap=40, bind=None, choices=None, only=False):
    from .interp import Interp
    st = CStats(); out = {'case': cs.name, 'violations': [], 'error': None}
    t0 = time.time()
    def body(ctx):
        ctx.bind = bind
        it = Interp(prog)
        h = H(it, ctx, cs, known, tier, True)
        try:
            cs.fn(h, **cs.params)
            k = ctx.user.get('native')
            if k and len(st.natives) < native_cap and bind is None:
                op, build = k
                m = Model(ctx.model())
                st.natives.append([op] + [jsonable(x) for x in build(m)] + [cs.name])
        except (Panic, LoopBound) as p:
            if isinstance(p, LoopBound): p = Panic('a loop does not come to an end (' + str(p) + ')')
            key = 'panic: ' + str(p.msg)
            v = Violation(f'the code panics: {p.msg}', None); v.key = key
            if key in known or 'panic' in known:
                st.known[key] = st.known.get(key, 0) + 1; raise PathEnd()
            if not ctx.sat(): raise PathEnd()
            v.model = ctx.solver.model()
            raise v
    def on_v(v):
        ctx = v.ctx
        vals = {}
        for n, t in ctx.vars.items():
            if not z3.is_expr(t): continue
            try: vals[n] = Model(v.model).term(t)
            except Exception: vals[n] = str(v.model.eval(t, model_completion=True))
        d = {'case': cs.name, 'message': v.msg, 'key': getattr(v, 'key', v.msg), 'inputs': jsonable(vals),
             'choices': [[l, c] for l, c in ctx.log], 'trace': [t[0] for t in ctx.trace], 'events': [show(e) for e in ctx.events[-40:]]}
        if v.info is not None:
            try: d['detail'] = jsonable(v.info(Model(v.model)) if callable(v.info) else Model(v.model)(v.info))
            except Exception as e: d['detail'] = f'({e})'
        k = ctx.user.get('native')
        if k:
            try:
                op, build = k
                d['native'] = [op] + [jsonable(x) for x in build(Model(v.model))]
            except Exception as e: d['native_error'] = repr(e)
        out['violations'].append(d)
        return True
    try:
        explore(body, st, deadline=deadline, on_violation=on_v)
    except Unsupported as e:
        out['error'] = f'{e}'; out['tb'] = traceback.format_exc()[-3000:]
    except (Panic,) as e:
        out['error'] = f'panic outside a path: {e.msg}'
    except RecursionError:
        out['error'] = 'recursion limit'
    except Exception as e:
        out['error'] = f'internal: {type(e).__name__}: {e}'; out['tb'] = traceback.format_exc()[-3000:]
    if not out['violations'] and out['error'] is None:
        miss = [w for w in cs.expects if not st.witness.get(w)]
        if miss: out['error'] = f'vacuity witness not reached: {miss}'
    out['stats'] = st; out['wall'] = time.time() - t0
    return out

def reexecute(prog, cs, viol, known, tier, deadline):
    """run the real source once more with every symbolic input fixed to the counterexample's value"""
    from .interp import Interp
    st = CStats(); res = {'hit': None}
    pre = [[c, []] for c in viol['trace']]
    # fixed inputs: branches collapse, so replay only the nondeterministic choices, in order
    chosen = [c for _, c in viol['choices']]
    ctx = Ctx([], st); ctx.deadline = deadline
    ctx.bind = viol['inputs']; ctx.force = list(chosen)
    try:
        it = Interp(prog)
        cs.fn(H(it, ctx, cs, known, tier, False), **cs.params)
    except Violation as v: return True, v.msg
    except Panic as p: return True, f'panic: {p.msg}'
    except LoopBound as e: return True, f'{e}'
    except PathEnd: return False, 'path infeasible with the fixed inputs'
    except Unsupported as e: return None, f'{e}'
    except Exception as e: return None, f'{type(e).__name__}: {e}'
    return False, 'no violation with the fixed inputs'

_W = {}
def _worker(a):
    i, deadline = a
    cs = _W['cases'][i]
    dl = deadline
    if cs.budget: dl = min(dl, time.time() + cs.budget)
    r = {}
    def go():
        o = run_case(_W['prog'], cs, _W['known'], _W['tier'], dl)
        for v in o['violations']:
            hit, why = reexecute(_W['prog'], cs, v, _W['known'], _W['tier'], time.time() + 120)
            v['reexecuted'] = hit; v['reexecution'] = why
        r['o'] = o
    th = threading.Thread(target=go); th.start(); th.join()
    o = r.get('o') or {'case': cs.name, 'violations': [], 'error': 'worker died', 'stats': CStats(), 'wall': 0}
    return i, o

def load_known(prop):
    f = os.path.join(VERIF, 'known-findings.json')
    out = {}
    if os.path.exists(f):
        for e in json.load(open(f)):
            if e['property'] == prop and e.get('status') == 'known': out[e['key']] = e['what']
    return out

def native_build(group, log):
    """compile the native replay binary of a group (native/<group>/main.rs, first line: // member: <crate of /opt/vp/ws whose dependencies it uses>)
    against /repo's current tree; returns path or None"""
    src = os.path.join(VERIF, 'native', group, 'main.rs')
    if not os.path.isfile(src): return None
    env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2024-12-30', HOME='/root'); env.pop('RUSTFLAGS', None)
    member = open(src).readline().split('member:')[1].split()[0]
    out = os.path.join(VERIF, '.work', 'native'); os.makedirs(out, exist_ok=True)
    binp = os.path.join(out, group)
    try:
        fl = subprocess.run([sys.executable, os.path.join(VERIF, 'native', 'externs.py'), member], capture_output=True, text=True, timeout=60)
        if fl.returncode != 0:
            log.append('native build: no compiled dependencies: ' + fl.stderr[-300:]); return None
        text = open(src).read()
        if REPO != '/repo': text = text.replace('"/repo/', '"%s/' % REPO)
        tmp = os.path.join(out, group + '.rs'); open(tmp, 'w').write(text)
        p = subprocess.run(['rustc', '--edition=2021', '--crate-type=bin', '--crate-name=' + group, '-Cdebuginfo=0', '-Copt-level=0', '-Awarnings', '-o', binp, tmp] + fl.stdout.split(),
                           env=env, capture_output=True, text=True, timeout=400, cwd=out)
    except subprocess.TimeoutExpired:
        log.append('native build timed out'); return None
    if p.returncode != 0:
        log.append('native build failed: ' + p.stderr[-1500:]); return None
    return binp

def native_run(binary, reqs, timeout=120):
    """reqs: list of [op, args]; returns list of results (JSON) or raises"""
    inp = '\n'.join(json.dumps({'op': r[0], 'args': r[1]}) for r in reqs) + '\n'
    d = '/tmp/verif_native_%d' % os.getpid()
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([binary], input=inp, capture_output=True, text=True, timeout=timeout, cwd=d)
    finally:
        subprocess.run(['rm', '-rf', d])
    outs = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
    return outs, p

def agrees(got, exp):
    """got: native {'ok':..}|{'panic':..}; exp: engine's"""
    if isinstance(exp, dict) and 'panic' in exp: return isinstance(got, dict) and 'panic' in got
    return got == exp or json.dumps(got, sort_keys=True) == json.dumps(exp, sort_keys=True)

def main(prop, modname, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 800 if tier == 'quick' else 3300
    if os.environ.get('VERIF_TIER') == 'quick': budget = 800
    deadline = t0 + budget
    known = load_known(prop)
    from .program import Program
    from . import interp, stdlib, symchars
    REG.cases.clear()
    mod = importlib.import_module('checks.' + modname)
    cases = [c for c in REG.cases if tier == 'thorough' or c.tier == 'quick']
    if os.environ.get('CASE'): cases = [c for c in cases if os.environ['CASE'] in c.name]
    try:
        prog = Program(REPO)
    except Exception as e:
        traceback.print_exc(); print('ERROR cannot read the sources:', e); return 2
    _W.update(cases=cases, prog=prog, known=known, tier=tier)
    results = []
    n = int(os.environ.get('JOBS', '8'))
    order = sorted(range(len(cases)), key=lambda i: -(cases[i].budget or 0))
    if n == 1 or len(cases) == 1:
        for i in order: results.append(_worker((i, deadline)))
    else:
        with mp.get_context('fork').Pool(min(n, len(cases)), maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(_worker, [(i, deadline) for i in order], chunksize=1):
                results.append(r)
    results.sort(key=lambda r: r[0])
    results = [r[1] for r in results]
    st = CStats()
    for r in results: st.merge(r['stats'])
    # extra (non-path) checks a module may define
    post = getattr(mod, 'post', None)
    errors = [(r['case'], r['error']) for r in results if r['error']]
    viols = [v for r in results for v in r['violations']]
    log = []
    validated = 0; native_status = 'none'
    group = getattr(mod, 'NATIVE', None)
    if group and st.natives and not os.environ.get('NO_NATIVE'):
        b = native_build(group, log)
        if b is None: native_status = 'not built'
        else:
            native_status = 'built'
            try:
                outs, p = native_run(b, st.natives)
                if len(outs) != len(st.natives): log.append(f'native runner answered {len(outs)} of {len(st.natives)}: {p.stderr[-600:]}')
                for rq, got in zip(st.natives, outs):
                    if agrees(got, rq[2]): validated += 1
                    else: 
                        errors.append((rq[3], f'engine and real code disagree on {rq[0]} {json.dumps(rq[1])[:600]}: engine {json.dumps(rq[2])[:400]}, real code {json.dumps(got)[:400]}'))
            except Exception as e: log.append(f'native run failed: {e!r}')
        # counterexamples
    if group and any(v.get('native') for v in viols) and not os.environ.get('NO_NATIVE'):
        b = native_build(group, log)
        if b:
            vs = [v for v in viols if v.get('native')]
            try:
                for v in vs:
                    outs, p = native_run(b, [v['native']])
                    v['native_result'] = outs[0] if outs else {'died': p.returncode}
                    v['native_confirms'] = agrees(v['native_result'], v['native'][2])
            except Exception as e: log.append(f'native replay failed: {e!r}')
    status = 0
    confirmed = []
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, '.work', 'replay'); os.makedirs(rdir, exist_ok=True)
    for v in viols:
        if v['reexecuted'] is True and v.get('native_confirms') is not False: confirmed.append(v)
        else: errors.append((v['case'], f'counterexample does not reproduce: {v["message"]} ({v["reexecution"]}; native {v.get("native_result")} vs {v.get("native", [0,0,0])[2]})'))
    for k, c in sorted(st.known.items()):
        print(f'KNOWN-FINDING: property={prop} {known.get(k, k)} [{c} paths]')
    paths = []
    for i, v in enumerate(confirmed[:20]):
        p = os.path.join(rdir, f'{prop}-{i}.json'); json.dump(v, open(p, 'w'), indent=1); paths.append(p)
        print(f'  case {v["case"]}: {v["message"]}'); print('  inputs:', json.dumps(v['inputs'])[:600], 'choices:', v['choices'][:30])
        if v.get('detail'): print('  detail:', json.dumps(v['detail'])[:1500])
    if confirmed:
        status = 1
        print(f'VIOLATION property={prop} replay={paths[0]}')
    elif errors:
        status = 2
    for c, e in errors[:10]: print(f'ERROR {c}: {e}')
    if errors and os.environ.get('TB'):
        for r in results:
            if r.get('tb'): print(r['case'], r['tb'])
    for l in log: print('LOG', l)
    cov = {'states': st.paths, 'transitions': st.branches, 'traces_validated_against_impl': validated,
           'samples': st.samples[:8] or [{'case': c.name} for c in cases[:3]],
           'obligations': st.obligations, 'solver_queries': st.queries, 'solver_s': round(st.solver_s, 2),
           'functions_encoded': sorted(st.functions), 'cases': len(cases), 'paths_cut_by_assumptions': st.cut, 'paths_at_bound': st.bounded,
           'witnesses': st.witness, 'bounds': getattr(mod, 'BOUNDS', ''), 'environment_models': getattr(mod, 'MODELS', ''), 'native': native_status,
           'known_findings_hit': st.known}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'violations': [{'message': v['message'], 'replay': p} for v, p in zip(confirmed, paths)], 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {"held" if status == 0 else "VIOLATED" if status == 1 else "NO ANSWER"}; {len(cases)} cases, {st.paths} paths, {st.branches} branches, {st.obligations} obligations, {st.queries} queries, solver {st.solver_s:.1f}s, native-validated {validated}/{len(st.natives)}, wall {time.time()-t0:.1f}s')
    if os.environ.get('V'):
        for r in results: print(f"   {r['wall']:.1f}s {r['case']} paths={r['stats'].paths} wit={dict(r['stats'].witness)}")
    return status
