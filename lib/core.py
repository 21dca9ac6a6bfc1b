"""Check runner: TLC model checking, case generation by TLC, driving the real code, trace validation by TLC, evidence."""
import os, sys, json, time, subprocess, shutil, tempfile, re, threading, random, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
EVID = os.path.join(ROOT, 'evidence')
CLASSES = os.path.join(ROOT, 'build', 'classes')
TLA = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
NCPU = 8

class Machinery(Exception): pass
class TlcTimeout(Machinery): pass

def build():
    src = [os.path.join(SPEC, 'java', 'src', f) for f in ('Nums.java', 'VerdictOverrides.java')]
    cls = [os.path.join(CLASSES, f) for f in ('Nums.class', 'VerdictOverrides.class')]
    if all(os.path.exists(c) and os.path.getmtime(c) >= os.path.getmtime(s) for c, s in zip(cls, src)): return
    os.makedirs(CLASSES, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vbuild.')
    try:
        subprocess.run(['javac', '-cp', TLA, '-d', tmp, *src], check=True, capture_output=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(CLASSES, f)) if os.stat(tmp).st_dev == os.stat(CLASSES).st_dev \
                else shutil.copy(os.path.join(tmp, f), os.path.join(CLASSES, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def code_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(HOME='/root', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig',
             PYTHONPATH='/repo/src', LC_ALL='C.UTF-8', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(f'{prop}:{seed}')
        self.dir = tempfile.mkdtemp(prefix=f'verif.{prop}.')
        self.states = self.transitions = self.validated = 0
        self.violations = []       # (clause, event)
        self.samples = []
        self.cov = {}
        self.mc_runs = []
        self.inputs = set()
        self.notes = {}
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(NCPU)
        self.bg = []

    def scale(self, quick, thorough): return thorough if self.thorough else quick

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, timeout=850, workers=1, heap='2g', extra=()):
        work = tempfile.mkdtemp(prefix='tlc.', dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.cfg'): os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        e = dict(os.environ); e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + heap, '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerdictOverrides', '-cp', f'{TLA}:{COMM}:{CLASSES}', 'tlc2.TLC',
               '-config', cfg, '-workers', str(workers), '-deadlock', '-metadir', os.path.join(work, 'meta'), *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcTimeout(f'TLC timeout on {module} {cfg}')
        out = p.stdout + p.stderr
        gen = dist = 0
        mm = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if mm: gen, dist = int(mm[-1][0]), int(mm[-1][1])
        with self.lock:
            self.states += dist; self.transitions += max(gen - 1, 0)
        return p.returncode, out, dist, gen

    def mc(self, module, cfg, workers=2, env=None, min_states=1, timeout=850, extra=()):
        """Exhaustive model check; the specification itself must satisfy its properties."""
        rc, out, dist, gen = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra)
        if rc != 0 or 'No error has been found' not in out:
            raise Machinery(f'model check {module}/{cfg} failed (rc {rc}):\n' + out[-6000:])
        if dist < min_states: raise Machinery(f'model check {module}/{cfg}: only {dist} states')
        with self.lock: self.mc_runs.append({'module': module, 'config': cfg, 'distinct_states': dist, 'generated': gen})

    def mc_neg(self, module, cfg, invariant, workers=2, timeout=850):
        """Negative control: the specification without the mechanism must break the named invariant."""
        rc, out, dist, gen = self.tlc(module, cfg, workers=workers, timeout=timeout)
        if f'Invariant {invariant} is violated' not in out: raise Machinery(f'negative control {module}/{cfg}: {invariant} not violated (rc {rc}):\n' + out[-3000:])
        with self.lock: self.mc_runs.append({'module': module, 'config': cfg, 'negative_control': invariant, 'generated': gen})

    def mc_neg_bg(self, *a, **k):
        self.bg.append(self.pool.submit(self.mc_neg, *a, **k))

    def mc_bg(self, *a, **k):
        self.bg.append(self.pool.submit(self.mc, *a, **k))

    def generate(self, module, cfg, workers=1, env=None, name='gen', timeout=850):
        """Scenarios enumerated by TLC: the module writes them with JsonSerialize to IOEnv.GEN_FILE."""
        f = os.path.join(self.dir, name + '.json')
        rc, out, dist, gen = self.tlc(module, cfg, env=dict(env or {}, GEN_FILE=f), workers=workers, timeout=timeout)
        if rc != 0 or not os.path.exists(f): raise Machinery(f'generation {module}/{cfg} failed (rc {rc}):\n' + out[-6000:])
        return json.load(open(f))

    # ------------------------------------------------------------------ driving the real code
    def drive(self, mod, cases, procs=NCPU, timeout=780, name='drive'):
        for i, c in enumerate(cases): c['id'] = i
        with self.lock:
            for c in cases: self.inputs.add(hashlib.md5(json.dumps([c['ev'], c['in']], sort_keys=True, default=str).encode()).hexdigest())
        procs = max(1, min(procs, len(cases)))
        shards = [cases[k::procs] for k in range(procs)]
        def one(k):
            wd = tempfile.mkdtemp(prefix=f'{name}{k}.', dir=self.dir)
            todo, evs, tries = list(shards[k]), [], 0
            t_end = time.time() + timeout
            while todo:
                cf, of = os.path.join(wd, f'cases{tries}.json'), os.path.join(wd, f'out{tries}.ndjson')
                json.dump(todo, open(cf, 'w'))
                sd = os.path.join(wd, 'w'); os.makedirs(sd, exist_ok=True)
                why = None
                err = open(os.path.join(wd, 'err.txt'), 'w')
                p = subprocess.Popen([PY, os.path.join(ROOT, 'lib', 'worker.py'), mod, cf, of], cwd=sd, env=code_env(),
                                     stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
                try:
                    rc = p.wait(timeout=max(1, t_end - time.time()))
                except subprocess.TimeoutExpired:
                    why = 'Timeout'
                finally:
                    try: os.killpg(p.pid, 9)
                    except ProcessLookupError: pass
                    p.wait()
                got = []
                if os.path.exists(of):
                    for ln in open(of):
                        try: got.append(json.loads(ln))
                        except ValueError: pass
                evs += got
                done = {g['id'] for g in got}
                todo = [c for c in todo if c['id'] not in done]
                if not todo: break
                if why is None:
                    why = 'Crash'
                    if not got and tries == 0 and rc == 1:
                        raise Machinery('driver failed: ' + open(os.path.join(wd, 'err.txt')).read()[-3000:])
                c = todo.pop(0)
                evs.append({'id': c['id'], 'ev': c['ev'], 'in': json.loads(json.dumps(c['in']).replace('null', '"None"')),
                            'exc': why, 'msg': '', 'out': 'None'} | ({'stdout': ''}))
                tries += 1
                if why == 'Timeout' or tries > 4: break
            return evs
        with ThreadPoolExecutor(procs) as ex:
            evs = [e for r in ex.map(one, range(procs)) for e in r]
        evs.sort(key=lambda e: e['id'])
        return evs

    # ------------------------------------------------------------------ trace validation
    def validate(self, module, events, cfg=None, shards=NCPU, group=None, name=None, env=None, timeout=780):
        """TLC checks the events against the specification; stateless traces are cut into shards,
        with `group` (a function event -> key) events of one key stay together, in order."""
        if not events: raise Machinery('no events for ' + module)
        cfg = cfg or module + '.cfg'
        if group:
            keys = {}
            for e in events: keys.setdefault(group(e), []).append(e)
            buckets = [[] for _ in range(min(shards, len(keys)))]
            for k, es in keys.items(): min(buckets, key=len).extend(es)
        else:
            shards = max(1, min(shards, (len(events) + 19) // 20))
            buckets = [events[k::shards] for k in range(shards)]
        def one(k):
            try: return judge(buckets[k], timeout if self.tier == 'thorough' else min(timeout, 330))
            except TlcTimeout:
                if group: raise
                bad = []; cov = {}                       # the evaluator does not come back: event by event
                for e in buckets[k]:
                    try: b, c, _ = judge([e], 20)
                    except TlcTimeout: b, c = [('Unevaluable', e)], {}
                    bad += b
                    for n, x in c.items(): cov[n] = cov.get(n, 0) + x
                    if len(bad) > 3: break
                return bad, cov, len(buckets[k])
        def judge(evs, timeout):
            n0 = len(evs); bad = []; cov = {}
            while evs:
                tf = tempfile.mktemp(prefix='trace.', suffix='.ndjson', dir=self.dir); vf = tf + '.verdict'
                with open(tf, 'w') as f:
                    for e in evs: f.write(json.dumps(e) + '\n')
                rc, out, _, _ = self.tlc(module, cfg, env=dict(env or {}, TRACE_FILE=tf, VERDICT_FILE=vf), timeout=timeout)
                if rc == 0 and os.path.exists(vf):
                    v = json.load(open(vf))
                    if v['n'] != len(evs): raise Machinery('verdict incomplete')
                    for l, n in v['bad']: bad.append((n, evs[l - 1]))
                    for n, c in v['cov'].items() if isinstance(v['cov'], dict) else []: cov[n] = cov.get(n, 0) + c
                    break
                # a recorded value outside the type the specification states: evaluation error at line l
                m = re.findall(r'^/\\ l = (\d+)', out, re.M)
                if os.environ.get('VERIF_DEBUG'): sys.stderr.write(out[-3000:])
                if rc in (75, 76, 77, 12, 13, 11, 10, 255, 151, 150, 1) and m and not group and 'is a value of a wrong type' not in '':
                    l = int(m[-1]);  bad.append(('IllTyped', evs[l - 1]))
                    evs = evs[:l - 1] + evs[l:]
                    if sum(1 for b in bad if b[0] == 'IllTyped') > 3: break
                    continue
                if m and group:
                    l = int(m[-1]); bad.append(('IllTyped', evs[l - 1])); key = group(evs[l - 1])
                    evs = [e for e in evs if group(e) != key]
                    continue
                raise Machinery(f'trace validation {module} failed (rc {rc}):\n' + brief(out))
            return bad, cov, n0
        with ThreadPoolExecutor(NCPU) as ex:
            for bad, cov, n in ex.map(one, range(len(buckets))):
                self.violations += bad
                for k, c in cov.items(): self.cov[k] = self.cov.get(k, 0) + c
        ngroups = len(set(group(e) for e in events)) if group else len(events)
        self.validated += ngroups
        step = max(1, len(events) // 3)
        self.samples += [trim(e) for e in events[::step][:3]]

    def need(self, **clauses):
        """Vacuity guard: each named clause must have been exercised at least n times (unless violations explain it)."""
        if self.violations: return
        for k, n in clauses.items():
            if self.cov.get(k, 0) < n: raise Machinery(f'vacuous: clause {k} checked {self.cov.get(k,0)} < {n} times; {self.cov}')

    def finish(self):
        for f in self.bg: f.result()

def brief(out): return '\n'.join(l for l in out.split('\n') if not re.match(r'Parsing|Semantic|Loading|Linting|Running|TLC2|Computed', l) and l.strip())[-4000:]

def trim(e, n=700):
    s = json.dumps(e)
    return e if len(s) <= n else s[:n] + '...'

def run_property(prop, tier, seed, assumptions=()):
    import importlib
    ctx = Ctx(prop, tier, seed)
    try:
        build()
        m = importlib.import_module('props.' + prop.lower())
        m.run(ctx)
        ctx.finish()
        return report(ctx, m)
    finally:
        ctx.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(ctx.dir, ignore_errors=True)

def known_findings(prop):
    f = os.path.join(ROOT, 'KNOWN_FINDINGS.txt'); res = []
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r'known:\s+property=(\S+)\s+clause=(\S+)\s+match=(\S+)\s*(.*)', ln)
            if m and m[1] == prop: res.append((m[2], m[3], m[4]))
    return res

def report(ctx, m):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    known = known_findings(ctx.prop)
    reported, hit = [], {}
    for clause, ev in ctx.violations:
        k = next((k for k in known if k[0] == clause and all(x in json.dumps(ev) for x in k[1].split('&&'))), None)
        if k: hit[k] = hit.get(k, 0) + 1
        else: reported.append((clause, ev))
    for k in known:
        if k in hit: print(f'KNOWN-FINDING: property={ctx.prop} {k[0]} {k[2]} ({hit[k]} events)')
    first = {}
    for clause, ev in reported: first.setdefault(clause, (ev, 0)); first[clause] = (first[clause][0], first[clause][1] + 1)
    for n, (clause, (ev, cnt)) in enumerate(sorted(first.items())):
        path = os.path.join('evidence', 'replay', f'{ctx.prop}_{clause}.json')
        json.dump({'property': ctx.prop, 'clause': clause, 'events': cnt, 'module': m.__name__, 'event': ev}, open(os.path.join(ROOT, path), 'w'), indent=1)
        print(f'clause {clause}: {cnt} events, first: {json.dumps(trim(ev, 1200))[:1300]}')
        print(f'VIOLATION property={ctx.prop} replay={path}')
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.validated,
           'evaluations': sum(ctx.cov.values()), 'distinct_inputs': len(ctx.inputs),
           'samples': ctx.samples[:6], 'clauses': dict(sorted(ctx.cov.items())), 'model_checks': ctx.mc_runs}
    cov.update(ctx.notes)
    json.dump({'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': getattr(m, 'LEVEL', 'model_checking'), 'coverage': cov,
               'assumptions': list(getattr(m, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(reported)},
              open(os.path.join(EVID, ctx.prop + '.json'), 'w'), indent=1)
    print(f'{ctx.prop} {ctx.tier}: {ctx.states} states, {ctx.validated} traces validated, {sum(ctx.cov.values())} clause evaluations, '
          f'{len(reported)} violations, {time.time()-ctx.t0:.1f}s')
    return 1 if reported else 0
