import os, sys, math, json, mmap, signal, time, glob, shutil
from props.ra import *
CASE_TIMEOUT = 200
class Note:
    """what a run has begun, in memory shared with the process that may be killed"""
    def __init__(self): self.m = mmap.mmap(-1, 4096); self.set([], 'before')
    def set(self, order, phase): self.order, self.phase = order, phase; b = json.dumps([order, phase]).encode(); self.m[:len(b) + 1] = b + b'\0'
    def get(self): return json.loads(self.m[:self.m.find(b'\0')])
def dump(ra, stats):
    return [dict(measure=m, T=q['n_trials'], bins=[dict(key=b, list=[float(x) for x in v], **({'m0': float(q['stats'][b].m0)} if stats else {})) for b, v in q['trials'].items()]) for m, q in ra.montecarlo.items()]
def crash_hooks(crash, note, base):
    import resource
    def strike():
        if crash['mode'] == 'kill': os._exit(9)
        raise KeyboardInterrupt
    M = module()
    if crash['at'] == 'file':
        n = [0]
        def hook(ev, args):
            w = (ev == 'open' and isinstance(args[0], str) and isinstance(args[2], int) and args[2] & 3) or ev in ('os.rename', 'os.remove', 'os.truncate')
            if w and os.path.realpath(args[0]).startswith(base):
                n[0] += 1
                if n[0] == crash['k']: strike()
        sys.addaudithook(hook)
    elif crash['at'] == 'trial' and hasattr(M, 'sprinkle_discs_pp'):
        f = M.sprinkle_discs_pp; n = [0]
        def sprinkle(*a, **k):
            n[0] += 1
            if n[0] == crash['k']: strike()
            return f(*a, **k)
        M.sprinkle_discs_pp = sprinkle
    elif crash['at'] == 'bytes':
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if crash['mode'] == 'kill' else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (crash['k'], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
def run_step(i, a, note, res):
    """in a process of its own"""
    import resource, craterstats as cst
    from props import clirun
    RA = cst.Randomnessanalysis; seen = []; f = RA.run_montecarlo
    def run_montecarlo(self, trials, measure):
        seen[:] = [self]; note.set(note.order + [measure], 'computing'); r = f(self, trials, measure); note.set(note.order, 'computed'); return r
    RA.run_montecarlo = run_montecarlo
    if a['crash']['mode'] != 'none': crash_hooks(a['crash'], note, os.getcwd())
    args = ['-ra', i['source'], '-trials', str(a['T'])] + (['-measure', a['measure_arg']] if a['measure_arg'] else []) + (['-o', a['out']] if a['out'] else []) + (['-select', '0'] if a['select'] else [])
    r = clirun.main(args)
    if a['crash']['mode'] != 'none':
        if a['crash']['at'] == 'file': a['crash']['k'] = 10 ** 9
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
        if a['crash']['at'] == 'trial': a['crash']['k'] = 10 ** 9
    out = {'exit': r['exit'], 'msg': r['msg']}
    if not r['exit'] and seen:
        out['mem'] = dump(seen[0], True)
        out['back'] = dump(RA(i['source'], out=a['place'][:-len('_ra.txt')]), False)
        k = cst.Cratercount(i['source'])
        out['count'] = {'n_sigma': [dict(name=str(n), values=[str(x) for x in v]) for n, v in k.n_sigma.items()] if k.n_sigma else [], 'n_trials': [str(x) for x in k.n_trials or []]}
    json.dump(out, open(res, 'w'))
def drive(c):
    import craterstats as cst
    from props import clirun
    i = c['in']; M = module()
    if hasattr(M, 'montecarlo_pp') and hasattr(M, 'montecarlo_serial'): M.montecarlo_pp = M.montecarlo_serial      # same trials (C18) without starting processes
    home = os.getcwd()
    try:
        d = os.path.join(home, 'refs'); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); os.chdir(d)
        write('a', i['R'], i['parts'], list(map(tuple, i['craters']))); refs = []
        for m, T in sorted({(m, s['T']) for s in i['steps'] for m in s['measures']}):
            ra = cst.Randomnessanalysis('a.scc'); ra.run_montecarlo(T, m)
            refs += [dict(measure=m, T=T, bin=b, list=[float(x) for x in v]) for b, v in ra.montecarlo[m]['trials'].items()]
        os.chdir(home); d = os.path.join(home, 'run'); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, 'd')); os.chdir(d)
        write(i['source'][:-4], i['R'], i['parts'], list(map(tuple, i['craters'])))
        steps = []; res = os.path.join(home, 'result.json')
        for a in i['steps']:
            if os.path.exists(res): os.remove(res)
            note = Note(); pid = os.fork()
            if pid == 0:
                code = 1
                try: os.setpgid(0, 0); run_step(i, a, note, res); code = 0
                except BaseException as x:
                    import traceback; open(os.path.join(home, 'err.txt'), 'w').write(traceback.format_exc())
                finally: os._exit(code)
            end = time.time() + 60; st = None
            while time.time() < end:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p: break
                time.sleep(.005)
            else: os.kill(pid, 9); os.waitpid(pid, 0); st = 'timeout'
            try: os.killpg(pid, 9)
            except (ProcessLookupError, PermissionError): pass
            o, ph = note.get()
            r = json.load(open(res)) if os.path.exists(res) and os.path.getsize(res) else {'exit': 'killed', 'msg': str(st)}
            s = {'done': not r['exit'] and 'mem' in r, 'exit': r['exit'], 'msg': str(r['msg'])[:300], 'order': o, 'phase': ph, 'files': []}
            if s['done']: s.update(mem=r['mem'], back=r['back'], count=r['count'])
            for f in sorted(glob.glob('*_ra.txt') + glob.glob('d/*_ra.txt')): s['files'].append({'place': f, 'text': open(f, errors='replace').read()})
            steps.append(s)
        return {'refs': refs, 'steps': steps}
    finally: os.chdir(home)

def case(r):
    parts, c, rho = make_area(r, rho=10 ** r.uniform(-2, -.5), kinds=['plain', 'hole', 'parts'])
    R = r.choice([1737.4, 3396.19, 469.7]); k0 = math.floor(2 * math.log2(.06 * rho * R)) - 8; cr, bins = [], []
    for k in sorted(r.sample(range(k0, k0 + 8), r.choice([1, 2, 2, 3]))):
        n = r.choice([1, 3, 4, 5, 6]); bins.append({'key': key(k), 'n': n})
        cr += [(diam_in(r, k), *at(c, r.uniform(0, 360), rho * .45 * math.sqrt(r.random()))) for _ in range(n)]
    r.shuffle(cr)
    src = r.choice(['a.scc', 'a.scc', 'd/a.scc']); steps = []; ts = sorted(r.sample([3, 4, 6, 9], 3))
    for j in range(r.choice([2, 3, 4, 5])):
        ms = r.choice([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa'], ['m2cnd', 'sdaa']])
        out, place = r.choice([('', 'a_ra.txt')] * 3 + [('x', 'x_ra.txt'), ('x.svg', 'x_ra.txt'), ('d/a', 'd/a_ra.txt')])
        z = r.random(); crash = {'mode': 'none', 'at': '', 'k': 0}
        if z < .6:
            at_ = r.choice(['file', 'file', 'trial', 'trial', 'bytes'])
            crash = {'mode': r.choice(['kill', 'interrupt']), 'at': at_, 'k': {'file': r.randrange(1, 8), 'trial': r.choice([1, r.randrange(1, 12), r.randrange(1, 60)]), 'bytes': r.choice([1, r.randrange(1, 300), r.randrange(1, 1500)])}[at_]}
        steps.append(dict(measures=ms, measure_arg=','.join(r.sample(ms, len(ms))) if len(ms) == 1 or r.random() < .5 else '', T=r.choice(ts), out=out, select=r.random() < .8, place=place, crash=crash))
    steps[-1]['crash'] = {'mode': 'none', 'at': '', 'k': 0}
    return {'ev': 'history', 'in': dict(R=R, parts=parts, craters=cr, bins=bins, source=src, here='a_ra.txt', beside=src[:-4] + '_ra.txt', steps=steps)}
def run(ctx):
    ctx.mc_bg('RaStoreMC', ctx.scale('RaStoreMC.cfg', 'RaStoreMC_big.cfg'), workers=2, min_states=50000)
    ctx.mc_neg_bg('RaStoreMC', 'RaStoreMC_neg.cfg', 'AlwaysWhole')
    r = ctx.rng
    ctx.validate('T21', ctx.drive('c21', [case(r) for _ in range(ctx.scale(160, 2500))]))
    ctx.need(DiskAfterRun=200, DiskAfterLossComputing=30, DiskAfterLoss=40, OneRun=500, Score=200, NoScore=10, ReadsBack=200, CountReads=100)
