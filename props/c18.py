import os, math, threading
from props.ra import *
CASE_TIMEOUT = 150
def scheduled(schedule):
    """A pool whose forked workers take and finish trials in the order of a behaviour of spec/MonteCarlo.tla."""
    import concurrent.futures as cf, multiprocessing as mp, time
    ctx = mp.get_context('fork')
    def child(conn, init, args):
        if init: init(*args)
        while True:
            m = conn.recv()
            if m is None: os._exit(0)
            try: conn.send((True, m[0](*m[1], **m[2])))
            except BaseException as x: conn.send((False, x))
    class Pool(cf.Executor):
        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
            self.init = (initializer, initargs); self.tasks = []; self.cv = threading.Condition(); self.closed = False; self.workers = {}; self.thread = None
        def submit(self, fn, *a, **k):
            f = cf.Future()
            with self.cv:
                self.tasks.append((fn, a, k, f)); n = max(w for _, w, _ in schedule)
                if not self.workers:
                    for w in range(1, n + 1):
                        a_, b_ = ctx.Pipe(); p = ctx.Process(target=child, args=(b_, *self.init), daemon=True); p.start(); self.workers[w] = (a_, p)
                    self.thread = threading.Thread(target=self.play, daemon=True); self.thread.start()
                self.cv.notify_all()
            return f
        def wait_task(self, t, patience):
            with self.cv:
                end = time.time() + patience
                while len(self.tasks) < t and time.time() < end and not (self.closed): self.cv.wait(.05)
                return self.tasks[t - 1] if len(self.tasks) >= t else None
        def play(self):
            T = max(t for _, _, t in schedule); busy = {}; k0 = 0; skipped = []
            def finish(w):
                f = busy.pop(w); ok, x = self.workers[w][0].recv()
                f.set_result(x) if ok else f.set_exception(x)
            while True:
                for what, w, t in schedule:
                    if what == 'start':
                        k = self.wait_task(k0 + t, 600 if (k0, t) == (0, 1) else 3)
                        if k is None: continue
                        self.workers[w][0].send(k[:3]); busy[w] = k[3]
                    elif w in busy: finish(w)
                k0 += T
                if self.wait_task(k0 + 1, .3) is None and self.closed: return
        def shutdown(self, wait=True, **k):
            with self.cv: self.closed = True; self.cv.notify_all()
            if self.thread: self.thread.join(60)
            for c, p in self.workers.values():
                try: c.send(None)
                except OSError: pass
                p.join(5)
    return Pool
def drive(c):
    import craterstats as cst, numpy as np, random, time
    i = c['in']; M = module(); runs = []; saved = {k: getattr(M, k) for k in ('ProcessPoolExecutor', 'run_trial') if hasattr(M, k)}
    try:
        if c['ev'] == 'schedule' and 'ProcessPoolExecutor' in saved: M.ProcessPoolExecutor = scheduled(i['schedule'])
        for s in i['steps']:
            for f in os.listdir('.'): os.remove(f)
            cr = [(d, x, y) for b in s['bins'] for d, x, y in zip(b['diam'], b['lon'], b['lat'])]
            if s['shuffle']: random.Random(s['shuffle']).shuffle(cr)
            write(s['name'], i['R'], i['parts'], cr)
            if s['slow'] and 'run_trial' in saved:
                def run_trial(*a, **k): time.sleep(int.from_bytes(os.urandom(2), 'big') / 65536 * s['slow']); return saved['run_trial'](*a, **k)
                run_trial.__module__ = M.__name__; M.run_trial = run_trial
            ra = cst.Randomnessanalysis(s['name'] + '.scc')
            ra.max_threads = s['workers']
            for m, T in s['measures']:
                if s['seed'] is not None: np.random.seed(s['seed']); random.seed(s['seed'])
                ra.run_montecarlo(T, m)
                for b, q in ra.montecarlo[m]['trials'].items():
                    runs.append(dict(measure=m, bin=b, n=len(ra.get_bin_craters(b, Craterlist=True).diam), trials=T, list=[float(x) for x in q]))
            for k, v in saved.items():
                if k != 'ProcessPoolExecutor': setattr(M, k, v)
    finally:
        for k, v in saved.items(): setattr(M, k, v)
    return {'runs': runs}

class Family:
    """one count: its analysed bins, any selection of which may be in a file"""
    def __init__(self, r, k, T):
        self.k = k
        kinds = r.choice([['plain'], ['hole'], ['parts'], ['box']])
        self.parts, c, rho = make_area(r, rho=10 ** r.uniform(-2.5, -.5), kinds=kinds)
        self.R = r.choice([1737.4, 3396.19, 469.7]); k0 = math.floor(2 * math.log2(.06 * rho * self.R)) - 8; self.bins = []; self.T = T
        for b in sorted(r.sample(range(k0, k0 + 8), 4)):
            n = r.choice([4, 5, 6, 9]); q = [at(c, r.uniform(0, 360), rho * .45 * math.sqrt(r.random())) for _ in range(n)]
            self.bins.append(dict(diam=[diam_in(r, b) for _ in range(n)], lon=[p[0] for p in q], lat=[p[1] for p in q]))
    def step(self, r, measures=None, bins=None):
        T = self.T; b = bins or sorted(r.sample(range(4), r.choice([1, 2, 3])))
        m = measures or r.choice([[['m2cnd', T]], [['sdaa', T]], [['m2cnd', T], ['sdaa', T]], [['sdaa', T], ['m2cnd', T]], [['m2cnd', T // 2], ['m2cnd', T]], [['sdaa', T // 2], ['m2cnd', T], ['sdaa', T]]])
        return dict(name=r.choice(['a', 'b', 'other']), bins=[self.bins[x] for x in b], measures=m, workers=r.choice([1, 2, 3, 4, 5, 8]), shuffle=r.choice([0, r.randrange(1, 99)]), seed=r.choice([None, 0, 42, r.randrange(10 ** 6)]), slow=r.choice([0, 0, .05]))
    def case(self, ev, steps, schedule=None):
        return {'ev': ev, 'in': dict(family=self.k, R=self.R, parts=self.parts, steps=steps, schedule=schedule or [], expect=sum(len(s['bins']) * len(s['measures']) for s in steps))}
def run(ctx):
    ctx.mc_bg('MonteCarloMC', ctx.scale('MonteCarloMC.cfg', 'MonteCarloMC_big.cfg'), workers=2, min_states=5000)
    ctx.mc_neg_bg('MonteCarloMC', 'MonteCarloMC_neg.cfg', 'Distinct')
    ctx.mc_neg_bg('MonteCarloMC', 'MonteCarloMC_neg2.cfg', 'ScheduleFree')
    gen = ctx.generate('MonteCarloGen', ctx.scale('MonteCarloGen.cfg', 'MonteCarloGen_big.cfg'))['schedules']
    r = ctx.rng; gen = [list(map(list, g)) for g in gen]; r.shuffle(gen); T = len(gen[0]) // 2
    cases = []; nf = 8
    fams = [Family(r, k, T) for k in range(nf)]
    for f in fams: cases.append(f.case('run', [f.step(r, [['m2cnd', T], ['sdaa', T]], [0, 1, 2, 3])]))
    for k, g in enumerate(gen):
        f = fams[k % nf]; s = f.step(r, [[r.choice(['m2cnd', 'sdaa']), T]], [k // nf % 4]); s['slow'] = 0; cases.append(f.case('schedule', [s], g))
    long = [Family(r, nf + k, 23) for k in range(ctx.scale(6, 40))]
    for f in long:
        for _ in range(4): cases.append(f.case('run', [f.step(r), f.step(r)]))
    many = Family(r, 1000, ctx.scale(700, 3000)); cases.append(many.case('run', [many.step(r, [[r.choice(['m2cnd', 'sdaa']), many.T]], [r.randrange(4)])]))
    cases[-1]['in']['steps'][0]['workers'] = 8; cases[-1]['in']['steps'][0]['slow'] = 0
    cases.insert(0, cases.pop())
    ctx.validate('T18', ctx.drive('c18', cases), group=lambda e: e['in']['family'])
    ctx.need(SameTrials=300, TrialsDiffer=350, AllAnalysed=270)
