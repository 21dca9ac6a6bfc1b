import math, os
from props.util import *
from props import c07
CASE_TIMEOUT = 60
PRES = ['cumulative', 'differential']

def pfn(f): return c07.fn({'kind': 'random', 'name': '', 'fn': f})
def pd(p): return {k: p[k] for k in ('d', 'y', 'err', 'n', 'n_event', 'bin_range')}

def drive(c):
    import craterstats as cst, numpy as np
    i = c['in']; pf = pfn(i['fn'])
    if c['ev'] == 'fit' or (c['ev'] == 'empty' and i['how'] == 'direct'):
        A = lambda k, s=1.: {'presentation': i['pres'], 'd': np.array(i['d']), 'y': np.array(i['y']) * s, 'err': np.array(i['err']) * s}
        o = {'a0': pf.fit(A('y')), 'scaled': pf.fit(A('y', i['scale']))}
        if len(i['d']) == 1: o['single'] = pf.fit({'presentation': i['pres'], 'd': i['d'][0], 'y': i['y'][0], 'err': i['err'][0]})
        return o
    f = write_count('t', i)
    new = lambda: cst.Cratercount(f)
    rng = list(i['range'])
    if c['ev'] == 'resurf':
        b = i['style']
        p0, p1 = new().getplotdata('cumulative', b, range=rng), new().getplotdata('cumulative', b, range=rng, resurfacing=1, pf=pf)
        cc = new(); cc.apply_binning(b) if not cc.prebinned else None
        return {'p0': pd(p0), 'p1': pd(p1), 'adj': cc.resurf_adj(pf, rng), 'u': pd(new().getplotdata('cumulative', b)),
                'pall': pd(new().getplotdata('cumulative', b, range=rng, resurfacing=1, showall=1, pf=pf))}
    cps = cst.Craterplotset({'presentation': 'cumulative', 'ref_diameter': repr(i['refd'])}); cps.pf, cps.cf = pf, make_cf(i['chron'])
    cp = cst.Craterplot({'source': f, 'type': i['type'], 'binning': i['style'], 'range': [repr(x) for x in i['range']], 'snap': 0, 'resurf': i['resurf']})
    cp.calculate_age(cps)
    pres = 'cumulative' if i['type'] == 'c-fit' else 'differential'
    cc = new()
    p = cc.getplotdata(pres, i['style'], range=list(cp.range), resurfacing=1 if i['resurf'] and i['type'] == 'c-fit' else 0, pf=pf)
    return {'a0': cp.a0, 't': cp.t, 'n': cp.n, 'n_event': cp.n_event, 'n_d': cp.n_d, 'bin_range': cp.bin_range, 'p': dict(pd(p), pres=pres)}

def run(ctx):
    ctx.mc_bg('FitMC', ctx.scale('FitMC.cfg', 'FitMC_big.cfg'), min_states=500)
    r = ctx.rng; cases = []
    def rfn(tab=True):
        if tab and r.random() < .25:
            n = 30; h = sorted((float(f'{10 ** -(j * .45) * r.uniform(1e-3, 1e-1):.4g}') for j in range(n)), reverse=True)
            return dict(type='tabular', coef=[], range=[], h=h, i1=14)
        c = list(r.choice(COEFS)) if r.random() < .6 else [round(r.uniform(-5, -1), 4), round(r.uniform(-3.5, -1.5), 4)]
        return dict(type='polynomial', coef=c, range=[], h=[], i1=0)
    def val(f, pres, a0, d):
        x = math.log10(d)
        if f['type'] == 'tabular': return None
        p = [a0] + f['coef'][1:]; C = 10 ** sum(a * x ** k for k, a in enumerate(p))
        return C if pres == 'cumulative' else -C * sum(k * a * x ** (k - 1) for k, a in enumerate(p) if k) / d
    for n in range(ctx.scale(250, 4000)):
        f, pres = rfn(), r.choice(PRES)
        m = r.choice([1, 1, 2, 3, 8, 20]); d = sorted(10 ** r.uniform(-1.8, 1.8) for _ in range(m)); a0 = r.uniform(-7, 1)
        if f['type'] == 'polynomial' and len(f['coef']) == 3: d = [x for x in d if x > .1] or [1.]   # -3.5,-0.2: fine above
        y = [val(f, pres, a0, x) for x in d]
        exact = None
        if y[0] is None: y = [10 ** r.uniform(-6, 0) for _ in d]
        elif r.random() < .4: exact = a0
        else: y = [v * 10 ** r.gauss(0, .3) for v in y]
        err = [v / math.sqrt(r.randrange(1, 60)) * r.choice([1, 1, 1, 1.2, .8]) for v in y]
        cases.append({'ev': 'fit', 'in': dict(fn=f, pres=pres, d=d, y=y, err=err, exact=exact, scale=10 ** r.uniform(-3, 3))})
    for pres in PRES:
        cases.append({'ev': 'empty', 'in': dict(how='direct', fn=rfn(), pres=pres, d=[], y=[], err=[], exact=None, scale=2.)})
    for n in range(ctx.scale(260, 3000)):
        f = rfn(tab=False)
        cnt = random_count(r, nmax=r.choice([2, 5, 30, 120]), lo=-1.8, span=1.8, frac=r.random() < .3)
        # areas small enough that densities (and the 1e-4 stopping rule) matter, and large ones
        cnt['area'] = float(f'{10 ** r.uniform(-3, 5):.4g}') if cnt['kind'] != 'scc' else cnt['area']
        style = r.choice(STYLES if cnt['kind'] != 'stat' else ['pseudo-log'])
        ds = cnt['diam'] or [x[0] for x in cnt['rows']]
        lo = r.choice([0., 0., min(ds) * .5, r.choice(ds) * .7]); hi = r.choice([float('inf'), max(ds) * 1.6, r.choice(ds) * 2.])
        if cnt['kind'] == 'stat': hi = r.choice([float('inf'), max(ds) * 10]); lo = min(lo, min(ds))
        if not any(lo * 1.42 < d < hi / 1.5 for d in ds): lo, hi = 0., float('inf')
        base = dict(cnt, fn=f, style=style, range=[lo, hi])
        which = r.choice(['resurf', 'age', 'age'])
        typ = r.choice(['c-fit', 'd-fit'])
        if typ == 'd-fit' and which == 'age' and style == 'none': style = base['style'] = 'pseudo-log'
        if which == 'resurf': cases.append({'ev': 'resurf', 'in': base})
        else: cases.append({'ev': 'age', 'in': dict(base, type=typ, resurf=r.choice([0, 1]), chron=r.choice(CHRONS), refd=r.choice([1., .5, 10.]))})
        if n % 8 == 0:
            far = [max(ds) * 100, max(ds) * 200]
            cases.append({'ev': 'empty', 'in': dict(base, range=far, how='age', type=typ, resurf=r.choice([0, 1]), chron=CHRONS[0], refd=1.)})
    ev = ctx.drive('c08', cases)
    ctx.validate('T08', ev)
    ctx.need(LeastSquares=250, StatedErrors=250, RecoversIsochron=40, LargestAgreesWithFit=40, EmptyRefused=10, AgeOfConstant=80)
