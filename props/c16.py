import math, os
from props.util import *
from props import clirun
CASE_TIMEOUT = 60
KEYS = dict(hide=0, type='data', resurf=0, resurf_showall=0)

def ra_file(name):
    with open(name + '_ra.txt', 'w') as f:
        f.write('n_sigma = {bin, m2cnd\n -6 -0.5\n -5 1.2\n}\nm2cnd = {\n n_trials = 300\n}\n')

def make(i, cst, plots):
    cps = cst.Craterplotset({'presentation': i['pres'], 'legend': ''}); cps.pf, cps.cf = make_pf(i['coef']), make_cf(CHRONS[0])
    cps.craterplot = []
    for p in plots:
        d = {k: p[k] for k in ('type', 'hide', 'binning', 'snap', 'resurf', 'resurf_showall')}
        cps.craterplot.append(cst.Craterplot(dict(d, source=p['file'], range=list(p['range']))))
    return cps

def drive(c):
    import craterstats as cst, numpy as np, craterstats.gm as gm
    i = c['in']
    if c['ev'] == 'ticks': 
        t = [float(x) for x in gm.ticks([float(i['lo']), float(i['hi'])], i['n'])]; t2, m = gm.ticks([float(i['lo']), float(i['hi'])], i['n'], i['minor'])
        return {'t': t, 'minor': int(m), 'same': t == [float(x) for x in t2]}
    clirun.fresh()
    for n, s in enumerate(i['counts']): write_count(f'c{n}', s)
    if c['ev'] == 'axes':
        args = []
        for a in i['args']: args += a
        def go(args):
            r = clirun.main(args)
            if r['exit'] or not r['figs']: return None
            return r['figs'][0]['fig']['axes'][0]
        a = go(args)
        if a is None: return {'ok': False}
        b = go(i['args2'] and [x for y in i['args2'] for x in y]) if i['args2'] else a
        pts = [{'x': l['x'], 'y': l['y']} for l in a['lines'] if l['marker'] not in ('None', '', 'none')]
        return {'ok': b is not None, 'xlim': a['xlim'], 'ylim': a['ylim'], 'pts': pts, 'xlim2': b['xlim'], 'ylim2': b['ylim']}
    if i['nsigma']: ra_file('c0')
    cps = make(i, cst, i['plots'])
    P = []
    for cp in cps.craterplot:
        if cp.binning == 'none' and i['pres'] != 'cumulative': P.append({'d': [], 'y': []}); continue
        try: p = cp.cratercount.getplotdata(i['pres'], cp.binning, range=cp.range, resurfacing=1 if cp.resurf and cp.type == 'c-fit' else 0, showall=cp.resurf_showall, pf=cps.pf)
        except ValueError:      # no correction exists (data too far from the production function): nothing to plot
            if not (cp.resurf and cp.type == 'c-fit'): raise
            p = {'d': [], 'y': []}
        P.append({'d': p['d'], 'y': p['y']})
    def auto(plots=None, **k):
        s = cps if plots is None else make(i, cst, plots)
        s.autoscale(**k)
        return [float(v) for v in s.xrange], [float(v) for v in s.yrange]
    x, y = auto()
    xr, yr = auto([i['plots'][k] for k in i['perm']])
    xu, yu = auto(xrange=i['ux'], yrange=i['uy'])
    xux, yux = auto(xrange=i['ux'])
    xuy, yuy = auto(yrange=[str(v) for v in i['uy']])
    return dict(p=P, x=x, y=y, xrev=xr, yrev=yr, xu=xu, yu=yu, xux=xux, yux=yux, xuy=xuy, yuy=yuy)

def run(ctx):
    ctx.mc_bg('AutoscaleMC', ctx.scale('AutoscaleMC.cfg', 'AutoscaleMC_big.cfg'), min_states=3000)
    r = ctx.rng; cases = []
    def counts(n):
        S = []
        for _ in range(n):
            q = r.random()
            if q < .35:      # a few craters far apart or at a decade boundary
                d = [float(f'{10 ** r.choice([r.uniform(-3, 3), r.randrange(-3, 3), r.randrange(-3, 3) + .3, r.randrange(-3, 3) + .2]):.9g}') for _ in range(r.choice([1, 1, 2, 4]))]
                S.append({'kind': 'diam', 'diam': d, 'frac': [1.] * len(d), 'area': float(f'{10 ** r.choice([r.uniform(-3, 6), r.randrange(-3, 6)]):.6g}'), 'perimeter': None, 'rows': []})
            else: S.append(random_count(r, lo=r.uniform(-3, 1), span=r.choice([.5, 1, 3])))
        return S
    for k in range(ctx.scale(700, 8000)):
        n = r.choice([1, 1, 2, 2, 3, 5]); S = counts(n)
        plots = []
        for m, s in enumerate(S):
            f = f'c{m}.' + s['kind']
            lo = 10 ** r.uniform(-3, 2)
            rng = r.choice([['0', 'inf']] * 4 + [[repr(lo), repr(lo * 10 ** r.uniform(.05, 2))], [repr(lo), 'inf'], ['0', repr(lo)]])
            plots.append(dict(file=f, type=r.choice(['data', 'data', 'c-fit', 'poisson', 'd-fit']), hide=int(r.random() < .12), snap=int(r.random() < .6),
                              binning=r.choice(STYLES if r.random() < .5 and s['kind'] != 'stat' else STYLES[:-1]), range=rng, resurf=int(r.random() < .25), resurf_showall=int(r.random() < .3)))
        if k % 8 == 0:      # dense small craters: a correction for resurfacing moves the points far
            d = sorted(round(.02 * (1 - r.random()) ** (-1 / r.choice([1.2, 2., 3.])), 4) for _ in range(r.choice([20, 60]))); n = 1
            S = [{'kind': 'diam', 'diam': d, 'frac': [1.] * len(d), 'area': float(f'{10 ** r.uniform(-6, -2):.6g}'), 'perimeter': None, 'rows': []}]
            plots = [dict(file='c0.diam', type=r.choice(['data', 'c-fit', 'c-fit', 'poisson']), hide=0, snap=1, binning=r.choice(STYLES[:-1]), range=[repr(d[r.randrange(len(d) - 8)]), r.choice(['inf', repr(d[-2])])], resurf=r.choice([0, 1]), resurf_showall=int(r.random() < .3))]
        perm = list(range(n)); r.shuffle(perm)
        nsigma = r.random() < .1 and plots[0]['type'] == 'data' and not plots[0]['hide']
        cases.append({'ev': 'scale', 'in': dict(pres=r.choice(['cumulative', 'differential', 'R-plot', 'Hartmann']), coef=r.choice(COEFS), counts=S, plots=plots, perm=perm, nsigma=nsigma,
                                                ux=[round(r.uniform(-4, 0), 2), round(r.uniform(0.1, 4), 2)], uy=[round(r.uniform(-9, -1), 2), round(r.uniform(0, 6), 2)])})
    for k in range(ctx.scale(120, 1200)):
        pres = r.choice(['cumulative', 'differential', 'R-plot', 'Hartmann']); n = r.choice([1, 2, 3]); S = counts(n)
        ux = [round(r.uniform(-4, 0), 2), round(r.uniform(0.1, 4), 2)] if r.random() < .35 and pres != 'Hartmann' else []
        uy = [round(r.uniform(-9, -1), 2), round(r.uniform(0, 6), 2)] if r.random() < .35 and pres != 'Hartmann' else []
        cs = r.choice(['neukum83', 'moonn01', 'yue', 'hartmanndaubar2016', 'marsiv01', 'hart04']); base = [['-pr', pres], ['-cs', cs], ['-o', 'x'], ['-f', 'png']]
        def plots(S0):
            P = [['-p', f'source=c{m}.{s["kind"]}' + r.choice(['', ',binning=20', ',binning=root', ',range=[0.01,100]'])] for m, s in S0]
            r.shuffle(P); return P
        args = base + plots(list(enumerate(S)))
        if ux: args.insert(r.randrange(len(base)), ['-xrange', str(ux[0]), str(ux[1])])
        if uy: args.insert(r.randrange(len(base)), ['-yrange', str(uy[0]), str(uy[1])])
        args2 = base + plots([r.choice(list(enumerate(S)))]) if pres == 'Hartmann' else []
        cases.append({'ev': 'axes', 'in': dict(pres=pres, counts=S, args=args, args2=args2, ux=ux, uy=uy)})
    for k in range(ctx.scale(600, 8000)):
        n = r.choice([2, 3, 4, 5, 6, 10, 20])
        lo = r.choice([0, 0, r.uniform(-100, 100), r.randrange(-10, 10), r.uniform(-1e-3, 1e-3), r.choice([-180, 0, 90, 359])])
        mag = r.choice([10 ** r.uniform(-4, 5), float(r.choice([1, 2, 5, 10, .5, .1, 50]))])
        hi = lo + mag
        if n == 2 and (lo < 0 < hi or (lo < 0 and n < 3)): continue     # two ticks cannot cover both signs
        if abs(lo) > 1e3 * mag: continue
        cases.append({'ev': 'ticks', 'in': dict(lo=repr(float(f'{lo:.9g}')), hi=repr(float(f'{hi:.9g}')), n=n, minor=r.choice([1, 2, 3, 5, 8, 10]))})
    r.shuffle(cases)
    ctx.validate('T16', ctx.drive('c16', cases))
    ctx.need(OrderFree=500, ContainsX=300, AspectKept=300, SmallestAxes=250, DefaultRanges=8, RoomForRandomness=5, UserXDrawn=8, UserYDrawn=8, HartmannFrameFixed=6,
             MarksInsideX=30, MarksInsideY=30, NiceTicks=400, MinorTicks=400)
