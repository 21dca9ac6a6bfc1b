import os, math
from props.util import *
CASE_TIMEOUT = 60
PRES = ['cumulative', 'incremental', 'differential', 'R-plot', 'Hartmann']

def drive(c):
    from craterstats import Cratercount
    i = c['in']; f = write_count('t', i)
    cc = Cratercount(f)
    pf = make_pf(i['coef']) if i['coef'] else None
    if i['before']: cc.getplotdata('cumulative', i['before'])
    p = cc.getplotdata(i['pres'], i['style'], range=None if i['norange'] else list(i['range']), showall=int(i['showall']), pf=pf)
    cb = Cratercount(f)
    if not cb.prebinned: cb.apply_binning(i['style'])
    return {'p': {k: p[k] for k in ('presentation', 'd', 'y', 'err', 'n', 'n_event', 'bin_range')}, 'b': binned(cb)}

def run(ctx):
    ctx.mc_bg('PlotMC', 'PlotMC.cfg', min_states=200)
    r = ctx.rng; cases = []
    for n in range(ctx.scale(900, 8000)):
        cnt = random_count(r, nmax=r.choice([4, 15, 40]))
        style = r.choice(STYLES); pres = PRES[n % 5]
        if style == 'none' and pres in ('differential', 'R-plot', 'Hartmann'): style = r.choice(STYLES[:-1])
        ds = cnt['diam'] or [x[0] for x in cnt['rows']]
        st = 'pseudo-log' if cnt['kind'] == 'stat' else style
        if st == 'none' and pres == 'differential': pres = 'cumulative'
        grid = lambda: edge(st if st != 'none' else 'x2', math.floor(math.log10(r.choice(ds)) * (PERDEC.get(st, 18 if st == 'pseudo-log' else 3.32))) + r.randrange(-2, 3))
        lo = r.choice([0., 0., grid(), grid(), r.choice(ds), 10 ** (math.log10(r.choice(ds)) + r.uniform(-.5, .5))])
        hi = r.choice([float('inf'), float('inf'), grid(), grid(), r.choice(ds), 10 ** (math.log10(r.choice(ds)) + r.uniform(-.3, 1))])
        if hi < lo: lo, hi = hi, lo
        if hi == float('inf') and lo == hi: lo = 0.
        cases.append({'ev': 'plot', 'in': dict(cnt, style=style if cnt['kind'] != 'stat' else 'pseudo-log', pres=pres, range=[lo, hi], norange=r.random() < .12, showall=r.random() < .15,
                                               coef=r.choice([[], r.choice(COEFS)]), before=r.choice(['', r.choice(STYLES[:-1])]))})
    ctx.validate('T04', ctx.drive('c04', cases))
    ctx.need(Density=500, ExtentOnGrid=200, DataExtent=50, ErrorBar=500, ExtentEncloses=300)
