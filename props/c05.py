import os, math
from props.util import *
CASE_TIMEOUT = 120
ASSUMPTIONS = ['ages compared within one sampling step of the code (0.003 dex in expectation)', 'k up to about 5000']

def age(cst, cnt, i, cdf=False, binning=None):
    f = write_count('t', cnt)
    pf = make_pf(i['coef'], rng=i['pfrange']); cf = make_cf(i['chron'])
    cps = cst.Craterplotset({'presentation': 'differential', 'ref_diameter': repr(i['refd'])}); cps.pf, cps.cf = pf, cf
    cp = cst.Craterplot({'source': f, 'type': i['type'], 'binning': binning or i['style'], 'range': [repr(i['range'][0]), repr(i['range'][1])], 'snap': 0})
    cp.calculate_age(cps)
    if not cdf: return [float(t) for t in cp.t]
    ts = [float(cp.t[0]) * x for x in (.5, .8, .95, 1., 1.1, 1.3, 2.)]
    return cp, [[t, float(cp.pdf.cumulative_fraction(t))] for t in ts if t < 4.9]

def drive(c):
    import craterstats as cst, random
    i = c['in']; r = random.Random(i['seed'])
    cp, cdf = age(cst, i, i, cdf=True)
    o = {'t': list(cp.t), 'a0': list(cp.a0), 'n': cp.n, 'n_event': cp.n_event, 'n_d': cp.n_d, 'cdf': cdf}
    if i['kind'] == 'stat':
        o['shuffled'] = o['rebinned'] = age(cst, i, i, binning='root-2')
        j = max(range(len(i['rows'])), key=lambda n: i['rows'][n][1])
        more = dict(i, rows=[[d, n + (3. if k == j else 0.)] for k, (d, n) in enumerate(i['rows'])])
    else:
        p = list(zip(i['diam'], i['frac'])); r.shuffle(p)
        o['shuffled'] = age(cst, dict(i, diam=[e[0] for e in p], frac=[e[1] for e in p]), i)
        o['rebinned'] = age(cst, i, i, binning=r.choice(STYLES))
        x = max(min(10 ** ((math.log10(max(i['range'][0], i['pfrange'][0])) + math.log10(min(i['range'][1], i['pfrange'][1]))) / 2), 1e6), 1e-6)
        more = dict(i, diam=i['diam'] + [x], frac=i['frac'] + [1.])
    o['more'] = age(cst, more, i)
    o['smaller'] = age(cst, dict(i, area=i['area'] / 2), i)
    return o

def run(ctx):
    ctx.mc_bg('AgeMC', 'AgeMC.cfg', min_states=30)
    r = ctx.rng; cases = []
    for n in range(ctx.scale(330, 3000)):
        cnt = random_count(r, nmax=r.choice([2, 5, 20, 80, 300]))
        coef = r.choice(COEFS); chron = r.choice(CHRONS + [[2.74e-24, 14.44, 0., 0.115]])
        pfr = r.choice([[2. ** -10, 2. ** 10], [2. ** -6, 2. ** 5], [2. ** -4, 2. ** 8]])
        if coef is COEFS[0] or coef is COEFS[3] or coef is COEFS[4]: pfr = [2. ** -6, 2. ** 5]
        ds = cnt['diam'] or [x[0] for x in cnt['rows']]
        lo = r.choice([0., r.choice(ds), r.choice(ds), r.choice(ds) * r.uniform(.6, 1.2)])
        hi = r.choice([float('inf'), float('inf'), r.choice(ds), max(ds) * 1.5, r.choice(ds) * r.uniform(1., 4.)])
        if hi < lo: lo, hi = hi, lo
        lo = max(lo, 0.)
        typ = 'b-poisson' if r.random() < .3 else 'poisson'
        if typ == 'b-poisson' and cnt['kind'] != 'scc' and r.random() < .8: typ = 'poisson'
        # choose the area so that the age is inside the model
        C = lambda d: 10 ** sum(a * math.log10(d) ** k for k, a in enumerate([0.] + coef[1:]))
        l0, h0 = min(max(lo, pfr[0]), pfr[1]), min(max(hi, pfr[0]), pfr[1])
        k = sum(1 for d in cnt['diam'] if l0 <= d < h0) if cnt['diam'] else 20
        w = C(l0) - C(h0)
        if w > 0 and r.random() < .93:
            t = 10 ** r.uniform(-3, .6) if r.random() < .85 else r.uniform(3.5, 4.85)
            n1 = chron[0] * (math.exp(chron[1] * t) - 1) + chron[3] * t
            cnt['area'] = float(f'{(k + .7) / (w * n1):.6g}')
            if cnt['kind'] == 'scc': cnt['area'] = max(cnt['area'], 1e-3)
            if cnt['perimeter']: cnt['perimeter'] = float(f"{cnt['area'] ** .5 * r.uniform(3.6, 8):.5g}")
        cases.append({'ev': 'age', 'in': dict(cnt, style=r.choice(STYLES), type=typ, range=[lo, hi], coef=coef, chron=chron, pfrange=pfr, refd=r.choice([1., .5, 10.]), seed=r.randrange(10 ** 6))})
    ev = ctx.drive('c05', cases)
    # the scc format carries the area with the digits written
    for e in ev:
        if e['in']['kind'] == 'scc': e['in']['area'] = f"{float(e['in']['area']):.9f}"
    ctx.validate('T05', ev)
    ctx.need(PoissonQuantiles=120, CountsCratersInRange=200, NoPerimeterRefused=3, MoreCratersOlder=100)
