import math, os, csv
from props.util import *
from props import pub, c07
CASE_TIMEOUT = 90
ASSUMPTIONS = ['race probability compared to 3e-3 (ages are sampled at 0.003 dex in expectation)']

def pdf(cst, i, s, n, extra=0, drop=0):
    d = list(s['diam'])
    x = s['inside']
    if extra: d.append(x)
    if drop: d.remove(x)
    f = f's{n}.diam'; write_diam(f, d, area=repr(s['area']))
    return cst.Craterpdf(make_pf(i['coef'], rng=i['pfrange']), make_cf(i['chron']), cst.Cratercount(f), [min(max(x, i['pfrange'][0]), i['pfrange'][1]) for x in s['range']])

def drive(c):
    import craterstats as cst, numpy as np
    i = c['in']
    if c['ev'] == 'pair':
        a, b = i['surfaces']
        p1, p2 = pdf(cst, i, a, 1), pdf(cst, i, b, 2)
        q = lambda x, y: x.calculate_sequence_probability(y)
        return {'p12': q(p1, p2), 'p21': q(p2, p1), 'p11': q(p1, p1), 'pmore': q(pdf(cst, i, a, 1, extra=1), p2), 'pless': q(p1, pdf(cst, i, b, 2, extra=1))}
    if c['ev'] == 'epochs':
        F = cst.Functionslist().functions
        pf = cst.Productionfn(F, i['pf']) if i['pf'] else c07.fn({'kind': 'random', 'name': '', 'fn': i['fn']})
        cf = cst.Chronologyfn(F, i['chron']) if isinstance(i['chron'], str) else make_cf(i['chron'])
        if i['name']: ep = cst.Epochs(F, i['name'], pf, cf)
        else:
            d = {'name': 'E', 'epoch': ['x'] * 5, 'formatting': ['30'] + ['1'] * 5, 'reference': ''}
            if len(i['ep']['time']): d['time'] = [repr(x) for x in i['ep']['time']]
            else: d.update(density=[repr(x) for x in i['ep']['density']], ref_diameter=[str(int(x)) for x in i['ep']['ref']])
            ep = cst.Epochs({'epochs': [d]}, 'E', pf, cf)
        return {'time': list(ep.time)}
    cps = cst.Craterplotset({'presentation': 'sequence'}); cps.pf, cps.cf = make_pf(i['coef'], rng=i['pfrange']), make_cf(i['chron'])
    cps.craterplot = []
    for n, s in enumerate(i['surfaces']):
        f = f's{n}.diam'; write_diam(f, s['diam'], area=repr(s['area']))
        cps.craterplot.append(cst.Craterplot({'source': f, 'name': s['name'], 'type': s['type'], 'hide': s['hide'], 'range': [repr(x) for x in s['range']], 'snap': 0}))
    out = 'tab.csv'
    if os.path.exists(out): os.remove(out)
    cps.create_sequence_table(out)
    if not os.path.exists(out): return {'file': False}
    r = list(csv.reader(open(out, encoding='utf-8-sig')))
    shown = [cp for cp in cps.craterplot if cp.type == 'poisson' and not cp.hide]; n = len(shown)
    for cp in shown: cp.calculate_age(cps)
    find = lambda k: next((x for x in r if x and x[0].startswith(k)), [])
    h = next(j for j, x in enumerate(r) if x and x[0] == '' and len(x) > 1)
    body = r[h + 1:h + 1 + n]
    return {'file': True, 'names': r[h][1:], 'rows': [x[0] for x in body], 'cells': [x[1:n + 1] + [''] * (n + 1 - len(x)) for x in body],
            'p': [[x.pdf.calculate_sequence_probability(y.pdf) for y in shown] for x in shown], 't': [float(cp.pdf.t(.5)) for cp in shown],
            'medians': find('t_median')[1:], 'mean': find('mean(t_median)')[1], 'compound': r[-1][-1]}

def run(ctx):
    ctx.mc_bg('SequenceMC', ctx.scale('SequenceMC.cfg', 'SequenceMC_big.cfg'), min_states=800)
    r = ctx.rng; cases = []
    def surf(coef, chron, pfr, t, k):
        lo = 2. ** r.uniform(-3, 2); hi = r.choice([float('inf'), lo * 4])
        C = lambda d: 10 ** sum(a * math.log10(d) ** j for j, a in enumerate([0.] + coef[1:]))
        w = C(max(lo, pfr[0])) - C(min(hi, pfr[1]))
        n1 = chron[0] * (math.exp(chron[1] * t) - 1) + chron[3] * t
        top = min(hi, pfr[1], lo * 20)
        d = [round(lo * (top / lo) ** r.random(), 6) for _ in range(k)]
        d = [min(max(x, lo * 1.001), top * .999) for x in d]
        return {'diam': d + [lo * .5] * r.randrange(0 if d else 1, 3), 'range': [lo, hi], 'inside': lo * 1.05, 'area': float(f'{(k + .7) / (w * n1):.6g}')}
    def base():
        return dict(coef=r.choice(COEFS[1:]), chron=r.choice(CHRONS), pfrange=r.choice([[2. ** -6, 2. ** 5], [2. ** -4, 2. ** 8]]))
    for _ in range(ctx.scale(130, 2000)):
        b = base(); t = 10 ** r.uniform(-2.5, .6); k = lambda: r.choice([0, 1, 3, 10, 40, 150])
        t2 = min(t * 10 ** r.choice([0, 0, r.gauss(0, .1), r.gauss(0, .02)]), 4.5)
        cases.append({'ev': 'pair', 'in': dict(b, surfaces=[surf(b['coef'], b['chron'], b['pfrange'], t, k()), surf(b['coef'], b['chron'], b['pfrange'], t2, k())])})
    for _ in range(ctx.scale(60, 400)):
        b = base(); S = []
        t = 10 ** r.uniform(-1.5, .5)
        for n in range(r.choice([1, 2, 2, 3, 4])):
            s = surf(b['coef'], b['chron'], b['pfrange'], min(4.3, t * 10 ** r.gauss(0, .06)), r.choice([3, 10, 40]))
            S.append(dict(s, name=f'S{n} {r.choice("abc")}', type=r.choice(['poisson'] * 5 + ['data']), hide=r.choice([0, 0, 0, 0, 1])))
        cases.append({'ev': 'table', 'in': dict(b, surfaces=S, shown=[s['name'] for s in S if s['type'] == 'poisson' and not s['hide']])})
    sysn = [s for s in pub.SYSTEMS if "O'Brien" not in s['cf']]
    for e in pub.EPOCHS:
        for s in sysn if ctx.thorough else [x for x in sysn if x['name'].split(',')[0] == e['name'].split(',')[0]]:
            cases.append({'ev': 'epochs', 'in': dict(name=e['name'], pf=s['pf'], chron=s['cf'], fn=None, ep=None)})
    for _ in range(ctx.scale(60, 800)):
        f = dict(type='polynomial', coef=r.choice(COEFS[1:4]), range=[], h=[], i1=0)
        n = r.randrange(1, 6)
        if r.random() < .2: ep = dict(time=sorted(round(r.uniform(0, 4.5), 3) for _ in range(n)), ref=[], density=[])
        else: ep = dict(time=[], ref=[float(r.choice([1, 1, 5, 16])) for _ in range(n)], density=[float(f'{10 ** r.uniform(0, 3.5):.4g}') for _ in range(n)])
        cases.append({'ev': 'epochs', 'in': dict(name='', pf=r.choice(['', '', 'Mars, Hartmann (2005)']), chron=r.choice(CHRONS), fn=f, ep=ep)})
    ctx.validate('T17', ctx.drive('c17', cases))
    ctx.need(RaceProbability=50, TableProbabilities=8, DensityReached=30, TimesAsGiven=4, MoreCratersStrictlyOlder=20, SimultaneousFormation=10)
