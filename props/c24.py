import math
from props.util import *
from props import pub, c07
CASE_TIMEOUT = 60
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']

def parts(i):
    import craterstats as cst
    F = cst.Functionslist().functions
    pf = cst.Productionfn(F, i['name']) if i['name'] else c07.fn({'kind': 'random', 'name': '', 'fn': i['fn']})
    cf = cst.Chronologyfn(F, i['chron']) if isinstance(i['chron'], str) else make_cf(i['chron'])
    ef = None if i['ef'] is None else cst.Productionfn(F, i['ef'], equilibrium=True) if isinstance(i['ef'], str) else c07.fn({'kind': 'random equilibrium', 'name': '', 'fn': i['ef']})
    return pf, cf, ef

def drive(c):
    import craterstats as cst, numpy as np
    i = c['in']; pf, cf, ef = parts(i)
    if c['ev'] == 'curve':
        a0 = cf.a0(i['age'])
        q = pf.getisochron(i['pres'], a0, ef); full = pf.getisochron(i['pres'], a0, None)
        e = ef.getplotdata(i['pres']) if ef else {'d': [], 'y': []}
        return {'a0': a0, 'd': q['d'], 'y': q['y'], 'full': {'d': full['d'], 'y': full['y']}, 'e': {'d': e['d'], 'y': e['y']}}
    txt = ','.join(x['pre'] + x['text'] + ''.join(x['suffix']) for x in i['entries'])
    cps = cst.Craterplotset({'presentation': i['pres'], 'isochrons': None, 'legend': '', 'xrange': i['xrange'], 'yrange': i['yrange'], 'cite_functions': 0})
    cps.pf, cps.cf, cps.ef = pf, cf, ef
    cps.draw(); n0, t0 = len(cps.ax.lines), len(cps.ax.texts)
    cps.isochrons = txt; cps.draw()
    lines = []
    for l in cps.ax.lines[n0:]:
        x, y = l.get_xdata(), l.get_ydata()
        lines.append([float(len(x)), float(x[0]) if len(x) else 0., float(y[0]) if len(x) else 0.])
    npts, first, inplot = [], [], []
    for x in i['entries']:
        if x['age'] is None: continue
        q = pf.getisochron(i['pres'], cf.a0(x['age']), ef)
        npts.append(len(q['d'])); first.append([q['d'][0], q['y'][0]] if len(q['d']) else [0., 0.])
        inplot.append(bool(len(q['d']) and math.log10(q['d'][-1]) > i['xrange'][0] + .4))
    return {'lines': lines, 'npts': npts, 'first': first, 'inplot': inplot,
            'labels': [{'text': t.get_text(), 'va': t.get_va(), 'size': float(t.get_fontsize())} for t in cps.ax.texts[t0:]]}

def run(ctx):
    ctx.mc_bg('IsochronMC', ctx.scale('IsochronMC.cfg', 'IsochronMC_big.cfg'), min_states=300)
    r = ctx.rng; cases = []
    def fns():
        if r.random() < .6:
            f = r.choice([x for x in pub.PROD if not x['name'].startswith('Vesta, Rev3')]); return dict(name=f['name'], fn=None)
        return dict(name='', fn=dict(type='polynomial', coef=[round(r.uniform(-5, -1), 3), round(r.uniform(-3.5, -2.2), 3)], range=r.choice([[], [.01, .5], [.01, 300.], [1., 64.]]), h=[], i1=0))
    def ch(): return r.choice([r.choice(CHRONS), r.choice([c['name'] for c in pub.CHRON if c['kind'] == 'coeff'])])
    def efs(): return r.choice([None, pub.EQUIL[0]['name'], pub.EQUIL[1]['name'],
                               dict(type='polynomial', coef=[round(r.uniform(-2.5, .5), 3), round(r.uniform(-2.1, -1.6), 3)], range=r.choice([[], [.1, 50.], [1e-3, 1e3]]), h=[], i1=0)])
    for _ in range(ctx.scale(160, 2500)):
        cases.append({'ev': 'curve', 'in': dict(fns(), chron=ch(), ef=efs(), pres=r.choice(PRES), age=r.choice([4.5, round(10 ** r.uniform(-4, .6), 4), 3.5]))})
    for _ in range(ctx.scale(56, 500)):
        ent = []
        for _ in range(r.randrange(1, 7)):
            if r.random() < .2: ent.append(dict(age=None, pre='', text=r.choice(['x', '', '3b', 'a', '1.2.3', 'Ga', '3 4']), suffix=[]))
            else:
                t = r.choice(['1', '3', '3.7', '4', '.5', '0.001', '2e-3', '1.25e-5', '4.5', f'{r.uniform(.1, 4.4):.3g}', '-2'])
                suf = r.choice([[], [], ['a'], ['s'], ['h'], ['n'], ['a', 's'], ['s', 'a'], ['h', 'a'], ['n', 's'], ['a', 's', 'h']])
                ent.append(dict(age=abs(float(t)), pre=r.choice(['', '', ' ']), text=t, suffix=suf))
        x0 = r.choice([-3., -2., -1.])
        ef = efs()
        if isinstance(ef, dict): ef['range'] = []
        if isinstance(ef, str): ef = None if r.random() < .5 else dict(type='polynomial', coef=[-1.1, -2.], range=[], h=[], i1=0)
        cases.append({'ev': 'list', 'in': dict(fns(), chron=ch(), ef=ef, pres=r.choice(PRES), entries=ent, xrange=[x0, x0 + 4], yrange=[-6., 2.] )})
    ctx.validate('T24', ctx.drive('c24', cases))
    ctx.need(CutAtEquilibrium=100, OneCurvePerAge=40, LabelPlacement=40)
