import math, os, re
from props.util import *
from props import clirun, fig, pub, c15
CASE_TIMEOUT = 90
SYS = [s for s in pub.SYSTEMS if next(c for c in pub.CHRON if c['name'] == s['cf'])['kind'] == 'coeff']
TYPES = ('poisson', 'c-fit', 'd-fit')
RANGES = [None, None, ('4.2', '.01'), ('4.5', '0'), ('3.6', '1e-4'), ('4.3', '2'), ('4', '.5'), ('4.5', '.0003'), ('3.2', '1'), ('4.5', '3.5'), ('2', '.05'), ('4.4', '3.9'), ('3.9', '1.7')]
def asc(s): return c15.asc(s).replace('\u2212', '-')

def box(v): return {'x0': min(a for a, b in v), 'x1': max(a for a, b in v), 'y0': min(b for a, b in v), 'y1': max(b for a, b in v)}
def thin(v, n=12):
    m = len(v); return v if m <= n else [v[(m - 1) * k // (n - 1)] for k in range(n)]
def half(v, n=9):
    """half heights of a polygon that is a curve forth and its mirror image back"""
    xs = sorted({a for a, b in v}); xs = thin(xs[1:-1], n); r = []
    for x in xs:
        y = [b for a, b in v if abs(a - x) < 1e-12]
        r.append([x, max(y), min(y)])
    return r
def ticks(axis, kind):
    L = []
    for at, lb in zip(axis.get_majorticklocs(), axis.get_majorticklabels()):
        s = asc(lb.get_text()).strip()
        if not s: continue
        m = re.fullmatch(r'(-?[\d.e+-]+)( (?:Ga|Ma|ka|a))?', s)
        L.append({'at': float(at), 'num': m[1] if m else 'nan', 'unit': (m[2] or '').strip() if m else asc(s)})
    return L
def age(cst, cps, p):
    cp = cst.Craterplot({'source': p.source, 'type': p.type, 'range': [repr(float(x)) for x in p.range], 'snap': 0, 'binning': p.binning, 'cratercount': cst.Cratercount(p.source)})
    pres, cps.presentation = cps.presentation, cps.presentation
    cp.calculate_age(cps); return cp

def drive(c):
    import craterstats as cst
    import numpy as np
    from matplotlib.colors import to_hex
    i = c['in']; clirun.fresh()
    for n, s in enumerate(i['counts']): write_count(f'c{n}', s)
    clirun.record()
    r = clirun.main(i['args'])
    if r['exit']: return {'exit': r['exit'], 'msg': r['msg']}
    cps = clirun.CPSETS[-1]; it = fig.recorder(cps.fig); ax = cps.ax
    o = {'exit': '', 'time': list(cps.ep.time) if cps.ep else [], 'epoch': list(cps.ep.epoch) if cps.ep else [], 'shade': [re.search(r'\d', e)[0] for e in cps.ep.formatting[1:]] if cps.ep else [], 'bound': ['b' in e for e in cps.ep.formatting[1:]] if cps.ep else []}
    cols = [p['colour'] for p in i['plots']]
    def fill(x): return x['kind'] == 'path' and x['face'] != '' and x['rgb'] not in cols and not any(near(x['v'], a) for a in cps.fig.axes)
    def near(v, a): b = box(v); return all(abs(b[p] - q) < .6 for p, q in zip(('x0', 'y0', 'x1', 'y1'), a.bbox.extents))
    if c['ev'] == 'sequence':
        axes = [a for a in cps.ax2 if a.axison and a.bbox.width > 1e-6]
        o['axes'] = [{'x0': float(a.bbox.x0), 'x1': float(a.bbox.x1), 't0': float(a.get_xlim()[0]), 't1': float(a.get_xlim()[1]), 'log': a.get_xscale() == 'log'} for a in axes]
        o['frame'] = [float(ax.bbox.x0), float(ax.bbox.x1)]
        o['ticks'] = [ticks(a.xaxis, 'time') for a in axes]
        main = [[(x, fig.todata(a, x['v'], logy=False)) for x in it if fig.inside(a, x)] for a in axes]
        o['el'], o['age'] = [], []
        P = list(cps.craterplot)
        for k, p in enumerate(i['plots']):
            o['el'].append([[dict(box(v), face=x['face'], half=half(v) if len(v) > 40 else []) for x, v in m if x['kind'] == 'path' and x['rgb'] == p['colour'] and x['face'] != '' and len(v) > 2] for m in main])
            o['el'][-1] = [sorted(q, key=lambda b: b['x0'] - b['x1']) for q in o['el'][-1]]
            o.setdefault('bar', []).append([[[v[0][0], min(v[0][1], v[1][1]), max(v[0][1], v[1][1])] for x, v in m if x['kind'] == 'path' and x['rgb'] == p['colour'] and x['face'] == '' and len(v) == 2] for m in main])
            if p['type'] in TYPES and not p['hide']:
                cp = age(cst, cps, P[k]); d = {'t': list(cp.t)}
                if p['type'] == 'poisson':
                    d['q'] = list(cp.pdf.t([.0001, .16, .5, .84, .9999])); m = max(cp.pdf.pdf)
                    H = o['el'][-1][0][0]['half'] if o['el'][-1][0] else []
                    d['shape'] = [float(cp.pdf.relative_probability(x) / m) for x, a, b in H]
                o['age'].append(d)
            else: o['age'].append('None')
        T = [(t, float(t.get_position()[0]), float(t.get_position()[1])) for t in ax.texts]
        o['names'] = [{'s': asc(t.get_text()).replace('\n', '|'), 'y': y} for t, x, y in T if x < 0]
        o['labels'] = [{'s': asc(t.get_text()).split('\n'), 'y': y} for t, x, y in T if x > 1]
        for l in o['labels']: l['k'] = c15.age_only(c15.latex(l['s'][0]))
        o['fills'] = [sorted(({'x0': box(v)['x0'], 'x1': box(v)['x1'], 'face': x['face'], 'y0': box(v)['y0'], 'y1': box(v)['y1']} for x, v in m if fill(x)), key=lambda b: b['x0']) for m in main]
        o['lines'] = [sorted(v[0][0] for x, v in m if x['kind'] == 'path' and x['rgb'] not in cols and x['face'] == '' and len(v) == 2 and abs(v[0][1] - v[1][1]) > .99) for m in main]
        o['eplabels'] = [[{'s': t.get_text(), 'x': float(t.get_position()[0])} for t in a.texts] for a in axes]
        return o
    if c['ev'] == 'chronology':
        main = [(x, fig.todata(ax, x['v'])) for x in it if fig.inside(ax, x) and not x['legend']]
        o['curves'] = [{'v': thin([q for q in v if q[1] > -1e8][3:], 14), 'rgb': x['rgb']} for x, v in main if x['kind'] == 'path' and x['face'] == '' and not x['closed'] and len(v) > 100]
        o['fills'] = sorted(({'x0': box(v)['x0'], 'x1': box(v)['x1'], 'face': x['face'], 'v': thin([q for q in v if q[1] > math.log10(ax.get_ylim()[0]) - 2])} for x, v in main if fill(x) and len(v) > 20), key=lambda b: b['x0'])
        o['lines'] = sorted(v[0][0] for x, v in main if x['kind'] == 'path' and x['face'] == '' and len(v) == 2 and abs(v[0][0] - v[1][0]) < 1e-9)
        o['texts'] = [{'s': t.get_text(), 'x': float(t.xy[0]) if hasattr(t, 'xy') else float(t.get_position()[0])} for t in ax.texts]
        lg = ax.get_legend(); H = lg.legend_handles if lg else []
        o['legend'] = [{'s': t.get_text(), 'rgb': to_hex(h.get_color())} for t, h in zip(lg.get_texts() if lg else [], H)]
        o['xlim'] = ax.get_xlim(); o['ylabel'] = ax.get_ylabel(); o['ticks'] = ticks(ax.xaxis, 'time')
        return o
    # crater plot with epochs and age insets
    main = [(x, fig.todata(ax, x['v'])) for x in it if fig.inside(ax, x) and not x['legend']]
    o['fills'] = [{'v': thin(v[:-1], 30), 'face': x['face']} for x, v in main if fill(x) and len(v) > 20]
    o['lines'] = [thin(v) for x, v in main if x['kind'] == 'path' and x['face'] == '' and x['rgb'] not in cols and not x['closed'] and len(v) > 20]
    o['insets'] = []; P = list(cps.craterplot)
    for k, p in enumerate(i['plots']):
        if p['hide'] or p['type'] != 'poisson': o['insets'].append('None'); continue
        cp = age(cst, cps, P[k]); m = max(cp.pdf.pdf)
        L = []
        for a in cps.fig.axes:
            if a is ax or not a.lines or to_hex(a.lines[0].get_color()) != p['colour'] or a.axes is cps.ax: continue
            q = [(x, fig.todata(a, x['v'], logy=False)) for x in it if fig.inside(a, x)]
            cv = [v for x, v in q if x['kind'] == 'path' and x['face'] == '' and x['rgb'] == p['colour'] and len(v) > 20]
            sh = [box(v) for x, v in q if x['kind'] == 'path' and x['face'] == p['colour'] and len(v) > 3]
            mx = max(b for a_, b in cv[0]) if cv else 1
            v = [w for w in (cv[0] if cv else []) if w[1] > .01 * mx]
            v = thin(v, 10)
            L.append({'curve': [[x, y / mx, float(cp.pdf.relative_probability(x) / m)] for x, y in v], 'shade': sorted(([b['x0'], b['x1']] for b in sh), key=lambda b: b[0] - b[1])[:1], 'xlim': a.get_xlim(), 'ticks': ticks(a.xaxis, 'age')})
        o['insets'].append({'ax': L, 't': list(cp.t), 'q': list(cp.pdf.t([.003, .997]))})
    return o

def run(ctx):
    ctx.mc_bg('TimePlotMC', ctx.scale('TimePlotMC.cfg', 'TimePlotMC_big.cfg'), min_states=1000)
    ctx.mc_neg_bg('TimePlotMC', 'TimePlotMC_neg.cfg', 'Ordered')
    r = ctx.rng; cases = []
    for _ in range(ctx.scale(140, 1400)):
        ev = r.choice(['sequence', 'sequence', 'chronology', 'epochs'])
        sy = r.choice(SYS); ep = r.choice(['', '', r.choice(pub.EPOCHS)['name']]) if ev != 'epochs' else r.choice(['', r.choice(pub.EPOCHS)['name'], r.choice(pub.EPOCHS)['name']])
        pres = {'sequence': 'sequence', 'chronology': r.choice(['chronology', 'rate']), 'epochs': r.choice(['cumulative', 'differential', 'R-plot', 'Hartmann'])}[ev]
        args = ['-pr', pres, '-cs', sy['name'], '-o', 'x', '-f', 'png']; plots = []; S = []
        opt = dict(refd='1', xr=[], ep=ep, legend='default', sf=3, rate=pres == 'rate')
        if ep: args += ['-ep', ep]
        if ev != 'chronology':
            for k in range(r.choice([1, 2, 3, 3, 5])):
                pfr = next(f for f in pub.PROD if f['name'] == sy['pf'])['range']
                lo = math.log10(max(.2, pfr[0] if pfr else .2)); n = r.choice([3, 10, 30, 80])
                s = random_count(r, kinds=('diam',), nmax=n + 2, lo=lo, span=1.2); S.append(s)
                # an area for which the age lies in the range
                ds = sorted(s['diam']); cf = next(x for x in pub.CHRON if x['name'] == sy['cf'])['p']; t = r.choice([.01, .1, .8, 2.5, 3.3, 3.7, 4.])
                n1 = cf[0] * (math.exp(cf[1] * t) - 1) + cf[3] * t; s['area'] = float(f'{len(ds) / n1 * ds[0] ** 3:.4g}')
                typ = r.choice(['poisson', 'poisson', 'c-fit', 'd-fit'] + ['data'])
                nm = r.choice([f'Unit {k}', r'two\nlines', 'x', 'A, B']) if ev == 'sequence' else f'U{k}'
                bin_ = 'none' if typ == 'poisson' and ev != 'epochs' and r.random() < .25 else '10/decade'
                p = dict(type=typ, colour='#%02x%02x%02x' % (r.randrange(20, 120) * 2 + 1, r.randrange(20, 120) * 2, 7 + 16 * k), hide=int(r.random() < .15), name=nm)
                plots.append(p)
                args += ['-p', ','.join([f'source=c{k}.diam', 'type=' + typ, 'colour=' + p['colour'], f'range=[{ds[0] * .95:.4g},{ds[-1] * 1.2:.4g}]', 'binning=' + bin_, f'hide={p["hide"]}', 'name="' + nm + '"' if ',' in nm else 'name=' + nm])]
        if ev == 'sequence':
            x = r.choice(RANGES)
            if x: args += ['-xrange', *x]; opt['xr'] = list(x)
            if r.random() < .3: opt['legend'] = r.choice(['A', 'Aa', 'Af', '0', 'a']); args += ['-legend', opt['legend']]
            if r.random() < .2: opt['sf'] = 2; args += ['-sf', str(opt['sf'])]
        if ev == 'chronology' and r.random() < .7: opt['refd'] = r.choice(['10', '0.5', '2', '1', '16', '0.25', '5']); args += ['-ref_diameter', opt['refd']]
        if r.random() < .2: args += ['-invert', '1']
        if r.random() < .3: args += ['-legend', r.choice(['f', 'n', '0'])] if ev == 'chronology' else []
        if r.random() < .2: args += ['-pd', r.choice(['1.5', '10x8', '6x12', '15x10'])]
        if r.random() < .2: args += ['-pt_size', r.choice(['7', '12'])]
        if r.random() < .2: args += ['-title', 'A|B']
        cases.append({'ev': ev, 'in': dict(counts=S, plots=plots, pf=sy['pf'], cf=sy['cf'], pres=pres, args=args, **opt)})
    ctx.validate('T26', ctx.drive('c26', cases))
    ctx.need(Violins=25, Bars=25, TopToBottom=25, AgeTexts=25, ChronologyCurve=15, EpochRegions=12, EpochBounds=20, EveryEpochNamed=6, EpochBands=10, Insets=15)
