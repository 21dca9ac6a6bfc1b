import math, os, re
from props.util import *
from props import clirun, fig, pub
CASE_TIMEOUT = 90
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']
SYS = [s for s in pub.SYSTEMS if s['name'] in ('Moon, Neukum (1983)', 'Mars, Ivanov (2001)', 'Mars, Hartmann & Daubar (2016)', 'Moon, Hartmann 2010 iteration', 'Ceres, Hiesinger et al. (2016)', 'Mercury, Neukum et al. (2001)')]
PSYM = ['s', 'o', '*4', '^', '*', 'x', '+', '.', 'v', 'fs', 'fo', 'f*4', 'f^', 'f*', 'fv']
AGES = ('c-fit', 'd-fit', 'poisson', 'b-poisson')

def fresh(cst, cps, p):
    """the analysis an overplot stands for, done anew"""
    import numpy as np
    cc = cst.Cratercount(p.source)
    q = cc.getplotdata(cps.presentation, p.binning, range=p.range, resurfacing=1 if p.resurf and p.type == 'c-fit' else 0, showall=p.resurf_showall, pf=cps.pf)
    o = {'x': np.log10(q['d']), 'y': q['y'], 'err': q['err'], 'a0': 'nan', 'range': [float(x) for x in p.range], 'perimeter': bool(cc.perimeter)}
    if p.type in AGES:
        cp = cst.Craterplot({'source': p.source, 'type': p.type, 'range': [repr(float(x)) for x in p.range], 'snap': 0, 'binning': p.binning, 'resurf': int(p.resurf), 'cratercount': cst.Cratercount(p.source)})
        cp.calculate_age(cps); o['a0'] = cp.a0[0]
    return o

def drive(c):
    import craterstats as cst
    from matplotlib.colors import to_hex
    i = c['in']
    clirun.fresh()
    for n, s in enumerate(i['counts']): write_count(f'c{n}', s)
    clirun.record()
    r = clirun.main(i['args'])
    if r['exit']: return {'exit': r['exit'], 'msg': r['msg']}
    cps = clirun.CPSETS[-1]; P = list(cps.craterplot); ax = cps.ax
    it = fig.recorder(cps.fig)
    o = {'exit': '', 'xlim': ax.get_xlim(), 'ylim': [math.log10(v) for v in ax.get_ylim()], 'data': [fresh(cst, cps, p) if not p.hide and not (p.binning == 'none' and cps.presentation != 'cumulative') else 'None' for p in P]}
    main = [(k, x, fig.todata(ax, x['v'])) for k, x in enumerate(it) if fig.inside(ax, x) and not x['legend']]
    o['marks'] = []; o['curves'] = []; o['others'] = []; o['texts'] = []; o['used'] = []; o['label'] = []
    rd = cps.fig._get_renderer()
    for p in i['plots']:
        m = [(k, x, v) for k, x, v in main if x['kind'] == 'marks' and x['rgb'] == p['colour']]
        o['marks'].append({'v': [e for k, x, v in m for e in v], 'at': [k for k, x, v in m], 'sig': [[x['shape'], x['face'] != ''] for k, x, v in m], 'face': [x['face'] for k, x, v in m]})
        o['curves'].append([thin(v) for k, x, v in main if x['kind'] == 'path' and x['rgb'] == p['colour'] and not x['closed'] and len(v) > 2])
        o['texts'].append(sum(1 for x in it if x['kind'] == 'text' and x['rgb'] == p['colour'] and not x['legend'] and ' $' not in x['s'] and '$' in x['s']))
        o['label'].append([[float(v) for v in ax.transData.inverted().transform(t.get_window_extent(rd).get_points())[:, 0]] for t in ax.texts if to_hex(t.get_color()) == p['colour'] and '$' in t.get_text()])
        o['used'].append(sum(1 for x in it if x['rgb'] == p['colour'] or x.get('face') == p['colour']))
    cols = {p['colour'] for p in i['plots']}
    o['others'] = [thin(v) for k, x, v in main if x['kind'] == 'path' and x['rgb'] not in cols and not x['closed'] and len(v) > 20]
    o['bars'] = sorted([v[0][0], max(v[0][1], v[1][1]), min(v[0][1], v[1][1])] for k, x, v in main if x['kind'] == 'path' and len(v) == 2 and abs(v[0][0] - v[1][0]) < 1e-9)
    L = [x for x in it if x['legend']]
    o['halo'] = bool(L) and not any(x['kind'] == 'text' for x in L)
    lg = ax.get_legend(); T = [t.get_text() for t in lg.get_texts()] if lg else []
    # rows of the legend: the marks drawn next to each text
    ys = [t.get_window_extent(rd) for t in lg.get_texts()] if T else []
    o['legend'] = []
    for t, b in zip(T, ys):
        near = lambda v: b.y0 - .6 * b.height <= v[1] <= b.y1 + .6 * b.height
        o['legend'].append({'text': asc(t), 'y': float((b.y0 + b.y1) / 2), 'marks': [x['rgb'] for x in L if x['kind'] == 'marks' and x['v'] and near(x['v'][0])], 'sig': [[x['shape'], x['face'] != ''] for x in L if x['kind'] == 'marks' and x['v'] and near(x['v'][0])],
                            'lines': [x['rgb'] for x in L if x['kind'] == 'path' and x['rgb'] in cols and not x['closed'] and len(x['v']) < 20 and near(x['v'][0])]})
    o['binlabels'] = [{'x': float(t.get_position()[0]), 's': t.get_text().strip()} for t in ax.texts if re.fullmatch(r' \d\.\d', t.get_text())]
    cps.fig.canvas.draw()
    o['ticks'] = [tick(float(a), b.get_text()) for a, b in zip(ax.xaxis.get_majorticklocs(), ax.xaxis.get_majorticklabels()) if b.get_text()]
    o['functions'] = asc(' | '.join(t.get_text() for t in ax.texts if 'CF: ' in t.get_text()))
    return o

def tick(at, s):
    m = re.fullmatch(r' *([\d.e+-]+)(?:\$\\,\$)?(km|m|)', s)
    return {'at': at, 'num': m[1], 'unit': m[2]} if m else {'at': at, 'num': 'nan', 'unit': asc(s)}
def asc(s): return s.replace('\U0001d707', '{mu}').replace('\u2013', '{en}').replace('\n', '; ')
def thin(v):
    """first, last and some vertices of a curve in between"""
    n = len(v); return v if n <= 12 else [v[(n - 1) * k // 11] for k in range(12)]

def run(ctx):
    ctx.mc_bg('FigureMC', ctx.scale('FigureMC.cfg', 'FigureMC_big.cfg'), min_states=500)
    ctx.mc_neg_bg('FigureMC', 'FigureMC_neg.cfg', 'LegendComplete')
    r = ctx.rng; cases = []
    for _ in range(ctx.scale(260, 2600)):
        n = r.choice([1, 1, 2, 2, 3, 4]); S = []
        for _ in range(n):
            s = random_count(r, kinds=('diam', 'diam', 'scc', 'stat'), nmax=r.choice([4, 30, 80]), lo=-1., span=1.5); S.append(s)
        pres = r.choice(PRES); sy = r.choice(SYS); plots = []; args = ['-pr', pres, '-cs', sy['name'], '-o', 'x', '-f', 'png']
        for k in range(r.choice([1, 2, 2, 3, 4])):
            m = r.randrange(n); s = S[m]; ds = sorted(s['diam'] or [x[0] for x in s['rows']])
            typ = r.choice(['data', 'data', 'c-fit', 'd-fit', 'poisson', 'b-poisson' if s['perimeter'] and s['kind'] == 'scc' else 'poisson'])
            if s['kind'] == 'stat' and typ == 'poisson' and r.random() < .5: typ = 'c-fit'
            q = r.random()
            lo, hi = (ds[0] * .8, ds[-1] * 1.3) if q < .5 else (ds[len(ds) // 3] * .95, ds[-1] * 2) if q < .75 else (0, ds[-1] * 1.2) if q < .9 else (ds[0] * .9, float('inf'))
            p = dict(source=f'c{m}.{s["kind"]}', type=typ, colour='#%02x%02x%02x' % (r.randrange(20, 120) * 2 + 1, r.randrange(20, 120) * 2, 7 + 16 * k), psym=r.choice(PSYM), error_bars=int(r.random() < .7), hide=int(r.random() < .15),
                     isochron=int(r.random() < .3), show_age=int(r.random() < .7), age_left=int(r.random() < .3), resurf=int(r.random() < .15 and typ in ('c-fit',)), resurf_showall=0,
                     binning=r.choice(STYLES[:-1] + ['none'] if r.random() < .3 else ['pseudo-log', '10/decade']), range=[float(f'{lo:.4g}'), float(f'{hi:.4g}')], name=r.choice(['', '', 'Unit A', 'fit', 'x 1', 'N(1)']), snap=int(r.random() < .7))
            plots.append(p)
            kv = ['source=' + p['source'], 'type=' + typ, 'colour=' + p['colour'], 'psym=' + p['psym'], f'error_bars={p["error_bars"]}', f'isochron={p["isochron"]}', f'range=[{lo:.4g},{hi:.4g}]', f'snap={p["snap"]}', 'binning=' + p['binning']]
            if p['hide'] or r.random() < .2: kv.append(f'hide={p["hide"]}')
            if not p['show_age'] or r.random() < .2: kv.append(f'show_age={p["show_age"]}')
            if p['age_left']: kv.append('age_left=1')
            if p['resurf']: kv.append('resurf=1')
            if p['name']: kv.append('name=' + p['name'])
            r.shuffle(kv); args += ['-p', ','.join(kv)]
        legend = r.choice(['fnacr', 'fnacr', '0', 'fna', 'n', 'f', 'c', 'N', 'nr', 'naN', 'pcr', 'fnapcrN', 'a', 'p'] + [''.join(x for x in 'fnapcrN' if r.random() < .5) or '0'])
        if r.random() < .8: args += ['-legend', legend]
        else: legend = 'default'
        opt = dict(bins=0, halo=-1, invert=0, style='natural', ef='', refd='1')
        if r.random() < .4: opt['halo'] = r.choice([0, 1]); args += ['-text_halo', str(opt['halo'])]
        if r.random() < .2: opt['invert'] = 1; args += ['-invert', '1']
        if r.random() < .3: opt['style'] = 'root-2'; args += ['-style', 'root-2']
        if r.random() < .15: args.append('-b'); opt['bins'] = 1
        if r.random() < .2: opt['ef'] = 'T'; args += ['-ef', 'trask']
        if r.random() < .2: args += ['-isochrons', r.choice(['1,3.5', '.1,4a', '3n'])]
        if r.random() < .2 and pres != 'Hartmann': args += ['-xrange', *r.choice([('-2', '2'), ('-1', '1'), ('-3', '3'), ('-1.5', '.5')])]
        if r.random() < .2 and pres != 'Hartmann': args += ['-yrange', *r.choice([('-5', '2'), ('-3', '1'), ('-7', '5')])]
        if r.random() < .15: opt['refd'] = r.choice(['10', '.5']); args += ['-ref_diameter', opt['refd']]
        if r.random() < .15: args += ['-pt_size', r.choice(['7', '12'])]
        if r.random() < .15: args += ['-pd', r.choice(['1.5', '10x8', '6x12'])]
        cases.append({'ev': 'figure', 'in': dict(plain=not opt['ef'] and '-isochrons' not in args, counts=S, pres=pres, pf=sy['pf'], cf=sy['cf'], plots=plots, legend=legend, args=args, **opt)})
    ctx.validate('T25', ctx.drive('c25', cases))
    ctx.need(MarksShown=150, ErrorBars=100, FitCurve=60, LegendEntries=150, AgeLabel=60, HiddenLeavesNoTrace=20, EarlierInFront=40, Isochron=10, TickLabels=150)
