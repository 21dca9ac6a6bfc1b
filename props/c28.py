import math, os, re
from props.util import *
from props.ra import *
from props import fig
CASE_TIMEOUT = 120
NOTE = """Layout of the chart (cells, selections) model-checked; every drawing operation of maps, charts and panels of the real command line is read from the figure as it is
saved, projected back to the sphere or the axis, and validated by TLC against the input files and stored results."""
TECHNIQUE = 'TLA+ specification of the layout and of the view (RaFigure), TLC model checking, TLC validation of recorded drawing operations'


def shown(f):
    """everything of a figure, in fractions of the figure; axes with their ranges"""
    it = fig.recorder(f); W, H = f.bbox.width, f.bbox.height
    A = []
    for a in f.axes:
        p = a.get_position()
        A.append(dict(rect=[float(x) for x in (p.x0, p.y0, p.x1, p.y1)], xlim=[float(v) for v in a.get_xlim()], ylim=[float(v) for v in a.get_ylim()], equal=a.get_aspect() == 1., visible=bool(a.get_visible()),
                      ticks=[tick(float(x), t.get_text()) for x, t in zip(a.xaxis.get_majorticklocs(), a.xaxis.get_majorticklabels()) if t.get_text() and a.get_visible()]))
    O = []
    for x in it:
        if x['legend'] or x['kind'] == 'image': continue
        k = next((n + 1 for n, a in sorted(enumerate(f.axes), key=lambda z: z[1].get_aspect() != 1.) if a.get_visible() and fig.inside(a, x)), 0)      # (a map may fill its cell)
        if x['kind'] == 'text': O.append(dict(kind='text', ax=k, at=[x['v'][0][0] / W, x['v'][0][1] / H], s=asc(x['s']))); continue
        if x['kind'] == 'marks' and len(x['shape']) == 2 or x['kind'] == 'path' and not k and x['face'] and len(x['v']) > 40: continue      # ticks, outlined letters
        v = [[a / W, b / H] for a, b in x['v'] if math.isfinite(a) and math.isfinite(b)]
        loop = len(v) > 3 and math.hypot(v[0][0] - v[-1][0], v[0][1] - v[-1][1]) < 1e-6
        O.append(dict(kind=x['kind'], ax=k, turn=[1 if a > 0 else -1 for a in turns(v)] if x['face'] and x['kind'] == 'path' else [], enclosed=turns(v) if x['kind'] == 'path' and (x['face'] or loop) else [], rgb=x['rgb'], face=x['face'], loop=loop or x.get('closed', False), dash=x['dash'], n=len(v), v=v if x['face'] or len(v) <= 40 else thin(v)))
    return dict(axes=A, items=[x for x in O if x['kind'] != 'text'], texts=[x for x in O if x['kind'] == 'text'] + [dict(kind='text', ax=k + 1, at=[float(z) for z in f.transFigure.inverted().transform(t.get_transform().transform(t.get_position()))], s=asc(t.get_text())) for k, a in enumerate(f.axes) if a.get_visible() for t in a.texts if '\n' in t.get_text()])
def turns(v):
    q, R = [], []
    for p in v:
        if not q and R and math.hypot(p[0] - R[-1][0][0], p[1] - R[-1][0][1]) < 1e-9: continue
        q.append(p)
        if len(q) > 1 and math.hypot(p[0] - q[0][0], p[1] - q[0][1]) < 1e-9: R.append(q); q = []
    if len(q) > 2: R.append(q)
    return [.5 * sum((a[0] - q[0][0]) * (b[1] - q[0][1]) - (a[1] - q[0][1]) * (b[0] - q[0][0]) for a, b in zip(q, q[1:] + q[:1])) for q in R]
def tick(at, s):
    m = re.fullmatch(r' *([\d.e+-]+)(?:\$\\,\$)? *(km\u00b2|km|m|)', s.replace('\u2212', '-'))
    return {'at': at, 'num': m[1], 'unit': asc(m[2])} if m else {'at': at, 'num': 'nan', 'unit': asc(s)}
def asc(s): return s.replace('\n', '|').replace('\u2013', '{en}').replace('\u00b2', '2').replace('\u00b0', '{deg}').replace('\u2212', '-').replace('\U0001d707', '{mu}').encode('ascii', 'replace').decode()
def thin(v): n = len(v); return [v[(n - 1) * k // 23] for k in range(24)]

def drive(c):
    import craterstats as cst
    from props import clirun
    i = c['in']; clirun.fresh(); M = module()
    figs = []
    if 'area' in i:
        write('a', i['R'], i['area'], list(zip(i['diam'], i['lon'], i['lat'])))
        if i['shp']:
            with quiet(): clirun.main(['--convert', 'shp', 'a.scc'])
    for n, s in enumerate(i.get('counts', [])):
        f = write_count(f'c{n}', s)
        if s['stored']: write_ra(f'c{n}_ra.txt', s['stored'], s['scores'])
    if c['ev'] == 'chart': write_ra('a_ra.txt', {m['measure']: {'T': m['T'], 'bins': [(b['key'], b['trials']) for b in m['bins']]} for m in i['stored']})
    def hook(f, name): figs.append(dict(shown(f), file=name, frame=[float(x) for x in frame(f)]))
    def frame(f):
        p = f.axes[0].get_position(original=True); return (p.x0, p.y0, p.x1, p.y1)
    clirun.record(); clirun.install.hook = hook
    try: r = clirun.main(i['args'])
    finally: clirun.install.hook = None
    o = dict(exit=r['exit'], msg=r['msg'], figs=figs, m0=[], points=[])
    if r['exit']: return o
    if c['ev'] == 'chart':
        ra = cst.Randomnessanalysis('a.scc')
        with quiet():
            for m in i['stored']: ra.run_montecarlo(m['T'], m['measure'])
            ra.calculate_stats()
        o['m0'] = [dict(measure=m, key=b, m0=float(s.m0)) for m in ra.montecarlo for b, s in ra.montecarlo[m]['stats'].items()]
    if c['ev'] == 'panel':
        cps = clirun.CPSETS[-1]
        for p in cps.craterplot:
            q = cst.Cratercount(p.source).getplotdata(cps.presentation, p.binning, range=p.range, pf=cps.pf)
            o['points'].append([[float(a), float(b)] for a, b in zip(q['d'], q['y'])])
    return o
class quiet:
    def __enter__(self):
        import io, contextlib; self.c = contextlib.redirect_stdout(io.StringIO()); self.c.__enter__()
    def __exit__(self, *a): self.c.__exit__(*a)

def far(q): return all(dist(a, b) > 1e-4 for n, a in enumerate(q) for b in q[:n])
def craters(r, c, rho, R):
    k0 = math.floor(2 * math.log2(.1 * rho * R)) - 8; B = {}
    for k in r.sample(range(k0, k0 + 9), r.choice([1, 1, 2, 3, 4])): B[k] = r.choice([1, 2, 3, 4, 4, 5, 7, 9])
    P = [at(c, r.uniform(0, 360), rho * .45 * math.sqrt(r.random())) for n in B.values() for _ in range(n)]
    D = [diam_in(r, k) for k, n in B.items() for _ in range(n)]
    z = list(zip(D, P)); r.shuffle(z)
    return [x[0] for x in z], [x[1] for x in z], B
def area_case(r, poles=True):
    while True:
        parts, c, rho = make_area(r, rho=10 ** r.uniform(-2.3, -.4), kinds=['plain', 'plain', 'hole', 'holes', 'parts'])
        R = r.choice([1737.4, 3396.19, 469.7]); D, P, B = craters(r, c, rho, R)
        if not poles and abs(c[1]) > 70: continue
        if far(P): return parts, R, D, P, B
def numbers(r, T):
    m = 10 ** r.uniform(-2, 4); s = m * 10 ** r.uniform(-2, -.3)
    return [float(f'{max(m * 1e-3, r.gauss(m, s)):.7g}') for _ in range(T)]
def chart(r):
    parts, R, D, P, B = area_case(r)
    ms = r.choice([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa']]); stored = []; T = r.choice([4, 9, 16, 40, 100, 300])
    for m in ms:
        bins = [k for k in sorted(B) if B[k] >= (3 if m == 'm2cnd' else 4)]
        scale = rough(D, P, R)
        stored.append(dict(measure=m, T=T + r.choice([0, 0, 3]), bins=[dict(key=key(k), k=k, n=B[k], trials=numbers(r, T + 3)) for k in bins]))
        for b in stored[-1]['bins']:
            b['trials'] = b['trials'][:stored[-1]['T']]
            if m == 'm2cnd' and r.random() < .7: f = scale[b['k']] / (sum(b['trials']) / len(b['trials'])) * 10 ** r.uniform(-.15, .15); b['trials'] = [float(f'{x * f:.7g}') for x in b['trials']]
    if not any(m['bins'] for m in stored): return chart(r)
    sel = r.choice([None, None, [0], [1], [0, 2], [2, 3], [1, 2, 3], [9], [0, 1], [3, 1], [4]])
    inv = int(r.random() < .2); out = r.choice(['', '', 'x'])
    args = ['-ra', 'a.scc', '-trials', str(T), '-f', 'png'] + (['-measure', ','.join(ms)] if len(ms) == 1 or r.random() < .3 else []) + (['-select', ','.join(map(str, sel))] if sel is not None else []) + (['-invert', '1'] if inv else []) + (['-o', out] if out else [])
    if r.random() < .2: args += ['-pd', r.choice(['10x10', '8x8', '2'])]
    return {'ev': 'chart', 'in': dict(R=R, area=parts, shp=0, diam=D, lon=[p[0] for p in P], lat=[p[1] for p in P], stored=stored, select=sorted(sel or []), ink=['#000000', '#ffffff'][inv], out=out or 'a', exit='', args=args)}
def rough(D, P, R):
    S = {}
    for k in {math.floor(2 * math.log2(d)) for d in D}:
        q = [p for d, p in zip(D, P) if math.floor(2 * math.log2(d)) == k]
        if len(q) > 2: S[k] = R * sum(sorted(dist(p, z) for z in q)[2] for p in q) / len(q)
    return S
def mapped(r):
    parts, R, D, P, B = area_case(r, poles=False); inv = int(r.random() < .2); shp = int(r.random() < .4 and not any(p['holes'] for p in parts)); out = r.choice(['', '', 'x'])
    args = ['--convert', 'png', 'a_CRATER.shp' if shp else 'a.scc'] + (['-invert', '1'] if inv else []) + (['-o', out] if out else [])
    return {'ev': 'map', 'in': dict(R=R, area=parts, shp=shp, diam=D, lon=[p[0] for p in P], lat=[p[1] for p in P], ink=['#000000', '#ffffff'][inv], file=(out or 'a') + '_map.png', exit='', args=args)}
def panel(r):
    S = []
    for _ in range(r.choice([1, 1, 2, 3])):
        s = random_count(r, kinds=('diam', 'scc'), nmax=60, lo=-1., span=1.5); s['stored'] = {}; s['scores'] = []
        if r.random() < .9:
            k0 = math.floor(2 * math.log2(min(s['diam']))); ks = sorted(r.sample(range(k0, k0 + 9), r.choice([1, 2, 3, 5])))
            for m in r.choice([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa']]): s['stored'][m] = dict(T=r.choice([10, 300]), bins=[(key(k), [1., 2.]) for k in ks])
            for m in s['stored']: s['scores'].append(dict(measure=m, T=s['stored'][m]['T'], bins=[dict(k=k, s=f'{r.choice([-1, 1]) * 10 ** r.uniform(-1.5, .8):.4g}' if r.random() < .85 else '-') for k in ks]))
        S.append(s)
    pres = r.choice(['cumulative', 'differential', 'R-plot', 'Hartmann']); plots = []; args = ['-pr', pres, '-o', 'x', '-f', 'png']
    for k in range(r.choice([1, 2, 3])):
        m = r.randrange(len(S)); s = S[m]; typ = r.choice(['data'] * 6 + ['c-fit'])
        p = dict(count=m + 1, type=typ, colour='#%02x%02x%02x' % (r.randrange(20, 120) * 2 + 1, r.randrange(20, 120) * 2, 7 + 16 * k), hide=int(r.random() < .12), binning=r.choice(['pseudo-log', 'root-2', '10/decade'] * 3 + ['none']), psym=r.choice(['o', 's', 'fs', 'x']))
        plots.append(p); args += ['-p', f"source=c{m}.{s['kind']},type={typ},colour={p['colour']},hide={p['hide']},binning={p['binning']},psym={p['psym']}"]
    show = r.choice([1, 1, 1, 1, 0]); off = r.choice([0, 0, 0, 5, -3]); inv = int(r.random() < .2)
    if show == 0 or r.random() < .2: args += ['-ra_show', str(show)]
    if off: args += ['-ra_offset', str(off)]
    if r.random() < .15: args += ['-xrange', *r.choice([('-1', '1'), ('-2', '0'), ('0', '2')])]
    if inv: args += ['-invert', '1']
    return {'ev': 'panel', 'in': dict(counts=S, pres=pres, plots=plots, show=show, offset=off, ink=['#000000', '#ffffff'][inv], exit='', args=args)}
def write_ra(path, stored, scores=None):
    ks = sorted({b for m in stored.values() for b, _ in m['bins']}, key=float)
    L = ['# Randomness analysis', 'version = 3.6', 'source = "x"', '#', 'n_sigma = {bin, ' + ', '.join(stored)]
    sc = {(x['measure'], key(b['k'])): b['s'] for x in scores or [] for b in x['bins']}
    L += ['\t'.join([b] + [sc.get((m, b), '-') for m in stored]) for b in ks] + ['}']
    for n, m in stored.items():
        bs = m['bins'] if not scores else []
        L += ['#', n + ' = {', f"n_trials = {m['T']}", 'trials = {' + ', '.join(['index'] + [b for b, _ in bs])]
        L += ['\t'.join([str(t)] + [repr(q[t]) for _, q in bs]) for t in range(m['T'] if not scores else 0)] + ['}', '}']
    open(path, 'w').write('\n'.join(L) + '\n')

def run(ctx):
    ctx.mc_bg('RaFigureMC', ctx.scale('RaFigureMC.cfg', 'RaFigureMC_big.cfg'), min_states=200)
    ctx.mc_neg_bg('RaFigureMC', 'RaFigureMC_neg.cfg', 'OwnCell')
    r = ctx.rng
    cases = [chart(r) for _ in range(ctx.scale(120, 1200))] + [mapped(r) for _ in range(ctx.scale(80, 800))] + [panel(r) for _ in range(ctx.scale(140, 1400))]
    r.shuffle(cases)
    ctx.validate('T28', ctx.drive('c28', cases))
    ctx.need(PanelMarks=30, Bars=60, CraterOutlines=100, Neighbours=20, Cells=20, CellsFillArea=20, ScoreMarks=30, AreaOutline=100, GridLines=20)
