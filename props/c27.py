import math, os, re
from props.util import *
from props import clirun, fig, pub
from props.c26 import SYS, asc, ticks
CASE_TIMEOUT = 120
BODY = dict(re.findall(r'name \|-> "((?:[^"])*)", cf [^\n]*body \|-> "(\w+)"', pub.T))
XR = [None, None, ('4.2', '.01'), ('4.5', '.0001'), ('3.6', '1e-4'), ('4.3', '2'), ('4', '.5'), ('4.5', '1'), ('3.2', '.05'), ('3.0', '.001'), ('4.5', '0')]
YR = [None, None, ('-1', '6'), ('2', '9'), ('-2', '3'), ('4', '8'), ('0', '7.8')]

def seen(fg, i, cps):
    import numpy as np
    from matplotlib.colors import to_hex
    fg.canvas.draw()
    im = next(x for a in fg.axes for x in a.images); ax = im.axes; cb = im.colorbar
    a = np.ma.filled(np.ma.masked_invalid(np.ma.array(im.get_array(), dtype=float)), np.nan)
    if im.origin == 'upper': a = a[::-1]
    x0, y0 = ax.transData.transform((im.get_extent()[0], im.get_extent()[2])); x1, y1 = ax.transData.transform((im.get_extent()[1], im.get_extent()[3]))
    col = [to_hex(c) for c in im.to_rgba(np.arange(9.))]
    tk = []
    for at, lb in zip(cb.ax.yaxis.get_majorticklocs(), cb.ax.yaxis.get_majorticklabels()):
        s = asc(lb.get_text()).strip()
        m = re.fullmatch(r'\\mathdefault\{(.*)\}', s.strip('$'))
        if s: tk.append({'at': float(at), 's': m[1] if m else s, 'rgb': to_hex(cb.cmap(cb.norm(at)))})
    f = lambda p: ax.transAxes.inverted().transform(p)
    polys = [[[float(u), float(v)] for u, v in f(p.get_transform().transform(p.get_path().vertices[:-1]))] for p in ax.patches if len(p.get_path().vertices) > 3]
    T = [{'s': t.get_text(), 'x': float(f(t.get_transform().transform(t.get_position()))[0]), 'y': float(f(t.get_transform().transform(t.get_position()))[1])} for t in ax.texts]
    axes = [q for q in fg.axes if q is not ax and q is not cb.ax and q.axison and q.bbox.width > 1e-6 and not q.images and q.get_xlim()[0] > q.get_xlim()[1]]
    yy = next(q for q in fg.axes if q.get_yscale() == 'log')
    o = {'a': a, 'at': [float(x0), float(x1), float(y0), float(y1)], 'frame': [float(v) for v in (ax.bbox.x0, ax.bbox.x1, ax.bbox.y0, ax.bbox.y1)], 'kcol': col, 'ticks': tk, 'label': asc(str(cb.ax.get_ylabel())),
         'polys': polys, 'texts': T, 'axes': sorted(({'x0': float(q.bbox.x0), 'x1': float(q.bbox.x1), 't0': float(q.get_xlim()[0]), 't1': float(q.get_xlim()[1]), 'log': q.get_xscale() == 'log'} for q in axes), key=lambda z: z['x0']),
         'tticks': [ticks(q.xaxis, 'time') for q in sorted(axes, key=lambda q: q.bbox.x0)], 'ylim': [math.log10(v) for v in yy.get_ylim()], 'ybox': [float(yy.bbox.y0), float(yy.bbox.y1)],
         'yticks': [[float(p), asc(l.get_text())] for p, l in zip(yy.yaxis.get_majorticklocs(), yy.yaxis.get_majorticklabels()) if l.get_text()]}
    return o

def drive(c):
    i = c['in']; clirun.fresh(); clirun.record(); clirun.install(); M = {}
    def hook(fg, name): M[name] = seen(fg, i, clirun.CPSETS[-1])
    clirun.install.hook = hook
    try: r = clirun.main(i['args'])
    finally: clirun.install.hook = None
    if r['exit']: return {'exit': r['exit'], 'msg': r['msg']}
    ext = i['fmt'][0]
    o = {'exit': '', 'created': r['created']}
    m = {t: M.get(f'x_{t}.{ext}') for t in ('k', 'err', 'age')}
    if None in m.values(): return dict(o, maps='missing')
    k, e, a = (m[t].pop('a') for t in ('k', 'err', 'age'))
    o['shapes'] = [list(x.shape) for x in (k, e, a)]; o['maps'] = m
    o['k'] = [[int(v) for v in row] for row in k.tolist()]
    S = sorted(i['cells'])
    ny, nx = k.shape
    n = ny * nx
    def cell(j): y, x = j // nx, j % nx; return {'r': y + 1, 'c': x + 1, 'k': int(k[y][x]), 'err': float(e[y][x]), 'age': float(a[y][x]) if math.isfinite(a[y][x]) else 'None'}
    cells = [d for d in (cell(int(u * n)) for u in S) if d['k'] < 8]
    big = [d for d in (cell(j) for j in range(n)) if d['k'] >= 8]; big = big[::1 + len(big) // 200]
    o['cells'], o['big'] = cells, big
    return o

def run(ctx):
    ctx.mc_bg('UncertaintyMC', ctx.scale('UncertaintyMC.cfg', 'UncertaintyMC_big.cfg'), min_states=800)
    ctx.mc_neg_bg('UncertaintyMC', 'UncertaintyMC_neg.cfg', 'InPlace')
    r = ctx.rng; cases = []
    for _ in range(ctx.scale(45, 450)):
        sy = r.choice(SYS); fmt = r.choice([['png'], ['pdf'], ['png', 'svg']]); pfr = next(f for f in pub.PROD if f['name'] == sy['pf'])['range']
        lo = max(.02, pfr[0]) if pfr else .02
        d = f'{min(20., max(lo * 1.01, 10 ** r.uniform(-1.6, 1.2))):.3g}'; n = r.choice([7, 10, 12, 16, 20, 26])
        args = ['-pr', 'uncertainty', '-cs', sy['name'], '-o', 'x', '-f', *fmt, '-d_min' if r.random() < .5 else '--min_diameter', d, '-ns', str(n)]
        i = dict(cf=sy['cf'], pf=sy['pf'], body=BODY[sy['name']], d=d, n=n, fmt=fmt, xr=[], yr=[], ef='', pd='', cells=[r.random() for _ in range(70)])
        x, y = r.choice(XR), r.choice(YR)
        if x: args += ['-xrange', *x]; i['xr'] = list(x)
        if y: args += ['-yrange', *y]; i['yr'] = list(y)
        if r.random() < .6: i['ef'] = r.choice(pub.EQUIL)['name']; args += ['-ef', i['ef']]
        if r.random() < .3: i['pd'] = r.choice(['10x8', '6x9', '12x6']); args += ['-pd', i['pd']]
        if r.random() < .2: args += ['-invert', '1']
        cases.append({'ev': 'map', 'in': dict(i, args=args)})
    ctx.validate('T27', ctx.drive('c27', cases))
    ctx.need(MapFiles=25, CountsSimulated=25, MeasuredAges=20, Uncertainties=20, KLabels=25, GlobeAndSaturation=15)
