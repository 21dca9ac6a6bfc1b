import os, glob, shutil
from props.sph import *
from props.ra import boundary
from props.util import write_diam, edge
from props.c09 import crater_text, stat_text
from props.c22 import asc
CASE_TIMEOUT = 200
def ll(q): return [[float(x), float(y)] for x, y in q]
def shapes(base):
    """what a GIS sees: crater and area rings in degrees, attributes, radius in km"""
    import shapefile, pyproj
    o = {}
    for name, part in ((base + '_CRATER', 'craters'), (base + '_AREA', 'area')):
        crs = pyproj.CRS.from_wkt(open(name + '.prj').read())
        t = None if crs.is_geographic else pyproj.Transformer.from_crs(crs, crs.geodetic_crs, always_xy=True)
        R = crs.ellipsoid.semi_major_metre / 1e3
        with shapefile.Reader(name) as f:
            if not len(f): o[part] = []; continue
            rs = []
            for sh, rec in zip(f.shapes(), f.records()):
                cut = list(sh.parts) + [len(sh.points)]
                qs = [sh.points[a:b] for a, b in zip(cut, cut[1:])]
                qs = [ll(q if t is None else zip(*t.transform(*zip(*q)))) for q in qs]
                rs.append((qs, rec.as_dict()))
        o[part] = [q for q, _ in rs] if part == 'area' else [dict(ring=q[0], diam=d.get('Diam_km', 0.), x=d.get('x_coord', 0.), y=d.get('y_coord', 0.)) for q, d in rs]
    return o | {'R': R}
def text(f): return asc(open(f, encoding='utf-8-sig').read())
def before(f):
    import craterstats as cst
    if not os.path.exists(f): return {}
    if f.endswith('_CRATER.shp'):
        c = cst.Cratercount(f)
        return shapes(f[:-len('_CRATER.shp')]) | {'read': dict(diam=[float(x) for x in c.diam], frac=[float(x) for x in c.fraction], area=float(c.area), perimeter='' if c.perimeter is None else float(c.perimeter))}
    return {'text': text(f)}
def back(f):
    import craterstats as cst
    try:
        if f.endswith('.stat'): c = cst.Cratercount(f); return dict(n=[float(x) for x in c.binned['n']], d_min=[float(x) for x in c.binned['d_min']], area=float(c.area))
        if f.endswith('.diam'): c = cst.Cratercount(f); return dict(diam=[float(x) for x in c.diam], frac=[float(x) for x in c.fraction], area=float(c.area))
        s = cst.Spatialcount(f)
        return dict(area=s.area, perimeter=s.perimeter, radius=s.planetary_radius, diam=[float(x) for x in s.diam], lon=list(s.lon), lat=list(s.lat))
    except SystemExit as x: return {'exit': str(x.code)}
def prepare(i):
    for f in i['files']:
        if f['kind'] == 'text': open(f['name'], 'wb').write(f['raw'].encode())
        else: write_pair(f['name'], f['R'], f['proj'], f['c'], f['shapes'], f['craters'], mode=f['mode'])
    os.makedirs('d', exist_ok=True)
def drive(c):
    from props import clirun
    i = c['in']; home = os.getcwd()
    try:
        clirun.fresh('run'); prepare(i); steps = []
        for cmd in i['cmds']:
            args = list(cmd['opt'])
            quoted = [f'"{f}"' if ' ' in f else f for f in cmd['fs']]
            if cmd['op'] == 'merge': args += ['-m'] + quoted
            else: args += ['--convert', cmd['fmt'], cmd['fs'][0]]
            if cmd['input']:
                open(cmd['input'], 'w').write('\n'.join(args) + '\n') if not cmd['opt'] else None
                args = ['-i', cmd['input']]
            if cmd['out']: args += ['-o', cmd['out']]
            there = sorted(clirun.snapshot()); bf = {f: before(f) for f in sorted(set(cmd['fs']))}
            r = clirun.main(args)
            s = dict(cmd={k: v for k, v in cmd.items() if k not in ('opt',)}, there=there, before=bf, exit=r['exit'], msg=r['msg'], created=r['created'], changed=r['changed'], removed=r['removed'], text='', shape='', back='')
            new = r['created'] + r['changed']; main = [f for f in new if f.endswith(('.diam', '.stat', '.scc', '_CRATER.shp'))]
            if not r['exit'] and len(main) == 1:
                if main[0].endswith('.shp'): s['shape'] = shapes(main[0][:-len('_CRATER.shp')])
                else: s['text'] = text(main[0])
                s['back'] = back(main[0])
            steps.append(s)
        return {'steps': steps}
    finally: os.chdir(home)

RADII = [1737.4, 3396.19, 6371., 2439.7, 469.7, .2515, 11.27]
def spatial(r, n=None):
    parts, c, rho = make_area(r); R = r.choice(RADII); cr = []; n = n or r.choice([1, 2, 3, 5, 8])
    big = math.log10(min(.05, .35 * rho))
    q = parts[0]['shell']; q = at(c, 0, 0) if len(q) == 3 else [(q[0][0] + q[2][0]) / 2, (q[0][1] + q[2][1]) / 2] if len(q) == 4 else between(c, q[0], .45 * rho / dist(c, q[0]))
    cr.append((q, float(f'{max(1e-3 / R, min(.05, .01 * rho)):.4g}')))     # one surely inside
    for _ in range(200):
        if len(cr) == n: break
        rad = float(f'{10 ** r.uniform(big - 2, big):.4g}')
        if R * rad * 2 < 2e-3: rad = 1e-3 / R * r.uniform(1, 5)
        p = at(c, r.uniform(0, 360), rho * r.uniform(.02, .95))
        if all(dist(p, q) > 2.2 * (rad + s) and abs(math.log(rad / s)) > 5e-3 for q, s in cr): cr.append((p, rad))
    return parts, c, rho, R, cr
def scc_file(r, name, R, parts, cr):
    b = boundary(parts); k = r.random()
    bd = []
    for j, t, q in b:
        q = turned(q[::-1] if r.random() < .5 else q, r.randrange(len(q))); bd.append((j, t, wrapped(q + q[:1] if r.random() < .7 else q, r.choice(['pm180', '0-360', 'cont']))))
    k = [(float(f'{2 * R * s:.6g}'), r.choice([1., 1., .5, .25, .875]), p[0], p[1]) for p, s in cr]
    return dict(kind='text', name=name, raw=scc_text(R, bd, k, totals=(float(f'{10 ** r.uniform(0, 6):.6g}'), float(f'{10 ** r.uniform(0, 4):.6g}'))))
def shp_file(r, name, R, c, rho, parts, cr):
    proj = r.choice(['geo1', 'geo1', 'geo2', 'laea', 'stere', 'eqc', 'sinu', 'merc'])
    if proj in ('eqc', 'sinu', 'merc') and (abs(c[1]) > 60 or rho > .2): proj = 'laea'
    o = lambda q, rev: turned(q[::-1] if rev else q, r.randrange(len(q)))
    recs = [[o(p['shell'], True)] + [o(h, False) for h in p['holes']] for p in parts]
    if r.random() < .4: recs = [[q for k in recs for q in k]]
    return dict(kind='pair', name=name, R=R, c=c, proj=proj, mode=r.choice(['pm180', '0-360', 'cont']), shapes=recs, craters=[o(circle(p, s, r.choice([12, 20, 36, 60]), r.uniform(0, 360)), True) for p, s in cr])
def lists(r, n):
    d = []
    while len(d) < n:
        x = float(f'{10 ** r.uniform(-2, 1.5):.{r.choice([2, 3, 5, 6])}g}')
        if all(y == x or abs(math.log(x / y)) > 3e-3 for y in d): d.append(x)
    return d + ([r.choice(d)] if r.random() < .5 else [])
def diam_file(r, name):
    d = lists(r, r.choice([1, 2, 4, 9])); fr = [r.choice([1., 1., .5, .3333, .125]) for _ in d] if r.random() < .6 else None
    return dict(kind='text', name=name, raw=f'area = {10 ** r.uniform(-3, 6)!r}\n' + 'crater = {diameter' + (', fraction' if fr else '') + '\n' + ''.join(f'{x!r}' + (f'\t{fr[k]!r}' if fr else '') + '\n' for k, x in enumerate(d)) + '}\n')
def cmd(op, fs, out='', fmt='', dir=False, input='', opt=()): return dict(op=op, fs=list(fs), out=out, fmt=fmt, dir=dir, input=input, opt=list(opt))
def four(r):
    parts, c, rho, R, cr = spatial(r, 2); p2, c2, rho2, R2, cr2 = spatial(r, 2)
    return [diam_file(r, 'a.diam'), scc_file(r, 'b.scc', R, parts, cr), shp_file(r, 'c', R2, c2, rho2, p2, cr2), dict(kind='text', name='p.stat', raw=next(t for t, g, n in iter(lambda: stat_text(r), 0) if g))]
def edgefree(text):
    for line in text.split('\n'):
        for w in line.split():
            try: x = float(w.strip('"\''))
            except ValueError: continue
            if x > 0:
                k = math.floor(math.log10(x)); f = x / 10 ** k
                if any(0 < abs(f / m - 1) < 1e-6 for m in (1, 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2, 2.5, 3, 3.5, 4, 4.5, 5, 6, 7, 8, 9, 10)): return False
    return True
def good_text(r, kind, buffered=None, spatial=False):
    while 1:
        t, good, n = crater_text(r, kind, spatial)
        if good and edgefree(t) and (buffered is None or ('reference_area' in t) == buffered): return t
def run(ctx):
    ctx.mc_bg('ExchangeMC', ctx.scale('ExchangeMC.cfg', 'ExchangeMC_big.cfg'), workers=2, min_states=500)
    ctx.mc_neg_bg('ExchangeMC', 'ExchangeMC_neg.cfg', 'Conserved')
    r = ctx.rng; cases = []
    gen = ctx.generate('ExchangeGen', ctx.scale('ExchangeGen.cfg', 'ExchangeGen_big.cfg'))['runs']
    first = [g for g in gen if len(g) == 1]; gen = [g for g in gen if len(g) > 1]; gen = first + r.sample(gen, min(len(gen), ctx.scale(80, 4000)))      # every single command
    for g in gen: cases.append({'ev': 'history', 'in': dict(files=four(r), cmds=[cmd(k['op'], k['fs'], k['out'], k.get('fmt', ''), k.get('dir', False)) for k in g])})
    for _ in range(ctx.scale(50, 1500)):        # merges of 2-4 texts, in two orders
        fs = []
        for k in range(r.choice([2, 2, 3, 4])):
            kind = r.choice(['diam', 'scc']); fs.append(dict(kind='text', name=r.choice(['', 'x-', 'my ', 'B_']) + f'{r.choice("abcz")}{k}.{kind}', raw=good_text(r, kind, False)))
        ns = [f['name'] for f in fs]; ns = ns + [ns[0]] if r.random() < .15 else ns
        out = r.choice(['', 'm', 'm.diam', 'm.txt', 'd/m', 'm n'])
        cases.append({'ev': 'merge', 'in': dict(files=fs, cmds=[cmd('merge', ns, out), cmd('merge', r.sample(ns, len(ns)), 'other'), cmd('merge', ['other.diam', ns[0]], 'again')])})
    for _ in range(ctx.scale(80, 2000)):       # binned tables
        kind = r.choice(['diam', 'diam', 'scc']); n = r.choice(['s', 'my count', 'A_1', 'a.b', 'SCRATER_x']) + '.' + kind
        cases.append({'ev': 'stat', 'in': dict(files=[dict(kind='text', name=n, raw=good_text(r, kind, spatial=kind == 'scc'))], cmds=[cmd('convert', [n], *r.choice([('',), ('x',), ('x.stat',), ('d/x',)]), fmt='stat'), cmd('convert', [n], 'd', 'stat', True)])})
    for k in range(ctx.scale(60, 2000)):       # between text and shapefile, and back again
        parts, c, rho, R, cr = spatial(r)
        if r.random() < .5:
            cases.append({'ev': 'scc', 'in': dict(files=[scc_file(r, 'q.scc', R, parts, cr)], cmds=[cmd('convert', ['q.scc'], fmt='shp'), cmd('convert', ['q_CRATER.shp'], 'w', 'scc'), cmd('convert', ['w.scc'], 'd', 'shp', True)])})
        else:
            cases.append({'ev': 'shp', 'in': dict(files=[shp_file(r, 'q', R, c, rho, parts, cr)], cmds=[cmd('convert', ['q_CRATER.shp'], fmt='scc'), cmd('convert', ['q.scc'], 'w', 'shp'), cmd('convert', ['q_CRATER.shp'], fmt='stat')])})
    for _ in range(ctx.scale(20, 200)):         # other commands, plot files, missing sources
        fs = four(r); src = r.choice(['a.diam', 'b.scc', 'c_CRATER.shp', 'p.stat', 'no.scc', 'no_CRATER.shp']); fmt = r.choice(['stat', 'scc', 'shp', 'png', 'svg', 'txt', 'diam', 'csv', 'xyz'])
        q = [cmd('convert', [src], fmt=fmt, input='plot.cs'), cmd('convert', [src], 'd', fmt, True), cmd('convert', [src], 'x', fmt, input='z/plot.cs' if False else 'plot.cs'), cmd('merge', ['a.diam', 'none.diam'], r.choice(['', 'm'])), cmd('merge', ['b.scc', 'p.stat', 'a.diam'])]
        cases.append({'ev': 'others', 'in': dict(files=fs, cmds=r.sample(q, 3))})
    ctx.validate('T14', ctx.drive('c14', cases))
    ctx.need(MergedCraters=120, MergedPerimeter=120, EveryBin=90, BinCumulative=90, TextBoundary=35, ShapeBoundary=50, ShapeCratersBack=50, NothingWritten=60, Names=300)
