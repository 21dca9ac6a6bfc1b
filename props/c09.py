import os, random, glob
from props.util import *
from props.c22 import asc, noise
CASE_TIMEOUT = 60

def drive(c):
    import craterstats as cst
    i = c['in']
    def put(f):
        os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
        with open(f, 'wb') as h: h.write((b'\xef\xbb\xbf' if i.get('bom') else b'') + (i['raw'].replace('\n', i.get('nl', '\n')).encode('utf-8') if 'raw' in i else bytes(i['bytes'])))
    f = i['file']
    if c['ev'] == 'refused':
        if 'raw' in i or 'bytes' in i: put(f)
        cc = cst.Cratercount(f)
        return {'diam': repr(cc.diam)[:50]}
    if not os.path.isabs(f): put(f)
    if c['ev'] == 'spatial':
        s = cst.Spatialcount(f)
        return {'diam': list(s.diam), 'frac': list(s.fraction), 'lon': list(s.lon), 'lat': list(s.lat)}
    cc = cst.Cratercount(f)
    o = {'area': float(cc.area), 'prebinned': bool(cc.prebinned), 'buffered': bool(cc.buffered), 'perimeter': cc.perimeter}
    if c['ev'] == 'stat':
        return o | {'b': {k: [float(x) for x in cc.binned[k]] for k in ('d_min', 'd_max', 'n', 'n_event', 'ncum', 'bin_width', 'd_mean')}}
    return o | {'diam': [float(x) for x in cc.diam], 'frac': [float(x) for x in cc.fraction]}

def num(r, x, digits=None):
    """a number written in one of the usual ways"""
    k = r.choice(['repr', 'repr', 'fix', 'e', 'E', 'lead', 'plus', 'int'])
    if k == 'fix': return f'{x:.12f}' if x > 1e-3 else repr(x)
    if k == 'e': return f'{x:.{digits or 9}e}'
    if k == 'E': return f'{x:.{digits or 6}E}'
    if k == 'lead' and 0 < x < 1 and 'e' not in repr(x): return repr(x)[1:]
    if k == 'plus': return '+' + repr(x)
    if k == 'int' and x == int(x) and x < 1e15: return str(int(x)) + r.choice(['', '.'])
    return repr(x)
def quoted(r, t): q = r.choice('"\''); return q + t + q if r.random() < .07 else t

def crater_text(r, kind, spatial=False):
    dn = 'diameter' if kind == 'diam' else 'diam'
    n = r.choice([1, 1, 2, 3, 5, 12, 25])
    ds = [float(f'{10 ** r.uniform(-3, 2):.{r.choice([2, 3, 8, 16])}g}') for _ in range(n)]
    if n > 1 and r.random() < .5: ds[r.randrange(n)] = r.choice(ds)
    if r.random() < .3: ds.sort()
    elif r.random() < .3: ds.sort(reverse=True)
    cols = {dn: [num(r, d) for d in ds]}
    has_frac = r.random() < .6; buffered = kind == 'diam' and r.random() < .3
    if has_frac: cols['fraction'] = [num(r, r.choice([1., 1., .5, round(r.random(), 4) or .1, 0.])) for _ in ds]
    if buffered: cols['reference_area'] = [num(r, float(f'{10 ** r.uniform(0, 6):.5g}')) for _ in ds]
    if kind == 'scc' and (spatial or r.random() < .7) or r.random() < .3:
        cols['lon'] = [repr(r.uniform(-180, 180)) for _ in ds]; cols['lat'] = [repr(r.uniform(-80, 80)) for _ in ds]
    if r.random() < .3: cols['topo_scale_factor'] = ['1'] * n
    if r.random() < .2: cols['tag'] = [r.choice(['standard', 'x', '-', '7']) for _ in ds]
    if r.random() < .1: cols['Diam'] = ['9'] * n
    tags = list(cols)
    if r.random() < .6: r.shuffle(tags)
    w = lambda: r.choice(['\t', '\t', ' ', '   ', ' \t '])
    rows = [w().join(quoted(r, cols[t][k]) for t in tags) for k in range(n)]
    crater = [('crater' + r.choice([' = ', '=', ' =']) + '{' + r.choice([', ', ',', ' ,']).join(tags), True)] + [(x, True) for x in rows] + [('}', True)]
    area = float(f'{10 ** r.uniform(-5, 8):.{r.choice([1, 4, 8, 16])}g}')
    blocks = [crater]
    good = True
    no_area = r.random() < .06
    at = num(r, area) if r.random() < .8 else f'{area:g}'
    if kind == 'diam':
        if not no_area: blocks.append([('area' + r.choice([' = ', '=']) + quoted(r, at), True)])
    else:
        u = r.choice([' <km^2>', ' <km2>', '', '\t<km^2>', ' km^2'])
        at = at.lstrip('+')
        if not no_area: blocks.append([('Total_area = ' + at + u, True)])
        p = repr(float(f'{10 ** r.uniform(-3, 5):.6g}'))
        if r.random() < .4: blocks.append([('Perimeter = ' + p + r.choice([' <km>', '']), True)])
        if r.random() < .4: blocks.append([('Total_perimeter = ' + f'{10 ** r.uniform(-2, 7):g}' + r.choice([' <km>', '']), True)])
        if r.random() < .5: blocks.append([('Area_name = ' + r.choice(['Mare A', 'x1', "O'Brien"]), True)])
        b = [('unit_boundary = {vertex, sub_area, tag, lon, lat', True)]
        lo, la = r.uniform(-170, 160), r.uniform(-70, 60)
        for k, (x, y) in enumerate([(0, 0), (5, 0), (5, 5), (0, 5), (0, 0)]): b.append((f'{k + 1}\t1\text\t{lo + x!r}\t{la + y!r}', True))
        if spatial or r.random() < .6: blocks.append(b + [('}', True)])
        blocks.append([(r.choice(['a_axis_radius', 'a-axis radius']) + ' = 1737.4 <km>', True)])
    if r.random() < .3: blocks.append([('coordinate_system_name = Equirectangular_Moon', True)])
    if r.random() < .2: blocks.append([('note = "', None), ('crater counts of x', None), ('"', 'end')])
    if no_area and not buffered: good = False
    z = r.random()
    if not spatial and z < .12:      # damaged in one place
        k = r.choice(['cell', 'noname', 'nodiam', 'fraction'])
        if k == 'cell': j = r.randrange(1, n + 1); ws = crater[j][0].split(); ws[tags.index(dn)] = r.choice(['abc', '1.2.3', '-', '1,5']); crater[j] = ('\t'.join(ws), True); good = False
        if k == 'noname': crater[0] = (crater[0][0].replace('crater', 'craters'), True); good = False
        if k == 'nodiam': crater[0] = (crater[0][0].replace(dn, 'size'), True); good = False
        if k == 'fraction' and has_frac and not buffered: j = r.randrange(1, n + 1); ws = crater[j][0].split(); ws[tags.index('fraction')] = r.choice(['x', '--', '1/2']); crater[j] = ('\t'.join(ws), True); good = False
    if r.random() < .7: r.shuffle(blocks)
    else: blocks = blocks[1:] + blocks[:1]
    lines = [x for b in blocks for x in b]
    return (noise(r, lines) if r.random() < .7 else '\n'.join(x for x, f in lines) + '\n'), good, n

def stat_text(r):
    k0 = r.randrange(-18, 20); m = r.choice([2, 3, 5, 9, 16])
    ks = sorted(r.sample(range(k0, k0 + 22), m)) if r.random() < .6 else list(range(k0, k0 + m))
    ds = [edge('pseudo-log', k) for k in ks] if r.random() < .7 else sorted({round(10 ** r.uniform(-2, 2), 5) for _ in range(m)})
    m = len(ds); nc = r.choice([7, 11, 11])
    frac = nc == 11 and r.random() < .5
    ns = [r.choice([0, 1, 2, 5, 17, 300]) if not frac else round(r.uniform(.1, 20), 3) for _ in ds]; ns[-1] = ns[-1] or 1
    ev = [x if not frac or r.random() < .3 else int(x) + 1 for x in ns]
    area = 10 ** r.uniform(0, 5); t = 0; cum = []
    for x in reversed(ns): t += x; cum.insert(0, t)
    good = True; rows = []
    for d, x, c, e in zip(ds, ns, cum, ev):
        cells = [r.choice([f'{d:g}', f'{d:.4f}' if d > .01 else repr(d), repr(d)]), str(x), f'{x / area:.3E}', f'{x ** .5 / area:.2E}', f'{c:.6g}', f'{c / area:.{r.choice([2, 3, 9])}E}', f'{c ** .5 / area:.2E}']
        if nc == 11: cells += [f'{d * 1.05:.4g}', f'{x / d / area:.3E}', '1.0E-3', str(e)]
        rows.append(cells)
    # diameters as printed must ascend (rounding may merge them)
    v = [float(x[0]) for x in rows]
    if any(a >= b for a, b in zip(v, v[1:])): return stat_text(r)
    z = r.random()
    if z < .05: rows[r.randrange(m)][r.choice([0, 1, 4])] = r.choice(['abc', '1.2.3']); good = False
    elif z < .1: rows = [x[:r.choice([3, 5])] for x in rows]; good = False
    lines = []
    for x in rows:
        lines.append(r.choice(['', '  ', '\t']) + r.choice([' ', '\t', '     ']).join(x) + r.choice(['', '', ' ']))
        if r.random() < .15: lines.append(r.choice(['', '# comment', '   ', '  #x']))
    head = r.choice([[], ['# Exported stat file', '#', '# Total area = 5'], ['']])
    return '\n'.join(head + lines) + r.choice(['\n', '', '\n\n', '\n#----\n']), good, m

def layout(r): return dict(nl=r.choice(['\n', '\n', '\r\n', '\r']), bom=r.random() < .3)

def run(ctx):
    ctx.mc_bg('ReaderMC', ctx.scale('ReaderMC.cfg', 'ReaderMC_big.cfg'), min_states=1000)
    r = ctx.rng; cases = []
    for _ in range(ctx.scale(900, 9000)):
        kind = r.choice(['diam', 'diam', 'scc', 'scc', 'spatial'])
        text, good, n = crater_text(r, 'scc' if kind == 'spatial' else kind, kind == 'spatial')
        cases.append({'ev': kind, 'in': dict(file=r.choice(['c', 'my count', 'a.b', 'd/c-1']) + ('.diam' if kind == 'diam' else '.scc'), raw=text, text=asc(text), good=good, n=n) | layout(r)})
    for _ in range(ctx.scale(300, 3000)):
        text, good, n = stat_text(r)
        cases.append({'ev': 'stat', 'in': dict(file='t.stat', raw=text, text=asc(text), good=good, n=n) | layout(r)})
    for k, (f, more) in enumerate([('nofile.diam', {}), ('nofile.scc', {}), ('nofile.stat', {}), ('x_CRATER.shp', {}), ('c.txt', {'raw': 'area=1\ncrater={diameter\n1\n}\n'}), ('c.csv', {'raw': '1,2\n'}), ('c.binned', {'raw': 'area=1\n'}),
                                   ('c.xlsx', {'bytes': [80, 75, 3, 4, 200, 201]}), ('e.diam', {'raw': ''}), ('e.scc', {'raw': '\n\n'}), ('e.stat', {'raw': '# nothing\n'}), ('g.diam', {'bytes': [255, 254, 0, 200, 201, 10]}), ('g.stat', {'raw': 'Mare\nx y\n'}),
                                   ('noext', {'raw': 'area=1\n'}), ('d.scc', {'raw': 'crater = {diam\n1\n}\n'}), ('d.diam', {'raw': 'area = 5\n'}), ('h.shp', {'raw': 'no shape'})]):
        cases.append({'ev': 'refused', 'in': dict(file=f, names=f.split('.')[0]) | more})
    S = '/repo/src/craterstats/sample/'
    for f in sorted(glob.glob(S + '*.diam') + glob.glob(S + '*.scc') + glob.glob(S + '*.stat')):
        text = open(f, encoding='utf-8-sig').read(); text = text.replace('\r\n', '\n')
        body = text
        if len(body) > 250000: continue
        kind = f.rsplit('.', 1)[1]
        n = 0
        if kind != 'stat':
            m = body[body.rindex('\ncrater'):] if '\ncrater' in body else body
            n = len([x for x in m.split('}')[0].split('{')[1].split('\n')[1:] if x.strip() and not x.strip().startswith('#')])
        cases.append({'ev': kind, 'in': dict(file=f, text=asc(body), good=True, n=n, nl='\n', bom=False)})
        if kind == 'scc' and not f.endswith('/sample.scc'): cases.append({'ev': 'spatial', 'in': dict(file=f, text=asc(body), good=True, n=n, nl='\n', bom=False)})
    ctx.validate('T09', ctx.drive('c09', cases))
    ctx.need(Pairs=600, Buffered=600, BinN=180, Positions=100, UnreadableRefused=60, Refused=15)
