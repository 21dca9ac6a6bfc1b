import os, math
from props.util import *
CASE_TIMEOUT = 60

def text(l):
    if l['kind'] == 'bin': return f"b{l['n']}"
    return l.get('t', repr(l['v']))

def drive(c):
    from craterstats import Cratercount, Craterplot
    i = c['in']; f = write_count('t', i)
    lims = [i['bad'] if i['invalid'] and k == i['badpos'] else text(l) for k, l in enumerate(i['lims'])]
    if i.get('asfloat'): lims = [l if l['kind'] == 'bin' else l['v'] for l in i['lims']]; lims = [text(l) if isinstance(l, dict) else l for l in lims]
    cc = Cratercount(f)
    if i['before']: cc.decode_range(['0', 'inf'], i['before'], 1)
    r = list(cc.decode_range(lims, i['style'], int(i['snap'])))
    again = list(Cratercount(f).decode_range([float(e) for e in r], i['style'], 1)) if i['snap'] else r
    p = Craterplot({'source': f, 'range': lims, 'binning': i['style'], 'snap': str(int(i['snap']))}).range
    cb = Cratercount(f)
    if not cb.prebinned: cb.apply_binning(i['style'])
    return {'r': r, 'again': again, 'plot': list(p), 'b': binned(cb)}

def run(ctx):
    ctx.mc_bg('RangeMC', ctx.scale('RangeMC.cfg', 'RangeMC_big.cfg'), min_states=500)
    g = ctx.generate('RangeGen', 'RangeGen.cfg')
    r = ctx.rng; cases = []
    def add(cnt, style, lims, snap, **k):
        cases.append({'ev': 'range', 'in': dict(cnt, style=style, lims=lims, snap=bool(snap), invalid=k.get('invalid', False), bad=k.get('bad', ''), badpos=k.get('badpos', 0),
                                                before=k.get('before', ''), asfloat=k.get('asfloat', False))})
    val = lambda v, t=None: {'kind': 'val', 'v': v, 'n': 0, 't': t or repr(v)}
    binr = lambda n: {'kind': 'bin', 'n': n, 'v': 0., 't': ''}
    # TLC scenarios: occupied bins of a small window x limit tokens
    toks = g['tokens']; pats = g['patterns']
    combos = [(p, a, b, s) for p in pats for a in toks for b in toks for s in (0, 1)]
    for p, a, b, s in (r.sample(combos, min(len(combos), ctx.scale(1200, 9000)))):
        style = r.choice(STYLES); k0 = r.randrange(-30, 40)
        st = style if style != 'none' else 'root-2'
        e = lambda x: edge(st, k0 + x)
        mid = lambda x: math.sqrt(e(x) * e(x + 1))
        diam = [mid(k) * r.uniform(.99, 1.01) for k in p for _ in range(r.choice([1, 1, 2]))]
        def lim(t):
            if t[0] == 'b': return binr(t[1])
            if t[0] == 'on': return val(float(f'{e(t[1]):.6g}') if r.random() < .3 else e(t[1]))
            if t[0] == 'in': return val(float(f'{mid(t[1]):.7g}'))
            if t[0] == 'inf': return val(float('inf'), 'inf')
            return val(0., '0')
        add({'kind': r.choice(['diam', 'scc']), 'diam': diam, 'frac': [1.] * len(diam), 'area': 100., 'perimeter': None, 'rows': []}, style, [lim(a), lim(b)], s,
            before=r.choice(['', '', r.choice(STYLES)]), asfloat=r.random() < .2)
    for n in range(ctx.scale(300, 3000)):
        cnt = random_count(r, nmax=15)
        style = r.choice(STYLES)
        st = 'pseudo-log' if cnt['kind'] == 'stat' else style
        ds = cnt['diam'] or [x[0] for x in cnt['rows']]
        def lim():
            q = r.random()
            if q < .35: return binr(r.randrange(-12, 13))
            if q < .45: return val(float('inf'), 'inf')
            if q < .5: return val(0., '0')
            if q < .7: return val(r.choice(ds))
            if q < .85: return val(edge(st if st != 'none' else 'x2', r.randrange(-20, 30)))
            return val(float(f'{r.choice(ds) * 10 ** r.uniform(-1, 1):.3g}'))
        if r.random() < .08: add(cnt, style, [lim(), lim()], r.random() < .5, invalid=True, bad=r.choice(['abc', 'b', 'bx', '1km', 'b1.5', '']), badpos=r.randrange(2))
        else: add(cnt, style, [lim(), lim()], r.random() < .6, before=r.choice(['', r.choice(STYLES)]))
    ctx.validate('T03', ctx.drive('c03', cases))
    ctx.need(Decoded=1000, BinRefLower=150, Idempotent=300, InvalidRefused=5, Outward=200)
