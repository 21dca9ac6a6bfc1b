import os, math
from props.util import *
CASE_TIMEOUT = 60
ASSUMPTIONS = ['IEEE double arithmetic in TLC through the Nums override', 'grid boundaries compared to 1e-9 relative']

def drive(c):
    from craterstats import Cratercount
    i = c['in']
    f = 't.diam' if i['file'] == 'diam' else 't.scc'
    (write_diam if f == 't.diam' else write_scc)(f, i['diam'], i['frac'])
    cc = Cratercount(f)
    for s in i.get('before', []): cc.apply_binning(s)
    cc.apply_binning(i['style'], offset=i['offset']) if i['offset'] else cc.apply_binning(i['style'])
    return binned(cc)

def run(ctx):
    ctx.mc_bg('BinningMC', ctx.scale('BinningMC.cfg', 'BinningMC_big.cfg'), min_states=1000)
    gen = ctx.generate('BinningGen', ctx.scale('BinningGen.cfg', 'BinningGen_big.cfg'))['sets']
    r = ctx.rng
    cases = []
    def at(style, k, where, off=0.):
        x = edge(style, k, off)
        if where == 'below': return math.nextafter(x, 0)
        if where == 'above': return math.nextafter(x, 1e9)
        if where == 'mid': return math.sqrt(x * edge(style, k + 1, off))
        return x
    def add(style, diam, frac=None, offset=0., before=()):
        diam = list(diam)
        if frac is None: frac = [r.choice([1., 1., .5, round(r.random(), 3) + .001]) for _ in diam]
        cases.append({'ev': 'bin', 'in': {'style': style, 'diam': diam, 'frac': frac, 'offset': offset, 'file': r.choice(['diam', 'scc']), 'before': list(before)}})
    # every boundary of every grid between 1 m and 10000 km, with floating point neighbours
    for s in STYLES[:-1]:
        per = 18 if s == 'pseudo-log' else PERDEC[s]
        ks = range(int(-3 * per), int(4 * per) + 1)
        for k in ks:
            for w in ('below', 'on', 'above'): add(s, [at(s, k, w)], [1.])
    # TLC scenarios, at varying base boundary
    for n, S in enumerate(gen):
        for s in STYLES[:-1] if ctx.thorough else r.sample(STYLES[:-1], 3):
            base = r.randrange(-40, 60)
            add(s, [at(s, base + k, w) for k, w in S], before=r.choice([(), (), (r.choice(STYLES),)]))
    # random lists incl. repeated diameters, offsets, unbinned
    for n in range(ctx.scale(150, 2500)):
        s = r.choice(STYLES)
        m = r.choice([1, 2, 3, 5, 10, 30])
        lo = r.uniform(-3, 2.5); span = r.uniform(0, 2.5)
        off = r.choice([0., 0., .5, .25, .7]) if s not in ('none', 'pseudo-log') else 0.
        ds = [10 ** (lo + span * r.random()) for _ in range(m)]
        if r.random() < .3: ds = [float(f'{d:.2g}') for d in ds]
        if r.random() < .3 and s != 'none': ds[r.randrange(m)] = at(s, r.randrange(-30, 40), r.choice(['on', 'below', 'above']), off)
        if r.random() < .3: ds += [r.choice(ds) for _ in range(3)]
        if n % 5 == 0: s = 'none'; off = 0.
        r.shuffle(ds)
        add(s, ds, offset=off)
    ev = ctx.drive('c01', cases)
    ctx.validate('T01', ev)
    ctx.need(OnPublishedGrid=500, CountedInContainingBin=500, UnbinnedPairs=10, NoneLostOrDoubled=500)
