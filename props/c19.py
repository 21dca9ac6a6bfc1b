import os, math
from props.ra import *
CASE_TIMEOUT = 120
def drive(c):
    import craterstats as cst, spherely as sph
    i = c['in']
    for f in os.listdir('.'): os.remove(f)
    write('a', i['R'], i['parts'], list(zip(i['diam'], i['lon'], i['lat'])))
    if c['ev'] == 'stored': write_ra('a_ra.txt', {i['measure']: {'T': i['T'], 'bins': [(b['key'], b['trials']) for b in i['stored']]}})
    ra = cst.Randomnessanalysis('a.scc')
    if c['ev'] == 'run': ra.max_threads = 2
    ra.run_montecarlo(i['T'], i['measure'])
    ra.calculate_stats()
    m = ra.montecarlo[i['measure']]
    out = []
    for b, s in m['stats'].items():
        cr = ra.get_bin_craters(b, Craterlist=True)
        d = dict(key=b, order=[[x, y] for x, y in zip(cr.lon, cr.lat)], m0=s.m0, mn=s.mn, sd=s.sd, n_sigma=s.n_sigma, percentile=s.percentile, trials=list(m['trials'][b]))
        if i['measure'] == 'm2cnd': d['nb'] = [[sph.get_x(p), sph.get_y(p)] for p in s.p2]
        else: d['cells'] = [sph.area(p, radius=ra.planetary_radius) for p in s.p2]
        out.append(d)
    return {'bins': out}

def place(r, c, rho, n, measure):
    """positions: spread, clustered, strings, pairs, about the corners of the grid's base cells"""
    z = r.random(); q = []
    if z < .5: q = [at(c, r.uniform(0, 360), rho * math.sqrt(r.random()) * .9) for _ in range(n)]
    elif z < .65:
        s = rho * 10 ** r.uniform(-2, -.5); c0 = at(c, r.uniform(0, 360), rho * r.uniform(0, .5)); q = [at(c0, r.uniform(0, 360), s * math.sqrt(r.random())) for _ in range(n)]
    elif z < .8:
        cs = [at(c, r.uniform(0, 360), rho * r.random()) for _ in range(r.choice([2, 3]))]; s = rho * 10 ** r.uniform(-2.5, -1); q = [at(r.choice(cs), r.uniform(0, 360), s * math.sqrt(r.random())) for _ in range(n)]
    elif z < .9:
        a = r.uniform(0, 360); q = [at(at(c, a, rho * r.uniform(-.9, .9)), r.uniform(0, 360), rho * .03 * r.random()) for _ in range(n)]
    else:
        q = [at(c, r.uniform(0, 360), rho * 10 ** r.uniform(-2, 0)) for _ in range(n)]
        if measure == 'm2cnd' and n > 3: q[1] = list(q[0]); q[2] = at(q[0], 0, rho * 1e-6)
    return q
def thinness(q):
    import numpy as np
    v = np.array([vec(p) for p in q]); return np.linalg.svd(v - v[0], compute_uv=False)[-1]
def case(r, ev):
    if ev == 'run': parts, c, rho = make_area(r, rho=10 ** r.uniform(-2, -.7), simple=True)
    elif r.random() < .25:      # about places where the sky grid has special cells
        c = r.choice([[45. * k, s * 41.810314895778596] for k in range(8) for s in (1, -1)] + [[90. * k, 0.] for k in range(4)] + [[45., 90.], [0., -90.]])
        rho = 10 ** r.uniform(-2, -.3); parts = [{'shell': star(r, c, rho), 'holes': []}]
    else: parts, c, rho = make_area(r)
    measure = r.choice(['m2cnd', 'm2cnd', 'sdaa']) if ev == 'stored' else r.choice(['m2cnd', 'sdaa'])
    R = r.choice([1737.4, 3396.19, .2515, 469.7]); k0 = r.randrange(-16, 8)
    if ev == 'run': k0 = math.floor(2 * math.log2(.06 * rho * R)) - 8      # craters small against the area, so that simulated populations fit
    lo, hi = (3, 26) if measure == 'm2cnd' else (4, 16)
    D, P = [], []; bins = []; flat = False
    for k in r.sample(range(k0, k0 + 8), r.choice([1, 2, 3])):
        n = r.choice([1, 2, 3, 4, lo, lo + 1, r.randrange(lo, hi)])
        D += [diam_in(r, k) for _ in range(n)]; P += place(r, c, rho, n, measure)
        if n >= lo: bins.append(k); flat = flat or thinness(P[-n:]) < 1e-7
    if measure == 'sdaa' and flat: return case(r, ev)      # all but on one circle of tiny extent: below the resolution of the Voronoi routine
    if measure == 'sdaa' and any(dist(p, q) < 3e-5 for x, p in enumerate(P) for q in P[:x]): return case(r, ev)
    if ev == 'run' and not bins: return case(r, ev)
    T = r.choice([1, 2, 5, 10, 30, 100, 300, 1000]) if ev == 'stored' else r.choice([4, 7])
    s = []
    for k in sorted(bins):
        q = 10 ** r.uniform(-3, 3); s.append({'key': key(k), 'trials': [float(f'{q * (1 + .3 * r.gauss(0, 1)):.7g}') for _ in range(T)]})
    o = r.sample(range(len(D)), len(D))
    if ev == 'stored' and s and r.random() < .8:      # trials about the size of the measure itself
        for b in s: b['trials'] = [x for x in b['trials']]
    return {'ev': ev, 'in': dict(R=R, parts=parts, diam=[D[x] for x in o], lon=[P[x][0] for x in o], lat=[P[x][1] for x in o], measure=measure, T=T, stored=s if ev == 'stored' else [])}
def run(ctx):
    ctx.mc_bg('MeasuresMC', ctx.scale('MeasuresMC.cfg', 'MeasuresMC_big.cfg'), workers=3, min_states=20000)
    ctx.mc_neg_bg('MeasuresMC', 'MeasuresMC_neg.cfg', 'Correct')
    r = ctx.rng
    cases = [case(r, 'stored') for _ in range(ctx.scale(320, 4000))] + [case(r, 'run') for _ in range(ctx.scale(12, 100))]
    ctx.validate('T19', ctx.drive('c19', cases))
    ctx.need(M2cnd=150, Sdaa=60, Neighbours=150, CellsInOrder=60, AnalysedBins=300, Score=150, Percentile=150)
