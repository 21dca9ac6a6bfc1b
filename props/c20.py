import os, math
from props.ra import *
CASE_TIMEOUT = 120
def drive(c):
    import craterstats as cst, spherely as sph, numpy as np
    i = c['in']
    for f in os.listdir('.'): os.remove(f)
    write('a', i['R'], i['parts'], [(i['diam'], *i['c'])])
    ra = cst.Randomnessanalysis('a.scc')
    ra.establish_hpx(i['grid'])
    pp = ra.self_pp(i['grid'], i['measure'])
    np.random.seed(i['seed'])
    out = []
    for _ in range(i['repeat']):
        pts = module().sprinkle_discs_pp(pp, i['n'], i['diam'])[0]
        out.append([[sph.get_x(p), sph.get_y(p)] for p in pts])
    return {'configs': out}
def plane(p, q): return cross(vec(p), vec(q))
def extent(parts): return sum(flat_area(p['shell']) - sum(flat_area(h) for h in p['holes']) for p in parts)
def flat_area(q):      # rough size of a ring on the unit sphere (Girard over a fan about its middle)
    m = unit(tuple(map(sum, zip(*map(vec, q))))); s = 0
    for a, b in zip(q, q[1:] + q[:1]):
        a, b = vec(a), vec(b); s += 2 * math.atan2(dot(m, cross(a, b)), 1 + dot(m, a) + dot(a, b) + dot(b, m))
    return abs(s)
def case(r, ev):
    small = r.random() < .2
    parts, c, rho = make_area(r, rho=10 ** r.uniform(-5, -2) if small else None if ev == 'config' or r.random() < .3 else 10 ** r.uniform(-.7, -.05))
    R = r.choice([1737.4, 3396.19, .2515, 469.7]); a = extent(parts)
    measure = r.choice(['m2cnd', 'sdaa']); grid = r.choice([1, 5, 10, 30, 100, 300, 1000, 3000])
    if ev == 'spread':
        n = 800; f = 1e-7; rep = 1
    else:
        n = r.choice([1, 2, 3, 5, 8, 15, 30]); f = 10 ** r.uniform(-2, -.4); rep = r.choice([1, 2, 3])
        if n == 1 and r.random() < .5: f = r.choice([2, 10])
        if r.random() < .3: n = r.choice([40, 80]); f = r.uniform(.2, .4); grid = max(1, round(10 * math.pi * n / (4 * f) / r.uniform(1.5, 10) ** 2))      # many craters astride cells somewhat larger than them
    diam = min(R * math.sqrt(4 * f * a / (math.pi * n)), 3 * R)
    planes = []; pieces = []
    if ev == 'spread':
        for _ in range(5):
            p = at(r.choice([c, r.choice(rings(parts))[0]]), r.uniform(0, 360), rho * r.uniform(0, .6)); z = r.uniform(0, 360)
            planes.append([list(map(repr, plane(p, at(p, z, .3)))), list(map(repr, plane(p, at(p, z + r.uniform(30, 150), .3))))])
        for _ in range(6):
            p = at(c, r.uniform(0, 360), rho * r.uniform(0, 1)); s = rho * r.uniform(.1, .6); z = r.uniform(0, 360)
            pieces.append([at(p, z + 60 * k, s) for k in range(6)])
    return {'ev': ev, 'in': dict(R=R, parts=parts, c=c, n=n, diam=diam, grid=grid, measure=measure, seed=r.randrange(2 ** 31), repeat=rep, planes=planes, pieces=pieces)}
def run(ctx):
    ctx.mc_bg('SprinkleMC', ctx.scale('SprinkleMC.cfg', 'SprinkleMC_big.cfg'), workers=3, min_states=5000)
    ctx.mc_neg_bg('SprinkleMC', 'SprinkleMC_neg.cfg', 'Separation')
    r = ctx.rng
    cases = [case(r, 'config') for _ in range(ctx.scale(500, 5000))] + [case(r, 'spread') for _ in range(ctx.scale(48, 500))]
    ctx.validate('T20', ctx.drive('c20', cases))
    ctx.need(ExactNumber=700, InsideArea=700, Separated=650, Uniform=800, UniformPieces=200, ConfigurationsDiffer=200)
