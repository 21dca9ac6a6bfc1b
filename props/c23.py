import os, math
from props.sph import *
CASE_TIMEOUT = 60
def drive(c):
    import craterstats as cst
    i = c['in']
    if c['ev'] == 'scc':
        open('a.scc', 'w').write(i['text'])
        s = cst.Spatialcount('a.scc')
        return {'area': s.area, 'perimeter': s.perimeter, 'radius': s.planetary_radius}
    for f in os.listdir('.'): os.remove(f)
    w = c['in']['write']
    write_pair('s', i['R'], w['proj'], i['c'], w['shapes'], w['craters'], R2=w.get('R2'), area_base=w.get('area'), mode=w['mode'])
    s = cst.Spatialcount('s_CRATER.shp', *([w['area'] + '.shp'] if w.get('area') else []))
    k = cst.Cratercount('s_CRATER.shp', *([w['area'] + '.shp'] if w.get('area') else []))
    return {'area': s.area, 'perimeter': s.perimeter, 'radius': s.planetary_radius, 'diam': list(s.diam), 'frac': [float(x) for x in s.fraction], 'lon': list(s.lon), 'lat': list(s.lat),
            'cc': {'area': k.area, 'perimeter': k.perimeter, 'diam': [float(x) for x in k.diam], 'frac': [float(x) for x in k.fraction]}}

RADII = [1737.4, 3396.19, 6371., 2439.7, 469.7, .2515, 11.27]
def craters(r, parts, c, rho):
    out = []; qs = rings(parts)
    for _ in range(r.choice([1, 3, 5, 8])):
        rad = rho * 10 ** r.uniform(-2.2, -.6); z = r.random()
        if z < .6:          # about the boundary
            q = r.choice(qs); k = r.randrange(len(q)); p = between(q[k], q[(k + 1) % len(q)], r.choice([0., r.random(), r.random()]))
            if r.random() < .3: rad = rho * 10 ** r.uniform(-.9, -.3)
            p = at(p, r.uniform(0, 360), rad * r.uniform(0, 1.2))
        elif z < .8: p = at(c, r.uniform(0, 360), rho * r.uniform(0, .5))
        else: p = at(c, r.uniform(0, 360), rho * r.uniform(.3, 2))
        n = r.choice([8, 12, 20, 36, 60]); noise = r.choice([0., 0., 0., .01])
        if noise: n = 12
        if all(dist(p, o['c']) > 1e-3 * (rad + o['rad']) for o in out): out.append({'c': p, 'rad': rad, 'n': n, 'regular': noise == 0, 'ring': circle(p, rad, n, r.uniform(0, 360), noise, r)})
    return out
def shp_case(r):
    parts, c, rho = make_area(r); R = r.choice(RADII); cr = craters(r, parts, c, rho)
    proj = r.choice(['geo1', 'geo1', 'geo2', 'laea', 'stere', 'eqc', 'sinu', 'merc'])
    if proj in ('eqc', 'sinu', 'merc') and (abs(c[1]) > 60 or rho > .2): proj = 'laea'
    flip = r.random() < .3
    o = lambda q, rev: turned(q[::-1] if rev != flip else q, r.randrange(len(q)))
    recs = [[o(p['shell'], True)] + [o(h, False) for h in p['holes']] for p in parts]
    if r.random() < .3: recs = [[q[0]] + r.sample(q[1:], len(q) - 1) for q in recs]
    if r.random() < .4: recs = [[q for k in recs for q in k]]
    if r.random() < .15: q = r.choice(r.choice(recs)); j = r.randrange(len(q)); q.insert(j, list(q[j]))
    r.shuffle(recs)
    order = r.sample(range(len(cr)), len(cr))
    w = dict(proj=proj, mode=r.choice(['pm180', '0-360', 'cont']), shapes=recs, craters=[turned(q[::-1] if r.random() < .5 else q, r.randrange(len(q))) for q in (cr[k]['ring'] for k in order)])
    if r.random() < .1: w['area'] = 'other'
    return {'ev': 'shp', 'in': dict(R=R, c=c, parts=parts, craters=cr, write=w, projected=proj not in ('geo1', 'geo2'))}
def scc_case(r):
    parts, c, rho = make_area(r); R = r.choice(RADII)
    b = []
    for p in parts: b += [('ext', p['shell'])] + [('int', h) for h in p['holes']]
    if r.random() < .3: r.shuffle(b)
    nums = r.choice([list(range(1, len(b) + 1)), list(range(0, len(b))), r.sample(range(1, 40), len(b))])
    bd = []
    for k, (t, q) in zip(nums, b):
        q = turned(q[::-1] if r.random() < .5 else q, r.randrange(len(q))); q = wrapped(q + q[:1] if r.random() < .7 else q, r.choice(['pm180', '0-360', 'cont']))
        if r.random() < .2: j = r.randrange(len(q)); q = q[:j + 1] + q[j:]
        bd.append((k, t, q))
    cr = [(1., 1., c[0], c[1])]
    text = scc_text(R, bd, cr, header=r.choice(['a_axis_radius = %s <km>', 'a_axis_radius = %s', 'a-axis radius = %s <km>']))
    return {'ev': 'scc', 'in': dict(R=R, text=text, octool='a-axis' in text, n=len(bd))}

def run(ctx):
    ctx.mc_bg('SphereMC', ctx.scale('SphereMC.cfg', 'SphereMC_big.cfg'), workers=3, min_states=3000)
    r = ctx.rng
    cases = [shp_case(r) for _ in range(ctx.scale(110, 1500))] + [scc_case(r) for _ in range(ctx.scale(130, 1500))]
    for _ in range(4):
        k = shp_case(r); k['ev'] = 'radii'; k['in']['write']['R2'] = k['in']['R'] * 1.01; cases.append(k)
    ctx.validate('T23', ctx.drive('c23', cases))
    ctx.need(Area=180, Perimeter=180, WhollyInside=40, CutFraction=120, OutsideDropped=35, Diameter=180, Centre=180, TrueDiameter=120, RadiiRefused=4)
