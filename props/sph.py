"""Counting areas and crater outlines on the sphere: generation and writing as files (used by C14, C19, C20, C23)."""
import math, os, random
def vec(p): x, y = math.radians(p[0]), math.radians(p[1]); return (math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y))
def lonlat(v): return [math.degrees(math.atan2(v[1], v[0])), math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def unit(a): n = math.sqrt(dot(a, a)); return tuple(x / n for x in a)
def at(c, az, d):
    """point at distance d (radians) from c in direction az (degrees, counterclockwise)"""
    v = vec(c); k = (0, 0, 1) if abs(v[2]) < .9 else (1, 0, 0)
    e = unit(cross(k, v)); n = cross(v, e); a = math.radians(az)
    return lonlat(tuple(math.cos(d) * v[i] + math.sin(d) * (math.cos(a) * e[i] + math.sin(a) * n[i]) for i in range(3)))
def dist(p, q): a, b = vec(p), vec(q); return 2 * math.asin(min(1, math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))) / 2))
def between(p, q, t): a, b = vec(p), vec(q); return lonlat(unit(tuple(x * (1 - t) + y * t for x, y in zip(a, b))))
def star(r, c, rho, m=None, lo=.5):
    """counterclockwise ring around c, everywhere farther than about lo/sqrt(2)*rho from it and nearer than rho"""
    m = m or r.choice([6, 7, 8, 11, 16]); a0 = r.uniform(0, 360)
    return [at(c, a0 + 360 * (k + r.uniform(0, .5)) / m, rho * r.uniform(lo, 1)) for k in range(m)]
def circle(c, rad, n, a0=0., noise=0., r=None):
    return [at(c, a0 + 360 * k / n, rad * (1 + (noise * r.uniform(-1, 1) if noise else 0))) for k in range(n)]
def box(lon, lat, w, h, ns=1):
    q = [(0, 0), (1, 0), (1, 1), (0, 1)]
    return [[lon + w * x, lat + h * y] for x, y in q]

CENTRES = [lambda r: [r.uniform(-180, 180), r.uniform(-75, 75)], lambda r: [r.uniform(-180, 180), r.uniform(-75, 75)], lambda r: [r.uniform(178, 182), r.uniform(-60, 60)],
           lambda r: [r.uniform(-180, 180), r.choice([-1, 1]) * r.uniform(80, 90)], lambda r: [r.choice([0., 37.]), r.choice([-90., 90.])], lambda r: [r.uniform(-1, 1), r.uniform(-1, 1)]]

def make_area(r, rho=None, simple=False, kinds=None):
    """-> (parts, centre, rho); parts: [{'shell': ring, 'holes': [ring]}], rings counterclockwise and open"""
    c = r.choice(CENTRES)(r); rho = rho or 10 ** r.uniform(-2.5, -.1)
    kind = r.choice(kinds or ['plain', 'plain', 'hole', 'holes', 'parts', 'island', 'box', 'triangle', 'fine'])
    if simple: kind = 'plain'
    if kind == 'box' and abs(c[1]) < 60 and rho < .5:
        w = math.degrees(rho); return [{'shell': box(c[0], c[1], w / math.cos(math.radians(c[1])) * r.uniform(.3, 1), w * r.uniform(.3, 1)), 'holes': []}], c, rho
    if kind == 'triangle':
        a0 = r.uniform(0, 360); return [{'shell': [at(c, a0 + d, rho * r.uniform(.4, 1)) for d in (0, 110, 230)], 'holes': []}], c, rho
    if kind == 'fine': return [{'shell': star(r, c, rho, r.choice([40, 60]), .9), 'holes': []}], c, rho
    if kind in ('plain', 'hole', 'box'):
        return [{'shell': star(r, c, rho), 'holes': [star(r, at(c, r.uniform(0, 360), rho * r.uniform(0, .15)), rho * r.uniform(.02, .18))] if kind == 'hole' else []}], c, rho
    if kind == 'holes':
        a0 = r.uniform(0, 360); k = r.choice([2, 3])
        return [{'shell': star(r, c, rho), 'holes': [star(r, at(c, a0 + 360 * j / k, rho * .2), rho * r.uniform(.03, .12)) for j in range(k)]}], c, rho
    if kind == 'island':
        h = star(r, c, rho * .33, lo=.75); i = star(r, at(c, r.uniform(0, 360), rho * .02), rho * r.uniform(.05, .13))
        ps = [{'shell': star(r, c, rho), 'holes': [h]}, {'shell': i, 'holes': [star(r, c, rho * .012)] if False else []}]
        return ps, c, rho
    if rho > .4: rho = .4
    a0 = r.uniform(0, 360); ps = [{'shell': star(r, c, rho), 'holes': [star(r, c, rho * .2)] if r.random() < .5 else []}]
    for j in range(r.choice([1, 1, 2])):
        s = r.uniform(.2, .8)
        cc = at(c, a0 + 120 * j + r.uniform(-20, 20), rho * (1.05 + s)); ps.append({'shell': star(r, cc, rho * s), 'holes': [star(r, cc, rho * s * .2)] if r.random() < .4 else []})
    return ps, c, rho
def rings(parts): return [q for p in parts for q in [p['shell']] + p['holes']]
def wrapped(ring, mode):
    if mode == 'pm180': return [[(x + 180) % 360 - 180, y] for x, y in ring]
    if mode == '0-360': return [[x % 360, y] for x, y in ring]
    q = [list(p) for p in ring]                      # continuous
    for a, b in zip(q, q[1:]):
        while b[0] - a[0] > 180: b[0] -= 360
        while b[0] - a[0] < -180: b[0] += 360
    return q
def turned(ring, k): return ring[k:] + ring[:k]
def crosses_seam(parts):
    for q in rings(parts):
        if any(abs(y) > 80 for x, y in q) or any(abs(a[0] - b[0]) > 180 for a, b in zip(wrapped(q, 'pm180'), wrapped(turned(q, 1), 'pm180'))): return True
    return False

def wkt(R, proj, c):
    import pyproj
    if proj == 'geo1':
        m = f'{R * 1e3:.10g}'
        return f'GEOGCS["GCS_X",DATUM["D_X",SPHEROID["X_Sphere",{m},0.0]],PRIMEM["Reference_Meridian",0.0],UNIT["Degree",0.0174532925199433]]'
    s = {'geo2': '+proj=longlat', 'laea': f'+proj=laea +lat_0={c[1]} +lon_0={c[0]}', 'stere': f'+proj=stere +lat_0={c[1]} +lon_0={c[0]}', 'eqc': f'+proj=eqc +lon_0={c[0]} +lat_ts=0',
         'sinu': f'+proj=sinu +lon_0={c[0]}', 'merc': f'+proj=merc +lon_0={c[0]}'}[proj]
    w = pyproj.CRS.from_proj4(s + f' +R={R * 1e3:.10g} +units=m +no_defs').to_wkt('WKT1_ESRI' if proj != 'geo2' else 'WKT2_2019')
    return w.replace('\n', '')
def projector(w):
    import pyproj
    crs = pyproj.CRS.from_wkt(w)
    if crs.is_geographic: return lambda q: [list(map(float, p)) for p in q]
    t = pyproj.Transformer.from_crs(crs.geodetic_crs, crs, always_xy=True)
    def f(q):
        x, y = t.transform([p[0] for p in q], [p[1] for p in q]); return [[float(a), float(b)] for a, b in zip(x, y)]
    return f
def write_pair(base, R, proj, c, area_shapes, craters, R2=None, area_base=None, mode='pm180'):
    """area_shapes: list of records, each a list of rings already oriented; craters: list of rings"""
    import shapefile
    for name, shapes, rad in ((base + '_CRATER', [[q] for q in craters], R), ((area_base or base + '_AREA'), area_shapes, R2 or R)):
        w = wkt(rad, proj, c); f = projector(w)
        s = shapefile.Writer(name, shapeType=5); s.field('tag', 'C', 20)
        for q in shapes:
            s.record('standard'); s.poly([f(wrapped(x + x[:1], mode)) for x in q])
        s.close()
        open(name + '.prj', 'w').write(w)
def scc_text(R, boundary, craters, header='a_axis_radius = %s <km>', totals=(1., 1.), extra=()):
    """boundary: [(number, tag, ring)]"""
    L = ['# Spatial crater count', header % f'{R:g}', f'Total_area = {totals[0]:.9g} <km2>', f'Total_perimeter = {totals[1]:.9g} <km>', *extra, 'unit_boundary = {vertex, sub_area, tag, lon, lat']
    n = 0
    for k, tag, q in boundary:
        for x, y in q: n += 1; L.append(f'{n}\t{k}\t{tag}\t{x!r}\t{y!r}')
    return '\n'.join(L + ['}', 'crater = {diam, fraction, lon, lat'] + [f'{d!r}\t{f!r}\t{x!r}\t{y!r}' for d, f, x, y in craters] + ['}', ''])
