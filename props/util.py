"""Helpers for drivers (worker side) and case generators; no checking happens here."""
import os, math
STYLES = ['pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'none']
MANT = [1., 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6., 7., 8., 9.]
PERDEC = {'x2': 1 / math.log10(2), 'root-2': 2 / math.log10(2), '4th root-2': 4 / math.log10(2), '10/decade': 10., '20/decade': 20.}

def edge(style, k, offset=0.):
    """approximate k-th boundary (a float near the grid boundary), only used to aim cases at boundaries"""
    if style == 'pseudo-log': return float(f'{MANT[k % 18]}e{k // 18}')
    return 10 ** ((k - offset) / PERDEC[style])

def write_diam(path, diam, frac=None, area='100.', extra=''):
    with open(path, 'w') as f:
        f.write(f'area = {area}\n{extra}\n')
        f.write('crater = {diameter' + (', fraction' if frac is not None else '') + '\n')
        for i, d in enumerate(diam):
            f.write(repr(d) + ('' if frac is None else '\t' + repr(frac[i])) + '\n')
        f.write('}\n')

def write_scc(path, diam, frac=None, area='100.', perimeter=None):
    with open(path, 'w') as f:
        f.write(f'Area_name = test\nTotal_area = {area} <km^2>\n')
        if perimeter is not None: f.write(f'Perimeter = {perimeter} <km>\n')
        f.write('crater = {diam, fraction, lon, lat, topo_scale_factor\n')
        for i, d in enumerate(diam):
            f.write(f'{d!r}\t{(1. if frac is None else frac[i])!r}\t10.0\t10.0\t1\n')
        f.write('}\n')

def write_stat(path, rows, area):
    """rows: (d_min, n) ascending; 11-column stat file with full-precision numbers"""
    ncum = []
    t = 0
    for d, n in reversed(rows): t += n; ncum.insert(0, t)
    with open(path, 'w') as f:
        f.write('# test stat\n#\n')
        for (d, n), c in zip(rows, ncum):
            f.write(f'{d!r} {n!r} {n/area!r} {math.sqrt(n)/area!r} {c!r} {c/area!r} {math.sqrt(c)/area!r} {d*1.1!r} 0.1 0.1 {n!r}\n')

def binned(cc):
    return {k: cc.binned[k] for k in ('d_min', 'd_max', 'bin_width', 'd_mean', 'n', 'n_event', 'ncum', 'ncum_event')}

def write_count(base, c):
    """c: kind, diam, frac, area, perimeter | rows; returns the file name"""
    if c['kind'] == 'diam': write_diam(base + '.diam', c['diam'], c['frac'], area=repr(c['area'])); return base + '.diam'
    if c['kind'] == 'scc': write_scc(base + '.scc', c['diam'], c['frac'], area=f"{c['area']:.9f}", perimeter=c.get('perimeter')); return base + '.scc'
    write_stat(base + '.stat', c['rows'], c['area']); return base + '.stat'

def random_count(r, kinds=('diam', 'scc', 'stat'), nmax=30, lo=-2., span=2.5, frac=True):
    kind = r.choice(kinds)
    area = float(f'{10 ** r.uniform(0, 5):.4g}')
    if kind == 'stat':
        k0 = r.randrange(-18, 20); m = r.randrange(2, 10)
        ks = sorted(r.sample(range(k0, k0 + 18), m))
        return {'kind': kind, 'rows': [(edge('pseudo-log', k), float(r.randrange(1, 40))) for k in ks], 'area': area, 'perimeter': None, 'diam': [], 'frac': []}
    m = r.randrange(1, nmax)
    a = r.uniform(lo, lo + 2)
    # roughly a power law of craters
    diam = [float(f'{10 ** (a + min(span, -math.log10(1 - r.random()) / 2)):.{r.choice([3, 4, 12])}g}') for _ in range(m)]
    if r.random() < .3: diam += [r.choice(diam) for _ in range(2)]
    fr = [r.choice([1., 1., .5, .25, round(r.random(), 3) + .001]) if frac else 1. for _ in diam]
    r.shuffle(diam)
    return {'kind': kind, 'diam': diam, 'frac': fr, 'area': area, 'perimeter': float(f'{area ** .5 * 4:.5g}') if kind == 'scc' and r.random() < .8 else None, 'rows': []}

def make_pf(coef, rng=(1e-4, 2e3), name='P'):
    import craterstats as cst
    return cst.Productionfn({'production': [{'name': name, 'coefficients': [repr(a) for a in coef], 'range': list(rng)}]}, name)

def make_cf(p, name='C'):
    import craterstats as cst
    return cst.Chronologyfn({'chronology': [{'name': name, 'coefficients': [repr(a) for a in p]}]}, name)

# production/chronology polynomials of the kind published (used as inputs; the published tables themselves are checked in C06/C07)
COEFS = [[-3.0768, -3.557528, 0.781027, 1.021521, -0.156012, -0.444058, 0.019977, 0.086850, -0.005874, -0.006809, 8.25e-4, 5.54e-5],
         [-2.8, -2.2], [-3.1, -3.1], [-2.5, -3.5, -0.2], [-4.0, -1.8, -0.05]]
CHRONS = [[5.44e-14, 6.93, 0., 8.38e-4], [2.68e-14, 6.93, 0., 4.13e-4], [1e-14, 7.1, 0., 2e-3]]
