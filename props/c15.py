import math, os, re
from props.util import *
CASE_TIMEOUT = 60
NUM = r'(?:-?[\d.]+|-?inf|-?nan)'
def asc(s): return s.replace('\U0001d707', '{mu}').replace('\u2013', '{en}').replace('"', "'")
def latex(s):
    """numerals of a Latex text (no judgement: the specification composes the text again from them)"""
    m = re.fullmatch(r'\$(?:\{mu\})?([^ ^$\\]*)(?:\^\{\+([^}]*)\}_\{-([^}]*)\})?(?:\\cdot10\^\{(-?\d+)\})?\$.*', s)
    return None if not m else {'v': m[1], 'up': m[2] or '', 'dn': m[3] or '', 'exp': int(m[4] or 0)}
def mathml(s):
    m = re.fullmatch(r"<math [^>]*>(?:<mi>[^<]*</mi>)?(?:<msubsup><mtext>([^<]*)</mtext><mtext>&#x2212;([^<]*)</mtext><mtext>\+([^<]*)</mtext></msubsup>|([^<]*))(?:<mo>&#183;</mo><msup><mtext>10</mtext><mtext>(-?\d+)</mtext></msup>)?(?:<m.*>)?</math>", s)
    return None if not m else {'v': m[1] or m[4], 'up': m[3] or '', 'dn': m[2] or '', 'exp': int(m[5] or 0)}
def age_only(k): return k and {x: k[x] for x in ('v', 'up', 'dn')}

def drive(c):
    import craterstats as cst, craterstats.gm as gm, numpy as np
    i = c['in']; ev = c['ev']
    F = lambda x: float(x)
    if ev == 'sig':
        v = i['v']; t = gm.sigfigs(v, i['n'])
        vs = i['vs']; L = {'list': vs, 'tuple': tuple(vs), 'array': np.array(vs)}[i['kind']]
        return {'t': t, 'list': gm.sigfigs(L, i['n']), 'again': gm.sigfigs(float(t), i['n'])}
    if ev == 'age':
        kw = dict(sf=i['sf'], mu=i['mu'])
        if i['unit']: kw['unit'] = i['unit']
        a = asc(cst.str_age(i['age'], i['e1'], i['e2'], **kw)); m = asc(cst.str_age(i['age'], i['e1'], i['e2'], MathML=True, **kw))
        return {'text': a, 'mtext': m, 'k': age_only(latex(a)), 'm': age_only(mathml(m)), 'noerr': asc(cst.str_age(i['age'], i['e1'], i['e2'], no_error=True, **kw))}
    if ev == 'simple': return {'text': asc(cst.str_age(i['age'], simple=True))}
    if ev == 'dens':
        kw = dict(sf=i['sf'], force=i['force'])
        if i['unit']: kw['unit'] = i['unit']
        if i['errors']: kw.update(e1=i['e1'], e2=i['e2'])
        a = asc(gm.scientific_notation(i['v'], **kw)); m = asc(gm.scientific_notation(i['v'], MathML=True, **kw))
        return {'text': a, 'mtext': m, 'k': latex(a), 'm': mathml(m)}
    if ev == 'range':
        d = [float(x) for x in i['d']]
        return {'t': asc(gm.diameter_range(np.array(d) if i['np'] else d, **({} if i['sf'] == 2 else {'sf': i['sf']})))}
    if ev == 'pct': return {'t': gm.percentile_sigfigs(i['p']), 'tc': gm.percentile_sigfigs(100 - i['p'])}
    f = write_count('f', i['count'])
    cps = cst.Craterplotset({'presentation': 'differential', 'legend': 'nacrN', 'isochrons': None, 'sig_figs': i['sf'], 'mu': int(i['mu']), 'ref_diameter': repr(i['refd'])})
    cps.pf, cps.cf = make_pf(i['coef']), make_cf(CHRONS[0])
    cp = cst.Craterplot({'source': f, 'type': i['type'], 'range': [repr(x) for x in i['range']], 'snap': 0, 'binning': 'pseudo-log', 'resurf': i['resurf']})
    cd = cst.Craterplot({'source': f, 'type': 'data', 'name': i['name']})
    cps.craterplot = [cd, cp]
    for x in cps.craterplot: x.colour = cps.palette[0]
    cps.autoscale(); cps.draw()
    leg = [asc(t.get_text()) for t in cps.ax.get_legend().get_texts()]
    age = next((asc(t.get_text()) for t in cps.ax.texts if re.search(r'\$ (Ga|Ma|ka|a)$', t.get_text())), '')
    fit = next((x for x in leg if 'craters' in x), ''); dat = next((x for x in leg if 'craters' not in x), '')
    p = fit.split(', ')
    dens = next((x for x in p if x.startswith('N(')), '=')
    a = dat.split(', ')
    return {'t': cp.t, 'range': cp.range, 'n': cp.n, 'n_event': cp.n_event, 'type': cp.type,
            'nd': [cps.pf.evaluate('cumulative', i['refd'], x) for x in cp.a0], 'agetext': age, 'age': age_only(latex(age)), 'dens': latex(dens.split('=')[1]), 'denstext': dens.split('=')[1],
            'refd': (re.match(r'N\((.*?)\)', dens) or [0, 'nan'])[1], 'counts': re.findall(r'[\d.]+', p[0].split('craters')[0]), 'rangetext': p[1] if len(p) > 1 else '',
            'area': latex(a[-1]), 'areatext': a[-1], 'name': ', '.join(a[:-1])}

def run(ctx):
    ctx.mc_bg('FormatMC', ctx.scale('FormatMC.cfg', 'FormatMC_big.cfg'), min_states=10000)
    r = ctx.rng; cases = []
    def num(lo=-9, hi=7, neg=False):
        q = r.random()
        if q < .35: v = 10 ** r.uniform(lo, hi)
        elif q < .6:       # next to a rounding or magnitude boundary
            d = r.choice([1, 2, 3, 4]); m = r.choice([10 ** d - .5, 10 ** d - .4, 10 ** d - .6, 10 ** d - .50001, 10 ** d, 10 ** d - 1, r.randrange(10 ** (d - 1), 10 ** d) + .5, r.randrange(10 ** (d - 1), 10 ** d)])
            v = float(f'{m}e{r.randrange(lo, hi) - d}')
        elif q < .7: v = float(f'{r.choice([1, 2, 5, 9, 10, 99, 999, 9999, 99999])}e{r.randrange(lo, hi - 4)}')
        elif q < .8: v = math.nextafter(10. ** r.randrange(lo, hi), r.choice([0, 1e300]))
        else: v = float(f'{10 ** r.uniform(lo, hi):.{r.choice([1, 2, 3])}g}')
        return -v if neg and r.random() < .2 else v
    for _ in range(ctx.scale(2500, 30000)):
        v = num(-12, 13, True) if r.random() > .01 else 0.
        vs = [num(-5, 5, True) for _ in range(r.randrange(0, 4))]
        cases.append({'ev': 'sig', 'in': dict(v=v, n=r.choice([1, 2, 2, 3, 3, 4, 5]), vs=vs, kind=r.choice(['list', 'tuple', 'array']))})
    for _ in range(ctx.scale(2500, 30000)):
        age = min(num(-11, 1), 4.9) if r.random() < .8 else r.choice([1., .001, 1e-6, 1e-9, .9996, .0009996, .00099949, 9.995e-7, 1.0004, 4.5]) * r.choice([1, 1, 1 - 1e-9, 1 + 1e-9])
        if r.random() < .1: age = math.nextafter(age, 0)
        e1, e2 = age * 10 ** r.uniform(-3, .3), age * 10 ** r.uniform(-3, -.01)
        if r.random() < .1: e1, e2 = 0., r.choice([0., e2])
        if r.random() < .05: e2 = 0.
        cases.append({'ev': 'age', 'in': dict(age=age, e1=e1, e2=e2, sf=r.choice([2, 3]), mu=r.random() < .5, unit=r.choice(['', '', '', '', 'Ga', 'Ma', 'ka', 'a']))})
        if r.random() < .2: cases.append({'ev': 'simple', 'in': dict(age=r.choice([age, float(f'{age:.2g}'), r.choice([1., 3.5, 4., .1, .01, 1e-3, 3.7])]))})
    for _ in range(ctx.scale(2500, 30000)):
        q = r.random()
        v = num(-14, 9) if q < .7 else r.choice([.01, 1e4, 9999.5, 9994.9, .009999, .00999, .010001, 0.0100, 99.95, 1., 10., 1000., .0999999]) * r.choice([1, 1 - 1e-6, 1 + 1e-6, 1 + 3e-4, 1 - 3e-4])
        cases.append({'ev': 'dens', 'in': dict(v=v, errors=r.random() < .7, e1=v * (1 + 10 ** r.uniform(-3, .5)), e2=v * (1 - 10 ** r.uniform(-3, -.01)), sf=r.choice([2, 3, 3, 4]), force=r.random() < .1, unit=r.choice(['', 'km-2', 'km2']))})
    for _ in range(ctx.scale(500, 5000)):
        lo = num(-3, 3); hi = lo * 10 ** r.uniform(0, 2)
        d = r.choice([[lo, hi], [lo, hi], [lo, 1.], [min(lo, .5), math.nextafter(1, 0)], [min(lo, .9), 1.], [0., hi], [lo, float('inf')], [min(lo, .994), .995], [.0996, .996]])
        cases.append({'ev': 'range', 'in': dict(d=[repr(x) for x in sorted(d)], sf=r.choice([2, 2, 3]), np=r.random() < .5)})
    for _ in range(ctx.scale(800, 8000)):
        n = r.choice([100, 300, 1000, 1000, 3000, 10000, 100000]); k = r.choice([r.randrange(0, n + 1), r.randrange(0, min(n, 200)), n - r.randrange(0, min(n, 200)), 0, n])
        cases.append({'ev': 'pct', 'in': dict(p=k / n * 100)})
    for _ in range(ctx.scale(60, 600)):
        cnt = random_count(r, nmax=40, lo=-.5, span=1.); cnt['area'] = float(f'{10 ** r.uniform(1.5, 7):.4g}')
        ds = cnt['diam'] or [x[0] for x in cnt['rows']]
        rng = r.choice([[min(ds) * .5, max(ds) * 2], [min(ds) * .9, max(ds) * 3], [0., float("inf")], [min(ds) * .7, float("inf")]])
        cases.append({'ev': 'drawn', 'in': dict(count=cnt, stat=cnt['kind'] == 'stat', area=cnt['area'], coef=r.choice(COEFS[1:3]), type=r.choice(['poisson', 'c-fit', 'd-fit']) if cnt['kind'] != 'stat' else r.choice(['c-fit', 'd-fit']),
                                                range=rng, resurf=0, sf=r.choice([2, 3]), mu=r.random() < .5, refd=r.choice([1., 1., 10., .5]), name=r.choice(['A', 'Unit 3', 'b_2']))})
    r.shuffle(cases)
    ctx.validate('T15', ctx.drive('c15', cases))
    ctx.need(SignificantFigures=2000, AgeUnit=2000, MathmlSame=2000, DensityValue=2000, DiameterRange=400, Percentile=600, DrawnAge=40, DrawnDensity=40, SimpleAge=200)
