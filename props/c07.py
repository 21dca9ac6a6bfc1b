import math, os
from props.util import *
from props import pub
CASE_TIMEOUT = 60
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']

def fn(i):
    import craterstats as cst
    if i['kind'] in ('production', 'equilibrium'):
        return cst.Productionfn(cst.Functionslist().functions, i['name'], equilibrium=i['kind'] == 'equilibrium')
    f = i['fn']; eq = i['kind'].endswith('equilibrium')
    d = {'name': 'X', 'coefficients': [repr(x) for x in f['coef']]} if f['type'] == 'polynomial' else \
        {'name': 'X', 'type': 'tabular incremental root-2', 'H': [repr(x) for x in f['h']], 'index_1km': str(f['i1'])}
    if len(f['range']): d['range'] = [repr(x) for x in f['range']]
    return cst.Productionfn({('equilibrium' if eq else 'production'): [d]}, 'X', equilibrium=eq)

def drive(c):
    import craterstats as cst, numpy as np
    i = c['in']
    if c['ev'] == 'listed':
        F = cst.Functionslist().functions
        return {'production': [e['name'] for e in F['production']], 'equilibrium': [e['name'] for e in F['equilibrium']]}
    if c['ev'] == 'user':
        os.environ.pop('CONDA_PREFIX', None)
        base = [e['name'] for e in cst.Functionslist().functions['production']]
        try:
            pre = os.path.abspath('conda'); os.makedirs(pre + '/etc', exist_ok=True); os.environ['CONDA_PREFIX'] = pre
            cfg = pre + '/etc/config_functions_user.txt'
            if i['file'] == 'none':
                if os.path.exists(cfg): os.remove(cfg)
            else:
                uf = os.path.abspath('user.txt')
                if i['file'] == 'missing': uf = os.path.abspath('nosuch/user.txt')
                else:
                    with open(uf, 'w') as f:
                        f.write('# user functions\n' if i['file'] == 'valid' else '\n')
                        if i['file'] == 'valid': f.write("\nproduction={\n  name='user fn' ; mine\n  coefficients=*[" + ','.join(repr(x) for x in i['coef']) + "]\n  range=[.001,1000.]\n}\n")
                if i['via'] == 'code': cst.Functionslist().set_user_functions_config(uf)
                else: open(cfg, 'w').write('#path to functions_user.txt\n' + uf + '\n')
            L = cst.Functionslist().functions
            o = {'production': [e['name'] for e in L['production']], 'base': base}
            if i['file'] == 'valid':
                p = cst.Productionfn(L, 'user fn')
                o['v'] = {k: p.evaluate(k, np.array(i['d'])) for k in PRES}
            return o
        finally:
            os.environ.pop('CONDA_PREFIX', None)
    p = fn(i)
    if c['ev'] == 'curve':
        r = None if i['range'] is None else np.array(i['range'])
        q = p.getplotdata(i['pres'], range=r) if i['a0'] is None else p.getplotdata(i['pres'], i['a0'], r)
        n = len(q['d']); ks = sorted(set([0, n - 1] + [j * (n - 1) // 24 for j in range(25)]))
        st = np.diff(np.log10(q['d']))
        return {'d': [q['d'][k] for k in ks], 'y': [q['y'][k] for k in ks], 'maxstep': float(st.max()) if n > 1 else float('nan')}
    d = np.array(i['d']); a = i['a0']; own = p.a[0] if hasattr(p, 'a') else 0.
    b = own if a is None else a
    ev = lambda k, x: p.evaluate(k, x) if a is None else p.evaluate(k, x, a)
    return {'range': p.range, 'v': {k: ev(k, d) for k in PRES}, 'scalar': {k: ev(k, i['d'][0]) for k in PRES},
            'up': {k: p.evaluate(k, d, b + i['shift']) for k in PRES}, 'c10': p.C10(np.log10(d), b), 'f10': p.F10(np.log10(d), b)}

def run(ctx):
    ctx.mc_bg('ProdMC', ctx.scale('ProdMC.cfg', 'ProdMC_big.cfg'), min_states=1000)
    r = ctx.rng
    cases = [{'ev': 'listed', 'in': {}}]
    fns = [dict(kind='production', name=f['name'], _r=f) for f in pub.PROD] + [dict(kind='equilibrium', name=f['name'], _r=f) for f in pub.EQUIL]
    def rnd():
        if r.random() < .5:
            c = list(r.choice(COEFS)) if r.random() < .5 else [round(r.uniform(-5, -1), 4), round(r.uniform(-3.5, -1.5), 4)] + ([round(r.uniform(-.1, 0), 4)] if r.random() < .5 else [])
            g = r.choice([[], [.01, 300.], [.125, 64.]])
            if len(c) > 3: g = [.01, 100.]
            if len(c) == 3 and not g: g = [.01, 300.]
            f = dict(type='polynomial', coef=c, range=g, h=[], i1=0)
        else:
            n = r.randrange(3, 30); h = [float(f'{10 ** -(j * r.uniform(.3, .6) / 2) * r.uniform(1e-3, 1e-1):.4g}') for j in range(n)]
            h = sorted(h, reverse=True)
            f = dict(type='tabular', coef=[], range=[], h=h, i1=r.randrange(0, n))
        return dict(kind=r.choice(['random', 'random equilibrium']), name='', fn=f, _r=f)
    def rng(f):
        if f['type'] == 'polynomial': return f['range'] or [1e-4, 2e3]
        return [2 ** ((0 - f['i1']) / 2 + .25), 2 ** ((len(f['h']) - 1 - f['i1']) / 2 + .25)]
    def dia(f):
        a, b = (math.log10(x) for x in rng(f))
        if f is not None and f.get('name', '').startswith('Vesta, Rev3'): a = math.log10(.0042)
        d = [10 ** r.uniform(a, b) for _ in range(9)] + [10 ** r.uniform(a, b) if f['type'] == 'polynomial' else 2 ** (r.randrange(0, 2 * len(f['h']) - 2) / 4 - f['i1'] / 2 + .25)]
        if a < 0 < b: d.append(1.)
        return [min(max(x, 10 ** a * 1.0000001), 10 ** b * .9999999) for x in d]
    def const(): return r.choice([None, None, 0., -3., round(r.uniform(-7, 2), 3), r.uniform(-7, 2)])
    def strip(f, **k): return dict({x: f[x] for x in f if x != '_r'}, **k)
    allf = fns * ctx.scale(5, 60) + [rnd() for _ in range(ctx.scale(120, 2000))]
    for f in allf:
        cases.append({'ev': 'point', 'in': strip(f, a0=const(), d=dia(f['_r']), shift=r.choice([1., .3, -2., r.uniform(-2, 2)]))})
        a, b = (math.log10(x) for x in rng(f['_r']))
        g = r.choice([None, None, [10 ** r.uniform(a - 1, b), 10 ** r.uniform(a, b + 1)], [10 ** (a - 1), 10 ** r.uniform(a, b)], [10 ** r.uniform(a, b), float('inf')]])
        if g: g = sorted(g)
        if f['name'].startswith('Vesta, Rev3'): g = [.0042, 100.]
        cases.append({'ev': 'curve', 'in': strip(f, pres=r.choice(PRES), a0=const(), range=g)})
    for file in ('none', 'missing', 'blank', 'valid'):
        for via in ('code', 'file'):
            cases.append({'ev': 'user', 'in': {'file': file, 'via': via, 'coef': [round(r.uniform(-4, -1), 3), -2.5, -.05], 'd': [.01, .5, 1., 20.]}})
    ctx.validate('T07', ctx.drive('c07', cases))
    ctx.need(Cumulative=150, Differential=150, CurveSamples=150, UserFunction=6, FunctionsListed=2)
