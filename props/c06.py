import math
from props.util import *
from props import pub
CASE_TIMEOUT = 60

def fn(i):
    import craterstats as cst
    if i['published']: return cst.Chronologyfn(cst.Functionslist().functions, i['name'])
    return make_cf(i['p'])

def drive(c):
    import craterstats as cst, craterstats.cli as cli, copy, numpy as np
    i = c['in']
    if c['ev'] == 'listed': return {'systems': [e['name'] for e in cst.Functionslist().functions['chronology_system']]}
    if c['ev'] == 'system':
        args = cli.get_parser().parse_args(['-cs', i['name']])
        d = cli.construct_cps_dict(args, copy.deepcopy(cst.DEFAULTS)['set'], cst.Functionslist().functions)
        return {'cf': d['cf'].name, 'pf': d['pf'].name}
    f = fn(i)
    if c['ev'] == 'curve':
        t, y = f.getplotdata(phi=i['phi'], linear=i['linear'])
        return {'t': t[::i['step']] if i['step'] == 1 else list(t[::i['step']]) + [t[-1]], 'y': list(y[::i['step']]) + ([y[-1]] if i['step'] != 1 else [])}
    t = np.array(i['t']); n1 = f.N1(t)
    return {'n1': n1, 'phi': f.phi(t), 'a0': f.a0(t), 'tn': f.t(n1=n1), 'ta': f.t(a0=f.a0(t)), 'beyond': f.t(n1=f.N1(5.) * i['over']),
            'scalar': [f.N1(x) for x in i['t']]}

def run(ctx):
    ctx.mc_bg('ChronMC', ctx.scale('ChronMC.cfg', 'ChronMC_big.cfg'), min_states=500)
    r = ctx.rng
    cases = [{'ev': 'listed', 'in': {}}]
    for s in pub.SYSTEMS: cases.append({'ev': 'system', 'in': {'name': s['name']}})
    def times():
        return sorted(set([r.choice([1e-9, 1e-6, 1e-3])] + [5 * r.random() for _ in range(8)] + [10 ** r.uniform(-5, .69) for _ in range(6)] + [5., r.uniform(4.4, 5)]))
    fns = [dict(published=True, name=c['name'], p=[]) for c in pub.CHRON]
    for f in fns:
        for _ in range(ctx.scale(4, 40)): cases.append({'ev': 'point', 'in': dict(f, t=times(), over=r.choice([1.01, 2., 100.]))})
        for phi in (False, True):
            for lin in (False, True): cases.append({'ev': 'curve', 'in': dict(f, phi=phi, linear=lin, step=ctx.scale(7, 1))})
    for _ in range(ctx.scale(60, 1500)):
        p = [float(f'{10 ** r.uniform(-15, -11):.4g}'), r.choice([6.93, r.uniform(4, 9)]), 0., float(f'{10 ** r.uniform(-4, -1):.4g}')]
        cases.append({'ev': 'point', 'in': dict(published=False, name='', p=p, t=times(), over=r.choice([1.01, 5.]))})
    ctx.validate('T06', ctx.drive('c06', cases))
    ctx.need(DensityFormula=100, InverseOfDensity=100, CurveSamples=60, SystemParts=15)
