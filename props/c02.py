import os, math, itertools
from props.util import *
CASE_TIMEOUT = 200

def flat(x):
    """numbers and texts of an answer, in order"""
    import numpy as np
    num, txt = [], []
    def go(v):
        if isinstance(v, dict):
            for k in sorted(v): txt.append(k); go(v[k])
        elif isinstance(v, np.ndarray): go(v.tolist())
        elif isinstance(v, (list, tuple)): txt.append(f'#{len(v)}'); [go(e) for e in v]
        elif isinstance(v, (bool, str)) or v is None: txt.append(str(v))
        else: num.append(float(v))
    go(x)
    return num, txt

def data_of(cc):
    if cc.diam is not None:
        num, txt = flat([list(cc.diam), list(cc.fraction), cc.area, cc.perimeter])
    else:
        num, txt = flat([cc.area, cc.perimeter, {k: cc.binned[k] for k in cc.binned}])
    return {'num': num, 'txt': txt + [str(cc.filename), str(bool(cc.prebinned)), str(bool(cc.buffered))]}

def ask(cst, cc, q, pf, cf, fname):
    style, kind, rng = q['style'], q['kind'], q['range']
    try:
        if kind.startswith('plot'):
            pres = {'plotC': 'cumulative', 'plotI': 'incremental', 'plotD': 'differential', 'plotR': 'R-plot', 'plotH': 'Hartmann'}[kind]
            r = cc.getplotdata(pres, style, range=None if rng is None else list(rng), pf=pf if q.get('pf') else None, showall=q.get('showall', 0))
        elif kind == 'resurfplot':
            r = cc.getplotdata('cumulative', style, range=list(rng), resurfacing=1, pf=pf)
        elif kind == 'range':
            r = list(cc.decode_range(q['lims'], style, q['snap']))
        else:
            cps = cst.Craterplotset({'presentation': 'differential'}); cps.pf, cps.cf = pf, cf
            cp = cst.Craterplot({'cratercount': cc, 'source': fname, 'name': 'x', 'type': kind, 'binning': style, 'range': q['lims'], 'resurf': q.get('resurf', 0), 'snap': q['snap']})
            cp.calculate_age(cps)
            r = {'t': list(cp.t), 'a0': list(cp.a0), 'n': cp.n, 'n_event': cp.n_event, 'range': list(cp.range), 'n_d': cp.n_d}
        num, txt = flat(r); exc = ''
    except SystemExit as e: num, txt, exc = [], [], 'SystemExit'
    except Exception as e: num, txt, exc = [], [], type(e).__name__
    return {'num': num, 'txt': txt, 'exc': exc}

def drive(c):
    import craterstats as cst
    i = c['in']; f = write_count('t', i['count'])
    pf = make_pf(COEFS[i['pf']], rng=(1e-3, 1e3)); cf = make_cf(CHRONS[0])
    fresh, keys, fd = {}, [], []
    for q in i['queries']:
        k = repr(sorted(q.items()))
        if k not in keys:
            keys.append(k)
            cc = cst.Cratercount(f)
            fresh['q%d' % (len(keys) - 1)] = ask(cst, cc, q, pf, cf, f)
            fd.append(data_of(cc))
    shared = cst.Cratercount(f); data = data_of(shared)
    seq = []
    for q in i['queries']:
        a = ask(cst, shared, q, pf, cf, f)
        seq.append({'key': 'q%d' % keys.index(repr(sorted(q.items()))), 'ans': a, 'data': data_of(shared)})
    return {'fresh': fresh, 'freshdata': fd, 'data': data, 'seq': seq}

def run(ctx):
    ctx.mc_bg('CountCache', 'CountCache.cfg', min_states=50)
    r = ctx.rng
    kinds = ['plotC', 'plotI', 'plotD', 'plotR', 'plotH', 'resurfplot', 'range', 'poisson', 'b-poisson', 'c-fit', 'd-fit']
    def q(cnt, style=None, kind=None):
        ds = cnt['diam'] or [x[0] for x in cnt['rows']]
        style = style or r.choice(STYLES[:-1])
        kind = kind or r.choice(kinds)
        if style == 'none' and kind in ('plotD', 'plotR', 'plotH', 'd-fit'): kind = 'plotC'
        lo, hi = sorted(r.choice(ds) * r.uniform(.7, 1.4) for _ in range(2))
        lims = r.choice([['0', 'inf'], [repr(lo), 'inf'], [repr(lo), repr(hi)], ['b1', 'b-1'], ['b2', 'inf'], ['0', 'b-2'], ['b%d' % r.randrange(-4, 5), repr(hi)]])
        rng = r.choice([None, [lo, hi * 1.5], [0., float('inf')], [lo, float('inf')]])
        if kind == 'resurfplot' and rng is None: rng = [0., float('inf')]
        if kind == 'resurfplot' and cnt['kind'] != 'stat' and r.random() < .5: rng = [lo, float('inf')]
        return {'style': style, 'kind': kind, 'range': rng, 'lims': lims, 'snap': r.choice([0, 1]), 'pf': r.random() < .5, 'showall': int(r.random() < .1), 'resurf': int(kind == 'c-fit' and r.random() < .4)}
    cases = []
    # every ordered pair (and, thorough, triple) of query kinds with two styles
    L = ctx.scale(2, 2)
    cnt_pool = [random_count(r, nmax=20) for _ in range(6)] + [random_count(r, kinds=('stat',))]
    pairs = list(itertools.product(kinds, repeat=2))
    for n, (a, b) in enumerate(pairs * ctx.scale(1, 6)):
        cnt = r.choice(cnt_pool)
        s1, s2 = r.sample(STYLES, 2)
        x, y = q(cnt, s1, a), q(cnt, s2, b)
        cases.append({'ev': 'history', 'in': {'count': cnt, 'pf': r.randrange(len(COEFS)), 'queries': [x, y, x, dict(y, style=x['style'] if x['style'] != 'none' else y['style']), y, x]}})
    for n in range(ctx.scale(60, 1200)):
        cnt = random_count(r, nmax=25)
        pool = [q(cnt) for _ in range(5)]
        if r.random() < .4: pool.append(q(cnt, 'none'))
        cases.append({'ev': 'history', 'in': {'count': cnt, 'pf': r.randrange(len(COEFS)), 'queries': [r.choice(pool) for _ in range(r.choice([6, 10, 14]))]}})
    ctx.validate('T02', ctx.drive('c02', cases))
    ctx.need(AnswerAsFresh=800, DataUnchanged=800)
