import os, csv, io, re
from props.util import *
from props import clirun
from props.c10 import DATA
from props.c15 import latex, mathml, asc, age_only
CASE_TIMEOUT = 90
FILES = ['A.diam', 'B b.scc', 'C.stat', 'x_CRATER.diam', 'sub/D.scc', 'sub.v2/E.diam', 'a,b.diam', 'noext', 'v1.2.diam', 'CRATER_G.diam']

def fresh(cst, cps, p):
    """the analysis of one overplot, done anew"""
    cp = cst.Craterplot({'source': p.source, 'name': p.name, 'type': p.type, 'range': [repr(float(x)) for x in p.range], 'snap': 0, 'binning': p.binning, 'resurf': int(p.resurf),
                         'colour': p.colour, 'psym': p.psym, 'cratercount': cst.Cratercount(p.source)})
    cp.calculate_age(cps)
    rng = cp.bin_range if p.type in ('c-fit', 'd-fit') and int(p.resurf) != 1 else p.range
    return {'name': p.name or os.path.splitext(os.path.basename(p.source))[0], 'source': p.source, 'binning': p.binning, 'type': p.type, 'resurf': str(int(p.resurf)), 'area': cp.cratercount.area,
            'range': [float(x) for x in rng], 'n': float(cp.n), 'n_event': float(cp.n_event), 't': [float(x) for x in cp.t], 'a0': [float(x) for x in cp.a0],
            'nd': [float(cps.pf.evaluate('cumulative', cps.ref_diameter, x)) for x in cp.a0]}

def table(f):
    t = list(csv.reader(io.StringIO(open(f, encoding='utf-8-sig').read()), skipinitialspace=False))
    h = next((k for k, x in enumerate(t) if x and x[0] == 'Name'), None)
    if h is None: return [], [], -1
    rows = []
    for x in t[h + 1:]:
        if len(x) < 26: rows.append({'cells': x, 'range': '', 'la': None, 'ld': None, 'ma': None, 'md': None, 'age': '', 'dens': '', 'mage': '', 'mdens': ''}); continue
        a = [asc(v) for v in x]; m, l = a[22:24], a[24:26]
        rows.append({'cells': [v.encode('ascii', 'backslashreplace').decode() for v in x], 'range': a[21], 'mage': m[0], 'mdens': m[1], 'age': l[0], 'dens': l[1],
                     'la': age_only(latex(l[0])), 'ld': latex(l[1]), 'ma': age_only(mathml(m[0])), 'md': mathml(m[1])})
    return t[h], rows, h

def drive(c):
    i = c['in']; root = clirun.fresh()
    import craterstats as cst
    for f in FILES:
        if os.path.dirname(f): os.makedirs(os.path.dirname(f), exist_ok=True)
        k = FILES.index(f)
        if f.endswith('.stat'): write_stat(f, [[edge('pseudo-log', j), float(9 - j % 5)] for j in (-12, -10, -9, -6, -3, 1)], 80.)
        elif f.endswith('.scc'): write_scc(f, DATA[k % 4], area=f'{50 + 13 * k}', perimeter='40')
        elif f != 'noext': write_diam(f, DATA[k % 4], area=repr(50. + 13 * k), frac=[1., .5, .25, 1., .75, 1., 1., 1., 1.][:len(DATA[k % 4])] if k % 2 else None)
    for d in ('outdir', 'o.ut', 'sub'): os.makedirs(d, exist_ok=True)
    args = list(i['args'])
    if i['replay']:
        import shlex
        os.makedirs(os.path.dirname(i['stem']) or '.', exist_ok=True)
        with open(i['stem'] + '.cs', 'w') as f: f.write(' '.join(shlex.quote(a) for a in args))
        args = ['-i', i['stem'] + '.cs']
        d = os.path.dirname(i['stem'])
    clirun.record()
    r = clirun.main(args)
    out = {'exit': r['exit'], 'msg': r['msg'], 'created': r['created'], 'changed': r['changed'], 'removed': r['removed'], 'again': [], 'table': False, 'header': [], 'rows': [], 'prefix': 0, 'fresh': [], 'dated': 0}
    if r['exit']: return out
    cps, cpl = clirun.CPSETS[-1], list(clirun.CPS)
    base = os.path.dirname(i['stem']) if i['replay'] else ''
    cwd = os.getcwd(); os.chdir(os.path.join(root, base) if base else root)
    an = [p for p in cpl if p.type != 'data']
    out['dated'] = len([p for p in cpl if p.type in ('poisson', 'b-poisson') and not int(p.hide)])
    out['fresh'] = [fresh(cst, cps, p) for p in an]
    os.chdir(root)
    for f in r['created']:
        if f.endswith('.csv') and not f.endswith('_sequence.csv'):
            out['header'], out['rows'], out['prefix'] = table(f); out['table'] = True
    if i['again']:
        before = {f: os.stat(f).st_mtime_ns for f in clirun.snapshot()}
        for f in before: os.utime(f, ns=(1, 1))
        clirun.main(args)
        out['again'] = sorted(f for f in clirun.snapshot() if os.stat(f).st_mtime_ns != 1)
    return out

SYS = ['Moon, Neukum (1983)', 'Mars, Ivanov (2001)', 'Mars, Hartmann & Daubar (2016)', 'Moon, Yue et al. (2022)']
def run(ctx):
    ctx.mc_bg('OutputMC', ctx.scale('OutputMC.cfg', 'OutputMC_big.cfg'), min_states=50000)
    r = ctx.rng; cases = []
    for _ in range(ctx.scale(1000, 9000)):
        pres = r.choice(['differential', 'differential', 'cumulative', 'cumulative', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'sequence', 'sequence', 'uncertainty' if r.random() < .5 else 'sequence'])
        a = ['-pr', pres] if pres != 'differential' or r.random() < .5 else []
        system = SYS[0]
        if r.random() < .6 and pres != 'Hartmann' or pres in ('chronology', 'rate', 'uncertainty') and r.random() < .8: system = r.choice(SYS[:3]); a += ['-cs', system]
        dmin = '0.15'
        if pres == 'uncertainty':
            a += ['-ns', '10']
            if r.random() < .7: dmin = r.choice(['0.5', '1.0', '0.25']); a += ['-d_min', dmin]
        fm = r.choice([[], [], ['csv'], ['csv'], ['png'], ['png', 'csv'], ['csv', 'svg', 'pdf'], ['tif'], ['svg', 'tif', 'png', 'pdf', 'csv']])
        if fm: a += ['-f'] + fm
        out, isdir = r.choice([('', 0), ('', 0), ('outdir', 1), ('outdir/', 1), ('o.ut', 1), ('name', 0), ('my name', 0), ('outdir/n', 0), ('x.pdf', 0), ('x.csv', 0), ('outdir/y.svg', 0), ('a.b', 0), ('v1.2.3', 0), ('z.tif', 0), ('q(1)+', 0), ('o.ut/p', 0), ('sub/k.png', 0)])
        if out: a += [r.choice(['-o', '--out'])] + (out.split(' ') if r.random() < .5 else [out])
        tab = pres == 'sequence' and r.random() < .7
        if tab: a += [r.choice(['-st', '--sequence_table'])]
        refd = r.choice(['1', '1', '10', '0.5'])
        if refd != '1': a += ['-ref_diameter', refd]
        mu = r.choice([1, 1, 0])
        if not mu: a += ['-mu', '0']
        if r.random() < .2: a += ['-isochrons', '1,3a']
        srcs = set(); ps = []
        if pres not in ('chronology', 'rate', 'uncertainty'):
            for j in range(r.choice([0, 1, 1, 2, 2, 3, 4]) if pres != 'sequence' else r.choice([1, 2, 3, 4])):
                cl = []
                if j == 0 or r.random() < .5:
                    f = r.choice([x for x in FILES if x != 'noext']); srcs.add(f); cl.append('source=' + f); stat = f.endswith('.stat'); scc = f.endswith('.scc')
                if r.random() < .4: cl.append('name=' + r.choice(['Unit 1', 'a,b', 'q"q', "it's", 'U(2)']))
                rs = ['[.2,3]', '[0.25,2]', '[b1,b-1]', '[.3,inf]', '[0.2,0.9]'] + ['[0.25,2]'] * 3
                ty = r.choice(['poisson', 'poisson', 'data'] + (['c-fit', 'd-fit', 'c-fit'] if pres in ('differential', 'cumulative', 'R-plot') else []))
                if scc and r.random() < .2: ty = 'b-poisson'
                cl += ['type=' + ty, 'range=' + r.choice(rs)]
                if r.random() < .3 and ty == 'c-fit': cl.append('resurf=1')
                cl.append('binning=' + r.choice(['pseudo-log', 'pseudo-log', '10/decade', '20/decade', 'root-2']) if not stat else 'binning=none')
                if r.random() < .25: cl.append('hide=' + r.choice('01'))
                if r.random() < .3: cl.append('snap=' + r.choice('01'))
                if stat: cl = [x for x in cl if not x.startswith('snap')]
                ps += ['-p', ','.join(cl)]
        if not ps and not a: a = ['-pr', 'differential']
        args = a + ps if r.random() < .5 else ps + a
        if not args: continue
        replay = r.random() < .2
        stem = r.choice(['cmd', 'my cmd', 'c.md'])
        cases.append({'ev': 'run', 'in': dict(args=args, pres=pres, system=system, dmin=dmin, formats=fm, out=out, outIsDir=bool(isdir), table=tab, refd=refd, mu=mu, replay=replay, stem=stem if replay else 'none', again=r.random() < .15,
                                              sources=sorted(srcs, key=lambda f: os.path.splitext(os.path.basename(f))[0]))})
    ctx.validate('T13', ctx.drive('c13', cases))
    ctx.need(FilesWritten=600, RowAge=600, RankedByAge=300, RowAgeText=300, SecondRunSameFiles=60)
