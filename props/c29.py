import os, re, io, sys, json, shutil, hashlib, contextlib, shlex
from props.util import *
from props import clirun
from props.c10 import DATA
CASE_TIMEOUT = 240
NOTE = """Histories of configuring, editing, removing and moving (all of three steps enumerated by TLC, sampled in the quick run) are replayed with listings, choices and ordinary commands in between; each command is
also run alone in a process in which nothing ran before (a fork of an untouched interpreter), on a copy of the directory, and everything it prints, writes and draws compared."""
TECHNIQUE = 'TLA+ session model (TLC, two negative controls), TLC-enumerated histories replayed in one process against the real command line, each command compared with the same command in an untouched process, trace validation of listings and choices'
ASSUMPTIONS = ['the user functions file is configured in a conda environment (a scratch CONDA_PREFIX)', 'figures are compared as handed to matplotlib']
FILES = ['A.diam', 'B.scc', 'C.stat']

# ------------------------------------------------------------------ an untouched interpreter
ZY = {}
def setup():
    import craterstats, matplotlib.figure, matplotlib.pyplot, numpy
    from craterstats import cli
    a, b = os.pipe(); c, d = os.pipe()
    pid = os.fork()
    if pid:
        os.close(a); os.close(d); ZY.update(w=os.fdopen(b, 'w'), r=os.fdopen(c)); return
    os.close(b); os.close(c)
    import signal; signal.signal(signal.SIGALRM, signal.SIG_DFL)
    f, g = os.fdopen(a), os.fdopen(d, 'w')
    for line in iter(f.readline, ''):
        q = json.loads(line)
        p = os.fork()
        if p == 0:
            os.chdir(q['cwd']); os.environ['CONDA_PREFIX'] = q['conda']
            signal.alarm(100)
            if q['conda'] == '': os.environ.pop('CONDA_PREFIX', None)
            try: o = outcome(q['args'], q['root'])
            except BaseException as e: o = {'exit': 'driver ' + repr(e)[:200]}
            g.write(json.dumps(o) + '\n'); g.flush(); os._exit(0)
        if os.waitpid(p, 0)[1] != 0: g.write('{"exit": "died"}\n'); g.flush()
    os._exit(0)
def untouched(args, cwd, root, conda):
    ZY['w'].write(json.dumps(dict(args=args, cwd=cwd, root=root, conda=conda)) + '\n'); ZY['w'].flush()
    return json.loads(ZY['r'].readline())

def outcome(args, root):
    clirun.record(); so = io.StringIO()
    with contextlib.redirect_stdout(so), contextlib.redirect_stderr(io.StringIO()): r = clirun.main(args, call=(lambda a: __import__('craterstats').cli.demo([int(x) for x in a[1:]])) if args[0] == '%demo' else None)
    tidy = lambda s: re.sub(r'\x1b\[[0-9;]*m', '', s.replace(root, '%ROOT%').replace(root.removesuffix('_alone'), '%ROOT%'))
    o = {'exit': r['exit'], 'msg': tidy(r['msg']), 'stdout': tidy(so.getvalue()), 'created': r['created'], 'changed': r['changed'], 'removed': r['removed']}
    o['files'] = {f: hashlib.md5(tidy(open(f, encoding='latin-1').read()).encode()).hexdigest() for f in r['created'] + r['changed'] if not f.endswith(('.shp', '.dbf', '.shx', '.png'))}
    o['figs'] = [hashlib.md5(json.dumps(f, sort_keys=True).encode()).hexdigest() for f in r['figs']]
    return o

# ------------------------------------------------------------------ user files
def text(c):
    t = '# user functions\n'
    for s in c['chronology_system']:
        t += (f"chronology={{\n  name='{s['name']}'\n  coefficients=[{','.join(s['cf'])}]\n}}\nproduction={{\n  name='{s['name']}'\n  type='polynomial'\n  coefficients=*[{','.join(s['pf'])}]\n  range=[.001,1000.]\n}}\n"
              f"chronology_system={{\n  body='Moon'\n  name='{s['name']}'\n  cf='{s['name']}'\n  pf='{s['name']}'\n}}\n")
    for s in c['equilibrium']: t += f"equilibrium={{\n  name='{s['name']}'\n  type='polynomial'\n  coefficients=[{','.join(s['pf'])}]\n  range=[.001,1000.]\n}}\n"
    for s in c['epochs']: t += f"epochs={{\n  name='{s['name']}'\n  epoch=['One','Two','Three']\n  time=[{','.join(s['time'])}]\n  formatting=[60,0,1,0]\n  reference='none'\n}}\n"
    return t
def listing(s):
    s = re.sub(r'\x1b\[[0-9;]*m', '', s); o, k = {}, None
    for l in s.split('\n'):
        if l.rstrip().endswith(':') and l.split()[0] in ('Chronology', 'Equilibrium', 'Epoch'): k = {'Chr': 'chronology_system', 'Equ': 'equilibrium', 'Epo': 'epochs'}[l[:3]]; o[k] = []
        elif k and l.strip(): o[k].append(l.strip())
    return {k: [x.encode('ascii', 'backslashreplace').decode() for x in o.get(k, [])] for k in ('chronology_system', 'equilibrium', 'epochs')}
def symbols(s):
    s = re.sub(r'\x1b\[[0-9;]*m', '', s); ls = [l.strip() for l in s.split('\n') if l.strip()]
    m = next((ls[k + 1] for k, l in enumerate(ls[:-1]) if l.startswith('Plot symbols')), ''); c = next((ls[k + 1] for k, l in enumerate(ls[:-1]) if l.startswith('Colours')), '')
    return [[y.strip() for y in x] for x in re.findall(r'([^,()]+?) \(([^)]*)\)', m)], [x.strip() for x in c.split(',') if x.strip()]

def drive(c):
    i = c['in']; root = clirun.fresh(); conda = root + '/conda'
    for d in ('conda/etc', 'd1', 'd2'): os.makedirs(d)
    def count(d, f, v):      # (versions differ in one digit only)
        k = FILES.index(f)
        if f.endswith('.stat'): write_stat(f'{root}/{d}/{f}', [[edge('pseudo-log', j), float(9 - j % (5 - v))] for j in (-12, -10, -9, -6, -3, 1)], 80.)
        elif f.endswith('.scc'): write_scc(f'{root}/{d}/{f}', DATA[k], area=str(63 + v), perimeter='40')
        else: write_diam(f'{root}/{d}/{f}', DATA[k], area=f'{5 - v}0.')
    for d in ('d1', 'd2'):
        for f in FILES: count(d, f, 0 if d == 'd1' else 2)
    old = os.environ.get('CONDA_PREFIX'); os.environ['CONDA_PREFIX'] = conda
    if not i['conda']: conda = ''; os.environ.pop('CONDA_PREFIX')
    def write(f, k):
        with open(root + '/' + f, 'wb') as h: h.write(b'\xff\xfe\xff\n={\n' if k == 'unreadable' else text(i['contents'][k]).encode())
    write(i['start']['file'], 'A'); os.chdir(root + '/' + i['start']['dir'])
    res, seen = [], None
    try:
        for s in i['steps']:
            o = {'exit': '', 'alone': True, 'diff': [], 'msg': ''}; res.append(o); args = None
            if s['op'] == 'write': write(s['file'], s['content']); continue
            if s['op'] == 'count': count(os.path.basename(os.getcwd()), s['file'], s['version']); continue
            if s['op'] == 'remove': os.remove(root + '/' + s['file']); continue
            if s['op'] == 'cd': os.chdir(root + '/' + s['dir']); continue
            if s['op'] == 'set': args = ['--functions_user', (root + '/' if s['path']['abs'] else '') + s['path']['name']]
            if s['op'] == 'list': args = ['-lcs']
            if s['op'] == 'symbols': args = ['-lpc']
            if s['op'] == 'choose': args = {'chronology_system': ['-cs', s['name'], '-pr', 'chronology'], 'equilibrium': ['-ef', s['name'], '-p', 'source=A.diam'], 'epochs': ['-ep', s['name'], '-p', 'source=A.diam']}[s['kind']] + ['-o', 'chosen', '-f', 'png']
            if s['op'] == 'draw':
                M, P = seen
                m, p = M[s['symbol'] % len(M)], P[s['colour'] % len(P)]
                args = ['-p', f'source=A.diam,psym={m[s["by"]]},colour={p}', '-o', 'drawn', '-f', 'png']
                o['symbol'], o['colour'] = s['symbol'] % len(M) + 1, s['colour'] % len(P) + 1
            if s['op'] in ('run', 'refused'): args = [x.replace('%ROOT%', root) for x in s['args']]
            if s['op'] == 'demo': args = ['%demo'] + [str(k) for k in s['d']]
            copy = root + '_alone'
            if os.path.isdir(copy): shutil.rmtree(copy)
            shutil.copytree(root, copy)
            here = os.getcwd()
            b = None if s['op'] == 'demo' else untouched([x.replace(root, copy) if s['op'] == 'run' else x for x in args], here.replace(root, copy), copy, copy + '/conda' if conda else '')
            if s['op'] == 'demo':      # each demonstration for itself
                q = [untouched(['%demo', x], here.replace(root, copy), copy, copy + '/conda' if conda else '') for x in args[1:]]
                b = {'exit': ''.join(x['exit'] for x in q), 'figs': [y for x in q for y in x['figs']], 'files': {k: v for x in q for k, v in x['files'].items()}}
            a = outcome(args, root)
            if s['op'] == 'demo':
                o['made'] = sorted({f.split('/')[1][:2] for f in a['created'] + a['changed'] if f.startswith('demo/')}); o['asked'] = sorted({'%02d' % k for k in s['d']})
                for f in a['created']: os.remove(f)
                o['wrote'] = []; o['msg'] = a['msg']; a = {k: a[k] for k in ('exit', 'figs', 'files')} | {'msg': '', 'created': [], 'changed': []}; b |= {'msg': '', 'created': [], 'changed': []}
            o['diff'] = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k)); o['alone'] = not o['diff']; o['exit'] = a['exit']; o['msg'] = asc(a['msg'])[:200]; o['wrote'] = a['created'] + a['changed']
            if o['diff']: o['was'] = [[asc(str(q.get(o['diff'][0])))[:300]] for q in (a, b)]
            cps = clirun.CPSETS[-1] if clirun.CPSETS and not a['exit'] else None
            if s['op'] == 'list': o['shown'] = listing(a['stdout'])
            if s['op'] == 'symbols': seen = symbols(a['stdout']); o['symbols'], o['colours'] = [[asc(x) for x in m] for m in seen[0]], [asc(x) for x in seen[1]]
            if s['op'] == 'choose' and cps:
                if s['kind'] == 'chronology_system': o['val'] = [[float(cps.cf.N1(t)) for t in (1., 3.)], [float(cps.pf.evaluate('cumulative', d)) for d in (1., 4.)]]; o['names'] = [asc(str(cps.cf.name)), asc(str(cps.pf.name))]
                if s['kind'] == 'equilibrium': o['val'] = [[], [float(cps.ef.evaluate('cumulative', d)) for d in (1., 4.)]]; o['names'] = [asc(str(cps.ef.name))]
                if s['kind'] == 'epochs': o['val'] = [[float(x) for x in cps.ep.time], []]; o['names'] = [asc(str(cps.ep.name))]
            if s['op'] == 'draw' and cps:
                p = clirun.CPS[-1]; o['psym'], o['ink'] = int(p.psym) + 1, asc(str(p.colour))
                ln = [l for f in clirun.FIGS for x in f['fig']['axes'] for l in x['lines'] if l['marker'] not in ('None', '', ' ') and l['n'] > 2]
                o['mark'] = asc(re.sub(r'0x[0-9a-f]+', '', ' '.join([ln[0]['marker'], 'open' if ln[0]['fill'] == 'none' else 'filled']))) if ln else ''
    finally:
        os.environ.pop('CONDA_PREFIX', None)
        if old is not None: os.environ['CONDA_PREFIX'] = old
        os.chdir(root)
    if os.path.isdir(root + '_alone'): shutil.rmtree(root + '_alone')
    return {'steps': res}
def asc(s): return s.encode('ascii', 'backslashreplace').decode()

# ------------------------------------------------------------------ scenarios
def names():
    """the built-in names, from the specification's published tables"""
    s = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Published.tla')).read()
    def part(a, b): q = s[s.index(a + ' == <<'):]; return re.findall(r'\[name \|-> "([^"]*)"', q[:q.index(b)] if b in q else q)
    return {'chronology_system': part('Systems', 'ChronFns =='), 'equilibrium': part('EquilFns', 'EpochSystems =='), 'epochs': part('EpochSystems', '=====')}
def contents(r):
    f = lambda x: f'{x:.5g}'
    def sys(n): return dict(name=n, cf=[f(10 ** r.uniform(-14, -13)), f(r.uniform(6.5, 7)), '0', f(10 ** r.uniform(-4, -3))], pf=[f(-r.uniform(2, 4)), f(-r.uniform(2, 4)), f(r.uniform(-.3, .3))])
    def eq(n): return dict(name=n, pf=[f(-r.uniform(.5, 2)), f(-r.uniform(1.6, 2.4))])
    def ep(n): return dict(name=n, time=['0', f(r.uniform(.5, 1.5)), f(r.uniform(2, 4))])
    digit = lambda x: x if x == '0' else re.sub(r'[1-9]', lambda m: '9876543218'[int(m[0])] if m[0] != '5' else '4', x, count=1)
    both = contents2(f, sys, eq, ep)
    first = both['A']
    both['C'] = {k: [{n: [digit(y) for y in v] if n in ('cf', 'pf') else v for n, v in q.items()} for q in first[k]] for k in first}      # the same length
    return both
def contents2(f, sys, eq, ep):
    return {'A': dict(chronology_system=[sys('Zq, Xavier (1901)')], equilibrium=[eq('Zq flat')], epochs=[]),
            'B': dict(chronology_system=[sys('Zq, Xavier (1901)'), sys('Zq, Young (1902)')], equilibrium=[eq('Zq flat'), eq('Zq steep')], epochs=[ep('Zq eras')])}
USER = {'chronology_system': ['Zq, Xavier (1901)', 'Zq, Young (1902)'], 'equilibrium': ['Zq flat', 'Zq steep'], 'epochs': ['Zq eras', 'Zq none']}
def ordinary(r):
    k = r.choice(['plot', 'plot', 'plot', 'plot', 'time', 'sequence', 'uncertainty', 'convert', 'merge', 'map', 'about', 'input', 'settings', 'settings'])
    out = ['-o', r.choice(['o1', 'o2', 'o1.png', 'o2.svg', 'o2.stat', 'sub'])]
    pl = lambda: ['-p', 'source=' + r.choice(['A.diam', 'B.scc']) + r.choice(['', ',psym=o', ',colour=red', ',binning=10/decade', ',name=U,hide=1', ',isochron=1', ',error_bars=0'])]
    age = lambda: ['-p', r.choice(['type=poisson,range=[.25,2]', 'type=c-fit,range=[.2,2]', 'type=d-fit,range=[.2,3],colour=3', 'type=b-poisson,range=[.25,2],source=B.scc', 'range=[b1,b-1],type=poisson,offset_age=[2,1]', 'type=poisson,range=[.2,.9],age_left=1'])]
    if k == 'plot': return r.choice([[], ['-pr', 'cumulative'], ['-pr', 'R-plot'], ['-pr', 'Hartmann']]) + pl() + (age() if r.random() < .5 else []) + r.choice([[], [], ['-f', 'png'], ['-f', 'csv'], ['-f', 'png', 'csv']]) + out
    if k == 'settings': return r.sample([['-invert', '1'], ['-title', 'T'], ['-mu', '0'], ['-style', 'root-2'], ['-isochrons', '1,3a'], ['-xrange', '-2', '1'], ['-yrange', '-4', '1'], ['-legend', 'fnacr'], ['-pt_size', '11'], ['-print_dimensions', '9'], ['-sf', '2'], ['-ref_diameter', '10'],
                                  ['-ep', 'mars'], ['-ef', 'trask'], ['-cs', 'ni2001'], ['-transparent', '1'], ['-b']], r.choice([1, 2, 3])) and sum(r.sample([['-invert', '1'], ['-title', 'T'], ['-mu', '0'], ['-isochrons', '1,3a'], ['-xrange', '-2', '1'], ['-legend', 'fnacr'], ['-pt_size', '11'],
                                  ['-print_dimensions', '9'], ['-sf', '2'], ['-ref_diameter', '10'], ['-ep', 'mars'], ['-ef', 'trask'], ['-cs', 'ni2001'], ['-transparent', '1'], ['-b']], r.choice([1, 2, 4])), []) + pl() + age() + ['-f', 'png', 'csv'] + out
    if k == 'time': return ['-pr', r.choice(['chronology', 'rate']), '-ep', 'mars'] + out + ['-f', 'png']
    if k == 'sequence': return ['-pr', 'sequence', '-st', '-p', 'source=A.diam,type=poisson,range=[.25,2]', '-p', 'source=B.scc,type=poisson,range=[.25,2],name=b', '-f', 'png', 'csv'] + out
    if k == 'uncertainty': return ['-pr', 'uncertainty', '-ns', '10', '-f', 'png'] + out
    if k == 'convert': return ['--convert', r.choice(['stat', 'scc']), r.choice(['A.diam', 'B.scc'])] + out
    if k == 'merge': return ['-m', 'A.diam,B.scc'] + out
    if k == 'map': return ['--convert', 'png', 'B.scc'] + out
    if k == 'about': return [r.choice(['-about', '-v', '-lpc', '-lcs'])]
    return ['-i', r.choice(['o1.cs', 'o2.cs', 'none.cs'])]
def refused(r): return r.choice([['-cs', 'zzzz', '-p', 'source=A.diam'], ['-p', 'source=none.diam', '-o', 'o1'], ['-p', 'type=poisson'], ['-pr', 'qqq'], ['-nosuch'], ['-f', 'bmp'], ['-p', 'source=A.diam,colour=zzz'], ['-p', 'source=A.diam,psym=zzz'],
                                  ['-i', 'none.cs'], ['-ep', 'zzz', '-p', 'source=A.diam'], ['-p', 'source=A.diam,nosuch=1']])
def history(r, g, run, N):
    st = [{'op': 'list'}]
    def queries():
        q = []
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            if x < .35: k = r.choice(list(USER)); q.append({'op': 'choose', 'kind': k, 'name': r.choice(USER[k] * 2 + [r.choice(N[k])])})
            elif x < .6: q.append({'op': 'run', 'args': ordinary(r)})
            elif x < .67: q += [{'op': 'run', 'args': ordinary(r)}, {'op': 'count', 'file': r.choice(FILES), 'version': r.choice([0, 1, 2])}, {'op': 'run', 'args': ordinary(r)}]
            elif x < .8: q.append({'op': 'refused', 'args': refused(r)})
            else: q.append({'op': 'list'})
        return q
    for a in run: st += queries() if r.random() < .6 else []; st.append(a)
    st += [{'op': 'list'}] + queries() + queries()
    if r.random() < .3: st += [{'op': 'symbols'}] + [{'op': 'draw', 'symbol': r.randrange(40), 'by': r.choice([0, 1]), 'colour': r.randrange(40)} for _ in range(3)]
    return {'ev': 'history', 'in': dict(conda=True, start=g['start'], contents=contents(r), steps=st)}

def run(ctx):
    ctx.mc_bg('SessionMC', ctx.scale('SessionMC.cfg', 'SessionMC_big.cfg'), min_states=700)
    ctx.mc_neg_bg('SessionMC', 'SessionMC_neg.cfg', 'ShowsDefined'); ctx.mc_neg_bg('SessionMC', 'SessionMC_neg2.cfg', 'ShowsDefined')
    r = ctx.rng; N = names(); BRIEN = "Vesta, Marchi & O'Brien (2014)"      # (a case of its own: a known finding)
    N['chronology_system'].remove(BRIEN); g = ctx.generate('SessionGen', 'SessionGen.cfg')
    runs = r.sample(g['runs'], ctx.scale(90, len(g['runs'])))
    cases = [history(r, g, x, N) for x in runs]
    allsym = [{'op': 'symbols'}] + [{'op': 'draw', 'symbol': k, 'by': b, 'colour': k} for k in range(20) for b in (0, 1)]
    cases.append({'ev': 'history', 'in': dict(conda=True, start=g['start'], contents=contents(r), steps=allsym)})
    everything = [{'op': 'choose', 'kind': k, 'name': n} for k in N for n in N[k]]
    for k in range(4): cases.append({'ev': 'history', 'in': dict(conda=True, start=g['start'], contents=contents(r), steps=everything[k::4])})
    cases.append({'ev': 'history', 'in': dict(conda=True, start=g['start'], contents=contents(r), steps=[{'op': 'choose', 'kind': 'chronology_system', 'name': BRIEN}])})
    DEMOS = [k for k in range(22) if k not in (9, 19)]      # (not the 3000 random trials, nor the 15 s map)
    for _ in range(ctx.scale(5, 40)):
        d = r.sample(DEMOS, 4); x = [{'op': 'demo', 'd': d[:2]}, {'op': 'run', 'args': ordinary(r)}, {'op': 'demo', 'd': d[2:]}, {'op': 'refused', 'args': refused(r)}, {'op': 'demo', 'd': d[::-1]}]
        cases.append({'ev': 'history', 'in': dict(conda=True, start=g['start'], contents=contents(r), steps=x)})
    for _ in range(ctx.scale(3, 20)):      # no environment to keep the setting in
        x = [{'op': 'set', 'path': {'abs': False, 'name': 'f'}}, {'op': 'list'}, {'op': 'run', 'args': ordinary(r)}, {'op': 'choose', 'kind': 'chronology_system', 'name': r.choice(N['chronology_system'])}, {'op': 'set', 'path': {'abs': True, 'name': 'd1/f'}}, {'op': 'list'}]
        cases.append({'ev': 'history', 'in': dict(conda=False, start=g['start'], contents=contents(r), steps=x)})
    ctx.validate('T29', ctx.drive('c29', cases))
    ctx.need(ListingShowsDefined=150, ChosenExactlyListed=150, ChosenIsDefined=40, SameAlone=500, SetAccepted=60, RefusedWritesNothing=60, SymbolDrawn=30, ColourDrawn=30, DemoMade=10, SetRefused=4)
