import re, os, csv, io, hashlib, json, shutil, shlex
from props.util import *
from props import clirun
from props.c10 import DATA, COL, MARK
CASE_TIMEOUT = 60
SETS = ('title', 'presentation', 'isochrons', 'legend', 'print_dimensions', 'pt_size', 'font', 'ref_diameter', 'sig_figs', 'mu', 'invert', 'transparent', 'text_halo', 'style', 'min_diameter', 'n_samples',
        'bins', 'chronology_system', 'equilibrium', 'epochs', 'format', 'xrange', 'yrange', 'ra_offset', 'ra_show')
FILES = ['A.diam', 'B b.scc', "it's.diam", '#1.diam', 'a,b.diam', 'x(1).diam', 'sub dir/C.scc', 'q"q.diam', '-m.diam', 'e+1.diam']

def one(args, cwd, root):
    """run in cwd; files relative to root; everything a user sees, with sources as absolute paths"""
    os.chdir(cwd); clirun.record(); before = clirun.snapshot(root)
    r = clirun.main(args)
    after = clirun.snapshot(root); os.chdir(root)
    res = {'exit': r['exit'], 'msg': r['msg'], 'set': {}, 'pres': '', 'plots': [], 'rows': [], 'figs': '', 'files': sorted(k for k in after if before.get(k) != after[k])}
    if r['exit']: return res
    cps = clirun.CPSETS[-1]
    res['set'] = {k: getattr(cps, k, None) for k in SETS}; res['pres'] = cps.presentation
    res['set']['scaled'] = bool(clirun.CPS) and cps.presentation not in ('sequence', 'uncertainty')
    ps = clirun.plots()
    for p in ps: p['source'] = os.path.relpath(os.path.join(cwd, p['source']), root); p.pop('dec')
    res['plots'] = ps
    for f in res['files']:
        if f.endswith('.csv'): res['rows'].append([f] + [[c for c in x[:19]] for x in csv.reader(io.StringIO(open(os.path.join(root, f), encoding='utf-8-sig').read()))])
    res['rows'] = hashlib.md5(json.dumps(res['rows']).encode()).hexdigest() if res['rows'] else ''
    figs = sorted(json.dumps(dict(f, file=os.path.basename(f['file'])), sort_keys=True) for f in r['figs'])
    res['figs'] = hashlib.md5('\n'.join(figs).encode()).hexdigest() if figs else ''
    return res

def drive(c):
    i = c['in']; root = clirun.fresh(); work = os.path.join(root, 'work'); other = os.path.join(root, 'other'); os.makedirs(other); os.makedirs(os.path.join(work, 'sub dir')); os.chdir(work)
    for k, f in enumerate(FILES): (write_scc if f.endswith('.scc') else write_diam)(f, DATA[k % 4])
    if c['ev'] == 'include':
        open('lay out.txt', 'w').write(i['text'])
        a, b = list(i['before']), list(i['after'])
        run = one(a + ['-inc', 'lay out.txt'] + b, work, root)
        for f in run['files']: os.remove(os.path.join(root, f))
        spliced = one(a + list(i['words']) + b, work, root)
        return {'run': run, 'spliced': spliced}
    args = [x.replace('%ABS%', work) for x in i['args']]
    run = one(args, work, root)
    cs = [f for f in run['files'] if f.endswith('.cs')]
    out = {'run': run, 'csname': cs[0] if len(cs) == 1 else '', 'cs': '', 'edited': '', 'args': args, 'again': run, 'cskept': False}
    if run['exit'] or len(cs) != 1: return out
    for f in run['files']:
        if f != cs[0]: os.remove(os.path.join(root, f))
    path = os.path.join(root, cs[0]); t = out['cs'] = open(path).read()
    ls = t.split('\n'); ed = []
    for k, l in enumerate(ls):
        for ins in i['insert']:
            if ins[0] == k: ed.append(ins[1])
        ed.append(l)
    ed += [x[1] for x in i['insert'] if x[0] >= len(ls)]
    out['edited'] = '\n'.join(ed) + ('\n' if i['insert'] else '')
    open(path, 'w').write(out['edited'])
    d = {'here': work, 'abs': other, 'rel': other, 'up': root}[i['where']]
    a = {'here': ('./' if os.path.basename(path)[0] == '-' else '') + os.path.basename(path), 'abs': path, 'rel': os.path.relpath(path, other), 'up': os.path.relpath(path, root)}[i['where']]
    again = one(['-i', a], d, root)
    # results are written beside the command file
    out['again'] = again; out['cskept'] = open(path).read() == out['edited']
    return out

def word(r):
    return r.choice(['Unit', 'a', 'E1', '1', '-1', '3.5', "it's", '"q"', 'a"b', '#1', 'x#y', '#', '(km)', 'a,b', 'a|b', '$\\mu$', 'back\\slash', '\\', 'semi;colon', '*', '~', '&', '%', 'k=v', '-x y', '- -', 'tab\tx', 'a  b', '!', '{x}', '[1,2]', '<', '`c`', 'Zürich', "'", '"', '""', '.5', '-.5 x'])
OPTS = [('title', lambda r: [word(r) for _ in range(r.choice([1, 1, 2, 3]))]), ('xrange', lambda r: r.choice([['-3', '2'], ['-2', '1'], ['-2.5', '1.5'], ['-1', '2']])), ('yrange', lambda r: r.choice([['-5', '5'], ['-4', '3'], ['-6.5', '4']])),
        ('isochrons', lambda r: [r.choice(['1,3,3.7a,4a', '.1s', '1as,2n', '3.5', '1,x,2'])]), ('legend', lambda r: [r.choice(['0', 'fnacr', 'n', 'acp', 'fnaN', 'fnacrN', 'r'])]), ('style', lambda r: [r.choice(['natural', 'root-2'])]),
        ('mu', lambda r: [r.choice('01')]), ('invert', lambda r: [r.choice('01')]), ('transparent', lambda r: [r.choice('01')]), ('pt_size', lambda r: [r.choice(['8', '9.5', '12'])]), ('print_dimensions', lambda r: [r.choice(['2', '8x8', '1.5', '10x6'])]),
        ('ref_diameter', lambda r: [r.choice(['1', '10', '.5'])]), ('sig_figs', lambda r: [r.choice('23')]), ('min_diameter', lambda r: [r.choice(['.2', '0.15', '1'])]), ('n_samples', lambda r: ['50'])]
FLAG = {'print_dimensions': ['-pd', '--print_dimensions'], 'sig_figs': ['-sf', '--sig_figs'], 'min_diameter': ['-d_min', '--min_diameter'], 'n_samples': ['-ns', '--n_samples']}

def settings(r, n):
    """-> (args, opts)"""
    a, o = [], []
    for k, g in r.sample(OPTS, n):
        w = g(r)
        if k == 'title' and any(x.startswith('-') and ' ' not in x and not x[1:].replace('.', '').isdigit() for x in w): continue
        a += [r.choice(FLAG.get(k, ['-' + k]))] + w; o.append([k, w])
    return a, o

def overplots(r, pres, absolute=False):
    a = []
    for j in range(r.choice([1, 1, 2, 3])):
        cl = []
        if j == 0 or r.random() < .4: cl.append('source=' + ('%ABS%/' if absolute else '') + r.choice(FILES))
        if r.random() < .6: cl.append('name=' + r.choice([w for w in (word(r) for _ in range(9)) if '=' not in w and ',' not in w] or ['n']))
        if r.random() < .5: cl.append('type=' + r.choice(['poisson', 'data', 'poiss'] if pres in ('Hartmann', 'sequence') else ['poisson', 'data', 'c-fit', 'd-fit']))
        if r.random() < .5: cl.append('range=' + r.choice(['[.2,3]', '[0.25,2]', '[b1,b-1]']))
        if r.random() < .4: cl.append('colour=' + r.choice([r.choice(COL), '#12ab34']))
        if r.random() < .4: cl.append('psym=' + r.choice(r.choice(MARK)[:2]))
        if r.random() < .3: cl.append('offset_age=[' + r.choice(['-2,3', '1,1', '2,-2.5']) + ']')
        if r.random() < .3: cl.append(r.choice(['isochron=1', 'snap=0', 'error_bars=0', 'hide=1', 'age_left=1']))
        t = ','.join(cl)
        if t: a += [r.choice(['-p', '--plot'])] + (t.split(' ') if r.random() < .3 and '  ' not in t and not any(x.startswith('-') for x in t.split(' ')) else [t])
    return a

def command(r, out=True):
    a, o = settings(r, r.choice([0, 1, 2, 4, 6]))
    pres = r.choice(['differential', 'differential', 'cumulative', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence'])
    b = []
    if pres != 'differential' or r.random() < .3: b += ['-pr', pres]
    if r.random() < .5: b += [r.choice(['-cs', '--chronology_system']), r.choice(['neukum83', 'ni2001', 'Moon, Neukum (1983)', 'Mars, Hartmann & Daubar (2016)', 'yue'])]
    if r.random() < .3: b += ['-ef', r.choice(['trask', 'Lunar equilibrium (Trask, 1966)'])]
    if r.random() < .3: b += ['-ep', r.choice(['mars', 'moonw'])]
    if r.random() < .7: b += ['-f'] + r.choice([['csv'], ['csv'], ['png'], ['png', 'csv'], ['pdf', 'svg', 'csv']])
    if out and r.random() < .6: b += ['-o', *r.choice([['out'], ['my out'], ['my', 'out'], ["o'x"], ['#out'], ['v1.2 final'], ['out.png'], ['out.csv'], ['1'], ['o,p'], ['a(b)'], ['"r"'], ['Ätna']])]
    if r.random() < .15: b += [r.choice(['-tight', '-b', '--bins'])]
    if r.random() < .1: b += ['-text_halo', r.choice('01')]
    return (b + a, o, pres) if r.random() < .5 else (a + b, o, pres)

def run(ctx):
    ctx.mc_bg('CsFileMC', ctx.scale('CsFileMC.cfg', 'CsFileMC_big.cfg'), min_states=100000)
    r = ctx.rng; cases = []
    for _ in range(ctx.scale(700, 7000)):
        a, o, pres = command(r)
        a = a + overplots(r, pres) if pres not in ('chronology', 'rate') else a
        if not a: continue
        ins = [] if r.random() < .5 else [[r.randrange(0, 8), r.choice(['# comment', '', '   ', "  # it's", '#-sf 2', '\t# "', '#'])] for _ in range(r.choice([1, 2, 4]))]
        cases.append({'ev': 'replay', 'in': dict(args=a, opts=o, insert=ins, where=r.choice(['here', 'here', 'abs', 'rel', 'up']))})
    plain = lambda w: re.fullmatch(r'[\w@%+=:,./\[\]-][\w@%+=:,./\[\]#-]*', w)
    q = lambda w: r.choice([shlex.quote(w), w if plain(w) else shlex.quote(w), '"' + w + '"' if not set(w) & set('"\\') else shlex.quote(w)])
    for _ in range(ctx.scale(250, 2500)):
        a, o, pres = command(r); w, _ = settings(r, r.choice([1, 2, 3])); t = ''
        if r.random() < .3: w = w + ['-p', 'source=A.diam,name=inc' + r.choice(['', ',colour=#12ab34', ',colour=#A0b1C2,psym=o'])]
        for k, x in enumerate(w):
            if k and x[:1] == '-' and not x[1:2].isdigit() and x[1:2] != '.': t += '\n' + r.choice(['', '', '# c\n', '\n', '  # -sf 3\n', '   '])
            elif k: t += r.choice([' ', '  '])
            t += q(x)
        t = r.choice(['', '# layout\n', '\n']) + t + r.choice(['', '\n', '\n# end\n'])
        pre = r.choice([[], settings(r, 1)[0]])
        cases.append({'ev': 'include', 'in': dict(before=pre, text=t, words=w, after=a + (overplots(r, pres) if pres not in ('chronology', 'rate') else []))})
    r.shuffle(cases)
    ctx.validate('T12', ctx.drive('c12', cases))
    ctx.need(FileDenotesCommand=400, SameSettings=400, SameFiles=400, IncludeSettings=120, SettingsTaken=400)
