import os
from props.util import *
from props import clirun
from props.c10 import DATA, COL, HEX, MARK, KEYS
CASE_TIMEOUT = 60
OPT = {'cs': 'chronology_system', 'ef': 'equilibrium', 'ep': 'epochs'}
# a value for each overplot key by which an effect can be recognised
PROBE = {'source': 'B.scc', 'name': 'qq', 'range': '[0.5,1]', 'snap': '0', 'type': 'poisson', 'error_bars': '0', 'hide': '1', 'colour': 'red', 'psym': 'fs', 'binning': 'x2', 'age_left': '1', 'show_age': '0',
         'resurf': '1', 'resurf_showall': '1', 'isochron': '1', 'offset_age': '[4,5]'}

def base():
    write_diam('A.diam', DATA[0]); write_scc('B.scc', DATA[1]); write_scc('P.scc', DATA[0], perimeter=40.)

def drive(c):
    import craterstats as cst
    i = c['in']; clirun.fresh(); base(); clirun.record()
    pick = lambda r, **k: dict({x: r[x] for x in ('exit', 'msg', 'created', 'changed')}, names=[], got='', **k)
    if c['ev'] == 'refuse': return pick(clirun.main(i['args']))
    w, t = i['what'], i['text']
    if w in OPT:
        r = pick(clirun.main(['-' + w, t, '-f', 'csv'] + (['-p', 'source=A.diam'] if i['plot'] else ['-pr', 'rate'])))
        r['names'] = [x['name'] for x in cst.Functionslist().functions[OPT[w]]]
        if not r['exit']: r['got'] = getattr(clirun.CPSETS[-1], OPT[w])
        return r
    if w == 'pr':
        r = pick(clirun.main(['-pr', t, '-f', 'csv', '-p', 'source=A.diam']))
        if not r['exit']: r['got'] = clirun.CPSETS[-1].presentation
        return r
    if w == 'key':
        # the setting whose value differs from the run without the clause
        r0 = clirun.main(['-f', 'csv', '-p', 'source=A.diam', '-p', 'source=A.diam']); p0 = clirun.plots()[1]
        res = []
        for k, v in PROBE.items():    # whatever key is meant, its own probe value shows it
            os.chdir('..'); clirun.fresh(); base(); clirun.record()
            r = clirun.main(['-f', 'csv', '-p', 'source=A.diam', '-p', f'{t}={v}'])
            if r['exit']: res.append((k, r, [])); continue
            p = clirun.plots()[1]
            res.append((k, r, [x for x in p0 if str(p[x]) != str(p0[x]) and not (x == 'name' and k == 'source')]))
        ok = [(k, ch) for k, r, ch in res if not r['exit'] and set(ch) - {'dec'} == {k}]
        r = pick(next((r for k, r, ch in res if not r['exit']), res[0][1]))
        r['got'] = ok[0][0] if len(ok) == 1 else str([(k, x[0]) for x in ok for k in [x]])
        return r
    r = pick(clirun.main(['-f', 'csv', '-invert', str(i['invert']), '-p', f'source=P.scc,{w}={t}']))
    if not r['exit']: r['got'] = getattr(clirun.CPS[-1], w)
    return r

NAMES = {'pr': ['cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty', 'map', 'sdaa', 'm2cnd'], 'type': ['data', 'differential-fit', 'cumulative-fit', 'poisson', 'buffered-poisson'],
         'binning': STYLES, 'colour': COL, 'psym': [m[1] for m in MARK], 'key': KEYS,
         'cs': ['Moon, Neukum (1983)', 'Moon, Neukum et al. (2001)', 'Moon, Hartmann 2010 iteration', 'Moon, Yue et al. (2022)', 'Mars, Neukum-Ivanov (2001)', 'Mars, Ivanov (2001)', 'Mars, Hartmann 2004 iteration', 'Mars, Hartmann & Daubar (2016)',
                'Mercury, Strom & Neukum (1988)', 'Mercury, Neukum et al. (2001)', 'Mercury, Le Feuvre and Wieczorek 2011 non-porous', 'Mercury, Le Feuvre and Wieczorek 2011 porous', 'Vesta, Rev4, Schmedemann et al (2014)', 'Vesta, Rev3, Schmedemann et al (2014)',
                "Vesta, Marchi & O'Brien (2014)", 'Ceres, Hiesinger et al. (2016)', 'Ida, Schmedemann et al (2014)', 'Gaspra, Schmedemann et al (2014)', 'Phobos, Case A - SOM, Schmedemann et al (2014)', 'Phobos, Case B - MBA, Schmedemann et al (2014)'],
         'ef': ['Lunar equilibrium (Trask, 1966)', 'Hartmann (1984)'], 'ep': ['Moon, Wilhelms (1987)', 'Moon, Guo et al (2024)', 'Mars, Michael (2013)']}

def abbreviate(r, s):
    q = r.random()
    if q < .15: t = s
    elif q < .6:
        n = r.choice([1, 1, 2, 2, 3, 4, 6]); idx = sorted(r.sample(range(len(s)), min(n, len(s)))); t = ''.join(s[k] for k in idx)
    elif q < .75: t = s[:r.randrange(1, len(s) + 1)]
    elif q < .85: t = ''.join(ch for ch in s if r.random() < .7)
    else:      # nearly right, or nonsense, or characters that are special to pattern languages
        t = r.choice([s + r.choice('xqs'), s[::-1], s[1:] + s[0], r.choice('abcdefghijklmnopqrstuvwxyz') * r.choice([1, 2, 3]), s[:2] + r.choice('.*+?[(^$|\\') + s[2:4], r.choice(['*', '+', '.', '(', '[a-z]', '.*', 'a|b', '\\d', '^m', 'n$', '?', '(1983)', '[', ')'])])
    if r.random() < .3: t = r.choice([t.upper(), t.lower(), t.swapcase()])
    return t

def run(ctx):
    ctx.mc_bg('CliMC', 'CliMC.cfg', min_states=1900)
    r = ctx.rng; cases = []
    def add(w, t, **k):
        if not t.strip() or t[0] == '-' or t != t.strip() or '=' in t or ' ' in t and '  ' in t: return
        if w in ('type', 'binning', 'colour', 'psym') and ',' in t: return
        if w == 'key' and not t.replace('_', 'a').isalnum(): return
        inv = r.choice([0, 1])
        cases.append({'ev': 'sel', 'in': dict(what=w, text=t, plot=r.random() < .5, invert=inv, palette=[h[inv] for h in HEX])})
    for w, ns in NAMES.items():
        for s in ns: add(w, s)
        for _ in range({'key': ctx.scale(40, 300)}.get(w, ctx.scale(220, 2000))): add(w, abbreviate(r, r.choice(ns)))
    for a, _ in MARK: add('psym', a); add('psym', a.upper())
    for t in ['#12aBcd', '#000000', '#FFFFFF', '#12345', '#1234567', '#12345g', '#', '#xyzxyz', '##12345', 'a#12345', '# 12345'] * 2: add('colour', t)
    bad = [['-pr', 'diff', '-p', 'type=poisson'], ['-p', 'source'], ['-p', 'source=A.diam,,'], ['-p', 'source=A.diam', '-p', 'colour'], ['-p', 'source=nothere.diam'], ['-p', 'source=nothere.scc'], ['-p', 'source=nothere.stat'],
           ['-p', 'source=A.xyz'], ['-f', 'bmp', '-p', 'source=A.diam'], ['-style', 'curved', '-p', 'source=A.diam'], ['-sf', '5', '-p', 'source=A.diam'], ['-mu', '3', '-p', 'source=A.diam'], ['-invert', '2', '-p', 'source=A.diam'],
           ['-nosuchoption'], ['-p', 'source=A.diam', '-xrange', '1'], ['-pt_size', 'big', '-p', 'source=A.diam'], ['-ref_diameter', 'x', '-p', 'source=A.diam'], ['-i', 'nothere.cs'], ['-inc', 'nothere.txt'],
           ['-ra', 'B.scc', '-measure', 'foo'], ['-ra', 'nothere.scc'], ['-p', 'source=A.diam,snap=maybe'], ['-p', 'source=A.diam,range=[x,y]'], ['-p', 'source=A.diam,offset_age=[a,b]'],
           ['-p', 'source=A.diam,type=b-poisson'], ['-cs'], ['-isochrons'], ['-p'], ['-o'], ['-trials', 'many', '-ra', 'B.scc'], ['--convert', 'scc'], ['-pd', '1.5']]
    for a in bad:
        if a != ['-pd', '1.5']: cases.append({'ev': 'refuse', 'in': dict(args=a)})
    for _ in range(ctx.scale(60, 500)):      # one defective clause among good ones
        a = []; n = r.choice([2, 3, 4]); k = r.randrange(n)
        for j in range(n): a += ['-p', r.choice(['source=A.diam', 'source=B.scc,psym=o'] + (['range=[.2,2]', 'type=data', 'colour=red'] if j else []))]
        a[2 * k + 1] += r.choice([',zzqx=1', ',colour=qqqq', ',psym=qqqq', ',type=qqqq', ',binning=qqqq', ',colour=#12', ',source=nothere.scc', ',range=[a,b]', ',xx'])
        if r.random() < .5: a += ['-f'] + r.choice([['png', 'csv'], ['csv'], ['pdf']])
        if r.random() < .5: a += ['-o', r.choice(['out', 'res.png'])]
        cases.append({'ev': 'refuse', 'in': dict(args=a)})
    r.shuffle(cases)
    ctx.validate('T11', ctx.drive('c11', cases))
    ctx.need(ExactSelected=80, ShortestSelected=500, AmbiguousRefused=30, UnmatchedRefused=150, InvalidRefused=60)
