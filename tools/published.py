#!/usr/bin/env python3
"""One-off transcription of the published tables (functions.txt of the pinned commit) into spec/Published.tla."""
import re, subprocess
t = subprocess.check_output(['git', '-C', '/repo', 'show', '8468c8c:src/craterstats/config/functions.txt'], text=True).lstrip('\ufeff')
lines = [l for l in t.split('\n') if not l.strip().startswith('#')]
blocks = []; cur = None
for l in lines:
    m = re.match(r'\s*(\w+)\s*=\s*\{\s*$', l)
    if m and cur is None: cur = [m[1], []]; continue
    if l.strip() == '}' and cur: blocks.append(cur); cur = None; continue
    if cur: cur[1].append(l)
def val(ls, k):
    s = '\n'.join(ls)
    m = re.search(r'^\s*' + k + r'\s*=\s*(.*)$', s, re.M)
    if not m: return None
    v = m[1].strip().lstrip('*')
    if v.startswith('[') and ']' not in v:
        rest = s[m.end():]; v += rest[:rest.index(']') + 1]
    return v
def lst(v): return [e.strip().strip("'\"") for e in re.split(r",(?=(?:[^']*'[^']*')*[^']*$)", v.strip()[1:v.strip().index(']')].replace('\n', ' '))]
def q(s): return '"' + s.strip().strip('\'"') .replace('\\', '\\\\') + '"' if not s.strip().startswith('"') else '"' + s.strip()[1:s.strip().rindex('"')] + '"'
def name(v):
    v = v.strip()
    return v[1:v.index(v[0], 1)]
num = lambda x: '"%s"' % repr(float(x))
seq = lambda a: '<<' + ', '.join(a) + '>>'
out = ['------------------------------ MODULE Published ----------------------------',
       '(* The published tables: chronology systems, chronology/production/equilibrium functions, epochs. *)',
       '(* Transcribed by tools/published.py; numbers are decimal strings. *)']
S = {k: [] for k in ('chronology_system', 'chronology', 'production', 'equilibrium', 'epochs')}
for k, ls in blocks:
    n = name(val(ls, 'name'))
    if k == 'chronology_system':
        S[k].append(f'[name |-> "{n}", cf |-> "{name(val(ls, "cf"))}", pf |-> "{name(val(ls, "pf"))}", body |-> "{name(val(ls, "body"))}"]')
    elif k == 'chronology':
        if not val(ls, 'coefficients'): print('no coefficients:', n); S[k].append(f'[name |-> "{n}", kind |-> "code", p |-> <<>>]'); continue
        S[k].append(f'[name |-> "{n}", kind |-> "coeff", p |-> {seq(num(e) for e in lst(val(ls, "coefficients")))}]')
    elif k in ('production', 'equilibrium'):
        typ = val(ls, 'type'); typ = name(typ) if typ else 'polynomial'
        rng = val(ls, 'range')
        r = seq(num(e) for e in lst(rng)) if rng else '<<>>'
        if typ == 'polynomial':
            S[k].append(f'[name |-> "{n}", type |-> "polynomial", coef |-> {seq(num(e) for e in lst(val(ls, "coefficients")))}, range |-> {r}, h |-> <<>>, i1 |-> 0]')
        else:
            S[k].append(f'[name |-> "{n}", type |-> "tabular", coef |-> <<>>, range |-> {r}, h |-> {seq(num(e) for e in lst(val(ls, "H")))}, i1 |-> {int(val(ls, "index_1km"))}]')
    elif k == 'epochs':
        f = lambda kk: seq(num(e) for e in lst(val(ls, kk))) if val(ls, kk) else '<<>>'
        S[k].append(f'[name |-> "{n}", epoch |-> {seq(chr(34)+e+chr(34) for e in lst(val(ls, "epoch")))}, time |-> {f("time")}, ref |-> {f("ref_diameter")}, density |-> {f("density")}]')
nm = {'chronology_system': 'Systems', 'chronology': 'ChronFns', 'production': 'ProdFns', 'equilibrium': 'EquilFns', 'epochs': 'EpochSystems'}
for k, v in S.items():
    out.append(f'{nm[k]} == <<\n  ' + ',\n  '.join(v) + ' >>')
out.append('=' * 77)
open('/verif/spec/Published.tla', 'w').write('\n'.join(out) + '\n')
print({k: len(v) for k, v in S.items()})
