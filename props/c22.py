import os, random
from props.util import *
CASE_TIMEOUT = 60

def leaves(p, v):
    """leaves <<path, text>> of a parsed tree, as the specification lists them"""
    if isinstance(v, str): return [[p, asc(v.strip())]]
    if isinstance(v, dict):
        r = []
        for k, x in v.items(): r += leaves((p + '/' if p else '') + asc(k), x)
        return r or [[p, '{}']]
    if isinstance(v, (list, tuple)):
        r = [[p + '#', str(len(v))]]
        for n, x in enumerate(v): r += leaves(f'{p}/{n + 1}', x)
        return r
    return [[p, '?' + type(v).__name__]]
def asc(s): return ''.join(c if ord(c) < 128 else f'~{ord(c)}~' for c in s)

def drive(c):
    import craterstats.gm as gm
    i = c['in']
    def read(text, nl, bom):
        with open('t.txt', 'wb') as f: f.write((b'\xef\xbb\xbf' if bom else b'') + text.replace('\n', nl).encode())
        return leaves('', gm.read_textstructure('t.txt') or {})
    return {'file': read(i['raw'], '\n', False), 'string': leaves('', gm.read_textstructure(i['raw'], from_string=True) or {}) if i['plain'] else [], 'noisy': read(i['rawnoisy'], i['nl'], i['bom'])}

KEYS = ['a', 'b', 'area', 'Total_area', 'name', 'x.y', 'k1', 'end', 'coordinate_system_name', 'Q', 'epoch', 'reference']
WORDS = ['1', '2.5', '-3e-4', 'abc', 'Mare', "O'Brien", 'Zürich', '<km^2>', 'x_1', '5"', 'a.b', '&', 'é', 'it\'s', '10%', 'p/q', '#3', '$', '*', 'none', '+1']
def scalar(r):
    q = r.random()
    if q < .3: return r.choice(['1', '3396.19', '-2e5', '0', '1.00'])
    if q < .45: return ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 2, 3])))
    if q < .5: return ''
    return ' '.join(r.choice(WORDS + ['a,b', '(x)', '[y]', 'b=c', 'x;y', 'u # v']) for _ in range(r.choice([1, 2, 3, 4])))
def shown(r, t, item=False):
    """text of a scalar, quoted when it must or may be"""
    must = t == '' and item or any(x in t for x in ';') or item and ',' in t or t[:1] in '[({*"\'#' or t[-1:] in ('"', "'") or item and any(x in t for x in '[]()') or t == ''
    if must or r.random() < .35:
        q = [x for x in '"\'' if x not in t]
        if not q: return None
        x = r.choice(q); return x + t + x
    return t
def cell(r):
    t = r.choice([r.choice(WORDS), r.choice(['1', '0.25', '33.1', '-5']), r.choice(['two words', 'a;b', '', "it's so", 'x = 1 y'])])
    if ' ' in t or ';' in t or t == '' or t[0] in '"\'#}' or r.random() < .15:
        q = [x for x in '"\'' if x not in t]
        if not q: return '1', '1'
        x = r.choice(q); return t, x + t + x
    return t, t

def entry(r, key, depth=0):
    """-> (lines, leaves): lines with a flag whether noise may follow them (True) or not"""
    kind = r.choice(['scalar'] * 5 + ['list'] * 3 + ['table'] * 3 + ['text', 'multi'] + (['struct'] * 3 if depth == 0 else []))
    eq = r.choice(['=', ' = ', '= ', ' =', '\t=\t'])
    p = ('ptr_' + key) if r.random() < .08 and depth == 0 else key
    k = key + '^' if p != key else key
    if kind == 'scalar':
        t = scalar(r); s = shown(r, t)
        if s is None: t = s = 'x'
        return [(k + eq + s, True)], [(p, 's', t)]
    if kind == 'multi':
        ts = [' '.join(r.choice(['lorem', 'ipsum', 'Dolor,', '(sit)', 'amet.', "O'Brien", '5']) for _ in range(r.choice([1, 3]))) for _ in range(r.choice([2, 3]))]
        if ts[0][0] == '(': ts[0] = 'x' + ts[0]
        return [(k + eq + ts[0], None)] + [(x, None) for x in ts[1:-1]] + [(ts[-1], 'end')], [(p, 's', '\n'.join(ts))]
    if kind == 'text':
        ts = [r.choice(['line one', '  indented', 'a, b (c)', 'The end.', "it's"]) for _ in range(r.choice([1, 2, 3]))]
        return [(k + eq + '"', None)] + [(x, None) for x in ts] + [('"', 'end')], [(p, 's', '\n'.join(ts).strip())]
    if kind == 'list':
        items = [scalar(r) for _ in range(r.choice([1, 2, 3, 5]))]
        sh = [shown(r, x, True) for x in items]
        items = ['y' if x is None else a for a, x in zip(items, sh)]; sh = ['y' if x is None else x for x in sh]
        o, c = r.choice(['[]', '[]', '()'])
        if items and (items[0] == '' and sh[0] == ''): return entry(r, key, depth)
        star = r.choice(['', '', '*']) if o == '[' else ''
        lines = []; cur = k + eq + star + o
        for n, x in enumerate(sh):
            cur += r.choice(['', ' ']) + x + (r.choice(['', ' ']) + ',' if n < len(sh) - 1 else '')
            if n < len(sh) - 1 and '=' not in sh[n + 1] and r.random() < .2: lines.append((cur, True)); cur = ' '
        lines.append((cur + r.choice(['', ' ']) + c, True))
        return lines, [(p, 'l', items)]
    if kind == 'table':
        tags = r.sample(['diam', 'fraction', 'lon', 'lat', 'tag', 'n', 'sub_area', 'bin'], r.choice([1, 2, 3, 4]))
        lines = [(k + eq + '{' + r.choice([',', ', ', ',\t', ' , ']).join(tags) + r.choice(['', '', ' ']), True)]; cols = {t: [] for t in tags}
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            cs = [cell(r) for _ in tags]; extra = [cell(r) for _ in range(r.choice([0, 0, 0, 1]))]; drop = len(tags) - (1 if r.random() < .1 and len(tags) > 1 else 0)
            if drop < len(tags): extra = []
            row = (cs + extra)[:drop if drop < len(tags) else None]
            lines.append((r.choice(['', '', ' ', '\t']) + r.choice(['\t', ' ', '  ']).join(x[1] for x in row), True))
            for n, t in enumerate(tags): cols[t].append(cs[n][0] if n < drop else '')
        return lines + [('}', True)], [(p, 't', cols)]
    n = r.choice([1, 2, 3]); L = [(k + eq + '{', True)]; sub = []
    for kk in (r.sample(KEYS, n) if r.random() < .8 else [r.choice(KEYS)] * n):
        a, b = entry(r, kk, 1)
        while b[0][1] in 'lt' and sub and sub[-1][0] == b[0][0] or any(x in y[0] for y in a for x in '{}') and b[0][1] != 't' or any(x in y[0] for y in a[1:-1] for x in '{}'): a, b = entry(r, kk, 1)
        L += [(r.choice(['  ', '', '\t']) + x, f) for x, f in a] if b[0][1] != 's' or len(a) == 1 else a
        sub += b
    return L + [('}', True)], [(p, 'st', sub)]

def flat(prefix, ents):
    out = []; seen = {}
    for e in ents: seen.setdefault(e[0], []).append(e)
    for k, g in seen.items():
        if len(g) > 1: out.append([prefix + k + '#', str(len(g))])
        for n, e in enumerate(g):
            p = prefix + k + (f'/{n + 1}' if len(g) > 1 else '')
            if e[1] == 's': out.append([p, asc(e[2].strip())])
            elif e[1] == 'l': out += [[p + '#', str(len(e[2]))]] + [[f'{p}/{m + 1}', asc(x)] for m, x in enumerate(e[2])]
            elif e[1] == 't':
                for t, col in e[2].items(): out += [[f'{p}/{t}#', str(len(col))]] + [[f'{p}/{t}/{m + 1}', asc(x)] for m, x in enumerate(col)]
            else: out += flat(p + '/', e[2])
    return out

def document(r):
    ents, lines = [], []
    keys = r.sample(KEYS, r.choice([1, 2, 3, 5]))
    order = []
    for k in keys: order += [k] * r.choice([1, 1, 1, 2, 3])
    if r.random() < .6: r.shuffle(order)
    kinds = {}
    for k in order:
        while True:
            a, b = entry(r, k)
            kd = b[0][1]
            prev = kinds.get(b[0][0])
            # repeated keys: structures (arrays of structures) or plain values
            if order.count(k) > 1 and (kd in 'lt' or b[0][0] != k or prev and prev != kd): continue
            break
        kinds[b[0][0]] = kd; ents += b; lines += a
    return ents, lines

def noise(r, lines):
    out = []
    pre = lambda: r.choice([[], [], ['# comment'], [''], ['   '], ['  # x = 5'], ['; note', ''], ['\t']])
    out += [x for x in pre() if not x.startswith(';')]
    for t, ok in lines:
        u = t
        if ok is True and r.random() < .3: u += r.choice([' ; c', '\t;c', ' ;', ' ; x = "y"', '  ', '\t', " ; it's"])
        if ok is True and r.random() < .2: u = r.choice([' ', '\t', '   ']) + u
        out.append(u)
        if ok and r.random() < .35: out += pre()
    return '\n'.join(out) + r.choice(['', '\n', '\n\n'])

def run(ctx):
    ctx.mc_bg('TextStructMC', ctx.scale('TextStructMC.cfg', 'TextStructMC_big.cfg'), min_states=1000)
    r = ctx.rng; cases = []
    for _ in range(ctx.scale(1400, 14000)):
        ents, lines = document(r)
        text = '\n'.join(x for x, f in lines) + r.choice(['', '\n'])
        noisy = noise(r, lines)
        plain = ';' not in text and not any(x.strip().startswith('#') for x, f in lines)
        cases.append({'ev': 'parse', 'in': dict(raw=text, text=asc(text), rawnoisy=noisy, noisy=asc(noisy), leaves=flat('', ents), plain=plain, nl=r.choice(['\n', '\n', '\r\n', '\r']), bom=r.random() < .3)})
    ctx.validate('T22', ctx.drive('c22', cases))
    ctx.need(Denotes=900, NoiseIgnored=900, FromString=200)
