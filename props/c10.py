import os, csv, io
from props.util import *
from props import clirun
CASE_TIMEOUT = 60
SRC = ['A.diam', 'B.scc', 'C c.diam', 'D.diam']
def rows(f):
    if not os.path.exists(f): return []
    t = list(csv.reader(io.StringIO(open(f, encoding='utf-8-sig').read())))
    h = next((k for k, x in enumerate(t) if x and x[0] == 'Name'), None)
    if h is None: return []
    H = t[h]; g = lambda x, n: x[H.index(n)]
    return [{'name': g(x, 'Name'), 'method': g(x, 'Method'), 'binning': g(x, 'Binning'), 'source': g(x, 'Source')} for x in t[h + 1:] if x]

def drive(c):
    i = c['in']
    import craterstats as cst
    clirun.fresh()
    for k, f in enumerate(SRC):
        d = i['data'][k]
        (write_scc if f.endswith('.scc') else write_diam)(f, d)
    clirun.record()
    a = ['-f'] + i['formats'] + ['-o', 'out', '-pr', i['pres']]
    if i['invert']: a += ['-invert', '1']
    for cl in i['clauses']:
        a += ['-p'] + (','.join(f'{k}={v}' for k, v in cl).split(' ') if i['words'] else [','.join(f'{k}={v}' for k, v in cl)])
    r = clirun.main(a)
    out = {'exit': r['exit'], 'msg': r['msg'], 'created': r['created'], 'plots': [], 'rows': []}
    if r['exit'] == '':
        out['plots'] = clirun.plots(sorted({v for cl in i['clauses'] for k, v in cl if v.startswith('[')} | {'[0,inf]'}))
        out['rows'] = rows('out.csv')
    return out

DATA = [[.3, .31, .5, .52, .8, 1.1, 1.2, 2.1, 3.], [.2, .25, .3, .45, .7, .9, 1.5], [.4, .44, .6, 1., 2., 2.2], [.21, .33, .61, .62, 1.3, 4.]]
PALETTE = None
COL = ['Black', 'Red', 'Green', 'Blue', 'Yellow', 'Violet', 'Grey', 'blue1', 'blue2', 'blue3', 'blue4', 'brown1', 'brown2', 'brown3', 'brown4', 'green1', 'green2', 'green3', 'orange', 'pink1', 'pink2', 'pink3', 'purple1', 'purple2', 'red1', 'red2', 'red3', 'teal1', 'teal2', 'yellow1', 'yellow2', 'yellow-green']
HEX = [('#000000', '#ffffff'), ('#a00000', '#ff0000'), ('#008200', '#00ff00'), ('#0050c8', '#5ab4ff'), ('#e1af00', '#ffdc00'), ('#8748bd', '#b464ff'), ('#aaaaaa', '#787878')] + \
      [(x, x) for x in '#19426b #476788 #7a91a9 #a0ccd3 #533714 #6b4719 #7b5c33 #af9c83 #336b19 #5d8a49 #91af83 #b58000 #6b1946 #975e7d #ba93a8 #4c265d #876e93 #6b1920 #7c393f #8d595e #196b64 #6ba09b #b5a200 #ded68e #a8b100'.split()]
KEYS = ['source', 'name', 'range', 'snap', 'type', 'error_bars', 'hide', 'colour', 'psym', 'binning', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron', 'offset_age']
MARK = [('s', 'square'), ('o', 'circle'), ('*4', 'star4'), ('^', 'triangle'), ('*', 'star5'), ('x', 'diagonal cross'), ('+', 'cross'), ('.', 'point'), ('v', 'inverted triangle'), ('fs', 'filled square'), ('fo', 'filled circle'), ('f*4', 'filled star4'), ('f^', 'filled triangle'), ('f*', 'filled star5'), ('fv', 'filled inverted triangle')]
SHORT = {'source': ['src', 'sou', 'source', 'SOURCE'], 'name': ['nm', 'name', 'na'], 'range': ['rng', 'range', 'ra'], 'snap': ['snap', 'snp'], 'type': ['type', 'ty', 'tp'], 'error_bars': ['err', 'error_bars', 'eb'], 'hide': ['hide', 'hd'],
         'colour': ['col', 'colour', 'clr'], 'psym': ['psym', 'sym', 'ps'], 'binning': ['bin', 'binning', 'bng'], 'age_left': ['left', 'age_left', 'al'], 'show_age': ['show_age', 'sa', 'sag'], 'resurf': ['resurf', 'rsf'], 'resurf_showall': ['showall', 'resurf_showall'], 'isochron': ['iso', 'isochron'], 'offset_age': ['offset', 'offset_age', 'off']}
def value(r, k, pres):
    if k == 'source': return r.choice(SRC[:3] if r.random() < .9 else SRC)
    if k == 'name': return r.choice(['Unit 1', 'n', 'a b c', 'X'])
    if k == 'range': return r.choice(['[0.2,3]', '[0.25,2]', '[b1,b-1]', '[.3,inf]', '[b2,5]', '[0.2,0.9]'])
    if k == 'type': return r.choice(['data', 'poisson', 'c-fit', 'd-fit', 'cumulative-fit', 'differential-fit', 'poiss', 'dat', 'pois'] if pres != 'Hartmann' else ['data', 'poisson', 'pois'])
    if k == 'colour': return r.choice([r.choice(COL), r.choice(COL), '#12aBcd', 'red', 'bl', 'gr', 'yg', 'YELLOW', 'p2'])
    if k == 'psym': return r.choice([r.choice(MARK)[r.randrange(2)], 'sq', 'circ', 'fsq', 'filltri', 'tri', 's4'])
    if k == 'binning': return r.choice(['pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'pseudo', '20', '10', 'root2', '4th', 'r2', 'PSEUDO-LOG'])
    if k == 'offset_age': return r.choice(['[1,2]', '[-2,3.5]', '[0,0]', '[3,-1]'])
    return r.choice(['0', '1'])

def run(ctx):
    ctx.mc_bg('CliMC', ctx.scale('CliMC.cfg', 'CliMC_big.cfg'), min_states=1900)
    gen = ctx.generate('CliGen', 'CliGen.cfg')['clauses']
    r = ctx.rng; cases = []
    def add(clauses, pres, invert=0, formats=('csv',), words=False):
        cases.append({'ev': 'plots', 'in': dict(clauses=[[[k, v] for k, v in cl] for cl in clauses], pres=pres, invert=invert, formats=list(formats), words=words, csv='csv' in formats,
                                                data=DATA, palette=[h[invert] for h in HEX])})
    tr = {'A': 'A.diam', 'B': 'B.scc'}
    fix = lambda cl: [[k, tr.get(v, v)] for k, v in cl] or [['name', 'z']]
    for _ in range(ctx.scale(700, 8000)):      # clauses enumerated by TLC
        n = r.choice([1, 2, 2, 3, 3, 4])
        cls = [fix(r.choice(gen)) for _ in range(n)]
        if not any(k == 'source' for k, v in cls[0]) and r.random() < .9: cls[0] = [['source', r.choice(SRC[:2])]] + cls[0]
        add(cls, r.choice(['differential', 'differential', 'sequence', 'cumulative']))
    for _ in range(ctx.scale(500, 6000)):      # all settings, abbreviated or not, in any order
        pres = r.choice(['differential', 'cumulative', 'R-plot', 'sequence', 'sequence', 'Hartmann'])
        cls = []
        for j in range(r.choice([1, 2, 3, 4, 5])):
            ks = r.sample(KEYS, r.choice([1, 2, 3, 4, 6]))
            if j == 0 and 'source' not in ks and r.random() < .95: ks.insert(r.randrange(len(ks) + 1), 'source')
            cl = [[r.choice([k, r.choice(SHORT[k])]), value(r, k, pres)] for k in ks]
            if len({k for k, v in cl}) == len(cl): cls.append(cl)
        if not cls: continue
        add(cls, pres, invert=r.choice([0, 0, 1]), formats=r.choice([['csv'], ['csv'], ['png', 'csv'], ['png']]), words=r.random() < .5)
    ctx.validate('T10', ctx.drive('c10', cases))
    ctx.need(Accepted=900, AnalysisType=900, Range=900, TableRows=500, FirstNeedsSource=12)
