"""Runs command lines through craterstats.cli.main in the current directory and records what a user can see:
exit, messages, files created/changed, and the figures handed to matplotlib (instead of rendering them)."""
import os, sys, hashlib, math, shutil, re
FIGS = []

def _num(x): return float(x)

def axinfo(ax):
    from matplotlib.colors import to_hex
    L = []
    for ln in ax.lines:
        x, y = [[float('nan') if v is None else float(v) for v in q] for q in (ln.get_xdata(), ln.get_ydata())]
        L.append({'label': str(ln.get_label()), 'n': len(x), 'x': x, 'y': y, 'color': to_hex(ln.get_color()), 'marker': str(ln.get_marker()), 'ls': str(ln.get_linestyle()),
                  'fill': str(ln.get_markerfacecolor())})
    return {'xlim': [float(v) for v in ax.get_xlim()], 'ylim': [float(v) for v in ax.get_ylim()], 'lines': L, 'yscale': ax.get_yscale(),
            'texts': [str(t.get_text()) for t in ax.texts], 'title': str(ax.get_title()), 'xlabel': str(ax.get_xlabel()), 'ylabel': str(ax.get_ylabel()),
            'legend': [str(t.get_text()) for t in ax.get_legend().get_texts()] if ax.get_legend() else []}

def figinfo(fig, render=False):
    return {'size': [float(v) for v in fig.get_size_inches()], 'axes': [axinfo(a) for a in fig.axes]}

def install(render=False):
    import matplotlib.figure as mf
    if hasattr(mf.Figure, '_verif_orig'): return
    mf.Figure._verif_orig = mf.Figure.savefig
    def savefig(self, fname, *a, **k):
        if install.hook: install.hook(self, str(fname))
        FIGS.append({'file': str(fname), 'transparent': bool(k.get('transparent')), 'fig': figinfo(self)})
        if install.render: return mf.Figure._verif_orig(self, fname, *a, **k)
        d = os.path.dirname(str(fname))
        if d and not os.path.isdir(d): raise FileNotFoundError(fname)
        with open(fname, 'wb') as f: f.write(b'figure')
    mf.Figure.savefig = savefig
install.render = False
install.hook = None

def snapshot(d='.'):
    r = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f); st = os.lstat(p)
            r[os.path.relpath(p, d)] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return r

def fresh(name='case'):
    """an empty scratch directory for one case (inside the worker's own scratch directory)"""
    base = os.getcwd()
    d = os.path.join(base, name)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d); os.chdir(d)
    return d

def main(args, render=False, call=None):
    """-> {exit: '' | 'SystemExit' | exception name, msg, created, changed, removed, figs}"""
    from craterstats import cli
    install(); install.render = render
    FIGS.clear()
    before = snapshot(); cwd = os.getcwd(); argv = sys.argv
    sys.argv = ['craterstats'] + list(args)
    ex, msg = '', ''
    try: (call or cli.main)(list(args))
    except SystemExit as e: ex, msg = 'SystemExit', str(e.code)
    except Exception as e:
        ex, msg = type(e).__name__, str(e)[:300]
        if os.environ.get('VERIF_DEBUG'):
            import traceback; traceback.print_exc()
    finally: sys.argv = argv; os.chdir(cwd)
    after = snapshot()
    return {'exit': ex, 'msg': msg, 'created': sorted(set(after) - set(before)), 'changed': sorted(k for k in after if k in before and after[k] != before[k]),
            'removed': sorted(set(before) - set(after)), 'figs': [dict(f) for f in FIGS]}

# ---------------------------------------------------------------- overplots and plot set a command line leads to
CPS, CPSETS = [], []
def record():
    """remember the overplots / plot sets constructed from now on"""
    import craterstats as cst
    for cls, lst in ((cst.Craterplot, CPS), (cst.Craterplotset, CPSETS)):
        if not hasattr(cls, '_verif_init'):
            cls._verif_init = cls.__init__
            def init(self, *a, _o=cls.__init__, _l=lst, **k):
                _o(self, *a, **k); _l.append(self)
            cls.__init__ = init
    CPS.clear(); CPSETS.clear()

ATTRS = ('source', 'name', 'snap', 'type', 'error_bars', 'hide', 'colour', 'psym', 'binning', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron', 'offset_age')
def plots(ranges=()):
    """attributes of the recorded overplots; `dec': what each of the given range texts means for this overplot's source, binning and snapping"""
    import craterstats as cst
    res = []
    for p in CPS:
        d = {a: getattr(p, a) for a in ATTRS}
        d['range'] = [float(x) for x in p.range]
        d['dec'] = []
        for t in ranges:
            cc = cst.Cratercount(p.source)
            d['dec'].append([t, [float(x) for x in cc.decode_range(t.strip('[]').split(','), p.binning, int(p.snap))]])
        res.append(d)
    return res
