"""Counts for the randomness analysis (used by C18-C21)."""
import sys, math
from props.sph import *
def boundary(parts):
    b = []; k = 0
    for p in parts:
        for t, q in [('ext', p['shell'])] + [('int', h) for h in p['holes']]: k += 1; b.append((k, t, q))
    return b
def write(base, R, parts, cr):
    """cr: [(diam, lon, lat)]"""
    open(base + '.scc', 'w').write(scc_text(R, boundary(parts), [(d, 1., x, y) for d, x, y in cr]))
def key(k): return f'{k / 2:.3g}'
def diam_in(r, k): return 2 ** (k / 2 + r.uniform(.02, .48))
def write_ra(path, stored):
    """stored: {measure: {'T': n, 'bins': [(key, trials)]}}; n_sigma table left as a placeholder of the same bins"""
    ks = sorted({b for m in stored.values() for b, _ in m['bins']}, key=float)
    L = ['# Randomness analysis', 'version = 3.6', 'source = "x"', '#', 'n_sigma = {bin, ' + ', '.join(stored)]
    L += ['\t'.join([b] + ['0.5' if any(b == k for k, _ in m['bins']) else '-' for m in stored.values()]) for b in ks] + ['}']
    for n, m in stored.items():
        L += ['#', n + ' = {', f"n_trials = {m['T']}", 'trials = {' + ', '.join(['index'] + [b for b, _ in m['bins']])]
        L += ['\t'.join([str(t)] + [repr(q[t]) for _, q in m['bins']]) for t in range(m['T'])] + ['}', '}']
    open(path, 'w').write('\n'.join(L) + '\n')
def module(): return sys.modules['craterstats.Randomnessanalysis']
