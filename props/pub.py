"""The published tables, read from the specification (spec/Published.tla)."""
import re, os
T = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Published.tla')).read()
def section(n): return re.search(r'^' + n + r' == <<\n(.*?) >>$', T, re.S | re.M)[1].split('\n')
def seqof(l, k):
    m = re.search(k + r' \|-> <<(.*?)>>', l); return [e.strip('" ') for e in m[1].split(',')] if m and m[1].strip() else []
def fld(l, k): m = re.search(k + r' \|-> "((?:[^"])*)"', l); return m and m[1]
SYSTEMS = [dict(name=fld(l, 'name'), cf=fld(l, 'cf'), pf=fld(l, 'pf')) for l in section('Systems')]
CHRON = [dict(name=fld(l, 'name'), kind=fld(l, 'kind'), p=[float(x) for x in seqof(l, 'p')]) for l in section('ChronFns')]
def prod(n): return [dict(name=fld(l, 'name'), type=fld(l, 'type'), coef=[float(x) for x in seqof(l, 'coef')], range=[float(x) for x in seqof(l, 'range')],
                          h=[float(x) for x in seqof(l, ' h')], i1=int(re.search(r'i1 \|-> (\d+)', l)[1])) for l in section(n)]
PROD, EQUIL = prod('ProdFns'), prod('EquilFns')
EPOCHS = [dict(name=fld(l, 'name'), time=seqof(l, 'time'), ref=seqof(l, 'ref'), density=seqof(l, 'density')) for l in section('EpochSystems')]
