#!/opt/venv/bin/python
"""check.py C01 [quick|thorough] -- decides one property against /repo's working tree.  --replay FILE re-drives one recorded event."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from lib import core

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        core.build(); print('built'); return 0
    if a and a[0] == '--replay':
        import importlib
        d = json.load(open(a[1])); m = importlib.import_module('props.' + d['property'].lower())
        ctx = core.Ctx(d['property'], 'quick', 1); core.build()
        print(json.dumps(d['event'], indent=1)[:3000])
        if hasattr(m, 'replay'): m.replay(ctx, d['event'])
        return core.report(ctx, m)
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return core.run_property(prop, tier, seed)
    except core.Machinery as e:
        print('MACHINERY ERROR:', e); return 2
sys.exit(main())
