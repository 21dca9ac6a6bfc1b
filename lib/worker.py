"""Runs cases of one property module against the real code (imported from /repo/src) and records one event per case.
usage: worker.py <module> <cases.json> <out.ndjson>   (cwd: a scratch directory)"""
import sys, os, json, io, signal, importlib, contextlib, traceback, math

def enc(x):
    import numpy as np
    if x is None: return 'None'
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 - 1 else repr(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, str): return x
    if isinstance(x, dict): return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, np.ndarray): return [enc(v) for v in x.tolist()]
    if isinstance(x, (set, frozenset)): return sorted(enc(v) for v in x)
    if isinstance(x, (list, tuple)): return [enc(v) for v in x]
    return 'object:' + type(x).__name__

class CaseTimeout(BaseException): pass

def main():
    mod, cases_file, out_file = sys.argv[1:4]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    m = importlib.import_module('props.' + mod)
    cases = json.load(open(cases_file))
    limit = getattr(m, 'CASE_TIMEOUT', 120)
    if hasattr(m, 'setup'): m.setup()
    import craterstats
    if not craterstats.__file__.startswith('/repo/src/'): sys.exit('craterstats from ' + craterstats.__file__)
    import warnings; warnings.simplefilter('ignore')
    import numpy as np; np.seterr(all='ignore')
    def on_alarm(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    home = os.getcwd()
    with open(out_file, 'w') as f:
        for c in cases:
            ev = {'id': c['id'], 'ev': c['ev'], 'in': enc(c['in']), 'exc': '', 'msg': '', 'out': 'None'}
            so, se = io.StringIO(), io.StringIO()
            signal.alarm(limit)
            try:
                with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                    o = m.drive(c)
                ev['out'] = enc(o)
            except CaseTimeout: ev['exc'] = 'Timeout'
            except SystemExit as e: ev['exc'] = 'SystemExit'; ev['msg'] = str(e.code)
            except BaseException as e:
                ev['exc'] = type(e).__name__; ev['msg'] = str(e)[:300]
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            finally:
                signal.alarm(0)
            if getattr(m, 'KEEP_STDOUT', False): ev['stdout'] = so.getvalue()[-4000:]
            os.chdir(home)
            f.write(json.dumps(ev) + '\n'); f.flush()
main()
