"""developer entry: run.py CASE... [--config nightly|stable|...] [--mode sized]"""
import sys, os, time, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import mir
from core import *
from exec import Interp, contract_key
import spec, contracts

CONFIGS = {'stable': (['std', 'alloc'], True), 'stable-rel': (['std', 'alloc'], False), 'nightly': (['std', 'alloc', 'nightly'], True), 'nightly-rel': (['std', 'alloc', 'nightly'], False),
           'none': ([], True), 'nightly-none': (['nightly'], True)}


def run_case(interp, case, mode, a=None,  timeout=10000, budget=120):
    fs = spec.find_fn(interp, case)
    if not fs:
        return None, 'lost anchor: no function ' + case.key
    if len(fs) > 1 and not case.multi:
        return None, 'ambiguous anchor ' + case.key
    def make():
        ex = Explorer(zst=mode == 'zst', copy=mode == 'copy', timeout=timeout, budget_s=budget)
        ex.own, ex.unw = bool(a and a.own), bool(a and a.unw)
        ex.unroll = a.unroll if a else 0
        for k, v in case.ex.items():
            setattr(ex, k, v)
        return ex
    t = time.time()
    ex, seen, errt = spec.checked(interp, case, fs, mode, make)
    ex.wall = time.time() - t
    ex.seen = seen
    return ex, errt


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cases', nargs='*')
    ap.add_argument('--config', default='nightly')
    ap.add_argument('--mode', default=None)
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--own', action='store_true')
    ap.add_argument('--unw', action='store_true')
    ap.add_argument('--unroll', type=int, default=0)
    a = ap.parse_args()
    feats, dbg = CONFIGS[a.config]
    mod = mir.load(a.repo, feats, dbg)
    interp = Interp(mod)
    interp.contracts = contracts.USE
    for n, c in contracts.CASES.items():
        if a.cases and not any(x in n or x == '@' + c.setup.__globals__['__name__'].replace('contracts_', '') for x in a.cases):
            continue
        if c.nightly is True and 'nightly' not in feats or c.nightly is False and 'nightly' in feats:
            continue
        if c.alloc and 'std' not in feats and 'alloc' not in feats:
            continue
        if c.opts.get('optional') and not spec.find_fn(interp, c):
            continue
        for mode in c.modes:
            if a.mode and mode != a.mode:
                continue
            try:
                ex, e = run_case(interp, c, mode, a)
            except Exception:
                print(n, mode, 'CRASH')
                print('   ' + '\n   '.join(traceback.format_exc(limit=-3).split('\n')[-8:]))
                continue
            if ex is None:
                print('%-45s %-6s %s' % (n, mode, e))
                continue
            st = ex.stats
            print('%-45s %-6s paths=%d obl=%d failed=%d und=%d unsup=%d %.1fs q=%d %s %s %s' % (n, mode, st.paths, st.discharged, len(st.failed), len(st.undecided), len(st.unsupported),
                  ex.wall, st.queries, ex.seen, e or '', st.phases if a.unw else ''), flush=True)
            if a.v or st.failed or st.unsupported or st.undecided:
                for f in st.failed[:(9 if a.v else 2)]:
                    print('    FAIL', f.get('phase'), f['obligation'], '|', f['where'], '|', f['formula'][:300])
                    print('       ', f['model'])
                    print('       ', f['trace'])
                for u in st.unsupported[:3]:
                    print('    UNSUP', u)
                for u in st.undecided[:3]:
                    print('    UNDEC', u)
