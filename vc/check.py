"""check.py PROPERTY [--tier quick|thorough]: decide one property by verifying the contracts it rests on against /repo's source."""
import sys, os, time, json, argparse, traceback, hashlib, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import mir
from core import *
from exec import Interp, contract_key
import spec, contracts, harness
from props import PROPS, TRUSTED, ASSUMPTIONS

CONFIGS = [('stable', ['std', 'alloc'], True), ('stable-rel', ['std', 'alloc'], False),
           ('nightly', ['std', 'alloc', 'nightly'], True), ('nightly-rel', ['std', 'alloc', 'nightly'], False),
           ('no_std', [], True), ('nightly-no_std', ['nightly'], True)]
NAMES = [c[0] for c in CONFIGS]


def active(case, feats):
    if case.nightly is True and 'nightly' not in feats or case.nightly is False and 'nightly' in feats:
        return False
    if case.alloc and 'alloc' not in feats:
        return False
    return True


def in_view(f, view):
    n, ph = f['obligation'], f['phase']
    if view == 'own':
        return n.startswith('ownership:') or ph == 'body'
    return ph == 'unwind' and not n.startswith('post:')


def modes_of(case, prop):
    ms = [m for m in case.modes if m not in prop.get('skip_modes', ())]
    if 'only_modes' in prop:
        ms = [m for m in ms if m in prop['only_modes']] + (['zero'] if case.name in prop['zero'] else [])
    return ms


MODS = {}
# functions no user can call: what they promise each other may change as long as what users rely on does not
PRIVATE = ('check_range', 'RawCursor::new', 'RawCursor::at_back_of_vec')
WITHOUT = set()         # contracts not to be used at call sites (the body is looked into instead)


def interp_for(cfg):
    if cfg not in MODS:
        _, feats, dbg = CONFIGS[NAMES.index(cfg)]
        MODS[cfg] = mir.load(REPO, feats, dbg)
    return Interp(MODS[cfg], {k: c for k, c in contracts.USE.items() if k not in WITHOUT})


prop_cases = set()

# provided methods of the standard traits (and of Storage) that come to be overridden without a contract here: not proved, so the bounded
# stand-in (which calls them) is run for the properties they bear on
BEARS = {'Drain': 'P07 P05 P06 P18', 'DrainFilter': 'P08 P05 P06 P18', 'Splice': 'P09 P05 P06 P18', 'IntoIter': 'P19 P05 P06 P18', 'UninitBuffer': 'P16',
         'UninitSlice': 'P16', 'ZeroSized': 'P16 P18', 'Heap': 'P17 P16', 'array': 'P16', 'slice': 'P16', '&mut': 'P16', 'Box': 'P16'}
BY_TRAIT = {'PartialEq': 'P13', 'Eq': 'P13', 'PartialOrd': 'P13', 'Ord': 'P13', 'Hash': 'P13', 'Debug': 'P13', 'Borrow': 'P13', 'AsRef': 'P13', 'Deref': 'P13',
            'Clone': 'P12 P05 P06', 'Extend': 'P11 P05 P06', 'FromIterator': 'P11', 'IntoIterator': 'P13 P19'}
STD = ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'Storage', 'StorageWithCapacity') + tuple(BY_TRAIT)


def overridden(prop, mod):
    known = {c.key.split('#')[0] for c in contracts.CASES.values()}
    for f in mod.funcs:
        if f.impl is None or f.impl.trait is None or '{' in f.key or f.impl.trait[1] not in STD:
            continue
        k = contract_key(f)
        if k in known:
            continue
        h = k.split(' for ')[1].split('::')[0]
        ps = BY_TRAIT.get(f.impl.trait[1], '') if h in ('GenericVec', '&') else BEARS.get(h, '')
        if prop in ps.split():
            yield k



def explorer(case, mode, view, timeout, budget):
    ex = Explorer(zst=mode == 'zst', copy=mode == 'copy', timeout=timeout, budget_s=budget)
    ex.own, ex.unw = view == 'own', view == 'unwind'
    if mode == 'zero':
        ex.zero = ('T', 'U') if case.module == 'heap' else ('U',)
    for k, v in case.ex.items():
        setattr(ex, k, v)
    return ex


def refute(interp, case, fs, mode, view, timeout):
    """a function that could not be proved: obligations that already fail within the first iterations of its loops
    (these need no invariant: the states are reached from the contract's precondition by the code itself)"""
    for n in (1, 2):
        ex = explorer(case, mode, view, timeout, 30 * n)
        ex.unroll = n
        try:
            spec.check_case(interp, ex, case, fs, mode)
        except (Budget, Unsupported, RecursionError):
            pass
        if ex.stats.failed:
            return [dict(f, obligation=f['obligation'] + ' (already within the first %d iteration%s of its loops)' % (n, 's' * (n > 1)))
                    for f in ex.stats.failed]
    return []


def run_task(task):
    cfg, name, mode, timeout, budget, view = task
    case = contracts.CASES[name]
    res = dict(cfg=cfg, case=name, mode=mode, key=case.key, failed=[], undecided=[], discharged=0, by={}, solver_s=0.0, queries=0,
               paths=0, seen={}, called=[], inlined=[], builtins=[], loops=[], names={}, phases={}, error=None)
    t = time.time()
    try:
        interp = interp_for(cfg)
        fs = spec.find_fn(interp, case)
        if not fs and case.opts.get('optional'):
            res['absent'] = True
            return res
        if len(fs) != 1 and not (fs and case.multi):
            res['error'] = 'lost anchor: %d functions named %s' % (len(fs), case.key)
            return res
        ex, res['seen'], res['error'] = spec.checked(interp, case, fs, mode, lambda: explorer(case, mode, view, timeout, budget))
        st = ex.stats
        if st.failed and spec.loopy(ex, None):
            # what fails behind a loop whose invariant was not established may be due to the invariant
            st.unsupported += ['%s (behind a loop without an established invariant)' % f['obligation'] for f in st.failed]
            st.failed = []
        if (st.undecided or st.unsupported or res['error']) and not st.failed:
            st.failed = refute(interp, case, fs, mode, view, timeout)
        if view:
            # what this property is not about, but its proof rests on, leaves it undecided
            st.undecided += [dict(f, obligation=f['obligation'] + ' (part of the contract, not of this property)') for f in st.failed if not in_view(f, view)]
            st.failed = [f for f in st.failed if in_view(f, view)]
        res.update(failed=st.failed, undecided=st.undecided + [dict(obligation=u, where=name) for u in st.unsupported],
                   discharged=st.discharged, by=st.by, solver_s=st.solver_s, queries=st.queries, paths=st.paths,
                   called=sorted(interp.called_contracts), inlined=sorted(interp.inlined), builtins=sorted(interp.builtins_used),
                   loops=sorted(st.loops), names=st.obl_names, phases=st.phases)
        # vacuity: a function whose every path is infeasible proves nothing
        if not res['error'] and not res['failed'] and not res['undecided']:
            if st.discharged == 0 or not any(v for k, v in res['seen'].items() if k != 'failed'):
                res['error'] = 'vacuous: no path of the function was explored'
            if view == 'unwind' and name in prop_cases and mode != 'copy' and not st.phases.get('unwind'):
                res['error'] = 'vacuous: no unwinding out of user code was explored'
            missing = [k for k in case.opts.get('must_see', ()) if not res['seen'].get(k)]
            if missing:
                res['error'] = 'outcome never reached: %s' % missing
    except Exception as e:
        res['error'] = 'verifier error: ' + traceback.format_exc(limit=-2)
    res['wall'] = time.time() - t
    return res


def main():
    global REPO
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VC_REPO', '/repo'))
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    REPO = a.repo
    t0 = time.time()
    prop = PROPS[a.property]
    prop_cases.update(prop['cases'])
    timeout, budget = (10000, 200) if a.tier == 'quick' else (60000, 600)
    try:
        for n, feats, dbg in CONFIGS:
            MODS[n] = mir.load(REPO, feats, dbg)
    except mir.ParseError as e:
        MODS.clear()
        load_error = str(e)
    else:
        load_error = None
    results, done = [], set()
    errors = []
    if load_error:
        results.append(dict(cfg='all', case='(crate)', mode='-', failed=[], undecided=[], discharged=0, by={}, solver_s=0.0, queries=0,
                            paths=0, seen={}, called=[], inlined=[], builtins=[], loops=[], names={}, phases={}, error='MIR: ' + load_error[-600:], wall=0))
    else:
        # functions no contract mentions by name are found through the calls of those it does
        def tasks_of(names):
            out = []
            for n, feats, dbg in CONFIGS:
                for c in names:
                    case = contracts.CASES[c]
                    if not active(case, feats):
                        continue
                    for mode in modes_of(case, prop):
                        k = (n, c, mode)
                        if k not in done:
                            done.add(k)
                            out.append(k + (timeout, budget, prop.get('view')))
            return out

        def close(todo):
            with multiprocessing.get_context('fork').Pool(a.jobs) as pool:
                while todo:
                    rs = [r for r in pool.map(run_task, todo, chunksize=1 if len(todo) < 64 else 4) if not r.get('absent')]
                    results.extend(rs)
                    called = {k for r in rs for k in r['called']}
                    todo = tasks_of([c for c in contracts.CASES if contracts.CASES[c].key in called and contracts.CASES[c].key in contracts.USE])

        close(tasks_of(prop['cases']))
        def unmet(f):
            return next((c for c in PRIVATE if f['obligation'].startswith('precondition: %s ' % c)), None)
        while True:
            broken = {r['case'] for r in results if r['failed'] and r['case'] in PRIVATE} | {unmet(f) for r in results for f in r['failed'] if unmet(f)}
            if not broken:
                break
            # judged through their callers
            WITHOUT.update(contracts.CASES[c].key for c in broken)
            again = [r for r in results if r['case'] not in broken and (WITHOUT & set(r['called']) or any(unmet(f) for f in r['failed']))]
            for r in again:
                results.remove(r)
                done.discard((r['cfg'], r['case'], r['mode']))
            for r in results:
                if r['case'] in broken:
                    r['undecided'] += [dict(f, obligation=f['obligation'] + ' (of a private function; its callers were verified without this contract)')
                                       for f in r['failed']]
                    r['failed'] = []
            close(tasks_of(sorted({r['case'] for r in again})))
    for n in MODS:
        for k in sorted(set(overridden(a.property, MODS[n]))):
            results.append(dict(cfg=n, case=k, mode='-', failed=[], undecided=[], discharged=0, by={}, solver_s=0.0, queries=0, paths=0, seen={}, called=[],
                                inlined=[], builtins=[], loops=[], names={}, phases={}, error='a provided method overridden without a contract', wall=0))
    failed = [(r, f) for r in results for f in r['failed']]
    und = [(r, u) for r in results for u in r['undecided']] + [(r, dict(obligation=r['error'])) for r in results if r['error']]
    discharged = sum(r['discharged'] for r in results)
    obligations = discharged + len(failed) + len(und)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', 'replay', a.property + '.txt')
    bounded = None
    code = 0
    violations = 0
    if (failed or und or a.tier == "thorough") and not a.no_replay:
        bounded = harness.run(a.property, prop, REPO, a.tier)
    if failed or (bounded and bounded['fail']):
        lines = ['property %s: %s' % (a.property, prop['title']), '']
        seenf = set()
        for r, f in failed:
            k = (r['case'], f['obligation'])
            if k in seenf:
                continue
            seenf.add(k)
            lines += ['failed obligation: %s' % f['obligation'], '  of the contract of %s (elements: %s, configuration %s)' % (r['case'], r['mode'], r['cfg']),
                      '  at %s' % f['where'], '  condition that does not hold: %s' % f['formula'], '  counterexample of the verifier: %s' % json.dumps(f['model']),
                      '  path: %s' % ' ; '.join(f['trace']), '']
        for r, u in und[:10]:
            lines.append('undecided: %s %s %s: %s' % (r['case'], r['mode'], r['cfg'], str(u['obligation'])[:300]))
        if bounded:
            lines += ['', 'replay on the real code: ' + bounded['cmd'], bounded['output'][-4000:]]
        open(replay, 'w').write('\n'.join(lines) + '\n')
        violations = 1
        tail = '' if bounded and bounded['fail'] else ' no-failing-input-found'
        for r, f in failed[:4]:
            print('failed obligation: %s: %s (%s, %s)' % (r['case'], f['obligation'], r['mode'], r['cfg']))
        if bounded and bounded['fail']:
            print('failing input: ' + bounded['fail'][0])
        print('VIOLATION property=%s replay=%s%s' % (a.property, replay, tail))
        code = 1
    elif und:
        for r, u in und[:6]:
            print('undecided: %s (%s, %s): %s' % (r['case'], r['mode'], r['cfg'], str(u['obligation'])[:200]))
        print('property %s: %d obligations not discharged; the bounded stand-in found no failing input' % (a.property, len(und)))
        if bounded is not None and bounded.get('error'):
            print('the stand-in did not run: ' + bounded['error'][-500:])
            code = 2
    fns = {}
    for r in results:
        fns.setdefault(r['case'], {'configurations': set(), 'elements': set(), 'obligations': 0})
        fns[r['case']]['configurations'].add(r['cfg'])
        fns[r['case']]['elements'].add(r['mode'])
        fns[r['case']]['obligations'] += r['discharged']
    by = {}
    names, phases = {}, {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        for k, v in r['names'].items():
            names[k] = names.get(k, 0) + v
        for k, v in r['phases'].items():
            phases[k] = phases.get(k, 0) + v
    ev = dict(property=a.property, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='proof', wall_s=round(time.time() - t0, 2), violations=violations,
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd='python3-vt vc/check.py %s' % a.property,
                  trusted_base=TRUSTED,
                  backends=by, solver_s=round(sum(r['solver_s'] for r in results), 2), solver_queries=sum(r['queries'] for r in results),
                  paths=sum(r['paths'] for r in results),
                  functions_under_contract={k: dict(configurations=sorted(v['configurations']), elements=sorted(v['elements']),
                                                    obligations_discharged=v['obligations']) for k, v in sorted(fns.items())},
                  inlined_functions=sorted({i for r in results for i in r['inlined']}),
                  contracts_used_at_call_sites=sorted({i for r in results for i in r['called']}),
                  library_contracts_assumed=sorted({i for r in results for i in r['builtins']}),
                  loops_proved_by_invariant=sorted({str(i) for r in results for i in r['loops']}),
                  obligations_by_phase=phases,
                  obligation_kinds=dict(sorted(names.items(), key=lambda x: -x[1])[:60]),
                  undischarged=['%s %s %s: %s' % (r['case'], r['mode'], r['cfg'], str(u['obligation'])[:200]) for r, u in und][:40],
                  failed=['%s %s %s: %s' % (r['case'], r['mode'], r['cfg'], f['obligation']) for r, f in failed][:40],
                  bounded_stand_in=(None if bounded is None else dict(cmd=bounded['cmd'], cases=bounded.get('cases'), bound=bounded.get('bound'),
                                                                       failures=bounded['fail'][:5])),
                  source_sha256=sources_hash(REPO)),
              assumptions=ASSUMPTIONS + prop.get('assumptions', []))
    if a.repo == '/repo':
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d failed, %d undecided; %d functions under contract, %d runs; %.1fs' %
          (a.property, a.tier, obligations, discharged, len(failed), len(und), len(fns), len(results), time.time() - t0))
    sys.exit(code)


def sources_hash(root):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(root, 'src'))):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


if __name__ == '__main__':
    main()
