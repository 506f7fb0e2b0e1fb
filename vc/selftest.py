"""developer entry: the verifier's models of library functions against the real ones.  Every st_* function of selftest.rs must be proved to
return true (and to neither lose nor double-drop a value), and must return true when run."""
import sys, os, re, subprocess, tempfile, itertools, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import mir
from core import *
import spec, contracts, run
from exec import Interp
from contracts import case, CASES

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = open(os.path.join(HERE, 'selftest.rs')).read()
FNS = re.findall(r'pub fn (st_\w+)(?:<T>)?\(([^)]*)\) -> bool', SRC)


def arg(w, nm, ty):
    if ty == 'usize':
        return w.int(nm)
    if ty == 'bool':
        return z3.Bool(nm)
    if ty == 'T':
        return w.elem(nm)
    if ty == 'Option<usize>':
        some = w.int(nm + '_v', 0, 1)
        return Agg(('adt', 'Option', (('adt', 'usize', ()),)), some, {0: w.int(nm)})
    if ty == 'Option<T>':
        return w.elem(nm)
    raise Unsupported(ty)


def register():
    for nm, args in FNS:
        ps = [tuple(x.strip() for x in a.split(':', 1)) for a in args.split(',') if a.strip()]
        opts = [i for i, (_, t) in enumerate(ps) if t == 'Option<T>']
        for bits in itertools.product((0, 1), repeat=len(opts)):
            pick = dict(zip(opts, bits))

            def setup(w, ps=ps, pick=pick):
                out = []
                for i, (n, t) in enumerate(ps):
                    if t == 'Option<T>':
                        e = w.elem(n) if pick[i] else None
                        out.append(Agg(('adt', 'Option', (('adt', 'T', ()),)), pick[i], {0: e} if e is not None else {}))
                    else:
                        out.append(arg(w, n, t))
                return out

            def sp(x, *a):
                for v in a:
                    x.drop_any(v)
                return True
            case(nm, setup, sp, modes=('sized', 'zst') if 'T' in args else ('sized',), opts=dict(weak_drop=True), name=nm + ''.join(map(str, bits)))


def loopy(s):
    return any('invariant' in u or 'loop' in u or 'poison' in u or 'untracked' in u for u in s.unsupported)


def drop_any(x, v):
    if isinstance(v, Agg):
        if v.ty[1] == 'Option' and v.variant == 1 and isinstance(v.f[0], EV):
            x.drop(v.f[0])
    elif isinstance(v, EV):
        x.drop(v)


spec.__dict__  # (the class that specifications receive)
for _c in list(spec.__dict__.values()):
    if isinstance(_c, type) and hasattr(_c, 'own') and hasattr(_c, 'consume'):
        _c.drop_any = drop_any


def native():
    d = tempfile.mkdtemp(prefix='st')
    try:
        vals = {'usize': '[0usize,1,2,3,4,5,6,7,8,9,10,11,20,21,isize::MAX as usize,isize::MAX as usize+1,usize::MAX-1,usize::MAX]', 'bool': '[false,true]',
                'Option<usize>': '[None,Some(0usize),Some(1),Some(3),Some(5),Some(usize::MAX)]', 'T': '[0,1]', 'Option<T>': '[0,1]'}
        body = ''
        for nm, args in FNS:
            ps = [tuple(x.strip() for x in a.split(':', 1)) for a in args.split(',') if a.strip()]
            s, call = '', []
            for i, (n, t) in enumerate(ps):
                s += 'for &p%d in %s.iter() { ' % (i, vals[t])
                call.append({'T': 'E::new()', 'Option<T>': 'if p%d == 1 { Some(E::new()) } else { None }' % i}.get(t, 'p%d' % i))
            body += s + 'assert!(vc_selftest::%s(%s), "%s"); ' % (nm, ', '.join(call), nm) + '}' * len(ps) + ' assert_eq!(live(), 0, "%s");\n' % nm
        open(d + '/m.rs', 'w').write('#![allow(warnings)]\n' + SRC + '''
use std::cell::Cell;
thread_local!(static L: Cell<isize> = Cell::new(0));
fn live() -> isize { L.with(|c| c.get()) }
struct E(u8);
impl E { fn new() -> E { L.with(|c| c.set(c.get() + 1)); E(1) } }
impl Drop for E { fn drop(&mut self) { L.with(|c| c.set(c.get() - 1)) } }
fn main() {
''' + body + '}\n')
        p = subprocess.run(['rustc', '--edition', '2018', '-Coverflow-checks=on', '-o', d + '/m', d + '/m.rs'], env=mir_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-3000:])
            return
        p = subprocess.run([d + '/m'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('native:', p.returncode, p.stdout[-500:])
    finally:
        shutil.rmtree(d)


def mir_env():
    return dict(os.environ)


if __name__ == '__main__':
    if '--native' in sys.argv:
        native()
        sys.exit()
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    CASES.clear()
    register()
    mir.EXTRA = SRC.replace('    pub fn st_', '    /// x\n    pub fn st_')
    feats, dbg = run.CONFIGS['nightly']
    interp = Interp(mir.load('/repo', feats, dbg))
    interp.contracts = contracts.USE
    good = 0
    for n, c in CASES.items():
        if only and not any(o in n for o in only):
            continue
        for mode in c.modes:
            try:
                ex, e = run.run_case(interp, c, mode)
            except Exception as err:
                import traceback
                print(n, mode, 'CRASH', traceback.format_exc(limit=-2)[-300:])
                continue
            if ex is None:
                print(n, mode, e)
                continue
            s = ex.stats
            if s.failed or s.undecided or s.unsupported or e:
                print('%-28s %-5s' % (n, mode), 'failed' if s.failed and not loopy(s) else 'undecided', ((not loopy(s) and s.failed) or s.undecided or s.unsupported or [e])[0].__str__()[:160])
            else:
                good += 1
    print(good, 'proved')
