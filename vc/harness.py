"""bounded stand-in and replay: the Rust driver in /verif/harness, run against the real crate (see DESIGN.md)."""
import os, subprocess, shutil, tempfile, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

LANES = [('stable-std', 'stable', 'std', False), ('nightly-std', 'nightly', 'std,nightly', False),
         ('stable-no_alloc', 'stable', '', False), ('stable-std-release', 'stable', 'std', True),
         ('nightly-std-release', 'nightly', 'std,nightly', True)]
BOUND = 'vectors of up to 5 elements, at most 3 spare slots, step sequences of up to 3 (thorough: 4), arrays of up to 3, every user event made to panic once'


def run(prop, info, repo, tier, lanes=None):
    src = os.path.join(VERIF, 'harness')
    target = os.environ.get('VC_TARGET') or os.path.join(VERIF, 'target')
    tmp = None
    if os.path.realpath(repo) != '/repo':
        tmp = tempfile.mkdtemp(prefix='vch.')
        src2 = os.path.join(tmp, 'harness')
        shutil.copytree(src, src2)
        t = open(os.path.join(src2, 'Cargo.toml')).read().replace('path = "/repo"', 'path = "%s"' % os.path.realpath(repo))
        open(os.path.join(src2, 'Cargo.toml'), 'w').write(t)
        src = src2
        target = os.path.join(tmp, 'target')
    try:
        return _run(prop, src, target, tier, lanes or LANES)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def _run(prop, src, target, tier, lanes):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='', RUSTUP_AUTO_INSTALL='0')
    ps = []
    for name, tc, feats, rel in lanes:
        td = os.path.join(target, 'h-' + name)
        e = dict(env)
        if tc == 'nightly':
            e['RUSTC'] = '/opt/vp/shim/rustc'
        cmd = ['cargo', '+stable' if tc == 'stable' else '+1.79.0', 'build', '-q', '--offline', '--target-dir', td]
        if feats:
            cmd += ['--features', feats]
        if rel:
            cmd.append('--release')
        run_ = [os.path.join(td, 'release' if rel else 'debug', 'harness'), prop, tier]
        sh = 'timeout -k 5 300 "$@"'
        ps.append((name, td, run_, subprocess.Popen(cmd, cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), rel))
    fail, out, cases, errors = [], [], 0, []
    runs = []
    for name, td, run_, p, rel in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            es = [l for l in o.splitlines() if l.startswith('error')]
            errors.append('%s: build failed: %s' % (name, ' | '.join(es)[:300]))
            continue
        limit = '200' if tier == 'quick' else '800'
        runs.append((name, subprocess.Popen(['timeout', '-k', '5', limit] + run_, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for name, p in runs:
        o, _ = p.communicate()
        o = o or ''
        n = [int(m.group(1)) for m in re.finditer(r'^CASES (\d+)', o, re.M)]
        cases += sum(n)
        fs = [l for l in o.splitlines() if l.startswith('FAIL ')]
        fail += ['[%s] %s' % (name, l[5:]) for l in fs]
        out.append('[%s] exit %s\n%s' % (name, p.returncode, o[-3000:]))
        if p.returncode < 0 or p.returncode in (132, 133, 134, 135, 136, 139):
            fail.append('[%s] %s the driver died with status %d: %s' % (name, prop, p.returncode, o.strip().splitlines()[-1][:200] if o.strip() else ''))
        elif p.returncode in (124, 137):
            errors.append('%s: time limit' % name)
        elif p.returncode not in (0, 1) or not n:
            errors.append('%s: exit %d' % (name, p.returncode))
    return dict(cmd='for each of %s: (cd harness && cargo build [--release] --features ...) && target/h-LANE/.../harness %s %s' % (', '.join(l[0] for l in lanes), prop, tier),
                output='\n'.join(out), fail=fail, cases=cases, bound=BOUND, error='; '.join(errors) or None)
