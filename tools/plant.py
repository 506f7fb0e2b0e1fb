#!/usr/bin/env python3
"""plant.py SPEC.py...: make and validate planted bugs (seeded/<id>/) from small specs.
A spec file defines BUGS = [dict(id, property, lane, edits=[(file, old, new)], main=<rust>, needs, breaks)].
The patch is applied to /repo, built, tested (every stable test must pass), its demo must fail; then it is undone and the demo must pass."""
import sys, os, json, subprocess, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = r'''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'find "$d" -delete' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
generic-vec = { path = "$repo", default-features = false, features = [%(feats)s] }
[profile.dev]
debug = 1
[profile.release]
debug = 1
T
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_AUTO_INSTALL=0 CARGO_INCREMENTAL=0
cd "$d" || exit 3
%(env)s timeout 250 cargo %(tc)s build -q --offline%(rel)s --target-dir "$d/t" || exit 3
timeout 30 "$d/t/%(dir)s/demo" >/dev/null 2>"$d/err"
rc=$?
tail -5 "$d/err" >&2
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def undo():
    sh('git -C %s checkout -- .' % REPO)


def make(b):
    d = os.path.join(VERIF, 'seeded', b['id'])
    assert sh('git -C %s status --porcelain --untracked-files=no' % REPO).stdout.strip() == '', 'repo dirty'
    for f, old, new in b['edits']:
        p = os.path.join(REPO, f)
        t = open(p).read()
        if t.count(old) != 1:
            undo()
            return 'edit matches %d times in %s: %s' % (t.count(old), f, old[:60])
        open(p, 'w').write(t.replace(old, new))
    patch = sh('git -C %s diff' % REPO).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    lane = b.get('lane', 'stable-std').split('-')
    feats = {'std': '"std"', 'none': ''}[lane[1]]
    if lane[0] == 'nightly':
        feats = (feats + ', ' if feats else '') + '"nightly"'
    rel = len(lane) > 2
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % dict(feats=feats, tc='+stable' if lane[0] == 'stable' else '+1.79.0',
        env='' if lane[0] == 'stable' else 'RUSTC=/opt/vp/shim/rustc', rel=' --release' if rel else '', dir='release' if rel else 'debug'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'main.rs'), 'w').write(PRE + b['main'])
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            return 'does not build: ' + '\n'.join([l for l in r.stdout.splitlines() if l.startswith('error')][:5]) + r.stdout[-600:]
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        got = json.load(open('/tmp/plant.json'))
        passed = got.get('passed') or got.get('pass') or []
        bad = [t for t in base if t not in set(passed)]
        if bad:
            return 'tests fail: %d, e.g. %s' % (len(bad), bad[:3])
        r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode in (0, 3):
            return 'demo exits %d with the patch: %s' % (r.returncode, r.stdout[-1200:])
        msg = r.stdout.strip().splitlines()
    finally:
        undo()
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return 'demo fails without the patch: ' + r.stdout[-800:]
    return 'ok (%s)' % ' / '.join(msg[:2])[:150]


PRE = '''#![allow(unused, dead_code)]
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};
use generic_vec::*;
/// counts live values; panics on double drops
#[derive(Debug)]
struct D(i32, Rc<RefCell<Vec<i32>>>);
impl Drop for D {
    fn drop(&mut self) {
        let mut l = self.1.borrow_mut();
        let p = l.iter().position(|x| *x == self.0);
        match p { Some(p) => { l.swap_remove(p); } None => { eprintln!("dropped twice: {}", self.0); std::process::exit(9) } }
    }
}
impl Clone for D { fn clone(&self) -> D { d(self.0 + 1000, &self.1) } }
fn d(i: i32, l: &Rc<RefCell<Vec<i32>>>) -> D { l.borrow_mut().push(i); D(i, l.clone()) }
fn live() -> Rc<RefCell<Vec<i32>>> { Rc::new(RefCell::new(Vec::new())) }
fn quiet() { std::panic::set_hook(Box::new(|i| { if !format!("{}", i).contains("quiet") { eprintln!("{}", i) } })) }
'''

if __name__ == '__main__':
    for spec in sys.argv[1:]:
        for b in runpy.run_path(spec)['BUGS']:
            r = make(b)
            print(b['id'], '->', r, flush=True)
            if not r.startswith('ok'):
                sh('mkdir -p /tmp/rejected && cp -a %s /tmp/rejected/ && find %s -delete' % (os.path.join(VERIF, 'seeded', b['id']), os.path.join(VERIF, 'seeded', b['id'])))
