"""seedgen.py SPEC.py [ids] : turn a list of planted bugs into /verif/seeded/<id>/ after confirming them.

SPEC.py defines S = [dict(id, prop, edits=[(file under src, old, new)...], demo=rust main body, needs, breaks)].
A bug is kept only if its patch changes lines of the original repository, builds, passes the stable
tests, and its demo exits 0 without and nonzero with the patch.
"""
import json, os, subprocess, sys, shutil, importlib.util, tempfile
BASE = 'e5731ca'
DEMO_SH = '''#!/bin/sh
# builds demo.rs against the crate in the current directory; exit 0 when it behaves as promised
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rust_light = { path = "$repo" }
@DEPS@[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline -q --manifest-path "$d/Cargo.toml" 2> "$d/log" || { cat "$d/log" >&2; exit 98; }
cd "$d" && timeout 100 "$d/target/debug/demo"
'''
PRE = '''#![allow(unused)]
use rust_light::tensor::*;
use rust_light::nn::*;
use rust_light::optim::sgd::sgd_step;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn refused<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
fn els<V: TensorLike>(t: &V) -> Vec<V::Elem> { t.iter_indices().map(|i| *t.get(&i).unwrap()).collect() }
fn main() {
'''
def sh(cmd, cwd=None, t=600, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t, env=env)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def main():
    spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    sel = sys.argv[2:]
    for s in m.S:
        if sel and s['id'] not in sel: continue
        D = '/tmp/w/seed'
        shutil.rmtree(D, ignore_errors=True)
        sh(['cp', '-a', '/repo', D])
        ok = True
        for f, old, new in s['edits']:
            p = D + '/src/' + f; t = open(p).read()
            if t.count(old) < 1: print(s['id'], 'NOT APPLICABLE', old[:50]); ok = False; break
            open(p, 'w').write(t.replace(old, new, 1))
        if not ok: continue
        rc, patch = sh(['git', '-C', D, 'diff'])
        # original lines changed?
        orig = 0
        cur = None; ln = 0
        for l in patch.splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            elif l.startswith('@@'): ln = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-'):
                rc, b = sh(['git', '-C', D, 'blame', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur])
                if b.startswith('^' + BASE[:6]) or b.startswith(BASE[:6]): orig += 1
                ln += 1
            elif l.startswith('+') or l.startswith('\\'): pass
            elif cur and l.startswith(' '): ln += 1
        if not orig: print(s['id'], 'NO ORIGINAL LINE'); continue
        rc, out = sh('cargo test --workspace --offline --locked 2>&1 | tail -40', cwd=D, t=900)
        if 'FAILED' in out or 'error' in out or 'test result: ok' not in out:
            bad = [l for l in out.splitlines() if 'FAILED' in l or 'error' in l or l.strip().startswith('functional')][:4]
            print(s['id'], 'TESTS FAIL', bad); continue
        out_dir = '/verif/seeded/' + s['id']
        os.makedirs(out_dir, exist_ok=True)
        open(out_dir + '/patch.diff', 'w').write(patch)
        open(out_dir + '/demo.sh', 'w').write(DEMO_SH.replace('@DEPS@', s.get('deps', ''))); os.chmod(out_dir + '/demo.sh', 0o755)
        open(out_dir + '/demo.rs', 'w').write(PRE + s['demo'] + '\n}\n' + s.get('tail', ''))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out_dir + '/meta.json', 'w'), indent=1)
        r0, o0 = sh([out_dir + '/demo.sh'], cwd='/repo', t=290)
        r1, o1 = sh([out_dir + '/demo.sh'], cwd=D, t=290)
        good = r0 == 0 and r1 not in (0, 98, 99)
        print(s['id'], s['prop'], 'OK' if good else 'DEMO BAD', r0, r1, '' if good else (o0[-600:] + o1[-300:]))
        if not good: shutil.rmtree(out_dir)
        sys.stdout.flush()
    shutil.rmtree('/tmp/w/seed', ignore_errors=True)
main()
