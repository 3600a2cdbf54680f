#!/usr/bin/env python3
"""plant.py add ID PROPERTY FILE   (reads old/new/demo/needs/breaks from a spec on stdin, separated by lines of ====)
   plant.py verify ID...           (build, tests, demo without and with the patch, then the property's check)
Scratch copies live under /tmp and are removed."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo.rs against the crate in the current directory; exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
probability = { path = "$repo" }
[workspace]
EOF
export CARGO_TARGET_DIR=$d/target
cargo build --offline -q --manifest-path "$d/Cargo.toml" || exit 2
timeout 60 "$d/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def add(id, prop, file):
    old, new, demo, needs, breaks = [x.strip('\n') for x in sys.stdin.read().split('\n====\n')]
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/plant-%s' % id
    shutil.rmtree(w, ignore_errors=True)
    sh('git -C /repo worktree prune; git clone -q /repo %s' % w)
    p = os.path.join(w, file)
    s = open(p).read()
    assert s.count(old) == 1, 'the old text occurs %d times' % s.count(old)
    open(p, 'w').write(s.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % w).stdout)
    shutil.rmtree(w)
    open(os.path.join(d, 'demo.rs'), 'w').write(demo + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def verify(id, check=True):
    d = os.path.join(ROOT, 'seeded', id)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = '/tmp/plant-%s' % id
    shutil.rmtree(w, ignore_errors=True)
    sh('git clone -q /repo %s && cp /repo/Cargo.lock %s/' % (w, w))
    out = []
    try:
        demo = lambda: sh('bash %s/demo.sh' % d, cwd=w)
        r0 = demo()
        out.append('demo clean %d' % r0.returncode)
        a = sh('git -C %s apply %s/patch.diff' % (w, d))
        assert a.returncode == 0, a.stderr
        env = dict(os.environ, CARGO_TARGET_DIR=w + '/target')
        t = sh('cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test result|FAILED|panicked|error"', cwd=w, env=env)
        out.append('tests ' + ('ok' if 'FAILED' not in t.stdout and 'error[' not in t.stdout and 'error:' not in t.stdout else t.stdout[:500]))
        r1 = demo()
        out.append('demo patched %d' % r1.returncode)
        if r1.returncode in (0, 2) or r0.returncode:
            out.append((r0.stderr + r1.stderr)[-600:])
        if check and os.path.exists(os.path.join(ROOT, 'vp', 'props', prop.lower() + '.py')):
            env = dict(os.environ, VP_REPO=w, VP_BUILD=w + '/vpbuild', VERIF_SEED='1', VP_EVIDENCE=w)
            c = sh('timeout 900 python3-vt -m vp.run %s quick' % prop, cwd=ROOT, env=env)
            v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append('check %d, %d violations; %s' % (c.returncode, len(v), (c.stdout.strip().split('\n') or [''])[-1][:200]))
            if v:
                out.append(c.stdout.split('VIOLATION')[0].strip().split('\n')[-1][:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(id, prop, '|', '\n     '.join(out), flush=True)


if sys.argv[1] == 'add':
    add(*sys.argv[2:5])
else:
    for i in sys.argv[2:]:
        verify(i)
