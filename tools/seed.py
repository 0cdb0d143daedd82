#!/usr/bin/env python3
"""seed.py new SPEC.py : write seeded/<id>/ from a spec (id, prop, edits, demo, needs, breaks)
seed.py try ID...    : apply in /repo, build, stable tests, demo, the property's check; undo"""
import difflib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d)
trap 'find "$W" -delete' EXIT
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n\\n[dependencies]\\nswrs = { path = "%s" }\\n\\n[workspace]\\n' "$REPO" > "$W/Cargo.toml"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cd "$W"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}"
cargo build -q --offline
SCRATCH="$W/scratch"
mkdir -p "$SCRATCH"
cd "$SCRATCH"
"$CARGO_TARGET_DIR/debug/demo"
'''


def new(spec):
    g = {}
    exec(open(spec).read(), g)
    for s in g['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        byf = {}
        for f, a, b in s['edits']:
            t = byf.setdefault(f, [open('/repo/' + f).read()] * 2)
            if t[1].count(a) != 1:
                raise SystemExit('%s: %d matches in %s: %r' % (s['id'], t[1].count(a), f, a[:80]))
            byf[f] = [t[0], t[1].replace(a, b)]
        patch = ''
        for f, (o, n) in byf.items():
            def lines(x):
                return x.splitlines(keepends=True)
            patch += 'diff --git a/%s b/%s\n' % (f, f)
            for l in difflib.unified_diff(lines(o), lines(n), 'a/' + f, 'b/' + f):
                patch += l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.rs', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tryone(i, others=()):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    env = dict(os.environ, DEMO_TARGET='/tmp/seed/target')
    if sh('git -C /repo status --porcelain').stdout.strip():
        raise SystemExit('/repo is not clean')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo', env=env)
    out = {'id': i, 'prop': prop, 'demo0': r0.returncode}
    if r0.returncode:
        out['msg0'] = r0.stdout[-600:]
    a = sh('git -C /repo apply %s/patch.diff' % d)
    try:
        if a.returncode:
            out['apply'] = a.stdout
            return out
        b = sh('bash /opt/vp/build.sh', cwd='/repo')
        out['build'] = b.returncode
        if b.returncode:
            out['bmsg'] = b.stdout[-900:]
            return out
        sh('bash /opt/vp/test.sh /tmp/seed/t.json', cwd='/repo')
        t = json.load(open('/tmp/seed/t.json'))
        out['failed'] = t['failed']
        out['passed'] = len(t['passed'])
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo', env=env)
        out['demo1'] = r1.returncode
        out['msg1'] = r1.stdout[-200:]
        for p in (prop,) + tuple(others):
            c = sh('./check %s' % p, cwd=V)
            out['check ' + p] = c.returncode
            out['cmsg ' + p] = c.stdout[:600]
    finally:
        sh('git -C /repo checkout -- .')
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        for i in ids:
            o = tryone(i)
            good = o['demo0'] == 0 and o.get('build') == 0 and not o.get('failed') and o.get('demo1')
            print(i, o['prop'], 'VALID' if good else 'INVALID', 'check=%s' % o.get('check ' + o['prop']))
            if not good or o.get('check ' + o['prop']) != 1 or '-v' in os.environ.get('SEEDV', ''):
                print('   ', json.dumps({k: v for k, v in o.items()})[:1800])
