#!/usr/bin/env python3
"""plant.py SPEC.py...: writes /verif/seeded/<id>/ from specs.

A spec sets: id, property, needs, what_it_breaks, edits=[(file, old, new)...]
(each old occurring exactly once in /repo's HEAD, or (file, old, new, n) for the
n-th occurrence), and demo (Rust test text run beside program/tests/helpers) or
demo_sh (whole demo.sh)."""
import os, sys, json, subprocess, tempfile, shutil
RUST = '''#!/bin/bash
# Runs demo.rs as one more test of the program crate; /repo is left as it was.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
t=/repo/program/tests/zz_demo_%(u)s.rs
trap 'rm -f $t' EXIT
cp "$here/demo.rs" $t
cd /repo && RUST_LOG=off cargo test --offline --locked -p spl-token-wrap --test zz_demo_%(u)s
'''
CLI = '''#!/bin/bash
# Runs demo.rs as one more test of the CLI crate; /repo is left as it was.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
t=/repo/clients/cli/tests/zz_demo_%(u)s.rs
trap 'rm -f $t' EXIT
cp "$here/demo.rs" $t
cd /repo && RUST_LOG=off cargo test --offline --locked -p spl-token-wrap-cli --test zz_demo_%(u)s
'''
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', t + '/r'])
    for e in s['edits']:
        f, old, new = e[:3]
        p = t + '/r/' + f
        x = open(p).read()
        if len(e) == 3:
            assert x.count(old) == 1, (s['id'], f, old, x.count(old))
            x = x.replace(old, new)
        else:
            parts = x.split(old)
            assert len(parts) > e[3] + 1, (s['id'], f, old)
            x = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
        open(p, 'w').write(x)
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(t)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    u = s['id'].replace('-', '_')
    if 'demo_sh' in s:
        open(d + '/demo.sh', 'w').write(s['demo_sh'])
    else:
        open(d + '/demo.rs', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write((CLI if s.get('cli') else RUST) % {'u': u})
    for n, c in s.get('files', {}).items():
        open(d + '/' + n, 'w').write(c)
    os.chmod(d + '/demo.sh', 0o755)
    print(s['id'], len(diff.splitlines()), 'diff lines')
