#!/usr/bin/env python3
"""plant.py <id> [prop...]: confirm a planted bug in a scratch copy of /repo (builds, stable tests pass, demo fails
with it and passes without), then run the checks against it. Checks run on the copy through PODO_REPO."""
import json, os, shutil, subprocess, sys, tempfile
bug = sys.argv[1]
d = '/verif/seeded/' + bug
meta = json.load(open(d + '/meta.json'))
props = sys.argv[2:] or [meta['property']]
env = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, env=env, **k)
st = sh('git -C /repo status --porcelain').stdout
assert not st.strip(), st
skip = '--fast' in props
props = [p for p in props if p != '--fast'] or [meta['property']]
try:
    if not skip:
        sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        print('demo unpatched', r.returncode, r.stdout[-200:] if r.returncode else '')
    a = sh('git -C /repo apply %s/patch.diff' % d)
    print('apply', a.returncode, a.stderr)
    assert a.returncode == 0
    if not skip:
        b = sh('bash /opt/vp/build.sh')
        print('build', b.returncode, b.stderr[-500:] if b.returncode else '')
        sh('bash /opt/vp/test.sh /tmp/t.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open('/tmp/t.json'))
        print('tests', json.dumps(res)[:160])
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        print('demo patched', r.returncode, (r.stdout + r.stderr)[-300:])
    for p in props:
        e = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
        c = subprocess.run(['python3', 'check.py', p, 'quick'], cwd='/verif', env=e, capture_output=True, text=True)
        print('check', p, 'exit', c.returncode)
        print('\n'.join(x[:300] for x in c.stdout.splitlines() if not x.startswith('KNOWN'))[:1500], c.stderr[-800:])
finally:
    print(sh('git -C /repo checkout -- .').stderr)
