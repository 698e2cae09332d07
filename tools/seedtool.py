#!/usr/bin/env python3
"""Plant, confirm and replay bugs in a scratch copy of /repo (never in /repo itself).
  seedtool.py make ID FILE <<< 'old\n====\nnew'   write patch.diff from a textual replacement
  seedtool.py confirm ID...   patch applies, builds, stable tests pass, demo 0 clean / !=0 patched
  seedtool.py catch ID [PROP...]  run the registered checks against /repo with the patch applied, then undo
"""
import os, subprocess, sys, json, shutil
SEED = '/verif/seeded'
WT = '/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def fresh():
    if not os.path.isdir(WT):
        sh(f'cp -a /repo {WT}')
    sh(f'git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD')
def env():
    e = dict(os.environ); e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    e['CARGO_TARGET_DIR'] = WT + '/target'; return e
def make(i, f):
    txt = sys.stdin.read()
    d = f'{SEED}/{i}'; os.makedirs(d, exist_ok=True)
    fresh()
    for part in txt.split('\n@@@@\n'):
        old, new = part.split('\n====\n'); new = new.rstrip('\n') if part is txt.split('\n@@@@\n')[-1] else new
        old = old.strip('\n'); new = new.strip('\n')
        p = f'{WT}/{f}'; s = open(p).read()
        assert s.count(old) == 1, (i, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {WT} diff').stdout)
    fresh()
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
def confirm(i):
    d = f'{SEED}/{i}'; fresh()
    def demo(): return subprocess.run(['bash', f'{d}/demo.sh'], cwd=WT, env={**os.environ, 'CV_T': '/tmp/seed_demo_target'}, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r0 = demo()
    if r0.returncode: print(i, 'DEMO FAILS ON CLEAN', r0.stdout[-1500:]); return False
    a = sh(f'git -C {WT} apply {d}/patch.diff')
    if a.returncode: print(i, 'NO APPLY', a.stdout); return False
    t = subprocess.run('cargo test --workspace --features serde,log --no-fail-fast --offline -- --test-threads 8', shell=True, cwd=WT, env=env(), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import re
    fails = re.findall(r'^test (\S.*) \.\.\. FAILED', t.stdout, re.M)
    oks = len(re.findall(r'\.\.\. ok$', t.stdout, re.M))
    r1 = demo()
    fresh()
    ok = r1.returncode != 0 and not fails and oks >= 64
    print(i, 'OK' if ok else 'BAD', 'tests ok', oks, 'failed', fails, 'demo patched rc', r1.returncode, r1.stdout.strip()[-300:])
    if oks < 60: print(t.stdout[-2000:])
    return ok
def catch(i, props):
    d = f'{SEED}/{i}'
    props = props or [json.load(open(f'{d}/meta.json'))['property']]
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    a = sh(f'git -C /repo apply {d}/patch.diff'); assert a.returncode == 0, a.stdout
    try:
        for p in props:
            r = subprocess.run(['./check', p], cwd='/verif', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, p, 'CAUGHT' if r.returncode == 1 else f'missed rc={r.returncode}', v[:1], r.stdout.strip().splitlines()[-1][:160] if r.returncode != 1 else '', flush=True)
    finally:
        sh('git -C /repo checkout -- .')
if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'make': make(sys.argv[2], sys.argv[3])
    elif c == 'confirm': [confirm(i) for i in sys.argv[2:]]
    elif c == 'catch': catch(sys.argv[2], sys.argv[3:])
    elif c == 'catchall':
        for i in sorted(os.listdir(SEED)): catch(i, [])
