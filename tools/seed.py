#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
   seed.py verify ID...   in a scratch copy (/tmp/s/repo, see setup below): applies, builds, passes the stable tests, demo passes/fails
   seed.py catch ID [PROP...]   runs the checks of the property (or the given ones) against the patched scratch copy
   seed.py setup          creates the scratch copy"""
import json, os, shutil, subprocess, sys
S = '/tmp/s'
R = S + '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def setup():
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S + '/vp')
    sh(f'cp -a /repo {R}; cp /opt/vp/* {S}/vp/; cd {S}/vp; sed -i "s#/opt/vp#{S}/vp#g; s#REPO=/repo#REPO={R}#" *.sh; '
       f'grep -rl /repo {R}/_build --include=CMakeCache.txt --include=*.cmake | xargs sed -i "s#/repo#{R}#g"')


def sync():
    sh(f'cd {R} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')


def demo(i):
    d = f'{S}/demo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f'{V}/seeded/{i}', d)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.remove(os.path.join(d, f))
    try:
        return sh(f'bash {d}/demo.sh', cwd=R, timeout=300)
    except subprocess.TimeoutExpired:
        return None


def verify(i):
    sync()
    ok = True
    r = demo(i)
    if r is None or r.returncode:
        print(i, 'demo fails on the unchanged tree:', r and r.stdout[-500:] + r.stderr[-1500:]); ok = False
    a = sh(f'git apply {V}/seeded/{i}/patch.diff', cwd=R)
    if a.returncode:
        print(i, 'patch does not apply', a.stderr); return False
    r = demo(i)
    if r is not None and r.returncode == 0:
        print(i, 'demo passes with the patch', r.stdout[-300:]); ok = False
    sh(f'bash {S}/vp/test.sh {S}/out.json > {S}/log 2>&1')
    o = json.load(open(S + '/out.json'))
    missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed'])
    if missing:
        print(i, len(missing), 'tests fail:', sorted(missing)[:5]); ok = False
    sync()
    print(i, 'OK' if ok else 'BAD', flush=True)
    return ok


def catch(i, props):
    sync()
    sh(f'git apply {V}/seeded/{i}/patch.diff', cwd=R)
    props = props or [json.load(open(f'{V}/seeded/{i}/meta.json'))['property']]
    for p in props:
        r = sh(f'python3 {V}/check.py {p} quick', env=dict(os.environ, SHARG_REPO=R, VERIF_SEED='1'))
        print(i, p, 'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else f'MISSED rc={r.returncode}',
              '|', r.stdout.split('\n')[1][:200] if r.returncode == 1 else r.stdout[-300:] + r.stderr[-300:], flush=True)
    sync()


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        setup()
    elif sys.argv[1] == 'verify':
        for i in sys.argv[2:]:
            verify(i)
    else:
        catch(sys.argv[2], sys.argv[3:])
