#!/usr/bin/env python3
"""Planted bugs: confirm one (applies, builds, passes the stable tests, its
demonstration fails with it and passes without) and run checks against it.

  seed.py verify ID...          seed.py check ID PROP... 

Each works on a copy of /repo under /tmp; verify shows that copy as /repo in a
mount namespace of its own, since the build and the tests name /repo.  No check
uses this file.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def sh(cmd, cwd=None, env=None, timeout=1800):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')


def copy(patch=None):
    d = tempfile.mkdtemp(prefix='seed-')
    rc, o = sh(f'cp -a /repo/. {d}/')
    if patch:
        rc, o = sh(f'git apply {patch}', cwd=d)
        if rc:
            shutil.rmtree(d)
            raise SystemExit(f'patch does not apply: {o}')
    return d


def verify(i):
    src = os.path.join(S, i)
    d = copy(os.path.join(src, 'patch.diff'))
    e = tempfile.mkdtemp(prefix='seedd-')
    try:
        for f in os.listdir(src):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(src, f), e)
        res = {}
        rc, o = sh(f"unshare -m bash -c 'mount --bind {d} /repo && bash /opt/vp/test.sh {e}/out.json'")
        try:
            out = json.load(open(f'{e}/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            failed = [t for t in base['stable'] if t not in out['passed']]
            res['tests'] = 'ok' if not failed else f'FAIL {failed} {o[-600:]}'
        except Exception as x:
            res['tests'] = f'FAIL {x} {o[-600:]}'
        rc, o1 = sh(f"unshare -m bash -c 'mount --bind {d} /repo && cd /repo && timeout 300 bash {e}/demo.sh'")
        res['demo+'] = rc
        rc, o2 = sh(f'cd /repo && timeout 300 bash {e}/demo.sh')
        res['demo-'] = rc
        ok = res['tests'] == 'ok' and res['demo+'] != 0 and res['demo-'] == 0
        return i, ok, res, o1[-400:] if res['demo+'] == 0 or not ok else o1[-160:], o2[-300:] if rc else ''
    finally:
        shutil.rmtree(d)
        shutil.rmtree(e)


def check(i, props):
    d = copy(os.path.join(S, i, 'patch.diff'))
    try:
        got = []
        for p in props:
            rc, o = sh(f'python3 {V}/check.py {p}', env=dict(os.environ, FLBWT_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'))
            line = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            why = [l for l in o.splitlines() if 'refused' in l or 'rejected' in l or 'violat' in l.lower()][-2:]
            got.append((p, rc, line, why if rc else '', o[-1500:] if rc not in (0, 1) else ''))
        return i, got
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'verify':
        ids = a[1:] or sorted(os.listdir(S))
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(verify, ids):
                print('OK  ' if r[1] else 'BAD ', r[0], r[2], r[3].strip().replace('\n', ' | ')[:600] if not r[1] else r[3].strip().replace('\n', ' | ')[:160], r[4], flush=True)
    elif a[0] == 'check':
        for i in a[1].split(','):
            props = a[2:] or [json.load(open(os.path.join(S, i, 'meta.json')))['property']]
            for g in check(i, props)[1]:
                print(i, *g, flush=True)
