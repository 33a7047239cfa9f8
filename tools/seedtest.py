#!/usr/bin/env python3
"""Tries planted bugs: does each build, pass the stable tests, fail its demo and get caught?

Usage: seedtest.py [id...]; changes /repo's working tree and restores it. A development tool: no
registered check runs it."""
import json, os, subprocess, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'
R = '/repo'

def sh(cmd, cwd=R, t=1000, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env)

def demo(i):
    with tempfile.TemporaryDirectory() as t:
        shutil.copytree(f'{S}/{i}', t + '/d', ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        r = sh(f'sh {t}/d/demo.sh', t=310)
    return r.returncode, (r.stdout + r.stderr)[-300:].strip()

def tests():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: return 'no build ' + (r.stdout + r.stderr)[-600:]
    r = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    want = json.load(open('/opt/vp/BASELINE.json'))
    want = want.get('stable') or want.get('stable_tests') or want.get('passed')
    got = json.load(open('/tmp/seedtest.json')).get('passed')
    bad = [x for x in want if x not in got]
    return 'fails ' + ','.join(map(str, bad)) if bad else 'ok'

def main():
    args = sys.argv[1:]
    nocheck = '-n' in args
    ids = [a for a in args if a[0] != '-'] or sorted(os.listdir(S))
    assert not sh('git status --porcelain').stdout
    for i in ids:
        meta = json.load(open(f'{S}/{i}/meta.json'))
        row = [i, meta['property']]
        clean = demo(i)
        row.append('clean demo %d %s' % clean if clean[0] else 'clean 0')
        try:
            r = sh(f'git apply {S}/{i}/patch.diff')
            if r.returncode:
                print(*row, 'DOES NOT APPLY', r.stderr[:300]); continue
            row.append(tests())
            bad = demo(i)
            row.append('demo %d (%s)' % bad)
            if not nocheck and row[3] == 'ok' and bad[0]:
                for prop in [meta['property']]:
                    t = time.time()
                    r = sh(f'VERIF_SEED=1 python3 check.py {prop} quick', cwd=V)
                    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                    row.append(f'{prop}: exit {r.returncode} in {time.time()-t:.0f}s {"CAUGHT" if r.returncode == 1 and v else "MISSED"}')
        finally:
            sh('git checkout -- .')
        print(' | '.join(row), flush=True)
main()
