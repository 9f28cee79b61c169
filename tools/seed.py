#!/usr/bin/env python3
"""Planted changes: build seeded/<id> from a specification, and confirm them.

  seed.py make SPEC.py          write seeded/<id>/{patch.diff,demo.sh,meta.json,...} for each entry of SEEDS
  seed.py confirm [--nocheck] ID...   apply in /repo, build, run the stable tests, the demo and the check, undo
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = 'ccdda9f'


def git(*a, **k):
    return subprocess.run(['git', '-C', REPO, *a], check=True, stdout=subprocess.PIPE, **k).stdout.decode()


def clean():
    git('checkout', '--', '.')


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        assert not git('status', '--porcelain').strip()
        try:
            for fn, old, new in s['edits']:
                t = open(f'{REPO}/{fn}').read()
                assert t.count(old) == 1, (s['id'], fn, t.count(old), old)
                open(f'{REPO}/{fn}', 'w').write(t.replace(old, new))
            diff = git('diff')
            cur = None
            for line in diff.splitlines():
                if line.startswith('--- a/'):
                    cur = git('show', BASE + ':' + line[6:]).splitlines()
                elif line.startswith('-') and line[1:] not in cur:
                    print('NOTE', s['id'], 'removes a line that is not original:', line)
        finally:
            clean()
        d = f'{HERE}/seeded/{s["id"]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        if 'cpp' in s:
            open(d + '/demo.cpp', 'w').write(s['cpp'])
            sh = ('#!/bin/bash\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
                  f'g++ -std=c++20 {s.get("flags", "-O1")} -fopenmp -I. "$d/demo.cpp" -o "$t/demo" -lz\ncd "$t"\n{s.get("env", "")} ./demo\n')
        elif 'py' in s:
            open(d + '/demo.py', 'w').write('from sp import *\n' + s['py'])
            shutil.copy(HERE + '/tools/sp.py', d + '/sp.py')
            sh = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n'
        else:
            sh = s['sh']
        open(d + '/demo.sh', 'w').write(sh)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('made', s['id'])


def demo(i):
    p = subprocess.run(['bash', f'{HERE}/seeded/{i}/demo.sh'], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')[-300:]


def confirm(ids, check):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    rows = []
    for i in ids:
        m = json.load(open(f'{HERE}/seeded/{i}/meta.json'))
        row = {'id': i, 'property': m['property']}
        assert not git('status', '--porcelain').strip()
        try:
            git('apply', f'{HERE}/seeded/{i}/patch.diff')
            p = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed-out.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = json.load(open('/tmp/seed-out.json'))
            row['broken_tests'] = sorted(stable - set(o['passed']))
            if len(row['broken_tests']) > 5:
                row['broken_tests'] = row['broken_tests'][:5] + [p.stdout.decode(errors='replace')[-300:]]
            row['demo_patched'], row['demo_out'] = demo(i)
            if check:
                t = time.time()
                p = subprocess.run(['python3', f'{HERE}/check.py', m['property']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = p.stdout.decode(errors='replace')
                row['check'] = p.returncode
                row['caught'] = p.returncode == 1 and f'VIOLATION property={m["property"]}' in out
                row['check_s'] = round(time.time() - t)
                row['check_out'] = out[-1500:] if not row['caught'] else [l for l in out.splitlines() if l.startswith('scenario ')][:2]
        finally:
            clean()
        rows.append(row)
        print(json.dumps(row, indent=1), flush=True)
    subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL)
    for r in rows:
        r['demo_clean'], out = demo(r['id'])
        ok = not r['broken_tests'] and r['demo_patched'] not in (0,) and r['demo_clean'] == 0
        print(r['id'], r['property'], 'COUNTS' if ok else 'DOES NOT COUNT', 'caught' if r.get('caught') else 'MISSED', f"demo clean {r['demo_clean']} patched {r['demo_patched']} tests {r['broken_tests']}", out if r['demo_clean'] else '')


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        a = sys.argv[2:]
        confirm([x for x in a if x != '--nocheck'], '--nocheck' not in a)
