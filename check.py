#!/usr/bin/env python3
"""Runs the check of one property: builds the code under test from the working tree of the repository,
explores, writes evidence/<id>.json, and reports violations.

  check.py ID [--tier quick|thorough] [--only SCENARIO] [--replay FILE] [--variant NAME] [--keep]
"""
import argparse, concurrent.futures, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SPOC_REPO', '/repo')
ALL_APPS = 'compress decompress diff filter info merge srs tile tool transform'.split()

VARIANTS = {
    # assertions and contracts on, memory errors detected
    'asan': '-O1 -g1 -ftrivial-auto-var-init=pattern -fsanitize=address -fno-omit-frame-pointer',
    # like the release build
    'rel': '-O2 -DNDEBUG',
}
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class BuildError(Exception):
    pass


def sh(cmd, env=None, timeout=600):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def compile_(cmd, env):
    rc, out = sh(cmd, env)
    if rc:
        raise BuildError(cmd + '\n' + out[-6000:])


def known_findings(prop):
    known = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            w = line.split(None, 3)
            # known: property=ID key=KEY what fails
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2].startswith('key='):
                known.append((w[2][4:], w[3].strip()))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append', default=[])
    ap.add_argument('--replay')
    ap.add_argument('--variant')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    chk = CHECKS[a.id]
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (2 << 30) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='spoc-mc-', dir=base)

    def cleanup(*_):
        shutil.rmtree(scratch, ignore_errors=True)
        if _:
            os._exit(2)
    signal.signal(signal.SIGTERM, cleanup)
    signal.signal(signal.SIGINT, cleanup)
    try:
        return run(a, chk, scratch, t0)
    finally:
        if a.keep:
            print('scratch kept:', scratch)
        else:
            cleanup()


def build(chk, variants, scratch, env):
    jobs = []
    for v in variants:
        d = os.path.join(scratch, v)
        os.makedirs(d + '/apps')
        flags = VARIANTS[v] if isinstance(VARIANTS.get(v), str) else ''
        common = f'-std=c++20 {flags} -fopenmp -I{REPO} -I{HERE}/harness {chk.get("flags", "")}'
        jobs.append(f'g++ {common} {HERE}/harness/{chk["harness"]}.cpp -o {d}/mc -lz -ldl')
        apps = chk.get('apps', [])
        for app in apps:
            w = f'{d}/apps/{app}.cpp'
            with open(w, 'w') as f:
                f.write('int main (int, char **) __attribute__ ((visibility ("default")));\n'
                        f'#include "{REPO}/apps/{app}/{app}.cpp"\n')
            jobs.append(f'g++ {common} -fPIC -shared -fvisibility=hidden {w} -o {d}/apps/{app}.so -lz')
        if apps:
            jobs.append(f'g++ {common} {HERE}/harness/launch.cpp -o {d}/apps/launch -ldl')
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(compile_, j, env) for j in jobs]:
            f.result()


def run(a, chk, scratch, t0):
    prop = a.id
    tier = a.tier
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS='1', MC_REPO=REPO, TMPDIR=scratch, LC_ALL='C', MALLOC_MMAP_THRESHOLD_='268435456', MALLOC_TRIM_THRESHOLD_='1073741824', MALLOC_TOP_PAD_='16777216',
               ASAN_OPTIONS='detect_leaks=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=0:clear_shadow_mmap_threshold=4000000:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:allocator_release_to_os_interval_ms=-1',
               VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    outdir = os.path.join(HERE, 'out', prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    variants = chk.get('variants', ['asan', 'rel'])
    if a.variant:
        variants = [a.variant]
    try:
        if 'build' in chk:
            chk['build'](chk, variants, scratch, env, REPO, HERE, compile_)
        else:
            build(chk, variants, scratch, env)
    except BuildError as e:
        print('BUILD FAILED (no verdict)\n' + str(e))
        return 2
    tb = time.time() - t0
    if a.replay:
        v = next((x for x in variants if os.path.basename(a.replay).startswith(x + '-')), variants[0])
        env['MC_APPS'] = f'{scratch}/{v}/apps'
        env['MC_APP_EXEC'] = '1'
        os.makedirs(f'{scratch}/{v}/tmp')
        try:
            rc = subprocess.run([f'{scratch}/{v}/mc', '--tmp', f'{scratch}/{v}/tmp', '--tier', tier, '--replay', os.path.abspath(a.replay)], env=env, timeout=60).returncode
        except subprocess.TimeoutExpired:
            print('does not terminate')
            rc = 1
        return 1 if rc else 0
    known = known_findings(prop)
    results = {}
    total_budget = chk.get('budget', 420) if tier == 'quick' else chk.get('budget_thorough', 3600)
    tv = time.time()
    samples = []
    for n, v in enumerate(variants):
        d = f'{scratch}/{v}'
        os.makedirs(d + '/tmp')
        venv = dict(env, MC_APPS=d + '/apps', MC_VARIANT=v)
        budget = max(20, (total_budget - (time.time() - tv)) / (len(variants) - n))
        cmd = [d + '/mc', '--tier', tier, '--workers', str(min(16, os.cpu_count() or 8)), '--budget', str(budget), '--tmp', d + '/tmp', '--out', d + '/result.json', '--replay-dir', outdir]
        for k, _ in known:
            cmd += ['--known', k]
        for o in a.only:
            cmd += ['--only', o]
        p = subprocess.run(cmd, env=venv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        log = p.stdout.decode(errors='replace')
        if log.strip():
            print(log.strip()[-4000:])
        if not os.path.exists(d + '/result.json'):
            print(f'the explorer ended without a result (status {p.returncode})')
            return 2
        try:
            r = json.load(open(d + '/result.json'))
        except ValueError:
            print('unreadable result of the explorer')
            return 2
        results[v] = r
        if os.path.exists(d + '/tmp/samples') and len(samples) < 8:
            for line in open(d + '/tmp/samples', errors='replace'):
                try:
                    samples.append(dict(json.loads(line), variant=v))
                except ValueError:
                    pass
        shutil.rmtree(d + '/tmp', ignore_errors=True)
        if r['violations']:
            break
    # --- evidence ---
    allsc = [s for r in results.values() for s in r['scenarios']]
    complete = all(s['complete'] for s in allsc) and not any(r['capped'] for r in results.values()) and not a.only
    nviol = sum(len(r['violations']) for r in results.values())
    byname = {}
    for s in samples:
        byname.setdefault(s['scenario'], []).append(s)
    picked = [v[-1] for v in byname.values()][:12]
    cov = {
        # distinct states per scenario, not counting the same state once per build variant
        'states': sum(max(s['states'] for s in allsc if s['name'] == n) for n in {s['name'] for s in allsc}),
        'transitions': sum(s['transitions'] for s in allsc),
        'traces_validated_against_impl': sum(s['validated'] for s in allsc),
        'executions': sum(s['executions'] for s in allsc),
        'samples': picked,
        'exhaustive': bool(complete and nviol == 0),
        'rule': chk['rule'],
        'scenarios': {v: r['scenarios'] for v, r in results.items()},
        'max_choice_depth': max(r['max_choice_depth'] for r in results.values()),
        'unconfirmed_reports': sum(r['unconfirmed'] for r in results.values()),
        'unconfirmed_note': '; '.join(r['unconfirmed_note'] for r in results.values() if r['unconfirmed_note']),
        'known_findings_hit': {k: sum(r['known'].get(k, 0) for r in results.values()) for k, _ in known},
        'build_s': round(tb, 1),
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': int(env['VERIF_SEED'] or 1), 'level': chk.get('level', 'model_checking'),
        'coverage': cov, 'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    fn = os.path.join(HERE, 'evidence', prop + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + '.tmp', fn)
    # --- report ---
    for v, r in results.items():
        for s in r['scenarios']:
            print(f"{v:5} {s['name']:28} executions {s['executions']:9} transitions {s['transitions']:9} states {s['states']:8} {'complete' if s['complete'] else 'INCOMPLETE'}"
                  + (f" deviations<={s['deviation_bound']}" if s['deviation_bound'] else ''))
        if r['unconfirmed']:
            print(f"{v}: {r['unconfirmed']} unconfirmed report(s), not counted: {r['unconfirmed_note']}")
    for k, what in known:
        print(f'KNOWN-FINDING: property={prop} {what}')
    print(f'{prop}: build {tb:.1f} s, total {time.time() - t0:.1f} s, exhaustive within bounds: {cov["exhaustive"]}')
    if nviol:
        for r in results.values():
            for x in r['violations']:
                print(f"scenario {x['scenario']}, {x['key']}: {x['msg']}")
                print(x['detail'][:3000])
                print(f"VIOLATION property={prop} replay={x['replay']}")
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
