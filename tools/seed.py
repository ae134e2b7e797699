#!/usr/bin/env python3
"""Plant bugs: make, validate and try the checks on seeded changes.

    seed.py DEFS.py [ID ...] [--no-check] [--tier T] [--jobs N]

DEFS.py holds BUGS, a list of dicts: id, property, file, old, new (or edits, a list of
(file, old, new)), needs, breaks, demo (python source run with cwd = the repository).
A bug is kept in /verif/seeded/<id>/ when its diff changes lines of the original repository,
its demonstration passes without it and fails with it, and the stable tests pass with it.
Then its property's check is run on the changed copy; the outcome goes to the log only.
Nothing in the checks reads any of this.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
LOG = '/tmp/seed_results.json'
DEMO_SH = '''#!/bin/bash
# exit 0 where the property holds; run with the repository as working directory
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
DEMO_HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(w):
    env = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONPYCACHEPREFIX='/nonexistent',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONPATH=w + ':/opt/vp/plugin')
    xml = w + '.xml'
    r = run([PY, '-m', 'pytest', w + '/test', '--rootdir=' + w, '-q', '-p', 'no:cacheprovider', '-p', 'soynlp_corpus',
             '-o', 'python_functions=*_test test_* main', '--deselect', 'test/basic_test.py::main', '--timeout=300',
             '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + xml], cwd=w + '/test', env=env)
    out = w + '.json'
    run(['python3', '/opt/vp/results.py', out, 'junit:' + xml], env=env)
    res = json.load(open(out))
    os.unlink(xml); os.unlink(out)
    return res, r.stdout


def base_names():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passing', 'passed', 'stable', 'tests', 'stable_pass'):
        if k in b:
            return set(b[k])
    raise SystemExit('baseline keys %s' % list(b))


def passed_of(res):
    if 'passed' in res and isinstance(res['passed'], list):
        return set(res['passed'])
    if 'tests' in res:
        t = res['tests']
        return {k for k, v in t.items() if v in ('passed', 'pass', True)}
    return {k for k, v in res.items() if v in ('passed', 'pass', True)}


def one(bug, args):
    bid = bug['id']
    w = tempfile.mkdtemp(prefix='seed_')
    shutil.rmtree(w)
    run(['cp', '-a', REPO, w])
    msgs = []
    try:
        edits = bug.get('edits') or [(bug['file'], bug['old'], bug['new'])]
        demo_dir = w + '_demo'
        os.makedirs(demo_dir, exist_ok=True)
        open(demo_dir + '/demo.py', 'w').write(DEMO_HEAD + bug['demo'].strip() + '\n')
        open(demo_dir + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(demo_dir + '/demo.sh', 0o755)
        r0 = run(['bash', demo_dir + '/demo.sh'], cwd=w, timeout=300)
        if r0.returncode != 0:
            return bid, 'BAD demo fails on unchanged tree: ' + r0.stdout[-600:]
        root = run(['git', '-C', w, 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                return bid, 'BAD %d matches of edit in %s: %r' % (s.count(old), f, old[:80])
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = run(['git', '-C', w, 'diff']).stdout
        # removed lines must come from the root commit
        orig = notorig = 0
        for f in {e[0] for e in edits}:
            bl = run(['git', '-C', w, 'blame', '-s', '-l', 'HEAD', '--', f]).stdout.split('\n')
            d = run(['git', '-C', w, 'diff', '-U0', '--', f]).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                n = int(m.group(2) if m.group(2) is not None else 1)
                for i in range(int(m.group(1)), int(m.group(1)) + n):
                    if bl[i - 1].lstrip('^')[:30] == root[:30]:
                        orig += 1
                    else:
                        notorig += 1
        if orig == 0 or notorig:
            return bid, 'BAD changes %d original, %d own lines' % (orig, notorig)
        r1 = run(['bash', demo_dir + '/demo.sh'], cwd=w, timeout=300)
        if r1.returncode == 0:
            return bid, 'BAD demo passes with the bug'
        last = (r1.stdout.strip().split('\n') or [''])[-1]
        res, out = tests(w)
        missing = base_names() - passed_of(res)
        if missing:
            return bid, 'BAD tests fail: %s' % sorted(missing)
        d = os.path.join(VERIF, 'seeded', bid)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(demo_dir + '/demo.py', d + '/demo.py')
        shutil.copy(demo_dir + '/demo.sh', d + '/demo.sh')
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(d + '/meta.json', 'w'), ensure_ascii=False, indent=1)
        if args.no_check:
            return bid, 'KEPT (unchecked) ' + last
        env = dict(os.environ, SX_REPO=w, VERIF_TIER=args.tier)
        try:
            r = run(['python3-vt', 'check.py', bug['property'], '--tier', args.tier], cwd=VERIF, env=env, timeout=1500)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            st = 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode
            if not v:
                open('/tmp/seed_%s.log' % bid, 'w').write(r.stdout)
        except subprocess.TimeoutExpired:
            st = 'MISSED timeout'
        return bid, 'KEPT %s | %s' % (st, last)
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + '_demo', ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('defs')
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-check', action='store_true')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--jobs', type=int, default=1)
    args = ap.parse_args()
    ns = {}
    exec(compile(open(args.defs).read(), args.defs, 'exec'), ns)
    bugs = [b for b in ns['BUGS'] if not args.ids or b['id'] in args.ids]
    with ThreadPoolExecutor(args.jobs) as ex:
        for bid, msg in ex.map(lambda b: one(b, args), bugs):
            print('%-12s %s' % (bid, msg), flush=True)
            try:
                log = json.load(open(LOG))
            except Exception:
                log = {}
            log[bid] = msg
            json.dump(log, open(LOG, 'w'), ensure_ascii=False, indent=1)


if __name__ == '__main__':
    main()
