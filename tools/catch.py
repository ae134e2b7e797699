#!/usr/bin/env python3
"""Run each planted bug's own check on a changed copy; development aid, no check uses it.

    catch.py [ID ...] [--jobs N] [--tier T] [--verif DIR] [--log FILE]
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(bid, args):
    d = os.path.join(VERIF, 'seeded', bid)
    pid = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='catch_')
    t = time.time()
    try:
        run(['bash', '-c', 'cp -a /repo/. %s/' % w])
        r = run(['git', '-C', w, 'apply', d + '/patch.diff'])
        if r.returncode:
            return bid, pid, 'NOAPPLY ' + r.stdout[:200], 0
        env = dict(os.environ, SX_REPO=w)
        try:
            r = run(['python3-vt', 'check.py', pid, '--tier', args.tier], cwd=args.verif, env=env, timeout=1500)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION property=' + pid)]
            st = 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode
            open('/tmp/seed_%s.log' % bid, 'w').write(r.stdout)
        except subprocess.TimeoutExpired:
            st = 'MISSED timeout'
        return bid, pid, st, time.time() - t
    finally:
        shutil.rmtree(w, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--tier', default='quick')
ap.add_argument('--jobs', type=int, default=1)
ap.add_argument('--verif', default=VERIF)
ap.add_argument('--log', default='/tmp/catch.json')
args = ap.parse_args()
ids = args.ids or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
log = json.load(open(args.log)) if os.path.exists(args.log) else {}
with ThreadPoolExecutor(args.jobs) as ex:
    for f in as_completed([ex.submit(one, b, args) for b in ids]):
        bid, pid, st, t = f.result()
        print('%-14s %s %-14s %.0fs' % (bid, pid, st, t), flush=True)
        log[bid] = [pid, st, round(t)]
        json.dump(log, open(args.log, 'w'), indent=1)
