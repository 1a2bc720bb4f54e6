#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy of /repo with the bug applied (development aid)."""
import json, os, subprocess, sys, shutil, time
V = os.environ.get('VERIF_SRC', '/verif')
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
W = '/tmp/trybugs'
for i in ids:
    d = '/verif/seeded/' + i; prop = json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(W, ignore_errors=True); subprocess.run(['cp', '-a', '/repo', W], check=True)
    subprocess.run(['git', '-C', W, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    r = subprocess.run(['python3', 'check.py', prop], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-24s %-4s rc=%d %5.0fs %s' % (i, prop, r.returncode, time.time() - t, v[0] if v else r.stdout[-200:]), flush=True)
shutil.rmtree(W, ignore_errors=True)
