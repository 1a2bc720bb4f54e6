#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the table below, and confirms each one in a scratch copy of /repo:
the patch applies, builds, passes the stable tests, its demo exits 0 without and nonzero with it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
%(cxx)s -std=c++20 -O1 -w %(flags)s -Iinclude -Isrc "$here/demo.cpp" -o "$d/demo" -pthread || exit 3
timeout 120 "$d/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    want = sys.argv[1:]
    W = '/tmp/seedwork'
    for s in SEEDS:
        if want and s['id'] not in want: continue
        d = f"{V}/seeded/{s['id']}"
        if not want and os.path.exists(d + '/meta.json'): continue
        shutil.rmtree(W, ignore_errors=True)
        sh(f'git -C /repo worktree prune'); sh(f'cp -a /repo {W}')
        for f, old, new in s['edits']:
            p = f'{W}/{f}'; t = open(p).read()
            if t.count(old) < 1: print(s['id'], 'EDIT NOT FOUND', f, old); break
            n = s.get('nth', {}).get(f, None)
            if t.count(old) > 1 and n is None: print(s['id'], 'AMBIGUOUS', t.count(old)); break
            if n is None: t = t.replace(old, new)
            else:
                parts = t.split(old); t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
            open(p, 'w').write(t)
        else:
            os.makedirs(d, exist_ok=True)
            diff = sh(f'git -C {W} diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
            open(d + '/demo.sh', 'w').write(DEMO_SH % dict(cxx=s.get('cxx', 'g++'), flags=s.get('flags', '')))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                      open(d + '/meta.json', 'w'), indent=1)
            a = sh(f'bash {d}/demo.sh', cwd='/repo'); b = sh(f'bash {d}/demo.sh', cwd=W)
            bl = sh(f"cd {W} && sed 's#/repo#{W}#g' /opt/vp/build.sh > /tmp/sb.sh && rm -rf {W}/_build && sed -e 's#/repo#{W}#g' /opt/vp/cmake/CMakeLists.txt >/dev/null; true")
            t = tests(W)
            ok = a.returncode == 0 and b.returncode not in (0, 3) and t
            print(s['id'], 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', b.returncode, 'tests', t,
                  (a.stdout + a.stderr)[-300:] if a.returncode else '', (b.stdout + b.stderr)[-200:])
            if not ok: shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
def tests(W):
    # apply to /repo is avoided: build the test executables straight from the copy
    r = sh(f'bash {V}/tools/seedtests.sh {W}')
    if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
    return r.returncode == 0
main()
