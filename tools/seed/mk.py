#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the definitions in seeds.py, and confirms each one.
usage: mk.py [ID...]   (all those which are not there yet without arguments)"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
SW = '/tmp/sw'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', HOME='/root')
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    if not os.path.isdir(SW):
        sh(f'cp -a /repo {SW}')
    else:
        sh(f'git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=SW)
    mine = set(sh('git log --format=%H 464af2a..HEAD', cwd=SW).stdout.split())
    want = sys.argv[1:] or [s for s in SEEDS if not os.path.exists(f'{OUT}/{s}/meta.json')]
    for sid in want:
        s = SEEDS[sid]
        sh('git checkout -q -- .', cwd=SW)
        bad = None
        for f, old, new in s['edits']:
            p = f'{SW}/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                bad = f'{f}: {t.count(old)} matches of {old!r}'
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(sid, 'BAD EDIT', bad); continue
        patch = sh('git diff', cwd=SW).stdout
        # a removed line must be original
        orig = False
        cur = None
        for line in sh('git diff -U0', cwd=SW).stdout.splitlines():
            if line.startswith('--- a/'): cur = line[6:]
            elif line.startswith('@@'):
                a = line.split()[1][1:]
                start, n = (a.split(',') + ['1'])[:2]
                start, n = int(start), int(n)
                if n:
                    b = sh(f'git blame --porcelain -L {start},+{n} HEAD -- {cur}', cwd=SW).stdout
                    for l in b.splitlines():
                        h = l.split(' ')[0].lstrip('^')
                        if len(h) == 40 and h not in mine: orig = True
        t = sh('CARGO_TARGET_DIR=/tmp/sw/target timeout 600 cargo test --offline 2>&1', cwd=SW)
        ok = 'test result: FAILED' not in t.stdout and t.returncode == 0
        d = f'{OUT}/{sid}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(patch)
        shutil.copy(f'{HERE}/demo.sh', f'{d}/demo.sh'); shutil.copy(f'{HERE}/u.rs', f'{d}/u.rs')
        open(f'{d}/demo.rs', 'w').write('mod u;\n#[allow(unused_imports)]\nuse u::*;\n' + s['demo'])
        withp = sh(f'bash {d}/demo.sh', cwd=SW)
        sh('git checkout -q -- .', cwd=SW)
        without = sh(f'bash {d}/demo.sh', cwd=SW)
        good = ok and orig and withp.returncode != 0 and without.returncode == 0 and 'error[' not in withp.stdout and 'could not compile' not in withp.stdout
        print(sid, 'OK' if good else 'BAD', f'tests={ok} original={orig} with={withp.returncode} without={without.returncode}', flush=True)
        if not ok: print(t.stdout[-1500:])
        if without.returncode or 'could not compile' in withp.stdout: print(without.stdout[-2500:], withp.stdout[-1500:])
        elif good: print('    ', [l for l in withp.stdout.splitlines() if 'panicked' in l or 'left' in l or 'right' in l][:3])
        if good:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
main()
