#!/usr/bin/env python3
"""Applies sets of edits which keep the behaviour to a scratch copy of /repo below /tmp/refactor and
runs the existing tests and every quick check there, all of which must stay quiet.
usage: run.py SET [PROP...]   (MC_THREADS is passed on)"""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__))
from refactors import SETS
S = '/tmp/refactor'
name = sys.argv[1]
W = f'{S}/{name}'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=f'{W}/target', MC_VERIF=W)
def sh(c, t=900, cwd='/'):
    p = subprocess.run(['bash', '-c', c], env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, cwd=cwd)
    return p.returncode, p.stdout
os.makedirs(W, exist_ok=True)
print(sh(f'mkdir -p {W}/repo {W}/evidence && rsync -a --delete --exclude target --exclude .git /repo/ {W}/repo/ && rsync -a --exclude target /verif/mc/ {W}/mc/ && sed -i "s#\\"/repo\\"#\\"{W}/repo\\"#" {W}/mc/Cargo.toml') if os.path.exists('/usr/bin/rsync') else
      sh(f'rm -rf {W}/repo {W}/mc && mkdir -p {W}/evidence && cp -a /repo {W}/repo && rm -rf {W}/repo/target {W}/repo/.git && cp -a /verif/mc {W}/mc && rm -rf {W}/mc/target && sed -i "s#\\"/repo\\"#\\"{W}/repo\\"#" {W}/mc/Cargo.toml'))
for f, old, new in SETS[name]:
    p = f'{W}/repo/{f}'
    s = open(p).read()
    assert s.count(old) >= 1, (f, old)
    s = s.replace(old, new, 1)
    open(p, 'w').write(s)
rc, o = sh('cargo test --offline --lib 2>&1 | tail -40', cwd=f'{W}/repo')
print(o[-3000:])
if 'test result: ok' not in o: sys.exit(1)
rc, o = sh('cargo build --release --offline 2>&1 | tail -30', cwd=f'{W}/mc')
if rc or 'Finished' not in o: print(o); sys.exit(1)
for p in sys.argv[2:] or ['C%02d' % i for i in range(1, 29)]:
    t = time.time()
    rc, o = sh(f'{W}/target/release/mc check {p} quick')
    print(p, 'quiet' if rc == 0 else f'NOT QUIET rc={rc}\n{o[-1500:]}', round(time.time() - t), flush=True)
