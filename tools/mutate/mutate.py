#!/usr/bin/env python3
"""Mutation analysis of the checks, in scratch copies below /tmp/mut.
usage: mutate.py list [FILTER]          the mutants
       mutate.py tests WORKERS [FILTER] only the existing tests; results in /tmp/mut/tests.jsonl, which run then uses
       mutate.py run WORKERS [FILTER]   tests, then quick checks, on every mutant; results in /tmp/mut/results.jsonl
A mutant which compiles and passes the existing tests is given to the quick checks, the ones
closest to the mutated file, until one of them reports a violation."""
import hashlib, json, os, re, subprocess, sys, threading, queue, time
REPO = '/repo'
MUT = '/tmp/mut'
FIRST = {
    'src/file/adder.rs': 'C03 C02 C01 C27 C24',
    'src/file/visit.rs': 'C04 C05 C06 C11 C10 C19 C07 C27 C25',
    'src/file/reader.rs': 'C06 C05 C04 C07 C12',
    'src/file.rs': 'C06 C05 C25 C07 C12',
    'src/walk.rs': 'C09 C10 C11 C12 C25 C07 C20 C27',
    'src/dir.rs': 'C17 C18 C25 C08 C19',
    'src/dir/sharded_lookup.rs': 'C18 C11 C19 C25 C08 C27',
    'src/dir/directory.rs': 'C17 C25 C09',
    'src/dir/builder.rs': 'C16 C15 C13',
    'src/dir/builder/iter.rs': 'C13 C14 C16 C26',
    'src/dir/builder/buffered.rs': 'C15 C13 C26 C14',
    'src/dir/builder/dir_builder.rs': 'C15 C13 C26',
    'src/dir/builder/custom_pb.rs': 'C13 C16 C26',
    'src/pb.rs': 'C21 C22 C25 C08',
    'src/pb/merkledag.rs': 'C21 C22 C23',
    'src/pb/unixfs.rs': 'C21 C22 C12',
    'src/dagpb.rs': 'C23 C08',
    'src/symlink.rs': 'C20 C24',
    'src/lib.rs': 'C25 C12 C26 C07',
}
SUBS = [
    (r'(?<![<>=!-])<=(?!=)', ['<']), (r'(?<![<>=!-])>=(?!=)', ['>']),
    (r' < ', [' <= ']), (r' > ', [' >= ']),
    (r'==', ['!=']), (r'!=(?!=)', ['==']),
    (r'&&', ['||']), (r'\|\|(?! \{|\))', ['&&']),
    (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']),
    (r' \+ (?!1\b)', [' - ']), (r' - (?!1\b)(?!>)', [' + ']),
    (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\.rev\(\)', ['']), (r'\.reverse\(\)', ['.len()']),
    (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'(?<=[ (])!(?=[a-z(])', ['']),
    (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'\.is_empty\(\)', ['.len() == 1', '.len() < 2']),
    (r'\bpush_back\b', ['push_front']), (r'\bpop_front\b', ['pop_back']), (r'\.front\(\)', ['.back()']),
    (r'\.take\(\)', ['.clone()']), (r'core::mem::take\(([^()]*)\)', [r'(\1).clone()']),
    (r'\bSome\(0\)', ['None']), (r'\bNone\b', ['Some(Default::default())']),
    (r'\bu64\b', ['u32']), (r'\bas u64\b', ['as u8 as u64', 'as u16 as u64']), (r'\bas u32\b', ['as u16 as u32']), (r'\bas i32\b', ['as i8 as i32']),
    (r'\.unwrap_or\(([^()]*)\)', ['.unwrap_or(1)']),
    (r'\.enumerate\(\)', ['.skip(1).enumerate()', '.enumerate().skip(1)']),
    (r'\.filter\(', ['.skip_while(']), (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']),
    (r'\.clear\(\);', ['.truncate(1);']),
    (r'\bDirectory\b', ['HAMTShard']), (r'\bHAMTShard\b', ['Directory']), (r'::File\b', ['::Raw']), (r'::Raw\b', ['::File']), (r'::Symlink\b', ['::File']),
    (r'starts_with', ['ends_with']), (r'ends_with', ['starts_with']), (r'\bfirst\(\)', ['last()']), (r'\blast\(\)', ['first()']),
    (r' if [^{}=]*=> ', [' => ']), (r'if (?!let)([^{}]+) \{$', ['if true {', 'if false {']),
    (r'\b\|', ['& ']), (r'\.\.=', ['..']), (r'\[\.\.(?=[a-z])', ['[1..']),
    (r'write_(u?int64|u?int32|enum|bytes|string|sfixed32|fixed32)\b', ['write_uint64']),
]
NUM = re.compile(r'(?<![\w.])(\d+)(?![\w.]*[a-zA-Z"])')

def code_lines(path):
    out = []
    in_block = False
    for i, l in enumerate(open(f'{REPO}/{path}').read().split('\n')):
        s = l.strip()
        if s.startswith('#[cfg(test)]') and not l.startswith(' '):
            break
        if in_block:
            if '*/' in s: in_block = False
            continue
        if s.startswith('/*'):
            in_block = '*/' not in s
            continue
        if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or not s or 'assert' in s:
            continue
        out.append((i, l))
    return out

def mutants(flt=''):
    for path in FIRST:
        if flt and flt not in path: continue
        for i, l in code_lines(path):
            code = l.split(' // ')[0]
            seen = set()
            def emit(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    return [(path, i, l, new, what)]
                return []
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        new = code[:m.start()] + m.expand(r) + code[m.end():]
                        yield from emit(new, f'{pat} -> {r}')
            for m in NUM.finditer(code):
                n = int(m.group(1))
                for k in {n + 1, max(n - 1, 0)}:
                    yield from emit(code[:m.start()] + str(k) + code[m.end():], f'{n} -> {k}')
            s = code.strip()
            if s.endswith(';') and not s.startswith('let ') and s not in (');', '};', '});') and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith('}') and not s.startswith('.') and not s.startswith('type ') and not s.startswith('pub ') and not s.startswith('mod '):
                yield from emit('', 'deleted')
            if s.startswith('.') and s.count('(') == s.count(')') and not s.endswith(';'):
                yield from emit('', 'call left out')

TESTS_ONLY = sys.argv[1] == 'tests'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', HOME='/root', RUSTC_WRAPPER='')
def sh(cmd, cwd, t, **env):
    p = subprocess.Popen(['bash', '-c', cmd], cwd=cwd, env=dict(ENV, **env), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, 'timeout'

def worker(k, q, res, lock):
    w = f'{MUT}/w{k}'
    if not os.path.isdir(w):
        os.makedirs(w)
        sh(f'cp -a {REPO} {w}/repo && rm -rf {w}/repo/target && cp -a /verif/mc {w}/mc && sed -i "s#/repo#{w}/repo#" {w}/mc/Cargo.toml', w, 100)
    else:
        sh(f'cp -a /verif/mc/src {w}/mc/', w, 100)
    env = dict(CARGO_TARGET_DIR=f'{w}/target', MC_VERIF=w, CARGO_BUILD_JOBS='3', MC_THREADS='3')
    os.makedirs(f'{w}/evidence', exist_ok=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        path, i, old, new, what = m
        f = f'{w}/repo/{path}'
        orig = open(f'{REPO}/{path}').read()
        lines = orig.split('\n')
        assert lines[i] == old
        lines[i] = new
        open(f, 'w').write('\n'.join(lines))
        t0 = time.time()
        rc, o = sh('cargo test --offline --lib -- --test-threads 4', f'{w}/repo', 90, CARGO_PROFILE_DEV_DEBUG='0', **env)
        caught = None
        if 'could not compile' in o: st = 'no compile'
        elif rc != 0: st = 'tests'
        elif TESTS_ONLY: st = 'passes tests'
        else:
            rc, o = sh('cargo build --release --offline', f'{w}/mc', 300, **env)
            if rc: st = 'harness does not build'
            else:
                first = FIRST[path].split()
                st = 'SURVIVED'
                for p in first:
                    rc, o = sh(f'{w}/target/release/mc check {p} quick', w, 600, **env)
                    if rc == 1 and 'VIOLATION' in o:
                        st, caught = 'caught', p
                        break
                    if rc != 0:
                        st, caught = f'check fails rc={rc}', p
                        break
        open(f, 'w').write(orig)
        with lock:
            res.write(json.dumps(dict(file=path, line=i + 1, old=old.strip(), new=new.strip(), what=what, status=st, by=caught, s=round(time.time() - t0))) + '\n')
            res.flush()

def main():
    flt = sys.argv[3] if sys.argv[1] != 'list' and len(sys.argv) > 3 else sys.argv[2] if sys.argv[1] == 'list' and len(sys.argv) > 2 else ''
    ms = list(mutants(flt))
    if sys.argv[1] == 'list':
        for m in ms: print(f'{m[0]}:{m[1]+1}: {m[2].strip()}  =>  {m[3].strip()}')
        print(len(ms))
        return
    os.makedirs(MUT, exist_ok=True)
    done = set()
    if not TESTS_ONLY and os.path.exists(f'{MUT}/tests.jsonl'):
        for l in open(f'{MUT}/tests.jsonl'):
            r = json.loads(l)
            if r['status'] != 'passes tests': done.add((r['file'], r['line'], r['new'], r['old']))
    rp = f'{MUT}/tests.jsonl' if TESTS_ONLY else f'{MUT}/results.jsonl'
    if os.path.exists(rp):
        for l in open(rp):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['new'], r['old']))
    q = queue.Queue()
    n = 0
    # spread over the files
    ms.sort(key=lambda m: hashlib.sha1(repr(m).encode()).hexdigest())
    for m in ms:
        if (m[0], m[1] + 1, m[3].strip(), m[2].strip()) not in done:
            q.put(m); n += 1
    print(n, 'to do', flush=True)
    res = open(rp, 'a')
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, res, lock)) for k in range(int(sys.argv[2]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
main()
