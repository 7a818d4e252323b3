#!/usr/bin/env python3
"""Measures the checks against generated changes of the code (an aid while developing; no check uses it).

mutate.py LANE COUNT SEED [FILE_SUBSTRING]: in a private copy of /repo and of the simulator under
/tmp/mut/LANE, applies one random small change after the other. Changes that compile and pass the
existing tests are run against every check; what no check sees is written to /tmp/mut/LANE.log.
"""
import os, random, re, shutil, subprocess, sys, time
lane, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4] if len(sys.argv) > 4 else ''
root = '/tmp/mut/' + lane
repo, verif = root + '/repo', root + '/verif'
log = open(f'/tmp/mut/{lane}.log', 'a', buffering=1)
if not os.path.exists(root):
    os.makedirs(verif)
    subprocess.check_call(['cp', '-a', '/repo', repo])
    subprocess.check_call(['cp', '-a', '/verif/sim', verif + '/sim'])
subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
subprocess.check_call(['rsync', '-a', '--exclude', 'target', '--exclude', 'target-flex', '/verif/sim/', verif + '/sim/']) if shutil.which('rsync') else subprocess.check_call(f'cd /verif/sim && tar c --exclude=./target --exclude=./target-flex . | tar x -C {verif}/sim', shell=True)
shutil.copy('/verif/known_findings.txt', verif)
t = open(verif + '/sim/Cargo.toml').read().replace('"/repo"', f'"{repo}"')
open(verif + '/sim/Cargo.toml', 'w').write(t)
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_BUILD_JOBS='4', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')

SWAPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' \+= ', ' -= '), (r' \+= ', ' = '), (r' -= ', ' += '),
         (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b8\b', '7'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
         (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'Some\((\w+)\)(,?)$', r'None\2'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
         (r'\.is_empty\(\)', '.len() == 1'), (r'!self', 'self'), (r'if !', 'if '), (r'\bif (?!let)', 'if !'), (r'compressed_page_size', 'uncompressed_page_size'), (r'uncompressed_page_size', 'compressed_page_size'),
         (r'min_value', 'max_value'), (r'max_value', 'min_value'), (r'column_index', 'offset_index'), (r'offset_index', 'column_index'), (r'num_rows', 'num_values'), (r'num_values', 'num_rows'),
         (r'std::mem::take\(&mut ([\w.]+)\)', r'\1.clone()'), (r'write_all\(', 'write('), (r'read_exact\(', 'read('), (r'max_def_level', 'max_rep_level'), (r'max_rep_level', 'max_def_level'),
         (r'\.try_into\(\)\?', '.try_into().unwrap_or_default()'), (r'to_le_bytes', 'to_be_bytes'), (r'from_le_bytes', 'from_be_bytes'), (r'\.saturating_', '.wrapping_'), (r'\.wrapping_', '.saturating_'), (r'\?;$', '.ok();'), (r'\.take\(\)', '.clone()'), (r'\.rev\(\)', '')]

def sites():
    out = []
    for d, _, fs in os.walk(repo + '/src'):
        for f in fs:
            p = os.path.join(d, f)
            if not p.endswith('.rs') or 'from_message' in p or 'error.rs' in p or only not in p:
                continue
            lines = open(p).read().split('\n')
            for i, l in enumerate(lines):
                if l.startswith('#[cfg(test)]'):
                    break
                s = l.strip()
                if not s or s.startswith(('//', '#', 'use ', 'pub use', 'pub mod', 'mod ', 'fn ', 'pub fn', 'pub(crate) fn', 'impl', 'const ', 'where', '*', 'type ')) or '"' in s:
                    continue
                for a, b in SWAPS:
                    for m in re.finditer(a, l):
                        n = l[:m.start()] + re.sub(a, b, l[m.start():], count=1)
                        if n != l:
                            out.append((p, i, l, n))
                if s.endswith(';') and not s.startswith(('let ', 'return', 'type')):
                    out.append((p, i, l, '        ();'))
                if re.match(r'^(return |break)', s):
                    out.append((p, i, l, '        ();'))
    return out

def sh(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return subprocess.CompletedProcess(cmd, p.returncode, out, '')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None

def passing():
    r = sh(['cargo', 'test', '--offline', '--features', 'full', '--no-fail-fast'], repo, 300)
    return set() if r is None else set(re.findall(r'^test (.*?)(?: - should panic)? \.\.\. ok', r.stdout, re.M)) | set(re.sub(r'\(line \d+\)', '', x) for x in re.findall(r'^test (src.*?) \.\.\. ok', r.stdout, re.M))

PROPS = os.environ.get('PROPS', 'P01 P10 P21 P07 P03 P11 P12 P13 P14 P15 P08 P23 P04 P22 P19 P18 P16 P20 P02 P05 P06 P09 P17').split()
RUNS = os.environ.get('RUNS', '15000')
base = {x for x in passing() if '(line' not in x}
print(len(base), 'tests', file=log)
rng = random.Random(seed)
all_ = sites()
rng.shuffle(all_)
print(len(all_), 'sites', file=log)
done = 0
for p, i, l, n in all_:
    if done >= count:
        break
    src = open(p).read()
    lines = src.split('\n')
    lines[i] = n
    open(p, 'w').write('\n'.join(lines))
    rel = p[len(repo) + 1:]
    try:
        r = subprocess.run(['cargo', 'check', '--offline', '--features', 'full', '-q'], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode:
            continue
        done += 1
        if base - passing():
            print('TESTS', rel, i + 1, file=log)
            continue
        r = sh(['bash', '-c', 'cargo build --release --offline -q --no-default-features --features flex --target-dir target-flex & cargo build --release --offline -q --target-dir target; r=$?; wait $! && exit $r'], verif + '/sim', 400)
        if r is None or r.returncode:
            print('NOBUILD', rel, i + 1, n.strip(), file=log)
            continue
        hit = None
        for q in PROPS:
            e = dict(env, VERIF_ROOT=verif, VERIF_SEED='1', SIM_RUNS=RUNS, VERIF_TIER='quick')
            try:
                r = subprocess.run([verif + '/sim/target/release/sim', 'check', q], cwd=verif, env=e, timeout=200, capture_output=True, text=True)
            except subprocess.TimeoutExpired:
                hit = q + ' (timeout)'
                break
            if r.returncode != 0:
                hit = q
                break
        print('CAUGHT' if hit else 'MISSED', hit, rel, i + 1, '|', l.strip(), '=>', n.strip(), file=log)
    finally:
        open(p, 'w').write(src)
print('END', file=log)
