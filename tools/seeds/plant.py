#!/usr/bin/env python3
"""Make and validate planted bugs.

usage: plant.py ID...   (or: all, new)
Each bug is described in bugs_*.py. It is applied in a scratch clone of /repo; it is written to
/verif/seeded/<id>/ only when it builds, passes the existing tests, and its demonstration succeeds
without it and fails with it.  Development aid; no check reads /verif/seeded.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
WT = '/tmp/wt'
SEEDED = '/verif/seeded'

def sh(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)

def load():
    bugs = []
    for f in sorted(glob.glob(HERE + '/bugs_*.py')):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bugs += m.BUGS
    ids = [b['id'] for b in bugs]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return bugs

ENV = dict(os.environ, PATH=os.environ['PATH'] + ':/root/.cargo/bin', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')

def sync():
    if not os.path.isdir(WT + '/.git'):
        sh(f'git clone -q /repo {WT}')
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh(f'git fetch -q origin && git checkout -q -f {head} && git clean -fdq -e target', cwd=WT)

def original_lines(f):
    out = sh(['git', 'blame', '-s', f], cwd=WT).stdout.splitlines()
    return [l.startswith('^aae1568') or l.startswith('^') for l in out]

def tests():
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=WT, env=ENV)
    base = set(stable())
    ok, bad = set(), []
    for l in r.stdout.splitlines():
        if l.startswith('test ') and l.endswith('... FAILED'): bad.append(l)
    comp = 'error' in r.stdout and 'could not compile' in r.stdout
    return (not comp and not bad and r.returncode == 0), (bad[:4] if bad else r.stdout[-1500:])

def stable():
    return []

def run(b):
    sync()
    touched = False
    for (f, anchor, old, new) in b['edits']:
        p = WT + '/src/' + f
        s = open(p).read()
        i = s.index(anchor) if anchor else 0
        try: j = s.index(old, i)
        except ValueError: return f'edit not found in {f}: {old!r}'
        orig = original_lines('src/' + f)
        s2 = s[:j] + new + s[j+len(old):]
        open(p, 'w').write(s2)
    diff = sh(['git', 'diff'], cwd=WT).stdout
    # at least one removed line must be from the original tree
    removed_orig = 0; removed_mine = 0
    for f in sorted({e[0] for e in b['edits']}):
        sh(['git', 'stash', '-q'], cwd=WT); orig = original_lines('src/' + f); sh(['git', 'stash', 'pop', '-q'], cwd=WT)
        d = sh(['git', 'diff', '-U0', 'src/' + f], cwd=WT).stdout
        import re
        ln = None
        for l in d.splitlines():
            m = re.match(r'@@ -(\d+)', l)
            if m: ln = int(m.group(1)); continue
            if ln and l.startswith('-') and not l.startswith('---'):
                if orig[ln-1]: removed_orig += 1
                else: removed_mine += 1
                ln += 1
    if removed_orig == 0: return f'no original line changed ({removed_mine} of ours)'
    ok, why = tests()
    if not ok: return f'tests: {why}'
    d = f"{SEEDED}/.new-{b['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    for x in ('common.rs', 'demo.sh'): shutil.copy(HERE + '/' + x, d)
    open(d + '/main.rs', 'w').write('#![allow(unused)]\nmod common;\nuse common::*;\nuse http_box::{http1, http2};\n\nfn main() {\n' + b['demo'].strip('\n') + '\n}\n' + b.get('items', ''))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    if b.get('shipped'): open(d + '/shipped', 'w').close()
    if b.get('machine'): open(d + '/machine', 'w').write(b['machine'] + '\n')
    r1 = sh(['bash', d + '/demo.sh'], cwd=WT)
    sync()
    r0 = sh(['bash', d + '/demo.sh'], cwd=WT)
    if r0.returncode != 0: shutil.rmtree(d); return f'demo fails unpatched: {r0.returncode} {r0.stdout[-900:]}'
    if r1.returncode == 0: shutil.rmtree(d); return 'demo passes patched'
    if r1.returncode == 98: shutil.rmtree(d); return 'demo does not build patched: ' + r1.stdout[-600:]
    final = f"{SEEDED}/{b['id']}"
    shutil.rmtree(final, ignore_errors=True); os.rename(d, final)
    return f'ok (orig {removed_orig}, ours {removed_mine}) demo rc {r1.returncode}: {r1.stdout.strip()[:200]}'

if __name__ == '__main__':
    want = sys.argv[1:]
    for b in load():
        if 'all' in want or b['id'] in want or ('new' in want and not os.path.isdir(f"{SEEDED}/{b['id']}")):
            print(b['id'], '::', run(b), flush=True)
