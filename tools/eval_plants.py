#!/usr/bin/env python3
"""Try planted changes in scratch copies of /repo and /verif under /tmp.

  eval_plants.py [--all] [--no-tests] [--seeds 1,2] DIR...

Each DIR holds patch.diff, demo.sh and meta.json. For each: does the patch apply, build, keep the
stable tests passing, does the demonstration pass without and fail with it, and which checks report
it (the property's own, or with --all every one)."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ALL = '--all' in sys.argv
TESTS = '--no-tests' not in sys.argv
seeds = next((a.split('=')[1].split(',') for a in sys.argv if a.startswith('--seeds=')), ['1'])
W = int(next((a.split('=')[1] for a in sys.argv if a.startswith('--workers=')), '3'))
PROPS = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
BASE = os.environ.get('EVAL_BASE', '/tmp/evalp')

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def prepare(k):
    d = f'{BASE}/{k}'
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + '/repo'):
        sh(f'cp -a /repo {d}/repo', '/tmp')
    sh('git checkout -q -f . && git clean -fdq src && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', d + '/repo')
    os.makedirs(d + '/verif', exist_ok=True)
    sh(f'rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ {d}/verif/ || (find {d}/verif -mindepth 1 -maxdepth 1 ! -name sim -exec rm -rf {{}} +; cd /verif && tar cf - --exclude=target --exclude=.git --exclude=seeded --exclude=evidence --exclude=replays . | tar xf - -C {d}/verif)', '/tmp')
    sh(f"sed -i 's|path = \"/repo\"|path = \"{d}/repo\"|' {d}/verif/sim/Cargo.toml; mkdir -p {d}/verif/evidence", '/tmp')
    return d

free = Queue()
def one(p):
    k = free.get()
    try:
        return judge(p, k)
    finally:
        free.put(k)
def judge(p, d):
    p = os.path.abspath(p)
    meta = json.load(open(p + '/meta.json'))
    out = {'id': os.path.basename(p), 'property': meta['property']}
    repo = d + '/repo'
    env = {'CARGO_TARGET_DIR': d + '/demo-target'}
    rc, o = sh(f'bash {p}/demo.sh', repo, timeout=300)
    out['demo_clean'] = rc
    if rc: out['demo_out'] = o[-600:]
    rc, o = sh(f'git apply --check {p}/patch.diff && git apply {p}/patch.diff', repo)
    if rc: out['apply'] = o[-300:]; return out
    try:
        if TESTS:
            rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', repo, {'CARGO_TERM_COLOR': 'never'})
            ok = set(re.findall(r'^test (.+?) \.\.\. ok', o, re.M))
            out['tests_ok'] = len(ok); out['tests_failed'] = re.findall(r'^test (.+?) \.\.\. FAILED', o, re.M)[:4]
            if 'error' in o and not ok: out['build'] = o[-800:]; return out
        rc, o = sh(f'bash {p}/demo.sh', repo, timeout=300)
        out['demo_patched'] = rc
        out['demo_says'] = o.strip().splitlines()[-1:] 
        hits = {}
        for c in (PROPS if ALL else [meta['property']]):
            for s in seeds:
                t = time.time()
                rc, o = sh(f'./check.sh {c}', d + '/verif', {'VERIF_SEED': s, 'VERIF_TIER': 'quick', 'DISSIM_REPO': repo})
                v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                m = o.strip().splitlines()
                hits[c + ('' if s == '1' else '/' + s)] = (rc, round(time.time() - t), m[1][:160] if rc == 1 and len(m) > 1 else (m[-1][:160] if rc not in (0, 1) and m else ''))
        out['checks'] = hits
    finally:
        sh('git checkout -q -f . && git clean -fdq src', repo)
    return out

for k in range(W): free.put(prepare(k))
with ThreadPoolExecutor(W) as ex:
    for r in ex.map(one, args):
        own = {k: v for k, v in r.get('checks', {}).items() if k.split('/')[0] == r['property']}
        caught = any(v[0] == 1 for v in own.values())
        bad = []
        if r.get('demo_clean'): bad.append('demo fails on clean: ' + r.get('demo_out', ''))
        if 'apply' in r: bad.append('apply: ' + r['apply'])
        if 'build' in r: bad.append('build: ' + r['build'])
        if TESTS and (r.get('tests_ok', 0) < 212): bad.append(f"tests ok {r.get('tests_ok')} failed {r.get('tests_failed')}")
        if r.get('demo_patched') == 0: bad.append('demo passes on patched')
        print(f"{r['id']:34} {r['property']} {'CAUGHT' if caught else 'MISSED'} {'' if not bad else 'INVALID ' + '; '.join(bad)}")
        for k, v in r.get('checks', {}).items():
            if v[0] != 0: print(f"      {k}: rc={v[0]} {v[1]}s {v[2]}")
        sys.stdout.flush()
