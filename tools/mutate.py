#!/usr/bin/env python3
"""Mechanical changes to the library, to find what no check notices.

  mutate.py N [--seed=S] [--workers=W] [--files=REGEX] [--ops=REGEX] [--out=FILE]

Takes N random single-site changes of /repo/src (not its unit tests), builds the simulator with each
in scratch copies under /tmp and runs the checks with few runs each until one reports it. What is
left is run in full and then given to the repository's tests, and printed with its diff."""
import os, re, sys, random, subprocess, json, time, difflib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
opt = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--') and '=' in a)
N = int(next(a for a in sys.argv[1:] if not a.startswith('--')))
rnd = random.Random(int(opt.get('seed', '1'))); W = int(opt.get('workers', '4'))
FILES = re.compile(opt.get('files', '.')); OUT = opt.get('out', '/tmp/mutate.out'); OPS = re.compile(opt.get('ops', '.'))
ORDER = 'C15 C02 C01 C03 C06 C08 C12 C14 C04 C09 C11 C05 C07 C10 C13 C17 C19 C18'.split()
BASE = '/tmp/mutp'

def code(path):
    s = open(path).read()
    m = re.search(r'^#\[cfg\(test\)\]', s, re.M)
    return s, (m.start() if m else len(s))

SWAPS = [(r'(?<=[\w)\]]) \+ ', ' - '), (r'(?<=[\w)\]]) - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' << ', ' >> '), (r' >> ', ' << '),
  (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
  (r' \| ', ' & '), (r'(?<=\w) & (?=\w)', ' | '), (r'\.div_ceil\(', '.wrapping_div('), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
  (r'(get|put)_(u16|u32|u64|f32|f64|i16|i32)\(', r'\1_\2_le('), (r'get_u16\(\)', 'get_u8().into()'), (r'get_u8\(\)', 'get_u16() as u8'), (r'get_f64\(\)', 'get_f32().into()'),
  (r'\.push\((\w+)\)', r'.insert(0, \1)'), (r'unwrap_or_default\(\)', 'unwrap()'), (r'unwrap_or_else\(Self::default\)', 'unwrap()'), (r'\.saturating_sub\(', '.wrapping_sub('),
  (r'as u8\b', 'as u8 & 0x7F'), (r'as u16\b', 'as u16 & 0x7FFF'), (r'\bas usize\b', 'as u8 as usize'), (r'usize::from\((.*?)\)', r'usize::from(\1 as u8)'), (r'\bSome\((\w+)\)$', r'None')]

def mutants():
    out = []
    for root, _, fs in os.walk('/repo/src'):
        for f in fs:
            p = os.path.join(root, f)
            if not f.endswith('.rs') or not FILES.search(p): continue
            s, end = code(p)
            enums = f == 'enums.rs'
            pos = 0
            lines = s[:end].split('\n')
            starts = []; o = 0
            for l in lines: starts.append(o); o += len(l) + 1
            for i, l in enumerate(lines):
                t = l.strip()
                if not t or t.startswith(('//', 'use ', '#', 'pub use', 'pub mod', 'mod ')): continue
                a = starts[i]
                def add(op, new, w=1.0): out.append((p, i + 1, op, a, a + len(l), new, w))
                for rx, rep in SWAPS:
                    for m in re.finditer(rx, l):
                        try: new = l[:m.start()] + m.expand(rep) + l[m.end():]
                        except Exception: continue
                        add('swap ' + rx, new)
                for m in re.finditer(r'(?<![\w.#])(\d+)(_?(?:u8|u16|u32|u64|usize))?\b(?!\.\d)', l):
                    if re.match(r'\s*\w+ = \d+,', l):   # enumerant
                        add('enumerant', l[:m.start()] + str(int(m[1]) + 1) + (m[2] or '') + l[m.end():], 0.02)
                        continue
                    for v in {int(m[1]) + 1, max(int(m[1]) - 1, 0)} - {int(m[1])}:
                        add('number', l[:m.start()] + str(v) + (m[2] or '') + l[m.end():])
                if t.endswith(';') and not t.startswith(('let ', 'return', 'type ', 'const ', 'pub const', 'static')): add('delete', '')
                if t.endswith(';') and t.startswith('let ') is False and i + 1 < len(lines) and lines[i + 1].strip().endswith(';') and lines[i + 1].strip() != t:
                    out.append((p, i + 1, 'exchange', a, starts[i + 1] + len(lines[i + 1]), lines[i + 1] + '\n' + l, 1.0))
                # fields in declared layouts / struct literals in decode order
                if 'data_types' not in p and re.match(r'(pub )?\w+: .*,$', t) and i + 1 < len(lines) and re.match(r'(pub )?\w+: .*,$', lines[i + 1].strip()):
                    out.append((p, i + 1, 'exchange', a, starts[i + 1] + len(lines[i + 1]), lines[i + 1] + '\n' + l, 0.4 if not enums else 0.02))
                m = re.match(r'(\s*(?:pub )?\w+: )(u8|u16|u32|u64|i16|i32|f32|f64),', l)
                if m: add('type', m[1] + {'u8': 'u16', 'u16': 'u32', 'u32': 'u16', 'u64': 'u32', 'i16': 'i32', 'i32': 'i16', 'f32': 'f64', 'f64': 'f32'}[m[2]] + ',', 0.3)
    return out

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'
def prepare(k):
    d = f'{BASE}/{k}'
    sh(f'mkdir -p {d}/verif {d}/verif/evidence; [ -d {d}/repo ] || cp -a /repo {d}/repo; cd {d}/repo && git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', '/tmp')
    sh(f'cd /verif && tar cf - --exclude=target --exclude=.git --exclude=seeded --exclude=evidence --exclude=replays . | tar xf - -C {d}/verif', '/tmp')
    sh(f"sed -i 's|path = \"/repo\"|path = \"{d}/repo\"|' {d}/verif/sim/Cargo.toml", '/tmp')
    return d
free = Queue()
def one(m):
    d = free.get()
    try: return judge(m, d)
    finally: free.put(d)
def judge(m, d):
    p, line, op, a, b, new, w = m
    q = p.replace('/repo', d + '/repo', 1)
    s = open(p).read()
    open(q, 'w').write(s[:a] + new + s[b:])
    desc = f'{p[10:]}:{line} [{op}] {s[a:b].strip()[:90]!r} -> {new.strip()[:90]!r}'
    env = {'DISSIM_REPO': d + '/repo', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}
    try:
        rc, o = sh('cargo check --offline --quiet', d + '/repo', {'CARGO_TARGET_DIR': d + '/checkt', 'RUSTFLAGS': '-Awarnings'})
        if rc: return 'nobuild', desc
        for c in ORDER:
            rc, o = sh(f'./check.sh {c}', d + '/verif', {**env, 'DISSIM_RUNS': '600'})
            if rc == 1: return 'killed ' + c, desc
            if rc == 2: return 'broken ' + c + ' ' + o[-300:], desc
        for c in ORDER:
            rc, o = sh(f'./check.sh {c}', d + '/verif', env)
            if rc == 1: return 'killed-full ' + c, desc
            if rc == 2: return 'broken ' + c + ' ' + o[-300:], desc
        rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', d + '/repo', {'CARGO_TARGET_DIR': d + '/testt', 'RUSTFLAGS': '-Awarnings'})
        if rc: return 'tests', desc
        return 'SURVIVED', desc
    finally:
        open(q, 'w').write(s)
ms = [m for m in mutants() if OPS.search(m[2])]
weights = [m[6] for m in ms]
chosen = []
seen = set()
while len(chosen) < min(N, len(ms)):
    m = rnd.choices(ms, weights)[0]
    if (m[0], m[3], m[5]) in seen: continue
    seen.add((m[0], m[3], m[5])); chosen.append(m)
print(f'{len(ms)} possible', flush=True)
for k in range(W): free.put(prepare(k))
log = open(OUT, 'a')
with ThreadPoolExecutor(W) as ex:
    for r, dsc in ex.map(one, chosen):
        log.write(f'{r} | {dsc}\n'); log.flush()
        if not r.startswith(('killed', 'nobuild')) or 'full' in r: print(r, '|', dsc, flush=True)
