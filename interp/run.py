#!/usr/bin/env python3
"""Explores the library inside the interpreter (see src/lib.rs).
run.py build [ID] | check ID TIER | replay FILE"""
import fcntl, json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
T = os.path.join(ROOT, 'target', 'interp')
# native feature set whose results are the reference: features of the build
ALL = {'scalar': '', 'sse4.1': '-C target-feature=+sse4.1', 'avx2': '-C target-feature=+avx2,+f16c', 'big-endian': ''}
USE = {'C37': ['scalar', 'sse4.1', 'avx2'], 'C38': ['big-endian']}
FLAGS = '-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check -Zmiri-deterministic-floats'
FULL = '71x2+0,35x3+3,1x1+0,2x5+1,9x3+0,16x2+2,20x2+0,67x3+0,98x1+1,130x2+3,150x3+0'
BIG = 's390x-unknown-linux-gnu'
SHAPES = {'quick': {'scalar': '7x3+1', 'sse4.1': '35x2+0', 'avx2': '71x2+0', 'big-endian': '7x3+1'}, 'thorough': dict.fromkeys(ALL, FULL)}

def env(b):
    e = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
             XDG_CACHE_HOME=T, MIRI_SYSROOT=os.path.join(T, 'miri'), CARGO_TARGET_DIR=os.path.join(T, b), RUSTFLAGS='-Awarnings ' + ALL[b], MIRIFLAGS=FLAGS)
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    e.pop('CARGO_BUILD_TARGET', None)
    e.pop('RUSTC_WRAPPER', None)
    return e
def miri(b, *args, **k):
    return subprocess.Popen(['cargo', 'miri', 'run', '-q', '--manifest-path', os.path.join(HERE, 'Cargo.toml'), *(['--target', BIG] if b == 'big-endian' else []), '--', *map(str, args)],
                            env=env(b), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **k)
def build(builds):
    os.makedirs(T, exist_ok=True)
    lock = open(os.path.join(T, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    for t in 'x86_64-unknown-linux-gnu', BIG:
        if os.path.isdir(os.path.join(T, 'miri', 'lib', 'rustlib', t)):
            continue
        e = env('scalar')
        del e['MIRI_SYSROOT'], e['RUSTFLAGS']
        if subprocess.run(['cargo', 'miri', 'setup', '--target', t], env=e, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).returncode:
            sys.exit('the interpreter has no standard library')
    ps = [(b, miri(b)) for b in builds]
    for b, p in ps:
        out, err = p.communicate()
        want = {'scalar': [0, 0, 0, 0], 'sse4.1': [1, 0, 0, 0], 'avx2': [1, 1, 0, 0], 'big-endian': []}[b]
        if p.returncode or out.strip() != str([bool(x) for x in want]).lower():
            print(out[-2000:], err[-6000:], sep='\n')
            sys.exit(f'the {b} build for the interpreter failed')

class Run:
    def __init__(self, tier, builds):
        self.lock = threading.Lock()
        self.todo, self.found, self.unsup = [], {}, {}
        self.states = 0
        self.samples, self.ops = [], {}
        self.done = {b: 0 for b in builds}
        first = []
        for b in builds:
            f = os.path.join(T, f'{b}.states')
            o = subprocess.run([os.path.join(ROOT, 'target/release/mc'), 'interp', f, 'scalar' if b == 'big-endian' else b, SHAPES[tier][b], tier], check=True, capture_output=True, text=True).stdout.split()
            n, slow = int(o[0]), [int(x) for x in o[1:]]
            step = 24 if tier == 'quick' else 60
            # the slow ones first, each by itself
            first += [(b, f, i, i + 1) for i in slow]
            cuts = sorted({*range(0, n, step), *slow, *(i + 1 for i in slow), n})
            self.todo += [(b, f, i, j) for i, j in zip(cuts, cuts[1:]) if i not in slow]
            self.ops[b] = n
        self.todo = sorted(self.todo, reverse=True) + first
    def violation(self, key, case, detail):
        with self.lock:
            self.found.setdefault(key, (case, detail))
    def work(self):
        while True:
            with self.lock:
                if not self.todo:
                    return
                b, f, i, to = self.todo.pop()
            skip = None
            while i < to:
                t1 = time.time()
                out, err, rc = self.go(b, f, i, to)
                if os.environ.get('INTERP_TIMES'):
                    print(f'{time.time() - t1:.1f} {b} {i} {to}', re.findall('op=[^ ]*', out)[:1], flush=True)
                cur, name = None, ''
                n = 0
                for l in out.splitlines():
                    if l.startswith('@ '):
                        cur = l[2:].split(' ', 2)
                        name = cur[2].split(' ')[0]
                        n += 1
                        if n % 97 == 1 and len(self.samples) < 24:
                            self.samples.append(f'build={b} {cur[2]}')
                    elif l.startswith('V '):
                        k, d = l[2:].split(' ', 1)
                        self.violation(f'{name} kind={k} build={b}', f'build={b} state={cur[0]} {cur[2]}', d)
                with self.lock:
                    self.states += n
                    self.done[b] += n
                if rc == 0 and out.rstrip().endswith('done'):
                    break
                if cur is None:
                    self.violation(f'kind=harness build={b}', f'build={b} state={i}', (err[-600:] or 'no output').replace('\n', ' '))
                    break
                m = re.search(r'^error: (.*)$', err, re.M)
                what = m.group(1) if m else f'ended with {rc}: {err[-300:]}'
                at = re.search(r'^ *--> (\S+)', err[m.end():] if m else '', re.M)
                # the innermost place in the library
                lib = re.search(r'((?:[\w./-]*/)?src/[\w/]+\.rs:\d+)', '\n'.join(x for x in (err[m.end():] if m else '').splitlines() if '/interp/' not in x and '/rustlib/' not in x and '/mc/src' not in x))
                place = lib.group(1) if lib else (at.group(1) if at else '')
                pan = re.search(r"panicked at (.*?):\n(.*)", err)
                if what.startswith('unsupported operation'):
                    with self.lock:
                        self.unsup.setdefault((b, what[:160]), []).append(name)
                else:
                    kind = 'undefined' if 'Undefined Behavior' in what else 'panic' if pan else 'died'
                    d = f'{pan.group(2)} at {pan.group(1)}' if pan and kind == 'panic' else f'{what} at {place}'
                    self.violation(f'{name} kind={kind} build={b}', f'build={b} state={cur[0]} {cur[2]}', d)
                i = int(cur[0]) + 1
    def go(self, b, f, i, to):
        p = miri(b, f, i, to)
        try:
            out, err = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        return out, err, p.returncode
    def explore(self):
        ts = [threading.Thread(target=self.work) for _ in range(int(os.environ.get('MC_WORKERS', os.cpu_count() or 4)))]
        for t in ts: t.start()
        for t in ts: t.join()

def check(ID, tier):
    t0 = time.time()
    known = {}
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'^known: property=(\S+) (.*?)(?: :: (.*))?$', l.rstrip('\n'))
        if m and m[1] == ID:
            known[m[2].strip()] = m[3] or ''
    r = Run(tier, USE[ID])
    r.explore()
    seen = [k for k in r.found if k in known]
    new = {k: v for k, v in r.found.items() if k not in known}
    for k in seen:
        print(f'KNOWN-FINDING: property={ID} {k} ({known[k]})')
    d = os.path.join(ROOT, 'replays', ID)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    for i, (k, (case, detail)) in enumerate(sorted(new.items())):
        f = os.path.join(d, f'{i}.replay')
        with open(f, 'w') as o:
            o.write(f'property={ID}\ntier={tier}\nkey={k}\ncase={case}\ndetail={detail}\n')
        if i < 12:
            print(f'{k}: {detail}\n  {case}\nVIOLATION property={ID} replay={f}')
    if len(new) > 12:
        print(f'... and {len(new) - 12} more, see {d}')
    wall = time.time() - t0
    unsup = {f'{b}: {w}': sorted(set(v)) for (b, w), v in sorted(r.unsup.items())}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(dict(property=ID, tier=tier, seed=int(os.environ.get('VERIF_SEED') or 1), level='model_checking', coverage=dict(
        states=r.states, transitions=r.states, traces_validated_against_impl=r.states - sum(map(len, r.unsup.values())), exhaustive=True,
        explanation='Every public function executed by Miri, an interpreter of the abstract machine of Rust that stops at the first operation the language leaves undefined. states: distinct (CPU features, function, size, parameters); each is one execution in which every load, store, pointer computation and reference is checked, and whose buffers are compared byte by byte with those the native code leaves. The listed space was enumerated completely except for the states listed as undecided, which use an instruction Miri does not know.',
        builds=USE[ID], states_of_builds=r.done, shapes={b: SHAPES[tier][b] for b in USE[ID]}, undecided=unsup, known_findings_seen=len(seen), samples=r.samples),
        assumptions=['Miri implements the abstract machine and the vector instructions as specified', 'a build of the library by the interpreter\'s toolchain behaves as one by the repository\'s'], wall_s=wall, violations=len(new)),
        open(os.path.join(ROOT, 'evidence', ID + '.json'), 'w'), indent=1)
    print(f'{ID} {tier}: {r.states} states, {sum(map(len, r.unsup.values()))} undecided, {len(new)} violations, {len(seen)} known findings, {wall:.1f} s')
    sys.exit(1 if new else 0)

def replay(f):
    t = open(f).read()
    get = lambda k: re.search(rf'^{k}=(.*)$', t, re.M).group(1)
    m = re.match(r'build=(\S+) state=(\d+)', get('case'))
    r = Run(get('tier'), [m[1]])
    n = int(m[2])
    r.todo = [(m[1], os.path.join(T, f'{m[1]}.states'), n, n + 1)]
    r.work()
    for k, (c, d) in r.found.items():
        print(f'{k}: {d}\n  {c}')
    print(f'VIOLATION property={get("property")} replay={f}' if r.found else 'not reproduced')
    sys.exit(1 if r.found else 0)

if sys.argv[1] == 'build': build(USE[sys.argv[2]] if len(sys.argv) > 2 else list(ALL))
elif sys.argv[1] == 'check': check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else 'quick')
else: replay(sys.argv[2])
