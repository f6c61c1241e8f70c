#!/usr/bin/env python3
"""Driver: builds winpty's own sources from /repo against the simulated machine, runs the workloads, judges the result.

    vr.py check ID quick|thorough     run the check of one property
    vr.py replay FILE                 run one recorded failing case again
    vr.py build VARIANT DIR           (development) build a variant and leave it in DIR
"""
import collections, concurrent.futures, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
UNIT = os.path.join(HERE, 'unit')
JOBS = max(2, min(8, os.cpu_count() or 4))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(HERE, '.cache'))
MINGW = '/usr/share/mingw-w64/include'

class HarnessError(Exception):
    pass

# ------------------------------------------------------------------------------------------------ building
BASE = f'-w -fdeclspec -fshort-wchar -DUNICODE -D_UNICODE -D_GLIBCXX_EXTERN_TEMPLATE=0 -include {SIM}/pfx.h -idirafter {MINGW} -fPIC'
ASAN = '-fsanitize=address,undefined -fno-sanitize=vptr -fno-omit-frame-pointer -D_GLIBCXX_SANITIZE_VECTOR=1'
TSAN = '-fsanitize=thread -mllvm -tsan-distinguish-volatile=1 -fno-omit-frame-pointer'
VARIANTS = {'asan': (ASAN, '-fsanitize=address'), 'tsan': (TSAN, '-fsanitize=thread')}

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def file_hash(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return 'none'
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, 'rb') as f:
            memo[k] = hashlib.sha1(f.read()).hexdigest()
    return memo[k]

class Build:
    """Object files are reused (in the git-ignored .cache) only while the command and every file it read are unchanged."""
    def __init__(self, out):
        self.out = out
        self.jobs = []
        os.makedirs(out, exist_ok=True)
        os.makedirs(CACHE, exist_ok=True)
    def add(self, src, obj, flags, compiler='clang++'):
        self.jobs.append((src, obj, flags, compiler))
    def one(self, job):
        src, obj, flags, compiler = job
        obj = os.path.join(self.out, obj)
        key = hashlib.sha1(f'{compiler} {flags} {src}'.encode()).hexdigest()
        dep, cached = os.path.join(CACHE, key + '.dep'), os.path.join(CACHE, key + '.o')
        try:
            d = json.load(open(dep))
            if os.path.exists(cached) and all(file_hash(p) == h for p, h in d.items()):
                shutil.copyfile(cached, obj)
                return None
        except (OSError, ValueError):
            pass
        r = sh(f'{compiler} {flags} -MD -MF {obj}.d -c {src} -o {obj}')
        if r.returncode != 0:
            return f'{src}: {r.stdout[:3000]}'
        try:
            text = open(obj + '.d').read().replace('\\\n', ' ')
            files = text.split(':', 1)[1].split()
            h = {p: file_hash(p) for p in files}
            tmp = f'{cached}.{os.getpid()}.{threading.get_ident()}'
            shutil.copyfile(obj, tmp)
            os.replace(tmp, cached)
            json.dump(h, open(dep, 'w'))
        except OSError:
            pass
        return None
    def run(self):
        big = lambda j: -os.path.getsize(j[0])
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(self.one, sorted(self.jobs, key=big)) if e]
        if errs:
            raise HarnessError('compilation failed:\n' + '\n'.join(errs[:4]))

def link(cmd):
    r = sh(cmd)
    if r.returncode != 0:
        raise HarnessError('link failed: ' + r.stdout[:3000])

def gen_version(d):
    os.makedirs(d + '/gen', exist_ok=True)
    with open(d + '/gen/GenVersion.h', 'w') as f:
        f.write('const char GenVersion_Version[] = "0.4.4-dev"; const char GenVersion_Commit[] = "none";\n')

def sources(sub):
    d = f'{REPO}/src/{sub}'
    return [f'{d}/{f}' for f in sorted(os.listdir(d)) if f.endswith('.cc') and not f.endswith('Test.cc')]

def build_sim(variant, out):
    """The agent, libwinpty and the simulated machine, in `out`."""
    san, hsan = VARIANTS[variant]
    b = Build(out + '/o')
    # The generated header lives at a fixed place so that object files can be reused.
    gen = f'{CACHE}/gen'
    os.makedirs(CACHE, exist_ok=True)
    if not os.path.exists(gen + '/gen/GenVersion.h'):
        gen_version(gen)
    mod = f'-g1 -O1 -std=c++14 -D_WIN32_WINNT=0x0501 {BASE} -I {gen}/gen -I {REPO}/src/include {san}'
    agent, lib = [], []
    for f in sources('agent') + sources('shared'):
        o = 'agent_' + os.path.basename(f) + '.o'
        agent.append(f'{out}/o/{o}')
        b.add(f, o, f'{mod} -DWINPTY_AGENT_ASSERT -Dmain=agent_main')
    for f in sources('libwinpty') + sources('shared'):
        o = 'lib_' + os.path.basename(f) + '.o'
        lib.append(f'{out}/o/{o}')
        b.add(f, o, f'{mod} -DCOMPILING_WINPTY_DLL')
    dbg = []
    for f in sources('debugserver') + sources('shared'):
        o = 'dbg_' + os.path.basename(f) + '.o'
        dbg.append(f'{out}/o/{o}')
        b.add(f, o, f'{mod} -Dmain=dbg_main')
    unit = [f'{out}/o/dbg_{os.path.basename(f)}.o' for f in sources('shared')]
    if os.path.isdir(UNIT):
        for f in sorted(os.listdir(UNIT)):
            if f.endswith('.cc'):
                unit.append(f'{out}/o/u_{f}.o')
                b.add(f'{UNIT}/{f}', f'u_{f}.o', f'{mod} -I {REPO}/src/shared')
    b.add(f'{SIM}/shim.cc', 'shim.o', '-g1 -O1 -fno-builtin -fshort-wchar -std=c++14 -fPIC -w')
    har = f'-g1 -O1 -std=c++17 -D_WIN32_WINNT=0x0601 {BASE} -I {SIM} -I {REPO}/src/include'
    hobj = []
    for d in (SIM, SIM + '/scn'):
        for f in sorted(os.listdir(d)):
            if f.endswith('.cc') and f != 'shim.cc':
                hobj.append(f'{out}/o/h_{f}.o')
                b.add(f'{d}/{f}', f'h_{f}.o', har)
    b.run()
    wr = ('-Wl,--wrap=exit,--wrap=_exit,--wrap=abort,--wrap=__assert_fail,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock'
          ' -Wl,-Bsymbolic -shared -fPIC ')
    cmds = [f'clang++ {san} {wr} -o {out}/agent0.so {" ".join(agent)} {out}/o/shim.o',
            f'clang++ {san} {wr} -o {out}/lib.so {" ".join(lib)} {out}/o/shim.o',
            f'clang++ {san} {wr} -Wl,--wrap=fwrite,--wrap=fflush -o {out}/dbg.so {" ".join(dbg)} {out}/o/shim.o',
            f'clang++ {san} {wr} -o {out}/unit.so {" ".join(unit)} {out}/o/shim.o',
            f'clang++ {hsan} -rdynamic -o {out}/harness {" ".join(hobj)} -ldl -lpthread']
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        list(ex.map(link, cmds))
    for i in range(1, 6):
        shutil.copyfile(f'{out}/agent0.so', f'{out}/agent{i}.so')

# ------------------------------------------------------------------------------------------------ running
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:handle_segv=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=3:second_deadlock_stack=1',
}

class Case:
    def __init__(self, scenario, seed, params):
        self.scenario, self.seed, self.params = scenario, seed, params
        self.viol, self.stats, self.hash, self.end, self.extra, self.notes = [], collections.Counter(), None, None, [], []
    def ident(self):
        return {'scenario': self.scenario, 'seed': self.seed, 'params': self.params}

UB_RE = re.compile(r'^(\S+?):(\d+):(\d+): runtime error: (.*)$')
STACK_RE = re.compile(r'^\s*#\d+\s+(?:0x[0-9a-f]+\s+)?(?:in\s+)?(.*)$')

def in_repo(line):
    return '/repo/' in line or REPO + '/' in line or re.search(r'(agent\d|lib)\.so', line) is not None

SKIP_TOP = re.compile(r'\b(memcpy|memmove|memset|strlen|__interceptor_\w+|userRead|userWrite|operator new|operator delete|sim_mod_\w+|malloc|free|__tsan_\w+)\b')

def tsan_relevant(block):
    """Both accesses must be made by winpty's own code (the simulated machine is serialised by its scheduler)."""
    sections, cur = [], None
    for l in block:
        if re.match(r'^\s+(Write|Read|Previous write|Previous read|Atomic|Previous atomic)', l, re.I):
            cur = []
            sections.append(cur)
        elif cur is not None and re.match(r'^\s+#\d+', l):
            cur.append(l)
        elif not l.strip():
            cur = None
    if len(sections) < 2:
        return any(in_repo(l) for l in block)
    for s in sections[:2]:
        top = next((l for l in s if not SKIP_TOP.search(l)), None)
        if top is None or not in_repo(top):
            return False
    return True

def summarise(block):
    frames = [l.strip() for l in block if re.match(r'^\s*#\d+', l)]
    own = [f for f in frames if in_repo(f)]
    def short(f):
        f = re.sub(r'^#\d+\s+(0x[0-9a-f]+ in )?', '', f)
        f = re.sub(r'\s*\([^()]*\+0x[0-9a-f]+\).*$', '', f)
        return re.sub(r'/\S*/src/', '', f)
    return ' < '.join(short(f) for f in own[:5])

def parse(text, scenario, params):
    cases, cur, lines, i = [], None, text.split('\n'), 0
    while i < len(lines):
        l = lines[i]
        i += 1
        if l.startswith('BEGIN '):
            cur = Case(scenario, int(l.split()[2]), params)
            cases.append(cur)
        elif cur is None:
            if l.startswith('HARNESS'):
                raise HarnessError(l)
        elif l.startswith('VIOL '):
            _, key, msg = (l + ' ').split(' ', 2)
            cur.viol.append((key, msg.strip()))
        elif l.startswith('STAT '):
            _, k, v = l.split(' ')
            cur.stats[k] += int(v)
        elif l.startswith('HASH '):
            cur.hash = l[5:]
        elif l.startswith('SAMPLE '):
            cur.notes.append(l[7:])
        elif l.startswith('HARNESS'):
            cur.viol.append(('harness', l))
        elif l.startswith('CPULIMIT'):
            cur.extra.append('cpulimit')
        elif 'runtime error:' in l and UB_RE.match(l):
            m = UB_RE.match(l)
            blk = []
            while i < len(lines) and re.match(r'^\s+#\d+', lines[i]):
                blk.append(lines[i]); i += 1
            if in_repo(m.group(1)):
                cur.viol.append(('ubsan', f'{re.sub(r".*/src/", "", m.group(1))}:{m.group(2)}: {m.group(4)} [{summarise(blk)}]'))
            else:
                cur.notes.append('(harness) ' + l)
        elif 'ERROR: AddressSanitizer' in l:
            blk = [l]
            while i < len(lines) and not lines[i].startswith(('SUMMARY', 'END ', 'BEGIN ')):
                blk.append(lines[i]); i += 1
            head = re.sub(r'0x[0-9a-f]+', '0x..', re.sub(r'^=*\d*=*\s*', '', l))[:160]
            if any(in_repo(x) for x in blk):
                cur.viol.append(('asan', f'{head} [{summarise(blk)}]'))
            else:
                cur.viol.append(('harness', f'{head} in the harness: ' + ' '.join(blk[1:8])[:800]))
        elif 'WARNING: ThreadSanitizer' in l:
            blk = [l]
            while i < len(lines) and not lines[i].startswith(('SUMMARY', 'END ', 'BEGIN ', '=====')):
                blk.append(lines[i]); i += 1
            cur.stats['tsan.reports.raw'] += 1
            if tsan_relevant(blk):
                cur.viol.append(('tsan', f'{re.sub(r" *.pid=[0-9]+.", "", l.strip())} [{summarise(blk)}]'))
        elif l.startswith('END '):
            cur.end = l.split()[2:]
            cur = None
    for c in cases:
        if c.end is None:
            c.viol.append(('harness', 'the runner stopped in the middle of the case'))
            continue
        kind, code = c.end[0], int(c.end[1]) if len(c.end) > 1 else 0
        if kind == 'SIGNAL' and not any(k in ('asan', 'ubsan') for k, _ in c.viol):
            c.viol.append(('crash', f'terminated by signal {code}'))
        elif kind == 'TIMEOUT' or code == 5:
            c.extra.append('slow')
        elif kind == 'EXIT' and code == 2 and not c.viol:
            c.viol.append(('harness', 'scenario error'))
        elif kind == 'EXIT' and code not in (0, 1, 66) and not c.viol:
            c.viol.append(('crash', f'the simulated machine ended with exit status {code}'))
    return cases

RUNNING = set()
def run_chunk(out, scenario, first, count, params, cpu, stop=None):
    """stop: a file whose existence makes the harness leave out the cases it has not begun."""
    env = dict(os.environ); env.update(SAN_ENV)
    sup = f'{out}/tsan.supp'
    args = [f'{out}/harness', out, scenario, str(first), str(count), f'cpu={cpu}'] + [f'{k}={v}' for k, v in params.items()]
    if stop:
        args.append(f'stop={stop}')
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    RUNNING.add(p)
    try:
        o, _ = p.communicate(timeout=cpu * 5 * count + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
    finally:
        RUNNING.discard(p)
    return parse(o.decode('utf-8', 'replace'), scenario, params)

# ------------------------------------------------------------------------------------------------ judging
def known_findings():
    try:
        return [f for f in json.load(open(HERE + '/known_findings.json'))['findings'] if f.get('status') == 'open']
    except OSError:
        return []

def match_known(known, prop, scenario, key, msg):
    for f in known:
        if f['property'] == prop and f['key'] == key and re.search(f.get('scenario', ''), scenario) and re.search(f['match'], msg):
            return f
    return None

CPU = 40                  # processor seconds for one case

def check(prop, tier):
    sys.path.insert(0, HERE)
    import checks
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = checks.CHECKS[prop]
    out = tempfile.mkdtemp(prefix=f'vr-{prop}-')
    try:
        return check_in(prop, tier, seed, spec, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)

def check_in(prop, tier, seed, spec, out, t0):
    import checks
    variants = sorted({r['variant'] for r in spec['runs']})
    built = {}
    for v in variants:
        d = f'{out}/{v}'
        if v in VARIANTS:
            build_sim(v, d)
        else:
            checks.NATIVE[v](sys.modules[__name__], d)
        built[v] = d
    tb = time.time() - t0
    tasks = []
    for r in spec['runs']:
        n = r[tier] if tier in r else r['quick'] * 20
        if not n:
            continue
        chunk = r.get('chunk', 10 if n < 400 else 25)
        base = 1 + seed * 1000003 + r.get('offset', 0)
        for i in range(0, n, chunk):
            tasks.append((r, base + i, min(chunk, n - i)))
    # interleave the scenarios so that long ones do not all come last
    tasks.sort(key=lambda x: (x[1] - x[0].get('offset', 0)))
    known = known_findings()
    stop, state, lock = f'{out}/stop', {'bad': 0, 'slow': 0, 'cut': False}, threading.Lock()
    def cut():
        # A quick check must answer: what has not begun late in the run is left out, what does not end is ended.
        state['cut'] = True
        open(stop, 'w').close()
    def kill():
        for p in list(RUNNING):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    def go(t):
        r, first, cnt = t
        if os.path.exists(stop):
            return []
        d = built[r['variant']]
        cs = run_chunk(d, r['scenario'], first, cnt, r.get('params', {}), r.get('cpu', CPU), stop)
        if state['cut'] and cs and cs[-1].end is None:
            cs.pop()
        with lock:
            state['slow'] += sum('slow' in c.extra for c in cs)
            state['bad'] += sum(any(k != 'harness' and not match_known(known, prop, c.scenario, k, m) for k, m in c.viol) for c in cs)
            if state['bad'] >= 40 or state['slow'] >= 6:
                open(stop, 'w').close()     # enough is known: the check fails
        if len(cs) != cnt and not os.path.exists(stop) and not any('slow' in c.extra for c in cs):
            raise HarnessError(f'{r["scenario"]}: {len(cs)} of {cnt} cases came back')
        for c in cs:
            c.run = r
        return cs
    cases = []
    timers = [threading.Timer(max(1, 480 - tb), cut), threading.Timer(max(1, 600 - tb), kill)] if tier == 'quick' else []
    for t in timers:
        t.daemon = True; t.start()
    with concurrent.futures.ThreadPoolExecutor(spec.get('jobs', JOBS)) as ex:
        for cs in ex.map(go, tasks):
            cases += cs
    for t in timers:
        t.cancel()
    # A case that ran out of time is run once more, with few others, before it is called a hang.
    slow = [i for i, c in enumerate(cases) if 'slow' in c.extra]
    if state['bad'] == 0:
        def rerun(i):
            c = cases[i]
            again = run_chunk(built[c.run['variant']], c.scenario, c.seed, 1, c.params, c.run.get('cpu', CPU) * 2)[0]
            again.run = c.run
            if 'slow' in again.extra:
                again.viol.append(('hang', 'the code under test spins without ever waiting (processor-time limit, twice) or makes no progress: ' + '; '.join(again.notes[:2])))
            return i, again
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for i, again in ex.map(rerun, slow[:4]):
                cases[i] = again
    keys = spec.get('keys')
    viol, found, harness = [], {}, []
    for c in cases:
        for k, m in c.viol:
            if k == 'harness':
                harness.append(f'{c.scenario} seed {c.seed}: {m}')
                continue
            f = match_known(known, prop, c.scenario, k, m)
            if f:
                found.setdefault(f['id'], [f, 0])[1] += 1
            else:
                viol.append((c, k, m))
    # evidence
    stats, per, hashes, nontrivial = collections.Counter(), {}, set(), 0
    seen = set()
    for c in cases:
        for k, v in c.stats.items():
            if k.startswith('max.'):
                stats[k] = max(stats[k], v)
            else:
                stats[k] += v
        p = per.setdefault(c.scenario, collections.Counter())
        p['cases'] += 1
        if c.hash:
            hashes.add((c.scenario, c.hash))
        n = c.stats.get('native.cases', 0)
        if n:
            p['evaluations'] += n
            nontrivial += c.stats.get('native.nontrivial', 0)
        else:
            p['evaluations'] += 1
            sig = (c.scenario, c.hash or c.seed)
            if any(c.stats.get(k, 0) for k in spec.get('nontrivial', ['nontrivial'])) and sig not in seen:
                seen.add(sig); nontrivial += 1; p['nontrivial'] += 1
    evaluations = sum(p['evaluations'] for p in per.values())
    samples = []
    for sc in per:
        for c in [c for c in cases if c.scenario == sc][:2]:
            s = c.ident()
            s['observed'] = {k: v for k, v in sorted(c.stats.items()) if not k.startswith('sim.')}
            s['schedule_hash'] = c.hash
            if c.notes:
                s['notes'] = c.notes[:5]
            samples.append(s)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'],
          'coverage': {'evaluations': evaluations, 'distinct_nontrivial': nontrivial, 'rule': spec['rule'], 'samples': samples,
                       'scenarios': {k: dict(v) for k, v in per.items()}, 'distinct_schedules': len(hashes),
                       'observed': dict(sorted(stats.items())), 'builds': variants, 'build_s': round(tb, 1),
                       'known_findings_seen': {k: v[1] for k, v in found.items()}},
          'assumptions': spec.get('assumptions', checks.ASSUMPTIONS), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    rec = f'{HERE}/evidence/{prop}.violations.json'
    if os.path.exists(rec):
        os.remove(rec)
    with open(f'{HERE}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for k, (f, n) in sorted(found.items()):
        print(f'KNOWN-FINDING: property={prop} {f["id"]}: {f["what"]} (seen {n} times)')
    if state['cut']:
        print(f'{prop}: the run was cut short after 480 s')
    print(f'{prop} {tier}: {evaluations} evaluations, {nontrivial} non-trivial, {len(hashes)} schedules, {stats["sim.apis"]} system calls, build {tb:.0f} s, total {time.time() - t0:.0f} s')
    if viol:
        with open(rec, 'w') as f:
            json.dump([{'case': c.ident(), 'variant': c.run['variant'], 'key': k, 'message': m, 'observed': dict(c.stats)} for c, k, m in viol[:200]], f, indent=1)
        shown = collections.Counter()
        for c, k, m in viol:
            shown[k] += 1
            if shown[k] <= 3:
                print(f'  {c.scenario} seed {c.seed} [{k}] {m[:700]}')
        print(f'VIOLATION property={prop} replay={rec}')
        return 1
    if harness:
        for h in harness[:5]:
            print('HARNESS ' + h[:800], file=sys.stderr)
        return 2
    minimum = spec.get('require', {})
    for k, v in minimum.items():
        if stats[k] < v:
            print(f'HARNESS the monitors saw too little: {k} = {stats[k]} < {v}', file=sys.stderr)
            return 2
    return 0

def replay(path):
    import checks
    recs = json.load(open(path))
    done = set()
    for r in recs[:5]:
        c = r['case']
        key = (c['scenario'], c['seed'])
        if key in done:
            continue
        done.add(key)
        out = tempfile.mkdtemp(prefix='vr-replay-')
        try:
            if r['variant'] in VARIANTS:
                build_sim(r['variant'], out)
            else:
                checks.NATIVE[r['variant']](sys.modules[__name__], out)
            cs = run_chunk(out, c['scenario'], c['seed'], 1, c['params'], 60)
            for x in cs:
                print(x.ident(), x.end)
                for k, m in x.viol:
                    print('  ', k, m)
        finally:
            shutil.rmtree(out, ignore_errors=True)
    return 0

def main():
    sys.path.insert(0, HERE)
    a = sys.argv[1:]
    try:
        if a[:1] == ['check'] and len(a) >= 2:
            tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
            return check(a[1], tier)
        if a[:1] == ['setup']:
            # Nothing is installed: every check builds what it needs from /repo's current tree.
            d = tempfile.mkdtemp(prefix='vr-setup-')
            build_sim('asan', d)
            shutil.rmtree(d, ignore_errors=True)
            return 0
        if a[:1] == ['replay']:
            return replay(a[1])
        if a[:1] == ['run']:            # run DIR SCENARIO FIRST COUNT: prints what the monitors saw; 1 if anything
            n, step = int(a[4]), max(1, int(a[4]) // JOBS)
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                parts = list(ex.map(lambda i: run_chunk(a[1], a[2], int(a[3]) + i, min(step, n - i), {}, 60), range(0, n, step)))
            bad = [(c, k, m) for p in parts for c in p for k, m in c.viol + ([('hang', 'out of time')] if 'slow' in c.extra else [])]
            for c, k, m in bad[:10]:
                print(f'{c.scenario} {c.seed} [{k}] {m[:500]}')
            print(f'{sum(len(p) for p in parts)} cases, {len(bad)} reports')
            return 2 if any(k == 'harness' for _, k, _ in bad) else 1 if bad else 0
        if a[:1] == ['build']:
            if a[1] in VARIANTS:
                build_sim(a[1], a[2])
            else:
                import checks
                checks.NATIVE[a[1]](sys.modules[__name__], a[2])
            return 0
    except HarnessError as e:
        print('HARNESS ' + str(e)[:6000], file=sys.stderr)
        return 2
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main())
