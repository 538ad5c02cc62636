#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - build the property's monitors from /repo, run them, judge, write evidence."""
import hashlib, json, os, re, signal, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)
T0 = time.time()
DEADLINE = T0 + float(os.environ.get('VERIF_DEADLINE', '800' if os.environ.get('VERIF_TIER', 'quick') == 'quick' else '100000'))

SOFT = T0 + 300   # quick tier: once a crash, race or hang has been found, nothing more is started after this time
FOUND = []

class HarnessError(Exception):
    pass

INC = ['-I' + HERE + '/harness', '-I%s/ct_core/include' % REPO, '-I%s/ct_optcon/include' % REPO,
       '-I%s/ct_rbd/include' % REPO, '-I%s/ct_rbd/include/ct' % REPO, '-I%s/ct_rbd/include/ct/rbd' % REPO, '-I%s/ct_rbd/include/ct/rbd/robot/kinematics/ikfast' % REPO, '-I' + REPO, '-I%s/ct_models/include' % REPO, '-I' + HERE + '/harness/stub', '-isystem', '/usr/include/eigen3']
DEF = ['-DCPPAD', '-DCT_USE_LAPACK', '-DHAVE_CSTDDEF', '-DBUILD_WITH_IPOPT_SUPPORT', '-DCT_VERIF_HOOKS']
COMMON = ['-std=c++14', '-w', '-pthread', '-O0', '-g1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
PROFILE = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-fopenmp'],
    'tsan': ['-fsanitize=thread', '-O1', '-DMON_TSAN'],   # without -fopenmp: the OpenMP runtime is not instrumented
    'tsanomp': ['-fsanitize=thread', '-O1', '-DMON_TSAN', '-fopenmp'],   # OpenMP synchronisation made visible by Archer (OMPT)
    'plain': ['-fopenmp'],
    'zero': ['-fopenmp', '-ftrivial-auto-var-init=zero'],   # other stack contents than the pattern of COMMON
}
LIBS = ['-llapack', '-lipopt', '-lcppad_lib', '-lpthread', '-ldl']
SUPP = HERE + '/harness/tsan.supp'
ENV = {
    'asan': {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:'
                             'max_malloc_fill_size=67108864:malloc_fill_byte=255:allocator_may_return_null=0:check_initialization_order=0:handle_abort=1',
             'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77'},
    'tsan': {'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4:suppressions=' + SUPP},
    'tsanomp': {'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4:ignore_noninstrumented_modules=1:suppressions=' + SUPP,
                'OMP_TOOL_LIBRARIES': '/usr/lib/llvm-18/lib/libarcher.so'},
    'plain': {},
    'zero': {'MALLOC_PERTURB_': '170'},
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()

def dep_hash(deps):
    h = hashlib.sha256()
    for d in sorted(set(deps)):
        try:
            with open(d, 'rb') as f:
                h.update(d.encode()); h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b'missing' + d.encode())
    return h.hexdigest()

def compile_one(src, obj, args):
    """Compile src; reuse obj only if command line and the content of every dependency are unchanged."""
    cmd = ['clang++'] + args + ['-MD', '-MF', obj + '.d', '-c', src, '-o', obj]
    meta = obj + '.meta'
    ck = sha(*cmd)
    try:
        m = json.load(open(meta))
        if m['cmd'] == ck and os.path.exists(obj) and dep_hash(m['deps']) == m['hash']:
            return
    except Exception:
        pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise HarnessError('compilation of %s failed:\n%s' % (src, r.stderr[-4000:]))
    txt = open(obj + '.d').read().replace('\\\n', ' ')
    deps = [d for d in txt.split(':', 1)[1].split() if not d.startswith('/usr/')]
    json.dump(dict(cmd=ck, deps=deps, hash=dep_hash(deps)), open(meta, 'w'))

def bin_key(b):
    return sha(json.dumps([b['src'], b.get('defs', []), b['profile'], b.get('extra', [])]))[:12]

def build(bins):
    os.makedirs(HERE + '/build', exist_ok=True)
    jobs, links = [], []
    for b in bins:
        k = bin_key(b)
        objs = []
        flags = COMMON + PROFILE[b['profile']] + DEF + INC + b.get('defs', [])
        srcs = [HERE + '/harness/' + s for s in b['src']] + [REPO + '/' + s for s in b.get('extra', [])]
        for s in srcs:
            o = '%s/build/%s-%s.o' % (HERE, k, os.path.basename(s).replace('.', '_') + sha(s)[:4])
            jobs.append((s, o, flags + b.get('srcflags', {}).get(os.path.basename(os.path.dirname(s)) + '/' + os.path.basename(s), [])))
            objs.append(o)
        exe = '%s/build/%s-%s' % (HERE, os.path.basename(b['src'][0])[:-4], k)
        b['exe'] = exe
        links.append((exe, objs, b))
    seen = {}
    for j in jobs:
        seen[j[1]] = j
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, *j) for j in seen.values()]:
            f.result()
    def link(l):
        exe, objs, b = l
        r = subprocess.run(['clang++'] + PROFILE[b['profile']] + ['-pthread'] + objs + ['-o', exe] + LIBS, capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('link failed:\n' + r.stderr[-4000:])
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(link, links))

def crash_key(err, rc, profile):
    """Classify a crash from the sanitizer report; returns (kind, where, excerpt)."""
    kind, where = 'crash-rc%d' % rc, ''
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        kind = 'asan-' + m.group(1)
    m2 = re.search(r'runtime error: (.*)', err)
    if m2 and not m:
        kind = 'ubsan-' + re.sub(r'[^a-z]+', '-', m2.group(1).lower())[:40].strip('-')
    m3 = re.search(r"[Aa]ssertion [`'](.*?)' failed", err)
    if m3:
        kind = 'assert'
    if 'terminate called' in err or 'terminating due to' in err:
        kind = 'terminate'
    for fr in re.finditer(r'#\d+ 0x\w+ in .*? (/\S+?):(\d+)', err):
        f = fr.group(1)
        if f.startswith(REPO + '/ct_'):
            where = os.path.relpath(f, REPO)
            break
    i = 0
    for pat in ('ERROR: AddressSanitizer', 'runtime error:', 'ssertion', 'terminat'):
        i = err.find(pat)
        if i >= 0:
            break
    return kind, where, err[max(0, i - 200):i + 3000]

TSAN_RE = re.compile(r'WARNING: ThreadSanitizer: (.*?) \(pid.*?\n(.*?)={10,}', re.S)
def tsan_reports(err):
    out = []
    for m in TSAN_RE.finditer(err + '\n====================\n'):
        body = m.group(2)
        frames = [os.path.relpath(f, REPO) for f in re.findall(r'#\d+ .*? (%s/ct_\S+?):\d+' % REPO, body)]
        where = frames[0] if frames else ''
        out.append((m.group(1).strip().replace(' ', '-'), where, body[:3000]))
    return out

class Shard:
    """Runs one shard of a binary to completion, surviving crashes and hangs of individual cases."""
    def __init__(self, b, seed, shard, nsh, count, tier, work):
        self.b, self.seed, self.shard, self.nsh, self.count, self.tier = b, seed, shard, nsh, count, tier
        self.base = '%s/%s-b%d-%d' % (work, os.path.basename(b['exe']), b['index'], shard)
        self.viol, self.cases, self.samples, self.errors = [], {}, [], []
        self.started = {}
    def cmd(self, first, count=None, shard=None, nsh=None, log=None):
        return [self.b['exe'], str(self.seed), str(self.shard if shard is None else shard), str(self.nsh if nsh is None else nsh),
                str(first), str(self.count if count is None else count), log or self.base + '.log', self.tier] + ([self.b['only']] if self.b.get('only') else [])
    def launch(self, cmd, errf):
        env = dict(os.environ); env.update(ENV[self.b['profile']]); env.update(self.b.get('env', {}))
        env.setdefault('OMP_NUM_THREADS', '4')
        return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=env, cwd=os.path.dirname(self.base), start_new_session=True)
    def cpu(self, pid):
        try:
            f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
            return int(f[11]) + int(f[12])
        except Exception:
            return 0
    def wait(self, p, log, stall):
        """wait with progress watchdog; returns rc or ('stall', deadlocked?)"""
        last, lastsz, cpu0 = time.time(), -1, 0
        while True:
            try:
                return p.wait(0.2)
            except subprocess.TimeoutExpired:
                pass
            try: sz = os.path.getsize(log)
            except OSError: sz = 0
            now = time.time()
            if sz != lastsz:
                last, lastsz, cpu0 = now, sz, self.cpu(p.pid)
            elif now - last > stall:
                dead = self.cpu(p.pid) - cpu0 < 0.02 * 100 * stall
                if dead and os.environ.get('MON_GDB'):
                    subprocess.run(['gdb', '-p', str(p.pid), '-batch', '-ex', 'thread apply all bt 12'])
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                return ('stall', dead)
            if now > DEADLINE or (FOUND and now > SOFT):
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                return 'deadline'
    def run(self):
        first, tries = 0, 0
        stall = self.b.get('stall', 90)
        maxcrash = self.b.get('maxcrash', 6)
        while True:
            ef = '%s.err%d' % (self.base, tries)
            with open(ef, 'wb') as errf:
                p = self.launch(self.cmd(first), errf)
                rc = self.wait(p, self.base + '.log', stall)
            err = open(ef, errors='replace').read()
            done, last = self.parse()
            if self.b['profile'].startswith('tsan'):
                for k, w, ex in tsan_reports(err):
                    self.viol.append(dict(case=last[0] if last else -1, scen=last[1] if last else '?', key='tsan/%s@%s' % (k, w), detail=ex, kind='san', san=True))
            if any(v['kind'] != 'oracle' and not any(re.fullmatch(k[0], v['key']) for k in load_known(self.b['prop'])) for v in self.viol):
                FOUND.append(1)
            if rc == 'deadline':
                self.errors.append('deadline reached'); return
            if done:
                if rc not in (0, 66): self.errors.append('exit code %r after completion: %s' % (rc, err[-500:]))
                return
            if last is None:
                self.errors.append('no case started (rc %r): %s' % (rc, err[-1500:])); return
            if isinstance(rc, tuple):
                # a case made no progress. A deadlock (no CPU used) is decided at once; otherwise re-run it alone with more time.
                i, sc = last
                hung = rc[1]
                if not hung:
                    l2 = self.base + '.re.log'
                    if os.path.exists(l2): os.unlink(l2)
                    with open(self.base + '.re.err', 'wb') as e2:
                        p2 = self.launch(self.cmd(i, i + 1, 0, 1, l2), e2)
                        rc2 = self.wait(p2, l2, stall * 2)
                    hung = isinstance(rc2, tuple)
                    if rc2 == 'deadline': self.errors.append('deadline reached'); return
                if hung:
                    FOUND.append(1)
                    self.viol.append(dict(case=i, scen=sc, key='%s/hang' % sc, detail='no progress for %ds (%s)' % (stall, 'deadlock: no CPU used' if rc[1] else 'spinning'), kind='hang', san=True))
            elif rc == 3:
                self.errors.append('harness error: ' + err[-1500:]); return
            else:
                i, sc = last
                k, w, ex = crash_key(err, rc, self.b['profile'])
                self.viol.append(dict(case=i, scen=sc, key='%s/%s@%s' % (sc, k, w), detail=ex, kind='crash', san=True))
                FOUND.append(1)
            first = last[0] + 1
            tries += 1
            if FOUND and time.time() > SOFT:
                return
            if tries > maxcrash:
                return
    def parse(self):
        done, open_case = False, None
        self.cases, self.samples = {}, []
        vs = []
        try: lines = open(self.base + '.log', errors='replace').read().split('\n')
        except OSError: lines = []
        for l in lines:
            f = l.split('\t')
            if f[0] == 'B' and len(f) == 3: open_case = (int(f[1]), f[2])
            elif f[0] == 'E' and len(f) >= 7:
                self.cases[int(f[1])] = (f[2], f[3], int(f[4]), int(f[5]), int(f[6])); open_case = None
            elif f[0] == 'V' and len(f) >= 5:
                vs.append(dict(case=int(f[1]), scen=f[2], key=f[3], detail=f[4], kind='oracle', san=False))
            elif f[0] == 'S' and len(f) >= 4: self.samples.append('%s case %s: %s' % (f[2], f[1], f[3]))
            elif f[0] == 'D': done = True
        self.viol = [v for v in self.viol if v['kind'] != 'oracle'] + vs
        return done, open_case

def load_known(prop):
    known, path = [], HERE + '/known_findings.txt'
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
    return known

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = props.PROPS[prop]
    bins = [dict(b, index=i, prop=prop) for i, b in enumerate(spec['bins'](tier))]
    for b in bins:
        if b.get('only'):   # scenarios not asked for are not compiled either
            b['defs'] = b.get('defs', []) + ['-DMON_ONLY="%s"' % b['only']]
    global DEADLINE
    if tier == 'thorough':
        global SOFT
        SOFT = T0 + 3600
        if 'VERIF_DEADLINE' not in os.environ: DEADLINE = T0 + 4 * 3600
    build(bins)
    tb = time.time() - T0
    work = '%s/build/run-%s-%d' % (HERE, prop, os.getpid())
    subprocess.run(['rm', '-rf', work]); os.makedirs(work)
    shards = []
    for b in bins:
        n = b['cases']
        ns = min(b.get('shards', NCPU), max(1, n))
        for k in range(ns):
            shards.append(Shard(b, seed, k, ns, n, tier, work))
    par = spec.get('parallel', NCPU)
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(lambda s: s.run(), shards))
    viol, errors, nchecks, scen, sigs, ncase, nskip, samples = [], [], 0, {}, set(), 0, 0, []
    for s in shards:
        errors += s.errors
        samples += s.samples
        for i, (sc, sg, nt, ck, sk) in s.cases.items():
            ncase += 1; nchecks += ck; nskip += sk
            e = scen.setdefault(sc, dict(cases=0, checks=0, skipped=0)); e['cases'] += 1; e['checks'] += ck; e['skipped'] += sk
            if nt and not sk: sigs.add(sg)
        for v in s.viol:
            v['bin'] = s.b; v['shard'] = s
            if spec.get('san_only') and not v['san'] and not re.search(spec.get('san_extra', r'(?!x)x'), v['key']): continue
            viol.append(v)
    # twin binaries run the same cases with other initial memory contents: every observed value must be the same
    ntwin = 0
    for b in bins:
        if 'twin' not in b: continue
        a = {}
        for s in shards:
            if s.b['index'] == b['twin']: a.update({i: (c, s) for i, c in s.cases.items()})
        for s in shards:
            if s.b['index'] != b['index']: continue
            for i, c in s.cases.items():
                if i not in a or re.fullmatch(b.get('notwin', r'(?!x)x'), c[0]): continue
                ntwin += 1
                if a[i][0][1] != c[1]:
                    viol.append(dict(case=i, scen=c[0], key='%s/result depends on uninitialised memory' % c[0], detail='observed values %s with one filling of fresh memory, %s with another' % (a[i][0][1], c[1]), kind='twin', san=True, bin=s.b, shard=s))
    known = load_known(prop)
    new, seen_known = {}, {}
    for v in viol:
        for pat, what in known:
            if re.fullmatch(pat, v['key']): seen_known[pat] = what; break
        else:
            new.setdefault(v['key'], v)
    for pat, what in known:
        if pat in seen_known: print('KNOWN-FINDING: property=%s %s' % (prop, what))
    os.makedirs(HERE + '/replays', exist_ok=True)
    for n, (k, v) in enumerate(sorted(new.items())):
        rp = '%s/replays/%s-%d.json' % (HERE, prop, n)
        json.dump(dict(property=prop, key=k, case=v['case'], scenario=v['scen'], seed=seed, tier=tier, detail=v['detail'],
                       cmd=v['shard'].cmd(v['case'], v['case'] + 1, 0, 1, '/dev/stdout'), env=ENV[v['bin']['profile']]), open(rp, 'w'), indent=1)
        print('%s: case %d: %s' % (k, v['case'], v['detail'][:700]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    idle = [s for s, e in scen.items() if e['checks'] == 0 or e['skipped'] == e['cases']]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'), wall_s=round(time.time() - T0, 1), violations=len(new),
        coverage=dict(evaluations=ncase, distinct_nontrivial=len(sigs), rule=spec['rule'], samples=samples[:24] or ['none'],
            oracle_comparisons=nchecks, skipped_cases=nskip, scenarios=scen, build_s=round(tb, 1), binaries=[dict(src=b['src'], profile=b['profile'], cases=b['cases']) for b in bins],
            known_findings_seen=len(seen_known), memory_twin_comparisons=ntwin),
        assumptions=spec.get('assumptions', []))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    subprocess.run(['rm', '-rf', work])
    print('%s %s: %d cases (%d skipped), %d distinct, %d oracle comparisons, %d violations, build %.0fs, total %.0fs' % (prop, tier, ncase, nskip, len(sigs), nchecks, len(new), tb, time.time() - T0))
    if new: return 1
    if errors:
        print('ERROR: ' + '\n'.join(errors[:5])); return 2
    if idle and not spec.get('san_only'):
        print('ERROR: scenarios that observed nothing: %s' % idle); return 2
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except HarnessError as e:
        print('ERROR: ' + str(e)); sys.exit(2)
