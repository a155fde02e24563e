#!/usr/bin/env python3
"""check.py ID quick|thorough   - decide one property by monitored execution
   check.py --replay FILE       - run one recorded case again, verbosely

Builds the harnesses of the property from /repo's working tree (several
instrumented variants), runs their cases in parallel worker processes, merges
what the monitors reported, writes evidence/<ID>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself could not run."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shlex, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
from specs import SPECS, VARIANTS  # noqa

NPROC = os.cpu_count() or 4
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1',
           TSAN_OPTIONS='halt_on_error=0:exitcode=96:second_deadlock_stack=1:history_size=4',
           OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
           OMPI_MCA_btl='self,vader,tcp', OMPI_MCA_plm_rsh_agent='/bin/false',
           OMP_DYNAMIC='false', OMP_WAIT_POLICY='passive')


def die(msg):
    print('CHECK-ERROR: ' + msg, flush=True)
    sys.exit(2)


def compile_cmd(src, variant, out):
    v = VARIANTS[variant]
    cc = v.get('cxx', 'g++')
    cmd = [cc, '-std=c++17', '-w', '-include', 'optional', '-DVIECUT_PATH="%s"' % REPO,
           '-I' + REPO + '/app', '-I' + REPO + '/lib', '-I' + HERE + '/shim', '-I' + HERE + '/harness'] + v['flags']
    # app/x.cpp: one of the project's programs
    path = os.path.join(REPO, src) if src.startswith('app/') else os.path.join(HERE, 'harness', src)
    cmd += ['-I' + HERE + '/shim/mpistub']
    if v.get('sched'):
        # instrumented for the thread sanitizer, but linked with neither its
        # runtime nor libgomp: sched.cpp takes the place of both
        obj, rt = out + '.o', out + '.rt.o'
        q = lambda c: ' '.join(shlex.quote(x) for x in c)
        return ['bash', '-c', '%s && %s && %s; r=$?; rm -f %s %s; exit $r' % (
            q(cmd + ['-fsanitize=thread', '-c', path, '-o', obj]),
            q([cc, '-std=c++17', '-O2', '-g1', '-w', '-fno-threadsafe-statics', '-c', os.path.join(HERE, 'harness', 'sched.cpp'), '-o', rt]),
            q([cc, obj, rt, '-o', out, '-lpthread', '-ldl']), shlex.quote(obj), shlex.quote(rt))]
    cmd += [path] + [os.path.join(HERE, 'harness', x) for x in v.get('extra', [])]
    cmd += ['-o', out]
    cmd += v.get('link', []) + ['-lpthread']
    return cmd


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        for d, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.c')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


def build(need, bdir, th):
    """need: set of (src, variant) -> path of binary"""
    os.makedirs(bdir, exist_ok=True)
    res = {}

    def one(sv):
        src, variant = sv
        name = re.sub(r'[^A-Za-z0-9]+', '_', src) + '-' + variant
        tmp = os.path.join(bdir, name + '.tmp.%d' % os.getpid())
        cmd = compile_cmd(src, variant, tmp)
        key = hashlib.sha256((th + ' '.join(cmd).replace(tmp, '')).encode()).hexdigest()[:24]
        out = os.path.join(bdir, name + '-' + key)
        if not os.path.exists(out):
            for f in os.listdir(bdir):
                if f.startswith(name + '-') and not f.endswith(key):
                    try:
                        os.unlink(os.path.join(bdir, f))
                    except OSError:
                        pass
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return sv, None, p.stdout[-6000:]
            os.rename(tmp, out)
        return sv, out, ''
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for sv, out, err in ex.map(one, sorted(need)):
            if out is None:
                die('could not build %s (%s):\n%s' % (sv[0], sv[1], err))
            res[sv] = out
    return res


FRAME = re.compile(r'#\d+ (?:0x[0-9a-f]+ )?(?:in )?(\S.*?)(?: \(| /|\s+<null>|$)')


def short_fn(f):
    f = re.sub(r'\(.*', '', f)
    for _ in range(6):
        g = re.sub(r'<[^<>]*>', '', f)
        if g == f:
            break
        f = g
    f = re.sub(r'\[abi:\w+\]', '', f)
    f = f.strip().split(' ')[-1]
    f = re.sub(r'\._omp_fn.*', '', f)
    return f


def crash_key(rc, err):
    """a stable name for the way a case ended abnormally"""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        kind = 'asan-' + m.group(1)
    m2 = re.search(r'runtime error: ([^\n]*)', err)
    if not kind and m2:
        t = re.sub(r"0x[0-9a-f]+|-?\d+", 'N', m2.group(1))
        t = re.sub(r"'[^']*'", 'T', t)
        kind = 'ubsan-' + re.sub(r'\W+', '-', t)[:60].strip('-')
    m3 = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
    if not kind and m3:
        kind = 'tsan-' + m3.group(1).strip().replace(' ', '-')
    m5 = re.search(r'^==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Source and dest|Argument|Mismatched|Process terminating|Jump to)[^\n]*)', err, re.M)
    if not kind and m5:
        kind = 'memcheck-' + re.sub(r'\W+', '-', re.sub(r'\d+', 'N', m5.group(1)))[:50].strip('-')
    m4 = re.search(r'VF-SCHED: ([\w-]+)', err)
    if not kind and m4:
        kind = 'schedule-' + m4.group(1)
    if not kind and 'exit() called inside a case' in err:
        kind = 'exit-called'
    if not kind and 'case time limit reached' in err:
        kind = 'hang'
    if not kind and ('Assertion' in err or 'VIECUT_ASSERT' in err or 'assert' in err.lower()):
        kind = 'assertion'
    if not kind and rc < 0:
        try:
            kind = 'signal-' + signal.Signals(-rc).name
        except ValueError:
            kind = 'signal%d' % -rc
    if not kind:
        kind = 'exit-%d' % rc
    fn = ''
    for line in err.splitlines():
        m = re.match(r'\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?)(?::\d+)*$', line.strip()) or \
            re.match(r'\s*#\d+ (\S.*?) (/\S+?)(?::\d+)*(?: \(.*)?$', line.strip()) or \
            re.match(r'==\d+== +(?:at|by) 0x[0-9A-F]+: (\S.*) \((/\S+?):\d+\)$', line.strip())
        if m and ('/repo/' in m.group(2) or REPO in m.group(2)):
            fn = short_fn(m.group(1))
            break
    return kind + ('@' + fn if fn else '')


class Shard:
    deadline = float('inf')     # watchdog of the whole check; what it cuts off is inconclusive
    stop = False                # enough confirmed hangs: no need to wait for more of them
    confirmed_hangs = 0

    def __init__(self, job, bin_, seed, tier, start, stride, count, scratch, idx):
        # every job explores its own cases
        self.job, self.bin, self.tier = job, bin_, tier
        self.seed = int(hashlib.sha256(('%d:%s%s' % (seed, jobname(job), job.get('salt', ''))).encode()).hexdigest()[:8], 16)
        self.start, self.stride, self.count = start, stride, count
        self.scratch, self.idx = scratch, idx
        self.records, self.inconclusive, self.error = [], 0, None

    def cmd(self, start, count, out, limit):
        j = self.job
        base = j.get('wrap', []) + [self.bin, '--seed', str(self.seed), '--start', str(start), '--stride',
                str(self.stride), '--count', str(count), '--tier', self.tier, '--out', out,
                '--limit', str(limit), '--scratch', self.scratch]
        if j.get('mode'):
            base += ['--mode', j['mode']]
        return base

    def launch(self, start, count, out, limit):
        env = dict(ENV)
        env.update(self.job.get('env', {}))
        env['OMP_NUM_THREADS'] = str(self.job.get('omp', 1))
        env['VF_TIER'] = self.tier
        os.makedirs(self.scratch, exist_ok=True)
        errf = open(out + '.err', 'wb+')
        mem = 0 if 'san' in self.job['variant'] or any('san' in t[1] for t in self.job.get('tools', [])) else self.job.get('mem_gb', 8) << 30

        def lim():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        p = subprocess.Popen(self.cmd(start, count, out, limit), stdout=subprocess.DEVNULL, stderr=errf,
                             env=env, cwd=self.scratch, start_new_session=True, preexec_fn=lim)
        try:
            while True:
                try:
                    p.wait(timeout=1)
                    rc = p.returncode
                    break
                except subprocess.TimeoutExpired:
                    if Shard.stop or time.time() > Shard.deadline:
                        rc = None
                        break
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        errf.seek(0, 2)
        size = errf.tell()
        errf.seek(max(0, size - 200000))
        err = errf.read().decode('utf8', 'replace')
        errf.close()
        return rc, err

    secs = 0.0

    def run(self):
        t = time.time()
        try:
            return self.run1()
        finally:
            self.secs = time.time() - t

    def run1(self):
        n, start, out = self.count, self.start, os.path.join(self.scratch, 'out')
        limit = self.job.get('limit', 40)
        crashes = hangs = 0
        os.makedirs(self.scratch, exist_ok=True)
        while n > 0:
            if Shard.stop or time.time() > Shard.deadline:
                self.inconclusive += n
                break
            rc, err = self.launch(start, n, out, limit)
            if rc == 0:
                break
            try:
                cur = open(out + '.cur', 'rb').read()
                cur_case = int.from_bytes(cur[0:8], 'little')
                done = int.from_bytes(cur[8:16], 'little')
                note = cur[16:].split(b'\0')[0].decode('utf8', 'replace')
            except OSError:
                self.error = 'worker died before its first case (rc %s): %s' % (rc, err[-2000:])
                return self
            if rc == 2:
                self.error = 'worker reported a usage error: ' + err[-2000:]
                return self
            if rc is None:
                self.inconclusive += 1
                break
            if rc == 99:
                # alone, with a much larger limit: only then it is a hang
                hangs += 1
                rc2, err2 = self.launch(cur_case, 1, out + '.solo', limit * 3)
                if rc2 == 0:
                    self.inconclusive += 1
                    self.take(out + '.solo')
                elif rc2 == 99:
                    self.records.append(dict(t='violation', case=cur_case, **{'from': start}, key='hang', note=note,
                                             detail='did not end within %ds alone' % (limit * 3)))
                    Shard.confirmed_hangs += 1
                    if Shard.confirmed_hangs >= 3:
                        Shard.stop = True
                elif rc2 is None:
                    self.inconclusive += 1
                else:
                    self.records.append(dict(t='violation', case=cur_case, **{'from': start}, key=crash_key(rc2, err2),
                                             detail=err2[-6000:], note=note))
                    self.take(out + '.solo')
            else:
                crashes += 1
                self.records.append(dict(t='violation', case=cur_case, **{'from': start}, key=crash_key(rc, err),
                                         detail=err[:6000] if rc != 96 else err[:6000], note=note))
            start = cur_case + self.stride
            n -= done + 1
            if crashes >= self.job.get('max_crashes', 8) or hangs >= 2:
                break
        self.take(out)
        return self

    def take(self, out):
        try:
            with open(out) as f:
                for line in f:
                    try:
                        self.records.append(json.loads(line))
                    except ValueError:
                        pass
            os.unlink(out)
        except OSError:
            pass


def load_known(pid):
    known = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'KNOWN property=(\S+) job=(\S+) key=(\S+) note=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                known.append(dict(job=m.group(2), key=m.group(3), note=m.group(4), what=m.group(5)))
    except OSError:
        pass
    return known


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if len(sys.argv) < 2 or sys.argv[1] not in SPECS:
        die('usage: check.py ID quick|thorough')
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = SPECS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, 'build')
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    try:
        rc = run(pid, spec, tier, seed, t0, bdir, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def select_jobs(spec, tier):
    jobs = []
    for j in spec['jobs']:
        cnt = j.get(tier, 0)
        if cnt:
            jobs.append((j, cnt))
    return jobs


def run(pid, spec, tier, seed, t0, bdir, scratch):
    th = tree_hash([REPO + '/lib', REPO + '/app', HERE + '/harness', HERE + '/shim'])
    jobs = select_jobs(spec, tier)
    need = set()
    for j, _ in jobs:
        if j.get('src'):
            need.add((j['src'], j['variant']))
        for x in j.get('tools', []):
            need.add(tuple(x))
    bins = build(need, bdir, th)
    tb = time.time() - t0
    shards = []
    for ji, (j, cnt) in enumerate(jobs):
        k = min(j.get('shards', NPROC), cnt)
        b = bins[(j['src'], j['variant'])]
        if j.get('tools'):
            j = dict(j)
            j['env'] = dict(j.get('env', {}))
            for n, x in enumerate(j['tools']):
                j['env']['VF_TOOL_' + re.sub(r'[^A-Za-z0-9]+', '_', os.path.basename(x[0])).upper() + '_' + x[1].upper().replace('-', '_')] = bins[tuple(x)]
        for s in range(k):
            c = cnt // k + (1 if s < cnt % k else 0)
            shards.append(Shard(j, b, seed, tier, s, k, c, os.path.join(scratch, '%d-%d' % (ji, s)), ji))
    if tier == 'quick':
        Shard.deadline = t0 + spec.get('watchdog', 700)
    workers = spec.get('workers', NPROC)
    with cf.ThreadPoolExecutor(workers) as ex:
        done = list(ex.map(lambda s: s.run(), shards))
    evals, counters, sets, samples, viol, inconc = 0, {}, {}, [], [], 0
    per_job, job_s = {}, {}
    for s in done:
        if s.error:
            die(s.error)
        inconc += s.inconclusive
        job_s[jobname(s.job)] = round(job_s.get(jobname(s.job), 0) + s.secs, 1)
        for r in s.records:
            if r.get('t') == 'stats':
                evals += r['evals']
                pj = per_job.setdefault(jobname(s.job), 0)
                per_job[jobname(s.job)] = pj + r['evals']
                for k, v in r['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in r['sets'].items():
                    sets.setdefault(k, set()).update(v)
                samples += r['samples'][:1] if len(samples) < 6 else []
            elif r.get('t') == 'violation':
                viol.append((s, r))
    if spec.get('only'):
        # what the results are is for the other properties
        counters['findings that are for other properties'] = sum(not re.match(spec['only'], r['key']) for _, r in viol)
        viol = [(s, r) for s, r in viol if re.match(spec['only'], r['key'])]
    known = load_known(pid)
    new, seen_known = {}, {}
    for s, r in viol:
        jn = jobname(s.job)
        hit = None
        for k in known:
            if k['job'] in (jn, '*') and k['key'] == r['key'] and (k['note'] == '*' or k['note'] == r.get('note', '')):
                hit = k
                break
        if hit:
            seen_known[(hit['job'], hit['key'], hit['note'])] = hit
        else:
            new.setdefault((jn, r['key']), (s, r, []))[2].append(r['case'])
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    nontriv = len(sets.get('nontrivial', ()))
    cov = dict(evaluations=evals, distinct_nontrivial=nontriv, rule=spec['rule'], samples=samples[:6],
               evaluations_per_job=per_job, worker_seconds_per_job=job_s,
               monitors={k: v for k, v in sorted(counters.items())},
               distinct={k: len(v) for k, v in sorted(sets.items())},
               inconclusive_cases=inconc, build_s=round(tb, 1),
               known_findings_seen=len(seen_known))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'exploration'), coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.json.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    rc = 0
    rdir = os.path.join(HERE, 'build', 'replay')
    for (jn, key), (s, r, cases) in sorted(new.items()):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.sha256((jn + key).encode()).hexdigest()[:10]))
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, job=jn, src=s.job['src'], variant=s.job['variant'], mode=s.job.get('mode', ''),
                           omp=s.job.get('omp', 1), seed=s.seed, tier=tier, case=r['case'], start=r.get('from', r['case']),
                           stride=s.stride, key=key,
                           other_cases=sorted(cases)[:50], detail=r['detail'], note=r.get('note', '')), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  job=%s key=%s cases=%d first=%s note=%s' % (jn, key, len(cases), r['case'], r.get('note', '')[:300]))
        print('  ' + r['detail'][:700].replace('\n', '\n  '))
        rc = 1
    if not rc:
        low = spec.get('min_evals', 1)
        if evals < low or nontriv < 1:
            die('observed too little: %d evaluations, %d distinct non-trivial cases' % (evals, nontriv))
        if inconc > max(3, evals // 20):
            die('%d cases were inconclusive' % inconc)
    print('%s %s: %s; %d evaluations, %d distinct non-trivial, %d inconclusive, %.1fs (build %.1fs)' % (
        pid, tier, 'VIOLATED' if rc else 'held on everything explored', evals, nontriv, inconc, time.time() - t0, tb))
    return rc


def jobname(j):
    return '%s/%s%s' % (os.path.basename(j['src']).rsplit('.', 1)[0], j['variant'], ('/' + j['mode']) if j.get('mode') else '')


def replay(path):
    r = json.load(open(path))
    th = tree_hash([REPO + '/lib', REPO + '/app', HERE + '/harness', HERE + '/shim'])
    spec = SPECS[r['property']]
    tools = []
    for j in spec['jobs']:
        if jobname(j) == r['job']:
            tools = j.get('tools', [])
            env_extra = j.get('env', {})
            wrap = j.get('wrap', [])
            break
    bins = build({(r['src'], r['variant'])} | {tuple(t) for t in tools}, os.path.join(HERE, 'build'), th)
    env = dict(ENV, OMP_NUM_THREADS=str(r['omp']), VF_TIER=r['tier'], **env_extra)
    for x in tools:
        env['VF_TOOL_' + re.sub(r'[^A-Za-z0-9]+', '_', os.path.basename(x[0])).upper() + '_' + x[1].upper().replace('-', '_')] = bins[tuple(x)]
    sc = tempfile.mkdtemp(prefix='vf-replay-')
    # an interleaving depends a little on the cases before it in the process
    first, count = r['case'], 1
    if r['variant'].endswith('-sched'):
        first, count = r['start'], (r['case'] - r['start']) // r['stride'] + 1
    cmd = wrap + [bins[(r['src'], r['variant'])], '--seed', str(r['seed']), '--start', str(first), '--stride', str(r['stride']), '--count', str(count),
           '--tier', r['tier'], '--scratch', sc, '-v', '--limit', '300'] + (['--mode', r['mode']] if r['mode'] else [])
    print(' '.join(cmd))
    rc = subprocess.call(cmd, env=env, cwd=sc)
    shutil.rmtree(sc, ignore_errors=True)
    print('exit', rc)
    return 0


if __name__ == '__main__':
    main()
