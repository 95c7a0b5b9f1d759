#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property.

usage: check.py ID [quick|thorough] | check.py --replay FILE | check.py --selftest
exit 0: held on everything observed; 1: violation (VIOLATION line); 2: inconclusive / harness error
"""
import hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS, RULES, DEEPER  # noqa: E402

BASE = ['-std=c++14', '-g1', '-pthread', '-Wall', '-Wno-unused', '-w',
        '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
FLAVOURS = {
    'san': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'fast': ['-O2'],
}
ENV = dict(os.environ)
ENV.update({
    'VF_REPO': REPO,
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:hard_rss_limit_mb=3500:'
                    'detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1',
})
HANG_S = float(os.environ.get('VF_HANG_S', '40'))


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    fp = os.path.join(d, f)
                    h.update(fp.encode())
                    with open(fp, 'rb') as fh:
                        h.update(fh.read())
        else:
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def build(src, flavour, extra=()):
    """Builds harness/src (or a repo source) against the working tree."""
    path = src if src.startswith('/') else os.path.join(VERIF, 'harness', src)
    flags = BASE + FLAVOURS[flavour] + list(extra)
    key = tree_hash([os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')])
    key += hashlib.sha256(' '.join(flags + [path, REPO]).encode()).hexdigest()[:12]
    bdir = os.path.join(VERIF, 'build')
    os.makedirs(bdir, exist_ok=True)
    name = re.sub(r'\W', '_', os.path.basename(src)) + '_' + flavour + '_' + hashlib.sha256(' '.join(extra).encode()).hexdigest()[:6]
    exe = os.path.join(bdir, name + '_' + key)
    if os.path.exists(exe):
        return exe
    for f in os.listdir(bdir):
        if f.startswith(name + '_'):
            try:
                os.unlink(os.path.join(bdir, f))
            except OSError:
                pass
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['g++'] + flags + ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src'),
                             path, '-o', tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print('BUILD FAILED: ' + ' '.join(cmd))
        print(r.stdout[-6000:])
        sys.exit(2)
    os.rename(tmp, exe)
    return exe


def signature(stderr_text, rc):
    """A stable name for how a process died."""
    t = stderr_text
    m = re.search(r"^\S+: (\S+?):\d+: (.*?): Assertion `(.*?)' failed", t, re.M)
    if m:
        return 'assert:%s:%s' % (os.path.basename(m.group(1)), m.group(3))
    m = re.search(r'(\S+?):\d+:\d+: runtime error: (.*)', t)
    if m:
        msg = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+-]*', 'N', m.group(2))[:90]
        return 'ubsan:%s:%s' % (os.path.basename(m.group(1)), msg)
    m = re.search(r'SUMMARY: (\w+)Sanitizer: (\S+)(.*)', t)
    if m:
        frames = re.findall(r'#\d+ \S+ in (.*?) (/\S*?src/\S+?):\d+', t)
        where = os.path.basename(frames[0][1]) if frames else ''
        return '%ssan:%s:%s' % (m.group(1)[0].lower(), m.group(2), where)
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", t)
    if m:
        return 'terminate:' + m.group(1)
    if 'terminate called' in t:
        return 'terminate'
    if 'hard rss limit exhausted' in t:
        return 'memory-limit'
    if rc < 0:
        return 'signal:%d' % -rc
    return 'exit:%d' % rc


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


class Shard:
    def __init__(self, exe, args, wdir, no, fams):
        self.exe, self.args, self.no, self.fams = exe, args, no, fams
        self.out = os.path.join(wdir, 'out%d' % no)
        self.cur = os.path.join(wdir, 'cur%d' % no)
        self.err = os.path.join(wdir, 'err%d' % no)
        self.wdir = wdir
        self.crashes = 0
        self.done = False
        self.p = None
        self.start([])

    def start(self, more):
        if os.path.exists(self.cur):
            os.unlink(self.cur)
        self.errf = open(self.err, 'wb')
        self.p = subprocess.Popen([self.exe] + self.args + ['--out', self.out, '--cur', self.cur] + more,
                                  stdout=subprocess.DEVNULL, stderr=self.errf, env=ENV, cwd=self.wdir,
                                  stdin=subprocess.DEVNULL, start_new_session=True)
        self.last = None
        self.last_t = time.time()

    def progress(self):
        try:
            with open(self.cur, 'rb') as f:
                b = f.read(24)
            return struct.unpack('QQQ', b) if len(b) == 24 else (0, 0, 0)
        except OSError:
            return (0, 0, 0)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def hang_confirmed(exe, args, fam, idx, wdir):
    """Re-run one case alone, generously; True if it hangs again."""
    try:
        with open(os.path.join(wdir, 'rerun.err'), 'wb') as e:
            subprocess.run([exe] + args + ['--only', '%s:%d' % (fam, idx), '--out', os.path.join(wdir, 'rerun')],
                           stdout=subprocess.DEVNULL, stderr=e, env=ENV, timeout=HANG_S * 1.5, cwd=wdir,
                           stdin=subprocess.DEVNULL)
        return False
    except subprocess.TimeoutExpired:
        return True


def run_harness(exe, tier, seed, wdir, nshards=8, scale=1.0, max_crashes=6):
    fams = [l.split()[0] for l in subprocess.run([exe, '--list'], stdout=subprocess.PIPE, env=ENV,
                                                 text=True, check=True).stdout.splitlines()]
    base = ['--seed', str(seed), '--nshards', str(nshards), '--scale', str(scale)]
    if tier == 'thorough':
        base.append('--thorough')
    shards = [Shard(exe, base + ['--shard', str(i)], wdir, i, fams) for i in range(nshards)]
    viols, problems = [], []
    while not all(s.done for s in shards):
        time.sleep(0.05)
        for s in shards:
            if s.done:
                continue
            rc = s.p.poll()
            if rc is None:
                pr = s.progress()
                if pr != s.last:
                    s.last, s.last_t = pr, time.time()
                elif time.time() - s.last_t > HANG_S:
                    s.kill()
                    if pr[2] == 0:
                        problems.append('shard %d never started a case' % s.no)
                        s.done = True
                        continue
                    fam, idx = fams[pr[0]], pr[1]
                    if hang_confirmed(exe, base, fam, idx, wdir):
                        viols.append(dict(key='hang:' + fam, family=fam, case=idx,
                                          detail='no progress for %ds, twice' % HANG_S))
                        for o in shards:  # every shard is likely to get stuck: no need to wait for each
                            if o is not s and not o.done:
                                o.kill()
                            o.done = True
                        break
                    else:
                        problems.append('case %s:%d slow once' % (fam, idx))
                    s.crashes += 1
                    if s.crashes >= 2:
                        s.done = True
                    else:
                        s.start(['--resume', str(pr[0]), str(pr[1])])
                continue
            s.errf.close()
            finished = False
            if rc == 0 and os.path.exists(s.out):
                with open(s.out) as f:
                    lines = f.read().splitlines()
                finished = bool(lines) and lines[-1].startswith('{"done"')
            if finished:
                s.done = True
                continue
            with open(s.err, errors='replace') as f:
                text = f.read()
            pr = s.progress()
            if pr[2] == 0:
                problems.append('shard %d died before any case (rc %d): %s' % (s.no, rc, text[-500:]))
                s.done = True
                continue
            fam, idx = fams[pr[0]], pr[1]
            if rc == -9 and 'Sanitizer' not in text:
                problems.append('shard %d was killed (out of memory?) at %s:%d' % (s.no, fam, idx))
                s.done = True
                continue
            viols.append(dict(key='crash:%s:%s' % (fam, signature(text, rc).replace(' ', '_')), family=fam, case=idx,
                              detail=text[:4000]))
            s.crashes += 1
            if s.crashes >= max_crashes:
                s.done = True
            else:
                s.start(['--resume', str(pr[0]), str(pr[1])])
    res = dict(evals=0, counters={}, required={}, samples=[], distinct=0, viols=viols, problems=problems)
    dist = set()
    for s in shards:
        if os.path.exists(s.out):
            for line in open(s.out):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if 'violation' in o:
                    viols.append(o['violation'])
                elif 'done' in o:
                    d = o['done']
                    res['evals'] += d['evals']
                    for k, v in d['counters'].items():
                        res['counters'][k] = res['counters'].get(k, 0) + v
                    res['required'].update(d['required'])
                    res['samples'] += d['samples']
        if os.path.exists(s.out + '.dist'):
            b = open(s.out + '.dist', 'rb').read()
            dist.update(struct.unpack('%dQ' % (len(b) // 8), b))
    res['distinct'] = len(dist)
    return res


def main():
    if sys.argv[1:2] == ['--selftest']:
        for tool in ('g++', 'python3'):
            assert shutil.which(tool), tool
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        print('ok: %d checks' % len(CHECKS))
        return 0
    if sys.argv[1:2] == ['--replay']:
        r = json.load(open(sys.argv[2]))
        exe = build(r['source'], r['flavour'], r.get('extra', []))
        cmd = [exe, '--seed', str(r['seed']), '--only', '%s:%d' % (r['family'], r['case'])]
        if r['tier'] == 'thorough':
            cmd.append('--thorough')
        print(' '.join(cmd))
        return subprocess.run(cmd, env=ENV).returncode
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[pid]
    t0 = time.time()
    wroot = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return run_check(pid, chk, tier, seed, t0, wroot)
    finally:
        shutil.rmtree(wroot, ignore_errors=True)


def run_check(pid, chk, tier, seed, t0, wroot):
    parts = chk['parts']
    if parts and len(parts) > 1:  # compile in parallel
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            exes = list(ex.map(lambda a: build(a['source'], a.get('flavour', 'san'), a.get('extra', [])), parts))
    else:
        exes = [build(a['source'], a.get('flavour', 'san'), a.get('extra', [])) for a in parts]
    t_build = time.time() - t0
    tot = dict(evals=0, distinct=0, counters={}, samples=[])
    viols, problems = [], []
    for i, (a, exe) in enumerate(zip(parts, exes)):
        wdir = os.path.join(wroot, 'p%d' % i)
        os.makedirs(wdir)
        r = run_harness(exe, tier, seed, wdir, nshards=a.get('nshards', 8),
                        scale=float(os.environ.get('VF_SCALE', '1')) * (DEEPER.get(pid, 1) if tier == 'quick' else 1))
        for v in r['viols']:
            v['source'], v['flavour'], v['extra'] = a['source'], a.get('flavour', 'san'), a.get('extra', [])
        viols += r['viols']
        problems += r['problems']
        tot['evals'] += r['evals']
        tot['distinct'] += r['distinct']
        tot['samples'] += r['samples']
        for k, v in r['counters'].items():
            tot['counters'][k] = tot['counters'].get(k, 0) + v
        if not r['viols']:
            for k, v in r['required'].items():
                if r['counters'].get(k, 0) < v and 'VF_SCALE' not in os.environ:
                    problems.append('too few events: %s = %d, expected at least %d' % (k, r['counters'].get(k, 0), v))
    if 'extra_run' in chk:  # python-driven part (tools, processes)
        import importlib
        mod = importlib.import_module(chk['extra_run'])
        r = mod.run(sys.modules[__name__], tier, seed, os.path.join(wroot, 'x'))
        viols += r['viols']
        problems += r['problems']
        tot['evals'] += r['evals']
        tot['distinct'] += r['distinct']
        tot['samples'] += r['samples']
        for k, v in r['counters'].items():
            tot['counters'][k] = tot['counters'].get(k, 0) + v
    known = known_findings(pid)
    fresh, hit_known = [], {}
    for v in viols:
        for rx, what in known:
            if rx.search(v['key']):
                hit_known[what] = hit_known.get(what, 0) + 1
                break
        else:
            fresh.append(v)
    for rx, what in known:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (pid, what, hit_known.get(what, 0)))
    seen, replays = set(), []
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for v in fresh:
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        path = os.path.join(rdir, '%s_%s.json' % (pid, hashlib.sha256(v['key'].encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1)
        replays.append((v, path))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=tot['evals'], distinct_nontrivial=tot['distinct'], rule=RULES[pid],
                            samples=tot['samples'][:8] or ['none'], monitored_events=tot['counters'],
                            known_findings_hit=hit_known, problems=problems,
                            build_s=round(t_build, 1)),
              wall_s=round(time.time() - t0, 2), violations=[
                  dict(key=v['key'], replay=p, detail=v['detail'][:500]) for v, p in replays])
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d evaluations, %d distinct, build %.1fs, total %.1fs' % (
        pid, tier, seed, tot['evals'], tot['distinct'], t_build, time.time() - t0))
    print('events: ' + ', '.join('%s=%d' % kv for kv in sorted(tot['counters'].items())))
    for v, path in replays:
        print('  %s  [%s:%s] %s' % (v['key'], v['family'], v['case'], v['detail'][:int(os.environ.get('VF_DETAIL', '700'))]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if replays:
        return 1
    if problems:
        print('INCONCLUSIVE: ' + '; '.join(problems[:10]))
        return 2
    if tot['evals'] == 0:
        print('INCONCLUSIVE: nothing evaluated')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
