#!/usr/bin/env python3
"""Runs harness cases in parallel, attributes crashes to cases, writes evidence.

Verdicts: exit 0 = held on everything explored, exit 1 + VIOLATION line =
violated, anything else = the check itself failed (build error, no coverage).
"""
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import jppbuild  # noqa: E402

KNOWN = os.path.join(VERIF, 'known-findings.txt')
REPLAYS = os.path.join(VERIF, 'replays')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
SOFT_DEADLINE = {'quick': 420, 'thorough': 5400}
CASE_WALL = 60      # a case without progress for that long is re-run alone
CASE_CPU = 40       # ... and has to burn that much CPU to count as a hang


class HarnessError(Exception):
    pass


def san_env(variant, extra=None):
    env = dict(os.environ)
    env.update({
        'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:'
                        'halt_on_error=1:hard_rss_limit_mb=6000:'
                        'max_allocation_size_mb=4000:'
                        'detect_stack_use_after_return=0:'
                        'strict_string_checks=0:handle_abort=1:'
                        'symbolize=1:allocator_may_return_null=0',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
        'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:history_size=4:'
                        'second_deadlock_stack=1',
        'LC_ALL': 'C.UTF-8',
        'VERIF_DATA': os.path.join(VERIF, 'data'),
    })
    for k in ('HOME',):
        env[k] = '/nonexistent'
    for k, v in (extra or {}).items():
        if k.startswith('+'):
            env[k[1:]] += ':' + v
        else:
            env[k] = v
    return env


FRAME = re.compile(r'^\s*#(\d+) 0x[0-9a-f]+ in (.+?) (/\S+?:\d+|\(\S+\+0x)')


def strip_fn(fn):
    """function name without template arguments and parameters"""
    prev = None
    while prev != fn:
        prev = fn
        fn = re.sub(r'<[^<>]*>', '', fn)
    while prev != fn or '(' in fn:
        prev = fn
        fn = re.sub(r'\([^()]*\)', '', fn)
        if prev == fn:
            break
    fn = re.sub(r'\b(const|void|bool|int|auto|static)\b', '', fn)
    return re.sub(r'\s+', ' ', fn).strip().split(' ')[-1]


def frames_of(text):
    res = []
    for line in text.splitlines():
        m = FRAME.match(line)
        if m:
            res.append((int(m.group(1)), m.group(2), m.group(3)))
    return res


def crash_key(text, rc):
    kind = None
    m = re.search(r'(?:ERROR|WARNING): (Address|Thread|Leak)Sanitizer: '
                  r'([^\n(]+?)(?: on | \(|:|$)', text, re.M)
    if m:
        kind = re.sub(r'0x[0-9a-f]+', 'N', m.group(2).strip()).replace(' ', '-')
        if kind.startswith('attempting'):
            kind = 'bad-free'
    else:
        m = re.search(r'runtime error: ([^\n]+)', text)
        if m:
            t = m.group(1)
            t = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', t)
            t = re.sub(r"'[^']*'", 'T', t)
            kind = 'ub:' + '-'.join(t.split()[:6])
    m = re.search(r'^==\d+== (Conditional jump|Use of uninit|Invalid read|'
                  r'Invalid write|Syscall param|Invalid free|Source and)',
                  text, re.M)
    if kind is None and m:
        kind = 'memcheck:' + m.group(1).replace(' ', '-')
        f = re.search(r'(?:at|by) 0x[0-9A-F]+: (jumanpp::[^(]+)', text[m.end():])
        return kind + ('@' + strip_fn(f.group(1)) if f else '')
    if kind is None:
        if 'terminate called' in text or 'uncaught exception' in text:
            m = re.search(r"instance of '([^']+)'|of type ([^\s:]+)", text)
            kind = 'uncaught:' + ((m.group(1) or m.group(2)) if m else '?')
        elif rc is not None and rc < 0:
            kind = 'signal-%d' % -rc
        else:
            kind = 'exit-%s' % rc
    where = ''
    seen0 = False
    for n, fn, loc in frames_of(text):
        if n == 0:
            if seen0 and where:
                break
            seen0 = True
        if jppbuild.SRC in loc or '/gen/' in loc:
            where = strip_fn(fn)
            break
    return 'crash:%s@%s' % (kind, where)


class Job:
    """One harness mode to run over a number of cases."""

    def __init__(self, harness, mode, quick, thorough, variant='asan',
                 step_env=None, min_cases=1, workers=None, wrap=()):
        self.harness, self.mode = harness, mode
        self.n = {'quick': quick, 'thorough': thorough}
        self.variant = variant
        self.env = step_env
        self.min_cases = min_cases
        self.workers = workers
        self.wrap = list(wrap)


class Outcome:
    def __init__(self):
        self.viols = []       # dicts key, case, detail, harness, mode
        self.stats = {}
        self.distinct = set()
        self.samples = []
        self.inconclusive = []
        self.digests = {}
        self.lock = threading.Lock()

    def viol(self, key, detail, **kw):
        with self.lock:
            d = dict(key=key, detail=detail)
            d.update(kw)
            self.viols.append(d)

    def stat(self, name, n=1):
        with self.lock:
            self.stats[name] = self.stats.get(name, 0) + n

    def seen(self, h):
        with self.lock:
            self.distinct.add(h)


def read_progress(path):
    try:
        with open(path, 'rb') as f:
            cur, done = struct.unpack('qq', f.read(16))
            return cur, done
    except (OSError, struct.error):
        return -1, 0


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cpu_limits(sec):
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (sec, sec + 5))
    return f


class Runner:
    def __init__(self, tier, seed, out, scratch):
        self.tier, self.seed, self.out = tier, seed, out
        self.scratch = scratch
        self.t0 = time.time()

    def cmd(self, binary, job, frm, to, step, prog, tmp):
        c = job.wrap + [binary, '--mode', job.mode, '--seed', str(self.seed), '--from',
             str(frm), '--to', str(to), '--step', str(step), '--tmp', tmp]
        if prog:
            c += ['--progress', prog]
        if self.tier == 'thorough':
            c.append('--thorough')
        return c

    def parse(self, text, job):
        done = False
        for line in text.splitlines():
            p = line.split('\t')
            if p[0] == 'VIOL' and len(p) >= 4:
                self.out.viol(p[1], p[3], case=int(p[2]), harness=job.harness,
                              mode=job.mode, variant=job.variant)
            elif p[0] == 'STAT' and len(p) == 3:
                self.out.stat(p[1], int(p[2]))
            elif p[0] == 'D' and len(p) == 2:
                self.out.seen(job.mode + p[1])
            elif p[0] == 'X' and len(p) == 3:
                with self.out.lock:
                    self.out.digests.setdefault(
                        (job.harness, job.mode, int(p[1])), {})[p[2]] = (
                            job.variant, str(job.env))
            elif p[0] == 'SAMPLE' and len(p) >= 3:
                with self.out.lock:
                    if len(self.out.samples) < 12:
                        self.out.samples.append({'mode': job.mode, 'case':
                                                 int(p[1]), 'text': p[2]})
            elif p[0] == 'DONE':
                done = True
        return done

    def single(self, binary, job, case):
        """Re-runs one case alone. Returns (status, key, text)."""
        tmp = tempfile.mkdtemp(dir=self.scratch)
        try:
            p = subprocess.Popen(
                self.cmd(binary, job, case, case + 1, 1, None, tmp),
                stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                env=san_env(job.variant, job.env),
                preexec_fn=cpu_limits(CASE_CPU), start_new_session=True)
            try:
                so, se = p.communicate(timeout=CASE_CPU * 4)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                return 'blocked', 'hang:blocked', ''
            so = so.decode('utf-8', 'replace')
            se = se.decode('utf-8', 'replace')
            if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
                return 'hang', 'hang:%s' % job.mode, se
            if '\nDONE' in '\n' + so:
                return 'ok', None, so
            return 'crash', crash_key(se, p.returncode), se
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def worker(self, binary, job, w, nw, total):
        frm = w
        crashes = 0
        tmp = tempfile.mkdtemp(dir=self.scratch)
        while frm < total:
            if time.time() - self.t0 > SOFT_DEADLINE[self.tier]:
                self.out.stat('cases_not_run_deadline', (total - frm) // nw)
                break
            prog = os.path.join(tmp, 'progress')
            if os.path.exists(prog):
                os.unlink(prog)
            so = open(os.path.join(tmp, 'stdout'), 'w+b')
            se = open(os.path.join(tmp, 'stderr'), 'w+b')
            wtmp = os.path.join(tmp, 'w')
            shutil.rmtree(wtmp, ignore_errors=True)
            os.mkdir(wtmp)
            p = subprocess.Popen(
                self.cmd(binary, job, frm, total, nw, prog, wtmp), stdout=so,
                stderr=se, env=san_env(job.variant, job.env),
                preexec_fn=limits, start_new_session=True)
            last, last_t, hung, cut = None, time.time(), False, False
            while True:
                try:
                    p.wait(timeout=0.05 if last is None else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = read_progress(prog)
                if cur != last:
                    last, last_t = cur, time.time()
                elif time.time() - last_t > CASE_WALL:
                    hung = True
                if time.time() - self.t0 > SOFT_DEADLINE[self.tier]:
                    cut = True
                if hung or cut:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
            so.seek(0)
            se.seek(0)
            sout = so.read().decode('utf-8', 'replace')
            serr = se.read().decode('utf-8', 'replace')
            so.close()
            se.close()
            cur, done = read_progress(prog)
            ok = self.parse(sout, job)
            if ok:
                break
            if cut:
                self.out.stat('cases', done % 256)
                self.out.stat('cases_not_run_deadline',
                              max(0, (total - max(cur, frm)) // nw))
                break
            if cur < 0:
                raise HarnessError('%s %s did not start (rc=%s):\n%s' % (
                    job.harness, job.mode, p.returncode, serr[-3000:]))
            self.out.stat('cases', done % 256 + 1)
            crashes += 1
            st, key, text = self.single(binary, job, cur)
            if st == 'ok':
                self.parse(text, job)
                if hung:
                    self.out.inconclusive.append(
                        'case %d of %s slow once' % (cur, job.mode))
                elif p.returncode == -signal.SIGKILL:
                    self.out.inconclusive.append(
                        'case %d of %s killed' % (cur, job.mode))
                else:
                    # depends on what ran before in the process: still real
                    self.out.viol(crash_key(serr, p.returncode), serr[-6000:],
                                  case=cur, harness=job.harness, frm=frm,
                                  step=nw, mode=job.mode, variant=job.variant)
            elif st == 'blocked':
                self.out.viol(key + ':' + job.mode, 'no progress', case=cur,
                              harness=job.harness, mode=job.mode,
                              variant=job.variant)
            else:
                self.out.viol(key, text[-6000:], case=cur,
                              harness=job.harness, mode=job.mode,
                              variant=job.variant)
            frm = cur + nw
            if st in ('hang', 'blocked'):
                self.out.stat('hangs')
            if crashes >= 8 or self.out.stats.get('hangs', 0) >= 3:
                self.out.stat('cases_not_run_after_crashes',
                              (total - frm) // nw)
                break
        shutil.rmtree(tmp, ignore_errors=True)

    def run_job(self, job, binary):
        total = job.n[self.tier]
        nw = min(job.workers or WORKERS, total)
        before = self.out.stats.get('cases', 0)
        errs = []

        def go(w):
            try:
                self.worker(binary, job, w, nw, total)
            except Exception as e:  # noqa
                errs.append(e)
        ts = [threading.Thread(target=go, args=(w,)) for w in range(nw)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        ran = self.out.stats.get('cases', 0) - before
        self.out.stat('cases_' + job.mode, ran)
        if ran < min(job.min_cases, total) and not self.out.viols:
            raise HarnessError('%s: only %d cases ran' % (job.mode, ran))


def check_digests(out):
    """The same case run in several ways has to give the same results."""
    n = 0
    for (h, mode, case), d in sorted(out.digests.items()):
        n += 1
        if len(d) > 1:
            out.viol('differs:' + mode, 'results of case %d differ: %s' % (
                case, d), case=case, harness=h, mode=mode,
                variant=sorted(d.values())[0][0])
    if n:
        out.stat('compared_digests', n)


def load_known(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def finish(prop, tier, seed, out, rule, assumptions, t0, min_distinct=2):
    """Prints verdict lines, writes evidence, returns the exit status."""
    known = load_known(prop)
    hit, fresh = {}, {}
    for v in out.viols:
        k = v['key'].replace(' ', '_')
        m = [d for (kk, d) in known if kk == k]
        if m:
            hit.setdefault(k, m[0])
        else:
            fresh.setdefault(k, []).append(v)
    os.makedirs(REPLAYS, exist_ok=True)
    lines = []
    for i, (k, vs) in enumerate(sorted(fresh.items())):
        if i >= 5:
            break
        path = os.path.join(REPLAYS, '%s-%s-%d.json' % (prop, tier, i))
        v = vs[0]
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'count': len(vs), 'violation': v,
                       'how': './check --replay ' + path}, f, indent=1,
                      ensure_ascii=False)
        sys.stderr.write('[%s] %s: case %s: %s\n' % (
            prop, k, v.get('case'), str(v['detail'])[:1200]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    cov = {
        'evaluations': int(out.stats.get('cases', 0)),
        'distinct_nontrivial': len(out.distinct),
        'rule': rule,
        'samples': out.samples or ['(none)'],
        'observed': dict(sorted(out.stats.items())),
        'inconclusive': out.inconclusive,
        'known_findings_seen': sorted(hit),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': sum(len(v) for v in fresh.values())}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k, d in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, d))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    if lines:
        return 1
    if len(out.distinct) < min_distinct:
        sys.stderr.write('[%s] observed nothing\n' % prop)
        return 3
    return 0
