"""Drives the command line programs (built with sanitizers) as processes."""
import concurrent.futures
import csv
import difflib
import hashlib
import os
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import threading

from driver import HarnessError, WORKERS, VERIF, crash_key, san_env

WALL = 120
DATA = os.path.join(VERIF, 'data')


class Proc:
    def __init__(self, rc, out, err, hung=False):
        self.rc, self.out, self.err, self.hung = rc, out, err, hung

    def crashed(self):
        return (self.hung or self.rc in (99, 66, 98, 86) or self.rc < 0 or
                b'runtime error: ' in self.err or b'Sanitizer' in self.err)

    def key(self):
        if self.hung:
            return 'hang'
        return crash_key(self.err.decode('utf-8', 'replace'), self.rc)


def run(cmd, stdin=b'', cwd=None, env=None, wall=WALL, chunks=None,
        pass_fds=()):
    e = san_env('asan')
    e.update(env or {})
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=e,
                         start_new_session=True)
    try:
        if chunks:
            try:
                for c in chunks:
                    p.stdin.write(c)
                    p.stdin.flush()
            except BrokenPipeError:
                pass
            o, er = p.communicate(timeout=wall)
        else:
            o, er = p.communicate(stdin, timeout=wall)
        return Proc(p.returncode, o, er)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, er = p.communicate()
        return Proc(-9, o, er, True)


def parallel(fn, items, runner, soft):
    """fn(item) for all items; stops at the soft deadline."""
    import time
    done = [0]
    errs = []
    it = iter(items)
    lock = threading.Lock()

    def go():
        while not errs:
            with lock:
                x = next(it, None)
            if x is None or time.time() - runner.t0 > soft:
                return
            try:
                fn(x)
            except Exception as e:  # noqa
                errs.append(e)
                return
            with lock:
                done[0] += 1
    ts = [threading.Thread(target=go) for _ in range(WORKERS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return done[0]


def make_model(bins, scratch):
    """The model that the programs of the tree make from the test data."""
    b = bins['asan']
    seed = os.path.join(scratch, 'mini.seed')
    model = os.path.join(scratch, 'mini.model')
    for cmd in ([b['jpp_jumandic_bootstrap'], os.path.join(DATA, 'mini.mdic'),
                 seed],
                [b['jumanpp_v2_train'], '--model-input=' + seed,
                 '--model-output=' + model, '--corpus=' + os.path.join(
                     DATA, 'train_mini_01.txt'), '--size=15', '--beam=5',
                 '--batch=5', '--max-epochs=3']):
        p = run(cmd)
        if p.rc != 0 or p.crashed():
            raise HarnessError('%s failed: rc=%s %s' % (
                cmd[0], p.rc, p.err.decode('utf-8', 'replace')[-2000:]))
    return seed, model


def words():
    res = []
    for line in open(os.path.join(DATA, 'mini.mdic'), encoding='utf-8'):
        w = line.split(',')[0].strip('"')
        if w and len(w) < 12:
            res.append(w)
    return res


HOSTILE = [
    b'\xff\xfe', b'\xe3\x81', b'\xc0\xaf', b'\xed\xa0\x80abc',
    b'\xf4\x90\x80\x80', b'\x80', 'あ'.encode() + b'\xe3',
]


def exact(rng, ws, n):
    """a line of exactly n bytes"""
    res = b''
    while len(res) < n - 60:
        res += rng.choice(ws).encode() + '、'.encode()
    rest = n - len(res)
    return res + '。'.encode() * (rest // 3) + b'.' * (rest % 3)


def line_pool(rng):
    """(bytes, kind) of sentence lines"""
    ws = words()
    pool = []
    for _ in range(60):
        s = ''.join(rng.choice(ws) for _ in range(rng.randint(1, 12)))
        pool.append((s.encode(), 'ok'))
    for _ in range(24):
        s = ''.join(rng.choice(ws + ['ー', 'カタカナ', 'abc', '123', '、', ' ',
                                     '　', '１２', '漢', '\t', '"', '&', '\\',
                                     '<', 'ｱ', '𠮷', '\u0301', '・', '。'])
                    for _ in range(rng.randint(1, 10)))
        pool.append((s.encode(), 'ok'))
    pool += [(b'', 'ok'), (b'#', 'ok'), (b'#a', 'ok'), (b' ', 'ok'),
             (b'EOS', 'ok'), (b'# ' [:1] + b'# x', 'ok'), (b'a\rb', 'ok'),
             ('行\r'.encode(), 'ok'), (b'a\x00b', 'ok'), (b'\x00', 'ok'),
             (' # x'.encode(), 'ok'), (exact(rng, ws, 4096), 'ok'),
             (exact(rng, ws, 4097), 'bad')]
    for h in HOSTILE:
        pool.append((h, 'bad'))
        pool.append((rng.choice(ws).encode() + h + rng.choice(ws).encode(),
                     'bad'))
    pool += [('あ'.encode() * 1366, 'bad'), (b'a' * 4097, 'bad'),
             (b'a' * 65535, 'bad'), (b'a' * 65536, 'bad'),
             ('漢'.encode() * 30000, 'bad'), (b'b' * 300000, 'bad')]
    return [p for p in pool if not (len(p[0]) > 2 and p[0][:2] == b'# ')]


COMMENTS = [b'# c1', '# S-ID:日本-1 note'.encode(), b'# \t tab  ', b'#  x',
            b'# ' + b'k' * 1022, b'# # nested', b'# EOS']
BAD_COMMENTS = [b'# ' + b'k' * 1023, b'# ' + b'z' * 70000]
FORMATS = [['-j'], [], ['-M'], ['-F'], ['-L', '3'], ['--lattice=1'],
           ['--segment'], ['--segment', '--segment-separator=_'],
           ['-L', '4', '--beam=7', '--global-beam=0'],
           ['--format=juman', '--auto-nbest=2:3:9']]


def placeholder(fmt):
    if '--segment' in fmt or '-M' in fmt or '-F' in fmt:
        return b'# ERROR\n'
    return b'# ERROR\nEOS\n'


def c14(runner, out, bins):
    exe = bins['asan']['jumanpp_v2']
    _, model = make_model(bins, runner.scratch)
    rng = random.Random(runner.seed)
    pool = line_pool(rng)
    kinds = dict(pool)
    memo = {}
    mlock = threading.Lock()
    total = 900 if runner.tier == 'quick' else 40000

    def viol(key, case, detail, p=None):
        if p is not None:
            detail += '\nstderr: ' + p.err.decode('utf-8', 'replace')[-2500:]
        out.viol(key, detail[:9000], case=case, mode='c14')

    def single(fmt, comment, line, case):
        """Result of the program for this sentence alone."""
        k = (tuple(fmt), comment, line)
        with mlock:
            if k in memo:
                return memo[k]
        inp = (comment + b'\n' if comment else b'') + line + b'\n'
        p = run([exe, '--model=' + model] + fmt, inp)
        out.stat('single_runs')
        what = 'format %s comment %r line %r gave %r' % (
            fmt, comment, line[:100], p.out[:600])
        if p.crashed():
            viol(p.key(), case, what, p)
        bad = kinds[line] == 'bad' or (comment or b'') in BAD_COMMENTS
        if bad:
            out.stat('unanalysable_lines')
            if p.out != placeholder(fmt):
                viol('no-placeholder:' + fmt[0] if fmt else 'no-placeholder',
                     case, what, p)
            if not p.err.strip():
                viol('no-message', case, what)
        else:
            out.stat('analysable_lines')
            if p.err.strip():
                viol('message-for-good-line', case, what, p)
            res = p.out
            if '--segment' in fmt:
                sep = b'_' if '--segment-separator=_' in fmt else b' '
                if res.count(b'\n') != 1 or not res.endswith(b'\n'):
                    viol('segment-not-one-line', case, what)
                elif res[:-1].replace(sep, b'') != line.replace(sep, b''):
                    viol('segment-other-text', case, what)
            elif '-M' in fmt or '-F' in fmt:
                if res.count(b'\n') != 1 or not res.endswith(
                        (comment or b'') + b'\n'):
                    viol('morph-lines', case, what)
            else:
                lines = res.split(b'\n')
                if lines[-2:] != [b'EOS', b''] or lines.count(b'EOS') != 1:
                    viol('not-one-eos', case, what)
                has = comment and any(x.startswith(comment)
                                      for x in lines[:2])
                if comment and not has:
                    viol('comment-lost', case, what)
                if not comment and any(x.startswith(b'# ') and not
                                       x.startswith(b'# MA-SCORE')
                                       and line[:1] != b'#'
                                       for x in lines[:1]):
                    viol('comment-from-nowhere', case, what)
        with mlock:
            memo[k] = p.out
        return p.out

    def case(i):
        r = random.Random((runner.seed << 32) ^ i)
        fmt = r.choice(FORMATS)
        nfiles = r.choice([0, 0, 0, 1, 1, 2, 3, 5])
        nrec = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])
        sub = r.sample(pool, 12)
        files, want = [], []
        log = []
        for f in range(max(1, nfiles)):
            data = b''
            n = r.randint(0, nrec)
            pending = None
            last_sentence = False
            for _ in range(n):
                x = r.random()
                if x < 0.2:
                    c = r.choice(COMMENTS if r.random() < 0.93 else
                                 BAD_COMMENTS)
                    data += c + b'\n'
                    pending = c
                    last_sentence = False
                    log.append('c')
                    continue
                line, k = r.choice(sub)
                data += line + b'\n'
                want.append((pending, line))
                pending = None
                last_sentence = True
                log.append(k[0])
            if pending:
                # a comment without a sentence: an empty one follows it
                want.append((pending, b''))
            if data and r.random() < 0.4 and (
                    not last_sentence or want[-1][1]):
                data = data[:-1]   # the last line does not have its end
            files.append(data)
            log.append('|')
        cwd = tempfile.mkdtemp(dir=runner.scratch)
        try:
            cmd = [exe, '--model=' + model] + fmt
            dst = None
            if r.random() < 0.25:
                dst = os.path.join(cwd, 'result')
                cmd += [r.choice(['-o', '--output']), dst]
            inp = b''
            chunks = None
            if nfiles == 0:
                inp = files[0]
                if r.random() < 0.3:
                    n = r.randint(1, 40)
                    cuts = sorted(r.randint(0, len(inp)) for _ in range(n))
                    chunks = [inp[a:b] for a, b in
                              zip([0] + cuts, cuts + [len(inp)])]
            else:
                for j, d in enumerate(files):
                    fn = os.path.join(cwd, 'in %d' % j)
                    with open(fn, 'wb') as f:
                        f.write(d)
                    cmd.append(fn)
                    if r.random() < 0.06:
                        # a file which can not be read is skipped
                        cmd.append(os.path.join(cwd, 'missing')
                                   if r.random() < 0.5 else cwd)
                        out.stat('unreadable_files')
            p = run(cmd, inp, cwd=cwd, chunks=chunks)
            what = 'case %d: %s\ninput %r' % (i, cmd, b"|".join(files)[:500])
            if p.crashed():
                viol(p.key(), i, what, p)
                return
            got = p.out
            if dst:
                if got:
                    viol('stdout-with-output-file', i, what)
                got = open(dst, 'rb').read() if os.path.exists(dst) else None
            exp = b''.join(single(fmt, c, l, i) for c, l in want)
            if got != exp:
                pre = os.path.commonprefix([got or b'', exp])
                viol('other-results:%s' % (fmt[0] if fmt else 'default'), i,
                     what + '\nexpected %d bytes, got %d, differ at %d: '
                     'expected ...%r got ...%r' % (
                         len(exp), len(got or b''), len(pre),
                         exp[max(0, len(pre) - 60):len(pre) + 200],
                         (got or b'')[max(0, len(pre) - 60):len(pre) + 200]),
                     p)
            out.stat('cases')
            out.stat('sentences', len(want))
            out.stat('files', nfiles)
            out.stat('comments', sum(1 for c, _ in want if c))
            if want:
                out.seen(hashlib.sha1(repr((fmt, want, nfiles)).encode())
                         .hexdigest()[:16])
            if len(out.samples) < 6:
                out.samples.append({'case': i, 'fmt': fmt,
                                    'records': ''.join(log)})
        finally:
            shutil.rmtree(cwd, ignore_errors=True)

    # partially annotated input: examples separated by empty lines
    ws = words()
    blocks = [(b'', 'ok')]
    for _ in range(60):
        b = []
        if rng.random() < 0.3:
            b.append(rng.choice(COMMENTS))
        for _ in range(rng.randint(1, 5)):
            w = rng.choice(ws)
            x = rng.random()
            if x < 0.4:
                b.append(''.join(rng.choice(ws) for _ in range(
                    rng.randint(1, 4))).encode())
            elif x < 0.5:
                b.append((w[0] + '&' + w[1:] + '&' + rng.choice(ws)).encode())
            elif x < 0.8:
                b.append(('\t' + w).encode())
            else:
                b.append(('\t' + w + '\tpos:' + rng.choice(
                    ['名詞', '動詞', '助詞', '特殊', 'ない'])).encode())
        blocks.append((b'\n'.join(b), 'ok'))
    for h in HOSTILE:
        blocks.append((rng.choice(ws).encode() + h, 'bad'))
    blocks += [(b'\tx\tnofield:x', 'bad'), (b'\tx\tpos', 'bad'),
               ('見る\n\tx\tbad:y\n知る'.encode(), 'bad'),
               (b'\t', 'any'), (b'\t\t\t', 'any'), (b'\tx\t:', 'any'),
               (b'&', 'any'), (b'&&', 'any'), (b'"', 'any'),
               (b'a\x00b', 'any'), (b'\t"x', 'any'),
               ('あ'.encode() * 1400, 'bad')]
    pkinds = dict(blocks)
    pmemo = {}

    def psingle(fmt, block, i):
        k = (tuple(fmt), block)
        with mlock:
            if k in pmemo:
                return pmemo[k]
        p = run([exe, '--model=' + model, '--partial-input'] + fmt,
                block + b'\n\n' if block else b'\n')
        out.stat('single_runs')
        what = 'format %s example %r gave %r' % (fmt, block[:200],
                                                 p.out[:600])
        if p.crashed():
            viol(p.key(), i, what, p)
        bad = pkinds[block] == 'bad' or (pkinds[block] == 'any' and
                                         p.out == placeholder(fmt))
        if pkinds[block] == 'bad' and p.out != placeholder(fmt):
            viol('no-placeholder:partial', i, what, p)
        if bad == (not p.err.strip()):
            viol('messages:partial', i, what, p)
        if not bad:
            ends = b'\n' if '--segment' in fmt or '-M' in fmt or \
                '-F' in fmt else b'EOS\n'
            if not p.out.endswith(ends) or (
                    b'EOS' not in block and ends != b'\n' and
                    p.out.count(ends) != 1) or (
                    ends == b'\n' and p.out.count(ends) != 1):
                viol('not-one-result:partial', i, what, p)
        with mlock:
            pmemo[k] = p.out
        return p.out

    def pcase(i):
        r = random.Random((runner.seed << 32) ^ i ^ 0x9e0000)
        fmt = r.choice(FORMATS)
        nfiles = r.choice([0, 0, 1, 2, 3])
        sub = r.sample(blocks, 10)
        files, want = [], []
        for f in range(max(1, nfiles)):
            data = b''
            block = b''
            for _ in range(r.choice([0, 1, 2, 5, 12])):
                block = r.choice(sub)[0]
                data += block + b'\n\n' if block else b'\n'
                want.append(block)
            if block:
                # the last example does not need an empty line
                data = data[:len(data) - r.choice([0, 0, 1, 2])]
            files.append(data)
        cwd = tempfile.mkdtemp(dir=runner.scratch)
        try:
            cmd = [exe, '--model=' + model, '--partial-input'] + fmt
            for j, d in enumerate(files if nfiles else []):
                fn = os.path.join(cwd, 'in%d' % j)
                with open(fn, 'wb') as f:
                    f.write(d)
                cmd.append(fn)
            p = run(cmd, files[0] if nfiles == 0 else b'', cwd=cwd)
            what = 'partial case %d: %s\ninput %r' % (
                i, cmd, b'|'.join(files)[:1500])
            if p.crashed():
                viol(p.key(), i, what, p)
                return
            exp = b''.join(psingle(fmt, b, i) for b in want)
            if p.out != exp:
                viol('other-results:partial', i, what + '\nexpected %r got %r'
                     % (exp[:1500], p.out[:1500]), p)
            out.stat('cases')
            out.stat('partial_examples', len(want))
            if want:
                out.seen(hashlib.sha1(repr((fmt, want, nfiles)).encode())
                         .hexdigest()[:16])
        finally:
            shutil.rmtree(cwd, ignore_errors=True)

    from driver import SOFT_DEADLINE
    m = parallel(pcase, range(total // 2), runner, SOFT_DEADLINE[runner.tier])
    n = parallel(case, range(total), runner, SOFT_DEADLINE[runner.tier])
    sys.stderr.write('[C14] %d of %d streams, %d single runs, %d violations\n'
                     % (n, total, out.stats.get('single_runs', 0),
                        len(out.viols)))
    if (n < 60 or m < 30) and not out.viols:
        raise HarnessError('only %d streams ran' % n)


def c23(runner, out, bins):
    exe = bins['asan']['jumanpp_v2']
    seedm, model = make_model(bins, runner.scratch)
    rng = random.Random(runner.seed + 23)
    total = 450 if runner.tier == 'quick' else 15000
    ws = words()
    sents = [''.join(rng.choice(ws) for _ in range(rng.randint(3, 12)))
             for _ in range(12)]
    stdin = ('\n'.join(sents) + '\n').encode()
    scratch = runner.scratch
    home = os.path.join(scratch, 'home0')
    os.makedirs(home)
    junk = os.path.join(scratch, 'junk.model')
    with open(junk, 'wb') as f:
        f.write(bytes(rng.randrange(256) for _ in range(9000)))
    empty = os.path.join(scratch, 'empty.model')
    open(empty, 'wb').close()
    cut = os.path.join(scratch, 'cut.model')
    with open(cut, 'wb') as f:
        f.write(open(model, 'rb').read()[:60000])
    M = '--model=' + model
    # (arguments, kind, text that has to be in stdout)
    fixed = []
    for h in (['-h'], ['--help'], ['--help', M], [M, '-h', '--segment']):
        fixed.append((h, 'info', b''))
    for h in (['--available-formats'], ['--available-formats', M]):
        fixed.append((h, 'info', b'lattice'))
    for h in (['-v'], ['--version'], [M, '-v'], ['--version', M, '--segment'],
              ['-v', '--model=' + junk], ['-v', '--model=/nonexistent/m']):
        fixed.append((h, 'version', b'Juman++ Version: '))
    for h in ([M, '--model-info'], ['--model-info', '-M', M],
              ['--model-info', '--model=' + seedm]):
        fixed.append((h, 'modelinfo', b'Dictionary'))
    fails = [['--model-info', '--model=/nonexistent/m'],
             ['--model-info', '--model=' + junk],
             [], ['--segment'], ['--model=/nonexistent/m'],
             ['--model='], ['--model=' + junk], ['--model=' + empty],
             ['--model=' + cut], ['--model=' + scratch],
             ['--model=' + seedm], ['-c', '/nonexistent/c'],
             ['-c', junk, M], ['--rnn-model=/nonexistent/r', M],
             ['--rnn-model=' + junk, M], [M, '/nonexistent/input'],
             [M, '-o', '/nonexistent/dir/out'], [M, '--right-beam=-3'],
             [M, '--beam=70000']]
    for bad in ('--beam=x', '--beam=', '--beam=3x', '--beam=99999999999',
                '--lattice=q', '--format=nope', '--auto-nbest=3',
                '--auto-nbest=1:2:x', '--nosuch', '-Y', '--rnn-nce-bias=z',
                '--global-beam=1.5', '--segment=1', '--right-check=',
                '--feature-weight-rnn=1,5'):
        fails.append([M, bad])
        fails.append([bad, '--segment', M])
        cfg = os.path.join(scratch, 'bad%d.cfg' % len(fails))
        with open(cfg, 'w') as f:
            f.write('%s\n%s\n' % (M, bad))
        fails.append(['-c', cfg])
    for f in fails:
        fixed.append((f, 'fail', b''))
    # a broken default configuration
    bhome = os.path.join(scratch, 'home1')
    os.makedirs(os.path.join(bhome, '.config', 'jumanpp'))
    with open(os.path.join(bhome, '.config', 'jumanpp', 'jumandic.config'),
              'w') as f:
        f.write(M + ' --beam=x\n')

    def viol(key, case, detail, p=None):
        if p is not None:
            detail += '\nrc %s stdout %r stderr: %s' % (
                p.rc, p.out[:500], p.err.decode('utf-8', 'replace')[-2500:])
        out.viol(key, detail[:9000], case=case, mode='c23')

    def one(x):
        i, (args, kind, text) = x
        cwd = tempfile.mkdtemp(dir=scratch)
        try:
            p = run([exe] + args, stdin, cwd=cwd, env={'HOME': home})
            what = 'command line %s' % args
            if p.crashed():
                viol(p.key(), i, what, p)
                return
            for s in sents:
                if b'EOS\n' in p.out or s.encode() in p.out:
                    viol('analysed:' + kind, i, what, p)
                    break
            if kind == 'fail':
                if p.rc == 0:
                    viol('error-with-zero-status', i, what, p)
                if p.out and '--model-info' not in args:
                    viol('output-before-error', i, what, p)
                if not p.err.strip():
                    viol('error-without-message', i, what, p)
            elif text not in p.out + p.err:
                viol('no-' + kind, i, what, p)
            elif kind == 'info' and not (p.out + p.err).strip():
                viol('no-' + kind, i, what, p)
            elif kind in ('version', 'modelinfo') and p.rc != 0:
                viol('failed-' + kind, i, what, p)
            out.stat('cases')
            out.stat('kind_' + kind)
            out.seen('fixed%d' % i)
        finally:
            shutil.rmtree(cwd, ignore_errors=True)

    from driver import SOFT_DEADLINE
    soft = SOFT_DEADLINE[runner.tier]
    parallel(one, list(enumerate(fixed)), runner, soft)
    p = run([exe, '--segment'], stdin, env={'HOME': bhome})
    if p.crashed():
        viol(p.key(), 0, 'broken default configuration', p)
    elif p.rc == 0 or p.out:
        viol('broken-default-config', 0, 'broken default configuration', p)

    opts = ['beam', 'global-beam', 'right-beam', 'right-check', 'fmt',
            'segment-separator', 'auto']
    FMT = ['-j', '-M', '-F', '--segment', 'L', '--format=lattice-dump',
           '--format=lattice-pb', '--format=juman-pb', '--dic-subset']

    def layer(r):
        d = {}
        for o in opts:
            if r.random() < 0.3:
                if o == 'fmt':
                    d[o] = r.choice(FMT)
                    if d[o] == 'L':
                        d['L'] = r.randint(1, 8)
                elif o == 'segment-separator':
                    d[o] = r.choice(['_', '|', '::', '。'])
                elif o == 'auto':
                    if r.random() < 0.3:
                        d[o] = '%d:%d:%d' % (r.randint(1, 4), r.randint(1, 9),
                                             r.randint(5, 12))
                elif o == 'global-beam':
                    d[o] = r.choice([0, 1, 3, 6])
                elif o == 'right-check':
                    d[o] = r.choice([0, 1, 2])
                else:
                    d[o] = r.randint(1, 8)
        return d

    def spell(d):
        res = []
        for k, v in d.items():
            if k == 'fmt':
                res.append('--lattice=%d' % d['L'] if v == 'L' else v)
            elif k == 'auto':
                res.append('--auto-nbest=' + v)
            elif k != 'L':
                res.append('--%s=%s' % (k, v))
        return res

    def merge(lo, hi):
        """one command line with the same settings"""
        r = {'beam': 5, 'global-beam': 6, 'right-beam': 5, 'right-check': 1,
             'fmt': '-j', 'segment-separator': ' '}
        n = 1
        for l in (lo, hi):
            r.update({k: v for k, v in l.items() if k != 'L'})
            if 'auto' in l:
                a = l['auto'].split(':')
                r['beam'], r['global-beam'] = a[0], a[2]
            n = l.get('L', n)
        step = None
        if 'auto' in r:
            step = r.pop('auto').split(':')[1]
        if r['fmt'] == 'L':
            r['L'] = n
        if step is None:
            r['beam'] = max(int(r['beam']), n)
        else:
            r['auto'] = '%s:%s:%s' % (r.pop('beam'), step,
                                      r.pop('global-beam'))
        res = spell(r)
        if r['fmt'].endswith('-pb') and n != 1:
            res.append('--lattice=%d' % n)   # the number, not the format
        return res

    def layered(i):
        r = random.Random((runner.seed << 32) ^ i ^ 0x23000000)
        lo, hi = layer(r), layer(r)
        cwd = tempfile.mkdtemp(dir=scratch)
        try:
            env = {'HOME': home}
            cmd = [exe]
            where = r.choice(['config', 'global', 'user', 'cli'])
            text = r.choice(['\n', ' ', '\t\n']).join([M] + spell(lo)) + '\n'
            if where == 'config':
                with open(os.path.join(cwd, 'x.cfg'), 'w') as f:
                    f.write(text)
                cmd += ['-c', 'x.cfg']
            elif where == 'global':
                os.mkdir(os.path.join(cwd, 'jpp-global-config'))
                with open(os.path.join(cwd, 'jpp-global-config',
                                       'jumandic.config'), 'w') as f:
                    f.write(text)
            elif where == 'user':
                os.makedirs(os.path.join(cwd, '.config', 'jumanpp'))
                with open(os.path.join(cwd, '.config', 'jumanpp',
                                       'jumandic.config'), 'w') as f:
                    f.write(text)
                env['HOME'] = cwd
            else:
                lo = {}
                cmd += [M]
            inp = '\n'.join(r.choice(sents) for _ in range(
                r.randint(1, 3))).encode()
            a = run(cmd + spell(hi), inp, cwd=cwd, env=env)
            b = run([exe, M] + merge(lo, hi), inp, env={'HOME': home})
            what = 'settings in %s: %s, command line: %s, together: %s' % (
                where, spell(lo), spell(hi), merge(lo, hi))
            for p in (a, b):
                if p.crashed():
                    viol(p.key(), i, what, p)
                    return
            if a.rc != b.rc or a.out != b.out:
                viol('precedence', i, what + '\nsettings together: rc %s %r' %
                     (b.rc, b.out[:800]), a)
            out.stat('cases')
            out.stat('layers_' + where)
            out.stat('rejected' if a.rc else 'analysed')
            out.seen(repr((where, lo, hi)))
        finally:
            shutil.rmtree(cwd, ignore_errors=True)

    n = parallel(layered, range(total), runner, soft)
    sys.stderr.write('[C23] %d fixed command lines, %d of %d layered, '
                     '%d violations\n' % (len(fixed), n, total,
                                          len(out.viols)))
    if n < 40 and not out.viols:
        raise HarnessError('only %d command lines ran' % n)


# ------------------------------------------------------------------ C19

def network(rng, rows, fields, path, sep, eos, unk):
    """files of a random language model over columns of the dictionary"""
    cols = {'surface': 0, 'pos': 4, 'subpos': 5, 'baseform': 8, 'reading': 9}
    words = {}
    for _ in range(rng.randint(5, 120)):
        r = rng.choice(rows)
        w = [r[cols[f]] for f in fields]
        if any(not x or any(c in x for c in (sep, ' ', '\r')) for x in w):
            continue
        words.setdefault(sep.join(w), 0)
    ws = [eos] + [w for w in words if w not in (eos, unk)]
    ws.insert(rng.randint(1, len(ws)), unk)
    layer = rng.randint(1, 24)
    order = rng.randint(1, 4)
    maxent = len(ws) + rng.randint(1, 300)
    n = len(ws) * layer

    def floats(k, scale):
        return struct.pack('<%df' % k, *[
            rng.randint(-64, 64) / 64.0 * scale for _ in range(k)])
    with open(path, 'w', encoding='utf-8') as f:
        for w in ws:
            f.write('%s %d\n' % (w, rng.randint(1, 99)))
    with open(path + '.nnet', 'wb') as f:
        f.write(struct.pack('<QQI?f?64sII', 60000 + layer, maxent, order,
                            True, rng.randint(-90, 90) / 8.0, False,
                            b'sigmoid', 1, 2))
        f.write(floats(n, 2) + floats(n, 2) + floats(layer * layer, 1) +
                floats(maxent, 2))


def c19(runner, out, bins):
    """networks that the programs get as files or embedded into models"""
    exe = bins['asan']['jumanpp_v2']
    train = bins['asan']['jumanpp_v2_train']
    _, model = make_model(bins, runner.scratch)
    ws = words()
    rows = list(csv.reader(open(os.path.join(DATA, 'mini.mdic'),
                                encoding='utf-8')))
    scratch = runner.scratch
    home = os.path.join(scratch, 'home')
    os.makedirs(home)
    env = {'HOME': home}
    total = 40 if runner.tier == 'quick' else 600

    def settings(r, chance):
        res = {}
        for k, lo, hi in (('rnn-nce-bias', -90, 90),
                          ('rnn-unk-constant', -90, 10),
                          ('rnn-unk-length', -40, 10),
                          ('feature-weight-perceptron', 1, 16),
                          ('feature-weight-rnn', 1, 16)):
            if r.random() < chance:
                res[k] = r.randint(lo, hi) / 8.0
        return res

    def spell(d):
        return ['--%s=%s' % x for x in d.items()]

    def viol(key, case, detail):
        out.viol(key, detail[:9000], case=case, mode='c19')

    def one(i):
        r = random.Random((runner.seed << 32) ^ i ^ 0x19000000)
        d = tempfile.mkdtemp(dir=scratch)
        try:
            fields = r.choice([['surface'], ['surface', 'pos'],
                               ['baseform', 'pos', 'subpos'],
                               ['pos', 'surface'], ['baseform'],
                               ['surface', 'reading']])
            sep = r.choice('_,/+')
            eos = r.choice(['</s>', '<eos>'])
            unk = r.choice(['<unk>', '<UNK>'])
            where = ['--rnn-fields=' + ','.join(fields)]
            if sep != '_' or r.random() < 0.3:
                where.append('--rnn-separator=' + sep)
            if eos != '</s>' or r.random() < 0.3:
                where.append('--rnn-eos=' + eos)
            if unk != '<unk>' or r.random() < 0.3:
                where.append('--rnn-unk=' + unk)
            nets = []
            for k in range(2):
                nets.append(os.path.join(d, 'net%d' % k))
                network(r, rows, fields, nets[k], sep, eos, unk)
            base = settings(r, 0.4)
            over = settings(r, 0.3)
            sents = [''.join(r.choice(ws) for _ in range(r.randint(1, 12)))
                     for _ in range(12)]
            stdin = ('\n'.join(sents) + '\n').encode()
            m = []
            for k, src in ((0, model), (1, None)):
                m.append(os.path.join(d, 'm%d.model' % k))
                p = run([train, '--model-input=' + (src or m[0]),
                         '--model-output=' + m[k], '--rnn-model=' + nets[k]] +
                        where + spell(base), cwd=d, env=env)
                if p.crashed() or p.rc != 0:
                    viol(p.key() if p.crashed() else 'embed', i,
                         p.err.decode('utf-8', 'replace')[-1500:])
                    return
            fmt = r.choice([['--lattice=5'], ['-j'], ['--segment'], ['-M']])
            fmt += ['--global-beam=%d' % r.choice([1, 4, 6, 12])]

            def ana(what, args):
                p = run([exe] + fmt + args, stdin, cwd=d, env=env)
                if p.crashed() or p.rc != 0:
                    viol(p.key() if p.crashed() else 'analysis', i,
                         '%s: rc=%s %s' % (what, p.rc, p.err.decode(
                             'utf-8', 'replace')[-1500:]))
                    return None
                return p.out

            both = dict(base)
            both.update(over)
            off = ['--feature-weight-rnn=0']
            for what, left, right in (
                    ('embedded', ['--model=' + m[0]],
                     ['--model=' + model, '--rnn-model=' + nets[0]] + where +
                     spell(base)),
                    ('embedded with settings', ['--model=' + m[0]] +
                     spell(over),
                     ['--model=' + model, '--rnn-model=' + nets[0]] + where +
                     spell(both)),
                    ('embedded twice', ['--model=' + m[1]],
                     ['--model=' + model, '--rnn-model=' + nets[1]] + where +
                     spell(base)),
                    ('replaced', ['--model=' + m[0], '--rnn-model=' + nets[1]]
                     + where + spell(base), ['--model=' + m[1]]),
                    ('switched off', ['--model=' + m[0]] + off,
                     ['--model=' + model])):
                a, b = ana(what, left), ana(what + ' (reference)', right)
                if a is None or b is None:
                    return
                out.stat('comparisons')
                if a != b:
                    diff = '\n'.join(difflib.unified_diff(
                        b.decode('utf-8', 'replace').split('\n'),
                        a.decode('utf-8', 'replace').split('\n'),
                        'reference', what, n=1))
                    viol('cli-differs:' + what, i,
                         ' '.join(fmt + left) + '\n' + ' '.join(right) +
                         '\n' + diff[:2000])
                    return
                out.seen(hashlib.sha1(a).hexdigest())
            out.stat('cases')
            out.stat('networks_embedded')
        finally:
            shutil.rmtree(d, ignore_errors=True)

    from driver import SOFT_DEADLINE
    parallel(one, range(total), runner, SOFT_DEADLINE[runner.tier])


# ------------------------------------------------------------------ C25

TEMPLATES = 8   # rows of the test dictionary which unknown words need


def limited(cmd, kb):
    """cmd can not write files longer than kb kilobytes"""
    return ['bash', '-c', 'trap "" XFSZ; ulimit -f %d; exec "$@"' % kb,
            'x'] + cmd


def c25(runner, out, bins):
    """bootstrap and training: a complete model or a failure"""
    b = bins['asan']
    exe, train = b['jumanpp_v2'], b['jumanpp_v2_train']
    boot = b['jpp_jumandic_bootstrap']
    seed, model = make_model(bins, runner.scratch)
    scratch = runner.scratch
    home = os.path.join(scratch, 'home')
    os.makedirs(home)
    env = {'HOME': home}
    corpus = open(os.path.join(DATA, 'train_mini_01.txt'), 'rb').read()
    lines = corpus.rstrip(b'\n').split(b'\n')
    rows = open(os.path.join(DATA, 'mini.mdic'), 'rb').read()
    # rows of the unknown word templates come first
    rows = rows.rstrip(b'\n').split(b'\n')
    total = 2400 if runner.tier == 'quick' else 30000
    every = csv_rows(rows)

    def viol(key, case, detail):
        out.viol(key, detail[:9000], case=case, mode='c25')

    def content(path):
        try:
            return open(path, 'rb').read()
        except OSError:
            return None

    def usable(path, trained):
        """None or why the model is of no use"""
        if not trained:
            p = run([exe, '--model=' + path, '--model-info'], env=env)
            if p.crashed():
                return 'crash ' + p.key()
            return None if p.rc == 0 else 'rc=%s' % p.rc
        p = run([exe, '--model=' + path], '大阪の田舎で住む\n'.encode(), env=env)
        if p.crashed():
            return 'crash ' + p.key()
        if p.rc != 0 or not p.out.endswith(b'EOS\n') or b'ERROR' in p.out:
            return 'rc=%s %r' % (p.rc, p.out[-200:])
        return None

    def judge(i, what, p, o, before, must, trained):
        """the outcome p of a run which writes to o; must: None, 'ok' or
        'fail'"""
        if p.crashed():
            viol(p.key(), i, what + '\n' + p.err.decode(
                'utf-8', 'replace')[-2500:])
            return False
        tail = (p.out + p.err).decode('utf-8', 'replace')[-1200:]
        if p.rc == 0:
            out.stat('succeeded')
            if must == 'fail':
                viol('accepted:' + what.split(' ')[0], i, what + '\n' + tail)
                return False
            bad = usable(o, trained)
            if bad:
                viol('no-model:' + what.split(' ')[0], i,
                     'status 0, but the model is not usable: %s\n%s\n%s' %
                     (bad, what, tail))
                return False
            return True
        out.stat('failed')
        if must == 'ok':
            viol('rejected:' + what.split(' ')[0], i, what + '\n' + tail)
            return False
        if not (p.out + p.err).strip():
            viol('silent:' + what.split(' ')[0], i, what)
            return False
        after = content(o) if os.path.isfile(o) else None
        if after is not None and after != before:
            out.stat('left_files')
            if usable(o, False) is None:
                viol('left-model:' + what.split(' ')[0], i,
                     'failed, but leaves a model that can be loaded: %s\n%s'
                     % (what, tail))
                return False
        elif before is not None and after != before:
            viol('lost:' + what.split(' ')[0], i, what)
            return False
        return True

    def valid_flags(r):
        f = ['--size=%d' % r.choice([8, 10, 12, 14])]
        if r.random() < 0.5:
            f.append('--beam=%d' % r.randint(1, 8))
        f.append('--batch=%d' % r.choice([1, 2, 5, 7, 1000]))
        f.append('--max-epochs=%d' % r.randint(1, 3))
        if r.random() < 0.3:
            f.append('--training-mode=' + r.choice(
                ['full', 'falloff', 'violation']))
        if r.random() < 0.3:
            f += ['--gb-left-min=2', '--gb-left-max=%d' % r.randint(2, 9)]
            if r.random() < 0.5:
                f += ['--gb-right-min=1', '--gb-right-max=5',
                      '--gb-rcheck-min=1', '--gb-rcheck-max=2']
        if r.random() < 0.3:
            f.append('--seed=%d' % r.randint(0, 1 << 32 - 1))
        if r.random() < 0.3:
            f.append('--max-batch-iters=%d' % r.randint(1, 3))
        f.append('--epsilon=%s' % r.choice(['0', '1e-3', '0.1']))
        return f

    def partial_corpus(r):
        res = []
        for _ in range(r.randint(1, 4)):
            ws = [w.split(b'_') for w in r.choice(lines).split(b' ')]
            ex = []
            for w in ws[:6]:
                if r.random() < 0.5:
                    ex.append(w[0])
                else:
                    ex.append(b'\t' + w[0] + (
                        b'\tpos:' + w[3] if r.random() < 0.5 else b''))
            res.append(b'\n'.join(ex) + b'\n')
        return res

    def put(d, name, data):
        with open(os.path.join(d, name), 'wb') as f:
            f.write(data)
        return os.path.join(d, name)

    TRAIN = ['corpus-missing', 'corpus-directory', 'corpus-quote',
             'corpus-fields', 'corpus-utf8', 'model-missing',
             'model-directory', 'model-text', 'model-cut', 'output-missing',
             'output-directory', 'output-limit', 'output-limit', 'option',
             'positional', 'threads', 'batch', 'beam', 'size', 'number',
             'left', 'right', 'mode', 'partial-missing', 'partial-field',
             'partial-colon', 'partial-utf8', 'partial-first', 'partial-null',
             'rnn-missing', 'rnn-cut', 'rnn-limit']
    BOOT = ['dic-missing', 'dic-directory', 'dic-columns', 'dic-quote',
            'dic-surface', 'output-missing', 'output-directory',
            'output-limit', 'option', 'positional', 'arguments']

    def train_case(i, r, d):
        o = os.path.join(d, 'o.model')
        before = None
        if r.random() < 0.3:
            before = content(model if r.random() < 0.5 else seed)
            put(d, 'o.model', before)
        if r.random() < 0.4:
            kind = 'valid'
        else:
            kind = r.choice(TRAIN)
        ls = r.sample(lines, r.randint(1, min(12, len(lines))))
        opts = {'model-input': seed, 'model-output': o}
        flags = valid_flags(r)
        part = partial_corpus(r) if r.random() < 0.4 or \
            kind.startswith('partial') else []
        wrap = None
        at = r.randint(0, len(ls))
        if kind == 'corpus-quote':
            ls.insert(at, r.choice([b'"_"_"_x_x_x_x', b'"abc', b'a"_b',
                                    ls[0] + b' "x', b'"a"b ' + ls[0]]))
        elif kind == 'corpus-fields':
            ws = ls[0].split(b' ')
            ws.insert(r.randint(0, len(ws)), r.choice(
                [b'x', b'x_y', b'x_y_z', b'x_x_x_x_x']))
            ls.insert(at, b' '.join(ws))
        elif kind == 'corpus-utf8':
            ls.insert(at, ls[0].replace(b'_', r.choice(
                [b'\xff', b'\xe3\x81', b'\xc0\xaf']) + b'_', 1))
        elif kind == 'model-missing':
            opts['model-input'] = os.path.join(d, 'none')
        elif kind == 'model-directory':
            opts['model-input'] = d
        elif kind == 'model-text':
            opts['model-input'] = put(d, 'text', r.choice(
                [b'', b'x', corpus, b'\0' * 5000]))
        elif kind == 'model-cut':
            m = content(seed)
            opts['model-input'] = put(d, 'cut', m[:r.randrange(len(m) - 4096)])
        elif kind == 'output-missing':
            opts['model-output'] = o = os.path.join(d, 'no', 'o.model')
            before = None
        elif kind == 'output-directory':
            opts['model-output'] = o = d
            before = None
        elif kind == 'output-limit':
            wrap = r.choice([0, 1, 3, 4, 5, 8, 30, 60])
        elif kind == 'option':
            flags.insert(r.randint(0, len(flags)), r.choice(
                ['--nope=1', '--siz=3', '-q', '--beams=2']))
        elif kind == 'positional':
            flags.append('extra')
        elif kind == 'threads':
            flags.append('--threads=0')
        elif kind == 'batch':
            flags = [f for f in flags if not f.startswith('--batch')]
            flags.append('--batch=0')
        elif kind == 'beam':
            flags = [f for f in flags if not f.startswith('--beam')]
            flags.append('--beam=%d' % r.choice([0, 100000, 4000000000]))
        elif kind == 'size':
            flags = [f for f in flags if not f.startswith('--size')]
            flags.append('--size=%d' % r.choice([32, 64, 4000000000]))
        elif kind == 'number':
            flags = [f for f in flags if not f.startswith('--size')]
            flags.append(r.choice(['--size=abc', '--size=', '--scw-c=x',
                                   '--max-epochs=1x', '--seed=0x1']))
        elif kind == 'left':
            flags = [f for f in flags if not f.startswith('--gb')]
            flags += ['--gb-left-min=5', '--gb-left-max=4']
        elif kind == 'right':
            flags = [f for f in flags if not f.startswith('--gb')]
            flags += r.choice([
                ['--gb-right-min=1', '--gb-right-max=3', '--gb-rcheck-min=1',
                 '--gb-rcheck-max=1'],
                ['--gb-left-min=3', '--gb-left-max=4', '--gb-right-min=5',
                 '--gb-right-max=3', '--gb-rcheck-min=1',
                 '--gb-rcheck-max=1'],
                ['--gb-left-min=3', '--gb-left-max=4', '--gb-right-min=3',
                 '--gb-right-max=3', '--gb-rcheck-min=2',
                 '--gb-rcheck-max=1']])
        elif kind == 'mode':
            flags.append('--training-mode=best')
        elif kind.startswith('partial-') and kind != 'partial-missing':
            bad = {'partial-field': b'\t\xe7\xa7\x81\txx:1\n',
                   'partial-colon': b'\t\xe7\xa7\x81\tpos\n',
                   'partial-utf8': b'\xe7\xa7\n',
                   'partial-first': b'\xe7\xa7\x81\tpos:x\n',
                   'partial-null': b'\0\xe7\xa7\x81\n'}[kind]
            part.insert(r.randint(0, len(part)), bad)
        text = b'\n'.join(ls) + (b'\n' if r.random() < 0.8 else b'')
        opts['corpus'] = put(d, 'c.txt', text)
        if kind == 'corpus-missing':
            opts['corpus'] = r.choice([os.path.join(d, 'none'), ''])
        elif kind == 'corpus-directory':
            opts['corpus'] = d
        ptext = b'\n'.join(part) + (b'\n' if r.random() < 0.8 else b'')
        if part:
            opts['partial-corpus'] = put(d, 'p.txt', ptext)
        if kind == 'partial-missing':
            opts['partial-corpus'] = os.path.join(d, 'none')
        if kind.startswith('rnn'):
            net = os.path.join(d, 'net')
            network(r, every, ['surface'], net, '_', '</s>', '<unk>')
            if kind == 'rnn-missing':
                os.unlink(net + r.choice(['', '.nnet']))
            elif kind == 'rnn-cut':
                x = content(net + '.nnet')
                put(d, 'net.nnet', x[:r.randrange(len(x))])
            else:
                wrap = r.choice([0, 1, 4, 5, 30])
            opts['rnn-model'] = net
            opts['model-input'] = model
        cmd = [train] + ['--%s=%s' % x for x in opts.items()] + flags
        if r.random() < 0.2 and kind != 'threads':
            cmd.append('--threads=%d' % r.randint(2, 4))
            flags.append('threads')
        p = run(cmd if wrap is None else limited(cmd, wrap), cwd=d, env=env)
        what = 'train:%s %s limit=%s' % (kind, ' '.join(cmd[1:]), wrap)
        out.stat('kind_' + kind)
        must = 'ok' if kind == 'valid' else 'fail'
        if wrap is not None and before is not None:
            must = None     # the old file may have the room
        if not judge(i, what, p, o, before, must, True):
            return
        out.seen(hashlib.sha1(text + ptext + repr((kind, flags)).encode())
                 .hexdigest())
        if kind != 'valid' or 'threads' in flags:
            return
        # nothing of the input may depend on the way files end
        put(d, 'c.txt', text[:-1] if text.endswith(b'\n') else text + b'\n')
        if part:
            # the last example has its end marker or the file just ends
            p2 = ptext.rstrip(b'\n')
            put(d, 'p.txt', p2 + r.choice([b'', b'\n', b'\n\n']))
        first = content(o)
        p = run(cmd, cwd=d, env=env)
        if not judge(i, what + ' (other file end)', p, o, first, 'ok', True):
            return
        out.stat('file_ends_compared')
        if content(o) != first:
            viol('file-end', i, 'the model changes if the last lines of the '
                 'corpora end in another way\n' + what)
            return
        if part and any(f == '--max-epochs=3' for f in flags) and \
                '--epsilon=0' in flags and len(part) > 1:
            # the last example counts
            out.stat('partial_files')

    def boot_case(i, r, d):
        o = os.path.join(d, 'o.model')
        before = None
        if r.random() < 0.3:
            before = content(model)
            put(d, 'o.model', before)
        kind = 'valid' if r.random() < 0.3 else r.choice(BOOT)
        unk, rest = rows[:TEMPLATES], rows[TEMPLATES:]
        rs = unk + r.sample(rest, min(len(rest), r.randint(1, 400)))
        wrap = None
        at = r.randint(TEMPLATES, len(rs))
        args = []
        if kind == 'dic-columns':
            rs.insert(at, rs[-1].rsplit(b',', r.randint(1, 4))[0])
        elif kind == 'dic-quote':
            rs.insert(at, r.choice([b'"' + rs[-1], rs[-1] + b',"x',
                                    b'a"b,' + rs[-1]]))
        elif kind == 'dic-surface':
            rs.insert(at, b',' + rs[-1].split(b',', 1)[1])
        inp = put(d, 'd.csv', b'\n'.join(rs) + b'\n' * r.randint(0, 1))
        if kind == 'dic-missing':
            inp = r.choice([os.path.join(d, 'none'), ''])
        elif kind == 'dic-directory':
            inp = d
        elif kind == 'output-missing':
            o = os.path.join(d, 'no', 'o')
            before = None
        elif kind == 'output-directory':
            o = d
            before = None
        elif kind == 'output-limit':
            wrap = r.choice([0, 1, 3, 4])
        elif kind == 'option':
            args = [r.choice(['--nope', '-q', '--dic-version'])]
        elif kind == 'positional':
            args = ['extra']
        if kind == 'valid' and r.random() < 0.5:
            args = ['--dic-version=v%d' % i]
        cmd = [boot, inp, o] + args
        if kind == 'arguments':
            cmd = cmd[:r.randint(1, 2)]
        p = run(cmd if wrap is None else limited(cmd, wrap), cwd=d, env=env)
        what = 'bootstrap:%s %s limit=%s' % (kind, ' '.join(cmd[1:]), wrap)
        out.stat('kind_boot_' + kind)
        must = 'ok' if kind == 'valid' else 'fail'
        if wrap is not None and before is not None:
            must = None
        if judge(i, what, p, o, before, must, False):
            out.seen(hashlib.sha1(b'\n'.join(rs) + what.encode()).hexdigest())

    def one(i):
        r = random.Random((runner.seed << 32) ^ i ^ 0x25000000)
        d = tempfile.mkdtemp(dir=scratch)
        try:
            (boot_case if i % 3 == 2 else train_case)(i, r, d)
            out.stat('cases')
        finally:
            shutil.rmtree(d, ignore_errors=True)

    from driver import SOFT_DEADLINE
    n = parallel(one, range(total), runner, SOFT_DEADLINE[runner.tier])
    sys.stderr.write('[C25] %d of %d runs, %d violations\n' % (
        n, total, len(out.viols)))
    if n < 60 and not out.viols:
        raise HarnessError('only %d runs' % n)


def csv_rows(rows):
    return list(csv.reader(x.decode('utf-8') for x in rows))
