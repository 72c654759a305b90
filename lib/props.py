"""The registry: which jobs decide which property."""
import json
import os
import shutil
import sys
import tempfile
import time

import cli
import driver
import jppbuild
from driver import Job, Outcome, Runner, HarnessError

P = {}


def prop(pid, jobs=(), rule='', assume=(), extra=None, mains=(),
         min_distinct=2):
    P[pid] = dict(jobs=list(jobs), rule=rule, assume=list(assume),
                  extra=extra, mains=list(mains), min_distinct=min_distinct)


prop('C12', [
    Job('h_util', 'utf8_all', 0x1100, 0x1100, min_cases=0x1100),
    Job('h_util', 'utf8_bytes', 256, 256, min_cases=256),
    Job('h_util', 'utf8_str', 200000, 600000),
], rule='every code point once (0x110000, encoding, all truncations, class '
        'against an independent table); all 1-2 byte sequences and 3-4 byte '
        'sequences over 30 boundary bytes; random texts, half of them '
        'corrupted, against an RFC 3629 decoder. Non-trivial: distinct block '
        'of code points, first byte or text.')
prop('C20', [
    Job('h_util', 'coded', 60000, 200000),
    Job('h_util', 'serial', 60000, 200000),
    Job('h_util', 'text', 80000, 300000),
], rule='random sequences of codec operations / nested structures / numbers '
        'and strings, written, compared byte for byte with an independent '
        'encoder, read back whole, truncated at many points and damaged; '
        'buffers have red zones at their exact ends. Non-trivial: distinct '
        'byte strings.')
prop('C21', [
    Job('h_util', 'containers', 40000, 600000),
    Job('h_util', 'lru', 20000, 60000),
    Job('h_util', 'arena', 8000, 20000),
    Job('h_util', 'charbuf', 12000, 30000),
    Job('h_util', 'slices', 20000, 60000),
    Job('h_util', 'mapped', 500, 5000),
], rule='random operation sequences on each container (good, bad and '
        'colliding hashes; trivial, string and life-time-tracked elements) '
        'in lock step with a standard container, compared after the '
        'operations. Non-trivial: distinct operation logs.')
prop('C22', [
    Job('h_util', 'csv_wellformed', 60000, 300000),
    Job('h_util', 'csv_junk', 60000, 300000),
    Job('h_util', 'csv_exhaustive', 22, 86),
], rule='texts generated from known rows (quoting, line ends, long fields, '
        'separators), junk texts, and all texts up to length 8 (thorough: 9) '
        'over {a , " LF} against an independent parser. Non-trivial: '
        'distinct texts.')

VG = ['valgrind', '-q', '--exit-on-first-error=yes', '--error-exitcode=98',
      '--num-callers=24', '--suppressions=' + os.path.join(
          driver.VERIF, 'data', 'valgrind.supp')]

WORLD = ('random specifications (fields of all types, shared storage, '
         'separators, all feature kinds, 1-3-grams, unknown word rules, '
         'training sections) with random dictionaries and random sentences '
         'over the same alphabet; the whole lattice is read back. ')
ANA = 'asanm'
prop('C02', [
    Job('h_analysis', 'segment', 12000, 120000, ANA, min_cases=2000),
    Job('h_analysis', 'segment', 120, 2400, 'plain', min_cases=30, wrap=VG),
], rule=WORLD + 'Every path of the final beam is walked to the start; the '
        'reported path must cover each character once. Non-trivial: distinct '
        'sentence per world.')
prop('C03', [
    Job('h_analysis', 'dic', 12000, 120000, ANA, min_cases=2000),
    Job('h_analysis', 'dic', 120, 2400, 'plain', min_cases=30, wrap=VG),
], rule=WORLD + 'The multiset of dictionary nodes (span and all field values '
        'of all merged rows) must equal the one computed from the rows by '
        'string comparison. Non-trivial: distinct sentence per world.')
prop('C04', [
    Job('h_analysis', 'unk', 12000, 120000, ANA, min_cases=2000),
    Job('h_analysis', 'unk', 120, 2400, 'plain', min_cases=30, wrap=VG),
], rule=WORLD + 'The multiset of unknown-word nodes, their field values and '
        'placeholders must equal the ones of a reference generator. '
        'Non-trivial: distinct sentence per world.')
prop('C05', [
    Job('h_analysis', 'score', 12000, 120000, ANA, min_cases=2000),
    Job('h_analysis', 'score', 120, 2400, 'plain', min_cases=30, wrap=VG),
], rule=WORLD + 'For every connection of every kept path the score must be '
        'the sum of weights of independently computed features, bit for bit '
        '(weights are multiples of 1/16). Non-trivial: distinct sentence per '
        'world.')
prop('C06', [
    Job('h_analysis', 'beam', 5000, 80000, ANA, min_cases=1000),
    Job('h_analysis', 'beam', 120, 2400, 'plain', min_cases=30, wrap=VG),
], rule=WORLD + 'Every beam and global beam is recomputed from all '
        'continuations; short sentences with a wide beam are compared with '
        'the enumeration of all paths. Non-trivial: distinct sentence per '
        'world.')
JUM = ('random Jumandic models (subsets of the bundled dictionary with '
       'homographs, merged rows, odd strings, line breaks; random weights) '
       'driven through the same program object as jumanpp_v2, random settings '
       'and sentences. ')
prop('C01', [
    Job('h_jumandic', 'hostile', 800, 12000, ANA, min_cases=150),
    Job('h_jumandic', 'hostile', 450, 9000, 'asan', min_cases=100),
    Job('h_jumandic', 'hostile', 48, 1600, 'plain', min_cases=12, wrap=VG),
    Job('h_jumandic', 'hostile_pex', 2400, 30000, ANA, min_cases=500),
    Job('h_jumandic', 'memory', 12, 12, 'asan', min_cases=12),
], rule=JUM + 'Hostile bytes (random, damaged and truncated UTF-8, control '
        'characters, interrupted number / repetition / prolongation patterns, '
        'repeats around the size limit) from exactly sized buffers, hostile '
        'settings, 1-3 output formats each, reference sentences in between; '
        'hostile text through the reader of annotated sentences. With and '
        'without a red zone around every allocation of the node pool. '
        'Non-trivial: distinct text per setting.')
def scratch_base():
    """A place in memory if there is one with enough space: models are
    written with msync()."""
    d = '/dev/shm'
    try:
        st = os.statvfs(d)
        if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 4 << 30:
            return d
    except OSError:
        pass
    return None


def fill(byte):
    return {'+ASAN_OPTIONS': 'max_malloc_fill_size=268435456:'
                             'malloc_fill_byte=%d' % byte}


# the weights are shared between the threads of the training on purpose
WEIGHTS = {'+TSAN_OPTIONS': 'suppressions=/verif/data/tsan.supp'}

prop('C07', [
    Job('h_life', 'history', 1200, 30000, ANA, min_cases=300),
    Job('h_life', 'growth', 160, 4000, ANA, min_cases=50),
    Job('h_life', 'growth', 160, 4000, 'asan', min_cases=50),
    Job('h_life', 'contents', 900, 15000, ANA, fill(0), min_cases=200),
    Job('h_life', 'contents', 900, 15000, ANA, fill(0x41), min_cases=200),
    Job('h_life', 'contents', 96, 1600, 'plain', min_cases=24, wrap=VG),
], rule=JUM + 'history: random sequences of accepted, rejected, empty, long '
        'and short sentences through one analyzer, formats switched and '
        'formatters reused, every output compared with the one of a fresh '
        'program object; growth: allocated bytes after 2 and after 8 rounds '
        'of the same sentences; contents: the same cases with different '
        'contents of fresh memory (results compared) and under valgrind. '
        'Non-trivial: distinct sentence per setting and format.')
prop('C10', [
    Job('h_model', 'raw', 5000, 90000),
    Job('h_model', 'full', 1200, 30000, ANA, fill(0), min_cases=300),
    Job('h_model', 'full', 1200, 30000, ANA, fill(0x41), min_cases=300),
    Job('h_model', 'full', 36, 900, 'plain', min_cases=12, wrap=VG),
    Job('h_model', 'truncate', 800, 20000, min_cases=200),
    Job('h_model', 'damage', 1400, 40000, min_cases=300),
    Job('h_model', 'interrupt', 2000, 50000, min_cases=500),
], rule='models with random blocks, and random specifications with '
        'dictionaries and weights: written, read back and written again, '
        'compared block by block and by the lattices of analysed sentences; '
        'the file is then cut at every block edge and elsewhere, its header '
        'damaged (magic, size, bytes, lost bytes, sectors, well-formed wrong '
        'values), and saving is killed at every block or runs into a size '
        'limit, over no file or another model. Non-trivial: distinct models '
        'and damages.')
prop('C11', [
    Job('h_spec', 'equal', 24000, 300000, min_cases=3000),
    Job('h_spec', 'bad', 20000, 200000, min_cases=2000),
    Job('h_spec', 'fuzz', 20000, 300000, min_cases=2000),
    Job('h_spec', 'deep', 1100, 11000, min_cases=100),
    Job('h_spec', 'equalplain', 240, 3600, 'plain', min_cases=24, wrap=VG),
    Job('h_spec', 'fuzzplain', 160, 2400, 'plain', min_cases=24, wrap=VG),
], rule='equal: random specifications written with the programming interface '
        'and as text in random layout, both compiled specifications compared '
        'field by field with each other and with the intention, saved, '
        'restored and saved again, hashes of equal and changed ones compared; '
        'bad: one mistake of 40 kinds put into a valid specification, which '
        'has to be rejected with a message; fuzz: mutated texts and arbitrary '
        'bytes; deep: long repetitions of one construct. Non-trivial: '
        'distinct text.')
prop('C17', [
    Job('h_train', 'queueseq', 200000, 2000000, min_cases=2000),
    Job('h_train', 'queue', 3500, 60000, 'tsan', min_cases=60),
    Job('h_train', 'queue', 9000, 160000, 'asan', min_cases=200),
    Job('h_train', 'executor', 6000, 120000, 'tsan', min_cases=100),
    Job('h_train', 'executor', 12000, 240000, 'asan', min_cases=200),
    Job('h_train', 'threads', 280, 6000, 'tsan', WEIGHTS, min_cases=50),
    Job('h_train', 'threads', 360, 8000, ANA, min_cases=100),
], rule='queueseq: random operations on a queue in lock step with a '
        'reference; queue: up to 3 producers and 4 consumers with random '
        'pauses, every operation logged with its start and end, the log '
        'checked for conservation, order, capacity and justified refusals; '
        'executor: up to 6 worker threads over examples that take random '
        'time, fail or throw, stopped at the end or in the middle; threads: '
        'whole training runs with 2 to 6 threads compared with runs of one '
        'thread, with updates of size 0 so that results can not depend on '
        'the order; thread sanitizer (except for the weights, which are '
        'shared on purpose) and watchdog for lost wake-ups. Non-trivial: '
        'distinct interleaving.')
prop('C16', [
    Job('h_train', 'loss', 8000, 80000, ANA, min_cases=600),
    Job('h_train', 'loss', 96, 1500, 'plain', min_cases=24, wrap=VG),
    Job('h_train', 'repro', 900, 16000, ANA, fill(0), min_cases=100),
    Job('h_train', 'repro', 900, 16000, ANA, fill(0x41), min_cases=100),
    Job('h_train', 'repro', 64, 1500, 'plain', min_cases=16, wrap=VG),
], rule='loss: random models and annotated corpora (both formats, words '
        'outside of the dictionary, unknown values), sentences trained one '
        'by one: the nodes of the gold path against the annotation, the loss '
        'and the changed features against an independent comparison of both '
        'paths, every weight before and after an update against the formulas '
        'of SCW; repro: whole training runs with one thread done twice, '
        'with different contents of fresh memory, models compared byte by '
        'byte. Non-trivial: distinct corpus or model.')
prop('C08', [
    Job('h_life', 'threads', 240, 4000, 'tsan', min_cases=40),
], rule=JUM + '2-6 threads create analyzers from one model at the same time '
        'and analyse random orders of the same sentences with random pauses '
        'under the thread sanitizer; results compared with those of one '
        'thread. Non-trivial: distinct order of sentences of a thread.')
prop('C15', [
    Job('h_analysis', 'partial', 9000, 100000, ANA, min_cases=400),
    Job('h_analysis', 'partial', 48, 1200, 'plain', min_cases=12, wrap=VG),
], rule=WORLD + 'Sentences are annotated with boundaries, word extents and '
        'field values, most of them taken from a random path of candidates; '
        'a search over the candidates of the reference model decides what '
        'can be satisfied. Non-trivial: distinct world with annotations.')
prop('C24', [
    Job('h_analysis', 'dump', 2000, 30000, ANA, min_cases=400),
    Job('h_analysis', 'dump', 48, 1200, 'plain', min_cases=12, wrap=VG),
], rule=WORLD + 'The explanation of every node of the best paths is compared '
        'with the features, values and weights computed by the reference '
        'model, and with the score of the node. Non-trivial: distinct world.')
prop('C09', [
    Job('h_dict', 'rows', 1800, 40000, ANA, min_cases=300),
    Job('h_dict', 'bad', 2800, 60000, ANA, min_cases=500),
    Job('h_dict', 'rows', 36, 900, 'plain', min_cases=12, wrap=VG),
    Job('h_dict', 'bad', 60, 1200, 'plain', min_cases=12, wrap=VG),
], rule=WORLD + 'Every row of the generated CSV is looked up in the compiled, '
        'saved and reloaded dictionary and compared field by field with what '
        'an independent parser of CSV and lists reads; the dictionary must not '
        'have other entries. Damaged dictionaries (columns, quotes, numbers, '
        'NULs, long cells, missing surfaces, random bytes) must be reported or '
        'read back completely. Non-trivial: distinct dictionary.')
prop('C14', [], extra=cli.c14,
     mains=['jumanpp_v2', 'jumanpp_v2_train', 'jpp_jumandic_bootstrap'],
     rule='streams of sentences, comments, undecodable and too long lines over '
          'standard input (whole or dribbled) and several files, with and '
          'without final newlines, output to stdout or a file, in every text '
          'format; the output must be the concatenation of what the program '
          'writes for every sentence alone, and each of those is checked for '
          'its shape (one result, its comment, placeholder and message when '
          'it can not be analysed). Non-trivial: distinct stream with '
          'sentences.')
prop('C23', [
    Job('h_cli', 'args', 24000, 400000, ANA, min_cases=4000),
], extra=cli.c23,
     mains=['jumanpp_v2', 'jumanpp_v2_train', 'jpp_jumandic_bootstrap'],
     rule='random command lines and explicit, global and user configuration '
          'files (all options in all spellings, valid and not) through '
          'parseArgs(), every setting compared with an independent model; the '
          'program itself on command lines which must print and not analyse, '
          'or fail before analysing, and on settings split between files and '
          'command line, whose output must be that of the merged settings. '
          'Non-trivial: distinct command line with its files.')
prop('C19', [
    Job('h_rnn', 'score', 3000, 60000, ANA, min_cases=600),
    Job('h_rnn', 'score', 600, 10000, 'asan', fill(0x41), min_cases=100),
    Job('h_rnn', 'score', 96, 2000, 'plain', min_cases=24, wrap=VG),
    Job('h_rnn', 'damage', 4500, 100000, ANA, min_cases=800),
], extra=cli.c19,
     mains=['jumanpp_v2', 'jumanpp_v2_train', 'jpp_jumandic_bootstrap'],
     rule='score: random networks (1-48 neurons, maxent order 1-4, words of '
          'the dictionary, of sentences and others) over random models: every '
          'word of every path of the last beam against an independent '
          'evaluation of the network in double precision, totals and order of '
          'the final beam, same analyses with the network given, embedded, '
          'replaced, with other settings and switched off; damage: network '
          'and model files that are cut, altered or do not match; the '
          'programs with networks given as files and embedded. Non-trivial: '
          'distinct network.')
prop('C25', [], extra=cli.c25,
     mains=['jumanpp_v2', 'jumanpp_v2_train', 'jpp_jumandic_bootstrap'],
     rule='runs of the bootstrap and training programs with valid inputs and '
          'with one thing wrong (missing, cut, malformed and mismatching '
          'inputs in 20 ways, impossible settings, files that can not be '
          'written or not completely): status 0 exactly for valid ones, then '
          'a model that analyses, otherwise a message and no new model; '
          'corpora that end with and without line ends give the same model. '
          'Non-trivial: distinct inputs and settings.')
prop('C18', [
    Job('h_life', 'statics', 1300, 30000, ANA, min_cases=300),
    Job('h_cg', 'specs', 64, 2000, ANA, min_cases=24),
    Job('h_cg', 'hash', 200, 4000, ANA, min_cases=40),
], rule=JUM + 'Every output, including the full lattice dump with all '
        'patterns and scores, with the generated features compared with '
        'interpreted features: the shipped Jumandic features, and features '
        'generated and compiled during the check from random specifications. '
        'Altered specifications must not accept the features. '
        'Non-trivial: distinct sentence per setting.')
prop('C13', [
    Job('h_jumandic', 'formats', 3000, 40000, ANA, min_cases=500),
    Job('h_jumandic', 'formats', 100, 2000, 'plain', min_cases=20, wrap=VG),
], rule=JUM + 'Each of the output formats is rendered for the same analysis '
        'and compared with a reference rendering of the observed lattice and '
        'the CSV rows. Non-trivial: distinct sentence per setting.')


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    if argv and argv[0] == '--setup':
        return setup()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return check(pid, tier, seed)


def setup():
    allj = [j for d in P.values() for j in d['jobs']]
    mains = sorted({m for d in P.values() for m in d['mains']})
    try:
        build_for(allj, mains)
    except jppbuild.BuildError as e:
        # not fatal here: the checks report what does not build
        sys.stderr.write('setup: %s\n' % str(e)[-3000:])
    return 0


def build_for(jobs, mains):
    need = {}
    for j in jobs:
        need.setdefault(j.variant, set()).add(j.harness)
    need.setdefault('asan', set())
    bins = {}
    for variant, hs in sorted(need.items()):
        if not hs and not (mains and variant == 'asan'):
            continue
        bins[variant] = jppbuild.build(
            variant, mains=mains if variant == 'asan' else (),
            harnesses=sorted(hs))
    return bins


def check(pid, tier, seed):
    t0 = time.time()
    d = P[pid]
    try:
        bins = build_for(d['jobs'], d['mains'])
    except jppbuild.BuildError as e:
        sys.stderr.write('build failed:\n%s\n' % e)
        return 2
    out = Outcome()
    scratch = tempfile.mkdtemp(prefix='jppv-%s-' % pid, dir=scratch_base())
    try:
        runner = Runner(tier, seed, out, scratch)
        for j in d['jobs']:
            t1 = time.time()
            runner.run_job(j, bins[j.variant][j.harness])
            sys.stderr.write('[%s] %s: %d cases, %.1fs, %d violations\n' % (
                pid, j.mode, out.stats.get('cases_' + j.mode, 0),
                time.time() - t1, len(out.viols)))
        if d['extra']:
            d['extra'](runner, out, bins)
        driver.check_digests(out)
        return driver.finish(pid, tier, seed, out, d['rule'], d['assume'] + [
            'held on the executions observed, nothing is claimed beyond'],
            t0, d['min_distinct'])
    except HarnessError as e:
        sys.stderr.write('harness error: %s\n' % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    v = r['violation']
    if 'harness' not in v:
        print(json.dumps(v, indent=1, ensure_ascii=False))
        return 0
    bins = jppbuild.build(v.get('variant', 'asan'), harnesses=[v['harness']])
    scratch = tempfile.mkdtemp(prefix='jppv-replay-')
    job = [j for j in P[r['property']]['jobs'] if j.mode == v['mode']][0]
    run = Runner(r['tier'], r['seed'], Outcome(), scratch)
    cmd = run.cmd(bins[v['harness']], job, v.get('frm', v['case']),
                  v['case'] + 1, v.get('step', 1), None, scratch)
    print(' '.join(cmd))
    import subprocess
    rc = subprocess.call(cmd, env=driver.san_env(job.variant, job.env))
    shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
