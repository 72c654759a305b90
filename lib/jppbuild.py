#!/usr/bin/env python3
"""Out-of-tree instrumented builds of /repo's *current* working tree.

Content-addressed (mtimes are ignored): an object is rebuilt iff the hash of
its command line, source or any header it was last built from changed.
Nothing is written to /repo.

Variants
  asan : clang++ -O1, address + undefined behaviour, assertions (JPP_DCHECK) on
  asanm: asan, and every pool allocation has red zones of its own
  tsan : clang++ -O1, thread sanitizer
  plain: clang++ -O1 without sanitizers, for valgrind
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JPP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
LIBS = os.path.join(REPO, 'libs')
OUT = os.environ.get('JPP_BUILD_DIR', os.path.join(VERIF, '.build'))

CXX = '/usr/bin/clang++'
COMMON = ['-std=gnu++14', '-g1', '-Wno-everything', '-fno-omit-frame-pointer',
          '-pthread', '-D_GLIBCXX_ASSERTIONS']
UB = ('-fsanitize=address,bool,bounds,enum,'
      'integer-divide-by-zero,null,return,shift,signed-integer-overflow,'
      'unreachable,vla-bound,alignment,nonnull-attribute,object-size')
VARIANTS = {
    'asan': ['-O1', UB, '-fno-sanitize-recover=all',
             '-fsanitize-address-use-after-scope'],
    # every pool allocation is an allocation of its own
    'asanm': ['-O1', UB, '-fno-sanitize-recover=all',
              '-fsanitize-address-use-after-scope',
              '-DJUMANPP_DEBUG_MEMORY=1'],
    'tsan': ['-O1', '-fsanitize=thread'],
    # for valgrind
    'plain': ['-O1', '-DJUMANPP_DEBUG_MEMORY=1'],
}

SKIP_DIRS = {'test', 'tests', 'benchmarks', 'devtools', 'legacy', 'main',
             'testing'}


# harnesses that need nothing but src/util
UTIL_ONLY = {'h_util'}


# harnesses which load code they generate
PLUGIN_HOSTS = {'h_cg'}
PLUGIN_FLAGS = {'asan': ['-fsanitize=address'],
                'asanm': ['-fsanitize=address',
                          '-DJUMANPP_DEBUG_MEMORY=1']}


class BuildError(Exception):
    pass


_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, 'rb') as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _hash_cache[path] = h
    return h


def write_if_changed(path, text):
    if isinstance(text, str):
        text = text.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, 'rb') as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'wb') as f:
        f.write(text)
    _hash_cache.pop(path, None)


def configure_file(src, values):
    text = open(src, encoding='utf-8').read()

    def define(m):
        name = m.group(1)
        v = values.get(name)
        if v is None or v is False:
            return '/* #undef %s */' % name
        return '#define %s%s' % (name, m.group(2) or '')

    text = re.sub(r'#cmakedefine[ \t]+(\w+)([^\n]*)', define, text)
    text = re.sub(r'@(\w+)@', lambda m: str(values.get(m.group(1), '')), text)
    text = re.sub(r'\$\{(\w+)\}', lambda m: str(values.get(m.group(1), '')),
                  text)
    return text


def eigen_dir():
    for d in (os.path.join(LIBS, 'eigen3'), '/usr/include/eigen3'):
        if os.path.isdir(d):
            return d
    return None


class Builder:
    def __init__(self, variant, jobs=None):
        self.variant = variant
        self.flags = VARIANTS[variant]
        self.dir = os.path.join(OUT, variant)
        self.gen = os.path.join(self.dir, 'gen')
        self.inc = os.path.join(self.dir, 'inc')
        self.jobs = jobs or os.cpu_count() or 4
        os.makedirs(self.gen, exist_ok=True)
        self.compiled = 0

    # ---- configuration ----
    def configure(self):
        vals = {
            'JPP_MAX_DIC_FIELDS': '16',
            'JPP_PREFETCH_FEATURE_WEIGHTS': True,
            'JPP_ENABLE_DEV_TOOLS': True,
            'JPP_USE_PROTOBUF': True,
            'JPP_TRAIN_VIOLATION_INVALID': True,
            'JPP_DEFAULT_CONFIG_DIR': 'jpp-global-config',
            'JUMANPP_FULL_VERSION': '2.0.0-verif',
        }
        for name in ('core_config.h', 'core_version.h'):
            write_if_changed(os.path.join(self.gen, name), configure_file(
                os.path.join(SRC, 'core', name + '.in'), vals))
        write_if_changed(os.path.join(self.gen, 'util_config.h'),
                         configure_file(os.path.join(
                             SRC, 'util', 'util_config.h.in'), {}))
        for proto in ('core/proto/lattice_dump.proto',
                      'jumandic/proto/juman.proto',
                      'jumandic/proto/jumanpp.proto'):
            self.protoc(os.path.join(SRC, proto))
        inc = [self.gen, SRC, os.path.join(SRC, 'jumandic'), LIBS,
               os.path.join(LIBS, 'pathie-cpp/include')]
        ed = eigen_dir()
        if ed and not os.path.isdir(os.path.join(LIBS, 'eigen3')):
            # sources include <eigen3/Eigen/...>
            inc.append(os.path.dirname(ed))
        self.includes = inc

    def protoc(self, path):
        base = os.path.splitext(os.path.basename(path))[0]
        stamp = os.path.join(self.gen, base + '.proto.key')
        key = fhash(path)
        outs = [os.path.join(self.gen, base + e) for e in ('.pb.cc', '.pb.h')]
        if all(map(os.path.exists, outs)) and os.path.exists(stamp) and \
                open(stamp).read() == key:
            return
        self.run(['/usr/bin/protoc', '--cpp_out=' + self.gen, '-I',
                  os.path.dirname(path), path])
        for o in outs:
            _hash_cache.pop(o, None)
        write_if_changed(stamp, key)

    def run(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(
                'utf-8', 'replace')[-6000:]))
        return p.stdout

    # ---- compilation ----
    def obj_path(self, src):
        rel = src.replace(REPO + '/', 'repo_').replace(
            VERIF + '/', 'verif_').replace(self.gen + '/', 'gen_')
        return os.path.join(self.dir, 'obj', rel.strip('/').replace(
            '/', '_') + '.o')

    def key(self, cmd, src, deps):
        h = hashlib.sha1()
        h.update('\0'.join(cmd).encode())
        for d in [src] + deps:
            h.update(d.encode())
            h.update(fhash(d).encode())
        return h.hexdigest()

    def compile(self, src, extra=()):
        obj = self.obj_path(src)
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        cmd = [CXX] + COMMON + self.flags + list(extra) + \
            ['-I' + i for i in self.includes] + ['-c', src, '-o', obj]
        meta = obj + '.json'
        if os.path.exists(obj) and os.path.exists(meta):
            try:
                m = json.load(open(meta))
                if m['key'] == self.key(cmd, src, m['deps']):
                    return obj
            except (ValueError, KeyError, OSError):
                pass
        dep = obj + '.d'
        try:
            os.unlink(meta)
        except OSError:
            pass
        self.run(cmd + ['-MMD', '-MF', dep])
        txt = open(dep).read().replace('\\\n', ' ')
        deps = txt.split(':', 1)[1].split()
        deps = sorted({os.path.normpath(d) for d in deps if
                       not d.startswith('/usr/')} - {src})
        with open(meta, 'w') as f:
            json.dump({'key': self.key(cmd, src, deps), 'deps': deps}, f)
        self.compiled += 1
        return obj

    def compile_all(self, srcs, extra=()):
        # biggest first: better packing on 8 cores
        srcs = sorted(srcs, key=lambda s: -os.path.getsize(s))
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            futs = {s: ex.submit(self.compile, s, extra) for s in srcs}
            errs = []
            for s, f in futs.items():
                try:
                    f.result()
                except BuildError as e:
                    errs.append(str(e))
            if errs:
                raise BuildError('\n'.join(errs[:3]))
            return [futs[s].result() for s in sorted(srcs)]

    def find_sources(self, sub):
        res = []
        for root, dirs, files in os.walk(os.path.join(SRC, sub)):
            dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
            for f in files:
                if not f.endswith(('.cc', '.cpp')):
                    continue
                if re.search(r'_test\.(cc|cpp)$', f) or 'win32' in f:
                    continue
                if f.endswith('.in'):
                    continue
                res.append(os.path.join(root, f))
        return sorted(res)

    def link(self, name, objs, libs):
        out = os.path.join(self.dir, 'bin', name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        cmd = [CXX, '-pthread'] + self.flags + ['-o', out] + objs + libs + \
            ['/usr/lib/x86_64-linux-gnu/libprotobuf.a', '-lz', '-ldl']
        if name in PLUGIN_HOSTS:
            # generated code is compiled and loaded at run time
            i = cmd.index('-o')
            cmd[i:i] = ['-rdynamic']
            cmd = [x for c in cmd for x in (
                ['-Wl,--whole-archive', c, '-Wl,--no-whole-archive']
                if c in libs else [c])]
            write_if_changed(os.path.join(self.dir, 'cxxcmd'), ' '.join(
                [CXX] + COMMON + ['-I' + i for i in self.includes] +
                PLUGIN_FLAGS.get(self.variant, [])))
        key = hashlib.sha1('\0'.join(cmd).encode())
        for o in objs + libs:
            if o.endswith('.o'):
                key.update(self.obj_key(o).encode())
            elif os.path.exists(o + '.key'):
                key.update(open(o + '.key').read().encode())
        key = key.hexdigest()
        kf = out + '.key'
        if os.path.exists(out) and os.path.exists(kf) and \
                open(kf).read() == key:
            return out
        try:
            self.run(cmd)
        except BuildError as e:
            if '-lz' in str(e):
                self.run([c for c in cmd if c != '-lz'])
            else:
                raise
        write_if_changed(kf, key)
        return out

    def obj_key(self, o):
        return json.load(open(o + '.json'))['key']

    def archive(self, name, objs):
        out = os.path.join(self.dir, name)
        key = hashlib.sha1('\0'.join(
            [o + self.obj_key(o) for o in objs]).encode()).hexdigest()
        kf = out + '.key'
        if os.path.exists(out) and os.path.exists(kf) and \
                open(kf).read() == key:
            return out
        try:
            os.unlink(out)
        except OSError:
            pass
        self.run(['/usr/bin/ar', 'qcs', out] + objs)
        write_if_changed(kf, key)
        return out

    # ---- products ----
    def build_lib(self):
        """Compiles everything into one archive (plus codegen products)."""
        self.configure()
        pathie = glob.glob(os.path.join(LIBS, 'pathie-cpp/src/*.cpp'))
        srcs = []
        for sub in ('util', 'rnn', 'core', 'jumandic'):
            srcs += self.find_sources(sub)
        tools = [s for s in srcs if '/core/tool/jumanpp_tool.cc' in s]
        srcs = [s for s in srcs if s not in tools]
        srcs += [os.path.join(self.gen, b + '.pb.cc') for b in
                 ('lattice_dump', 'juman', 'jumanpp')]
        # codegen main for the jumandic static features
        cgm = os.path.join(self.gen, 'jpp_jumandic_cg_codegen_main.cc')
        write_if_changed(cgm, configure_file(
            os.path.join(SRC, 'core/codegen/codegen_main.cc.in'),
            {'CG_SPEC_INCLUDE': 'shared/jumandic_spec.h',
             'CG_SPEC_NAME': 'jumanpp::jumandic::SpecFactory'}))
        cgh = os.path.join(self.gen, 'jpp_jumandic_cg.h')
        need_cg = [s for s in srcs if 'jpp_jumandic_cg' in open(
            s, encoding='utf-8', errors='replace').read()]
        first = [s for s in srcs if s not in need_cg]
        mains = {
            'jumanpp_v2': os.path.join(SRC, 'jumandic/main/jumanpp.cc'),
            'jumanpp_v2_train': os.path.join(
                SRC, 'jumandic/main/jumanpp_train.cc'),
            'jpp_jumandic_bootstrap': os.path.join(
                SRC, 'jumandic/main/bootstrap.cc'),
            'jumanpp_tool': os.path.join(SRC, 'core/tool/jumanpp_tool.cc'),
        }
        plain_mains = [m for m in mains.values() if 'jpp_jumandic_cg' not in
                       open(m, encoding='utf-8').read()]
        objs = self.compile_all(first + pathie + [cgm] + plain_mains)
        by = {self.obj_path(s): s for s in first + pathie + [cgm] +
              plain_mains}
        skip = {self.obj_path(s) for s in [cgm] + plain_mains}
        lib0 = self.archive('libstage0.a', [o for o in objs if o not in skip])
        cg = self.link('cg_binary', [self.obj_path(cgm)], [lib0])
        cgkey = os.path.join(self.gen, 'cg.key')
        k = open(cg + '.key').read()
        cgc = os.path.join(self.gen, 'jpp_jumandic_cg.cc')
        if not (os.path.exists(cgc) and os.path.exists(cgh) and
                os.path.exists(cgkey) and open(cgkey).read() == k):
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
            p = subprocess.run([cg, 'jpp_jumandic_cg', 'JumandicStatic',
                                self.gen], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=env, timeout=300)
            if p.returncode != 0:
                raise BuildError('codegen failed:\n' + p.stdout.decode(
                    'utf-8', 'replace')[-4000:])
            _hash_cache.pop(cgc, None)
            _hash_cache.pop(cgh, None)
            write_if_changed(cgkey, k)
        rest_mains = [m for m in mains.values() if m not in plain_mains]
        objs2 = self.compile_all(need_cg + [cgc] + rest_mains)
        skip |= {self.obj_path(s) for s in rest_mains}
        self.lib = self.archive('libjpp.a', [
            o for o in sorted(set(objs + objs2)) if o not in skip])
        self.mains = mains
        return self.lib

    def build_util_lib(self):
        """Only src/util: enough for the util harness, much faster."""
        self.configure()
        srcs = self.find_sources('util') + glob.glob(
            os.path.join(LIBS, 'pathie-cpp/src/*.cpp'))
        objs = self.compile_all(srcs)
        self.lib = self.archive('libutil.a', sorted(objs))
        return self.lib

    def build_main(self, name):
        return self.link(name, [self.obj_path(self.mains[name])], [self.lib])

    def build_harness(self, name, srcs=None, extra=()):
        srcs = srcs or [os.path.join(VERIF, 'harness', name + '.cc')]
        objs = self.compile_all(srcs, extra)
        return self.link(name, objs, [self.lib])


class Lock:
    def __init__(self, variant):
        os.makedirs(OUT, exist_ok=True)
        self.path = os.path.join(OUT, variant + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def build(variant, mains=(), harnesses=()):
    """Returns {name: path}. Raises BuildError."""
    t0 = time.time()
    with Lock(variant):
        b = Builder(variant)
        if not mains and harnesses and set(harnesses) <= UTIL_ONLY:
            b.build_util_lib()
        else:
            b.build_lib()
        res = {}
        with cf.ThreadPoolExecutor(4) as ex:
            fm = {n: ex.submit(b.build_main, n) for n in mains}
            fh = {n: ex.submit(b.build_harness, n) for n in harnesses}
            for d in (fm, fh):
                for n, f in d.items():
                    res[n] = f.result()
    sys.stderr.write('[build] %s: %d objects rebuilt, %.1fs\n' %
                     (variant, b.compiled, time.time() - t0))
    return res


if __name__ == '__main__':
    v = sys.argv[1]
    try:
        print(build(v, mains=('jumanpp_v2', 'jumanpp_v2_train',
                              'jpp_jumandic_bootstrap', 'jumanpp_tool')))
    except BuildError as e:
        print(e)
        sys.exit(2)
