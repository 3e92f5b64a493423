"""Builds /repo's current sources and the harnesses of /verif/harness, without touching /repo.

Objects are cached under /verif/.build (git-ignored), keyed by a hash of the *contents* of every
source and header of the repository plus the compiler flags, so a stale object can never be used.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('YAGA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')
CXX = '/usr/bin/g++'

STD = ['-std=c++20', '-w', '-pthread']
CONFIGS = {
    # assertions on, address + undefined-behaviour sanitizers, any report is fatal
    'asan': STD + ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                   '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    # assertions on, no sanitizer: throughput
    'debug': STD + ['-O2', '-g1'],
    # what a release build is: assertions compiled out
    'release': STD + ['-O2', '-g1', '-DNDEBUG'],
    # -O1 with asserts for valgrind
    'vg': STD + ['-O1', '-g1'],
    # assertions off, so that the monitors judge; classes can be derived from
    'mon': STD + ['-O2', '-g1', '-DNDEBUG', '-Dfinal='],
}
LINK = {
    'asan': ['-fsanitize=address,undefined'],
    'debug': [], 'release': [], 'vg': [], 'mon': [],
}


class BuildError(Exception):
    pass


def repo_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.ll', '.inc')):
                out.append(os.path.join(root, f))
    return out


def include_dirs(gen):
    dirs = [gen]
    for root, ds, files in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        if any(f.endswith('.h') for f in files):
            dirs.append(root)
    return ['-I' + d for d in dirs]


_hash_cache = {}


def tree_hash():
    if 'h' not in _hash_cache:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _hash_cache['h'] = h.hexdigest()
    return _hash_cache['h']


def headers_hash():
    if 'hh' not in _hash_cache:
        h = hashlib.sha256()
        for f in repo_files():
            if not f.endswith('.cpp'):
                h.update(os.path.relpath(f, REPO).encode() + b'\0')
                with open(f, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
        _hash_cache['hh'] = h.hexdigest()
    return _hash_cache['hh']


def file_hash(path):
    with open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def gen_lexer():
    """flex output and its directory"""
    ll = os.path.join(REPO, 'src/parser/smt2_lexer.ll')
    d = os.path.join(CACHE, 'lex-' + file_hash(ll)[:16])
    out = os.path.join(d, 'smt2_lexer.cpp')
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        run(['flex', '-o', tmp, ll])
        os.rename(tmp, out)
    return d, out


def prune():
    """keep the object cache bounded"""
    try:
        objs = []
        for f in os.listdir(CACHE):
            p = os.path.join(CACHE, f)
            if os.path.isfile(p):
                st = os.stat(p)
                objs.append((st.st_mtime, st.st_size, p))
        objs.sort(reverse=True)
        tot = 0
        for m, sz, p in objs:
            tot += sz
            if tot > 3 << 30:
                os.unlink(p)
    except OSError:
        pass


def compile_one(src, config, incs, extra=()):
    flags = CONFIGS[config] + list(extra)
    key = hashlib.sha256('\0'.join([src, file_hash(src), headers_hash(), ' '.join(flags)]
                                   + [file_hash(h) for h in harness_headers()] * (not src.startswith(REPO))
                                   ).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, '%s-%s.o' % (os.path.basename(src), key))
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + '.%d.tmp' % os.getpid()
    run([CXX] + flags + incs + ['-c', src, '-o', tmp])
    os.rename(tmp, obj)
    return obj


def harness_headers():
    d = os.path.join(VERIF, 'harness')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.h')]


MAINS = {'smt_solver.cpp', 'sat_solver.cpp', 'lexer_test.cpp'}


def build(targets, jobs=8):
    """targets: list of (name, config) with name one of 'smt', 'sat' or a harness name.
    Returns {(name, config): path of the executable}."""
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    prune()
    gen, lexer = gen_lexer()
    incs = include_dirs(gen)
    lib = [f for f in repo_files() if f.endswith('.cpp') and os.path.basename(f) not in MAINS] + [lexer]
    configs = sorted({c for _, c in targets})
    jobs_list = []
    for name, c in targets:
        if name == 'smt':
            src, extra = os.path.join(REPO, 'src/smt_solver.cpp'), ()
        elif name == 'sat':
            src, extra = os.path.join(REPO, 'src/sat_solver.cpp'), ()
        else:
            src, extra = os.path.join(VERIF, 'harness', name + '.cpp'), ('-I' + os.path.join(VERIF, 'harness'),)
        jobs_list.append(('main', name, c, src, extra))
    for c in configs:
        for f in lib:
            jobs_list.append(('lib', None, c, f, ()))
    with ThreadPoolExecutor(jobs) as ex:
        futs = [(j, ex.submit(compile_one, j[3], j[2], incs, j[4])) for j in jobs_list]
        libs = {c: [] for c in configs}
        mains = {}
        err = None
        for j, f in futs:
            try:
                o = f.result()
            except BuildError as e:
                err = err or e
                continue
            if j[0] == 'lib':
                libs[j[2]].append(o)
            else:
                mains[(j[1], j[2])] = o
        if err:
            raise err

        def link(name, c):
            # the monitor includes this file, with other initializers
            own = ['Smt2_parser.cpp'] if name == 'monitor' else []
            objs = [mains[(name, c)]] + sorted(o for o in libs[c] if os.path.basename(o).rsplit('-', 1)[0] not in own)
            key = hashlib.sha256('\0'.join(objs + LINK[c]).encode()).hexdigest()[:32]
            exe = os.path.join(CACHE, 'bin-%s-%s-%s' % (name, c, key))
            if os.path.exists(exe):
                os.utime(exe)
                return exe
            tmp = exe + '.%d.tmp' % os.getpid()
            ex_libs = ['-lz3'] if name in Z3_HARNESS else []
            run([CXX] + LINK[c] + objs + ex_libs + ['-lgmpxx', '-lgmp', '-pthread', '-o', tmp])
            os.rename(tmp, exe)
            return exe
        futs = {(n, c): ex.submit(link, n, c) for n, c in targets}
        res = {k: f.result() for k, f in futs.items()}
    sys.stderr.write('build: %.1fs %s\n' % (time.time() - t0, ','.join('%s:%s' % t for t in targets)))
    return res


Z3_HARNESS = {'monitor', 'u_facade'}

if __name__ == '__main__':
    ts = [tuple(a.split(':')) for a in sys.argv[1:]]
    for k, v in build(ts).items():
        print(k, v)
