"""Builds /repo's library (out of source, hooks on) and the harnesses."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('URKEL_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
SRC = os.path.join(VERIF, 'src')

COMMON = '-U__clang__ -g -fno-omit-frame-pointer -U_FORTIFY_SOURCE -fno-optimize-sibling-calls -DURKEL_VERIF'
COV = '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -fsanitize-coverage-ignorelist=' + os.path.join(SRC, 'cov-ignore.txt')
EDGES = ' -fsanitize-coverage=inline-8bit-counters'
VARIANTS = {
    # name: (library flags, harness link flags)
    'asan': (COMMON + EDGES + ' -O1 -fsanitize=address', '-fsanitize=address'),
    'ubsan': (COMMON + EDGES + ' -O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow -fno-sanitize-recover=all', '-fsanitize=address,undefined'),
    'tsan': (COMMON + ' -O1 -fsanitize=thread ' + COV, '-fsanitize=thread'),
    # a scheduling point at every basic block
    'cov': (COMMON + ' -O1 -fsanitize=address ' + COV, '-fsanitize=address'),
    # the library's own option: every commit synced
    'fsync': (COMMON + EDGES + ' -O1 -fsanitize=address -DURKEL_FSYNC', '-fsanitize=address'),
    'plain': (COMMON + ' -O1', ''),
    # tools/lines.py: which lines the checks reach
    'prof': (COMMON + ' -O1 -fprofile-instr-generate -fcoverage-mapping -mllvm -runtime-counter-relocation', '-fprofile-instr-generate'),
    'fuzz': (COMMON + ' -O1 -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize=nonnull-attribute,pointer-overflow -fno-sanitize-recover=all', '-fsanitize=address,undefined,fuzzer'),
    # the command line tool as users get it: no hooks
    'cli': ('-U__clang__ -g -O1', ''),
    'clisan': ('-U__clang__ -g -O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow -fno-sanitize-recover=all', ''),
}
WRAPS = '''open open64 openat openat64 close read pread pread64 write pwrite pwrite64 writev ftruncate ftruncate64 truncate truncate64
unlink remove rmdir rename mkdir stat stat64 lstat lstat64 fstat fstat64 access opendir closedir readdir readdir64 fsync fdatasync
fcntl fcntl64 flock mmap mmap64 munmap getcwd lseek lseek64 getrandom getentropy gettimeofday clock_gettime
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_rwlock_destroy
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy'''.split()
WRAP_FLAGS = ['-Wl,--wrap=' + w for w in WRAPS]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def repo_sources():
    out = [os.path.join(REPO, 'CMakeLists.txt'), os.path.join(REPO, 'liburkel.pc.in')]
    for d in ('src', 'include', 'cmake'):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs]
    return [p for p in out if os.path.isfile(p)]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock-' + name), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def library(variant):
    """Path of the static library (or tool, for 'cli') of the current tree."""
    flags, _ = VARIANTS[variant]
    tag = digest(repo_sources() + [os.path.join(SRC, 'nohook.c')], flags + REPO + os.environ.get('VERIF_NOHOOKS', ''))
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, tag))
    target = 'urkel_bin' if variant.startswith('cli') else 'urkel_static'
    out = os.path.join(d, 'urkel' if variant.startswith('cli') else 'liburkel.a')
    with Lock('lib-' + variant):
        if not os.path.exists(os.path.join(d, '.done')):
            for old in glob.glob(os.path.join(BUILD, 'lib-%s-*' % variant)):
                shutil.rmtree(old, ignore_errors=True)
            env_cc = 'clang'
            def build(flags):
                run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_C_COMPILER=' + env_cc, '-DCMAKE_BUILD_TYPE=None',
                     '-DCMAKE_C_FLAGS=' + flags, '-DBUILD_TESTING=OFF', '-DURKEL_ENABLE_DEBUG=ON', '-DURKEL_ENABLE_COVERAGE=OFF'])
                run(['ninja', '-C', d, target])
            hooks = '-DURKEL_VERIF' in flags and not os.environ.get('VERIF_NOHOOKS')
            try:
                build(flags if hooks else flags.replace('-DURKEL_VERIF', ''))
            except BuildError:
                # the tree builds without the hook only: check it with its own limits
                if not hooks:
                    raise
                hooks = False
                build(flags.replace('-DURKEL_VERIF', ''))
            if not hooks and not variant.startswith('cli'):
                for o in glob.glob(os.path.join(d, 'nohook.*')):
                    os.unlink(o)
                run(['clang', '-c', os.path.join(SRC, 'nohook.c'), '-o', os.path.join(d, 'nohook.o')])
                run(['ar', 'q', out, os.path.join(d, 'nohook.o')])
            open(os.path.join(d, '.done'), 'w').close()
    return out, tag


COMMON_SRCS = ['engine.cc', 'ref.cc', 'wrap.cc', 'sched.cc']
CXX = ['clang++', '-std=c++17', '-O2', '-g1', '-Wall', '-Wno-unused-function', '-Wno-deprecated-declarations', '-I' + os.path.join(REPO, 'include'), '-I' + SRC]


def obj(name, extra=()):
    src = os.path.join(SRC, name)
    deps = glob.glob(os.path.join(SRC, '*.hh')) + [src, os.path.join(REPO, 'include', 'urkel.h')]
    tag = digest(deps, ' '.join(CXX) + ' '.join(extra))
    o = os.path.join(BUILD, 'obj', '%s-%s.o' % (name, tag))
    with Lock('obj-' + name):
        if not os.path.exists(o):
            os.makedirs(os.path.dirname(o), exist_ok=True)
            for old in glob.glob(os.path.join(BUILD, 'obj', name + '-*.o')):
                os.unlink(old)
            run(CXX + list(extra) + ['-c', src, '-o', o + '.tmp'])
            os.rename(o + '.tmp', o)
    return o


def harness(prog, variant):
    """Binary of src/<prog>.cc with the library of this variant."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        fl = ex.submit(library, variant)
        fo = [ex.submit(obj, s) for s in COMMON_SRCS + [prog + '.cc']]
        lib, tag = fl.result()
        objs = [f.result() for f in fo]
    out = os.path.join(BUILD, 'bin', '%s-%s' % (prog, variant))
    key = digest(objs + [lib], variant)
    with Lock('bin-%s-%s' % (prog, variant)):
        try:
            if open(out + '.key').read() == key and os.path.exists(out):
                return out
        except OSError:
            pass
        os.makedirs(os.path.dirname(out), exist_ok=True)
        run(['clang++', '-g'] + VARIANTS[variant][1].split() + WRAP_FLAGS + ['-o', out + '.tmp'] + objs + [lib, '-lpthread'])
        os.rename(out + '.tmp', out)
        with open(out + '.key', 'w') as f:
            f.write(key)
    return out
