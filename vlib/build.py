"""Builds the symbolic executor, the repo's bitcode and native replay binaries."""
import hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RSYM_REPO', '/repo')
BUILD = os.environ.get('RSYM_BUILD', os.path.join(ROOT, 'build'))
PYINC = '/usr/include/python3.12'
NPINC = '/opt/vp/venv/lib/python3.12/site-packages/numpy/core/include'
TBBINC = '/opt/vp/venv/include'
SKIP = {'Logger.cpp'}
# longest first so that parallel builds finish early
SLOW = ['HashLinear', 'GroupBy', 'Ema', 'Sort', 'Convert', 'BasicMath', 'UnaryOps', 'Reduce', 'one_input', 'MultiKey', 'Merge']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def find_numpy():
    if os.path.isdir(NPINC):
        return NPINC
    out = sh(['/opt/vp/venv/bin/python', '-c', 'import numpy;print(numpy.get_include())'])
    return out.stdout.strip()


def engine():
    r = sh(['bash', os.path.join(ROOT, 'engine', 'build.sh'), BUILD])
    if r.returncode:
        raise RuntimeError('engine build failed\n' + r.stdout[-3000:])
    return os.path.join(BUILD, 'rsym')


def common_inc(src):
    return ['-isystem', '/opt/vp/compat', '-I' + src, '-I' + PYINC, '-I' + find_numpy(), '-I' + TBBINC, '-DBUILDING_RIPTIDE_CPP', '-DNDEBUG',
            '-D__GCC_DESTRUCTIVE_SIZE=64', '-D__GCC_CONSTRUCTIVE_SIZE=64']


CLANG = ['clang++', '-x', 'c++', '-std=c++20', '-fpermissive', '-fno-strict-aliasing', '-mavx2', '-mbmi2', '-pthread', '-O1', '-fno-vectorize',
         '-fno-slp-vectorize', '-ffp-contract=off', '-w', '-emit-llvm', '-c']
GXX = ['g++', '-x', 'c++', '-std=c++20', '-fpermissive', '-fno-strict-aliasing', '-mavx2', '-mbmi2', '-pthread', '-O2', '-ffp-contract=off', '-w', '-fPIC', '-c',
       '-ffunction-sections', '-fdata-sections']


class Sources:
    """A copy of /repo/src with the logging front end replaced and one GCC-only construct rewritten (see DESIGN.md)."""

    def __init__(self):
        h = hashlib.sha256()
        src = os.path.join(REPO, 'src')
        self.files = []
        for d, ds, fs in os.walk(src):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, src)
                if rel.startswith('logging/') or rel in SKIP:
                    continue
                self.files.append(rel)
        self.headers = hashlib.sha256(b'overlay 2')
        ov = os.path.join(ROOT, 'rt', 'overlay', 'logging.h')
        self.headers.update(open(ov, 'rb').read())
        for rel in self.files:
            if not rel.endswith('.cpp'):
                self.headers.update(rel.encode() + b'\0' + open(os.path.join(src, rel), 'rb').read())
        self.headers = self.headers.hexdigest()
        self.tus = [f for f in self.files if f.endswith('.cpp') and '/' not in f]
        self.src = src
        self.dir = None
        tot = hashlib.sha256(self.headers.encode())
        for t in self.tus:
            tot.update(open(os.path.join(src, t), 'rb').read())
        self.hash = tot.hexdigest()

    def materialise(self):
        if self.dir:
            return self.dir
        d = os.path.join(BUILD, 'src-' + self.hash[:16])
        if not os.path.isdir(d):
            tmp = d + '.tmp%d' % os.getpid()
            for rel in self.files:
                q = os.path.join(tmp, rel)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                data = open(os.path.join(self.src, rel), 'rb').read()
                if rel == 'basic_ops.h':
                    import re
                    data = re.sub(rb'(is_same_v<__m256[di]? const, )y>', rb'\1decltype(y)>', data)
                if rel == 'platform_detect.h':  # the shipped build uses GCC: take the same branches
                    data = data.replace(b'#define RT_COMPILER_CLANG 1', b'#define RT_COMPILER_GCC 1')
                open(q, 'wb').write(data)
            os.makedirs(os.path.join(tmp, 'logging'), exist_ok=True)
            shutil.copy(os.path.join(ROOT, 'rt', 'overlay', 'logging.h'), os.path.join(tmp, 'logging', 'logging.h'))
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.dir = d
        return d

    def tu_key(self, tu, flags):
        h = hashlib.sha256(self.headers.encode())
        h.update(open(os.path.join(self.src, tu), 'rb').read())
        h.update(' '.join(flags).encode())
        return h.hexdigest()[:20]


def compile_one(cmd, src, out, inc):
    if os.path.exists(out):
        return None
    tmp = out + '.tmp%d' % os.getpid()
    r = sh(cmd + inc + [src, '-o', tmp])
    if r.returncode:
        return '%s: %s' % (src, r.stdout[-2000:])
    os.rename(tmp, out)
    return None


def compile_tus(S, tus, native=False, extra=()):
    """Compile repo translation units; returns {tu: path}."""
    d = S.materialise()
    flags = (GXX if native else CLANG) + list(extra)
    outdir = os.path.join(BUILD, 'obj' if native else 'bc')
    os.makedirs(outdir, exist_ok=True)
    rank = {n: i for i, n in enumerate(SLOW)}
    tus = sorted(tus, key=lambda t: rank.get(t[:-4], 99))
    res, errs = {}, []

    def go(t):
        out = os.path.join(outdir, t[:-4] + '-' + S.tu_key(t, flags) + ('.o' if native else '.bc'))
        e = compile_one(flags, os.path.join(d, t), out, common_inc(d))
        return t, out, e

    with ThreadPoolExecutor(8) as ex:
        for t, out, e in ex.map(go, tus):
            res[t] = out
            if e:
                errs.append(e)
    if errs:
        raise RuntimeError('compilation failed\n' + '\n'.join(errs))
    return res


def aux_hash():
    h = hashlib.sha256()
    for f in ('sym.h', 'rt.h'):
        p = os.path.join(ROOT, 'rt', f)
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    hd = os.path.join(ROOT, 'harness')
    if os.path.isdir(hd):
        for f in sorted(os.listdir(hd)):
            if f.endswith('.h'):
                h.update(open(os.path.join(hd, f), 'rb').read())
    return h.hexdigest()


def compile_aux(path, native=False, srcdir=None):
    """Compile a harness or runtime source."""
    flags = (GXX if native else CLANG)
    h = hashlib.sha256(aux_hash().encode())
    h.update(open(path, 'rb').read())
    h.update(' '.join(flags).encode())
    uses_repo = b'riptide-headers' in open(path, 'rb').read()
    if uses_repo:
        h.update(srcdir.encode())
    outdir = os.path.join(BUILD, 'obj' if native else 'bc')
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, 'aux-' + os.path.basename(path)[:-4] + '-' + h.hexdigest()[:20] + ('.o' if native else '.bc'))
    inc = ['-isystem', '/opt/vp/compat', '-I' + os.path.join(ROOT, 'rt'), '-I' + os.path.join(ROOT, 'harness'), '-I' + PYINC, '-I' + find_numpy(), '-DNDEBUG']
    if uses_repo:
        inc += ['-I' + srcdir, '-I' + TBBINC, '-DBUILDING_RIPTIDE_CPP', '-D__GCC_DESTRUCTIVE_SIZE=64', '-D__GCC_CONSTRUCTIVE_SIZE=64']
    e = compile_one(flags, path, out, inc)
    if e:
        raise RuntimeError(e)
    return out


def native_binary(S, harness, main_srcs=('fakepy.cpp', 'native.cpp', 'threads.cpp')):
    objs = list(compile_tus(S, S.tus, native=True).values())
    objs += [compile_aux(os.path.join(ROOT, 'rt', f), native=True, srcdir=S.materialise()) for f in main_srcs]
    objs.append(compile_aux(harness, native=True, srcdir=S.materialise()))
    out = os.path.join(BUILD, 'native-' + os.path.basename(harness)[:-4] + '-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = sh(['g++', '-pthread'] + objs + ['-o', tmp, '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', '-rdynamic', '-ldl'])
        if r.returncode:
            raise RuntimeError('native link failed\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out
