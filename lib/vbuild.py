"""Builds aipy from /repo's current working tree, outside /repo.

`get(variant)` returns a directory D such that PYTHONPATH=D imports an `aipy`
package made of /repo's current Python files and of extension modules compiled
from /repo's current C/C++ sources.  Variants:

  plain   the compiler flags setuptools would use (-O2)
  asan    -fsanitize=address,undefined (run with env(variant))

Builds are cached under /verif/.build by a hash of everything that goes in, so a
changed source (C, C++, header or Python) always leads to a new build.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AIPY_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = os.path.join(VERIF, '.build')

VARIANTS = {
    'plain': dict(flags=['-O2', '-g'], link=[]),
    # -fwrapv etc. deliberately absent: signed overflow is to be reported.
    # vptr needs RTTI of python's own objects; alignment is checked separately
    # (see DESIGN.md: the MIRIAD layer reads 4-byte type tags out of char[4]).
    'asan': dict(flags=['-O1', '-g', '-fno-omit-frame-pointer',
                        '-fsanitize=address,undefined',
                        '-fno-sanitize=vptr,alignment',
                        '-fsanitize=bounds-strict', '-fno-sanitize-recover=all'],
                 link=['-fsanitize=address,undefined']),
}
COMMON = ['-fPIC', '-w', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION']


def _pyinfo():
    code = ("import sysconfig, numpy; print(sysconfig.get_paths()['include']);"
            "print(numpy.get_include()); print(sysconfig.get_config_var('EXT_SUFFIX'));"
            "print(numpy.__version__)")
    return subprocess.check_output([PY, '-c', code], text=True).split('\n')[:4]


def extensions(repo):
    """The extension modules, as setup.py declares them (evaluated, not parsed)."""
    code = r'''
import sys, json, setuptools, os
os.chdir(sys.argv[1])
sys.path.insert(0, sys.argv[1])
got = {}
def fake(**kw): got.update(kw)
setuptools.setup = fake
src = open("setup.py").read()
exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
print(json.dumps([[e.name, e.sources, e.include_dirs,
                   [list(m) for m in e.define_macros]] for e in got["ext_modules"]]))
'''
    out = subprocess.check_output([PY, '-W', 'ignore', '-c', code, repo], text=True)
    import json
    return json.loads(out.strip().split('\n')[-1])


def _sources(repo):
    r = []
    for d, ds, fs in os.walk(os.path.join(repo, 'aipy')):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        for f in sorted(fs):
            if f.endswith(('.so', '.pyc', '.o')):
                continue
            r.append(os.path.join(d, f))
    sd = os.path.join(repo, 'scripts')
    if os.path.isdir(sd):
        r += [os.path.join(sd, f) for f in sorted(os.listdir(sd))
              if os.path.isfile(os.path.join(sd, f))]
    r.append(os.path.join(repo, 'setup.py'))
    return r


def tree_hash(repo):
    h = hashlib.sha256()
    for p in _sources(repo):
        h.update(os.path.relpath(p, repo).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


class BuildError(Exception):
    pass


def get(variant='plain', repo=None):
    repo = repo or REPO
    if variant == 'memcheck':       # the optimised build, run under valgrind
        variant = 'plain'
    spec = VARIANTS[variant]
    os.makedirs(CACHE, exist_ok=True)
    inc, npinc, suffix, npver = _pyinfo()
    key = hashlib.sha256('|'.join([tree_hash(repo), variant, repr(spec), repr(COMMON),
                                   npver, suffix]).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, variant + '-' + key)
    with open(os.path.join(CACHE, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'OK')):
            os.utime(out)
            return out
        _prune(variant)
        tmp = out + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(repo, 'aipy'), os.path.join(tmp, 'aipy'),
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
        if os.path.isdir(os.path.join(repo, 'scripts')):
            shutil.copytree(os.path.join(repo, 'scripts'), os.path.join(tmp, 'scripts'))
        vp = os.path.join(tmp, 'aipy', '_version.py')
        if not os.path.exists(vp):
            with open(vp, 'w') as f:
                f.write("__version__ = version = '3.0.2'\n")
        exts = extensions(repo)
        jobs = []
        objs = {}
        for name, srcs, incs, macros in exts:
            objs[name] = []
            for s in srcs:
                o = os.path.join(tmp, 'obj', name + '__' + s.replace('/', '_') + '.o')
                objs[name].append(o)
                cxx = s.endswith(('.cpp', '.cc', '.cxx'))
                cmd = (['g++'] if cxx else ['gcc']) + COMMON + spec['flags'] + ['-I' + inc, '-I' + npinc]
                for i in incs:
                    cmd.append('-I' + (i if os.path.isabs(i) else os.path.join(tmp, i)))
                for m in macros:
                    cmd.append('-D' + m[0] + ('' if len(m) < 2 or m[1] is None else '=' + m[1]))
                jobs.append(cmd + ['-c', os.path.join(tmp, s), '-o', o])
        os.makedirs(os.path.join(tmp, 'obj'))

        def run(cmd):
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise BuildError(' '.join(cmd) + '\n' + p.stderr)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
            links = []
            for name, _, _, _ in exts:
                so = os.path.join(tmp, name.replace('.', '/') + suffix)
                links.append(['g++', '-shared', '-o', so] + objs[name] + spec['link'])
            list(ex.map(run, links))
        shutil.rmtree(os.path.join(tmp, 'obj'))
        open(os.path.join(tmp, 'OK'), 'w').close()
        os.rename(tmp, out)
    return out


def _prune(variant, keep=3):
    ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith(variant + '-')]
    ds.sort(key=lambda d: os.path.getmtime(d))
    now = time.time()
    for d in ds[:-keep] if len(ds) > keep else []:
        if now - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)


def prefix(variant, logdir):
    if variant != 'memcheck':
        return []
    return ['valgrind', '--tool=memcheck', '-q', '--error-limit=no', '--num-callers=24', '--track-origins=yes',
            '--fullpath-after=', '--leak-check=no', '--read-var-info=no', '--log-file=' + os.path.join(logdir, 'vg.%p')]


def env(variant, build, logdir=None):
    e = dict(os.environ)
    for k in ('CC', 'CXX', 'CFLAGS', 'CXXFLAGS', 'PYTHONPATH', 'LD_PRELOAD'):
        e.pop(k, None)
    e.update(PYTHONPATH=build + ':' + os.path.join(VERIF, 'lib') + ':' + VERIF,
             PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', LANG='C.UTF-8', LC_ALL='C.UTF-8',
             PYTHONFAULTHANDLER='', PYTHONWARNINGS='ignore', AIPY_VBUILD=build)
    e.pop('PYTHONFAULTHANDLER')
    if variant == 'memcheck':
        e['PYTHONMALLOC'] = 'malloc'
    if variant == 'asan':
        lib = [subprocess.check_output(['gcc', '-print-file-name=' + n], text=True).strip()
               for n in ('libasan.so', 'libubsan.so', 'libstdc++.so.6')]
        e['LD_PRELOAD'] = ' '.join(os.path.realpath(x) for x in lib)
        e['PYTHONMALLOC'] = 'malloc'
        log = os.path.join(logdir, 'san') if logdir else 'stderr'
        e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:'
                             'allocator_may_return_null=1:handle_segv=1:handle_sigfpe=1:handle_abort=1:'
                             'detect_odr_violation=0:log_path=' + log)
        e['UBSAN_OPTIONS'] = ('halt_on_error=1:print_stacktrace=1:abort_on_error=0:'
                              'exitcode=99:log_path=' + log)
    return e


if __name__ == '__main__':
    t = time.time()
    for v in sys.argv[1:] or ['plain', 'asan']:
        print(v, get(v), '%.1fs' % (time.time() - t))
