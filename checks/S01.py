"""S01: no use of the MIRIAD layer corrupts memory, reads uninitialised memory or has undefined behaviour."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *
import mir
import M01, M02, M03, M04, M05, M06, M07, M08, M09, M10, M11
aipy = load()

P = Prop('S01', rule='an execution is one of the workloads of the Miriad checks (round trips, variables, headers, cloning, selection, rewinding, '
         'appending, failures, damaged datasets, argument fuzzing) run on an AddressSanitizer+UndefinedBehaviorSanitizer build, or on the '
         'optimised build under valgrind memcheck; distinct by the workload\'s own key',
         assumptions=['raw low-level handles are used as UV objects do', 'memory errors only: the values are judged by the M checks'],
         require=['sanitized', 'memcheck_iterations', 'records_compared', 'api_calls'])

# workload: (iterations quick, thorough) under ASan+UBSan, and under memcheck
PLAN = {
    'M01': dict(roundtrip=((100, 3000), (14, 200)), long_streams=((8, 100), (0, 4))),
    'M02': dict(_all=((60, 2000), (5, 80))),
    'M03': dict(_all=((60, 2000), (8, 100))),
    'M04': dict(_all=((100, 3000), (10, 150))),
    'M05': dict(programs=((60, 2500), (1, 24)), baseline_lists=((60, 2500), (4, 100))),
    'M06': dict(_all=((40, 1500), (5, 80))),
    'M07': dict(_all=((60, 2000), (8, 100))),
    'M08': dict(_all=((60, 2000), (3, 50))),
    'M09': dict(_all=((500, 15000), (40, 600))),
    'M10': dict(stored=((4, 40), (0, 2))),
    'M11': dict(_all=((30, 800), (0, 0))),
}


def add(mod, name, w, counts, variant):
    if not counts[0]:
        return

    def fn(rng, mon):
        mon.ev('sanitized')
        try:
            w['fn'](rng, mon)
        except Skip:
            raise
        except (Violation, Exception):
            mon.ev('ended_early')       # behaviour is for the M checks to judge
    fn.__name__ = '%s_%s_%s' % (mod, name, variant)
    P.workload(quick=counts[0], thorough=counts[1], variant=variant, cpu=4 * w['cpu'], cost=w['cost'] * (3 if variant == 'asan' else 25))(fn)


for mod, plan in PLAN.items():
    loads = globals()[mod].P.loads
    for name, w in loads.items():
        c = plan.get(name) or plan.get('_all')
        if c:
            add(mod, name, w, c[0], 'asan')
            add(mod, name, w, c[1], 'memcheck')


if aipy and os.environ['VF_VARIANT'] == 'memcheck':        # shadow memory is not lazily allocated
    class Small(aipy.miriad.UV):
        def raw_read(self, n):
            if n > 10**6:
                raise MemoryError(n)
            return super().raw_read(n)
    aipy.miriad.UV = Small


# ------------------------------------------------------------------ argument fuzzing
NAMES = ['', 'a', 'nchan', 'corr', 'coord', 'x' * 8, 'x' * 9, 'y' * 100, 'zz' * 300, 'n\0x', 'é', 'baseline', 'time', 'flags', 'wflags', 'wcorr',
         'header', 'visdata', 'vartable', 'history', '/', '../x', '.']


def value(rng, depth=0):
    k = int(rng.integers(22))
    n = int(rng.choice([0, 1, 2, 3, 5, 8, 40, 1000]))
    a = rng.normal(size=n)
    return [lambda: int(rng.choice([0, 1, -1, 2**31 - 1, -2**31, 2**31, 2**63, -2**70, 255])),
            lambda: float(rng.choice([0, 1.5, -1e300, 1e-320, np.nan, np.inf])),
            lambda: complex(1, np.nan), lambda: None, lambda: str(rng.choice(NAMES)), lambda: b'bytes\0x', lambda: [], lambda: {},
            lambda: a, lambda: a.astype(np.float32), lambda: a.astype(np.complex64), lambda: a.astype(complex), lambda: (a * 9).astype(np.int32),
            lambda: (a * 9).astype(np.int64), lambda: (a * 9).astype(np.int16), lambda: a > 0, lambda: a[::2], lambda: a[::-1],
            lambda: a.astype('>f8'), lambda: np.array([None, 1, 'x'], object), lambda: rng.normal(size=(2, 3)),
            lambda: tuple(value(rng, depth + 1) for _ in range(int(rng.integers(4)))) if depth < 2 else ()][k]()


GOOD_PRE = [lambda rng: (np.zeros(3), 2455000.5, (0, 1))]


def preamble(rng):
    if rng.random() < .6:
        return (np.zeros(3), 2455000.5, (int(rng.integers(5)), int(rng.integers(5))))
    return (value(rng), value(rng), (value(rng), value(rng))) if rng.random() < .7 else value(rng)


def call(rng, mon, uv, base):
    m = str(rng.choice(['set', 'get', 'add_var', 'write', 'raw_write', 'read', 'raw_read', 'select', 'rewind', 'vars', 'items', 'copyvr',
                        'trackvr', 'wrhd', 'rdhd', 'init', 'pipe', 'type']))
    name = str(rng.choice(NAMES))
    vt = str(rng.choice(['a', 'i', 'j', 'r', 'd', 'c', 'b', '', 'zz', 'é']))
    n = int(rng.choice([0, 1, 2, 31, 32, 70, 4096]))
    d = np.zeros(n, np.complex64)
    return m, {
        'set': lambda: uv.__setitem__(name, value(rng)),
        'get': lambda: uv[name],
        'add_var': lambda: uv.add_var(name, vt),
        'write': lambda: uv.write(preamble(rng), np.ma.array(d, mask=np.zeros(n)) if rng.random() < .7 else value(rng)),
        'raw_write': lambda: uv.raw_write(preamble(rng), d if rng.random() < .6 else value(rng),
                                          np.ones(int(rng.choice([n, n, n, 0, 1, n + 1])), np.int32) if rng.random() < .7 else value(rng)),
        'read': lambda: uv.read(),
        'raw_read': lambda: uv.raw_read(int(rng.choice([0, 1, -1, 5, 100, 4096, 10**6, -2**31]))),
        'select': lambda: uv.select(str(rng.choice(['antennae', 'time', 'polarization', 'decimate', 'visibility', 'auto', 'or', 'and', 'clear',
                                                    'uvrange', 'amplitude', 'shadow', 'window', 'on', 'nonsense', ''])),
                                    value(rng) if rng.random() < .4 else float(rng.integers(-3, 9)), float(rng.integers(-3, 9)), include=bool(rng.random() < .5)),
        'rewind': lambda: uv.rewind(), 'vars': lambda: uv.vars(), 'items': lambda: uv.items(),
        'copyvr': lambda: uv.copyvr(uv), 'trackvr': lambda: uv.trackvr(name, str(rng.choice(['c', 'u', 'uc', '', 'q']))),
        'wrhd': lambda: uv.__setitem__(str(rng.choice(['history', 'freq0', 'nfeeds', 'obstype', 'bandpass', 'leakage'])), value(rng)),
        'rdhd': lambda: uv[str(rng.choice(['history', 'freq0', 'nfeeds', 'obstype', 'bandpass', 'leakage']))],
        'init': lambda: uv.init_from_uv(aipy.miriad.UV(os.path.join(base, 'src.uv')), override={name: value(rng)} if rng.random() < .5 else {}),
        'pipe': lambda: uv.pipe(aipy.miriad.UV(os.path.join(base, 'src.uv')), raw=bool(rng.random() < .5)),
        'type': lambda: aipy.miriad.UV.__init__(uv, os.path.join(base, 'src.uv')),
    }[m]


def fuzz(rng, mon):
    """Method calls in any order with any arguments: an exception at worst."""
    mon.ev('sanitized')
    base = mon.tmp()
    ds = mir.gen(rng, nchan=int(rng.choice([1, 4, 40])), nrec=5, extra=2)
    mir.write(aipy, os.path.join(base, 'src.uv'), ds)
    seq = []
    for status in ('new', 'old', 'append'):
        try:
            uv = aipy.miriad.UV(os.path.join(base, 'f.uv'), status, str(rng.choice(['r', 'j', 'x', ''])) if rng.random() < .3 else 'r')
        except Exception:
            continue
        for _ in range(int(rng.integers(1, 14))):
            m, f = call(rng, mon, uv, base)
            seq.append(m)
            if os.environ.get('VF_TRACE'):
                print(status, m, [c.cell_contents for c in f.__closure__ or () if not callable(c.cell_contents)][:6], file=open(os.environ['VF_TRACE'], 'a'), flush=True)
            mon.ev('api_calls')
            try:
                f()
            except Exception as e:
                mon.ev('api_errors')
                del e
            f = None
        del uv
    mon.case('fuzz', tuple(seq))


fuzz_asan = P.workload(quick=600, thorough=20000, variant='asan')(fuzz)
P.loads['fuzz_memcheck'] = dict(P.loads.pop('fuzz'), quick=30, thorough=600, variant='memcheck', cost=25)
P.loads['fuzz_asan'] = dict(P.loads['fuzz_memcheck'], quick=2500, thorough=80000, variant='asan', cost=1)

@P.workload(quick=39, thorough=208, cost=8)
def memory_kept(rng, mon):
    """Repeating an operation keeps no memory and no reference."""
    base = mon.tmp()
    ds = mir.gen(rng, nchan=40, nrec=6, extra=3)
    src, dst = os.path.join(base, 'src.uv'), os.path.join(base, 'dst.uv')
    mir.write(aipy, src, ds)
    M = aipy.miriad
    uv, names = M.UV(src), list(ds.types)
    new = M.UV(os.path.join(base, 'w.uv'), 'new')
    for n, t in [('va', 'a'), ('vi', 'i'), ('vd', 'd'), ('vr', 'r'), ('vj', 'j'), ('vc', 'c'), ('nchan', 'i')]:
        new.add_var(n, t)
    pre, d = (np.zeros(3), 2455000., (0, 1)), np.ma.zeros(40, np.complex64)

    def attempt(f):
        try:
            f()
        except (RuntimeError, IOError, ValueError, TypeError, KeyError):
            pass

    def opened():
        x = M.UV(src)
        x.read()
        del x

    def written():
        import shutil
        mir.write(aipy, dst, ds)
        shutil.rmtree(dst)

    def read():
        uv.rewind()
        for x in uv.all():
            pass

    def selected():
        uv.rewind()
        uv.select('antennae', 0, 1)
        uv.select('time', 0, 1)
        attempt(uv.read)
        uv.select('clear', 0, 0)
        uv.rewind()
        uv.read()

    def got():
        mir.snapshot(uv, names)

    def put():
        for n, v in [('va', 'text'), ('vi', 3), ('vd', 2.), ('vr', 1.5), ('vj', 2), ('vc', 1j), ('vd', np.arange(5.)), ('vi', np.arange(3))]:
            new[n] = v
        new.write(pre, d)
    def ended():        # reads past the end, and of what another selection excludes
        if not end:
            end.append(M.UV(src))
            for x in end[0].all():
                pass
        attempt(end[0].read)
        attempt(lambda: end[0].read(raw=True))
    end = []
    k = mon.now[1] % 13
    ops = [opened, written, read, selected, got, put,
           lambda: attempt(lambda: uv.raw_read(3)), lambda: attempt(lambda: new.raw_write(pre, d.data, np.zeros(3, np.int32))),
           lambda: attempt(lambda: M.UV(os.path.join(base, 'none'))), lambda: (uv.items(), uv.vars(), attempt(lambda: uv['history'])),
           lambda: attempt(lambda: new.write((np.zeros(2), 1., (0, 1)), d)), lambda: attempt(lambda: new.__setitem__('vi', 'text')), ended]
    mon.ev('leak_checks')
    mon.leaks(ops[k], 'operation %d' % k, n=60)
    mon.case('leak', k, len(ds.recs))


if os.environ.get('VF_ONLY_VARIANT'):
    P.loads = {k: v for k, v in P.loads.items() if v['variant'] == os.environ['VF_ONLY_VARIANT']}

if __name__ == '__main__':
    sys.exit(P.main())
