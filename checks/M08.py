"""M08: datasets are isolated: what happens to one, failures included, never shows in another."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import gc
import mir
aipy = load()

P = Prop('M08', rule='an execution keeps several datasets open for writing and reading, steps them in a random schedule, injects failing '
         'operations (bad opens, bad arguments, longer records than the buffer, undefined variables, refused selections, use after a '
         'failed constructor, more datasets than there are handles) and compares every dataset with its own model at the end; '
         'distinct by schedule',
         assumptions=['one writer per dataset; no dataset is read while it is being written'],
         require=['records_compared', 'failures_injected', 'interleavings', 'thread_switches'])


class Boom(Exception):
    pass


def fail_open(rng, mon, base):
    """An operation that must raise; returns its name."""
    UV = aipy.miriad.UV
    k = int(rng.integers(13))
    E = (IOError, RuntimeError, ValueError, KeyError, TypeError, AssertionError)
    d = os.path.join(base, 'bad%d' % rng.integers(10**9))
    if k == 0:
        f = lambda: UV(d)
    elif k == 1:
        f = lambda: UV(d, 'append')
    elif k == 2:
        f = lambda: UV(d, 'sideways')
    elif k == 3:
        os.makedirs(d)
        f = lambda: UV(d)
    elif k == 4:
        os.makedirs(d)
        open(os.path.join(d, 'header'), 'wb').write(bytes(rng.integers(256, size=int(rng.integers(0, 64)), dtype=np.uint8)))
        open(os.path.join(d, 'visdata'), 'wb').close()
        f = lambda: UV(d)
    elif k == 5:
        f = lambda: UV('', 'old')
    elif k == 6:
        f = lambda: UV(os.path.join(d, 'no', 'such', 'parent'), 'new')
    elif k == 7:
        open(d, 'w').write('a file, not a directory')
        f = lambda: UV(d)
    elif k == 8:
        f = lambda: UV(os.path.join(base, 'x' * 300), 'new')
    elif k == 9:
        f = lambda: UV(d, 'new', 'q')
    elif k == 11:
        have = sorted(n for n in os.listdir(base) if n.endswith('.uv') and os.path.isdir(os.path.join(base, n)))
        if not have:
            return -1
        d = os.path.join(base, have[rng.integers(len(have))])       # exists, finished or still being written
        f = lambda: UV(d, 'new')
    elif k == 10:
        def f():
            o = UV.__new__(UV)
            o.raw_read(4)
    else:
        def f():
            o = UV.__new__(UV)
            o.vartable = {'x': 'i'}
            o['x'] = 3
    with mon.raises(E, 'failing operation %d' % k):
        f()
    return k


def fail_write(rng, mon, uv):
    E = (IOError, RuntimeError, ValueError, KeyError, TypeError, AttributeError)
    k = int(rng.integers(10))
    ok = np.ma.array(np.ones(3, np.complex64), mask=[0, 0, 1])
    if k == 0:
        f = lambda: uv.raw_write((np.zeros(3), 1., (0, 1)), np.ones(3, np.complex64), np.ones(4, np.int32))
    elif k == 1:
        f = lambda: uv.write((np.zeros(2), 1., (0, 1)), ok)
    elif k == 2:
        f = lambda: uv.write((np.zeros(3), 'now', (0, 1)), ok)
    elif k == 3:
        f = lambda: uv.__setitem__('nosuchvar', 4)
    elif k == 4:
        f = lambda: uv['nosuchvar']
    elif k == 5:
        f = lambda: uv.write((np.zeros(3), 1.), ok)
    elif k == 6:
        f = lambda: uv.rewind()
    elif k == 7:
        f = lambda: uv.read()
    elif k == 8:
        f = lambda: uv.write((np.zeros(3), 1., (0, 1)), np.ma.array(np.ones((2, 2), np.complex64), mask=np.zeros((2, 2))))
    else:
        f = lambda: uv.raw_write((np.zeros(3), 1., (0, 1)), np.ones((3, 1), np.complex64), np.ones((3, 1), np.int32))
    with mon.raises(E, 'failing write %d' % k):
        f()
    return k


def fail_read(rng, mon, uv):
    E = (IOError, RuntimeError, ValueError, KeyError, TypeError)
    k = int(rng.integers(7))
    if k == 0:
        f = lambda: uv['nosuch']
    elif k == 1:
        f = lambda: uv['bandpass']
    elif k == 2:
        f = lambda: uv.select('time', 5, 4)
    elif k == 3:
        f = lambda: uv.select('decimate', 0, 0)
    elif k == 4:
        f = lambda: uv._rdvr('undefd', 'i')
    elif k == 6:
        f = lambda: uv.write((np.zeros(3), 1., (0, 1)), np.ma.array(np.ones(3, np.complex64), mask=[0, 0, 1]))
    else:
        f = lambda: uv.select('antennae', 5000, 1)
    with mon.raises(E, 'failing read operation %d' % k):
        f()
    if k in (2, 5):
        uv.select('clear', 0, 0)
    return k


@P.workload(quick=1200, thorough=10000)
def isolation(rng, mon):
    base = mon.tmp()
    dss = [mir.gen(rng, nchan=int(rng.integers(1, 40)), extra=3, nrec=int(rng.integers(1, 20))) for _ in range(int(rng.integers(2, 7)))]
    st = []
    for k, ds in enumerate(dss):
        ds.items = {'history': 'h%d' % k, 'freq0': 1. + k}
        st.append(dict(ds=ds, path=os.path.join(base, '%d.uv' % k), mode='idle', uv=None, pos=0, prev={}))
    done, sched = 0, []
    guard = 0
    while any(s['mode'] != 'done' for s in st) and guard < 3000:
        guard += 1
        k = int(rng.integers(len(st)))
        s = st[k]
        ds = s['ds']
        sched.append((k, s['mode']))
        r = rng.random()
        if r < .06:
            sched.append(('fail', fail_open(rng, mon, base)))
            mon.ev('failures_injected')
            continue
        if s['mode'] == 'idle':
            s['uv'] = aipy.miriad.UV(s['path'], 'new', ds.corrmode)
            mir.declare(s['uv'], ds)
            for n, v in ds.items.items():
                s['uv'][n] = v
            s['mode'] = 'write'
        elif s['mode'] == 'write':
            if r < .14:
                sched.append(('failw', fail_write(rng, mon, s['uv'])))
                mon.ev('failures_injected')
            elif s['pos'] == len(ds.recs):
                s['uv'], s['mode'], s['pos'] = None, 'written', 0
            else:
                s['prev'] = mir.write_recs(s['uv'], ds, ds.recs[s['pos']:s['pos'] + 1], prev=s['prev'])
                s['pos'] += 1
        elif s['mode'] == 'written':
            s['uv'], s['mode'] = aipy.miriad.UV(s['path']), 'read'
        elif s['mode'] == 'read':
            if r < .14:
                sched.append(('failr', fail_read(rng, mon, s['uv'])))
                mon.ev('failures_injected')
            elif s['pos'] == len(ds.recs):
                with mon.raises(IOError, 'reading past the end'):
                    s['uv'].read()
                mon.eq(s['uv']['history'], ds.items['history'], 'history')
                mon.eq(s['uv']['freq0'], ds.items['freq0'], 'freq0')
                s['uv'], s['mode'], s['pos'] = None, 'done', 0
            else:
                w = ds.recs[s['pos']]
                (uvw, t, ij), d, m = s['uv'].read(raw=True)
                mir.cmp_recs(mon, [mir.Rec(uvw, t, ij, d, m, mir.snapshot(s['uv'], list(ds.types)))], [w], ds.corrmode,
                             'dataset %d record %d' % (k, s['pos']))
                s['pos'] += 1
    mon.ev('interleavings')
    mon.case(tuple(sched))
    mon.sample(dict(datasets=len(st), schedule=sched[:25]))


@P.workload(quick=120, thorough=800)
def too_many(rng, mon):
    """More datasets than there are handles: the surplus is refused, the others keep working, handles are not lost."""
    base = mon.tmp()
    ds = mir.gen(rng, nchan=5, nrec=4, extra=2)
    p = os.path.join(base, 'a.uv')
    mir.write(aipy, p, ds)
    for _ in range(int(rng.integers(1, 4))):
        held, refused = [], 0
        for k in range(90):
            try:
                held.append(aipy.miriad.UV(p))
            except (RuntimeError, IOError):
                refused += 1
                mon.ev('failures_injected')
                if refused > 3:
                    break
        mon.check(len(held) >= 5, 'only %d datasets can be open' % len(held))
        for k in rng.permutation(len(held))[:6]:
            got = mir.read_all(held[int(k)], names=list(ds.types))
            mir.cmp_recs(mon, got, ds.recs, ds.corrmode, 'dataset %d of %d open' % (k, len(held)))
        n = len(held)
        drop = set(int(x) for x in rng.permutation(n)[:n // 2])
        held = [u for k, u in enumerate(held) if k not in drop]
        again = [aipy.miriad.UV(p) for _ in range(len(drop))]
        mir.cmp_recs(mon, mir.read_all(again[-1]), ds.recs, ds.corrmode, 're-opened', vars=False)
        del held, again
    mon.ev('interleavings')
    mon.case('many', n, refused, len(ds.recs))


@P.workload(quick=90, thorough=500)
def many_generations(rng, mon):
    """Handles and buffers survive hundreds of open/fail/close cycles."""
    base = mon.tmp()
    ds = mir.gen(rng, nchan=4, nrec=3, extra=1)
    p = os.path.join(base, 'a.uv')
    mir.write(aipy, p, ds)
    nfd = len(os.listdir('/proc/self/fd'))
    for k in range(120):
        if rng.random() < .5:
            fail_open(rng, mon, base)
            mon.ev('failures_injected')
        else:
            uv = aipy.miriad.UV(p)
            uv.read()
            del uv
    got = mir.read_all(aipy.miriad.UV(p), names=list(ds.types))
    mir.cmp_recs(mon, got, ds.recs, ds.corrmode, 'after many failures')
    gc.collect()
    mon.check(len(os.listdir('/proc/self/fd')) <= nfd + 2, 'file descriptors leaked: %d, were %d' % (len(os.listdir('/proc/self/fd')), nfd))
    mon.ev('interleavings')
    mon.case('gen', len(ds.recs))


@P.workload(quick=240, thorough=3000)
def threads(rng, mon):
    """Threads with datasets of their own, and one dataset that all read, under forced switching."""
    import threading, time
    base = mon.tmp()
    shared = mir.gen(rng, nchan=int(rng.integers(1, 40)), extra=2, nrec=int(rng.integers(2, 25)))
    sp = os.path.join(base, 's.uv')
    mir.write(aipy, sp, shared)
    n = int(rng.integers(2, 6))
    own = [mir.gen(rng, nchan=int(rng.integers(1, 40)), extra=3, nrec=int(rng.integers(2, 25))) for _ in range(n)]
    for k, ds in enumerate(own):
        ds.items = {'history': 'h%d' % k}
    seeds = [int(x) for x in rng.integers(2**31, size=n)]
    res, trace = [None] * n, []
    gate = threading.Barrier(n)

    def work(k):
        try:
            r = np.random.default_rng(seeds[k])
            p = os.path.join(base, '%d.uv' % k)
            out = []
            gate.wait()
            uv = aipy.miriad.UV(p, 'new', own[k].corrmode)
            mir.declare(uv, own[k])
            for it, v in own[k].items.items():
                uv[it] = v
            prev = {}
            for x in own[k].recs:
                prev = mir.write_recs(uv, own[k], [x], prev=prev)
                trace.append(k)
                if r.random() < .3:
                    time.sleep(0)
                if r.random() < .05:
                    try:
                        aipy.miriad.UV(os.path.join(base, 'nothing'))
                    except (IOError, RuntimeError):
                        pass
            del uv
            for q, ds in ((sp, shared), (p, own[k])):
                got = []
                uv = aipy.miriad.UV(q)
                while True:
                    try:
                        (uvw, t, ij), d, m = uv.read(raw=True)
                    except IOError:
                        break
                    trace.append(k)
                    if r.random() < .3:
                        time.sleep(0)
                    got.append(mir.Rec(uvw, t, ij, d, m, mir.snapshot(uv, list(ds.types))))
                out.append(got)
                hist = uv['history'] if ds is not shared else None
                del uv
            res[k] = (out, hist)
        except BaseException as e:
            res[k] = e
            gate.abort()

    si = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for t in th:
            t.start()
        for t in th:
            t.join(120)
    finally:
        sys.setswitchinterval(si)
    mon.check(not any(t.is_alive() for t in th), 'threads did not finish')
    for k in range(n):
        mon.check(not isinstance(res[k], BaseException), 'thread %d of %d: %r' % (k, n, res[k]))
        (a, b), hist = res[k]
        mir.cmp_recs(mon, a, shared.recs, shared.corrmode, 'shared dataset read by thread %d of %d' % (k, n))
        mir.cmp_recs(mon, b, own[k].recs, own[k].corrmode, 'own dataset of thread %d of %d' % (k, n))
        mon.eq(hist, own[k].items['history'], 'history of thread %d' % k)
    sw = sum(a != b for a, b in zip(trace, trace[1:]))
    mon.ev('thread_switches', sw)
    mon.ev('interleavings')
    mon.case('threads', n, sw, len(trace))


if __name__ == '__main__':
    P.main()
