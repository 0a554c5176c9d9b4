"""N01: scatter-add adds every datum exactly once, and only into the array it was given."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
aipy = load()

P = Prop('N01', rule='an execution scatter-adds data into an array (a view inside a larger guarded buffer) and compares array and guard with '
         'numpy\'s unbuffered addition, or checks that a refused call raises and leaves the guard intact; distinct by dtype, rank, layout and '
         'index pattern',
         assumptions=['integer sums are compared modulo the width of the type'],
         require=['data_added', 'refused_calls', 'guard_bytes_checked'])

DT = ['?', 'b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'f', 'd', 'g', 'F', 'D', 'G']

WRAPS = os.environ.get('VF_VARIANT') != 'asan'      # the sanitizer build reports overflowing sums, which aipy's own build wraps


def fill(rng, dt, n):
    dt = np.dtype(dt)
    if dt.kind == 'b':
        return rng.random(n) < .5
    if dt.kind in 'iu':
        m = min(2**(8 * dt.itemsize - 1) - 1, 2**40 if WRAPS else 2**14)
        return (rng.integers(-m if dt.kind == 'i' and rng.random() < .8 else 0, m, size=n) // 64 * int(rng.choice([1, 1, 60]))).astype(dt)
    a = rng.normal(size=n) * 10.**rng.integers(-5, 6, size=n)
    if dt.kind == 'c':
        a = a + 1j * rng.normal(size=n)
    if rng.random() < .1 and n:
        a[rng.integers(n)] = rng.choice([np.inf, -np.inf, np.nan])
    return a.astype(dt)


def layout(rng, dt, shape, mon):
    """An array of that shape as a view inside a larger buffer of sentinels."""
    r = len(shape)
    big = tuple(int(s * k + p) for s, k, p in zip(shape, (rng.choice([1, 1, 2, 3], size=r)), rng.integers(0, 4, size=r)))
    steps = [int(rng.choice([-1, 1])) for _ in shape]
    dt = np.dtype(dt)
    buf = np.frombuffer(bytearray(rng.integers(0, 2 if dt.kind == 'b' or not WRAPS else 120, size=max(1, int(np.prod(big))) * dt.itemsize, dtype=np.uint8)), dtype=dt).copy()
    base = buf[:max(1, int(np.prod(big)))].reshape(big if r else (1,), order=str(rng.choice(['C', 'F'])))
    perm = None
    sl = []
    for s, b, st in zip(shape, big, steps):
        k = max(1, b // s) if s else 1
        k = int(rng.integers(1, k + 1))
        off = int(rng.integers(0, b - (s - 1) * k)) if s else 0
        idx = slice(off, off + (s - 1) * k + 1, k) if s else slice(0, 0)
        sl.append((idx, st))
    v = base[tuple(i for i, _ in sl)] if r else base[0:1].reshape(())
    v = v[tuple(slice(None, None, st) for _, st in sl)] if r else v
    return buf, v


def indices(rng, shape, n):
    cols = []
    for s in shape:
        c = rng.integers(-s, s, size=n)
        mode = rng.random()
        if mode < .25:
            c = np.full(n, rng.integers(-s, s))
        elif mode < .4:
            c = rng.choice([0, s - 1, -1, -s], size=n)
        cols.append(c)
    ind = np.array(cols, dtype=np.int_).T.reshape(n, len(shape))
    return ind


def relayout(rng, a):
    k = rng.random()
    if k < .3:
        return a
    if k < .5:
        return np.asfortranarray(a)
    if k < .75:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a[::-1].copy()[::-1]


def outside(buf, v):
    """Mask over buf's elements of those v does not show."""
    m = np.ones(buf.size, bool)
    if v.size:
        addr = np.zeros(v.shape, np.int64)
        for ax, (s, st) in enumerate(zip(v.shape, v.strides)):
            addr += (np.arange(s) * st).reshape([-1 if i == ax else 1 for i in range(v.ndim)])
        off = (v.__array_interface__['data'][0] - buf.__array_interface__['data'][0])
        m[(off + addr.ravel()) // buf.itemsize] = False
    return m


@P.workload(quick=36000, thorough=300000)
def adds(rng, mon):
    dt = str(rng.choice(DT))
    r = int(rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6]))
    shape = tuple(int(s) for s in rng.integers(1, 9 if r < 3 else 4, size=r))
    n = int(rng.choice([0, 1, 2, 10, 100, 1000]))
    with np.errstate(all='ignore'):
        buf, a = layout(rng, dt, shape, mon)
        ind, data = indices(rng, shape, n), fill(rng, dt, n)
        before = buf.copy()
        _, want = None, np.array(a)
        np.add.at(want, tuple(ind.T) if r else (), data) if r else [want.__iadd__(d) for d in data]
        out = outside(buf, a)
        ind_, data_ = relayout(rng, ind), relayout(rng, data)
        if rng.random() < .2:
            ind_.flags.writeable = False
            data_.flags.writeable = False
        i0, d0 = ind_.copy(), data_.copy()
        ret = aipy.utils.add2array(a, ind_, data_)
    mon.check(ret is None, 'add2array returns nothing')
    mon.ev('data_added', n)
    mon.eq(np.array(a), want, 'sums')
    mon.check(buf[out].tobytes() == before[out].tobytes(), 'memory outside the array changed')
    mon.ev('guard_bytes_checked', int(out.sum()) * buf.itemsize)
    mon.check(ind_.tobytes() == i0.tobytes() and data_.tobytes() == d0.tobytes(), 'indices or data were changed')
    mon.case('add', dt, shape, n, a.strides)
    mon.sample(dict(dtype=dt, shape=list(shape), strides=list(a.strides), n=n))


@P.workload(quick=18000, thorough=100000)
def refused(rng, mon):
    """Bad indices, shapes, types and read-only or byte-swapped arrays are refused."""
    dt = str(rng.choice(DT[1:]))
    r = int(rng.integers(1, 4))
    shape = tuple(int(s) for s in rng.integers(1, 6, size=r))
    n = int(rng.integers(1, 12))
    with np.errstate(all='ignore'):
        buf, a = layout(rng, dt, shape, mon)
        ind, data = indices(rng, shape, n), fill(rng, dt, n)
    out = outside(buf, a)
    before = buf.copy()
    k = str(rng.choice(['index', 'index', 'index', 'huge', 'shape', 'itype', 'dtype', 'readonly', 'swapped', 'object', 'unsupported', 'rank']))
    whole = k not in ('index', 'huge')
    args = [a, ind, data]
    if k in ('index', 'huge'):
        i, j = int(rng.integers(n)), int(rng.integers(r))
        ind[i, j] = rng.choice([shape[j], -shape[j] - 1, shape[j] + 1000, -10**6]) if k == 'index' else \
            int(rng.choice([2**31, 2**32, 2**32 + 1, -2**32, 2**63 - 1, -2**63, 2**33 + shape[j] - 1, -2**32 - 1]))
        ok = ind[:i]
        want = np.array(a)
        with np.errstate(all='ignore'):
            np.add.at(want, tuple(ok.T), data[:i])
    elif k == 'shape':
        args = [[a, ind[:-1], data], [a, ind, data[:-1]], [a, ind[:, :-1], data], [a, np.concatenate([ind, ind], 1), data], [a[None], ind, data]][int(rng.integers(5))]
    elif k == 'rank':
        args = [[a, ind.ravel(), data], [a, ind, data[:, None]], [a, ind[None], data]][int(rng.integers(3))]
    elif k == 'itype':
        args[1] = ind.astype(str(rng.choice(['i', 'h', 'd', 'f', 'F', 'L'])))
    elif k == 'dtype':
        other = [d for d in DT if np.dtype(d).num != np.dtype(dt).num]
        args[2] = np.zeros(n, str(rng.choice(other)))
    elif k == 'readonly':
        a.flags.writeable = False
    elif k == 'swapped':
        w = int(rng.integers(3))
        if args[w].dtype.itemsize == 1:
            w = 1
        args[w] = args[w].astype(args[w].dtype.newbyteorder())
    elif k == 'object':
        w = int(rng.integers(3))
        args[w] = [None, 3, args[w].tolist(), 'text', {}][int(rng.integers(5))]
    elif k == 'unsupported':
        t = str(rng.choice(['O', 'S3', 'M8[s]', 'e']))
        args[0], args[2] = np.zeros(shape, t), np.zeros(n, t)
        buf = None
    with mon.raises((ValueError, TypeError, IndexError), 'a call with bad %s' % k, shape=list(shape)):
        aipy.utils.add2array(*args)
    mon.ev('refused_calls')
    if buf is not None:
        mon.check(buf[out].tobytes() == before[out].tobytes(), 'memory outside the array changed')
        mon.ev('guard_bytes_checked', int(out.sum()) * buf.itemsize)
        if whole:
            mon.check(buf.tobytes() == before.tobytes(), 'a refused call changed the array')
        else:
            x = np.array(a)
            mon.check(same(x, want) or buf.tobytes() == before.tobytes(), 'a refused index left something else than the data before it')
    mon.case('refused', k, dt, shape, n)


@P.workload(quick=360, thorough=1000)
def histogram(rng, mon):
    """Large scatter-adds conserve the total."""
    n = int(rng.integers(10**4, 3 * 10**5))
    shape = tuple(int(s) for s in rng.integers(1, 300, size=2))
    a = np.zeros(shape, np.int_)
    ind = np.array([rng.integers(-s, s, size=n) for s in shape]).T
    data = rng.integers(-1000, 1000, size=n)
    aipy.utils.add2array(a, ind, data)
    mon.ev('data_added', n)
    mon.eq(a.sum(), data.sum(), 'total')
    flat = np.bincount((ind[:, 0] % shape[0]) * shape[1] + ind[:, 1] % shape[1], minlength=a.size)
    b = np.zeros(shape, np.int_)
    aipy.utils.add2array(b, ind, np.ones(n, np.int_))
    mon.eq(b.ravel(), flat, 'counts')
    mon.case('hist', shape, n)


if __name__ == '__main__':
    sys.exit(P.main())
