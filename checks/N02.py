"""N02: gridding spreads each datum over the periodic grid with its Gaussian weights; degridding is the weighted mean back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
aipy = load()

P = Prop('N02', rule='an execution grids or degrids data at given fractional positions on a 1-d or 2-d periodic buffer and compares every '
         'cell with a direct double-precision sum over cells within the footprint, or checks a refused call; distinct by shape, footprint and '
         'index pattern',
         assumptions=['the kernel is a Gaussian of sigma 0.5 cells, normalised in the continuum; single precision'],
         require=['data_gridded', 'data_degridded', 'refused_calls'])
F, C = np.float32, np.complex64
EPS = float(np.finfo(F).eps)


def cells(x, fp):
    """Cells a datum at x reaches, and their distances."""
    x = F(x)
    h = F(int(fp / 2))
    lo, hi = int(np.floor(F(x - h))), int(np.ceil(F(x + h)))
    if (lo, hi) != (int(np.floor(float(x) - int(fp / 2))), int(np.ceil(float(x) + int(fp / 2)))):
        raise Skip()        # whether an edge cell belongs depends on the precision
    j = np.arange(lo, hi + 1)
    return j, np.float64(F(x) - j.astype(F))


def weights(x, fp, dim, norm):
    j, d = cells(x, fp)
    w = np.zeros(dim)
    np.add.at(w, j % dim, np.exp(-2 * d**2) * norm)
    e = np.zeros(dim)       # how far single precision may be off
    np.add.at(e, j % dim, np.exp(-2 * d**2) * norm * EPS * 8 * (1 + d**2))
    return w, e


N1 = np.sqrt(2 / np.pi)


def positions(rng, dim, n):
    k = rng.random()
    if k < .3:
        x = rng.integers(-2 * dim, 3 * dim, size=n).astype(float)
    elif k < .6:
        x = rng.uniform(-dim, 2 * dim, size=n)
    elif k < .75:
        x = rng.choice([0., -.5, .5, dim - 1., dim - .5, dim, -dim, 1e-6, -1e-6], size=n)
    elif k < .9:
        x = np.full(n, rng.uniform(0, dim))
    else:
        x = rng.uniform(-1, 1, size=n) * 10.**rng.uniform(0, 5, size=n)
    return x.astype(F)


def footprint(rng):
    return int(rng.choice([6, 6, 6, 0, 1, 2, 3, 4, 5, 7, 8, 10, 12]))


@P.workload(quick=13500, thorough=60000)
def grid1d(rng, mon):
    dim, n, fp = int(rng.choice([1, 2, 3, 5, 8, 16, 33, 64])), int(rng.choice([0, 1, 2, 7, 40])), footprint(rng)
    x = positions(rng, dim, n)
    d = ((rng.normal(size=n) + 1j * rng.normal(size=n)) * 10.**rng.integers(-3, 4)).astype(C)
    b0 = ((rng.normal(size=dim) + 1j * rng.normal(size=dim)) * int(rng.random() < .3)).astype(C)
    guard = np.full(dim + 64, 7 + 7j, C)
    b = guard[32:32 + dim]
    b[:] = b0
    x0, d0 = x.copy(), d.copy()
    args = (b, x, d) + ((fp,) if fp != 6 or rng.random() < .5 else ())
    aipy._dsp.grid1D_c(*args)
    want, mag, cnt = b0.astype(complex), np.abs(b0).astype(float), np.ones(dim)
    err = np.zeros(dim)
    for xi, di in zip(x, d):
        w, e = weights(xi, fp, dim, N1)
        want += w * complex(di)
        mag += w * abs(complex(di))
        err += e * abs(complex(di))
        cnt += np.bincount(cells(xi, fp)[0] % dim, minlength=dim)
    mon.ev('data_gridded', n)
    mon.close(b, want, mag * EPS * (cnt + 8) * 2 + err + 1e-37, 'gridded buffer', dim=dim, fp=fp, x=x)
    mon.check((guard[:32] == 7 + 7j).all() and (guard[32 + dim:] == 7 + 7j).all(), 'memory beside the buffer changed')
    mon.check(same(x, x0) and same(d, d0), 'gridding changed its input')
    mon.case('g1', dim, n, fp, x.tobytes())


def shape2(rng):
    a = int(rng.choice([1, 2, 3, 5, 8, 13, 16, 32]))
    return (a, a) if rng.random() < .5 else (a, int(rng.choice([1, 2, 3, 5, 8, 13, 16, 32])))


@P.workload(quick=18000, thorough=60000)
def grid2d(rng, mon):
    shape, n, fp = shape2(rng), int(rng.choice([0, 1, 2, 7, 40])), footprint(rng)
    x, y = positions(rng, shape[0], n), positions(rng, shape[1], n)
    d = ((rng.normal(size=n) + 1j * rng.normal(size=n)) * 10.**rng.integers(-3, 4)).astype(C)
    b0 = ((rng.normal(size=shape) + 1j * rng.normal(size=shape)) * int(rng.random() < .3)).astype(C)
    size = shape[0] * shape[1]
    guard = np.full(size + 200, 7 + 7j, C)
    b = guard[100:100 + size].reshape(shape)
    b[:] = b0
    x0, y0, d0 = x.copy(), y.copy(), d.copy()
    args = (b, x, y, d) + ((fp,) if fp != 6 or rng.random() < .5 else ())
    aipy._dsp.grid2D_c(*args)
    want, mag, cnt = b0.astype(complex), np.abs(b0).astype(float), np.ones(shape)
    err = np.zeros(shape)
    for xi, yi, di in zip(x, y, d):
        (w1, e1), (w2, e2) = weights(xi, fp, shape[0], N1), weights(yi, fp, shape[1], N1)
        w = np.outer(w1, w2)
        err += (np.outer(e1, w2) + np.outer(w1, e2)) * abs(complex(di)) * 2
        want += w * complex(di)
        mag += w * abs(complex(di))
        cnt += np.outer(np.bincount(cells(xi, fp)[0] % shape[0], minlength=shape[0]), np.bincount(cells(yi, fp)[0] % shape[1], minlength=shape[1]))
    mon.ev('data_gridded', n)
    mon.close(b, want, mag * EPS * (cnt + 8) * 2 + err + 1e-37, 'gridded buffer', shape=shape, fp=fp)
    mon.check((guard[:100] == 7 + 7j).all() and (guard[100 + size:] == 7 + 7j).all(), 'memory beside the buffer changed')
    mon.check(same(x, x0) and same(y, y0) and same(d, d0), 'gridding changed its input')
    if fp >= 6 and n and not b0.any():
        tot, s = complex(b.astype(complex).sum()), complex(d.astype(complex).sum())
        mon.check(abs(tot - s) <= .035 * np.abs(d).sum(), 'the gridded total is not that of the data', got=repr(tot), want=repr(s))
    mon.case('g2', shape, n, fp, x.tobytes(), y.tobytes())
    mon.sample(dict(shape=list(shape), n=n, footprint=fp))


@P.workload(quick=18000, thorough=60000)
def degrid2d(rng, mon):
    shape, n, fp = shape2(rng), int(rng.choice([0, 1, 2, 7, 40])), footprint(rng)
    x, y = positions(rng, shape[0], n), positions(rng, shape[1], n)
    b = ((rng.normal(size=shape) + 1j * rng.normal(size=shape)) * 10.**rng.integers(-3, 4)).astype(C)
    if rng.random() < .2:
        b[:] = 3 - 2j
    guard = np.full(n + 64, 7 + 7j, C)
    d = guard[32:32 + n]
    d[:] = 0
    x0, y0, b0 = x.copy(), y.copy(), b.copy()
    aipy._dsp.degrid2D_c(*((b, x, y, d) + ((fp,) if fp != 6 or rng.random() < .5 else ())))
    mon.ev('data_degridded', n)
    for i in range(n):
        w = np.outer(weights(x[i], fp, shape[0], N1)[0], weights(y[i], fp, shape[1], N1)[0])
        want = (w * b).sum() / w.sum()
        k = (int(fp / 2) * 2 + 2)**2
        mon.close(d[i], want, (w * np.abs(b)).sum() / w.sum() * EPS * 4 * (k + 30) + 1e-37, 'degridded value', shape=shape, fp=fp, x=float(x[i]), y=float(y[i]))
    mon.check((guard[:32] == 7 + 7j).all() and (guard[32 + n:] == 7 + 7j).all(), 'memory beside the data changed')
    mon.check(same(x, x0) and same(y, y0) and same(b, b0), 'degridding changed its input')
    mon.case('d2', shape, n, fp, x.tobytes(), y.tobytes())


@P.workload(quick=5400, thorough=20000)
def refused(rng, mon):
    """Arguments the kernels cannot take are refused and nothing is touched."""
    which = str(rng.choice(['grid1D_c', 'grid2D_c', 'degrid2D_c']))
    nd = 1 if which == 'grid1D_c' else 2
    shape = (int(rng.integers(2, 9)),) * nd
    n = int(rng.integers(2, 9))
    f = getattr(aipy._dsp, which)
    args = [np.zeros(shape, C)] + [rng.uniform(0, 4, size=n).astype(F) for _ in range(nd)] + [np.ones(n, C)]
    tgt = -1 if which[0] == 'd' else 0
    k = str(rng.choice(['type', 'rank', 'length', 'strided', 'swapped', 'readonly', 'empty', 'nonfinite', 'object']))
    w = int(rng.integers(len(args)))
    if k == 'type':
        args[w] = args[w].astype(str(rng.choice(['d', 'D', 'i', 'g', '?'])))
    elif k == 'rank':
        args[w] = args[w][None] if rng.random() < .5 else np.array(1, args[w].dtype)
    elif k == 'length':
        w = int(rng.integers(1, len(args)))
        args[w] = args[w][:-1] if rng.random() < .5 else np.concatenate([args[w], args[w]])
    elif k == 'strided':
        a = args[w]
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        args[w] = v if rng.random() < .5 else a[tuple(slice(None, None, -1) for _ in a.shape)]
    elif k == 'swapped':
        args[w] = args[w].astype(args[w].dtype.newbyteorder())
    elif k == 'readonly':
        args[tgt].flags.writeable = False
    elif k == 'empty':
        args[0] = np.zeros((0,) * nd if rng.random() < .5 else (0, 4)[:nd], C)
    elif k == 'nonfinite':
        args[int(rng.integers(1, 1 + nd))][0] = rng.choice([np.inf, -np.inf, 1e30, -1e30])
    elif k == 'object':
        args[w] = [None, 3, args[w].tolist(), 'text'][int(rng.integers(4))]
    before = [a.tobytes() for a in args if isinstance(a, np.ndarray)]
    with mon.raises((ValueError, TypeError), '%s with bad %s (argument %d)' % (which, k, w)):
        f(*args)
    mon.ev('refused_calls')
    mon.check(before == [a.tobytes() for a in args if isinstance(a, np.ndarray)], 'a refused call changed an array')
    mon.case('refused', which, k, w, shape, n)


@P.workload(quick=1800, thorough=5000)
def symmetries(rng, mon):
    """Translation by whole cells, linearity and order do not change what is gridded."""
    shape, n = (int(rng.integers(4, 40)),) * 2, int(rng.integers(1, 200))
    x, y = [(rng.integers(0, 4 * shape[0], size=n) / 4.).astype(F) for _ in range(2)]
    d = rng.integers(-8, 9, size=n) + 1j * rng.integers(-8, 9, size=n)

    def g(x, y, d):
        b = np.zeros(shape, C)
        aipy._dsp.grid2D_c(b, x.astype(F), y.astype(F), d.astype(C))
        return b
    b = g(x, y, d)
    tol = np.abs(d).sum() * EPS * 40
    s = rng.integers(-30, 30, size=2)
    mon.close(g(x + s[0], y + s[1], d), np.roll(b, s, (0, 1)), tol, 'translation')
    p = rng.permutation(n)
    mon.close(g(x[p], y[p], d[p]), b, tol, 'order')
    mon.close(g(y, x, d), b.T, tol, 'transposition')
    mon.eq(g(x, y, 4 * d), 4 * b, 'scaling')
    mon.close(g(x[:n // 2], y[:n // 2], d[:n // 2]) + g(x[n // 2:], y[n // 2:], d[n // 2:]), b, tol, 'additivity')
    mon.ev('data_gridded', 6 * n)
    mon.case('sym', shape, n, x.tobytes())


if __name__ == '__main__':
    sys.exit(P.main())
