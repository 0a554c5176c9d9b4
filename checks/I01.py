"""I01: gridding visibilities onto a UV plane, Hermitian completion and reading data back from the plane."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from imgmodel import *
aipy = load()

P = Prop('I01', rule='an execution grids generated data and weights in one or several calls and compares the planes with a double-precision sum over '
         'data, completes data by symmetry, or samples a plane; distinct by size, resolution, orders and data',
         assumptions=['the kernel is a Gaussian of sigma half a cell; single precision'],
         require=['gridded', 'planes', 'hermitian', 'sampled', 'unapplied', 'refused', 'one_datum'])


def image(rng, W=False):
    res = float(rng.choice([.5, 1, 1, 1.5, 2, 4]))
    dim = int(rng.choice([5, 8, 9, 16, 20, 31]))
    mf = int(rng.choice([0, 0, 0, 1, 2]))
    if W:
        return aipy.img.ImgW(size=dim * res, res=res, mf_order=mf, verbose=False), dim, res, mf
    return (aipy.img.Img(dim * res, res, mf_order=mf) if mf or rng.random() < .5 else aipy.img.Img(size=dim * res, res=res)), dim, res, mf


def vis(rng, dim, res, n):
    k = rng.random()
    if k < .4:
        u, v = rng.uniform(-.5, .5, size=(2, n)) * dim * res
    elif k < .7:
        u, v = np.floor(rng.uniform(-.5, .5, size=(2, n)) * dim) * res
    else:
        u, v = rng.normal(size=(2, n)) * dim * res      # wraps around
    w = rng.normal(size=n) * 10
    d = rng.normal(size=n) + 1j * rng.normal(size=n)
    if rng.random() < .3:
        d = d.astype(np.complex64)
    return u, v, w, d


def close(mon, got, want, mag, what, **kw):
    mon.check(np.asarray(got).dtype == np.complex64, 'the plane changed its dtype', dtype=str(np.asarray(got).dtype))
    mon.close(got, want, 3e-6 * mag + SLOP * mag, what, **kw)


def tolerance(x, dim, res):
    """Positions are rounded to single precision: how much that can matter."""
    return 1 + float(np.abs(x / res).max() if len(x) else 0)


@P.workload(quick=10800, thorough=40000)
def put(rng, mon):
    im, dim, res, mf = image(rng)
    mon.eq(tuple(im.shape), (dim, dim), 'shape')
    mon.eq(len(im.bm), mf + 1, 'number of beam terms')
    uv, bm, mag = np.zeros((dim, dim), complex), [np.zeros((dim, dim), complex) for _ in range(mf + 1)], 0.
    for k in range(int(rng.choice([1, 1, 2, 3]))):
        n = int(rng.choice([1, 1, 2, 3, 10, 40]))
        mon.ev('one_datum', int(n == 1))
        u, v, w, d = vis(rng, dim, res, n)
        how = int(rng.integers(4))
        wg = [rng.uniform(0, 3, size=n) for _ in range(mf + 1)]
        if how == 0:
            args, wg = (), [np.ones(n)] + [np.zeros(n)] * mf
        elif how == 1 and mf == 0:
            args = (wg[0],)                     # one array of weights
        elif how == 2:
            wg = [x.astype(np.complex64) for x in wg]
            args = (wg,)
        else:
            args = (wg,)
        uvw = (u, v, w) if rng.random() < .7 else np.array([u, v, w])
        keep = [np.copy(x) for x in (u, v, w, d)] + [np.copy(x) for x in wg]
        apply = rng.random() < .75
        old = im.uv.copy(), [b.copy() for b in im.bm]
        got = im.put(uvw, d, *args) if apply and rng.random() < .5 else im.put(uvw, d, *args, apply=bool(apply))
        mon.check(all(same(a, b) for a, b in zip(keep, [u, v, w, d] + list(wg))), 'gridding changed its arguments')
        guv, gbm = grid((dim, dim), res, u, v, d), [grid((dim, dim), res, u, v, x) for x in wg]
        m = (np.abs(d).sum() + sum(np.abs(x).sum() for x in wg)) * tolerance(np.concatenate([u, v]), dim, res)
        mon.ev('gridded', n)
        if not apply:
            mon.ev('unapplied')
            close(mon, got[0], guv, m, 'unapplied plane')
            for i in range(mf + 1):
                close(mon, got[1][i], gbm[i], m, 'unapplied beam')
            mon.check(same(im.uv, old[0]) and all(same(a, b) for a, b in zip(im.bm, old[1])), 'the stored planes changed with apply=False')
            continue
        uv += guv
        for a, b in zip(bm, gbm):
            a += b
        mag += m
    close(mon, im.uv, uv, mag + 1e-30, 'uv plane', dim=dim, res=res)
    for i in range(mf + 1):
        close(mon, im.bm[i], bm[i], mag + 1e-30, 'beam plane %d' % i, dim=dim, res=res)
    mon.ev('planes')
    if mf:
        with mon.raises(Exception, 'weights for the wrong number of terms'):
            im.put((u, v, w), d, [np.ones(n)] * (mf + 2))
        mon.ev('refused')
    u, v = im.get_uv()
    i, j = np.indices((dim, dim))
    for x, k in ((u, i), (v, j)):
        mon.close(x / res, np.where(k < (dim + 1) // 2, k, k - dim), 1e-9, 'uv coordinates of the cells')
    mon.case('p', dim, res, mf, n, complex(d[0]))


@P.workload(quick=9000, thorough=30000)
def hermitian(rng, mon):
    im, dim, res, mf = image(rng)
    n = int(rng.choice([1, 2, 5, 30]))
    u, v, w, d = vis(rng, dim, res, n)
    k = rng.integers(3) if mf == 0 else rng.integers(2)
    wg = [rng.uniform(.1, 3, size=n) for _ in range(mf + 1)]
    keep = [np.copy(x) for x in (u, v, w, d)] + [np.copy(x) for x in wg]
    if k == 0:
        uvw2, d2 = im.append_hermitian((u, v, w), d)
        wg2 = None
    else:
        uvw2, d2, wg2 = im.append_hermitian((u, v, w), d, wg[0] if k == 2 else wg)
        mon.eq(len(wg2), mf + 1, 'terms of weights')
        for a, b in zip(wg2, wg):
            mon.eq(np.asarray(a), np.concatenate([b, b]), 'weights of the conjugates')
    mon.check(len(wg) == mf + 1 and all(same(a, b) for a, b in zip(keep, [u, v, w, d] + wg)), 'completion changed its arguments')
    for a, b in zip(uvw2, (u, v, w)):
        mon.eq(np.asarray(a), np.concatenate([b, -b]), 'coordinates of the conjugates')
    mon.eq(np.asarray(d2), np.concatenate([d, d.conj()]), 'conjugates')
    im.put(uvw2, d2, wg2)
    tol = 1e-5 * (np.abs(d).sum() + 1) * tolerance(np.concatenate([u, v]), dim, res)
    for plane in [im.uv] + im.bm:
        mon.check(np.abs(np.fft.ifft2(plane).imag).max() * dim**2 <= tol * dim * 3 * (1 + 3 * n), 'the image of completed data is not real')
        flip = np.roll(plane[::-1, ::-1], 1, (0, 1)).conj()
        mon.close(plane, flip, tol * (3 + 3 * n), 'the plane is not Hermitian')
    mon.ev('hermitian')
    mon.case('h', dim, res, mf, n, complex(d[0]))


@P.workload(quick=9000, thorough=30000)
def get(rng, mon):
    """Reading at (u,v) is the ratio of the kernel-weighted means of data and weights at that place of the plane."""
    im, dim, res, mf = image(rng)
    k = rng.integers(3)
    uv = rng.normal(size=(dim, dim)) + 1j * rng.normal(size=(dim, dim))
    bm = rng.uniform(1, 2, size=(dim, dim)) + 0j
    n = int(rng.choice([1, 2, 9]))
    u, v, w, _ = vis(rng, dim, res, n)
    if k == 0:      # a plane and beam given
        args = (uv.astype(np.complex64), bm.astype(np.complex64))
    else:
        im.uv[:], im.bm[0][:] = uv, bm
        args = ()
    if k == 1:      # the same everywhere
        c = complex(uv[0, 0])
        im.uv[:], im.bm[0][:] = c * 3, 3
        got = im.get((u, v, w))
        mon.close(got, np.full(n, c), 3e-6 * abs(c) + 1e-9, 'reading a constant plane')
        mon.ev('sampled', n)
        mon.case('c', dim, res, n, c)
        return
    keep = [np.copy(x) for x in (u, v, w)]
    got = im.get((u, v, w), *args)
    mon.check(all(same(a, b) for a, b in zip(keep, (u, v, w))), 'reading changed its arguments')
    mon.eq(np.shape(got), (n,), 'shape')
    uv32, bm32 = uv.astype(np.complex64).astype(complex), bm.astype(np.complex64).astype(complex)
    tol = 2e-5 * tolerance(np.concatenate([u, v]), dim, res)
    for i in range(n):
        here = degrid(uv32, -v[i] / res, u[i] / res) / degrid(bm32, -v[i] / res, u[i] / res)
        there = degrid(uv32, u[i] / res, -v[i] / res) / degrid(bm32, u[i] / res, -v[i] / res)
        if abs(got[i] - here) > tol:
            mon.check(abs(got[i] - there) <= tol, 'datum read from the plane', got=complex(got[i]), want=complex(here), u=float(u[i]), v=float(v[i]))
            mon.fail('a datum is read from the cell of the transposed plane', key='get-transposed', got=complex(got[i]), want=complex(here),
                     u=float(u[i]), v=float(v[i]))
    if n > 1:
        o = rng.permutation(n)
        mon.eq(im.get((u[o], v[o], w[o]), *args), got[o], 'reading depends on the order')
    sh = im.get((u.reshape(1, -1), v.reshape(1, -1), w.reshape(1, -1)), *args)
    mon.eq(np.asarray(sh).ravel(), got, 'reading arrays of more dimensions')
    mon.ev('sampled', n)
    mon.case('g', dim, res, n, complex(uv[0, 0]))


@P.probe('get-transposed')
def transposed(mon):
    im = aipy.img.Img(20, 1)
    im.put((np.array([3.]), np.array([5.]), np.array([0.])), np.array([2 + 1j]))
    im.bm[0][:] = 1
    a = abs(im.get((np.array([3.]), np.array([5.]), np.array([0.])))[0])
    b = abs(im.get((np.array([-5.]), np.array([-3.]), np.array([0.])))[0])
    return a < 1e-3 < b


if __name__ == '__main__':
    P.main()
