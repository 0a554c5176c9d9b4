"""I02: image geometry, images as Fourier transforms of planes, and W projection."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from imgmodel import *
import arr
aipy = load()

P = Prop('I02', rule='an execution evaluates pixel coordinates, forms images compared with direct Fourier sums at the coordinates of the pixels, or '
         'projects visibilities with w terms and compares with the measurement equation; distinct by size, resolution, center and data',
         require=['coordinates', 'equatorial', 'images', 'sources', 'w_projected', 'w_read', 'beams', 'rewritten_planes'])


def setup(rng, small=False):
    res = float(rng.choice([.4, .5, .75, 1, 1.5, 2, 4]))
    dim = int(rng.choice([5, 8, 9, 16, 20] if small else [4, 5, 8, 9, 16, 20, 31, 40]))
    return dim, res


def center(rng, dim):
    k = rng.random()
    if k < .3:
        return (0, 0)
    if k < .6:
        return (dim // 2, dim // 2)
    if k < .7:
        return (dim / 2., dim / 2.)
    return tuple(int(x) for x in rng.integers(-dim, 2 * dim, size=2))


@P.workload(quick=9000, thorough=30000)
def geometry(rng, mon):
    dim, res = setup(rng)
    im = aipy.img.Img(dim * res, res)
    c = center(rng, dim)
    L, M = im.get_LM(center=c) if c != (0, 0) or rng.random() < .5 else im.get_LM()
    l, m = lm(dim, res)
    l, m = roll(l, c), roll(m, c)
    r2 = l**2 + m**2
    sure = abs(r2 - 1) > 1e-5
    mon.check((np.ma.getmaskarray(L) == (r2 >= 1))[sure].all() and (np.ma.getmaskarray(M) == (r2 >= 1))[sure].all(), 'pixels beyond the horizon are masked, others are not')
    mon.close(np.ma.getdata(L), l, 1e-6, 'l of the pixels', dim=dim, res=res, center=c)
    mon.close(np.ma.getdata(M), m, 1e-6, 'm of the pixels', dim=dim, res=res, center=c)
    x, y, z = im.get_top(center=c)
    up = sure & (r2 < 1)
    mon.close(np.ma.getdata(x)[up], l[up], 1e-6, 'topocentric x')
    mon.close(np.ma.getdata(y)[up], m[up], 1e-6, 'topocentric y')
    zz = np.sqrt(1 - np.where(up, r2, 0))
    mon.close(np.ma.getdata(z)[up], zz[up], 3e-6 / zz[up], 'topocentric z')
    mon.check((np.ma.getmaskarray(z) == (r2 >= 1))[sure].all(), 'mask of the topocentric coordinates')
    mon.ev('coordinates', dim**2)
    ra, dec = float(rng.uniform(-7, 7)), float(rng.uniform(-1.57, 1.57))
    e = im.get_eq(ra, dec, center=c) if rng.random() < .8 or c != (0, 0) else im.get_eq(ra=ra, dec=dec)
    mon.eq(e.shape, (3, dim, dim), 'shape')
    E = np.array([-np.sin(ra), np.cos(ra), 0])
    N = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
    U = arr.eq(ra, dec)
    want = E[:, None, None] * l + N[:, None, None] * m + U[:, None, None] * zz
    mask = np.ma.getmaskarray(e)
    for k in range(3):
        mon.check((mask[k] == (r2 >= 1))[sure].all(), 'mask of the equatorial coordinates')
        mon.close(np.ma.getdata(e)[k][up], want[k][up], 5e-6 / zz[up], 'equatorial coordinates of the pixels', ra=ra, dec=dec)
    mon.ev('equatorial', int(up.sum()))
    mon.case('g', dim, res, c)


@P.workload(quick=7200, thorough=20000)
def images(rng, mon):
    """Every pixel of an image is the Fourier sum of the plane at the (l,m) of the pixel."""
    dim, res = setup(rng)
    mf = int(rng.choice([0, 0, 1, 2]))
    im = aipy.img.Img(dim * res, res, mf_order=mf)
    for p in [im.uv] + im.bm:
        p[:] = rng.normal(size=(dim, dim)) + 1j * rng.normal(size=(dim, dim))
    planes = [p.copy() for p in [im.uv] + im.bm]
    c = center(rng, dim)
    L, M = (np.ma.getdata(x).astype(float) for x in im.get_LM(center=c))
    k = np.arange(dim)
    px = rng.integers(0, dim, size=(12, 2))

    def direct(p, i, j):        # rows of the plane go with -v, columns with u; u, v in wavelengths
        a = np.exp(2j * np.pi * k * res * M[i, j])
        b = np.exp(-2j * np.pi * k * res * L[i, j])
        return (a @ p.astype(complex) @ b).real / dim**2
    got = [im.image(center=c)] + list(im.bm_image(center=c))
    if c == (0, 0):
        mon.eq(im.image(), got[0], 'default center')
    mon.eq(len(got), mf + 2, 'images')
    for g, p in zip(got, planes):
        mon.eq(g.shape, (dim, dim), 'shape')
        for i, j in px:
            mon.close(g[i, j], direct(p, i, j), 2e-5 * np.abs(p).sum() / dim**2, 'pixel of an image', dim=dim, res=res, center=c, i=int(i), j=int(j))
    t = int(rng.integers(mf + 1))
    mon.eq(im.bm_image(center=c, term=t), got[1 + t], 'one term of the beam')
    mon.check(all(same(a, b) for a, b in zip(planes, [im.uv] + im.bm)), 'forming images changed the planes')
    mon.ev('images', mf + 2)
    # helpers on the same data
    a, b = rng.normal(size=(2, dim, dim + 1))
    i, j = rng.integers(dim), rng.integers(dim + 1)
    s = sum(a[x, y] * b[(i - x) % dim, (j - y) % (dim + 1)] for x in range(dim) for y in range(dim + 1)) if dim < 10 else None
    if s is not None:
        mon.close(aipy.img.convolve2d(a, b)[i, j], s, 1e-9 * dim**2 * 10, 'convolution')
    mon.close(aipy.img.beam_gain(a), np.abs(a).max(), 1e-12, 'beam gain')
    sg, amp = float(rng.uniform(.5, 4)), float(rng.uniform(.1, 9))
    g = aipy.img.gaussian_beam(sg, shape=(dim, dim + 1), amp=amp)
    r2 = np.minimum(np.arange(dim), dim - np.arange(dim))[:, None]**2 + np.minimum(np.arange(dim + 1), dim + 1 - np.arange(dim + 1))**2
    mon.close(g, amp * np.exp(-r2 / sg**2), 1e-9 * amp, 'Gaussian beam')
    mon.close(aipy.img.gaussian_beam(sg, shape=(dim, dim + 1), amp=amp, center=(1, 2)), np.roll(g, (-1, -2), (0, 1)), 1e-12, 'Gaussian beam off center')
    mon.ev('beams')
    mon.case('i', dim, res, mf, c, complex(planes[0][0, 0]))


def taper(dim):
    """What gridding on cell centers does to an image: the transform of the kernel."""
    k = np.arange(-3, 4)
    x = np.arange(dim)
    return (N1 * np.exp(-2 * k**2) * np.cos(2 * np.pi * np.outer(x, k) / dim)).sum(axis=1)


def ongrid(rng, dim, res, n):
    return np.floor(rng.uniform(-.5, .5, size=(2, n)) * dim) * res


@P.workload(quick=5400, thorough=15000)
def sources(rng, mon):
    """Data exp(2 pi i (ul + vm)) image to a source at (l, m)."""
    dim, res = setup(rng)
    dim = max(dim, 8)
    im = aipy.img.Img(dim * res, res)
    n = int(rng.choice([20, 100, 300]))
    u, v = ongrid(rng, dim, res, n)
    c = center(rng, dim)
    L, M = im.get_LM(center=c)
    ok = np.argwhere(~np.ma.getmaskarray(L))
    i0, j0 = ok[rng.integers(len(ok))]
    l0, m0 = float(L[i0, j0]), float(M[i0, j0])
    d = np.exp(2j * np.pi * (u * l0 + v * m0))
    uvw, d2 = im.append_hermitian((u, v, np.zeros(n)), d)
    im.put(uvw, d2)
    img, bm = im.image(center=c), im.bm_image(center=c, term=0)
    tp = roll(np.outer(taper(dim), taper(dim)), c)
    Ld, Md = np.ma.getdata(L).astype(float), np.ma.getdata(M).astype(float)
    want = np.zeros((dim, dim))
    wb = np.zeros((dim, dim))
    for a, b in zip(u, v):
        want += 2 * np.cos(2 * np.pi * (a * (Ld - l0) + b * (Md - m0)))
        wb += 2 * np.cos(2 * np.pi * (a * Ld + b * Md))
    mon.close(img, want * tp / dim**2, 1e-5 * n / dim**2 * (1 + np.abs(Ld).max() * dim * res), 'image of a source', dim=dim, res=res, center=c, at=(l0, m0))
    mon.close(bm, wb * tp / dim**2, 1e-5 * n / dim**2 * (1 + np.abs(Ld).max() * dim * res), 'synthesised beam', dim=dim, res=res)
    r = img / tp
    mon.check(r[i0, j0] >= r.max() - 1e-4 * abs(r.max()), 'the source is not where it was', at=(int(i0), int(j0)))
    mon.ev('sources')
    mon.case('s', dim, res, n, c, i0, j0)


def kern(dim, res, w):
    l, m = lm(dim, res)
    r2 = l**2 + m**2
    return np.where(r2 < 1 - 1e-6, np.exp(-2j * np.pi * w * (np.sqrt(np.clip(1 - r2, 0, 1)) - 1)), 0)


@P.workload(quick=4500, thorough=12000)
def w_put(rng, mon):
    """Gridding with w terms images as the measurement equation says, and at w = 0 as without them."""
    dim, res = setup(rng, True)
    res = max(res, .75) if rng.random() < .7 else res
    l, m = lm(dim, res)
    if (abs(l**2 + m**2 - 1) < 1e-5).any():
        raise Skip()
    mf = int(rng.choice([0, 0, 1]))
    wres = float(rng.choice([.1, .5, 1]))
    W = aipy.img.ImgW(dim * res, res, wres=wres, mf_order=mf, verbose=False)
    n = int(rng.choice([1, 2, 6, 30]))
    u, v = ongrid(rng, dim, res, n) if rng.random() < .5 else rng.uniform(-.5, .5, size=(2, n)) * dim * res
    levels = np.sort(rng.choice(np.arange(-4, 5), size=int(rng.integers(1, 5)), replace=False)) * (wres + .01)
    sw = rng.choice(levels, size=n)
    w = np.sign(sw) * sw**2
    d = rng.normal(size=n) + 1j * rng.normal(size=n)
    wg = [rng.uniform(.1, 2, size=n) for _ in range(mf + 1)]
    dflt = rng.random() < .3
    keep = [x.copy() for x in (u, v, w, d)] + [x.copy() for x in wg]
    parts = [slice(None)] if rng.random() < .6 else [slice(0, n // 2), slice(n // 2, n)]
    for p in parts:
        W.put((u[p], v[p], w[p]), d[p], **({} if dflt else dict(wgts=wg[0][p] if mf == 0 and rng.random() < .5 else [x[p] for x in wg])))
    mon.check(all(same(a, b) for a, b in zip(keep, [u, v, w, d] + wg)), 'gridding changed its arguments')
    if dflt:
        wg = [np.ones(n)] + [np.zeros(n)] * mf
    tol = 3e-5 * tolmag(u, v, res)
    # planes are scaled alike: the beam at the center gives the scale
    got, beams = W.image(), W.bm_image()
    want, wb = np.zeros((dim, dim)), [np.zeros((dim, dim)) for _ in range(mf + 1)]
    for k in range(n):
        K = kern(dim, res, w[k])
        g = np.fft.ifft2(grid((dim, dim), res, u[k:k + 1], v[k:k + 1], [1.]))
        want += (g * d[k] * K).real
        for b, x in zip(wb, wg):
            b += (g * x[k] * K).real
    if abs(wb[0][0, 0]) < 1e-3 * sum(x.sum() for x in wg) / dim**2:
        raise Skip()
    s = beams[0][0, 0] / wb[0][0, 0]
    near = [1. / dim**2, 1.]
    mon.check(any(abs(s / x - 1) < 1e-2 for x in near), 'scale of the projected plane', scale=float(s), dim=dim)
    mag = (np.abs(d).sum() + sum(x.sum() for x in wg)) / dim**2
    mon.close(got / s, want, tol * mag * 10, 'image of data with w terms', dim=dim, res=res, w=w, wres=wres)
    for a, b in zip(beams, wb):
        mon.close(a / s, b, tol * mag * 10, 'beam of data with w terms', dim=dim, res=res, w=w)
    mon.ev('w_projected', n)
    # data with w = 0 image the same as without w
    I = aipy.img.Img(dim * res, res)
    Z = aipy.img.ImgW(dim * res, res, verbose=False)
    I.put((u, v, 0 * w), d)
    Z.put((u, v, 0 * w), d)
    ok = (l**2 + m**2) < 1
    b0 = I.bm_image(term=0)[0, 0]
    if abs(b0) > 1e-3 * n / dim**2:
        sc = Z.bm_image(term=0)[0, 0] / b0
        mon.close((Z.image() / sc)[ok], I.image()[ok], tol * mag * 10, 'w = 0')
    empty = aipy.img.ImgW(dim * res, res, verbose=False)
    empty.put((u[:0], v[:0], w[:0]), d[:0])
    mon.check(not empty.uv.any() and not empty.bm[0].any(), 'gridding no data')
    mon.case('w', dim, res, n, tuple(levels), wres)


def tolmag(u, v, res):
    return 1 + float(max(np.abs(u).max(), np.abs(v).max())) / res


@P.workload(quick=4500, thorough=12000)
def w_get(rng, mon):
    """Reading at w applies the conjugate projection to plane and beam; what was cached never outlives a change by put."""
    dim, res = setup(rng, True)
    l, m = lm(dim, res)
    if (abs(l**2 + m**2 - 1) < 1e-5).any():
        raise Skip()
    wres = .5
    W = aipy.img.ImgW(dim * res, res, wres=wres, verbose=False)
    k = 40
    u0, v0 = rng.uniform(-.5, .5, size=(2, k)) * dim * res
    d0 = rng.normal(size=k) + 1j * rng.normal(size=k)
    levels = np.sort(rng.choice(np.arange(-3, 4), size=int(rng.integers(1, 4)), replace=False)) * wres * 1.02
    n = int(rng.choice([1, 2, 6]))
    u, v = rng.uniform(-.5, .5, size=(2, n)) * dim * res
    sw = rng.choice(levels, size=n)
    w = np.sign(sw) * sw**2
    shape = lambda x: x if rng.random() < .8 else x.reshape(1, -1)
    for turn in range(int(rng.integers(1, 3))):
        W.put((u0, v0, 0 * u0), d0 * (1 + turn))
        mon.ev('rewritten_planes', int(turn > 0))
        keep = [x.copy() for x in (u, v, w)]
        got = W.get((u, v, w))
        mon.check(all(same(a, b) for a, b in zip(keep, (u, v, w))), 'reading changed its arguments')
        mon.eq(np.shape(got), (n,), 'shape')
        uv, bm = W.uv.astype(complex), W.bm[0].astype(complex)
        for i in range(n):
            K = kern(dim, res, -w[i])
            a, b = (np.fft.fft2(np.fft.ifft2(p) * K) for p in (uv, bm))
            x = [(u[i] / res, -v[i] / res), (-v[i] / res, u[i] / res)]
            vals = []
            for p in x:
                den = degrid(b, *p)
                mag = degrid(np.abs(a), *p) + degrid(np.abs(b), *p)
                if abs(den) < 1e-2 * abs(degrid(np.abs(b), *p)) or abs(den) < 1e-3 * np.abs(b).max():
                    break
                vals.append((degrid(a, *p) / den, 3e-4 * tolmag(u, v, res) * mag / abs(den) * (1 + np.abs(degrid(a, *p) / den))))
            if len(vals) < 2:
                continue
            # the cell read is I01's business: here either is right
            mon.check(any(abs(got[i] - q) <= t for q, t in vals), 'datum read with a w term', got=complex(got[i]), want=[complex(q) for q, _ in vals],
                      w=w, dim=dim, res=res, turn=turn)
            mon.ev('w_read')
        o = rng.permutation(n)
        again = W.get((u[o], v[o], w[o]))
        mon.close(again, got[o], 1e-4 * (1 + np.abs(got[o])), 'reading depends on the order')
    mon.case('r', dim, res, n, tuple(levels), complex(d0[0]))


if __name__ == '__main__':
    P.main()
