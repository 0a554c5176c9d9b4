"""The HEALPix pixelisation from its published equations (Gorski et al. 2005), independent of healpy (for H01-H04)."""
import numpy as np


def _il(x, y):
    p = 0
    for b in range(20):
        p |= ((x >> b) & 1) << (2 * b) | ((y >> b) & 1) << (2 * b + 1)
    return p


def ang2pix(nside, z, phi, nest, eps=1e-7):
    """Pixel at height z and azimuth phi, or None within eps (in pixel units) of an edge."""
    tt = (phi % (2 * np.pi)) / (np.pi / 2)
    za = abs(z)
    if abs(za - 2 / 3.) < 1e-9:
        return None
    if za < 2 / 3.:
        a, b = nside * (.5 + tt) - nside * z * .75, nside * (.5 + tt) + nside * z * .75
        if min(abs(a - round(a)), abs(b - round(b))) < eps:
            return None
        jp, jm = int(np.floor(a)), int(np.floor(b))
        if nest:
            ifp, ifm = jp // nside, jm // nside
            face = (ifp | 4) if ifp == ifm else (ifp if ifp < ifm else ifm + 8)
            return face * nside**2 + _il(jm % nside, nside - (jp % nside) - 1)
        ir = nside + 1 + jp - jm
        k = 1 - (ir & 1)
        ip = ((jp + jm - nside + k + 1) // 2) % (4 * nside)
        return 2 * nside * (nside - 1) + (ir - 1) * 4 * nside + ip
    tp = tt - np.floor(tt)
    tmp = nside * np.sqrt(3 * (1 - za))
    a, b = tp * tmp, (1 - tp) * tmp
    if min(abs(a - round(a)), abs(b - round(b)), tp, 1 - tp) < eps:
        return None
    jp, jm = int(np.floor(a)), int(np.floor(b))
    if nest:
        n = min(3, int(tt))
        jp, jm = min(jp, nside - 1), min(jm, nside - 1)
        if z >= 0:
            return n * nside**2 + _il(nside - jm - 1, nside - jp - 1)
        return (n + 8) * nside**2 + _il(jp, jm)
    ir = jp + jm + 1
    ip = int(np.floor(tt * ir)) % (4 * ir)
    return 2 * ir * (ir - 1) + ip if z > 0 else 12 * nside**2 - 2 * ir * (ir + 1) + ip


def ring(nside, i):
    """(first pixel, pixels, z, shifted) of ring i = 1..4*nside-1."""
    npix = 12 * nside**2
    if i < nside:
        return 2 * i * (i - 1), 4 * i, 1 - i * i / (3. * nside**2), True
    if i <= 3 * nside:
        return 2 * nside * (nside - 1) + (i - nside) * 4 * nside, 4 * nside, (2 * nside - i) * 2 / (3. * nside), (i - nside) % 2 == 0
    j = 4 * nside - i
    return npix - 2 * j * (j + 1), 4 * j, -1 + j * j / (3. * nside**2), True


_centers = {}


def centers(nside, nest=False):
    """(z, phi) of every pixel."""
    if (nside, nest) not in _centers:
        z, p = np.empty(12 * nside**2), np.empty(12 * nside**2)
        for i in range(1, 4 * nside):
            s, n, zz, sh = ring(nside, i)
            z[s:s + n], p[s:s + n] = zz, (np.arange(n) + .5 * sh) * 2 * np.pi / n
        if nest:
            o = ring2nest(nside)
            z2, p2 = np.empty_like(z), np.empty_like(p)
            z2[o], p2[o] = z, p
            z, p = z2, p2
        _centers[nside, nest] = z, p
    return _centers[nside, nest]


_r2n = {}


def ring2nest(nside):
    """NEST number of every RING pixel (found from its center)."""
    if nside not in _r2n:
        z, p = centers(nside)
        out = np.empty(len(z), int)
        for k in range(len(z)):
            q = ang2pix(nside, z[k], p[k], True, eps=0)
            for dz, dp in ((0, 1e-7), (1e-7, 0), (-1e-7, -1e-7)):       # a center is inside: any nearby point agrees
                if q is None:
                    q = ang2pix(nside, z[k] + dz / nside, p[k] + dp / nside, True, eps=0)
            out[k] = q
        assert len(set(out)) == len(out)
        _r2n[nside] = out
    return _r2n[nside]


def _on_ring(nside, i, phi):
    s, n, z, sh = ring(nside, i)
    t = (phi % (2 * np.pi)) / (2 * np.pi / n) - .5 * sh
    k = int(np.floor(t))
    f = t - k
    return [(s + k % n, 1 - f), (s + (k + 1) % n, f)], np.arccos(z)


def interp(nside, th, phi):
    """{RING pixel: weight} of bilinear interpolation on the two neighbouring rings."""
    z = np.cos(th)
    i = sum(1 for k in range(1, 4 * nside) if ring(nside, k)[2] > z) if nside <= 4 else None
    if i is None:
        zs = np.array([ring(nside, k)[2] for k in range(1, 4 * nside)])
        i = int((zs > z).sum())
    w = {}

    def put(px, x):
        w[px] = w.get(px, 0) + x
    if 0 < i < 4 * nside - 1:
        (a, ta), (b, tb) = _on_ring(nside, i, phi), _on_ring(nside, i + 1, phi)
        f = (th - ta) / (tb - ta)
        for px, x in a:
            put(px, x * (1 - f))
        for px, x in b:
            put(px, x * f)
        return w
    if i == 0:
        a, ta = _on_ring(nside, 1, phi)
        f, poles = th / ta, range(4)
    else:
        a, ta = _on_ring(nside, 4 * nside - 1, phi)
        f, poles = (np.pi - th) / (np.pi - ta), range(12 * nside**2 - 4, 12 * nside**2)
    for px, x in a:
        put(px, x * f)
    for px in poles:
        put(px, (1 - f) / 4)
    return w
