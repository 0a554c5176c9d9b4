"""C01: coordinate conversions are rotations with the documented handedness, mutually inverse, elementwise, and keep masks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
aipy = load()

P = Prop('C01', rule='an execution converts generated vectors, angles or arrays of them (scalar, 1-d, 2-d, masked, degenerate directions) and '
         'compares with geometry computed from first principles; distinct by conversion, shape and values',
         assumptions=['the sky-system reference uses the J2000 galactic pole, the IAU obliquity and IAU 1976 precession (agreement to 2e-5 rad)'],
         require=['angles', 'masked', 'rotations', 'horizon', 'systems', 'precession', 'degenerate'])
TAU = 2 * np.pi


def vec(rng, shape):
    """Unit vectors (first axis xyz), often in degenerate directions."""
    v = rng.normal(size=(3,) + shape)
    if rng.random() < .5:
        axes = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 0], [0, -1, 1], [-1, 0, 1],
                         [-1, -1e-300, 0], [1, -1e-17, 0]], dtype=float).T
        k = rng.integers(axes.shape[1], size=shape)
        v = np.where(rng.random(shape) < .5, axes[:, k], v)
    return v / np.sqrt((v**2).sum(axis=0))


def shp(rng):
    return [(), (1,), (5,), (int(rng.integers(2, 40)),), (3,), (2, 3), (3, 1), (0,)][rng.integers(8)]


def scale_of(rng):
    return float(rng.choice([1, 1, 1e-3, 1e6, 37.5]))


@P.workload(quick=6000, thorough=60000)
def angles(rng, mon):
    shape = shp(rng)
    v = vec(rng, shape)
    s = scale_of(rng)
    x = v * s
    lst = rng.random() < .3 and shape == ()
    arg = tuple(float(c) for c in x) if lst else x
    b = x.tobytes()
    co = aipy.coord
    th, phi = co.xyz2thphi(arg)
    ra, dec = co.eq2radec(arg)
    az, alt = co.top2azalt(arg)
    mon.eq(x.tobytes(), b, 'the input of a conversion changed')
    for c in (th, phi, ra, dec, az, alt):
        mon.eq(np.shape(c), shape, 'shape of a conversion')
        mon.check(not np.ma.isMA(c), 'plain coordinates became masked')
    tol = 1e-12
    # definitions: angle from z; right-handed around z from x; az from +y (north) towards +x (east)
    mon.close(np.cos(th), v[2], tol, 'cos(theta) is z', v=v)
    r = np.sqrt(v[0]**2 + v[1]**2)
    mon.close(np.sin(th), r, tol, 'sin(theta) is the distance from the z axis', v=v)
    for ang, cc, ss, name in ((phi, v[0], v[1], 'phi'), (ra, v[0], v[1], 'ra'), (az, v[1], v[0], 'az')):
        mon.close(r * np.cos(ang), cc, tol, 'direction of ' + name, v=v)
        mon.close(r * np.sin(ang), ss, tol, 'direction of ' + name, v=v)
    mon.close(np.sin(dec), v[2], tol, 'declination', v=v)
    mon.close(np.sin(alt), v[2], tol, 'altitude', v=v)
    for ang, lo, hi, name in ((th, 0, np.pi, 'theta'), (phi, -np.pi, np.pi, 'phi'), (ra, 0, TAU, 'ra'), (dec, -np.pi / 2, np.pi / 2, 'dec'),
                              (az, 0, TAU, 'az'), (alt, -np.pi / 2, np.pi / 2, 'alt')):
        mon.check(((ang >= lo - 1e-12) & (ang <= hi + 1e-12)).all(), 'range of ' + name, v=v, got=ang)
    # inverses
    for back, name in ((co.thphi2xyz((th, phi)), 'theta/phi'), (co.radec2eq((ra, dec)), 'ra/dec'), (co.azalt2top((az, alt)), 'az/alt'),
                       (co.latlong2xyz((dec, ra)), 'lat/long')):
        mon.close(back, v, tol, name + ' and back', v=v)
    # angles -> vector -> angles, any branch of the angle
    a = rng.uniform(-7, 7, size=shape)
    d = rng.uniform(-np.pi / 2, np.pi / 2, size=shape)
    args = (a, d) if rng.random() < .5 else np.array([a, d])
    ab = np.array(args).tobytes()
    w = co.radec2eq(args)
    mon.close(w, np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]), tol, 'vector of ra/dec')
    mon.close(co.latlong2xyz((d, a)), np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]), tol, 'vector of lat/long')
    mon.close(co.azalt2top(args), np.array([np.cos(d) * np.sin(a), np.cos(d) * np.cos(a), np.sin(d)]), tol, 'vector of az/alt')
    mon.close(co.thphi2xyz((d, a)), np.array([np.sin(d) * np.cos(a), np.sin(d) * np.sin(a), np.cos(d)]), tol, 'vector of theta/phi')
    mon.eq(np.array(args).tobytes(), ab, 'the input of a conversion changed')
    mon.ev('angles', 6)
    if (r < 1e-10).any():
        mon.ev('degenerate')
    mon.case('angles', shape, b)


@P.workload(quick=3000, thorough=30000)
def masked(rng, mon):
    """A masked entry stays masked, is never shown as a number, and has no influence on the others."""
    shape = [(5,), (int(rng.integers(1, 20)),), (2, 3)][rng.integers(3)]
    v = vec(rng, shape)
    co = aipy.coord
    k = rng.random()
    m = np.zeros((3,) + shape, bool)
    if k < .4:
        m[:] = rng.random(shape) < .4
    elif k < .8:
        m = rng.random(m.shape) < .2
    x = np.ma.array(v, mask=m if k < .9 else np.ma.nomask)
    x.data[m] = rng.choice([0, 1e20, np.nan])
    m0 = np.array(np.ma.getmaskarray(x))
    xy, any3 = m0[0] | m0[1], m0[0] | m0[1] | m0[2]
    for fn, name, need in ((co.xyz2thphi, 'xyz2thphi', (any3, xy)), (co.eq2radec, 'eq2radec', (xy, any3)), (co.top2azalt, 'top2azalt', (xy, any3))):
        arg = x if rng.random() < .5 else tuple(x)
        with np.errstate(all='ignore'):
            got = fn(arg)
        want = fn(v)
        mon.check(np.ma.isMA(got), name + ' dropped the mask')
        gm = np.ma.getmaskarray(got)
        for c in (0, 1):
            mon.check((gm[c] | ~need[c]).all(), '%s shows a number for a masked direction' % name, mask=m0, got=gm)
        mon.check((any3 | ~gm.any(axis=0)).all(), '%s masked a valid direction' % name, mask=m0, got=gm)
        ok = ~any3
        mon.close(np.ma.getdata(got)[:, ok], want[:, ok], 1e-12, name + ' of unmasked directions', v=v)
    th = np.ma.array(rng.uniform(-7, 7, size=shape), mask=rng.random(shape) < .3)
    ph = np.ma.array(rng.uniform(-7, 7, size=shape), mask=rng.random(shape) < .3 if rng.random() < .5 else th.mask)
    if rng.random() < .1:
        th.mask = np.ma.nomask
    for fn, name in ((co.thphi2xyz, 'thphi2xyz'), (co.radec2eq, 'radec2eq'), (co.azalt2top, 'azalt2top'), (co.latlong2xyz, 'latlong2xyz')):
        got = fn((th, ph))
        want = fn((th.data, ph.data))
        both = np.ma.getmaskarray(th) | np.ma.getmaskarray(ph)
        gm = np.ma.getmaskarray(got)
        mon.check((gm[:2] | ~both).all(), '%s shows a number for a masked angle' % name)
        mon.check((both | ~gm).all(), '%s masked a valid direction' % name)
        mon.close(np.ma.getdata(got)[:, ~both], want[:, ~both], 1e-12, name + ' of unmasked angles')
    mon.eq(np.array(np.ma.getmaskarray(x)), m0, 'the mask of the input changed')
    mon.ev('masked')
    mon.case('masked', shape, v.tobytes(), m.tobytes())


def rodrigues(a, u, v):
    return v * np.cos(a) + np.cross(u, v) * np.sin(a) + u * np.dot(u, v) * (1 - np.cos(a))


@P.workload(quick=3000, thorough=30000)
def rotations(rng, mon):
    co = aipy.coord
    n = int(rng.integers(1, 8))
    vector = rng.random() < .6
    ang = rng.uniform(-10, 10, size=n)
    ang[rng.random(n) < .2] = rng.choice([0, np.pi, -np.pi, np.pi / 2, TAU])
    u = vec(rng, (n,)).T.copy()
    if vector:
        mode = rng.integers(3)
        if mode == 1:
            u = u[:1].repeat(n, axis=0)
            R = co.rot_m(ang, u[0])
        elif mode == 2:
            ang = ang[:1].repeat(n)
            R = co.rot_m(float(ang[0]), u)
        else:
            R = co.rot_m(ang, u)
        mon.eq(R.shape, (n, 3, 3), 'shape of the rotation matrices')
    else:
        n = 1
        R = co.rot_m(float(ang[0]), u[0])
        mon.eq(R.shape, (3, 3), 'shape of the rotation matrix')
        R = R[None]
    for k in range(n):
        v = rng.normal(size=3)
        mon.close(np.dot(R[k], v), rodrigues(ang[k], u[k], v), 1e-14, 'rotation by the right-hand rule', ang=ang[k], axis=u[k], v=v)
        mon.close(np.dot(R[k], R[k].T), np.eye(3), 1e-14, 'a rotation is orthogonal')
        mon.close(np.linalg.det(R[k]), np.float64(1), 1e-13, 'a rotation keeps handedness')
        mon.close(np.dot(R[k], u[k]), u[k], 1e-14, 'the axis of a rotation is fixed')
    mon.ev('rotations', n)
    mon.case('rot', ang.tobytes(), u.tobytes(), vector)


@P.workload(quick=3000, thorough=30000)
def horizon(rng, mon):
    """Equatorial (z north, x towards hour angle 0 of the frame) to topocentric (x east, y north, z up) and back."""
    co = aipy.coord
    n = int(rng.integers(1, 8))
    ha = rng.uniform(-10, 10, size=n)
    dec = rng.uniform(-np.pi / 2, np.pi / 2, size=n)
    dec[rng.random(n) < .2] = rng.choice([0, np.pi / 2, -np.pi / 2])
    ha[rng.random(n) < .2] = rng.choice([0, np.pi, np.pi / 2])
    if rng.random() < .6:
        M, W = co.eq2top_m(ha, dec), co.top2eq_m(ha, dec)
        mon.eq((M.shape, W.shape), ((n, 3, 3), (n, 3, 3)), 'shape of the matrices')
    else:
        n = 1
        M, W = co.eq2top_m(float(ha[0]), float(dec[0])), co.top2eq_m(float(ha[0]), float(dec[0]))
        mon.eq((M.shape, W.shape), ((3, 3), (3, 3)), 'shape of the matrices')
        M, W = M[None], W[None]
    for k in range(n):
        h, d = ha[k], dec[k]
        up = np.array([np.cos(d) * np.cos(h), -np.cos(d) * np.sin(h), np.sin(d)])      # the direction (-ha, dec)
        east = np.array([np.sin(h), np.cos(h), 0])
        north = np.cross(up, east)
        for e, w, name in ((east, [1, 0, 0], 'east'), (north, [0, 1, 0], 'north'), (up, [0, 0, 1], 'up')):
            mon.close(np.dot(M[k], e), np.array(w, float), 1e-12, 'topocentric direction of ' + name, ha=h, dec=d)
            mon.close(np.dot(W[k], np.array(w, float)), e, 1e-14, 'equatorial direction of ' + name, ha=h, dec=d)
        mon.close(np.dot(W[k], M[k]), np.eye(3), 1e-14, 'the two conversions are inverses', ha=h, dec=d)
    mon.ev('horizon', n)
    mon.case('horizon', ha.tobytes(), dec.tobytes())


# ---- sky systems: J2000 equatorial to galactic and ecliptic, and precession, from their definitions
GAL = None


def gal():
    global GAL
    if GAL is None:
        ra, dec, l = np.radians([192.859508, 27.128336, 122.932])     # north galactic pole; longitude of the celestial pole
        z = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
        ncp = np.array([0, 0, 1.])
        a = ncp - z * np.dot(z, ncp)
        a /= np.linalg.norm(a)
        b = np.cross(z, a)
        x = np.cos(l) * a - np.sin(l) * b
        GAL = np.array([x, np.cross(z, x), z])
    return GAL


def obliquity(T):
    return np.radians((84381.448 - 46.8150 * T - .00059 * T**2 + .001813 * T**3) / 3600)


def Rx(a):
    return np.array([[1, 0, 0], [0, np.cos(a), np.sin(a)], [0, -np.sin(a), np.cos(a)]])


def Ry(a):
    return np.array([[np.cos(a), 0, -np.sin(a)], [0, 1, 0], [np.sin(a), 0, np.cos(a)]])


def Rz(a):
    return np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])


def precess(T):
    """From J2000 to T Julian centuries later (Lieske 1977)."""
    z0 = np.radians((2306.2181 * T + .30188 * T**2 + .017998 * T**3) / 3600)
    z = np.radians((2306.2181 * T + 1.09468 * T**2 + .018203 * T**3) / 3600)
    th = np.radians((2004.3109 * T - .42665 * T**2 - .041833 * T**3) / 3600)
    return Rz(-z) @ Ry(th) @ Rz(-z0)


def frame(sys_, T):
    """Matrix from J2000 equatorial to the system at epoch T (centuries from J2000)."""
    if sys_ == 'ga':
        return gal()
    if sys_ == 'eq':
        return precess(T)
    return Rx(obliquity(T)) @ precess(T)


NAMES = {'eq': ['eq', 'EQ', 'equatorial', 'Eq'], 'ec': ['ec', 'ecliptic', 'EC'], 'ga': ['ga', 'galactic', 'Ga']}


def epoch(rng):
    """A way to name an epoch, and its centuries from J2000."""
    import ephem
    k = rng.random()
    if k < .4:
        return [ephem.J2000, '2000', '2000/1/1 12:00'][rng.integers(3)], 0.
    if k < .6:
        return [ephem.B1950, '1950'][0], (ephem.B1950 - ephem.J2000) / 36525
    y = int(rng.integers(1900, 2100))
    d = float(ephem.Date('%d/%d/%d' % (y, rng.integers(1, 13), rng.integers(1, 28))))
    return [d, ephem.Date(d), str(ephem.Date(d))][rng.integers(3)], (d - ephem.J2000) / 36525


@P.workload(quick=3000, thorough=30000)
def systems(rng, mon):
    co = aipy.coord
    i, o = [['eq', 'ec', 'ga'][k] for k in rng.integers(3, size=2)]
    ie, Ti = epoch(rng)
    oe, To = epoch(rng)
    if i == 'ga' and o == 'ga':
        To, oe = Ti, ie
    v = vec(rng, ())
    v = v * scale_of(rng)
    isys, osys = NAMES[i][rng.integers(len(NAMES[i]))], NAMES[o][rng.integers(len(NAMES[o]))]
    kw = {}
    if not (Ti == 0 and rng.random() < .5):
        kw['iepoch'] = ie
    if not (To == 0 and rng.random() < .5):
        kw['oepoch'] = oe
    if 'iepoch' not in kw and Ti or 'oepoch' not in kw and To:
        raise Skip()
    u = v / np.linalg.norm(v)
    ang = co.eq2radec(v)
    got = co.convert(v if rng.random() < .5 else tuple(float(a) for a in ang), isys, osys, **kw)
    mon.eq(len(got), 2, 'convert gives two angles')
    w = np.array([np.cos(got[1]) * np.cos(got[0]), np.cos(got[1]) * np.sin(got[0]), np.sin(got[1])])
    ref = frame(o, To) @ frame(i, Ti).T @ u
    mon.close(w, ref, 2e-5, 'direction converted from %s to %s' % (i, o), v=v, epochs=[Ti, To])
    kb = {}
    if 'iepoch' in kw:
        kb['oepoch'] = kw['iepoch']
    if 'oepoch' in kw:
        kb['iepoch'] = kw['oepoch']
    b = co.convert(got, osys, isys, **kb)
    back = np.array([np.cos(b[1]) * np.cos(b[0]), np.cos(b[1]) * np.sin(b[0]), np.sin(b[1])])
    mon.close(back, u, 2e-7, 'there and back', v=v, epochs=[Ti, To], systems=[i, o])
    M = co.convert_m(isys, osys, **kw)
    mon.close(np.dot(M, u), w, 2e-7, 'the matrix makes the same conversion', v=v, epochs=[Ti, To], systems=[i, o])
    mon.close(np.dot(M, M.T), np.eye(3), 2e-7, 'the matrix is orthogonal')
    mon.check(np.linalg.det(M) > 0, 'the matrix keeps handedness')
    mon.ev('systems')
    if Ti != To:
        mon.ev('precession')
    mon.case('systems', i, o, Ti, To, v.tobytes())


if __name__ == '__main__':
    P.main()
