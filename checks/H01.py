"""H01: HEALPix pixels, coordinates, interpolation, map access and conversion against the published pixelisation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import hpx
aipy = load()

P = Prop('H01', rule='an execution converts pixels and coordinates, or drives one or two maps through a sequence of writes, reads, reorderings and '
         'resolution changes beside a model indexed by direction; distinct by resolution, scheme and operation sequence',
         require=['directions', 'centers', 'interpolations', 'writes', 'repeated_writes', 'reads', 'scheme_changes', 'upgrades', 'downgrades',
                  'same_resolution', 'refused'])


def direction(rng, n):
    v = rng.normal(size=(3, n))
    k = rng.random()
    if k < .2:
        v[2] *= 20      # polar caps
    elif k < .3:
        v[2] *= .01
    elif k < .4:
        v[:2] *= 1e-3
    v /= np.sqrt((v**2).sum(axis=0))
    return v


def angles(v, rng=None):
    th, phi = np.arctan2(np.hypot(v[0], v[1]), v[2]), np.arctan2(v[1], v[0])
    return th, phi if rng is None or rng.random() < .5 else phi % (2 * np.pi)


def nsides(rng, top=64):
    return int(rng.choice([n for n in (1, 2, 4, 8, 16, 32, 64) if n <= top]))


@P.workload(quick=13500, thorough=60000)
def pixels(rng, mon):
    ns, nest = nsides(rng), bool(rng.random() < .5)
    h = aipy.healpix.HealpixBase(ns, 'NEST' if nest else 'RING')
    if rng.random() < .3:
        h = aipy.healpix.HealpixMap(nside=ns, scheme='NEST' if nest else 'RING')
    npix = 12 * ns**2
    mon.eq((h.npix(), h.nside(), h.order(), h.scheme(), h.npix2nside(npix)), (npix, ns, int(np.log2(ns)), 'NEST' if nest else 'RING', ns), 'size')
    n = int(rng.choice([1, 2, 20, 60]))
    v = direction(rng, n)
    th, phi = angles(v, rng)
    scale = 10.**rng.integers(-2, 3) if rng.random() < .3 else 1
    via = [h.crd2px(th, phi), h.crd2px(*(v * scale))]
    z, p = hpx.centers(ns, nest)
    for k in range(n):
        want = hpx.ang2pix(ns, v[2, k], phi[k], nest, 1e-6)
        if want is None:
            continue
        mon.ev('directions')
        for px in via:
            mon.eq(int(px[k]), want, 'pixel of a direction', nside=ns, nest=nest, v=v[:, k])
        d = np.sqrt(1 - z[want]**2)
        c = np.array([d * np.cos(p[want]), d * np.sin(p[want]), z[want]])
        mon.check(np.dot(c, v[:, k]) > np.cos(min(1.9 / ns, 1.2)), 'the pixel is far from the direction')
    px = rng.integers(0, npix, size=n)
    t2, p2 = h.px2crd(px, ncrd=2)
    x, y, zz = h.px2crd(px) if rng.random() < .5 else h.px2crd(px, ncrd=3)
    mon.ev('centers', n)
    s = np.sqrt(1 - z[px]**2)
    mon.close(np.array([x, y, zz]), np.array([s * np.cos(p[px]), s * np.sin(p[px]), z[px]]), 1e-12, 'pixel centers')
    mon.close(np.cos(t2), z[px], 1e-12, 'pixel center theta')
    mon.close(np.exp(1j * np.asarray(p2)), np.exp(1j * p[px]), 1e-11, 'pixel center phi')
    mon.eq(h.crd2px(t2, p2), px, 'pixel of a center')
    mon.eq(h.crd2px(x, y, zz), px, 'pixel of a center (xyz)')
    # renumbering: the result indexes data in the scheme named
    o = hpx.ring2nest(ns)
    for to in ('RING', 'NEST'):
        px0 = px.copy()
        got = h.nest_ring_conv(px, to)
        mon.eq(px, px0, 'renumbering changed its argument')
        want = px if to == h.scheme() else (o[px] if to == 'NEST' else np.argsort(o)[px])
        mon.eq(got, want, 'renumbered pixels', to=to)
        mon.eq(h.scheme(), 'NEST' if nest else 'RING', 'renumbering changed the scheme')
    with mon.raises(Exception, 'a scheme that does not exist'):
        h.set_nside_scheme(None, 'SPIRAL')
    with mon.raises(Exception, 'a resolution that is no power of 2'):
        h.set_nside_scheme(3, None)
    mon.ev('refused', 2)
    mon.eq((h.nside(), h.scheme()), (ns, 'NEST' if nest else 'RING'), 'a refused setting was kept')
    mon.case(ns, nest, n, bytes(px[:4]))


@P.workload(quick=9000, thorough=40000)
def weights(rng, mon):
    ns, nest = nsides(rng, 32), bool(rng.random() < .5)
    h = aipy.healpix.HealpixMap(nside=ns, scheme='NEST' if nest else 'RING', interp=True)
    n = int(rng.choice([1, 3, 25]))
    v = direction(rng, n)
    th, phi = angles(v, rng)
    o = hpx.ring2nest(ns) if nest else np.arange(12 * ns**2)
    ring = rng.normal(size=12 * ns**2)
    data = np.empty_like(ring)
    data[o] = ring
    h.set_map(data, scheme=h.scheme())
    got = [h[th, phi], h[tuple(v)]]
    px, w = h.crd2px(th, phi, interpolate=True) if rng.random() < .5 else h.crd2px(*v, interpolate=1)
    mon.eq((px.shape, w.shape), ((n, 4), (n, 4)), 'shape')
    for k in range(n):
        m = hpx.interp(ns, th[k], phi[k])
        want = sum(ring[i] * x for i, x in m.items())
        for g in got:
            mon.close(g[k], want, 1e-6, 'interpolated value', nside=ns, nest=nest, th=float(th[k]), phi=float(phi[k]))
        have = {}
        for i, x in zip(px[k], w[k]):
            have[int(i)] = have.get(int(i), 0) + x
        for i, x in m.items():
            mon.close(have.get(int(o[i]), 0), x, 1e-6, 'interpolation weight')
        mon.close(w[k].sum(), 1, 1e-12, 'weights sum to one')
        mon.check((w[k] >= -1e-12).all(), 'negative weight')
    h.set_interpol(False)
    near = h[th, phi]
    for k in range(n):
        q = hpx.ang2pix(ns, v[2, k], phi[k], nest, 1e-6)
        if q is not None:
            mon.eq(near[k], data[q], 'nearest value with interpolation off')
    mon.ev('interpolations', n)
    mon.case(ns, nest, n, round(float(th[0]), 6))


DT = [np.float64, np.float64, np.float32, np.int64, np.int32, np.complex128, np.complex64]


def value(rng, dt, n=None):
    v = rng.integers(-1000, 1000, size=n) * (1 if dt in (np.int64, np.int32) else .5)
    if dt in (np.complex64, np.complex128):
        v = v + 1j * rng.integers(-9, 9, size=n)
    return np.asarray(v).astype(dt)


class Model:
    """What a map should hold, by RING pixel."""
    def __init__(self, ns, scheme, dt):
        self.ns, self.scheme, self.dt = ns, scheme, dt
        self.v = np.zeros(12 * ns**2, dt)

    def px(self):
        """Where RING pixel i sits in the map."""
        return hpx.ring2nest(self.ns) if self.scheme == 'NEST' else np.arange(12 * self.ns**2)

    def array(self):
        a = np.empty_like(self.v)
        a[self.px()] = self.v
        return a


def compare(mon, h, m, what, tol=0):
    mon.eq((h.nside(), h.scheme(), h.npix()), (m.ns, m.scheme, 12 * m.ns**2), 'geometry after ' + what)
    mon.eq(h.get_map().dtype, h.map.dtype, 'dtype')
    if tol:
        mon.close(h.get_map(), m.array(), tol, 'map after ' + what)
    else:
        mon.eq(h.get_map(), m.array(), 'map after ' + what)


def make(rng, top=8):
    ns, sch, dt = nsides(rng, top), str(rng.choice(['RING', 'NEST'])), DT[rng.integers(len(DT))]
    h = aipy.healpix.HealpixMap(nside=ns, scheme=sch, dtype=dt)
    m = Model(ns, sch, dt)
    if rng.random() < .7:
        m.v[:] = value(rng, dt, 12 * ns**2)
        h.set_map(m.array(), scheme=sch)
    return h, m


def address(rng, m, ring):
    """Ways to name RING pixels of the map."""
    z, p = hpx.centers(m.ns)
    k = rng.random()
    # off the center but well inside the pixel
    d = rng.uniform(-.1, .1, size=(2, len(ring))) / m.ns
    s = np.sqrt(1 - z[ring]**2)
    if k < .35:
        return m.px()[ring] if rng.random() < .8 or len(ring) == 1 else [int(i) for i in m.px()[ring]]
    if k < .7:
        return np.arccos(z[ring]) + d[0], p[ring] + d[1] * s
    th, ph = np.arccos(z[ring]) + d[0], p[ring] + d[1] * s
    return np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)


@P.workload(quick=10800, thorough=50000)
def maps(rng, mon):
    h, m = make(rng)
    ops = []
    tol = 0
    for _ in range(int(rng.integers(1, 12))):
        op = str(rng.choice(['set', 'set', 'set', 'get', 'get', 'scheme', 'setmap', 'hpm', 'hpm', 'refuse', 'interp']))
        ops.append(op)
        npix = 12 * m.ns**2
        if op == 'set':
            n = int(rng.choice([1, 2, 3, 10, 40]))
            ring = rng.integers(0, npix, size=n)
            if rng.random() < .4:
                ring = rng.choice(ring, size=n)
            val = value(rng, m.dt, n)
            crd = address(rng, m, ring)
            h[crd] = val if n > 1 or rng.random() < .5 else val[0]
            new = np.zeros_like(m.v)
            np.add.at(new, ring, val)
            hit = np.unique(ring)
            m.v[hit] = new[hit]
            mon.ev('writes')
            mon.ev('repeated_writes', int(len(hit) < n))
        elif op == 'get':
            ring = rng.integers(0, npix, size=int(rng.choice([1, 2, 7])))
            mon.eq(h[address(rng, m, ring)], m.v[ring], 'read')
            mon.ev('reads', len(ring))
        elif op == 'scheme':
            to = str(rng.choice(['RING', 'NEST']))
            h.change_scheme(to)
            m.scheme = to
            mon.ev('scheme_changes')
        elif op == 'setmap':
            m = Model(nsides(rng, 8), str(rng.choice(['RING', 'NEST'])), m.dt)
            m.v[:] = value(rng, m.dt, len(m.v))
            h.set_map(m.array(), scheme=m.scheme)
            tol = 0
        elif op == 'interp':
            h.set_interpol(True)
            if m.dt in (np.float64,):
                th, ph = angles(direction(rng, 2))
                want = [sum(m.v[i] * x for i, x in hpx.interp(m.ns, a, b).items()) for a, b in zip(th, ph)]
                mon.close(h[th, ph], np.array(want), 1e-6 * (1 + np.abs(m.v).max()), 'interpolated read')
            h.set_interpol(False)
        elif op == 'hpm':
            g, q = make(rng)
            if q.dt in (np.complex64, np.complex128) and m.dt not in (np.complex64, np.complex128):
                continue
            if m.dt in (np.int64, np.int32) and (q.ns < m.ns or q.dt not in (np.int64, np.int32)):
                continue
            on = bool(rng.random() < .3)
            g.set_interpol(on)
            h.from_hpm(g)
            mon.eq(g.get_map(), q.array(), 'the source map changed')
            mon.eq((g.nside(), g.scheme()), (q.ns, q.scheme), 'the geometry of the source map changed')
            g.set_interpol(not on)
            if q.ns == m.ns:
                m.v = q.v.astype(m.dt)
                mon.ev('same_resolution')
                tol = 0
            elif q.ns > m.ns:   # every fine pixel is summed into the coarse one that contains it
                r = (q.ns // m.ns)**2
                nest = np.empty(12 * m.ns**2, np.result_type(q.dt, m.dt))
                o = hpx.ring2nest(q.ns)
                f = np.empty_like(q.v)
                f[o] = q.v
                nest = f.astype(m.dt).reshape(-1, r).sum(axis=1)
                m.v = nest[hpx.ring2nest(m.ns)].astype(m.dt)
                mon.ev('downgrades')
            else:
                z, p = hpx.centers(m.ns)
                m.v = np.array([sum(q.v[i] * x for i, x in hpx.interp(q.ns, np.arccos(a), b).items()) for a, b in zip(z, p)]).astype(m.dt)
                mon.ev('upgrades')
                tol = 1e-9 if m.dt in (np.float64, np.complex128) and q.dt not in (np.float32, np.complex64) else 1e-5
                tol *= 1 + float(np.abs(q.v).max())
                compare(mon, h, m, '/'.join(ops), tol)
                m.v[:] = h.get_map()[m.px()]        # go on from what is there
                tol = 0
        elif op == 'refuse':
            k = rng.integers(3)
            with mon.raises(ValueError if k else Exception, 'refused'):
                if k == 0:
                    h.change_scheme('SPIRAL')
                elif k == 1:
                    h.set_map(np.zeros(int(rng.choice([5, 11, 13, 100]))))
                else:
                    h.set_map(np.zeros((12, 1)))
            mon.ev('refused')
        compare(mon, h, m, '/'.join(ops), tol)
    mon.case(m.ns, m.scheme, str(m.dt), tuple(ops))


@P.workload(quick=1800, thorough=5000)
def interp_quirk(rng, mon):
    """Interpolation is a property of one map: reading, converting from it or copying its data leaves it as the user set it."""
    a = aipy.healpix.HealpixMap(nside=nsides(rng, 4), interp=False)
    a.set_map(value(rng, np.float64, a.npix()))
    b = aipy.healpix.HealpixMap(nside=2 * a.nside(), interp=bool(rng.random() < .5))
    b.from_hpm(a)
    v = direction(rng, 5)
    th, phi = angles(v)
    z, p = hpx.centers(a.nside())
    got = a[th, phi]
    for k in range(5):
        q = hpx.ang2pix(a.nside(), v[2, k], phi[k], False, 1e-6)
        if q is not None:
            mon.eq(got[k], a.map[q], 'a map that does not interpolate returned something else than a sample')
    d = np.arange(12.)
    h = aipy.healpix.HealpixMap(nside=1)
    h.set_map(d)
    mon.eq(h.get_map(), d, 'set_map')
    mon.ev('reads', 5)
    mon.case('i', a.nside(), round(float(th[0]), 5))


if __name__ == '__main__':
    P.main()
