"""H03: weighted sky maps accumulate and average correctly; facet centers cover the sphere evenly."""
import copy, os, pickle, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import hpx
aipy = load()

P = Prop('H03', rule='an execution drives a weighted map through adds, puts, reads, reorderings, weight resets, conversions and copies beside a '
         'model of weight and weighted sums per direction, or generates facet centers; distinct by resolution, indices and operation sequence',
         require=['adds', 'repeated_adds', 'puts', 'averages', 'interpolated', 'scheme_changes', 'resets', 'conversions', 'copies', 'facets', 'packed'])


class Model:
    def __init__(self, ns, scheme, nind):
        self.ns, self.scheme = ns, scheme
        self.v = np.zeros((2 + nind, 12 * ns**2))       # weight, weighted flux, weighted indices; by RING pixel

    def px(self):
        return hpx.ring2nest(self.ns) if self.scheme == 'NEST' else np.arange(12 * self.ns**2)

    def avg(self, ring):
        w = self.v[0, ring]
        return self.v[1:, ring] / np.where(w > 0, w, 1)


def address(rng, m, ring):
    z, p = hpx.centers(m.ns)
    d = rng.uniform(-.1, .1, size=(2, len(ring))) / m.ns
    th, ph = np.arccos(z[ring]) + d[0], p[ring] + d[1] * np.sqrt(1 - z[ring]**2)
    k = rng.integers(3)
    if k == 0:
        return m.px()[ring]
    if k == 1:
        return th, ph
    return np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)


def parts(h):
    return [h.wgt, h.map] + list(h.ind)


def compare(mon, h, m, what):
    mon.eq(len(h.ind), len(m.v) - 2, 'number of indices after ' + what)
    mon.eq((h.nside(), h.scheme(), h.npix()), (m.ns, m.scheme, 12 * m.ns**2), 'geometry after ' + what)
    for x, v, name in zip(parts(h), m.v, ['weights', 'fluxes'] + ['index %d' % i for i in range(9)]):
        mon.eq((x.nside(), x.scheme()), (m.ns, m.scheme), 'geometry of the %s after %s' % (name, what))
        mon.close(np.asarray(x.map)[m.px()], v, 1e-9 * (1 + np.abs(v).max()), '%s after %s' % (name, what))


def averages(mon, rng, h, m, what):
    ring = rng.integers(0, 12 * m.ns**2, size=int(rng.choice([1, 2, 9])))
    crd = address(rng, m, ring)
    want = m.avg(ring)
    got = h[crd]
    flux, inds = got if len(m.v) > 2 else (got, [])
    tol = 1e-9 * (1 + np.abs(m.v).max())
    mon.close(flux, want[0], tol, 'average flux after ' + what)
    mon.eq(len(inds), len(m.v) - 2, 'indices returned')
    for i, w in zip(inds, want[1:]):
        mon.close(i, w, tol, 'average index after ' + what)
    w, f, i = h.get(crd)
    mon.close(w, m.v[0, ring], tol, 'weight after ' + what)
    mon.close(f, m.v[1, ring], tol, 'weighted flux after ' + what)
    for a, b in zip(i, m.v[2:]):
        mon.close(a, b[ring], tol, 'weighted index after ' + what)
    mon.ev('averages', len(ring))


@P.workload(quick=10800, thorough=50000)
def maps(rng, mon):
    ns, sch = int(rng.choice([1, 2, 4, 8])), str(rng.choice(['RING', 'NEST']))
    nind = int(rng.choice([0, 0, 1, 2]))
    kw = {} if nind == 0 and rng.random() < .5 else dict(nindices=nind)
    h = aipy.map.Map(ns, sch, **kw) if rng.random() < .3 else aipy.map.Map(nside=ns, scheme=sch, **kw)
    m = Model(ns, sch, nind)
    ops = []
    for _ in range(int(rng.integers(1, 12))):
        op = str(rng.choice(['add', 'add', 'add', 'put', 'scheme', 'reset', 'interp', 'from', 'copy', 'nind']))
        ops.append(op)
        npix = 12 * m.ns**2
        nind = len(m.v) - 2
        if op in ('add', 'put'):
            n = int(rng.choice([1, 2, 5, 30]))
            ring = rng.integers(0, npix, size=n)
            if rng.random() < .5:
                ring = rng.choice(ring, size=n)
            crd = address(rng, m, ring)
            w = rng.uniform(.1, 3, size=n) if rng.random() < .7 else np.ones(n)
            f = rng.normal(size=n) * 10
            inds = [rng.normal(size=n) for _ in range(nind)]
            args = (crd, w, f) + ((inds,) if nind or rng.random() < .3 else ())
            keep = [np.copy(x) for x in (w, f)] + [np.copy(x) for x in inds]
            on = bool(rng.random() < .2)
            h.set_interpol(on)      # reads interpolate, writes never do
            getattr(h, op)(*args)
            h.set_interpol(False)
            mon.check(all(same(a, b) for a, b in zip(keep, [w, f] + inds)), op + ' changed its arguments')
            rows = [w, f * w] + [i * w for i in inds]
            for r, x in zip(m.v, rows):
                new = np.zeros(npix)
                np.add.at(new, ring, x)
                if op == 'add':
                    r += new
                else:
                    r[ring] = new[ring]
            mon.ev(op + 's')
            if op == 'add' and len(set(ring)) < n:
                mon.ev('repeated_adds')
        elif op == 'scheme':
            m.scheme = str(rng.choice(['RING', 'NEST']))
            h.change_scheme(m.scheme)
            mon.ev('scheme_changes')
        elif op == 'reset':
            w = float(rng.choice([1, 1, 2, .5]))
            pos = m.v[0] > 0
            m.v[1:] = np.where(pos, m.v[1:] / np.where(pos, m.v[0], 1) * w, m.v[1:])
            m.v[0] = np.where(pos, w, 0)
            h.reset_wgt(w) if w != 1 or rng.random() < .5 else h.reset_wgt()
            mon.ev('resets')
        elif op == 'interp':
            v = rng.normal(size=(3, 3))
            v /= np.sqrt((v**2).sum(axis=0))
            th, ph = np.arctan2(np.hypot(v[0], v[1]), v[2]), np.arctan2(v[1], v[0])
            h.set_interpol(True)
            got = h[th, ph]
            flux = got[0] if nind else got
            h.set_interpol(False)
            for k in range(3):
                wt = hpx.interp(m.ns, th[k], ph[k])
                a = [sum(r[i] * x for i, x in wt.items()) for r in m.v[:2]]
                if 0 < a[0] < 1e-9:
                    continue
                mon.close(flux[k], a[1] / (a[0] if a[0] > 0 else 1), 1e-6 * (1 + np.abs(m.v[:2]).max() / max(a[0], 1e-9))**2, 'interpolated average')
            mon.ev('interpolated')
        elif op == 'from':
            ns2, sch2 = int(rng.choice([1, 2, 4, 8])), str(rng.choice(['RING', 'NEST']))
            k = int(rng.choice([0, nind, nind + 1]))
            g = aipy.map.Map(nside=ns2, scheme=sch2, nindices=k)
            q = Model(ns2, sch2, k)
            z, p = hpx.centers(m.ns)
            q.v[:] = rng.uniform(0, 4, size=q.v.shape)
            for x, row in zip(parts(g), q.v):
                x.map[q.px()] = row
            h.from_map(g)
            compare(mon, g, q, 'being converted from')
            for r in range(min(len(m.v), len(q.v))):
                src = q.v[r]
                if ns2 == m.ns:
                    m.v[r] = src
                elif ns2 > m.ns:
                    f = np.empty_like(src)
                    f[hpx.ring2nest(ns2)] = src
                    m.v[r] = f.reshape(-1, (ns2 // m.ns)**2).sum(axis=1)[hpx.ring2nest(m.ns)]
                else:
                    m.v[r] = [sum(src[i] * x for i, x in hpx.interp(ns2, np.arccos(a), b).items()) for a, b in zip(z, p)]
            mon.ev('conversions')
        elif op == 'copy':
            g = copy.deepcopy(h) if rng.random() < .5 else pickle.loads(pickle.dumps(h, int(rng.choice([0, 2, 4]))))
            compare(mon, g, m, 'copying')
            if rng.random() < .5:
                g.add(np.array([0]), np.array([1.]), np.array([5.]))
                compare(mon, h, m, 'adding to a copy')
            else:
                h = g
            mon.ev('copies')
        elif op == 'nind':
            k = int(rng.integers(0, 4))
            h.set_nindices(k)
            if k != nind:
                v = np.zeros((2 + k, npix))
                v[:min(k, nind) + 2] = m.v[:min(k, nind) + 2]
                m.v = v
        compare(mon, h, m, '/'.join(ops))
        averages(mon, rng, h, m, '/'.join(ops))
    mon.case(ns, sch, nind, tuple(ops))


@P.workload(quick=2700, thorough=6000)
def facets(rng, mon):
    n = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 100, 200, 500])) if rng.random() < .5 else int(rng.integers(1, 600))
    p = np.asarray(aipy.map.pack_sphere(n))
    mon.eq(p.shape, (3, n), 'shape')
    mon.close((p**2).sum(axis=0), np.ones(n), 1e-12, 'on the sphere')
    mon.close(p[2], -1 + (2 * np.arange(n) + 1.) / n, 1e-12, 'heights, from south to north')
    if n > 1:
        d = np.arccos(np.clip(np.dot(p.T, p), -1, 1)) + 9 * np.eye(n)
        mon.check(d.min() > 1.5 / np.sqrt(n), 'two points crowd', n=n, d=float(d.min()))
        q = rng.normal(size=(3, 50))
        q /= np.sqrt((q**2).sum(axis=0))
        far = np.arccos(np.clip(np.dot(q.T, p), -1, 1)).min(axis=1).max()
        mon.check(far < 3.3 / np.sqrt(n), 'a region has no point', n=n, d=float(far))
    mon.ev('packed', n)
    c = np.asarray(aipy.map.facet_centers(n, ncrd=3))
    mon.eq(c.shape, (3, n), 'shape of facet centers')
    mon.close(c[:, np.argsort(c[2])], p[:, np.argsort(p[2])], 1e-12, 'facet centers are the packed points, reordered')
    radec = np.asarray(aipy.map.facet_centers(n)) if rng.random() < .5 else np.asarray(aipy.map.facet_centers(n, ncrd=2))
    mon.eq(radec.shape, (2, n), 'shape of facet coordinates')
    ra, dec = radec
    xyz = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    o, o2 = np.argsort(xyz[2]), np.argsort(p[2])
    mon.close(xyz[:, o], p[:, o2], 1e-9, 'facet coordinates are those of the packed points')
    if n >= 32:     # widely spaced first: the first few are never all in one region
        k = max(4, n // 8)
        z = np.sort(c[2, :k])
        mon.check(z[0] < -.4 and z[-1] > .4, 'the first facets are not spread over the sphere', n=n, z=z)
        mon.check(np.diff(np.concatenate([[-1], z, [1]])).max() < 6. / k + .3, 'the first facets leave a wide gap', n=n)
    with mon.raises(Exception, 'ncrd = 4'):
        aipy.map.facet_centers(n, ncrd=4)
    mon.ev('facets', n)
    mon.case('f', n)


if __name__ == '__main__':
    P.main()
