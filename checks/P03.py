"""P03: simulated visibilities are the sum over the sources above the horizon of gain x beam x flux x fringe, per baseline, polarization and channel."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from arr import *
aipy = load()

P = Prop('P03', rule='an execution takes a generated array (pass-bands, beams, pointings, polarizations) and sky through a history of times, channel and '
         'polarization selections and compares every simulated visibility with a direct sum; distinct by array, sky and history',
         assumptions=['sources at least 1e-6 from the horizon; beam orientation as implemented: the x axis of the beam is turned to the azimuth of the pointing'],
         require=['sim', 'not_cached_error', 'below_horizon', 'none_up', 'beam_flat', 'beam_gauss', 'beam_poly', 'catalog', 'same_catalog', 'pol_xy', 'pol_module', 'additive', 'phased_up', 'pointing', 'stokes'])


def rot(axis, a):
    c, s = np.cos(a), np.sin(a)
    return np.array({'x': [[1, 0, 0], [0, c, -s], [0, s, c]], 'y': [[c, 0, s], [0, 1, 0], [-s, 0, c]], 'z': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


def beam_axes(az, alt, twist, pol):
    """Rows: the x, y, z axes of the beam of a polarization, in topocentric (east, north, up) coordinates."""
    z = np.array([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)])
    x = np.array([np.sin(alt) * np.sin(az), np.sin(alt) * np.cos(az), -np.cos(alt)])      # away from the zenith
    y = np.cross(z, x)
    R = np.array([x, y, z])
    R = rot('z', -twist) @ R
    if pol == 'y':
        R = rot('z', -np.pi / 2) @ R
    return R


class Bm:
    """A beam model: how to make it with aipy, and its amplitude in direction v (3, n) of its own frame at frequencies f."""
    def __init__(self, rng, mon):
        self.kind = ['flat', 'gauss', 'poly'][rng.integers(3)]
        mon.ev('beam_' + self.kind)
        if self.kind == 'gauss':
            self.p = [float(x) for x in rng.uniform(.1, 2, size=2)]
        elif self.kind == 'poly':
            self.p = rng.uniform(-.2, .2, size=(rng.integers(1, 4), rng.integers(1, 4)))
            self.p[0, 0] = rng.uniform(3, 5)

    def make(self, mod, f):
        if self.kind == 'flat':
            return mod.Beam(f)
        if self.kind == 'gauss':
            return mod.Beam2DGaussian(f, *self.p)
        return mod.BeamPolynomial(f, self.p.copy())

    def amp(self, v, f):
        x, y, z = v
        if self.kind == 'flat':
            return np.ones((v.shape[1], f.size))
        if self.kind == 'gauss':
            r = np.exp(-.25 * ((np.arcsin(np.clip(x, -1, 1)) / self.p[0])**2 + (np.arcsin(np.clip(y, -1, 1)) / self.p[1])**2))
            return np.repeat(r[:, None], f.size, axis=1)
        az = np.arctan2(x, y)
        za = np.arctan2(np.hypot(x, y), z)
        sig = sum(self.p[k, n] * np.multiply.outer(.5 if k == 0 else np.cos(2 * k * az), f**n) * np.ones((v.shape[1], 1))
                  for k in range(self.p.shape[0]) for n in range(self.p.shape[1]))
        return np.exp(-.5 * (za[:, None] / sig)**2)


class World:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.polm = rng.random() < .3
        self.mod = aipy.fit if self.polm else [aipy.amp, aipy.fit][rng.integers(2)]
        n = int(rng.integers(1, 5))
        self.f = freqs(rng)
        self.pos = positions(rng, n)
        self.pos *= min(1, 1e4 / np.abs(self.pos).max()) if self.pos.any() else 1
        shared = rng.random() < .5
        self.bm = [Bm(rng, mon)] * n if shared else [Bm(rng, mon) for _ in range(n)]
        beams = [self.bm[0].make(self.mod, self.f)] * n if shared else [b.make(self.mod, self.f) for b in self.bm]
        pl = ['x', 'y']
        self.off = [{p: list(rng.normal(size=rng.integers(2, 4)) * 3) for p in pl} for _ in range(n)]
        self.bpr = [{p: list(rng.normal(size=rng.integers(1, 4)) + 1) for p in pl} for _ in range(n)]
        self.bpi = [{p: list(rng.normal(size=rng.integers(1, 4))) for p in pl} for _ in range(n)]
        self.g = [{p: float(rng.uniform(.5, 2)) for p in pl} for _ in range(n)]
        if not self.polm:
            for d in self.off + self.bpr + self.bpi + self.g:
                d['y'] = d['x']
        self.point = [(0., np.pi / 2, 0.) if rng.random() < .5 else tuple(float(x) for x in (rng.uniform(0, TAU), rng.uniform(.2, np.pi / 2), rng.uniform(-3, 3))) for _ in range(n)]
        ants = []
        for k in range(n):
            sel = (lambda d: dict(d)) if self.polm else (lambda d: d['x'])
            kw = dict(phsoff=sel(self.off[k]), bp_r=sel(self.bpr[k]), bp_i=sel(self.bpi[k]), amp=sel(self.g[k]))
            if rng.random() < .5:
                kw['pointing'] = self.point[k]
            A = aipy.pol.Antenna if self.polm else self.mod.Antenna
            a = A(*self.pos[k], beam=beams[k], **kw)
            if 'pointing' not in kw:
                a.set_pointing(*self.point[k])
            ants.append(a)
        loc, self.lat, self.lon = location(rng)
        self.aa = (aipy.pol.AntennaArray if self.polm else self.mod.AntennaArray)(loc, ants)
        self.chans = np.arange(self.f.size)
        self.n = n
        self.cat = None
        if self.polm:
            mon.ev('pol_module')

    def fa(self):
        return self.f[self.chans]

    def lst(self):
        return float(self.aa.sidereal_time())

    def gain(self, k, p):
        fa = self.fa()
        ev = lambda c: sum(x * fa**(len(c) - 1 - q) for q, x in enumerate(c))
        return self.g[k][p] * (ev(self.bpr[k][p]) + 1j * ev(self.bpi[k][p]))

    def vis(self, i, j, pol, v, jys, mf, ion, shp):
        """Direct sum over the sources, and the size of its terms."""
        fa = self.fa()
        lst = self.lst()
        H = lst - np.arctan2(v[1], v[0])
        dec = np.arctan2(v[2], np.hypot(v[0], v[1]))
        A = axes(H, dec)
        u, vv, w = np.einsum('kcm,c->km', A, self.pos[j] - self.pos[i])[:, :, None] * fa
        up = np.dot(eq(lst, self.lat), v) > 0
        top = axes(0., self.lat) @ np.array([np.cos(dec) * np.cos(H), -np.cos(dec) * np.sin(H), np.sin(dec)])
        p1, p2 = pol
        Bi = self.bm[i].amp(beam_axes(*self.point[i], p1) @ top, fa)
        Bj = self.bm[j].amp(beam_axes(*self.point[j], p2) @ top, fa)
        ev = lambda c: sum(x * fa**(len(c) - 1 - q) for q, x in enumerate(c))
        o = ev(self.off[j][p2]) - ev(self.off[i][p1])
        dw = (ion[0][:, None] * u + ion[1][:, None] * vv) * mf[:, None]**2 / fa**2
        ph = w + dw + o
        a1, a2, th = [s[:, None] for s in shp]
        x = TAU * np.sqrt((a1 * (u * np.cos(th) - vv * np.sin(th)))**2 + (a2 * (u * np.sin(th) + vv * np.cos(th)))**2)
        from scipy.special import jv
        with np.errstate(all='ignore'):
            att = np.where(x < 1e-8, 1, 2 * jv(1, x) / x)
        t = self.gain(j, p2) * np.conj(self.gain(i, p1)) * Bi * Bj * jys * np.exp(2j * np.pi * ph) * att
        t = t[up]
        size = np.abs(self.gain(j, p2) * self.gain(i, p1)).max() * np.abs(jys).sum() if t.size else 0
        return t.sum(axis=0), size * (1e-9 + 1e-12 * np.abs(ph).max()), up


POLS = ['xx', 'yy', 'xy', 'yx']


@P.workload(quick=6300, thorough=20000)
def simulate(rng, mon):
    W = World(rng, mon)
    aa, i, j = W.aa, int(rng.integers(W.n)), int(rng.integers(W.n))
    with mon.raises(RuntimeError, 'simulating before anything was set up'):
        aa.sim(i, j)
    mon.ev('not_cached_error')
    cached = None
    pol = None
    ops = []
    for step in range(int(rng.integers(2, 7))):
        op = 'time' if step == 0 else ['time', 'chans', 'pol', 'cache', 'sim', 'etime'][rng.integers(6)]
        ops.append(op)
        if op in ('time', 'etime'):
            jd = jultime(rng)
            aa.set_jultime(jd) if op == 'time' else aa.set_ephemtime(jd - 2415020.)
            if pol:
                with mon.raises(RuntimeError, 'simulating with the sources of another time', ops=ops):
                    aa.sim(i, j)
                mon.ev('not_cached_error')
            cached = None
        if op == 'chans':
            W.chans = np.arange(W.f.size) if rng.random() < .2 else channels(rng, W.f.size, W.chans)
            aa.select_chans(None if len(W.chans) == W.f.size and (W.chans == np.arange(W.f.size)).all() else W.chans)
            cached = None
        if op == 'pol' or pol is None:
            pol = str(rng.choice(POLS))
            aa.set_active_pol(pol)
            mon.eq(aa.get_active_pol(), pol, 'polarization set and read')
            if pol in ('xy', 'yx'):
                mon.ev('pol_xy')
        if cached is None or op == 'cache':
            cached = cache(rng, mon, W)
        for _ in range(2):
            i, j = int(rng.integers(W.n)), int(rng.integers(W.n))
            check(mon, W, i, j, pol, cached, ops)
    mon.case('sim', W.lat, jd, tuple(ops), W.pos.tobytes())


def cache(rng, mon, W):
    """Give the array a sky (arrays, or a catalogue of sources)."""
    aa, lst = W.aa, W.lst()
    m = int(rng.choice([1, 1, 2, 3, 6]))
    if rng.random() < .35:
        if W.cat is None or rng.random() < .3:
            srcs = []
            for k in range(m):
                kw = {}
                if rng.random() < .5:
                    kw.update(ionref=tuple(rng.normal(size=2) * 1e-5), mfreq=float(rng.uniform(.05, .5)))
                if rng.random() < .5:
                    kw.update(srcshape=tuple(float(x) for x in rng.uniform(0, 1e-4, size=3)))
                srcs.append(W.mod.RadioFixedBody(float(rng.uniform(0, TAU)), float(np.arcsin(rng.uniform(-1, 1))), name='s%d' % k, jys=float(rng.exponential() + .1),
                            index=float(rng.normal()), **kw))
            W.cat = W.mod.SrcCatalog(srcs)
        else:           # the sources of before, perhaps of another flux
            m = len(W.cat)
            mon.ev('same_catalog')
            s = W.cat['s%d' % rng.integers(m)]
            if rng.random() < .3:
                s._jys = float(rng.exponential() + .1)
            if rng.random() < .3:
                s.index = float(rng.normal())
            if rng.random() < .3:
                s.mfreq = float(rng.uniform(.05, .5))
        cat = W.cat
        cat.compute(aa)
        v = cat.get_crds('eq')
        names = list(cat.keys())
        jys = np.array([cat[s]._jys * (W.fa() / cat[s].mfreq)**cat[s].index for s in names])
        mon.close(cat.get_jys(), jys, 1e-12 * np.abs(jys).max(), 'flux of sources is a power law')
        mf, ion, shp = [np.array([getattr(cat[s], a) for s in names]).T for a in ('mfreq', 'ionref', 'srcshape')]
        if (np.abs(np.dot(eq(lst, W.lat), v)) < 1e-6).any():
            raise Skip()
        arg = (cat.get_crds('eq'), cat.get_jys())
        kw = dict(mfreqs=cat.get('mfreq'), ionrefs=cat.get('ionref'), srcshapes=cat.get('srcshape'))
        if rng.random() < .2:
            sub = list(rng.permutation(names)[:rng.integers(1, m + 1)])
            sub = [str(s) for s in sub]
            ix = [names.index(s) for s in sub]
            v, jys, mf, ion, shp = v[:, ix], jys[ix], mf[ix], ion[:, ix], shp[:, ix]
            arg = (cat.get_crds('eq', srcs=sub), cat.get_jys(srcs=sub))
            kw = dict(mfreqs=cat.get('mfreq', srcs=sub), ionrefs=cat.get('ionref', srcs=sub), srcshapes=cat.get('srcshape', srcs=sub))
        mon.ev('catalog')
    else:
        v = sky(rng, m, lst, W.lat, [None, True, False][rng.integers(3)] if rng.random() < .4 else None)
        jys = rng.exponential(size=(m, W.fa().size)) + .01
        if rng.random() < .2:
            jys = jys * rng.choice([-1, 1], size=jys.shape)
        mf, ion, shp = np.full(m, .15), np.zeros((2, m)), np.zeros((3, m))
        L = max(1, np.abs(W.pos).max() * 2 * W.f.max())
        kw = {}
        if rng.random() < .4:
            mf = rng.uniform(.05, .3, size=m)
            kw['mfreqs'] = mf.copy()
        if rng.random() < .4:
            ion = rng.normal(size=(2, m)) / L
            kw['ionrefs'] = ion.copy() if rng.random() < .5 else (ion[0].copy(), ion[1].copy())
        if rng.random() < .4:
            shp = rng.uniform(0, 1, size=(3, m)) / L
            kw['srcshapes'] = tuple(s.copy() for s in shp)
        arg = (v.copy(), jys.copy())
    before = [x.tobytes() for x in arg]
    shapes = {k: (np.shape(x), [np.shape(y) for y in x] if isinstance(x, tuple) else None) for k, x in kw.items()}
    aa.sim_cache(*arg, **kw)
    mon.check(before == [x.tobytes() for x in arg] and shapes == {k: (np.shape(x), [np.shape(y) for y in x] if isinstance(x, tuple) else None) for k, x in kw.items()},
              'sim_cache changed its arguments')
    return v, jys, mf, ion, shp


def check(mon, W, i, j, pol, sky_, ops):
    want, tol, up = W.vis(i, j, pol, *sky_)
    with np.errstate(all='ignore'):
        got = W.aa.sim(i, j)
    mon.close(np.ravel(got), want, tol, 'simulated visibility', ij=[i, j], pol=pol, ops=ops, beams=[W.bm[i].kind, W.bm[j].kind], up=up, chans=W.chans)
    mon.ev('sim')
    if not up.all():
        mon.ev('below_horizon')
    if not up.any():
        mon.ev('none_up')
    if pol[0] == pol[1]:
        with np.errstate(all='ignore'):
            mon.close(np.ravel(W.aa.sim(j, i)), np.conj(want), tol, 'the reversed baseline has the conjugate visibility', pol=pol)


@P.workload(quick=2700, thorough=8000)
def sums(rng, mon):
    """Additive over sources; phasing a single source up gives its flux."""
    W = World(rng, mon)
    aa = W.aa
    aa.set_jultime(jultime(rng))
    pol = str(rng.choice(POLS))
    aa.set_active_pol(pol)
    m = int(rng.integers(2, 6))
    v = sky(rng, m, W.lst(), W.lat)
    jys = rng.exponential(size=(m, W.fa().size))
    i, j = int(rng.integers(W.n)), int(rng.integers(W.n))
    k = int(rng.integers(1, m))

    def sim(a, b):
        aa.sim_cache(v[:, a:b].copy(), jys[a:b].copy())
        with np.errstate(all='ignore'):
            return np.ravel(aa.sim(i, j))
    tol = 1e-9 * jys.sum() * np.abs(W.gain(j, pol[1]) * W.gain(i, pol[0])).max()
    whole = sim(0, m)
    mon.close(sim(0, k) + sim(k, m), whole, tol, 'the sky is the sum of its parts')
    mon.ev('additive')
    s = int(rng.integers(m))
    one = sim(s, s + 1)
    if np.dot(eq(W.lst(), W.lat), v[:, s]) > 0:
        amp = np.ravel(aa.bm_response(i, j)) * aa.passband(i, j) * jys[s]
        mon.close(np.ravel(aa.phs2src(one, v[:, s], i, j)), np.ravel(amp), tol, 'a source phased up is real flux times gain and beam')
        mon.ev('phased_up')
    mon.case('sums', v.tobytes())


@P.workload(quick=3600, thorough=10000)
def pointing(rng, mon):
    """The beam is strongest where the antenna points, falls off from there, and y is x turned by a quarter."""
    f = freqs(rng)
    bm = Bm(rng, mon)
    b = bm.make(aipy.amp, f)
    az, alt, tw = float(rng.uniform(0, TAU)), float(rng.uniform(0, np.pi / 2)), float(rng.uniform(-3, 3))
    a = aipy.amp.Antenna(0, 0, 0, beam=b, pointing=(az, alt, tw))
    top = aipy.coord.azalt2top((az, alt))
    for p in 'xy':
        peak = a.bm_response(top[:, None], pol=p)
        mon.close(peak, np.ones((f.size, 1)), 1e-9, 'response where the antenna points', az=az, alt=alt, twist=tw, kind=bm.kind)
    v = rng.normal(size=(3, int(rng.integers(1, 6))))
    v /= np.sqrt((v**2).sum(axis=0))
    R = {p: beam_axes(az, alt, tw, p) @ v for p in 'xy'}
    for p in 'xy':
        if bm.kind == 'gauss' and (np.abs(R[p][:2]) > 1 - 1e-12).any():
            raise Skip()
        vb = v.tobytes()
        got = a.bm_response(v, pol=p)
        mon.close(got, bm.amp(R[p], f).T, 1e-8, 'response of the beam', pol=p, az=az, alt=alt, twist=tw, kind=bm.kind)
        mon.eq(v.tobytes(), vb, 'directions changed')
        w = R[p]
        if v.shape[1] > 1 or bm.kind != 'poly':
            mon.close(b.response(tuple(w)), got, 1e-8, 'response of the beam in its own frame')
    mon.ev('pointing')
    mon.case('pointing', az, alt, tw, v.tobytes())


@P.workload(quick=1500, thorough=5000)
def stokes(rng, mon):
    """Beams and phases of Stokes parameters combine those of the two feeds."""
    W = World(rng, mon)
    while not W.polm:
        W = World(rng, mon)
    aa = W.aa
    aa.set_jultime(jultime(rng))
    if rng.random() < .5:
        W.chans = channels(rng, W.f.size)
        aa.select_chans(W.chans)
    fa, lst = W.fa(), W.lst()
    m = int(rng.integers(1, 5))
    v = sky(rng, m, lst, W.lat, True)
    aa.sim_cache(v.copy(), np.ones((m, fa.size)))
    H, dec = lst - np.arctan2(v[1], v[0]), np.arctan2(v[2], np.hypot(v[0], v[1]))
    top = axes(0., W.lat) @ np.array([np.cos(dec) * np.cos(H), -np.cos(dec) * np.sin(H), np.sin(dec)])
    ev = lambda c: sum(x * fa**(len(c) - 1 - q) for q, x in enumerate(c))
    for p in [str(x) for x in rng.permutation(POLS + ['I', 'Q', 'U', 'V'])]:
        i, j = int(rng.integers(W.n)), int(rng.integers(W.n))
        aa.set_active_pol(p)
        mon.eq(aa.get_active_pol(), p, 'polarization set and read')
        amp = []
        for k, q in ((i, p[0]), (j, p[-1])):
            bx, by = [W.bm[k].amp(beam_axes(*W.point[k], x) @ top, fa) for x in 'xy']
            amp.append({'x': bx, 'y': by, 'I': np.sqrt((bx**2 + by**2) / 2), 'Q': np.sqrt((bx**2 + by**2) / 2), 'U': np.sqrt(bx * by), 'V': np.sqrt(bx * by)}[q])
        with np.errstate(all='ignore'):
            mon.close(aa.bm_response(i, j), amp[0] * amp[1], 1e-7, 'beam of a baseline', pol=p, ij=[i, j])
        x, y = [{q: ev(W.off[k][q]) for q in 'xy'} for k in (i, j)]
        want = {'I': (y['y'] - x['y']) + (y['x'] - x['x']), 'Q': (y['y'] - x['y']) - (y['x'] - x['x']),
                'U': (y['y'] - x['x']) + (y['x'] - x['y']), 'V': (y['y'] - x['x']) - (y['x'] - x['y'])}
        want = want[p] if p in want else y[p[1]] - x[p[0]]
        mon.close(aa.get_phs_offset(i, j), want, 1e-9 * (1 + max(np.abs(z).max() for d in (x, y) for z in d.values())), 'phase offset of a baseline', pol=p, ij=[i, j])
        mon.ev('stokes' if p in 'IQUV' else 'linear')
    with mon.raises(AssertionError, 'an unknown polarization'):
        aa.set_active_pol(str(rng.choice(['x', 'rr', 'XX', 'i', 'xz'])))
    mon.eq(aa.get_active_pol(), p, 'polarization after a refused one')
    mon.case('stokes', W.pos.tobytes(), v.tobytes())


if __name__ == '__main__':
    P.main()
