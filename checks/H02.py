"""H02: spherical-harmonic coefficients: indexing, synthesis, analysis and the beam built from them, against direct sums."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import hpx
from scipy.special import sph_harm_y
aipy = load()

P = Prop('H02', rule='an execution fills coefficients by (l,m), checks their order, synthesises a map compared with a direct sum of spherical '
         'harmonics, analyses a band-limited map back, or evaluates a beam of frequency polynomials of such maps; distinct by degree, order, '
         'resolution and coefficients', require=['coefficients', 'pixels', 'smoothed', 'analysed', 'beam_values', 'refused', 'round_trips'])


def lms(lmax, mmax):
    return [(l, m) for m in range(mmax + 1) for l in range(m, lmax + 1)]


def fill(rng, alm, sparse=None):
    ref = {}
    dense = rng.random() < .6 if sparse is None else not sparse
    for l, m in lms(alm.lmax(), alm.mmax()):
        if dense or rng.random() < .15:
            v = complex(rng.normal(), rng.normal() if m else 0)
            alm[l, m] = v
            ref[l, m] = v
    return ref


def synth(ref, z, phi, sigma=0., window=None):
    out = np.zeros(len(z))
    th = np.arccos(z)
    for (l, m), a in ref.items():
        y = sph_harm_y(l, m, th, phi)
        out += (a * y).real * (2 if m else 1) * np.exp(-.5 * l * (l + 1) * sigma**2) * (1 if window is None else window[l] if l < len(window) else 0)
    return out


@P.workload(quick=7200, thorough=30000)
def index(rng, mon):
    lmax = int(rng.integers(0, 20))
    mmax = int(rng.integers(0, lmax + 1))
    dt = [np.complex128, np.complex64][rng.integers(2)]
    a = aipy.healpix.Alm(lmax, mmax, dtype=dt) if rng.random() < .5 else aipy.healpix.Alm(lmax, mmax, dt)
    want = lms(lmax, mmax)
    mon.eq((a.size(), a.lmax(), a.mmax()), (len(want), lmax, mmax), 'size')
    mon.eq(a.get_data(), np.zeros(len(want)), 'new coefficients')
    ind = np.asarray(a.lm_indices())
    mon.eq(sorted(map(tuple, ind.tolist())), sorted(want), 'the coefficients enumerated')
    data = (rng.normal(size=len(want)) + 1j * rng.normal(size=len(want)))
    given = data.copy()
    a.set_data(data)
    for k, (l, m) in enumerate(ind):
        mon.eq(a[int(l), int(m)], dt(data[k]), 'a[l,m] is not the datum lm_indices() says', l=int(l), m=int(m))
    model = {tuple(i): dt(d) for i, d in zip(ind.tolist(), data)}
    for _ in range(8):
        l, m = want[rng.integers(len(want))]
        v = complex(rng.normal(), rng.normal())
        a[l, m] = v
        model[l, m] = dt(v)
    mon.ev('coefficients', len(want))
    mon.eq(a.get_data(), np.array([model[tuple(i)] for i in ind.tolist()]), 'coefficients after assignments')
    mon.eq(a.get_data().dtype, np.dtype(dt), 'dtype')
    mon.eq(data, given, 'set_data changed, or kept, its argument')
    for l, m in ((lmax + 1, 0), (lmax, mmax + 1), (0, 1), (-1, 0), (lmax, -1)):
        mon.ev('refused')
        with mon.raises(Exception, 'coefficient (%d,%d) of (%d,%d) exists' % (l, m, lmax, mmax)):
            a[l, m]
        with mon.raises(Exception, 'coefficient (%d,%d) of (%d,%d) can be set' % (l, m, lmax, mmax)):
            a[l, m] = 1
    with mon.raises(Exception, 'data of the wrong size'):
        a.set_data(np.zeros(len(want) + 1, complex))
    with mon.raises(Exception, 'mmax > lmax'):
        aipy.healpix.Alm(lmax, lmax + 1)
    mon.eq(a.get_data(), np.array([model[tuple(i)] for i in ind.tolist()]), 'coefficients after refused calls')
    a.set_to_zero()
    mon.eq(a.get_data(), np.zeros(len(want)), 'cleared coefficients')
    mon.case('i', lmax, mmax, str(dt), tuple(data[:1]))


@P.workload(quick=5400, thorough=20000)
def synthesis(rng, mon):
    lmax = int(rng.integers(0, 12))
    mmax = int(rng.integers(0, lmax + 1))
    ns = int(rng.choice([1, 2, 4, 8, 16]))
    low = rng.random() < .15
    a = aipy.healpix.Alm(lmax, mmax, dtype=np.complex64 if low else np.complex128)
    ref = fill(rng, a)
    before = a.get_data().copy()
    z, phi = hpx.centers(ns)
    px = rng.integers(0, 12 * ns**2, size=60)
    mode, kw, sig = rng.integers(4), {}, 0.
    if mode == 0:
        sig = float(rng.uniform(.01, .6))
        kw = dict(sigma=sig)
    elif mode == 1:
        f = float(rng.uniform(.01, 1.))
        sig, kw = f / np.sqrt(8 * np.log(2)), dict(fwhm=f)
    win = None
    if mode < 3 and ns > 1 and rng.random() < .3:
        import healpy
        win, kw = healpy.pixwin(ns), dict(kw, pixwin=True)
    mon.ev('smoothed', int(mode < 2))
    if mode == 3:
        h = aipy.healpix.HealpixMap(nside=ns, scheme=str(rng.choice(['RING', 'NEST'])))
        h.from_alm(a)
        mon.eq((h.nside(), h.scheme()), (ns, 'RING'), 'geometry of a synthesised map')
        got = h.get_map()
    else:
        got = a.to_map(ns, **kw)
    scale = sum(abs(v) for v in ref.values()) * (lmax + 1) + 1
    mon.eq(np.shape(got), (12 * ns**2,), 'size of a synthesised map')
    mon.close(np.asarray(got)[px], synth(ref, z[px], phi[px], sig, win), (1e-5 if low else 1e-9) * scale, 'synthesised map', lmax=lmax, mmax=mmax, nside=ns, how=kw)
    mon.eq(a.get_data(), before, 'synthesis changed the coefficients')
    mon.ev('pixels', len(px))
    mon.case('s', lmax, mmax, ns, tuple(before[:1]))


@P.workload(quick=3600, thorough=10000)
def analysis(rng, mon):
    ns = int(rng.choice([4, 8, 16]))
    lmax = int(rng.integers(0, ns + 1))
    mmax = int(rng.integers(0, lmax + 1))
    a = aipy.healpix.Alm(lmax, mmax)
    ref = fill(rng, a)
    z, phi = hpx.centers(ns)
    data = synth(ref, z, phi)
    scale = sum(abs(v) for v in ref.values()) + 1e-9
    if rng.random() < .5:
        b = aipy.healpix.Alm(lmax, mmax)
        b.from_map(data.copy(), iter=int(rng.choice([3, 5])))
    else:
        h = aipy.healpix.HealpixMap(nside=ns)
        h.set_map(data.copy())
        b = h.to_alm(lmax, mmax, iter=int(rng.choice([3, 5])))
        mon.eq(h.get_map(), data, 'analysis changed the map')
        mon.eq((b.lmax(), b.mmax()), (lmax, mmax), 'order of the coefficients')
        h.set_nside_scheme(None, 'NEST')
        with mon.raises(Exception, 'a NEST map was analysed as if it were RING'):
            h.to_alm(lmax, mmax)
        mon.ev('refused')
    for l, m in lms(lmax, mmax):
        mon.close(b[l, m], ref.get((l, m), 0), 1e-3 * scale, 'analysed coefficient', l=l, m=m, nside=ns)
    mon.ev('analysed', b.size())
    mon.close(b.to_map(ns), data, 5e-3 * scale, 'synthesis of the analysis')
    mon.ev('round_trips')
    mon.case('a', lmax, mmax, ns, tuple(a.get_data()[:1]))


@P.workload(quick=3600, thorough=10000)
def beam(rng, mon):
    """A beam response is, in each direction, a polynomial in frequency of the interpolated maps."""
    lmax = int(rng.integers(0, 7))
    mmax = int(rng.integers(0, lmax + 1))
    deg, ns = int(rng.integers(0, 4)), int(rng.choice([2, 4, 8]))
    f = np.sort(rng.uniform(.1, .2, size=int(rng.choice([1, 3, 6]))))
    co, refs = {}, {}
    for c in range(deg + 1):
        if rng.random() < .8:
            a = aipy.healpix.Alm(lmax, mmax)
            refs[c] = fill(rng, a)
            co[c] = a.get_data().copy()
    extra = dict(co)
    if rng.random() < .2:
        extra[deg + 1] = np.zeros(a.size() if co else 1, complex)     # beyond the polynomial: ignored
    mod = aipy.amp if rng.random() < .5 else aipy.fit
    b = mod.BeamAlm(f, lmax=lmax, mmax=mmax, deg=deg, nside=ns, coeffs=extra)
    if rng.random() < .4:
        ch = np.sort(rng.choice(len(f), size=int(rng.integers(1, len(f) + 1)), replace=False))
        b.select_chans(ch)
        fa = f[ch]
    else:
        fa = f
    n = int(rng.choice([1, 2, 9]))
    v = rng.normal(size=(3, n))
    v[2] = np.abs(v[2])
    v /= np.sqrt((v**2).sum(axis=0))
    z, phi = hpx.centers(ns)
    maps = {c: synth(r, z, phi) for c, r in refs.items()}
    got = b.response(tuple(v) if rng.random() < .5 else v)
    want = np.zeros((len(fa), n))
    for k in range(n):
        w = hpx.interp(ns, np.arctan2(np.hypot(v[0, k], v[1, k]), v[2, k]), np.arctan2(v[1, k], v[0, k]))
        for c, mp in maps.items():
            want[:, k] += sum(mp[i] * x for i, x in w.items()) * fa**c
    scale = sum(abs(x) for r in refs.values() for x in r.values()) * (lmax + 1) + 1
    mon.close(got, want, 1e-7 * scale, 'beam response', deg=deg, nside=ns, lmax=lmax, terms=sorted(co))
    mon.ev('beam_values', want.size)
    mon.case('b', lmax, mmax, deg, ns, tuple(f[:1]))


if __name__ == '__main__':
    P.main()
