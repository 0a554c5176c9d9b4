"""P02: phasing multiplies data by the fringe of a direction: unit modulus, invertible, antisymmetric, closing, with documented refraction and resolution."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from arr import *
aipy = load()

P = Prop('P02', rule='an execution phases generated data of an array (antenna delays and offsets, channel subsets) to the zenith, sources or arrays of '
         'directions, with refraction and resolution, and compares with the fringe computed directly; distinct by array, time, target and data',
         assumptions=['small-angle refraction, uniform elliptical discs'],
         require=['phased', 'undone', 'closure', 'refracted', 'resolved', 'many_sources', 'one_channel', 'masked'])


def bessel_disc(x):
    """Visibility of a uniform disc: mean of exp(i x t) over a unit disc, by quadrature."""
    th = (np.arange(400) + .5) * np.pi / 400              # t = cos(th): weight 2/pi sin(th)^2 dth
    return (np.cos(np.multiply.outer(x, np.cos(th))) * np.sin(th)**2).mean(axis=-1) * 2


def build(rng):
    mod = [aipy.phs, aipy.amp, aipy.fit][rng.integers(3)]
    n = int(rng.integers(2, 6))
    f = freqs(rng)
    pos = positions(rng, n)
    off = [None if rng.random() < .3 else list(rng.normal(size=rng.integers(2, 5)) * 10.**rng.uniform(-2, 2)) for _ in range(n)]
    bm = mod.Beam(f)
    ants = [mod.Antenna(*pos[k], beam=bm, **({} if off[k] is None else dict(phsoff=off[k]))) for k in range(n)]
    loc, lat, lon = location(rng)
    aa = mod.AntennaArray(loc, ants)
    jd = jultime(rng)
    aa.set_jultime(jd)
    chans = np.arange(f.size)
    if rng.random() < .4:
        chans = rng.permutation(f.size)[:rng.integers(1, f.size + 1)]
        aa.select_chans(chans)
    fa = f[chans]
    o = np.array([sum(c * fa**(len(p) - 1 - k) for k, c in enumerate(p)) if p is not None else 0 * fa for p in off])
    return mod, aa, fa, pos, o, lat, float(aa.sidereal_time())


def target(rng, mod, aa, lat, lst):
    """What to phase to, its unit vectors (u, v, w axes of each), and its number of directions (None: one, no source axis)."""
    k = rng.integers(4)
    if k == 0:
        return 'z', axes(0., lat)[..., None], None, {}
    if k == 1:
        for _ in range(60):
            kw = {}
            if rng.random() < .5:
                kw['ionref'] = [float(x) for x in rng.normal(size=2) * .01]
            if rng.random() < .5:
                kw['srcshape'] = [float(rng.uniform(0, .01)), float(rng.uniform(0, .01)), float(rng.uniform(0, 3))]
            s = mod.RadioFixedBody(float(rng.uniform(0, TAU)), float(np.arcsin(rng.uniform(-1, 1))), name='s', **kw)
            s.compute(aa)
            if s.alt > .01:
                return s, axes(lst - float(s.ra), float(s.dec))[..., None], None, kw
        raise Skip()
    m = 1 if k == 2 else int(rng.integers(1, 6))
    v = sky(rng, m, lst, lat)
    A = axes(lst - np.arctan2(v[1], v[0]), np.arctan2(v[2], np.hypot(v[0], v[1])))
    if k == 2:
        return v[:, 0], A, None, {}
    return v, A, m, {}


@P.workload(quick=4000, thorough=60000)
def phasing(rng, mon):
    mod, aa, fa, pos, o, lat, lst = build(rng)
    n = len(pos)
    i, j = [int(k) for k in rng.permutation(n)[:2]]
    src, A, m, own = target(rng, mod, aa, lat, lst)
    b = pos[j] - pos[i]
    uvw = np.einsum('kcm,c->km', A, b)[:, :, None] * fa          # (3, m, f)
    u, v, w = uvw
    kw, keep = {}, []
    mf, ion, shape = .150, own.get('ionref', (0., 0.)), own.get('srcshape', (0., 0., 0.))
    resolve = rng.random() < .5
    arrays = m is not None and rng.random() < .6

    def par(scale, positive=False):
        if arrays:
            a = rng.normal(size=m) * scale
            a = np.abs(a) if positive else a
            keep.append((a, a.tobytes(), a.shape))
            return a
        return float(abs(rng.normal()) * scale) if positive else float(rng.normal() * scale)
    umax = max(1, np.abs(uvw[:2]).max())
    if rng.random() < .5:
        ion = (par(.5 / umax), par(.5 / umax))
        kw['ionref'] = ion if rng.random() < .7 else (np.array(ion) if arrays else list(ion))
        if rng.random() < .6:
            mf = abs(par(.1)) + .05
            kw['mfreq'] = mf
            if arrays:
                keep.append((mf, mf.tobytes(), mf.shape))
    if resolve and rng.random() < .6:
        shape = (par(.5 / umax, True), par(.5 / umax, True), par(1.))
        kw['srcshape'] = shape
    if resolve and np.max(shape[:2]) * umax > 20:
        resolve = False
    col = lambda x: np.reshape(x, (-1, 1))
    dw = (col(ion[0]) * u + col(ion[1]) * v) * col(mf)**2 / fa**2
    if np.abs(w).max() + np.abs(dw).max() > 1e7:
        raise Skip()
    phase = w + dw + (o[j] - o[i])
    want = np.exp(-2j * np.pi * phase)
    tol = 1e-10 + 1e-13 * np.abs(phase).max() + 1e-13 * (np.abs(pos).max() * fa.max() + np.abs(o).max()) * 10
    if resolve:
        a1, a2, th = [col(x) for x in shape]
        x = TAU * np.sqrt((a1 * (u * np.cos(th) - v * np.sin(th)))**2 + (a2 * (u * np.sin(th) + v * np.cos(th)))**2)
        want = want * bessel_disc(x)
        kw['resolve_src'] = True
        tol += 1e-9
        mon.ev('resolved')
    if np.any(dw != 0):
        mon.ev('refracted')
    with np.errstate(all='ignore'):
        got = aa.gen_phs(src, i, j, **kw)
    mon.close(got, want.squeeze(), tol, 'phase towards the target', ij=[i, j], target=str(src), kw={k: str(x) for k, x in kw.items()})
    for a, by, sh in keep:
        mon.check(a.tobytes() == by and a.shape == sh, 'phasing changed its arguments', was=sh, now=a.shape)
    if not resolve:
        mon.close(np.abs(got), np.ones(got.shape), 1e-12, 'modulus of a phase')
    with np.errstate(all='ignore'):
        back = aa.gen_phs(src, j, i, **kw)
    mon.close(back, np.conj(got), tol * 2, 'the reversed baseline has the conjugate phase')
    mon.close(aa.get_phs_offset(i, j), o[j] - o[i], 1e-11 * (1 + np.abs(o).max()), 'phase offset of a baseline')
    # data phased to the target and back
    d = rng.normal(size=got.shape) + 1j * rng.normal(size=got.shape)
    if rng.random() < .4:
        d = np.ma.array(d, mask=rng.random(d.shape) < .3)
        mon.ev('masked')
    db = np.ma.getdata(d).tobytes()
    k2 = {k: x for k, x in kw.items() if k != 'resolve_src'}
    p = aa.phs2src(d, src, i, j, **k2)
    q = aa.unphs2src(p, src, i, j, **k2)
    one = np.exp(-2j * np.pi * phase).squeeze()
    mon.close(np.ma.getdata(p)[~np.ma.getmaskarray(p)], (np.ma.getdata(d) * one)[~np.ma.getmaskarray(d)], tol * 6, 'data phased to the target')
    mon.eq(np.ma.getmaskarray(p), np.ma.getmaskarray(d), 'mask of phased data')
    mon.close(np.ma.getdata(q)[~np.ma.getmaskarray(d)], np.ma.getdata(d)[~np.ma.getmaskarray(d)], 1e-13, 'phased and unphased data')
    mon.eq(np.ma.getmaskarray(q), np.ma.getmaskarray(d), 'mask of unphased data')
    mon.eq(np.ma.getdata(d).tobytes(), db, 'the data given changed')
    mon.ev('phased')
    mon.ev('undone')
    # closure around a triangle
    if n > 2 and not resolve:
        k = [x for x in range(n) if x not in (i, j)][0]
        c = aa.gen_phs(src, i, k, **kw) * aa.gen_phs(src, k, j, **kw) * np.conj(got)
        mon.close(c, np.ones(c.shape), 10 * tol, 'closure phase of a point source')
        mon.ev('closure')
    # one of many: the same as alone
    if m is not None and m > 1:
        s = int(rng.integers(m))
        ks = {k: (x if k == 'resolve_src' else x[s] if k == 'mfreq' and arrays else tuple(y[s] for y in x) if arrays else x) for k, x in kw.items()}
        with np.errstate(all='ignore'):
            alone = aa.gen_phs(src[:, s], i, j, **ks)
        mon.close(alone.ravel(), np.reshape(got, (m, -1))[s], tol, 'a direction among many is phased as if alone')
        mon.ev('many_sources')
    if fa.size == 1:
        mon.ev('one_channel')
    mon.case('phs', i, j, m, resolve, pos.tobytes(), np.asarray(got).tobytes())


@P.workload(quick=600, thorough=8000)
def small_offset(rng, mon):
    """Refraction by a small offset is the phase of the displaced source."""
    mod, aa, fa, pos, o, lat, lst = build(rng)
    b = pos[1] - pos[0]
    d = sky(rng, 1, lst, lat)[:, 0]
    ra, dec = np.arctan2(d[1], d[0]), np.arcsin(np.clip(d[2], -1, 1))
    L = np.abs(b).max() * fa.max()
    if L == 0 or abs(dec) > 1.4:
        raise Skip()
    e = 1e-3 / max(L, 1)
    ion = rng.normal(size=2) * e
    mf = float(fa[0])
    there = aa.gen_phs(eq(ra + ion[0] / np.cos(dec), dec + ion[1]), 0, 1)
    here = aa.gen_phs(d, 0, 1, ionref=tuple(ion), mfreq=mf)
    t, h = np.ravel(there)[0], np.ravel(here)[0]         # at mfreq the offset is the measured one
    mon.close(h, t, 40 * L * (e * 4)**2 * (1 + np.tan(abs(dec))) + 1e-12 * (L + np.abs(pos).max() * fa.max() + np.abs(o).max()) * 10 + 1e-10, 'phase of a displaced source', dec=dec)
    mon.ev('refracted')
    mon.case('small', ra, dec, ion.tobytes())


if __name__ == '__main__':
    P.main()
