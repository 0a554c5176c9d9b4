"""P01: array geometry: time, sidereal rotation, baselines and uvw are those of a rigid array on a rotating Earth."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from arr import *
aipy = load()

P = Prop('P01', rule='an execution builds an array at a generated place and takes it through a generated history of times, channel selections, moved '
         'antennas and changed latitude and longitude, checking baselines, uvw, source positions and baseline lists against geometry computed directly',
         assumptions=['PyEphem gives positions of celestial bodies (compared to 4e-4 rad: aberration and nutation are not modelled here)'],
         require=['time', 'baseline', 'uvw', 'source', 'below_horizon', 'vectors', 'bl_indices', 'channels', 'moved', 'body', 'catalogs', 'replaced'])


def module(rng):
    return [aipy.phs, aipy.amp, aipy.fit][rng.integers(3)]


def build(rng, mod, n=None):
    n = n or int(rng.integers(1, 7))
    f = freqs(rng)
    beams = [mod.Beam(f)]
    if rng.random() < .3:
        beams = [mod.Beam(f) for _ in range(n)]
    pos = positions(rng, n)
    ants = [mod.Antenna(*pos[k], beam=beams[k % len(beams)]) for k in range(n)]
    loc, lat, lon = location(rng)
    return mod.AntennaArray(loc, ants), f, pos, lat, lon


@P.workload(quick=1200, thorough=12000)
def history(rng, mon):
    """One array through a history of changes; after each, everything agrees with the state it should be in."""
    import ephem
    mod = module(rng)
    aa, f, pos, lat, lon = build(rng, mod)
    n = len(pos)
    chans = np.arange(f.size)
    jd = jultime(rng)
    aa.set_jultime(jd)
    ops = []
    for step in range(int(rng.integers(1, 8))):
        op = ['time', 'chans', 'move', 'lat', 'long', 'etime', 'none'][rng.integers(7)]
        ops.append(op)
        if op == 'time':
            jd = jultime(rng)
            aa.set_jultime(jd)
        elif op == 'etime':
            jd = jultime(rng)
            d = ephem.Date(jd - 2415020.)
            aa.set_ephemtime(d if rng.random() < .5 else float(d))
        elif op == 'chans':
            if rng.random() < .3:
                chans = np.arange(f.size)
                aa.select_chans()
            else:
                chans = channels(rng, f.size, chans)
                aa.select_chans(chans if rng.random() < .5 else list(int(c) for c in chans))
        elif op == 'move':
            k = int(rng.integers(n))
            pos[k] = rng.normal(size=3) * 100
            if mod is aipy.fit:
                aa.set_params({str(k): {'x': pos[k][0], 'y': pos[k][1], 'z': pos[k][2]}})
            else:
                aa[k].pos = pos[k].copy()
            mon.ev('moved')
        elif op == 'lat':
            lat = float(rng.uniform(-1.5, 1.5))
            aa.lat = lat
            aa.update()
        elif op == 'long':      # effective when the time is set, be it the same
            lon = float(rng.uniform(-np.pi, np.pi))
            aa.long = lon
            aa.set_jultime(jd)
        verify(rng, mon, aa, f, chans, pos, lat, lon, jd, ops)
    mon.case('history', lat, lon, jd, tuple(ops), pos.tobytes())


def verify(rng, mon, aa, f, chans, pos, lat, lon, jd, ops):
    n = len(pos)
    mon.close(aa.get_jultime(), jd, 1e-9, 'Julian date set and read', ops=ops)
    lst = float(aa.sidereal_time())
    mon.close(angle(lst - gmst(jd, lon)), 0., 2e-4, 'sidereal time', jd=jd, long=lon)
    mon.close(aa.get_afreqs(), f[chans], 0, 'active frequencies', ops=ops)
    mon.close(aa.get_freqs(), f, 0, 'all frequencies')
    mon.ev('time')
    if len(chans) < f.size:
        mon.ev('channels')
    i, j = [int(k) for k in rng.integers(n, size=2)]
    b = pos[j] - pos[i]
    size = np.abs(b).sum() + np.abs(pos).max()
    tol = 1e-12 * size
    mon.close(aa.get_baseline(i, j, 'r'), b, tol, 'baseline is the difference of positions', ops=ops)
    mon.close(aa[j] - aa[i], b, tol, 'difference of antennas')
    mon.close(-aa[i], -pos[i], 0, 'negated antenna')
    mon.close(aa[i] + aa[j], pos[i] + pos[j], tol, 'sum of antennas')
    # current equatorial: rotated by the sidereal time... the direction of a source at transit keeps its w
    c, s = np.cos(lst), np.sin(lst)
    e = aa.get_baseline(i, j, 'e')
    zen = axes(0., lat)
    z = aa.get_baseline(i, j, 'z')
    z2 = aa.get_baseline(i, j)
    mon.close(z, z2, tol, 'the default projection is to the zenith')
    mon.close(z, zen @ b, tol, 'baseline towards the zenith', ops=ops, lat=lat)
    # rotation about the pole by -lst: from local to ra=0 frame
    mon.close(e, np.array([c * b[0] + s * b[1], -s * b[0] + c * b[1], b[2]]), tol, 'baseline in current equatorial coordinates', ops=ops)
    mon.close(aa.get_baseline(j, i, 'z'), -z, tol, 'a reversed baseline is negated')
    k = int(rng.integers(n))
    mon.close(aa.get_baseline(i, k, 'z') + aa.get_baseline(k, j, 'z'), z, 4e-12 * size, 'baselines close')
    mon.ev('baseline', 6)
    w3 = aa.gen_uvw(i, j, 'z')
    mon.close(w3, np.multiply.outer(z, f[chans])[:, None, :], tol * 2, 'uvw towards the zenith in wavelengths')
    mon.close(aa.gen_uvw(i, j, 'z', w_only=True), w3[2], tol, 'w alone')
    # sources given as vectors
    m = int(rng.integers(1, 5))
    v = sky(rng, m, lst, lat)
    single = m == 1 and rng.random() < .5
    src = v[:, 0] if single else v
    vb = v.tobytes()
    H = lst - np.arctan2(v[1], v[0])
    dec = np.arctan2(v[2], np.hypot(v[0], v[1]))
    A = axes(H, dec)                              # (3, 3, m)
    want = np.einsum('kcm,c->km', A, b)
    got = aa.get_baseline(i, j, src)
    mon.close(got, want[:, 0] if single else want, 4 * tol, 'baseline towards directions', ops=ops, src=v)
    uvw = aa.gen_uvw(i, j, src)
    full = np.multiply.outer(want, f[chans])
    mon.close(uvw, full[:, :1] if single else full, 8 * tol, 'uvw towards directions', src=v)
    mon.close(aa.gen_uvw(i, j, src, w_only=True), uvw[2], 8 * tol, 'w alone towards directions')
    mon.close(np.sqrt((got**2).sum(axis=0)), np.full(got.shape[1:], np.linalg.norm(b)), 4 * tol, 'projection keeps the length')
    mon.eq(v.tobytes(), vb, 'directions given changed')
    mon.ev('uvw', 2)
    mon.ev('vectors', m)
    if n > 0:
        lists(mon, aa, n)


def lists(mon, aa, n):
    want = lambda auto, cross: [(i, j) for i in range(n) for j in range(i, n) if (auto and i == j) or (cross and i != j)]
    for auto in (True, False):
        for cross in (True, False):
            bls = aa.bl_indices(auto=auto, cross=cross)
            mon.eq([aa.bl2ij(b) for b in bls], want(auto, cross), 'baselines listed', auto=auto, cross=cross)
            mon.eq([aa.ij2bl(*aa.bl2ij(b)) for b in bls], list(bls), 'baseline numbers and back')
    mon.eq(len(aa), n, 'number of antennas')
    mon.eq(len([a for a in aa]), n, 'iteration over antennas')
    mon.ev('bl_indices')


BODIES = ['Sun', 'Moon', 'Mars', 'Jupiter', 'Saturn', 'Venus']


def precess(T):
    k = np.pi / 180 / 3600
    z0 = k * (2306.2181 * T + .30188 * T**2 + .017998 * T**3)
    z = k * (2306.2181 * T + 1.09468 * T**2 + .018203 * T**3)
    th = k * (2004.3109 * T - .42665 * T**2 - .041833 * T**3)
    Rz = lambda a: np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
    Ry = lambda a: np.array([[np.cos(a), 0, -np.sin(a)], [0, 1, 0], [np.sin(a), 0, np.cos(a)]])
    return Rz(-z) @ Ry(th) @ Rz(-z0)


@P.workload(quick=600, thorough=15000)
def source(rng, mon):
    """A catalogue source is followed across the sky; its coordinates, horizon and projection agree with one another and with the time."""
    import ephem
    mod = module(rng)
    aa, f, pos, lat, lon = build(rng, mod)
    moving = rng.random() < .3
    if moving:
        src = mod.RadioSpecial(str(rng.choice(BODIES)))
    else:
        ra, dec = float(rng.uniform(0, TAU)), float(np.arcsin(rng.uniform(-1, 1)))
        src = mod.RadioFixedBody(ra if rng.random() < .5 else ephem.hours(ra), dec, name='s')
    for _ in range(int(rng.integers(1, 4))):
        jd = jultime(rng)
        aa.set_jultime(jd)
        src.compute(aa)
        lst = float(aa.sidereal_time())
        a, d = src.get_crds('eq', ncrd=2)
        x = src.get_crds('eq', ncrd=3)
        mon.close(x, eq(a, d), 1e-14, 'equatorial vector of a source')
        if not moving:
            want = precess((jd - 2451545.) / 36525) @ eq(ra, dec)
            mon.close(x, want, 4e-4, 'position of date of a fixed source', jd=jd, ra=ra, dec=dec)
        az, alt = src.get_crds('top', ncrd=2)
        t = src.get_crds('top', ncrd=3)
        mon.close(t, np.array([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)]), 1e-14, 'topocentric vector of a source')
        mon.close(t, axes(0., lat) @ eq(a - lst, d), 2e-5, 'azimuth and altitude of a source', jd=jd, lat=lat)
        i, j = [int(k) for k in rng.integers(len(pos), size=2)]
        b = pos[j] - pos[i]
        tol = 1e-11 * (np.abs(b).sum() + np.abs(pos).max())
        if alt < 0:
            with mon.raises(aipy.phs.PointingError, 'projection towards a source below the horizon'):
                aa.get_baseline(i, j, src)
            with mon.raises(aipy.phs.PointingError, 'uvw towards a source below the horizon'):
                aa.gen_uvw(i, j, src)
            mon.ev('below_horizon')
        else:
            want = axes(lst - a, d) @ b
            mon.close(aa.get_baseline(i, j, src), want, tol, 'baseline towards a source')
            mon.close(aa.gen_uvw(i, j, src), np.multiply.outer(want, f)[:, None, :], tol, 'uvw towards a source')
            mon.close(aa.get_baseline(i, j, x), want, tol, 'baseline towards the position of a source')
        if moving:
            o = ephem.Observer()
            o.lat, o.long, o.date, o.epoch, o.pressure, o.elev = aa.lat, aa.long, aa.date, aa.date, 0, aa.elev
            bd = getattr(ephem, src.src_name)()
            bd.compute(o)
            mon.close([src.ra, src.dec, src.az, src.alt], [bd.ra, bd.dec, bd.az, bd.alt], 1e-12, 'position of ' + src.src_name)
            mon.ev('body')
        mon.ev('source')
        mon.case('source', jd, lat, float(a), float(d))
    cat = mod.SrcCatalog([src])
    mon.eq(cat.get_crds('eq').shape, (3, 1), 'coordinates of a catalogue')
    mon.close(cat.get_crds('eq')[:, 0], x, 1e-14, 'coordinates of a catalogue')
    mon.close(cat.get_crds('top', ncrd=2)[:, 0], np.array([az, alt]), 1e-14, 'coordinates of a catalogue')


@P.workload(quick=600, thorough=5000)
def dates(rng, mon):
    """Julian dates and PyEphem dates convert exactly both ways."""
    import ephem
    jd = jultime(rng)
    d = aipy.phs.juldate2ephem(jd)
    mon.close(float(d), jd - 2415020., 1e-9, 'Julian date to ephem date')
    mon.close(aipy.phs.ephem2juldate(d), jd, 1e-9, 'ephem date to Julian date')
    mon.close(ephem.julian_date(d), jd, 1e-9, 'agreement with PyEphem')
    mon.ev('time')
    mon.case('dates', jd)


@P.workload(quick=1200, thorough=8000)
def catalogs(rng, mon):
    """A catalogue of fixed and moving bodies gives each one's values, in the order asked for, and follows the time; copies stand alone."""
    import copy
    mod = module(rng)
    aa, f, pos, lat, lon = build(rng, mod)
    srcs = []
    for k in range(int(rng.integers(1, 7))):
        kw = dict(mfreq=float(rng.uniform(.05, .3)), ionref=tuple(rng.normal(size=2)), srcshape=tuple(rng.random(3)))
        if mod is not aipy.phs:
            kw.update(jys=float(rng.uniform(1, 9)), index=float(rng.normal()))
        free = [b for b in BODIES if b not in [s.src_name for s in srcs]]
        srcs.append(mod.RadioSpecial(str(rng.choice(free)), **kw) if rng.random() < .4 and free else
                    mod.RadioFixedBody(float(rng.uniform(0, TAU)), float(np.arcsin(rng.uniform(-1, 1))), name='s%d' % k, **kw))
    how = rng.integers(3)
    cat = mod.SrcCatalog(srcs) if how == 0 else mod.SrcCatalog(*srcs) if how == 1 else mod.SrcCatalog()
    if how == 2:
        cat.add_srcs(srcs[:1])
        cat.add_srcs(*srcs[1:])
    names = [s.src_name for s in srcs]
    mon.eq(list(cat.keys()), names, 'names of a catalogue')
    held, copies = None, []
    for _ in range(int(rng.integers(1, 4))):
        aa.set_jultime(jultime(rng))
        cat.compute(aa)
        for t, was in copies:
            mon.eq([t.ra, t.dec, t.az, t.alt], was, 'a copy of a source moved with its original', name=t.src_name)
        copies = []
        for s in srcs:
            t = copy.deepcopy(s)
            t.compute(aa)
            mon.close([t.ra, t.dec, t.az, t.alt], [s.ra, s.dec, s.az, s.alt], 1e-12, 'a copy of a source, computed', name=s.src_name)
            mon.eq((t.src_name, t.mfreq, t.ionref, t.srcshape), (s.src_name, s.mfreq, s.ionref, s.srcshape), 'a copy of a source')
            copies.append((t, [float(x) for x in (t.ra, t.dec, t.az, t.alt)]))
            t.srcshape[0] += 1
            t.ionref[1] += 1
            mon.check(t.srcshape != s.srcshape and t.ionref != s.ionref, 'a copy of a source shares its parameters')
        sub = [str(x) for x in rng.permutation(names)[:rng.integers(1, len(names) + 1)]]
        for ask in (None, sub):
            l = [srcs[names.index(x)] for x in ask or names]
            kw = {} if ask is None else dict(srcs=ask)
            mon.close(cat.get_crds('eq', **kw), np.array([eq(s.ra, s.dec) for s in l]).T, 1e-13, 'equatorial vectors of a catalogue')
            mon.close(cat.get_crds('eq', ncrd=2, **kw), np.array([(s.ra, s.dec) for s in l], float).T, 1e-13, 'equatorial angles of a catalogue')
            mon.close(cat.get_crds('top', ncrd=2, **kw), np.array([(s.az, s.alt) for s in l], float).T, 1e-13, 'horizontal angles of a catalogue')
            mon.close(cat.get_crds('top', **kw), np.array([[np.cos(s.alt) * np.sin(s.az), np.cos(s.alt) * np.cos(s.az), np.sin(s.alt)] for s in l]).T, 1e-13, 'topocentric vectors of a catalogue')
            for a in ('mfreq', 'ionref', 'srcshape'):
                mon.eq(cat.get(a, **kw), np.array([getattr(s, a) for s in l]).T, a + ' of a catalogue')
        if held is not None:
            mon.check(all(np.array_equal(a, b) for a, b in zip(*held)), 'coordinates that were handed out changed with the time')
        x = [cat.get_crds('eq'), cat.get_crds('top'), srcs[0].map if hasattr(srcs[0], 'map') else 0]
        held = x, copy.deepcopy(x)
        mon.ev('catalogs')
    mon.case('catalogs', tuple(names), lat, x[0].tobytes())


@P.workload(quick=600, thorough=5000)
def antennas(rng, mon):
    """Antennas add and subtract by position; arrays are sequences of antennas, and follow replacements."""
    mod = module(rng)
    aa, f, pos, lat, lon = build(rng, mod)
    n = len(pos)
    aa.set_jultime(jultime(rng))
    beam = aa[0].beam
    for _ in range(4):
        i, j = [int(k) for k in rng.integers(n, size=2)]
        mon.close(np.array(aa[i] + aa[j]), pos[i] + pos[j], 1e-12 * np.abs(pos).max(), 'sum of antennas')
        mon.close(np.array(aa[i] - aa[j]), pos[i] - pos[j], 1e-12 * np.abs(pos).max(), 'difference of antennas')
        mon.eq(np.array(-aa[i]), -pos[i], 'negative of an antenna')
        mon.eq(list(aa[i]), list(pos[i]), 'coordinates of an antenna')
        mon.eq(len(aa), n, 'number of antennas')
        mon.eq([list(a) for a in aa], [list(p) for p in pos], 'antennas of an array')
        mon.close(aa.get_baseline(i, j, 'r'), pos[j] - pos[i], 1e-12 * np.abs(pos).max(), 'baseline')
        mon.close(aa.get_baseline(i, j), axes(0., lat) @ (pos[j] - pos[i]), 1e-11 * (1 + np.abs(pos).max()), 'baseline to the zenith')
        with mon.raises(ValueError, 'a baseline towards nothing known'):
            aa.get_baseline(i, j, str(rng.choice(['x', 'zenith', '', 'E'])))
        k = int(rng.integers(n))
        pos[k] = rng.normal(size=3) * 50
        if rng.random() < .5:
            aa[k] = mod.Antenna(*pos[k], beam=beam)
        else:
            aa[k].pos = pos[k].copy()
        mon.ev('replaced')
    import time
    aa.set_jultime()
    mon.close(aa.get_jultime(), time.time() / 86400 + 2440587.5, 60 / 86400., 'the present time')
    mon.case('antennas', pos.tobytes())


if __name__ == '__main__':
    P.main()
