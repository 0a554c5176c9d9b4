"""T04: the imaging, deconvolution, map-making and fitting scripts: images of the data asked for, in the right place, and parameters that come back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import re, signal, socket, subprocess, time
import hpx, mir, scr
aipy = load()
scr.use(aipy)
from scr import *
if WORKER:
    import ephem
    from astropy.io import fits

P = Prop('T04', rule='an execution runs one script (or the chain image, clean, map) on generated observations, images or models, and compares the images, headers, maps and '
         'parameters with what follows from the input; distinct by script, options and observation',
         assumptions=['gridding, phasing and beams are the library\'s (judged by I, P and F checks)', 'data are noiseless where parameters are fitted'],
         require=['script_runs', 'new_interpreters', 'run:mk_img.py', 'run:cl_img.py', 'run:mk_map.py', 'run:fitmdl.py', 'images', 'snapshots', 'facets', 'zenith', 'buffers_flushed',
                  'below_horizon', 'no_data', 'peaks', 'components', 'reweighted', 'skipped_existing', 'map_files', 'map_added', 'fitted', 'least_squares', 'daemons', 'shared'])
D2R = np.pi / 180


def skyof(rng, mon, nant, nchan, size, t0=None, shapes=False, nsrc=None, near=None, **kw):
    """An observation of an array whose calibration module has its own sources near its zenith."""
    cwd = mon.tmp()
    nsrc = nsrc or int(rng.integers(1, 4))
    own = scr.own_sources(rng, nsrc)
    ns = scr.cal(rng, nant, cwd, srcs=own)
    t0 = t0 or scr.jd(rng)
    return cwd, ns, own, t0


def place(rng, ns, own, t0, spread, down=.1):
    """Move sources near the zenith of t0 (rewriting the module is the caller's business)."""
    aa = ns['get_aa'](np.array([.15]))
    aa.set_jultime(t0)
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    for s in own:
        if rng.random() < down:
            continue
        ra, dec = lst + rng.uniform(-1, 1) * spread / np.cos(lat), np.clip(lat + rng.uniform(-1, 1) * spread, -1.5, 1.5)
        q = ephem.Equatorial(ephem.Equatorial(ra % (2 * np.pi), dec, epoch=aa.date), epoch=ephem.J2000)
        s['ra'], s['dec'] = str(q.ra), str(q.dec)


def recal(cwd, ns, own):
    """Rewrite the sources of the calibration module."""
    p = os.path.join(cwd, 'gencal.py')
    txt = open(p).read()
    i = txt.index('\nsrcs_own')
    j = txt.index('\n', i + 1)
    txt = txt[:i] + '\nsrcs_own = %r' % (own,) + txt[j:]
    open(p, 'w').write(txt)
    sys.modules.pop('gencal', None)
    new = {}
    exec(txt, new)
    return new


def group(dss, keep, pol, dec, dphs, snap):
    """Integrations (time, records) that pass the selection, in snapshots."""
    ints = []
    for ds in dss:
        n, last = -1, None
        cur = None
        for r in ds.recs:
            if not keep(*r.ij) or r.vars['pol'] != pol:
                continue
            if r.t != last:
                n, last = n + 1, r.t
                cur = None
            if n % dec != dphs:
                continue
            if cur is None:
                if ints and ints[-1][0] == r.t:
                    cur = ints[-1]
                else:
                    cur = (r.t, [])
                    ints.append(cur)
            cur[1].append(r)
    if snap <= 0:
        return [ints]
    return [ints[k:k + snap] for k in range(0, len(ints), snap)]


def readimg(p):
    d, k = aipy.img.from_fits(p)
    return np.asarray(d, float).squeeze(), k, fits.getheader(p)


def j2000(s, t):
    q = ephem.Equatorial(ephem.Equatorial(s.ra, s.dec, epoch=t - 2415020.), epoch=ephem.J2000)
    return float(q.ra), float(q.dec)


def wrap(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


FACETS = {}


def centers(n):
    """The pointings of a run, in their order: the same in every new interpreter, or --skip could not resume one."""
    if n not in FACETS:
        o = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import aipy; print([list(map(float, x)) for x in zip(*aipy.map.facet_centers(%d, ncrd=2))])' %
                            (os.path.dirname(os.path.dirname(aipy.__file__)), n)], capture_output=True, text=True, check=True).stdout
        FACETS[n] = eval(o)
    return FACETS[n]


@P.workload(quick=130, thorough=3500)
def dirty(rng, mon):
    """mk_img grids exactly the data asked for, weighted and phased as asked, into the image and beam of each pointing and snapshot."""
    n = int(rng.integers(2, 5))
    nchan = int(rng.choice([1, 2, 4, 8]))
    nf = int(rng.choice([1, 1, 2]))
    t0 = scr.jd(rng)
    dt = float(rng.choice([1e-3, .01, .05, .2]))
    dss, t = [], t0
    pols = [int(p) for p in rng.choice(scr.LINEAR, size=int(rng.choice([1, 2])), replace=False)]
    for _ in range(nf):
        dss.append(scr.obs(rng, nant=n, nchan=nchan, t0=t, dt=dt, nt=int(rng.integers(1, 6)), pols=pols))
        t = dss[-1].recs[-1].t + dt
    for d in dss:
        for r in d.recs:
            r.vars.update({k: dss[0].recs[0].vars[k] for k in ('sfreq', 'sdf')})
    cwd, names = files(rng, mon, dss)
    own = scr.own_sources(rng, int(rng.integers(1, 4)))
    ns = scr.cal(rng, n, cwd, srcs=own)
    place(rng, ns, own, t0, .5)
    ns = recal(cwd, ns, own)
    pol = pols[int(rng.integers(len(pols)))]
    args = ['-C', 'gencal', '-p', POL[pol]]
    k = rng.integers(3)
    if k == 0:
        keep = lambda i, j: i != j
    elif k == 1:
        args += ['-a', 'all']
        keep = lambda i, j: True
    else:
        a, b = [int(x) for x in rng.choice(n, size=2, replace=False)]
        args += ['-a', '%d_%d' % (a, b)]
        keep = lambda i, j: {i, j} == {a, b}
    chans = list(range(nchan))
    if rng.random() < .4:
        chans = sorted(int(c) for c in rng.choice(nchan, size=int(rng.integers(1, nchan + 1)), replace=False))
        args += ['-c', ','.join(map(str, chans))]
    size, res = float(rng.choice([12, 16, 20, 25, 30])), float(rng.choice([.5, .5, .7, 1.]))
    dim = int(np.round(size / res))
    args += ['--size', int(size), '--res', res]
    now = rng.random() < .6
    wres = float(rng.choice([.5, .5, 1.5]))
    args += ['--no_w'] if now else ['--wres', wres] if wres != .5 else []
    opt = {x: rng.random() < .25 for x in ('skip_phs', 'zen_phased', 'skip_amp', 'skip_bm')}
    args += ['--' + x for x in opt if opt[x]]
    dec, dphs, snap, skip, cnt = 1, 0, -1, 0, 0
    if rng.random() < .3:
        dec = int(rng.integers(1, 4))
        dphs = int(rng.integers(dec))
        args += ['-x', dec] + (['--dphs', dphs] if dphs else [])
    if rng.random() < .5:
        snap = int(rng.integers(1, 4))
        args += ['--snap', snap]
    altmin, minuv, fmt = 0., 0., 'im%04d'
    if rng.random() < .3:
        altmin = float(rng.integers(5, 80))
        args += ['--altmin', altmin]
    if rng.random() < .3:
        minuv = float(rng.choice([1., 10., 100., 1e5]))
        args += ['--minuv', minuv]
    if rng.random() < .3:
        cnt = int(rng.integers(1, 50))
        args += ['--cnt', cnt]
    if rng.random() < .2:
        fmt = 'x_%d'
        args += ['--fmt', fmt]
    outs = [str(x) for x in rng.choice(['dim', 'dbm', 'uvs', 'bms'], size=int(rng.integers(1, 5)), replace=False)] if rng.random() < .7 else ['dim', 'dbm']
    args += ['-o', ','.join(outs)] if outs != ['dim', 'dbm'] or rng.random() < .3 else []
    flush = now and rng.random() < .3
    if flush:
        args += ['--buf_thresh', int(rng.integers(4 * nchan))]
        mon.ev('buffers_flushed')
    v = dss[0].recs[0].vars
    freqs = np.arange(nchan) * v['sdf'] + v['sfreq']
    aa = ns['get_aa'](freqs)
    aa.select_chans(chans)
    aa.set_active_pol(POL[pol])
    what = rng.choice(['zen', 'names', 'facets'], p=[.25, .55, .2])
    if what == 'zen':
        args += ['-s', 'zen']
        mon.ev('zenith')
        cat = [None]
    elif what == 'names':
        w = [str(x) for x in rng.choice([s['name'] for s in own], size=int(rng.integers(1, len(own) + 1)), replace=False)]
        args += ['-s', ','.join(w)]
        cat = list(ns['get_catalog'](srcs=w).values())
    else:
        nfac = int(rng.integers(2, 6))
        args += ['--facets', nfac]
        mon.ev('facets')
        cat = [aipy.phs.RadioFixedBody(ra, d, name=str(q)) for q, (ra, d) in enumerate(centers(nfac))]
    if rng.random() < .2:
        skip = int(rng.integers(len(cat) + 1))
        args += ['--skip', skip]
    before = [scr.tree(os.path.join(cwd, x)) for x in names]
    scr.run(mon, rng, 'mk_img.py', args + names, cwd, real=1 if what == 'facets' else .1)
    m = 'mk_img.py %s' % ' '.join(map(str, args))
    mon.eq([scr.tree(os.path.join(cwd, x)) for x in names], before, 'inputs changed')
    groups = group(dss, keep, pol, dec, dphs, snap)
    want = []
    close_call = False
    for k, body in enumerate(cat):
        if k < skip:
            continue
        for g, ints in enumerate(groups):
            s = body
            if s is None:
                aa.set_jultime(ints[0][0] if snap > 0 and ints else dss[0].recs[0].t)
                s = aipy.phs.RadioFixedBody(aa.sidereal_time(), aa.lat, name='zen', epoch=aa.epoch)
            D, U, W = [], [], []
            for t, recs in ints:
                aa.set_jultime(t)
                c = aipy.phs.SrcCatalog([s])
                c.compute(aa)
                close_call |= abs(s.alt - altmin * D2R) < 1e-5
                if s.alt < altmin * D2R:
                    mon.ev('below_horizon')
                    continue
                aa.sim_cache(c.get_crds('eq', ncrd=3))
                for r in recs:
                    i, j = r.ij
                    ok = ~r.mask[chans]
                    d = r.data[chans].astype('D')
                    if not opt['skip_amp']:
                        d = d / aa.passband(i, j)
                    if not opt['skip_phs']:
                        if opt['zen_phased']:
                            d = aa.unphs2src(d, 'z', i, j)
                        d = aa.phs2src(d, s, i, j)
                    uvw = np.asarray(aa.gen_uvw(i, j, src=s)).reshape(3, len(chans))
                    bl = np.hypot(uvw[0], uvw[1])
                    close_call |= bool((np.abs(bl - minuv) < 1e-6 * (1 + minuv)).any()) and minuv > 0
                    ok = ok & (bl >= minuv)
                    b = np.ones(len(chans)) if opt['skip_bm'] else np.asarray(aa.bm_response(i, j)).reshape(len(chans))
                    D.append((np.asarray(d).reshape(len(chans)) * b)[ok])
                    W.append((b * b)[ok])
                    U.append(uvw[:, ok])
            D, W, U = [np.concatenate(x, axis=-1) if x else np.zeros((0,)) for x in (D, W, U)]
            want.append((g, g == len(groups) - 1, s, ints[-1][0] if ints else None, D, W, U))
    if close_call:
        raise Skip
    num = cnt
    expected = []
    for g, last, s, t, D, W, U in want:
        if len(D) == 0:
            mon.ev('no_data')
            if last:
                continue        # no output for the last one: nothing more to number
            ims = {q: np.zeros((dim, dim)) for q in ('dim', 'dbm', 'uvs', 'bms')}
        else:
            im = aipy.img.Img(size, res, mf_order=0) if now else aipy.img.ImgW(size, res, mf_order=0, wres=wres, verbose=False)
            im.put(*im.append_hermitian((U[0], U[1], U[2]), D, W))
            c = (dim - dim // 2, dim - dim // 2)
            ims = dict(dim=im.image(c), dbm=im.bm_image(term=0, center=c), uvs=np.roll(np.abs(im.uv), (-c[0], -c[1]), (0, 1)), bms=np.roll(np.abs(im.bm[0]), (-c[0], -c[1]), (0, 1)))
            if snap > 0:
                mon.ev('snapshots')
        mag = (np.abs(D).sum() * 2 / dim**2, W.sum() * 2 / dim**2) if now and False else None
        for q in outs:
            fn = '%s.%s.fits' % (fmt % num, q)
            expected.append(fn)
            p = os.path.join(cwd, fn)
            mon.check(os.path.exists(p), '%s: no %s' % (m, fn))
            got, kw, hd = readimg(p)
            w = np.asarray(ims[q], float)
            mon.ev('images')
            mon.check(got.shape == (dim, dim), '%s: %s has shape %r' % (m, fn, got.shape))
            scale = max(np.abs(w).max(), 0)
            tot = np.abs(D if q in ('dim', 'uvs') else W).sum() / (dim**2 if q in ('dim', 'dbm') else 1)
            mon.close(got, w, 2e-5 * max(scale, tot) + 1e-30, '%s: %s' % (m, fn))
            s_t = t if t is not None else None
            if t is not None:
                aa.set_jultime(t)
                s.compute(aa)
                ra, dc = j2000(s, t)
                mon.close(wrap(kw['ra'] * D2R - ra) * np.cos(dc), 0, 1e-7, '%s: ra of %s' % (m, fn))
                mon.close(kw['dec'] * D2R, dc, 1e-7, '%s: dec of %s' % (m, fn))
                mon.close(float(ephem.Date(kw['obs_date'])) + 2415020, t, 2e-5, '%s: date of %s' % (m, fn))
                if isinstance(s._ra, float) and what == 'names':        # the position asked for, but for aberration and nutation
                    mon.close(wrap(ra - float(s._ra)) * np.cos(dc), 0, 3e-4, '%s: ra of %s and of the source' % (m, fn))
                    mon.close(dc, float(s._dec), 3e-4, '%s: dec of %s and of the source' % (m, fn))
            mon.eq(kw['object'], s.src_name, m + ': object')
            mon.eq((hd['CRPIX1'], hd['CRPIX2']), (dim // 2 + 1, dim // 2 + 1), m + ': reference pixel')
            mon.close(abs(kw['d_ra']) * D2R, 1 / (dim * res), 1e-6, m + ': d_ra')
            mon.close(kw['d_dec'] * D2R, 1 / (dim * res), 1e-6, m + ': d_dec')
            mon.check(kw['d_ra'] < 0 < kw['d_dec'] and kw['epoch'] == 2000, '%s: pixel steps %r, %r, epoch %r' % (m, kw['d_ra'], kw['d_dec'], kw['epoch']))
            if what == 'zen' and t is not None:
                aa.set_jultime(want[0][3] if snap <= 0 else t)
        num += 1
    mon.eq(sorted(x for x in os.listdir(cwd) if x.endswith('.fits')), sorted(expected), m + ': files')
    mon.case('dirty', tuple(map(str, args)), nf, dss[0].recs[0].t)
    mon.sample(dict(args=[str(a) for a in args], images=len(expected)))


# ---------------------------------------------------------------- sources come out where they are
def simulate(ns, ds, names, pol, autos=False):
    """Replace the data by those of named sources."""
    v = ds.recs[0].vars
    aa = ns['get_aa'](np.arange(v['nchan']) * v['sdf'] + v['sfreq'])
    aa.set_active_pol(POL[pol])
    cat = ns['get_catalog'](srcs=names)
    last = None
    for r in ds.recs:
        if r.t != last:
            last = r.t
            aa.set_jultime(r.t)
            cat.compute(aa)
            aa.sim_cache(cat.get_crds('eq', ncrd=3), cat.get_jys(), mfreqs=cat.get('mfreq'), ionrefs=cat.get('ionref'), srcshapes=cat.get('srcshape'))
        r.data = np.asarray(aa.sim(*r.ij)).reshape(v['nchan']).astype('F') if r.ij[0] != r.ij[1] or autos else np.zeros(v['nchan'], 'F')


CAL = '''import aipy as a
ants = %r
def get_aa(freqs):
    A = [a.pol.Antenna(p[0], p[1], p[2], a.fit.Beam(freqs), phsoff={'x': [p[3], 0.], 'y': [p[3], 0.]}, amp={'x': p[4], 'y': p[4]},
         bp_r={'x': [1.], 'y': [1.]}, bp_i={'x': [0.], 'y': [0.]}, lat=%r) for p in ants]
    return a.pol.AntennaArray((%r, %r), A)
'''


def good_array(rng, cwd, n, extent, own, lat=None):
    """A planar array with short, well-spread baselines; written as gencal."""
    lat = float(np.radians(rng.uniform(-60, 60))) if lat is None else lat
    e, nn = rng.uniform(-.5, .5, size=(2, n)) * extent
    x, y, z = -np.sin(lat) * nn, e, np.cos(lat) * nn
    ants = [[float(a), float(b), float(c), float(rng.normal() * 3), float(rng.uniform(.5, 2))] for a, b, c in zip(x, y, z)]
    txt = CAL % (ants, lat, lat, float(rng.uniform(-3, 3))) + scr.CATALOG % (own,)
    open(os.path.join(cwd, 'gencal.py'), 'w').write(txt)
    ns = {}
    exec(txt, ns)
    return ns


def real_obs(rng, n, t0, nt, dt, pol, nchan=None, sdf=.0005):
    ds = scr.obs(rng, nant=n, nchan=nchan or int(rng.choice([1, 4, 8])), nt=nt, pols=[pol], t0=t0, dt=dt, flag=float(rng.choice([0, 0, .1])), extra=0)
    for r in ds.recs:
        r.vars.update(sfreq=.15, sdf=sdf)
    return ds


@P.workload(quick=40, thorough=1000)
def chain(rng, mon):
    """A source at the phase center gives flux times the dirty beam; one beside it peaks where it is; cleaning and mapping bring it to its place in the sky."""
    cwd = mon.tmp()
    n = int(rng.integers(9, 13))
    now = rng.random() < .5
    tilt = .02 if now else 1.    # without W projection, only a nearly coplanar array images a wide field
    size, res = float(rng.choice([40, 50])), .5
    dim = int(size / res)
    own = scr.own_sources(rng, 2)
    for s in own:
        s['index'], s['jys'] = 0., round(float(10 ** rng.uniform(0, 3)), 2)
    t0 = scr.jd(rng)
    ns = good_array(rng, cwd, n, size * .45 / .15, own)
    aa = ns['get_aa'](np.array([.15]))
    aa.set_jultime(t0)
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    cen = ephem.Equatorial(ephem.Equatorial((lst + rng.uniform(-.2, .2) * tilt) % (2 * np.pi), np.clip(lat + rng.uniform(-.3, .3) * tilt, -1.3, 1.3), epoch=aa.date), epoch=ephem.J2000)
    l, mm = rng.uniform(-.25, .25, size=2)
    own[0]['ra'], own[0]['dec'] = str(cen.ra), str(cen.dec)
    # the second source: l east, m north of the first, in coordinates of date
    q = ephem.Equatorial(ephem.Equatorial(own[0]['ra'], own[0]['dec'], epoch=ephem.J2000), epoch=aa.date)
    a0, d0 = float(q.ra), float(q.dec)
    nn = np.sqrt(1 - l * l - mm * mm)
    d1 = np.arcsin(nn * np.sin(d0) + mm * np.cos(d0))
    a1 = a0 + np.arctan2(l, nn * np.cos(d0) - mm * np.sin(d0))
    q = ephem.Equatorial(ephem.Equatorial(a1 % (2 * np.pi), d1, epoch=aa.date), epoch=ephem.J2000)
    own[1]['ra'], own[1]['dec'] = str(q.ra), str(q.dec)
    ns = recal(cwd, ns, own)
    pol = int(rng.choice([-5, -6]))
    ds = real_obs(rng, n, t0, int(rng.integers(1, 3)), .004, pol)
    off = rng.random() < .6
    simulate(ns, ds, ['s1' if off else 's0'], pol)
    mir.write(aipy, os.path.join(cwd, 'o.uv'), ds)
    scr.run(mon, rng, 'mk_img.py', ['-C', 'gencal', '-p', POL[pol], '-s', 's0', '--size', int(size), '--res', res, '--fmt', 'im%04d'] + ['--no_w'] * now +
            ['--skip_bm'] * int(rng.integers(2)) + ['o.uv'], cwd)
    dimg, kw, _ = readimg(os.path.join(cwd, 'im0000.dim.fits'))
    dbm, _, _ = readimg(os.path.join(cwd, 'im0000.dbm.fits'))
    flux = own[off]['jys']
    c = dim // 2
    y, x = np.indices((dim, dim)) - c
    side = np.abs(dbm[np.hypot(x, y) > 3]).max() / dbm.max()
    mon.eq(np.unravel_index(dbm.argmax(), dbm.shape), (c, c), 'mk_img: peak of the dirty beam')
    if not off:
        mon.close(dimg, flux * dbm, 2e-4 * flux * dbm.max(), 'mk_img: image of a source of %r Jy at the phase center' % flux)
        row, col = c, c
    else:
        row, col = c + mm * dim * res, c - l * dim * res
    pk = np.unravel_index(dimg.argmax(), dimg.shape)
    if off and side > .5:       # a few baselines: sidelobes as good as the source
        raise Skip
    mon.ev('peaks')
    loose = 1.01 if not off else 1.6
    mon.check(abs(pk[0] - row) <= loose and abs(pk[1] - col) <= loose, 'mk_img: the source at (l, m) = (%.4f, %.4f), pixel (%.1f, %.1f), appears at %r' % (l * off, mm * off, row, col, pk))
    scr.run(mon, rng, 'cl_img.py', ['-o', 'bim,cim,rim', '--maxiter', 300, 'im0000.dim.fits'], cwd)
    bim, kw2, _ = readimg(os.path.join(cwd, 'im0000.bim.fits'))
    mon.close([kw2['ra'], kw2['dec'], kw2['d_ra'], kw2['d_dec']], [kw['ra'], kw['dec'], kw['d_ra'], kw['d_dec']], 1e-9, 'cl_img: coordinates')
    mon.eq(kw2['object'], kw['object'], 'cl_img: object')
    mon.eq(kw2['obs_date'], kw['obs_date'], 'cl_img: date')
    pb = np.unravel_index(bim.argmax(), bim.shape)
    mon.check(abs(pb[0] - row) <= loose + 1 and abs(pb[1] - col) <= loose + 1, 'cl_img: the source of pixel (%.1f, %.1f) is cleaned at %r' % (row, col, pb))
    cim, _, _ = readimg(os.path.join(cwd, 'im0000.cim.fits'))
    if not off:
        mon.close(cim.sum(), flux, .1 * flux, 'cl_img: cleaned flux')
    nside = 64
    # the cleaned image (its peak, not a wide beam) goes into a map
    scr.run(mon, rng, 'mk_map.py', ['-m', 'map.fits', '--nside', nside, 'im0000.cim.fits'], cwd)
    h = aipy.map.Map(fromfits=os.path.join(cwd, 'map.fits'))
    val = np.asarray(h.map.map, float) / np.maximum(np.asarray(h.wgt.map, float), 1e-30)
    val[np.asarray(h.wgt.map) < 1e-12] = 0
    px = np.asarray(h.px2crd(np.arange(h.npix()), ncrd=3)).reshape(3, -1)
    d = [float(ephem.degrees(own[off]['dec'])), float(ephem.hours(own[off]['ra']))]
    y = np.array([np.cos(d[0]) * np.cos(d[1]), np.cos(d[0]) * np.sin(d[1]), np.sin(d[0])])
    near = np.arccos(np.clip(y @ px, -1, 1)) < (loose + 1.5) / (dim * res) / .93 + 1.5 / nside
    # components on cell borders are shared between pixels: the source need not be the very highest
    mon.check(val[near].max() > .4 * val.max(), 'mk_map: the source at %s %s has %r in the map, another place %r' % (own[off]['ra'], own[off]['dec'], val[near].max(), val.max()))
    mon.case('chain', off, now, dim, n, t0)


# ---------------------------------------------------------------- cl_img alone
def beam(rng, dim):
    """A dirty beam with its center at [dim//2, dim//2]: the transform of a sampled plane."""
    w = np.zeros((dim, dim))
    k = int(rng.integers(dim, dim * dim // 2))
    i, j = rng.integers(-dim // 2 + 1, (dim + 1) // 2, size=(2, k))
    np.add.at(w, (i % dim, j % dim), rng.uniform(.3, 2, size=k))
    np.add.at(w, (-i % dim, -j % dim), 1.)
    w = w + np.roll(w[::-1, ::-1], (1, 1), (0, 1))
    return w, np.roll(np.fft.ifft2(w).real, (dim // 2, dim // 2), (0, 1))


@P.workload(quick=80, thorough=2500)
def clean(rng, mon):
    cwd = mon.tmp()
    sets = []
    for k in range(int(rng.choice([1, 1, 2]))):
        dim = int(rng.choice([16, 20, 32, 33, 40]))
        res = float(rng.choice([.5, 1.]))
        w, b = beam(rng, dim)
        mdl = np.zeros((dim, dim))
        for _ in range(int(rng.integers(1, 4))):
            mdl[tuple(rng.integers(dim, size=2))] += float(rng.uniform(1, 10)) * (1 if rng.random() < .8 else -1)
        d = np.fft.ifft2(np.fft.fft2(mdl) * w).real
        kw = dict(ra=float(rng.uniform(0, 360)), dec=float(rng.uniform(-80, 80)), d_ra=-np.degrees(1 / (dim * res)), d_dec=np.degrees(1 / (dim * res)), epoch=2000.,
                  object='src%d' % k, obs_date='2009/6/18 12:00:00')
        name = ['a', 'im0001', 'z.z'][k]
        for tag, x in (('dim', d), ('dbm', b)):
            aipy.img.to_fits(os.path.join(cwd, '%s.%s.fits' % (name, tag)), x.astype(np.float32), **kw)
        sets.append((name, dim, res, w, b, mdl, d, kw))
    how = str(rng.choice(['none', 'cln', 'cln', 'cln', 'lsq', 'ann']))
    args = ['-d', how] if how != 'cln' or rng.random() < .3 else []
    outs = [str(x) for x in rng.choice(['bim', 'rim', 'cim', 'cimc'], size=int(rng.integers(1, 5)), replace=False)]
    if how == 'none':
        outs = [x for x in outs if x != 'cimc'] or ['bim']
    if rng.random() < .6:
        outs = sorted(set(outs) | {'cim', 'rim'})
    args += ['-o', ','.join(outs)]
    rw, lev = str(rng.choice(['natural', 'uniform', 'radial', 'midrange'])), 0
    if rw == 'midrange' and any(s[1] % 2 for s in sets):
        rw = 'natural'
    if rw == 'uniform':
        lev = float(rng.choice([.01, .1, .5]))
        args += ['-r', 'uniform(%r)' % lev]
    elif rw == 'radial':
        args += ['-r', 'radial']
    elif rw == 'midrange':
        args += ['-r', 'midrange']
    minuv, maxuv = 0., -1.
    if rng.random() < .25:
        minuv = float(rng.uniform(.5, 4))
        args += ['--minuv', minuv]
    if rng.random() < .25:
        maxuv = float(rng.uniform(4, 30))
        args += ['--maxuv', maxuv]
    posdef = how == 'cln' and rng.random() < .4
    args += ['--pos_def'] * posdef
    maxiter, gain = int(rng.choice([1, 10, 200, 2000])), float(rng.choice([.1, .1, .3]))
    if how in ('lsq', 'ann'):
        maxiter = 20
    args += ['--maxiter', maxiter] + (['-g', gain] if gain != .1 else [])
    div = rng.random() < .2
    args += ['--div'] * div
    done = None
    if len(sets) == 2 and rng.random() < .5:
        done = int(rng.integers(2))
        for q in outs:
            open(os.path.join(cwd, '%s.%s.fits' % (sets[done][0], q)), 'w').write('mine')
    given = [s[0] + '.dim.fits' for s in sets]
    if rng.random() < .5:
        given += [s[0] + '.dbm.fits' for s in sets]
    given = [given[k] for k in rng.permutation(len(given))]
    m = 'cl_img.py %s' % ' '.join(map(str, args))
    if rng.random() < .2:       # an image without data is passed over
        for tag in ('dim', 'dbm'):
            aipy.img.to_fits(os.path.join(cwd, 'b0.%s.fits' % tag), np.zeros((16, 16), np.float32), **sets[0][-1])
        given.insert(int(rng.integers(len(given) + 1)), 'b0.dim.fits')
        mon.ev('empty_images')
    if rng.random() < .15:
        bad = scr.run(mon, rng, 'cl_img.py', args + ['-r', str(rng.choice(['robust', 'briggs', 'xuniform(.1)']))] + given, cwd, ok=False)
        mon.check(bad.rc != 0, m + ': an unknown weighting was accepted')
        mon.ev('refused')
    scr.run(mon, rng, 'cl_img.py', args + given, cwd)
    for tag in ('dim', 'dbm'):
        if os.path.exists(os.path.join(cwd, 'b0.%s.fits' % tag)):
            os.remove(os.path.join(cwd, 'b0.%s.fits' % tag))
    mon.eq(sorted(os.listdir(cwd)), sorted(['%s.%s.fits' % (s[0], q) for s in sets for q in set(outs) | {'dim', 'dbm'}]), m + ': files')
    for k, (name, dim, res, w, b, mdl, d, kw) in enumerate(sets):
        if k == done:
            mon.ev('skipped_existing')
            for q in outs:
                mon.eq(open(os.path.join(cwd, '%s.%s.fits' % (name, q))).read(), 'mine', m + ': an output that existed')
            continue
        got = {}
        for q in outs:
            got[q], kk, _ = readimg(os.path.join(cwd, '%s.%s.fits' % (name, q)))
            for x in ('ra', 'dec', 'd_ra', 'd_dec'):
                mon.close(kk[x], kw[x], 1e-9, '%s: %s of %s' % (m, x, q))
            mon.check(kk['object'] == kw['object'] and kk['obs_date'] == kw['obs_date'], '%s: %r' % (m, kk))
        f = np.arange(dim)
        f = np.where(f < (dim + 1) // 2, f, f - dim) * res
        r = np.hypot(f[:, None], f[None, :])
        g = np.ones((dim, dim))
        bms = np.fft.fft2(b.astype(np.float32).astype(float))
        if rw == 'uniform':
            g = 1 / np.clip(np.abs(bms), np.abs(bms).max() * lev, np.inf)
        elif rw == 'radial':
            g = r
        elif rw == 'midrange':
            g = (r / (dim * res / 2))**2
            g = np.maximum(g * (1 - g), 0)
        if minuv > 0:
            g = g * (1 - np.exp(-r**2 / minuv**2))
        if maxuv > 0:
            g = g * np.exp(-r**2 / maxuv**2)
        if rw != 'natural' or minuv > 0 or maxuv > 0:
            mon.ev('reweighted')
        dw = np.fft.ifft2(np.fft.fft2(d.astype(np.float32).astype(float)) * g).real
        bw = np.roll(np.fft.ifft2(bms * g).real, (-(dim // 2), -(dim // 2)), (0, 1))
        bg = np.abs(bw).max()
        tol = 1e-4 * max(np.abs(dw).max(), 1e-30)
        if how == 'none':
            if 'rim' in got:
                mon.close(got['rim'], dw, tol, m + ': residual without deconvolution')
            if 'bim' in got:
                mon.close(got['bim'], dw / bg, tol / bg, m + ': best image without deconvolution')
            if 'cim' in got:
                mon.eq(np.abs(got['cim']).max(), 0., m + ': components without deconvolution')
        else:
            if 'cim' in got and 'rim' in got:
                conv = np.fft.ifft2(np.fft.fft2(got['cim']) * np.fft.fft2(bw)).real
                mon.close(got['rim'] + conv, dw, 30 * tol + 1e-4 * np.abs(got['cim']).sum() * bg, m + ': components times beam plus residual is not the image')
                mon.ev('components', int((got['cim'] != 0).sum()))
            if how == 'cln' and 'cim' in got:
                if posdef:
                    mon.check(got['cim'].min() >= 0, '%s: a component of %g' % (m, got['cim'].min()))
                if maxiter == 1:
                    mon.check((got['cim'] != 0).sum() <= 1, m + ': more than one component in one iteration')
                top = np.unravel_index(np.abs(dw).argmax() if not posdef else dw.argmax(), dw.shape)
                second = np.sort((np.abs(dw) if not posdef else dw).ravel())[-2]
                if second < .999 * (np.abs(dw) if not posdef else dw).max() and maxiter >= 10:
                    mon.check(got['cim'][top] != 0, '%s: no component at the peak %r of the image' % (m, top))
                if not posdef and rw == 'natural' and maxuv < 0 and minuv == 0 and maxiter >= 10 and (mdl < 0).any() and dw[top] < 0 and second < .999 * np.abs(dw).max():
                    mon.check(got['cim'][top] < 0, '%s: a negative source was not cleaned' % m)
            if 'cimc' in got and 'bim' in got and 'rim' in got:
                mon.close(got['bim'], got['rim'] / bg + got['cimc'], 1e-4 * (np.abs(got['cimc']).max() + np.abs(got['rim']).max() / bg) + 1e-30, m + ': best image')
            if 'cimc' in got and 'cim' in got:
                x = np.fft.fft2(got['cimc']) * np.fft.fft2(got['cim']).conj()
                mon.check(np.abs(x.imag).max() <= .05 * np.abs(x).max() + 1e-30, m + ': restoring displaces the components')
                mon.close(got['cimc'].sum(), got['cim'].sum(), 1e-3 * (np.abs(got['cim']).sum() + 1e-30), m + ': flux after restoring')
    mon.case('clean', tuple(map(str, args)), tuple(s[1] for s in sets), sets[0][-1]['ra'])


# ---------------------------------------------------------------- mk_map alone
def axes_of(ra, dec):
    """East, north and center of a position."""
    return (np.array([-np.sin(ra), np.cos(ra), 0]), np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)]),
            np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]))


@P.workload(quick=50, thorough=1500)
def facets(rng, mon):
    """mk_map puts every pixel of every facet where it is, weighted by its distance from the center, on top of what the map holds."""
    cwd = mon.tmp()
    nside = int(rng.choice([8, 16, 32]))
    fw = float(rng.choice([5, 10, 10, 20, 40]))
    c = rng.normal(size=4)
    g = lambda x: c[0] * 3 + c[1:] @ x
    npix = 12 * nside**2
    W, M = np.zeros(npix), np.zeros(npix)
    kmap, vague = 0, set()
    for step in range(int(rng.choice([1, 1, 2]))):
        names = []
        for _ in range(int(rng.integers(1, 4))):
            dim, res = int(rng.choice([20, 25, 32, 40])), float(rng.choice([.5, 1., 2.]))
            jd = scr.jd(rng)
            date = str(ephem.Date(jd - 2415020.))
            ra, dec = rng.uniform(0, 2 * np.pi), np.arcsin(rng.uniform(-1, 1))
            q = ephem.Equatorial(ephem.Equatorial(ra, dec, epoch=ephem.J2000), epoch=date)
            e, n, z = axes_of(float(q.ra), float(q.dec))
            k = np.arange(dim) - dim // 2
            l, m = np.broadcast_to(-k[None, :] / (dim * res), (dim, dim)), np.broadcast_to(k[:, None] / (dim * res), (dim, dim))
            rr = l**2 + m**2
            ok = rr < 1
            x = np.array([l[ok] * e[i] + m[ok] * n[i] + np.sqrt(1 - rr[ok]) * z[i] for i in range(3)])
            R = []      # axes of date, in J2000
            for a in np.eye(3):
                p = ephem.Equatorial(ephem.Equatorial(np.arctan2(a[1], a[0]), np.arcsin(a[2]), epoch=date), epoch=ephem.J2000)
                R.append([np.cos(p.dec) * np.cos(p.ra), np.cos(p.dec) * np.sin(p.ra), np.sin(p.dec)])
            Rt = np.array(R).T
            x = Rt @ x
            # the first row and column of an even image stand for either side
            for sl, sm in ((-1, 1), (1, -1), (-1, -1)):
                on = ok & ((l == .5 / res) & (sl < 0) | (sl > 0)) & ((m == -.5 / res) & (sm < 0) | (sm > 0)) & (dim % 2 == 0)
                for v in (Rt @ np.array([sl * l[on] * e[i] + sm * m[on] * n[i] + np.sqrt(1 - rr[on]) * z[i] for i in range(3)])).T:
                    vague.add(hpx.ang2pix(nside, v[2], np.arctan2(v[1], v[0]), False, eps=0))
            if dim % 2 == 0:
                on = ok[ok] & ((l == .5 / res) | (m == -.5 / res))[ok]
                for v in x.T[on]:
                    vague.add(hpx.ang2pix(nside, v[2], np.arctan2(v[1], v[0]), False, eps=0))
            img = np.zeros((dim, dim))
            img[ok] = g(x)
            w = np.exp(-rr[ok] / np.sin(fw * D2R)**2)
            name = 'f%d.fits' % kmap
            kmap += 1
            names.append(name)
            aipy.img.to_fits(os.path.join(cwd, name), img.astype(np.float32), ra=np.degrees(ra), dec=np.degrees(dec), d_ra=np.degrees(1 / (dim * res)) * (-1) ** int(rng.integers(2)), d_dec=np.degrees(1 / (dim * res)),
                             epoch=2000., obs_date=date, object='o')
            mon.ev('map_files')
            for v, wt, d in zip(x.T, w, img.astype(np.float32)[ok].astype(float)):
                p = hpx.ang2pix(nside, v[2], np.arctan2(v[1], v[0]), False, eps=1e-4)
                if p is None:       # too near an edge to tell
                    near = v + rng.normal(size=(12, 3)) * 4e-4 / nside
                    for y in near / np.sqrt((near**2).sum(axis=1))[:, None]:
                        vague.add(hpx.ang2pix(nside, y[2], np.arctan2(y[1], y[0]), False, eps=0))
                    p = hpx.ang2pix(nside, v[2], np.arctan2(v[1], v[0]), False, eps=0)
                if p is None:
                    raise Skip
                W[p] += wt
                M[p] += wt * d
        before = {f: open(os.path.join(cwd, f), 'rb').read() for f in names}
        args = ['-m', 'map.fits'] + (['--nside', nside] if step == 0 or rng.random() < .5 else []) + (['--fwidth', fw] if fw != 10 else []) + ['-i'] * int(rng.integers(2)) + names
        scr.run(mon, rng, 'mk_map.py', args, cwd)
        mon.check(all(open(os.path.join(cwd, f), 'rb').read() == before[f] for f in names), 'mk_map changed its input')
        if step:
            mon.ev('map_added')
        h = aipy.map.Map(fromfits=os.path.join(cwd, 'map.fits'))
        mon.check(h.nside() == nside and h.scheme() == 'RING', 'mk_map: nside %d' % h.nside())
        gw, gm = np.asarray(h.wgt.map, float), np.asarray(h.map.map, float)
        mon.close(gw.sum(), W.sum(), 1e-4 * W.sum() + 1e-30, 'mk_map %s: sum of weights' % args)
        mon.close(gm.sum(), M.sum(), 1e-4 * W.sum() * (3 * abs(c[0]) + np.abs(c[1:]).sum()), 'mk_map %s: weighted sum of the images' % args)
        sure = np.ones(npix, bool)
        sure[[q for q in vague if q is not None]] = False
        mon.ev('map_pixels', int((sure & (W > 0)).sum()))
        m = 'mk_map %s' % ' '.join(map(str, args))
        mon.close(gw[sure], W[sure], 1e-5 * W.max() + 1e-30, m + ': weights of pixels')
        mon.close(gm[sure], M[sure], 1e-5 * W.max() * (3 * abs(c[0]) + np.abs(c[1:]).sum()), m + ': weighted sums of images in pixels')
    mon.case('facets', nside, fw, kmap, float(c[0]))


# ---------------------------------------------------------------- fitmdl
def last_fit(out):
    """The parameters and score printed last."""
    i = out.rindex('Score:')
    lines = out[:i].split('\n')
    vals, obj = {}, None
    k = len(lines) - 1
    block = []
    for l in reversed(lines):
        if l.strip() == '' and block:
            break
        if l.strip():
            block.append(l)
    for l in reversed(block):
        w = l.split()
        if len(w) == 1:
            obj = w[0]
            vals[obj] = {}
        elif obj is not None and len(w) == 2:
            vals[obj][w[0]] = float(w[1])
    return vals, float(out[i:].split()[1])


def fit_case(rng, mon, two=False):
    cwd = mon.tmp()
    n = int(rng.integers(3, 5))
    own = scr.own_sources(rng, 2)
    for s in own:
        s['jys'] = round(float(rng.uniform(50, 500)), 2)
    t0 = scr.jd(rng)
    ns = good_array(rng, cwd, n, 300., own)
    place(rng, ns, own, t0, .4, down=0)
    ns = recal(cwd, ns, own)
    pol = int(rng.choice([-5, -6]))
    dss = []
    for k in range(2 if two else 1):
        ds = real_obs(rng, n, t0 + k * .02, int(rng.integers(1, 3)), .005, pol, nchan=int(rng.choice([1, 3])) if not two else 2, sdf=.002)
        simulate(ns, ds, ['s0', 's1'], pol)
        dss.append(ds)
        mir.write(aipy, os.path.join(cwd, 'o%d.uv' % k), ds)
    names = ['o%d.uv' % k for k in range(len(dss))]
    return cwd, ns, own, dss, pol, names


def prms(rng, ns, own, pol):
    """What to fit: option, and the true values."""
    k = rng.integers(5)
    a = ns['ants']
    f = lambda: float(rng.uniform(.8, 1.2))
    x = {-5: 'x', -6: 'y'}[pol]
    if k == 0:
        return ['-P', 's1=jys/%r' % round(own[1]['jys'] * f(), 3)], {'s1': {'jys': own[1]['jys']}}, None
    if k == 1:
        return ['-P', '(s0/s1)=jys/(%r/%r)' % (round(own[0]['jys'] * f(), 3), round(own[1]['jys'] * f(), 3))], {s['name']: {'jys': s['jys']} for s in own}, None
    if k == 2:
        p = 'amp_' + x
        return ['-P', '0=%s/%r' % (p, round(a[0][4] * f(), 4))], {'0': {p: a[0][4]}}, None
    if k == 3:
        p = 'dly_' + x
        return ['-P', '1=%s/%r' % (p, round(a[1][3] + float(rng.uniform(-.3, .3)), 4))], {'1': {p: a[1][3]}}, None
    return ['-P', 's0=jys/%r,1=amp_%s/%r' % (round(own[0]['jys'] * f(), 3), x, round(a[1][4] * f(), 4))], {'s0': {'jys': own[0]['jys']}, '1': {'amp_' + x: a[1][4]}}, None


def judge(mon, got, true, m, tol=1e-3):
    for o in true:
        mon.check(o in got, '%s: no fit of %s: %r' % (m, o, got))
        for p, v in true[o].items():
            mon.ev('fitted')
            mon.close(got[o].get(p, np.nan), v, tol * (1 + abs(v)), '%s: %s of %s' % (m, p, o))


@P.workload(quick=30, thorough=800)
def fit(rng, mon):
    """fitmdl finds the parameters with which the data were made, from a start near them."""
    cwd, ns, own, dss, pol, names = fit_case(rng, mon)
    opt, true, _ = prms(rng, ns, own, pol)
    quiet = rng.random() < .5
    snap = rng.random() < .3
    # noiseless data leave the score at the level of rounding, where the simplex may never meet its tolerances
    args = ['-C', 'gencal', '-p', POL[pol], '-s', 's0,s1', '--maxiter', '600'] + opt + ['-q'] * quiet + ['--snap'] * snap + ['--remem'] * int(rng.integers(2))
    r = scr.run(mon, rng, 'fitmdl.py', args + names, cwd)
    m = 'fitmdl.py ' + ' '.join(args)
    if snap:
        nt = len({x.t for x in dss[0].recs})
        parts = r.out.split('Time: ')[1:]
        mon.check(len(parts) == nt, '%s: %d fits for %d integrations' % (m, len(parts), nt))
    else:
        parts = [r.out]
    for p in parts:
        got, score = last_fit(p)
        judge(mon, got, true, m)
        mon.check(score < 1e-2, '%s: score %g of a perfect model' % (m, score))
    mon.case('fit', tuple(args), dss[0].recs[0].t)


@P.workload(quick=25, thorough=600)
def selected(rng, mon):
    """fitmdl gives the least-squares flux of the data its options select: integrations, antennas, channels, lengths, unflagged samples."""
    cwd = mon.tmp()
    n = int(rng.integers(3, 5))
    own = scr.own_sources(rng, 2)
    t0 = scr.jd(rng)
    ns = good_array(rng, cwd, n, 300., own)
    place(rng, ns, own, t0, .4, down=0)
    own[0]['jys'] = J0 = round(float(10 ** rng.uniform(0, 4)), 3)
    ns = recal(cwd, ns, own)
    pol = int(rng.choice([-5, -6]))
    nt, nchan = int(rng.integers(1, 9)), int(rng.choice([1, 4]))
    ds = real_obs(rng, n, t0, nt, .003, pol, nchan=nchan, sdf=.002)
    simulate(ns, ds, ['s0'], pol, autos=True)
    model = [r.data.astype('D') / J0 for r in ds.recs]
    times = sorted({r.t for r in ds.recs})
    f = rng.uniform(.5, 2, size=len(times))
    for r in ds.recs:
        x = .1 * np.abs(r.data).mean() * (rng.normal(size=nchan) + 1j * rng.normal(size=nchan))
        r.data = (r.data * f[times.index(r.t)] + x).astype('F')
    mir.write(aipy, os.path.join(cwd, 'o.uv'), ds)
    args, ok = [], [r.ij[0] != r.ij[1] for r in ds.recs]
    autos = [r.ij[0] == r.ij[1] for r in ds.recs]
    x = int(rng.choice([1, 1, 2, 3]))
    p = int(rng.integers(x)) if rng.random() < .7 else 0
    if x > 1:
        args += ['-x', x]
    if p:
        args += ['--dphs', p]
    k = rng.integers(4)
    if k == 1:
        i, j = [int(y) for y in rng.choice(n, size=2, replace=False)]
        args += ['-a', '%d_%d' % (i, j)]
        ok = [o and set(r.ij) == {i, j} for o, r in zip(ok, ds.recs)]
    elif k == 2:
        args += ['-a', 'all']
        if rng.random() < .6:
            args += ['--sim_autos']
            ok = [o or a for o, a in zip(ok, autos)]
    elif k == 3:
        i = int(rng.integers(n))
        args += ['-a', 'cross,-%d' % i]
        ok = [o and i not in r.ij for o, r in zip(ok, ds.recs)]
    chans = slice(None)
    if nchan > 1 and rng.random() < .5:
        a = int(rng.integers(nchan))
        b = int(rng.integers(a, nchan))
        args += ['-c', '%d_%d' % (a, b)]
        chans = slice(a, b + 1)
    if rng.random() < .3:
        aa = ns['get_aa'](np.array([.15]))
        L = {r.ij: .15 * np.sqrt((np.asarray(aa.get_baseline(*r.ij))**2).sum()) for r in ds.recs if r.ij[0] != r.ij[1]}
        u = sorted(L.values())
        lim = round(float(u[0] + rng.uniform(.01, 1) * (u[-1] - u[0])) - .01, 3)
        args += ['--minuv', lim]
        ok = [o and L.get(r.ij, 0) >= lim for o, r in zip(ok, ds.recs)]
    parts = times[p::x]
    snap = rng.random() < .5
    groups = [[t] for t in parts] if snap else [parts]
    want = []
    for g in groups:
        A = B = C = 0.
        for r, o, m in zip(ds.recs, ok, model):
            if o and r.t in g:
                y = (~r.mask)[chans]
                d, s = r.data.astype('D')[chans][y], m[chans][y]
                A, B, C = A + (np.conj(s) * d).real.sum(), B + (np.abs(s)**2).sum(), C + (np.abs(d)**2).sum()
        if not B:
            raise Skip
        want.append((A / B, np.sqrt(max(0, 1 - A**2 / B / C))))
    args = ['-C', 'gencal', '-p', POL[pol], '-s', 's0', '--maxiter', '600', '-P', 's0=jys/%r' % round(J0 * float(rng.uniform(.6, 1.7)), 3), '-q'] + ['--snap'] * snap + ['--remem'] * int(rng.integers(2)) + args + ['o.uv']
    r = scr.run(mon, rng, 'fitmdl.py', args, cwd)
    m = 'fitmdl.py ' + ' '.join(map(str, args))
    out = r.out.split('Time: ')[1:] if snap else [r.out]
    mon.check(len(out) == len(want), '%s: %d fits of %d groups' % (m, len(out), len(want)))
    for o, (J, s) in zip(out, want):
        got, score = last_fit(o)
        mon.ev('least_squares')
        mon.close(got['s0'].get('jys', np.nan), J, 1e-3 * (abs(J) + J0), m + ': flux')
        mon.close(score, s, 1e-3, m + ': score')
    mon.case('selected', tuple(map(str, args)), t0)


@P.workload(quick=10, thorough=300)
def shared(rng, mon):
    """Shared parameters are one number for all objects listed."""
    cwd = mon.tmp()
    n = int(rng.integers(3, 5))
    own = scr.own_sources(rng, 1)
    own[0]['jys'] = 100.
    t0 = scr.jd(rng)
    ns = good_array(rng, cwd, n, 300., own)
    place(rng, ns, own, t0, .3, down=0)
    pol = int(rng.choice([-5, -6]))
    amp = round(float(rng.uniform(.6, 1.6)), 3)
    txt = open(os.path.join(cwd, 'gencal.py')).read()
    ants = [list(a) for a in ns['ants']]
    ants[0][4] = ants[1][4] = amp
    txt = txt.replace('ants = %r' % (ns['ants'],), 'ants = %r' % (ants,))
    open(os.path.join(cwd, 'gencal.py'), 'w').write(txt)
    ns = recal(cwd, ns, own)
    ds = real_obs(rng, n, t0, 1, .005, pol, nchan=2, sdf=.002)
    simulate(ns, ds, ['s0'], pol)
    mir.write(aipy, os.path.join(cwd, 'o.uv'), ds)
    # the calibration module the fit starts from is wrong for both
    ants[0][4], ants[1][4] = round(amp * 1.2, 3), round(amp * .7, 3)
    txt = re.sub(r'ants = .*', 'ants = %r' % (ants,), open(os.path.join(cwd, 'gencal.py')).read(), count=1)
    open(os.path.join(cwd, 'gencal.py'), 'w').write(txt)
    p = 'amp_' + {-5: 'x', -6: 'y'}[pol]
    args = ['-C', 'gencal', '-p', POL[pol], '-s', 's0', '--maxiter', '600', '-S', '(0/1)=%s/%r' % (p, round(amp * 1.1, 3)), '-q', 'o.uv']
    r = scr.run(mon, rng, 'fitmdl.py', args, cwd)
    got, score = last_fit(r.out)
    mon.ev('shared')
    judge(mon, got, {'0': {p: amp}}, 'fitmdl.py ' + ' '.join(args))
    mon.check(score < 1e-2, 'score %g of a perfect shared model' % score)
    mon.case('shared', n, t0)


@P.workload(quick=8, thorough=200)
def daemons(rng, mon):
    """A master with daemons finds what one process finds in all the files."""
    cwd, ns, own, dss, pol, names = fit_case(rng, mon, two=True)
    opt, true, _ = prms(rng, ns, own, pol)
    base = int(rng.integers(20000, 30000))
    ids = [int(x) for x in rng.choice(20, size=2, replace=False)]
    args = ['-C', 'gencal', '-p', POL[pol], '-s', 's0,s1', '--maxiter', '600', '--baseport', base] + opt + ['-q']
    procs = []
    try:
        for k, i in enumerate(ids):
            with open(os.path.join(cwd, 'log%d' % k), 'w') as f:
                procs.append(subprocess.Popen([sys.executable, scr.path('fitmdl.py')] + [str(a) for a in args] + ['--daemon', str(i), names[k]], cwd=cwd, stdout=f, stderr=f, stdin=subprocess.DEVNULL))
        t = time.time()
        while time.time() - t < 60:
            ready = [('Starting daemon' in open(os.path.join(cwd, 'log%d' % k)).read()) for k in range(2)]
            if all(ready) or any(p.poll() is not None for p in procs):
                break
            time.sleep(.05)
        logs = [open(os.path.join(cwd, 'log%d' % k)).read() for k in range(2)]
        if any('Address already in use' in l for l in logs):
            raise Skip
        mon.check(all(ready), 'a daemon did not start: %s' % [l[-400:] for l in logs])
        r = scr.run(mon, rng, 'fitmdl.py', args + ['--master', ','.join('localhost:%d' % i for i in ids), names[0]], cwd)
        mon.ev('daemons', 2)
        got, score = last_fit(r.out)
        judge(mon, got, true, 'fitmdl.py with daemons %s' % opt)
        mon.check(score < 1e-2, 'score %g of a perfect model' % score)
        mon.check(all(p.poll() is None for p in procs), 'a daemon ended')
        mon.check(all('Returning score=' in open(os.path.join(cwd, 'log%d' % k)).read() for k in range(2)), 'a daemon was not asked')
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
    mon.case('daemons', tuple(map(str, opt)), dss[0].recs[0].t)


if __name__ == '__main__':
    P.main()
