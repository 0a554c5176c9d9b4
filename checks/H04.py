"""H04: sky maps and images written to FITS read back the same, and the files hold what the FITS and HEALPix conventions say."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from astropy.io import fits
import hpx
aipy = load()

P = Prop('H04', rule='an execution writes a generated map or image to a FITS file, reads it back through aipy and inspects the file with astropy; '
         'distinct by kind, resolution, scheme, dtype, columns or axes', require=['hpm_files', 'map_files', 'image_files', 'rewritten', 'refused', 'histories',
                                                                              'foreign_files', 'other_images', 'old_order', 'int_data', 'float_data', 'complex_data'])
DT = [np.float64, np.float32, np.int16, np.int32, np.int64, np.uint8, np.bool_, np.complex64, np.complex128]
CODE = {np.bool_: 'L', np.uint8: 'B', np.int16: 'I', np.int32: 'J', np.int64: 'K', np.float32: 'E', np.float64: 'D', np.complex64: 'C', np.complex128: 'M'}


def kind(mon, dt):
    mon.ev('complex_data' if np.issubdtype(dt, np.complexfloating) else 'float_data' if np.issubdtype(dt, np.floating) else 'int_data')


def data(rng, dt, shape):
    if rng.random() < .15:      # constant, mostly empty
        return np.full(shape, dt(rng.integers(2) * rng.integers(2)), dtype=dt)
    if dt == np.bool_:
        return rng.random(size=shape) < .5
    if np.issubdtype(dt, np.integer):
        i = np.iinfo(dt)
        return rng.integers(i.min + (dt != np.uint8), i.max, size=shape, dtype=dt)
    v = rng.normal(size=shape) * 10.**rng.integers(-20, 20)
    if np.issubdtype(dt, np.complexfloating):
        v = v + 1j * rng.normal(size=shape)
    v = np.atleast_1d(np.asarray(v).astype(dt)).reshape(shape)
    if rng.random() < .03 and np.issubdtype(dt, np.floating):       # not a number known
        v[...] = np.nan
    elif rng.random() < .1 and not np.issubdtype(dt, np.complexfloating):
        v.flat[rng.integers(v.size)] = [np.inf, -np.inf, np.nan, 0][rng.integers(4)]
    return v


def header_ok(mon, hdr, ns, scheme):
    mon.eq((hdr['PIXTYPE'], hdr['NSIDE'], hdr['FIRSTPIX'], hdr['LASTPIX'], hdr['INDXSCHM']), ('HEALPIX', ns, 0, 12 * ns**2 - 1, 'IMPLICIT'), 'HEALPix header')
    mon.eq(hdr['ORDERING'], 'RING' if scheme == 'RING' else 'NESTED', 'ORDERING')


@P.workload(quick=1500, thorough=15000)
def hpm(rng, mon):
    ns, sch, dt = int(rng.choice([1, 2, 4, 8, 16])), str(rng.choice(['RING', 'NEST'])), DT[rng.integers(len(DT))]
    kind(mon, dt)
    f = os.path.join(mon.tmp(), 'a.fits')
    h = aipy.healpix.HealpixMap(nside=ns, scheme=sch, dtype=dt)
    h.set_map(data(rng, dt, 12 * ns**2), scheme=sch)
    want = h.get_map().copy()
    fmt = {} if rng.random() < .7 else dict(format=CODE[dt])
    h.to_fits(f, **fmt)
    mon.eq(h.get_map(), want, 'writing changed the map')
    hd = fits.open(f)
    try:
        header_ok(mon, hd[1].header, ns, sch)
        mon.eq(np.asarray(hd[1].data.field(0)), want, 'data in the file')
    finally:
        hd.close()
    if rng.random() < .5:
        g = aipy.healpix.HealpixMap(fromfits=f)
    else:
        g = aipy.healpix.HealpixMap(nside=int(rng.choice([1, 2, 4])), scheme=str(rng.choice(['RING', 'NEST'])))
        g.from_fits(f)
    mon.eq((g.nside(), g.scheme(), g.npix()), (ns, sch, 12 * ns**2), 'geometry read back')
    mon.eq(g.get_map(), want, 'map read back')
    mon.eq(g.get_map().dtype.newbyteorder('='), np.dtype(dt), 'dtype read back')
    g[np.array([0, 1, 1])] = np.array([1, 1, 0]).astype(dt)      # what is read is writable and the file is not affected
    w2 = want.copy()
    w2[0], w2[1] = dt(1), dt(1)
    mon.eq(g.get_map(), w2, 'writing to the map read')
    other = aipy.healpix.HealpixMap(fromfits=f)
    mon.eq(other.get_map(), want, 'the file after the map read from it was changed')
    to = 'NEST' if sch == 'RING' else 'RING'
    other.change_scheme(to)
    other.change_scheme(sch)
    mon.eq(other.get_map(), want, 'reordering what was read, and back')
    if rng.random() < .5:
        g.to_fits(f)
        mon.eq(aipy.healpix.HealpixMap(fromfits=f).get_map(), w2, 'overwritten file')
        mon.ev('rewritten')
    else:
        with mon.raises(OSError, 'an existing file was overwritten with clobber=False'):
            g.to_fits(f, clobber=False)
        mon.eq(aipy.healpix.HealpixMap(fromfits=f).get_map(), want, 'file after a refused write')
        mon.ev('refused')
    mon.ev('hpm_files')
    mon.case('h', ns, sch, str(dt), bytes(want[:3].tobytes()))


HIST = ['', 'made by a test', 'first\nsecond line\n# a comment line\n', 'x' * 190, 'a ' * 100, 'one\n\n\ntwo ' + 'y' * 75]


@P.workload(quick=1500, thorough=15000)
def maps(rng, mon):
    ns, sch = int(rng.choice([1, 2, 4, 8, 16])), str(rng.choice(['RING', 'NEST']))
    dt = [np.float64, np.float64, np.float32, np.int32, np.complex128][rng.integers(5)]
    kind(mon, dt)
    nind = int(rng.choice([0, 1, 2, 3]))
    m = aipy.map.Map(nside=ns, scheme=sch, dtype=dt, nindices=nind)
    cols = [data(rng, dt, 12 * ns**2) for _ in range(2 + nind)]
    for h, c in zip([m.map, m.wgt] + m.ind, cols):
        h.set_map(c.copy(), scheme=sch)
    f = os.path.join(mon.tmp(), 'm.fits')
    hist = HIST[rng.integers(len(HIST))]
    m.to_fits(f, **(dict(history=hist) if hist else {}))
    hd = fits.open(f)
    try:
        header_ok(mon, hd[1].header, ns, sch)
        mon.eq([c.name for c in hd[1].columns], ['signal', 'weights'] + ['sp_index%d' % i for i in range(nind)], 'columns of the file')
        for i, c in enumerate(cols):
            mon.eq(np.asarray(hd[1].data.field(i)), c, 'column of the file')
        text = ''.join(str(x) for x in hd[0].header.get('HISTORY', []))
        for w in hist.split():
            if w != '#' and len(w) > 1:
                mon.check(w in text.replace('\n', '') or len(w) > 60 and text.count(w[0]) >= len(w), 'the history lost a word', word=w[:20])
        mon.ev('histories', int(bool(hist)))
    finally:
        hd.close()
    kw = [{}, dict(nindices=nind), dict(nindices=nind + 1), dict(nindices=0)][rng.integers(4)]
    g = aipy.map.Map(fromfits=f, **kw)
    n2 = kw.get('nindices', nind)
    mon.eq((g.nside(), g.scheme(), len(g.ind)), (ns, sch, n2), 'geometry read back')
    zero = np.zeros(12 * ns**2)
    for h, c, name in zip([g.map, g.wgt] + g.ind, (cols + [zero])[:2 + n2], ['flux', 'weight'] + ['index'] * 9):
        mon.eq((h.nside(), h.scheme()), (ns, sch), 'geometry of the ' + name)
        mon.eq(h.get_map(), c, name + ' read back')
    with mon.raises(OSError, 'an existing map was overwritten'):
        m.to_fits(f, clobber=False) if rng.random() < .5 else m.to_fits(f)
    mon.ev('refused')
    if dt == np.float64 and rng.random() < .7:
        px = rng.integers(0, 12 * ns**2, size=5)
        g2 = aipy.map.Map(fromfits=f)
        for h in [g2.map, g2.wgt] + g2.ind:
            h.map[~np.isfinite(h.map)] = 0
        b = [h.get_map().copy() for h in [g2.map, g2.wgt] + g2.ind]
        w, x, ii = rng.uniform(size=5), rng.normal(size=5), [rng.normal(size=5) for _ in range(nind)]
        g2.add(px, w, x, ii)
        for r, v in zip(b, [x * w, w] + [i * w for i in ii]):
            np.add.at(r, px, v)
        g2.to_fits(f, clobber=True)
        g3 = aipy.map.Map(fromfits=f)
        for h, r in zip([g3.map, g3.wgt] + g3.ind, b):
            mon.close(h.get_map(), r, 1e-9 * (1 + np.abs(r).max()), 'a map read, added to and written')
        mon.ev('rewritten')
    mon.ev('map_files')
    mon.case('m', ns, sch, str(dt), nind, hist[:5], bytes(cols[0][:2].tobytes()))


@P.workload(quick=900, thorough=6000)
def foreign(rng, mon):
    """Files that other programs wrote: several columns and orders, or fluxes alone (weights are one)."""
    ns, nest = int(rng.choice([1, 2, 4, 8])), bool(rng.random() < .5)
    n, dt = int(rng.choice([1, 2, 3])), [np.float32, np.float64][rng.integers(2)]
    cols = [data(rng, dt, 12 * ns**2) for _ in range(n)]
    hdus = [fits.PrimaryHDU()]
    k = int(rng.choice([1, 2]))
    for _ in range(k - 1):
        hdus.append(fits.ImageHDU(np.zeros((2, 2))))
    t = fits.BinTableHDU.from_columns([fits.Column(name='c%d' % i, format=CODE[dt], array=c) for i, c in enumerate(cols)])
    t.header['ORDERING'] = str(rng.choice(['NESTED', 'NEST'])) if nest else 'RING'
    f = os.path.join(mon.tmp(), 'f.fits')
    fits.HDUList(hdus + [t]).writeto(f)
    c = int(rng.integers(n))
    h = aipy.healpix.HealpixMap()
    h.from_fits(f, **({} if k == 1 and c == 0 and rng.random() < .5 else dict(hdunum=k, colnum=c)))
    mon.eq((h.nside(), h.scheme()), (ns, 'NEST' if nest else 'RING'), 'geometry')
    mon.eq(h.get_map(), cols[c], 'column read')
    m = aipy.map.Map()
    m.from_fits(f, hdunum=k)
    mon.eq(m.map.get_map(), cols[0], 'flux read')
    mon.eq(m.wgt.get_map(), cols[1] if n > 1 else np.ones(12 * ns**2), 'weight read')
    mon.eq(len(m.ind), max(0, n - 2), 'number of indices read')
    for h in [m.map, m.wgt] + m.ind:
        mon.eq((h.nside(), h.scheme()), (ns, 'NEST' if nest else 'RING'), 'geometry')
    mon.ev('foreign_files')
    mon.case('f', ns, nest, n, c, k, bytes(cols[0][:2].tobytes()))


AXES = [('ra--sin', 'dec--sin'), ('ra---sin', 'dec--sin', 'freq'), ('freq', 'dec', 'ra'), ('freq',), ('ra', 'dec', 'freq', 'stokes'), ('stokes', 'freq'),
        ('glon-sin', 'glat-sin'), ('RA---SIN', 'DEC--SIN'), ('time', 'freq')]


@P.workload(quick=2100, thorough=20000)
def images(rng, mon):
    axes = AXES[rng.integers(len(AXES))]
    dt = [np.float32, np.float32, np.float64, np.int16, np.int32, np.uint8][rng.integers(6)]
    kind(mon, dt)
    shape = tuple(int(x) for x in rng.integers(2, 9, size=len(axes)))
    d = data(rng, dt, shape)
    given = d if rng.random() < .7 else d.reshape((1,) + shape)
    f = os.path.join(mon.tmp(), 'i.fits')
    kw = {}
    for k in ('ra', 'dec', 'd_ra', 'd_dec'):
        if rng.random() < .7:
            kw[k] = float(np.round(rng.uniform(-1, 1) * (180 if k == 'ra' else 90 if k == 'dec' else 1), 6))
    if rng.random() < .6:
        kw.update(freq=float(rng.uniform(1e8, 2e8)), d_freq=float(rng.uniform(1e4, 1e6)))
    for k in ('object', 'telescope', 'instrument', 'observer', 'origin', 'obs_date', 'cur_date'):
        if rng.random() < .5:
            kw[k] = str(rng.choice(['cyg', 'PAPER', 'A B', '', '2008/12/05 03:01:40', "o'x"]))
    if rng.random() < .3:
        kw['epoch'] = float(rng.choice([1950., 2000., 2451545.]))
    hist = HIST[rng.integers(len(HIST))]
    keep = given.copy()
    aipy.img.to_fits(f, given, axes=axes, **dict(kw, **(dict(history=hist) if hist else {}))) if axes != AXES[0] or rng.random() < .5 else \
        aipy.img.to_fits(f, given, **kw)
    mon.eq(given, keep, 'writing changed the data')
    got, k = aipy.img.from_fits(f)
    mon.eq(np.asarray(got), d, 'image read back', axes=axes, dtype=str(dt))
    mon.eq(np.asarray(got).dtype.newbyteorder('='), np.dtype(dt), 'dtype read back')
    mon.eq(list(k['axes']), [a.lower() for a in axes], 'axes read back')
    lo = [a.lower() for a in axes]
    has = {'ra': any(a.startswith(('ra', 'glon')) for a in lo), 'dec': any(a.startswith(('dec', 'glat')) for a in lo), 'freq': 'freq' in lo}
    for name in ('ra', 'dec', 'freq'):
        if not has[name]:
            mon.check(name not in k, 'a coordinate appeared', name=name)
            continue
        want, delta = kw.get(name, 0), kw.get('d_' + name, 0)
        if name == 'ra':
            delta = -abs(delta)     # right ascension increases to the left
        mon.close(k[name], want, 1e-9 * abs(want) + 1e-12, name + ' read back')
        mon.close(k['d_' + name], delta, 1e-9 * abs(delta) + 1e-12, 'd_%s read back' % name)
    for name in ('object', 'telescope', 'instrument', 'observer', 'origin', 'obs_date', 'cur_date'):
        if name in kw:
            mon.eq(k[name], kw[name].rstrip(), name + ' read back')
    mon.close(k['epoch'], kw.get('epoch', 2000.), 1e-9, 'epoch read back')
    # a second generation from what was read
    f2 = os.path.join(mon.tmp(), 'j.fits')
    aipy.img.to_fits(f2, np.asarray(got), **k)
    g2, k2 = aipy.img.from_fits(f2)
    mon.eq(np.asarray(g2), d, 'second generation')
    mon.eq(dict(k2), dict(k), 'second generation of keywords')
    # the header describes the data
    hd = fits.open(f)
    try:
        h = hd[0].header
        mon.eq([h['NAXIS%d' % (i + 1)] for i in range(h['NAXIS'])], list(d.shape[::-1]), 'axis lengths')
        fin = d[np.isfinite(d)]
        if fin.size:
            mon.close((h['DATAMIN'], h['DATAMAX']), (float(fin.min()), float(fin.max())), 1e-6 * float(np.abs(fin.astype(float)).max()), 'data range')
        for i, a in enumerate(axes):
            mon.eq(h['CTYPE%d' % (i + 1)], a.upper(), 'axis type')
            mid = a.lower().startswith(('ra', 'dec', 'glon', 'glat'))
            mon.eq(h['CRPIX%d' % (i + 1)], d.shape[-(i + 1)] // 2 + 1 if mid else 1, 'reference pixel, counted from 1: the center of the sky, the first of other axes')
            mon.eq(aipy.img.find_axis(hd[0], a.lower()[:3]), 1 + [b.lower()[:3] for b in axes].index(a.lower()[:3]), 'axis number')
        mon.eq(aipy.img.find_axis(hd[0], 'nosuch'), None, 'number of an axis that is not there')
        text = ''.join(str(x) for x in h.get('HISTORY', []))
    finally:
        hd.close()
    # overwriting
    if rng.random() < .5:
        with mon.raises(OSError, 'an existing image was overwritten'):
            aipy.img.to_fits(f, d * 0, axes=axes)
        mon.eq(np.asarray(aipy.img.from_fits(f)[0]), d, 'file after a refused write')
        mon.ev('refused')
    else:
        aipy.img.to_fits(f, d[::-1].copy(), clobber=True, axes=axes)
        mon.eq(np.asarray(aipy.img.from_fits(f)[0]), d[::-1], 'overwritten image')
        mon.ev('rewritten')
    with mon.raises(TypeError, 'axes that do not fit the data'):
        aipy.img.to_fits(os.path.join(mon.tmp(), 'k.fits'), d, axes=axes + ('freq',))
    # a new file from the header of another
    if len(shape) == d.ndim and rng.random() < .5 and not hist:
        f3 = os.path.join(mon.tmp(), 'l.fits')
        new = {n: float(np.round(rng.uniform(1, 50), 4)) for n in ('ra', 'dec', 'freq') if has[n] and not lo[0].startswith('gl')}
        for n in ('ra', 'dec', 'freq'):
            if has[n] and not lo[0].startswith('gl') and rng.random() < .5:
                new['d_' + n] = float(np.round(rng.uniform(-1, 1), 4))
        obj = dict(OBJECT='new one') if rng.random() < .4 else {}
        h3t = [None, 'made of another\nin two lines', ''][rng.integers(3)]
        d2 = data(rng, np.float64, shape)
        so = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            aipy.img.from_fits_to_fits(f2, f3, d2.copy(), dict(new, **obj), **(dict(history=h3t) if h3t is not None else {}))
        finally:
            sys.stdout.flush()
            os.dup2(so, 1)
            os.close(so)
            os.close(null)
        g3, k3 = aipy.img.from_fits(f3)
        mon.eq(np.asarray(g3), d2, 'data of a file made from another')
        for n in ('object', 'telescope', 'epoch', 'axes', 'd_ra', 'd_dec', 'd_freq'):
            if n in k and n not in new and not (n == 'object' and obj):
                mon.eq(k3.get(n), k[n], n + ' of a file made from another')
        if obj:
            mon.eq(k3['object'], 'new one', 'object of a file made from another')
        for n in new:
            mon.close(k3[n], new[n], 1e-9, n + ' of a file made from another')
        mon.ev('rewritten')
        h3 = fits.getheader(f3)
        h2 = fits.getheader(f2)
        for c in ('NAXIS', 'BUNIT', 'DATE-OBS', 'INSTRUME', 'OBSERVER', 'ORIGIN', 'EQUINOX') + tuple('CTYPE%d' % (i + 1) for i in range(len(axes))):
            mon.eq(h3.get(c), h2.get(c), '%s of a file made from another' % c)
        t2, t3 = [''.join(str(x).replace(' ', '').replace('#', '') for x in h.get('HISTORY', [])) for h in (h2, h3)]
        mon.check(t3.startswith(t2), 'a file made from another lost history', old=t2, new=t3)
        if h3t:
            mon.check('madeofanother' in t3 and 'intwolines' in t3, 'history of a file made from another', got=t3)
        for i, a in enumerate(axes):
            if a.lower().startswith(('ra', 'dec')):
                mon.eq(h3['CRPIX%d' % (i + 1)], shape[-(i + 1)] // 2 + 1, 'reference pixel of a file made from another', axes=axes, shape=shape)
    mon.ev('image_files')
    mon.ev('histories', int(bool(hist)))
    mon.case('i', axes, str(dt), shape, tuple(sorted(kw)))


@P.workload(quick=900, thorough=8000)
def other_images(rng, mon):
    """Images that other programs wrote, with some of the keywords, or in the old order of axes."""
    n = int(rng.integers(1, 5))
    dt = [np.float32, np.float64, np.int16, np.int32][rng.integers(4)]
    d = data(rng, dt, tuple(int(x) for x in rng.integers(2, 7, size=n)))
    hdu = fits.PrimaryHDU(d)
    want, axes = {}, []
    for i in range(n):
        if rng.random() < .15:
            continue
        ax = str(rng.choice(['RA---SIN', 'DEC--SIN', 'FREQ', 'STOKES', 'GLON-CAR', 'GLAT-CAR', 'VELO']))
        hdu.header['CTYPE%d' % (i + 1)] = ax
        axes.append(ax.lower())
        val, delta = float(np.round(rng.uniform(-90, 90), 5)), float(np.round(rng.uniform(-1, 1), 5))
        k = rng.random()
        if k > .1:
            hdu.header['CRVAL%d' % (i + 1)] = val
        if k < .8:
            hdu.header['CDELT%d' % (i + 1)] = delta
        if .1 < k < .8:
            name = {'RA': 'ra', 'GL': 'ra' if ax.startswith('GLON') else 'dec', 'DE': 'dec', 'FR': 'freq'}.get(ax[:2])
            if name:
                want[name], want['d_' + name] = val, delta
    for key, name in (('OBJECT', 'object'), ('TELESCOP', 'telescope'), ('INSTRUME', 'instrument'), ('OBSERVER', 'observer'), ('DATE-OBS', 'obs_date'), ('ORIGIN', 'origin'), ('DATE', 'cur_date')):
        if rng.random() < .5:
            hdu.header[key] = want[name] = str(rng.choice(['cyg', 'PAPER', '2008-12-05', 'x y']))
    if rng.random() < .5:
        hdu.header['EQUINOX'] = want['epoch'] = float(rng.choice([1950., 2000.]))
    old = [None, 0, 1][rng.integers(3)]
    if old is not None:
        hdu.header['TRANSPOS'] = old
    f = os.path.join(mon.tmp(), 'o.fits')
    hdu.writeto(f)
    got, k = aipy.img.from_fits(f)
    mon.eq(np.asarray(got), d.T if old else d, 'data of an image of another program', transposed=bool(old))
    mon.ev('old_order', int(bool(old)))
    mon.eq(list(k.pop('axes')), axes, 'axes of an image of another program')
    mon.eq(k, want, 'keywords of an image of another program')
    mon.ev('other_images')
    mon.case('o', axes, str(dt), d.shape, old, tuple(sorted(want)))


@P.workload(quick=1500, thorough=15000)
def wrapped(rng, mon):
    """Lines that are wrapped for a FITS history keep all their characters, in order, within the width."""
    width = int(rng.choice([20, 40, 70, 80, int(rng.integers(20, 120))]))
    i1, i2, pre = int(rng.integers(0, 6)), int(rng.integers(0, 11)), str(rng.choice(['', '#', '//']))
    aw = width - 2 - len(pre) - max(i1, i2)
    if aw < 2:
        raise Skip
    words = [''.join(rng.choice(list('abcdefghij0123456789-=./'), size=int(rng.choice([rng.integers(1, 12), rng.integers(1, 3 * width)], p=[.9, .1])))) for _ in range(int(rng.integers(1, 60)))]
    got = aipy.img.word_wrap(' '.join(words), width, i1, i2, pre)
    lines = got.split('\n')
    mon.check(all(len(l) < width for l in lines), 'a wrapped line is too long', width=width, lines=lines)
    mon.check(lines[0].startswith(pre + ' ' * i1) and all(l.startswith(pre + ' ' * i2) for l in lines[1:]), 'prefix and indent of wrapped lines', lines=lines, prefix=pre, indents=(i1, i2))
    mon.eq(''.join(l[len(pre):].replace(' ', '') for l in lines), ''.join(words), 'characters of wrapped lines', width=width)
    mon.eq([w for l in lines for w in l[len(pre):].split()], [w[k:k + aw] for w in words for k in range(0, len(w), aw)], 'words of wrapped lines', width=width, indents=(i1, i2))
    mon.check(not any(l != l.rstrip() for l in lines[1:]), 'blanks at the end of a wrapped line', lines=lines)
    mon.ev('wrapped_lines', len(lines))
    mon.case('w', width, i1, i2, pre, len(words), len(lines))


if __name__ == '__main__':
    P.main()
