"""T05: the plotting scripts draw the data that their options select."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir, scr, hpx, figs
from scr import POL, calobs
aipy = load()
scr.use(aipy)
figs.install()
import ephem

P = Prop('T05', rule='an execution runs plot_uv, plot_img or plot_map on generated files with generated options, with matplotlib hooked so that everything drawn is recorded '
         'when a figure is saved or shown, and compares images, lines, scales, axes, titles and labels with what the options say',
         assumptions=['matplotlib draws what it is given', 'every baseline is in every integration', 'maps are drawn in the cylindrical projection (basemap is not installed)'],
         require=['script_runs', 'new_interpreters', 'run:plot_uv.py', 'run:plot_img.py', 'run:plot_map.py', 'waterfalls', 'curves', 'delay', 'fringe', 'shared', 'phased',
                  'image_panels', 'batches', 'map_pixels', 'labels', 'masked_maps'])


def plot(mon, rng, script, args, cwd, out, real=.04):
    """Run a plotting script, saving to a file or showing; what it drew."""
    if rng.random() < real:
        scr.run(mon, rng, script, args + ['-o', 'real.png'], cwd, real=1)
        with open(os.path.join(cwd, 'real.png'), 'rb') as f:
            mon.check(f.read(8) == b'\x89PNG\r\n\x1a\n', '%s wrote no image' % script)
    log = os.path.join(cwd, '.figs')
    os.environ['AIPY_FIGS'] = log
    try:
        save = rng.random() < .5
        r = scr.run(mon, rng, script, args + (['-o', out] if save else []), cwd, real=0)
    finally:
        del os.environ['AIPY_FIGS']
    got = figs.read(log)
    m = '%s %s' % (script, ' '.join(map(str, args)))
    mon.eq([w for w, _ in got], [out if save else 'show'], m + ': figures saved and shown')
    mon.eq(os.path.exists(os.path.join(cwd, out)), save, m + ': output file')
    return m, got[0][1]


def mode_of(d, mode):
    """What is drawn of masked data, and how to compare it: values mapped so that a tolerance relative to the largest makes sense."""
    z = d.filled(0)
    if mode == 'phs':
        return np.ma.array(np.angle(z)), lambda x: np.exp(1j * x) * np.abs(z)
    if mode == 'real':
        return d.real, lambda x: x
    if mode == 'imag':
        return d.imag, lambda x: x
    x = np.ma.masked_less_equal(np.ma.array(np.abs(z)), 0)
    if mode == 'lin':
        return x, lambda x: x
    return np.ma.log10(x), lambda x: 10. ** x


def same_drawn(mon, got, want, norm, tol, m):
    got, want = np.ma.array(got), np.ma.array(want)
    mon.eq(got.shape, want.shape, m + ': shape')
    g, w = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    gz, wz = norm(np.ma.filled(got.astype('d'), 0)), norm(np.ma.filled(want.astype('d'), 0))
    top = np.abs(np.where(w, 0, wz)).max() if wz.size else 0
    both = ~g & ~w
    small = np.abs(np.where(w, 0, wz)) <= tol * top     # may be exactly zero in one and rounding in the other
    small |= np.abs(np.where(g, 0, gz)) <= tol * top
    mon.check((g == w)[~small].all(), m + ': masked samples')
    mon.close(np.where(both, gz, 0), np.where(both, wz, 0), tol * top + 1e-30, m)


WIN = ['blackman', 'blackman-harris', 'hamming', 'hanning', 'none', 'parzen', 'barthann']


def window(name, n):
    if n == 1 or name == 'none':
        return np.ones(n)
    x = np.arange(n) / (n - 1.)
    c = {'blackman': [.42, -.5, .08], 'blackman-harris': [.35875, -.48829, .14128, -.01168], 'hamming': [.54, -.46], 'hanning': [.5, -.5]}
    if name in c:
        return sum(a * np.cos(2 * np.pi * k * x) for k, a in enumerate(c[name]))
    if name == 'parzen':
        return 1 - np.abs(n / 2. - np.arange(n)) / (n / 2.)
    f = np.abs(x - .5)
    return .62 - .48 * f + .38 * np.cos(2 * np.pi * f)


def edges(n):
    """Bins of a centred transform of n samples."""
    return np.arange(n) - n // 2


@P.workload(quick=360, thorough=6000)
def waterfall(rng, mon):
    """plot_uv draws each baseline and polarization selected, integration by integration, as asked."""
    nant = int(rng.integers(2, 5))
    nchan = int(rng.choice([1, 2, 3, 5, 8, 16, 31]))
    nds = int(rng.choice([1, 1, 2]))
    pols = [int(p) for p in rng.choice(scr.LINEAR, size=int(rng.choice([1, 1, 2, 3])), replace=False)]
    t0 = scr.jd(rng)
    dss = []
    for k in range(nds):
        nt = int(rng.integers(1, 8))
        dss.append(scr.obs(rng, nant=nant, nchan=nchan, nt=nt, pols=pols, autos=True, t0=t0, flag=float(rng.choice([0, .1, .3])), dt=10. / 86400))
        t0 += nt * 10. / 86400 + float(rng.choice([0, .1]))
    f = {k: dss[0].recs[0].vars[k] for k in ('sfreq', 'sdf')}
    for d in dss:
        for r in d.recs:
            r.vars.update(f)
    cwd, names = scr.files(rng, mon, dss)
    args, phased = [], None
    # --- what is selected
    how = str(rng.choice(['all', 'cross', 'auto', 'pairs', 'ants', 'default']))
    allbl = [(i, j) for i in range(nant) for j in range(i, nant)]
    turned = set()
    if how == 'pairs':
        sel = [allbl[k] for k in rng.permutation(len(allbl))[:rng.integers(1, len(allbl) + 1)]]
        turned = {b for b in sel if rng.random() < .3 and b[0] != b[1]}
        args += ['-a', ','.join('%d_%d' % (b[::-1] if b in turned else b) for b in sel)]
    elif how == 'ants':
        keep = [int(x) for x in rng.choice(nant, size=int(rng.integers(1, nant + 1)), replace=False)]
        sel = [b for b in allbl if b[0] in keep or b[1] in keep]
        args += ['-a', ','.join(map(str, keep))]
    else:
        sel = [b for b in allbl if how == 'all' or (b[0] == b[1]) == (how == 'auto')]
        args += [] if how == 'default' else ['-a', how]
    psel = pols
    if rng.random() < .6:
        psel = [int(p) for p in rng.choice(pols, size=int(rng.integers(1, len(pols) + 1)), replace=False)]
        args += ['-p', ','.join(POL[p] for p in psel)]
    chans = np.arange(nchan)
    c = rng.random()
    if c < .2:
        lo = int(rng.integers(nchan))
        hi = int(rng.integers(lo, nchan))
        chans = np.arange(lo, hi + 1)
        args += ['-c', '%d_%d' % (lo, hi)]
    elif c < .4:
        chans = np.array([int(x) for x in rng.choice(nchan, size=int(rng.integers(1, min(nchan, 4) + 1)), replace=False)])
        args += ['-c', ','.join(map(str, chans))]
    dec, dphs = (int(rng.integers(2, 4)), 0) if rng.random() < .15 else (1, 0)
    if dec > 1:
        dphs = int(rng.integers(dec))
        args += ['-x', dec] + (['--dphs', dphs] if dphs or rng.random() < .5 else [])
    taxis = str(rng.choice(['index', 'physical', 'lst'], p=[.5, .35, .15]))
    caxis = str(rng.choice(['index', 'physical']))
    delay, fringe = rng.random() < .25, rng.random() < .25
    each = [None, None, 'time', 'chan'][rng.integers(4)]
    diff = [x for x in ('--dt', '--df') if each is None and rng.random() < .12]
    # --- the integrations read, and those of them drawn
    rows, times, lsts = {}, [], []
    for ds in dss:
        n, last = -1, None
        for r in ds.recs:
            if r.ij not in sel or r.vars['pol'] not in psel:
                continue
            if r.t != last:
                n, last = n + 1, r.t
            if n % dec != dphs:
                continue
            if not times or times[-1] != r.t:
                times.append(r.t)
                lsts.append(r.vars['lst'])
            rows.setdefault((r.ij, r.vars['pol']), []).append(r)
    if not times:
        raise Skip
    use = list(range(len(times)))
    if dec == 1 and rng.random() < .35:
        n = len(times)
        if rng.random() < .5:
            lo = int(rng.integers(n))
            hi = int(rng.integers(lo + 1, n + 2))
            use = [k for k in use if lo <= k < hi]
            if taxis == 'index':
                args += ['-t', '%d_%d' % (lo, hi)]
            else:
                args += ['-t', '%.7f_%.7f' % (times[lo] - 2e-5, (times + [times[-1] + 1])[min(hi, n)] - 2e-5)]
        else:
            use = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
            if taxis == 'index':
                args += ['-t', ','.join(map(str, use))]
            else:
                args += ['-t', ','.join('%.7f' % (times[k] - 2e-5) for k in use)]
    unmask = rng.random() < .25
    args += (['-u'] if unmask else []) + (['-d'] if delay else []) + (['-f'] if fringe else []) + diff
    win = 'blackman-harris'
    if (delay or fringe) and rng.random() < .6:
        win = str(rng.choice(WIN))
        args += ['--window', win]
    mode = 'log'
    if rng.random() < .7:
        mode = str(rng.choice(['log', 'lin', 'phs', 'real', 'imag']))
        args += ['-m', mode]
    args += ['--time_axis', taxis] if taxis != 'index' or rng.random() < .3 else []
    args += ['--chan_axis', caxis] if caxis != 'index' or rng.random() < .3 else []
    args += ['--plot_each', each] if each else []
    nt, nc = len(use), len(chans)
    if (delay and nc < 2) or (caxis == 'physical' and nc < 2) or (each is None and nt < 2) or ('--df' in diff and nc < 4) or ('--dt' in diff and nt < 4) \
            or (taxis == 'lst' and (fringe or each == 'time')):
        raise Skip
    share = rng.random() < .25
    args += ['--share'] if share else []
    top = drng = None
    if rng.random() < .2:
        top = round(float(rng.uniform(-1, 4)), 2)
        args += ['--max', repr(top)]
    if top is not None or rng.random() < .2:
        drng = round(float(rng.uniform(.5, 4)), 2)
        args += ['--drng', repr(drng)]
    xlim = ylim = None
    if rng.random() < .2:
        xlim = (round(float(rng.uniform(0, 5)), 2), round(float(rng.uniform(6, 20)), 2))
        args += ['--xlim', '%r_%r' % xlim]
    if rng.random() < .2:
        ylim = (round(float(rng.uniform(0, 5)), 2), round(float(rng.uniform(6, 20)), 2))
        args += ['--ylim', '%r_%r' % ylim]
    legend = each is not None
    if rng.random() < .2:
        args += ['--nolegend']
        legend = False
    if rng.random() < .3:
        args += ['--cmap', str(rng.choice(['gray', 'hot', 'jet']))]
    src = None
    if len(psel) == 1 and '-p' in args and rng.random() < .25:
        own = scr.own_sources(rng, 2)
        ns = scr.cal(rng, nant, cwd, srcs=own)
        aa = ns['get_aa'](np.array([.15]))
        aa.set_jultime(times[0])
        ra, dec_ = float(aa.sidereal_time()) % (2 * np.pi), float(np.clip(aa.lat + rng.uniform(-.3, .3), -1.5, 1.5))
        src = '%s_%s' % (ephem.hours(ra), ephem.degrees(dec_))
        args += ['-C', 'gencal', '-s', src]
        mon.ev('phased')
        if taxis == 'lst':
            raise Skip
    # --- what should be drawn
    panels = []
    for (ij, pol) in sorted(rows, key=lambda k: (k[0], -k[1])):
        out = []
        for k in use:
            r = rows[ij, pol][k]
            x = r.data.astype('F').astype('D')[chans]
            mk = np.asarray(r.mask, bool)[chans]
            if ij in turned:
                x = x.conj()
            if src:
                a = scr.model(ns, dss[0], pol, r.t)
                a.select_chans(chans)
                s = scr.source(src)
                s.compute(a)
                if s.alt < .05:
                    raise Skip
                x = np.asarray(a.phs2src(x, s, *ij)).reshape(x.shape)
            if delay:
                x = x if unmask else np.where(mk, 0, x)
                x = np.fft.fftshift(np.fft.ifft(x * window(win, nc)))
                mk = np.zeros(nc, bool)
            out.append(np.ma.array(x, mask=np.zeros(nc, bool) if unmask else mk))
        d = np.ma.concatenate([o[None] for o in out], axis=0)
        if '--df' in diff:
            d = d[:, :-2] / 2 + d[:, 2:] / 2 - d[:, 1:-1]
        if '--dt' in diff:
            d = d[:-2] / 2 + d[2:] / 2 - d[1:-1]
        if fringe:
            d = np.ma.array(np.fft.fftshift(np.fft.ifft(d.filled(0) * window(win, d.shape[0])[:, None], axis=0), axes=0))
        v, norm = mode_of(d, mode)
        if np.ma.getmaskarray(v).all() or not np.isfinite(np.ma.filled(v.astype('d'), 0)).all():
            raise Skip
        panels.append((ij, pol, d, v, norm))
    m, axes_ = plot(mon, rng, 'plot_uv.py', args + names, cwd, 'plot.png')
    tol = 3e-5
    title = lambda ij, pol: '%d%s,%d%s ' % (ij[0], POL[pol][0], ij[1], POL[pol][1])
    if share:
        mon.eq(len(axes_), 1, m + ': frames')
        mon.eq(axes_[0]['title'], '', m + ': title')
    else:
        mon.eq([a['title'] for a in axes_], [title(ij, pol) for ij, pol, *_ in panels], m + ': panels')
    # --- axes
    sdf, sf = f['sdf'], f['sfreq']
    fq = sf + chans * sdf
    inttime = 10. * dec
    if delay:
        cx = edges(nc) if caxis == 'index' else edges(nc) / (nc * (fq[1] - fq[0]))
        xl = 'Delay (bins)' if caxis == 'index' else 'Delay (ns)'
    else:
        cx = (np.arange(nc) if each != 'time' else chans) if caxis == 'index' else fq
        xl = 'Frequency (chan)' if caxis == 'index' else 'Frequency (GHz)'
    if fringe:
        tx = edges(nt) if taxis == 'index' else edges(nt) / (nt * inttime) * 1e3
        tl = 'Delay-Rate (bins)' if taxis == 'index' else 'Delay-Rate (milliHz)'
    else:
        tx = {'index': np.array(use) if each is None else np.arange(nt), 'physical': np.array(times)[use], 'lst': np.array(lsts)[use] * (12 / np.pi if each is None else 1)}[taxis]
        tl = {'index': 'Time (integrations)', 'physical': 'Time (Julian Date)' if each is None else 'Time (JD)', 'lst': 'Local Sideral time (hrs)' if each is None else 'Time (Sidereal Radians)'}[taxis]
    lo = hi = None
    for k, (ij, pol, d, v, norm) in enumerate(panels):
        ax = axes_[0 if share else k]
        what = '%s: %s %s' % (m, title(ij, pol), mode)
        if not share:
            lo = hi = None
        hi = top if top is not None else float(v.max()) if hi is None else max(hi, float(v.max()))
        lo = hi - drng if drng is not None else float(v.min()) if lo is None else min(lo, float(v.min()))
        lab = title(ij, pol) if share else ''
        scale = np.abs(v).max() if mode in ('lin', 'real', 'imag') else 1.
        if each is None:
            mon.check(len(ax['images']) == (len(panels) if share else 1) and not ax['lines'], '%s: %d images' % (what, len(ax['images'])))
            im = ax['images'][k if share else 0]
            same_drawn(mon, im['data'], v, norm, tol, what)
            mon.eq(im['origin'], 'upper', what + ': origin')
            mon.eq(im['cmap'], args[args.index('--cmap') + 1] if '--cmap' in args else 'jet', what + ': colors')
            if not diff:
                st, sc = tx[1] - tx[0], (cx[1] - cx[0] if nc > 1 else 1.)
                w = [cx[0] - .5 * sc, cx[-1] + .5 * sc, tx[-1] + .5 * st, tx[0] - .5 * st]
                mon.close(np.array(im['extent'][:2]), np.array(w[:2]), 1e-7 * max(np.abs(w[:2])), what + ': extent in channels')
                if fringe or use == list(range(use[0], use[-1] + 1)):
                    mon.close(np.array(im['extent'][2:]), np.array(w[2:]), 1e-7 * max(1, abs(st)) if taxis != 'lst' or fringe else 1e-5, what + ': extent in time')
            if lo < hi and mode != 'phs' and (mode != 'log' or not (delay or fringe or diff)):
                mon.close(np.array(im['clim'], float), np.array([lo, hi]), tol * (scale + abs(lo) + abs(hi)), what + ': range of colors')
            mon.ev('waterfalls')
        else:
            n = nt if each == 'time' else nc
            mon.eq(len(ax['lines']), n * (len(panels) if share else 1), what + ': number of curves')
            for q in range(n):
                l = ax['lines'][q + (n * k if share else 0)]
                wy, wx = (v[q], cx) if each == 'time' else (v[:, q], tx)
                nq = (lambda x, z=(d[q] if each == 'time' else d[:, q]).filled(0): np.exp(1j * x) * np.abs(z)) if mode == 'phs' else norm
                same_drawn(mon, l['y'], wy, nq, tol, what + ' curve %d' % q)
                mon.close(np.ma.filled(l['x'].astype('d'), np.nan), wx.astype(float), 1e-9 * (1 + np.abs(wx).max()), what + ': places on the x axis')
                if each == 'time':
                    wl = lab + ('#%d' % use[q] if taxis == 'index' else 'jd%f' % times[use[q]])
                else:
                    wl = lab + ('#%d' % chans[q] if caxis == 'index' else '%f GHz' % fq[q])
                mon.eq(l['label'], wl, what + ': label')
                mon.ev('curves')
            last = k == len(panels) - 1
            if not share or last:
                mon.eq(ax['legend'], legend and last, what + ': legend')
        if each is None:
            mon.eq((ax['xlabel'], ax['ylabel']), (xl, tl), what + ': axes')
        else:
            mon.eq(ax['xlabel'], xl if each == 'time' else tl, what + ': axis')
        if xlim:
            mon.eq(ax['xlim'], xlim, what + ': x range')
        if ylim:
            mon.eq(ax['ylim'], ylim[::-1] if each is None else ylim, what + ': y range')
        elif each is not None and not share and mode != 'phs' and lo < hi and (mode != 'log' or not (delay or fringe)):
            mon.close(np.array(ax['ylim']), np.array([lo, hi]), tol * (scale + abs(lo) + abs(hi)), what + ': y range')
    mon.ev('delay', int(delay))
    mon.ev('fringe', int(fringe))
    mon.ev('shared', int(share))
    mon.case('plot_uv', tuple(map(str, args)), nds, nt, nchan)


AX = [('ra---sin', 'dec--sin', 'freq', 'stokes'), ('ra---sin', 'dec--sin', 'stokes', 'freq'), ('ra---sin', 'dec--sin', 'freq'), ('ra---sin', 'dec--sin'), ('dec--sin', 'ra---sin'),
      ('dec--sin', 'ra---sin', 'stokes'), ('ra---sin', 'dec--sin', 'stokes')]


@P.workload(quick=200, thorough=5000)
def images(rng, mon):
    """plot_img draws the plane asked for of each image, right ascension and declination in order."""
    cwd = mon.tmp()
    n = int(rng.choice([1, 1, 2, 3, 5]))
    axes_ = AX[rng.integers(len(AX))]
    size = {'ra': int(rng.integers(2, 12)), 'de': int(rng.integers(2, 12)), 'fr': int(rng.integers(2, 6)), 'st': int(rng.integers(2, 5))}
    data, names = [], []
    for k in range(n):
        d = (rng.normal(size=[size[a[:2]] for a in axes_]) * 10. ** rng.uniform(-2, 3)).astype(np.float32)
        if rng.random() < .3:
            d = np.abs(d)
        if rng.random() < .2:
            d.flat[int(rng.integers(d.size))] = 0
        names.append('i%d.fits' % k)
        aipy.img.to_fits(os.path.join(cwd, names[-1]), d, axes=axes_, ra=10., dec=20., d_ra=.1, d_dec=.1)
        data.append(d)
    args = ['--nogrid']
    chans = list(range(size['fr']))
    if 'freq' in axes_ and rng.random() < .5:
        chans = sorted(int(x) for x in rng.choice(size['fr'], size=int(rng.integers(1, size['fr'] + 1)), replace=False))
        args += ['-c', ','.join(map(str, chans))]
    pol = 0
    if 'stokes' in axes_ and rng.random() < .6:
        pol = int(rng.integers(size['st']))
        args += ['-p', pol]
    mode = 'log'
    if rng.random() < .7:
        mode = str(rng.choice(['log', 'lin', 'phs', 'real', 'imag']))
        args += ['-m', mode]
    fft = rng.random() < .3
    args += ['-f'] if fft else []
    top = drng = None
    if rng.random() < .3:
        top = round(float(rng.uniform(-1, 4)), 2)
        args += ['--max', repr(top)]
    if top is not None or rng.random() < .3:
        drng = round(float(rng.uniform(.5, 4)), 2)
        args += ['--drng', repr(drng)]
    if rng.random() < .3:
        args += ['--cmap', str(rng.choice(['gray', 'hot', 'jet']))]
    want = []
    for d in data:
        for k in reversed(range(len(axes_))):
            if axes_[k] == 'freq':
                d = d.take(chans, axis=k).mean(axis=k, dtype='d')
            elif axes_[k] == 'stokes':
                d = d.take(pol, axis=k)
        d = np.asarray(d, 'd')
        if axes_[0].startswith('dec'):
            d = d.T
        if fft:
            d = np.fft.fft2(d)
            d = np.roll(d, (-(d.shape[0] // 2), -(d.shape[1] // 2)), axis=(0, 1))
        want.append(np.ma.array(d))
    if any(not np.abs(w).max() for w in want):
        raise Skip
    batch = rng.random() < .35
    figs_ = []
    if batch:
        log = os.path.join(cwd, '.figs')
        have = [nm for nm in names if n > 1 and rng.random() < .25]
        for nm in have:
            with open(os.path.join(cwd, nm + '.png'), 'w') as f:
                f.write('mine')
        os.environ['AIPY_FIGS'] = log
        try:
            scr.run(mon, rng, 'plot_img.py', args + ['--batch'] + names, cwd, real=0)
        finally:
            del os.environ['AIPY_FIGS']
        m = 'plot_img.py %s --batch' % ' '.join(map(str, args))
        got = figs.read(log)
        todo = [k for k in range(n) if names[k] not in have]
        mon.eq([w for w, _ in got], [names[k] + '.png' for k in todo], m + ': figures saved')
        for nm in have:
            mon.eq(open(os.path.join(cwd, nm + '.png')).read(), 'mine', m + ': a figure that existed')
        figs_ = [(k, s) for k, (_, s) in zip(todo, got)]
        for k, s in figs_:
            mon.eq(len(s), 1, m + ': frames of %s' % names[k])
        figs_ = [(k, s[0]) for k, s in figs_]
        mon.ev('batches')
    else:
        m, s = plot(mon, rng, 'plot_img.py', args + names, cwd, 'plot.png')
        mon.eq(len(s), n, m + ': frames')
        figs_ = list(enumerate(s))
    for k, ax in figs_:
        what = '%s: %s' % (m, names[k])
        mon.eq(ax['title'], names[k], what + ': title')
        mon.eq(len(ax['images']), 1, what + ': images')
        im = ax['images'][0]
        v, norm = mode_of(want[k], mode)
        if mode == 'lin':
            v = np.ma.array(v.data)      # zeros are drawn
        same_drawn(mon, im['data'], v, norm, 1e-5, what)
        mon.eq(im['origin'], 'lower', what + ': origin')
        mon.eq(im['cmap'], args[args.index('--cmap') + 1] if '--cmap' in args else 'jet', what + ': colors')
        hi = top if top is not None else float(v.max())
        lo = hi - drng if drng is not None else float(v.min())
        if lo < hi and mode != 'phs' and not (fft and mode == 'log'):
            sc = np.abs(v).max() + abs(hi) + abs(lo)
            mon.close(np.array(im['clim'], float), np.array([lo, hi]), 1e-5 * (sc + (np.abs(want[k]).max() if mode != 'log' else 1)), what + ': range of colors')
        mon.ev('image_panels')
    mon.case('plot_img', tuple(map(str, args)), axes_, n, batch)


def place(sys_, lon, lat, osys, iep, oep):
    """A direction in system sys_ (epoch oep), as a vector in osys (epoch iep)."""
    C = {'eq': ephem.Equatorial, 'ga': ephem.Galactic, 'ec': ephem.Ecliptic}
    c = C[sys_](lon, lat, epoch=oep)
    q = C[osys](c, epoch=iep)
    a, b = (q.ra, q.dec) if osys == 'eq' else (q.lon, q.lat)
    return np.array([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)])


@P.workload(quick=120, thorough=3000)
def skies(rng, mon):
    """plot_map puts each direction of the sky where it belongs, and labels the sources."""
    cwd = mon.tmp()
    nside = int(rng.choice([1, 2, 4, 8, 16]))
    dt = [np.float32, np.float64][rng.integers(2)]
    h = aipy.map.Map(nside=nside)
    npix = 12 * nside**2
    val = (rng.normal(size=npix) * 10. ** rng.uniform(-1, 3)).astype(dt)
    if rng.random() < .5:
        val = np.abs(val)
    wgt = np.where(rng.random(npix) < .2, 1e-5, 1.).astype(dt) * float(rng.choice([1, 7.]))
    h.map.map, h.wgt.map = (val * wgt).astype(np.float64), wgt.astype(np.float64)
    h.to_fits(os.path.join(cwd, 'm.fits'))
    res = float(rng.choice([5, 10, 12, 20, 7.5]))
    args = ['-p', 'cyl', '--res', repr(res)]
    osys, isys = [str(rng.choice(['eq', 'eq', 'ga', 'ec'])) for _ in range(2)]
    args += ['--osys', osys] if osys != 'eq' or rng.random() < .3 else []
    args += ['--isys', isys] if isys != 'eq' or rng.random() < .3 else []
    ep = []
    for o in ('--iepoch', '--oepoch'):
        e = float(ephem.J2000)
        if rng.random() < .3:
            e = round(float(ephem.J2000) + float(rng.uniform(-20000, 20000)), 3)
            args += [o, repr(e)]
        ep.append(e)
    cen = 180. if osys == 'eq' else 0.
    if rng.random() < .5:
        cen = float(rng.choice([0, 45, 90, 180, 270]))
        args += ['-c', repr(cen)]
    mode = 'log'
    if rng.random() < .6:
        mode = str(rng.choice(['log', 'lin']))
        args += ['-m', mode]
    mask = None
    if rng.random() < .3:
        mask = 30.
        args += ['--mask', '30']
    top = drng = None
    if rng.random() < .3:
        top = round(float(rng.uniform(-1, 3)), 2)
        args += ['--max', repr(top)]
    if top is not None or rng.random() < .3:
        drng = round(float(rng.uniform(.5, 4)), 2)
        args += ['--drng', repr(drng)]
    if rng.random() < .3:
        args += ['--nobar']
    if rng.random() < .3:
        args += ['--cmap', str(rng.choice(['gray', 'hot', 'jet']))]
    own = []
    if rng.random() < .6:
        own = scr.own_sources(rng, int(rng.integers(1, 4)))
        scr.cal(rng, 1, cwd, srcs=own)
        args += ['-C', 'gencal', '-s', ','.join(s['name'] for s in own)]
    m, axes_ = plot(mon, rng, 'plot_map.py', args + ['m.fits'], cwd, 'map.png')
    mon.eq(len(axes_), 1, m + ': frames')
    ax = axes_[0]
    mon.eq(len(ax['images']), 1, m + ': images')
    im = ax['images'][0]
    got = np.ma.array(im['data'])
    nx, ny = int(360 / res), int(180 / res)
    mon.eq(got.shape, (ny, nx), m + ': shape')
    mon.eq((im['origin'], im['extent']), ('upper', (-2., 2., -1., 1.)), m + ': extent')
    mon.check(not np.ma.getmaskarray(got).any(), m + ': masked directions')
    eff = np.asarray(val, float)
    good = wgt > .001 * wgt.max()
    x = 4. * np.arange(nx) / nx - 2
    y = 1 - 2. * np.arange(ny) / ny
    want, known = np.zeros((ny, nx)), np.zeros((ny, nx), bool)
    seen = []
    for i in range(ny):
        for j in range(nx):
            lon, lat = np.radians(cen - 90 * x[j]), np.radians(90 * y[i])
            if i == 0:
                lon = 0.
            v = place(osys, lon, lat, isys, *ep)
            p = hpx.ang2pix(nside, v[2], np.arctan2(v[1], v[0]), False, eps=2e-4 * nside)
            if p is None:
                continue
            known[i, j] = True
            want[i, j] = eff[p] if mask is None or good[p] else 0
    if not known.any():
        raise Skip
    with np.errstate(divide='ignore'):
        w = np.log10(np.abs(want)) if mode == 'log' else want
    full = known.all()
    lo, hi = im['clim']
    if top is not None:
        mon.close(hi, top, 1e-9 * (1 + abs(top)), m + ': largest color')
    elif full:
        mon.close(hi, w[known].max(), 1e-5 * np.abs(w[np.isfinite(w)]).max(), m + ': largest color')
    else:
        mon.check(hi >= w[known].max() - 1e-5 * (1 + abs(hi)), m + ': largest color')
    if drng is not None:
        mon.close(lo, hi - drng, 1e-5 * (abs(hi) + drng), m + ': smallest color')
    elif full:
        s = max(w[known].min(), hi - 10)
        mon.close(lo, s, 1e-5 * (np.abs(s) + abs(hi)), m + ': smallest color')
    mon.eq(im['cmap'], args[args.index('--cmap') + 1] if '--cmap' in args else 'jet', m + ': colors')
    w = np.clip(w, lo, hi) if lo < hi else w
    if lo < hi:
        mon.close(np.where(known, got.filled(0), 0), np.where(known, w, 0), 2e-5 * (np.abs(w[known]).max() + 1 * (mode == 'log')), m + ': pixels')
        mon.ev('map_pixels', int(known.sum()))
    mon.ev('masked_maps', int(mask is not None))
    if own:
        mon.eq(sorted(t[2] for t in ax['texts']), sorted(s['name'] for s in own), m + ': labels')
        for tx, ty, name in ax['texts']:
            s = [s for s in own if s['name'] == name][0]
            C = {'eq': ephem.Equatorial, 'ga': ephem.Galactic, 'ec': ephem.Ecliptic}[osys]
            q = ephem.Equatorial(ephem.hours(s['ra']), ephem.degrees(s['dec']), epoch=ephem.J2000)
            q = C(q, epoch=ep[1]) if osys != 'eq' else q
            lon, lat = (q.ra, q.dec) if osys == 'eq' else (q.lon, q.lat)
            wx = (cen - np.degrees(lon)) / 90
            mon.close(((tx - .001 - wx + 2) % 4) - 2 if abs(((tx - .001 - wx + 2) % 4) - 2) < 1.9 else 2., 0., .02 / max(np.cos(lat), .02), m + ': place of %s from left to right' % name)
            mon.close(ty - .001, np.degrees(lat) / 90, .01, m + ': height of %s' % name)
            mon.ev('labels')
    mon.case('plot_map', tuple(map(str, args)), nside)


if __name__ == '__main__':
    P.main()
