"""T02: the flagging, crosstalk and filtering scripts flag and remove what they say, and leave every other value as it was."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import arr, mir, scr
aipy = load()
scr.use(aipy)
from scr import *

P = Prop('T02', rule='an execution runs one script (or the steps of one recipe) on generated observations with planted interference, crosstalk and flags, and compares '
         'every output record with the removal computed from the input, or with the flags its options demand; distinct by script, options and observation',
         assumptions=['xtalk3 -r: every baseline has unflagged data in the normalisation channels', 'executions in which a value lies within 1e-5 of a threshold are skipped',
                      'xrfi_simple selects every baseline (-a all)', 'filter_src uses all polarizations and a given number of delay bins'],
         require=['script_runs', 'new_interpreters', 'records_compared', 'run:xtalk3.py', 'run:xrfi.py', 'run:xrfi_simple.py', 'run:filter_src.py',
                  'reprocessed', 'missing_models', 'bad_integrations', 'raw_powers', 'whole_channels', 'outliers', 'single_flags', 'shared', 'combined', 'from_npz', 'conserved', 'kept_outputs', 'new_outputs'])


def key(r):
    return r.ij, r.vars['pol']


def means(ds):
    """Mean over time of the unflagged data of each cross-correlation."""
    s = {}
    for r in ds.recs:
        if r.ij[0] != r.ij[1]:
            a = s.setdefault(key(r), [np.zeros(len(r.data), 'D'), np.zeros(len(r.data))])
            a[0] += np.where(r.mask, 0, r.data)
            a[1] += ~r.mask
    return {k: a[0] / np.maximum(a[1], 1) for k, a in s.items()}


def subtracted(ds, x):
    return [rec(r, data=r.data - x[key(r)] if key(r) in x else r.data) for r in ds.recs]


def written(mon, cwd, name, ds, want, atol, what, suffix):
    uv, got = read(aipy, os.path.join(cwd, name + suffix), list(ds.types))
    same_recs(mon, got, want, what, tol=0 if atol else None, atol=atol, flagged=True)
    h, h0 = uv['history'], ds.items['history']
    mon.check(h.startswith(h0) and len(h) > len(h0), '%s: history %r of a dataset whose history was %r' % (what, h, h0))
    return got


@P.workload(quick=90, thorough=2500)
def crosstalk(rng, mon):
    """xtalk3 subtracts each baseline's mean, or the profile scaled by each file's gain; autocorrelations stay."""
    nant, nchan = int(rng.integers(2, 5)), int(rng.choice([1, 2, 8, 16, 32]))
    pols = [int(p) for p in rng.choice([-5, -6, -7, -8], size=int(rng.integers(1, 3)), replace=False)]
    t0 = jd(rng)
    dss = []
    for k in range(int(rng.integers(1, 4))):
        ds = obs(rng, early=True, nant=nant, nchan=nchan, pols=pols, t0=t0 + k * .07 + .01, nt=int(rng.integers(1, 6)), dt=.001, flag=float(rng.choice([0, .1, .5])))
        for r in ds.recs:
            if nchan == 1 or r.mask[:max(1, nchan // 2)].all():
                r.mask[0] = False
            if r.ij[0] != r.ij[1]:
                r.data = (r.data + 3 * np.abs(r.data).max() * np.exp(1j * np.arange(nchan) * .1 * (1 + sum(r.ij)))).astype('F')
        dss.append(ds)
    cwd, names = files(rng, mon, dss)
    before = [tree(os.path.join(cwd, n)) for n in names]
    xs = [means(d) for d in dss]
    mode = str(rng.choice(['direct', 'stored', 'reprocessed']))
    gone = []
    if mode == 'direct':
        run(mon, rng, 'xtalk3.py', names, cwd)
    else:
        run(mon, rng, 'xtalk3.py', ['-o'] + names, cwd)
        mon.eq(sorted(x for x in os.listdir(cwd) if x.endswith('x')), [], 'xtalk3 -o wrote a dataset')
        if len(names) > 1 and rng.random() < .4:       # the model of one file got lost
            gone = [int(rng.integers(len(names)))]
            os.remove(os.path.join(cwd, '%f.xtalk.npz' % dss[gone[0]].recs[0].t))
            mon.ev('missing_models')
        if mode == 'reprocessed':
            mon.ev('reprocessed')
            c0 = 0
            c1 = int(rng.integers(max(1, nchan // 2), nchan + 1))
            run(mon, rng, 'xtalk3.py', ['-r', '-c', '%d_%d' % (c0, c1)] + names, cwd)
            gain, prof, cnt = {}, {}, {}
            for k, x in enumerate(xs):
                if k in gone:
                    continue
                for b, v in x.items():
                    a = np.abs(v)
                    g = gain[b, k] = a[c0:c1][a[c0:c1] > 0].mean()
                    prof[b] = prof.get(b, 0) + v / g
                    cnt[b] = cnt.get(b, 0) + (a > 0)
            xs = [{b: gain[b, k] * prof[b] / np.maximum(cnt[b], 1) for b in x} if k not in gone else None for k, x in enumerate(xs)]
        run(mon, rng, 'xtalk3.py', ['-i'] + names, cwd)
    for k, (n, ds) in enumerate(zip(names, dss)):
        mon.eq(tree(os.path.join(cwd, n)), before[k], 'xtalk3 changed its input')
        if k in gone:
            mon.check(not os.path.exists(os.path.join(cwd, n + 'x')), 'xtalk3 -i wrote a file it had no model for')
            continue
        written(mon, cwd, n, ds, subtracted(ds, xs[k]), 1e-5 * top([ds]), 'xtalk3 %s' % mode, 'x')
    mon.case('xtalk', mode, len(dss), nchan, t0)


# ---------------------------------------------------------------- interference
def noisy(rng, nt, nchan, **kw):
    ds = obs(rng, early=True, nt=nt, nchan=nchan, dt=.0005, t0=jd(rng), **kw)
    for r in ds.recs:
        if r.ij[0] == r.ij[1]:
            r.data = (np.abs(r.data).mean() * (10 + rng.normal(size=nchan) * .1)).astype('F') + 0j
        k = rng.random(nchan) < .02
        r.data[k] = r.data[k] * float(rng.choice([10, 100, 1e4]))
        if rng.random() < .05:
            r.data[rng.integers(nchan)] = 0
        r.data = r.data.astype('F')
    return ds


def channels(rng, nchan):
    if rng.random() < .4:
        return [], []
    if rng.random() < .5:
        a = int(rng.integers(nchan))
        b = int(rng.integers(a, nchan))
        return ['-c', '%d_%d' % (a, b)], list(range(a, b + 1))
    c = sorted({int(x) for x in rng.integers(nchan, size=int(rng.integers(1, 4)))})
    return ['-c', ','.join(map(str, c))], c


def flagged(mon, cwd, n, ds, what, suffix, hist=True):
    """The output, whose flags are its own; all else is the input's, and unflagged values are bit for bit."""
    uv, got = read(aipy, os.path.join(cwd, n + suffix), list(ds.types))
    mon.check(len(got) == len(ds.recs), '%s: %d records, want %d' % (what, len(got), len(ds.recs)))
    same_recs(mon, got, [rec(r, mask=np.asarray(g.mask, bool)) for r, g in zip(ds.recs, got)], what)
    h, h0 = uv['history'], ds.items['history']
    mon.check(h.startswith(h0) and len(h) > len(h0), '%s: history %r of a dataset whose history was %r' % (what, h, h0))
    return [np.asarray(g.mask, bool) for g in got]


@P.workload(quick=90, thorough=2000)
def xrfi(rng, mon):
    """xrfi keeps the flags there were, adds the manual ones and outliers, and nothing without cause."""
    mode = str(rng.choice(['none', 'val', 'int', 'both']))
    nant = int(rng.integers(2, 4))
    nt, nchan = (int(rng.integers(30, 80)), int(rng.choice([16, 40]))) if mode in ('int', 'both') else (int(rng.integers(1, 40)), int(rng.choice([8, 16, 64, 128])))
    if mode == 'val' and rng.random() < .6:
        nt, nchan = 60, 64      # enough data for a threshold
    dss = [noisy(rng, nt, nchan, nant=nant, flag=float(rng.choice([0, .02, .1])), autos=True) for _ in range(int(rng.choice([1, 1, 2])))]
    args, chans = channels(rng, nchan)
    if len(chans) > nchan // 2:
        args, chans = [], []
    if mode == 'val' and rng.random() < .6:       # channels and integrations with interference part of the time
        for d in dss:
            ts = sorted({r.t for r in d.recs})
            hot, when = rng.choice(nchan, size=2, replace=False), rng.random(2) * .9
            rows, much = rng.integers(len(ts), size=2), rng.random(2) * .9
            for r in d.recs:
                if r.ij[0] != r.ij[1]:
                    l = np.abs(r.data).mean() * 1e4
                    for c, u in zip(hot, when):
                        if rng.random() < u:
                            r.data[c] = l
                    for t, u in zip(rows, much):
                        if ts[t] == r.t:
                            r.data[rng.random(nchan) < u] = l
    share, reflag, raw = rng.random() < .3, rng.random() < .3, rng.random() < .4
    cwd, names = files(rng, mon, dss)
    nsig = float(rng.choice([2, 4]))
    chthr, intthr = .33, .99
    if rng.random() < .5:
        chthr = round(float(rng.choice([rng.uniform(.02, .3), rng.uniform(.3, .95)])), 3)
        args += ['--ch_thresh', chthr]
    if rng.random() < .5:
        intthr = round(float(rng.uniform(.1, .9)), 3)
        args += ['--int_thresh', intthr]
    if mode in ('int', 'both') and rng.random() < .8:      # integrations of other power than the rest
        for d in dss:
            bad = rng.random(nt) < .06
            ts = sorted({r.t for r in d.recs})
            lev = {}
            for r in d.recs:
                if r.ij[0] == r.ij[1]:
                    l = lev.setdefault(key(r), np.abs(r.data).mean())
                    k = ts.index(r.t)
                    r.data = (l * (1 + rng.normal(size=nchan) * .02) * (30 if bad[k % nt] else 1)).astype('F')
        for n, d in zip(names, dss):
            shutil.rmtree(os.path.join(cwd, n))
            mir.write(aipy, os.path.join(cwd, n), d)
    loud = None
    if mode in ('val', 'both') and nt * nchan >= 3000:
        # interference in one sample of one baseline, a million times the rest
        loud = [(k, int(rng.integers(nchan))) for d in dss[:1] for k, r in enumerate(d.recs) if r.ij[0] != r.ij[1]]
        loud = [loud[int(rng.integers(len(loud)))]]
    args = args + ['-m', mode, '-n', nsig] + ['-s'] * share + ['--reflag'] * reflag + ['--raw'] * raw
    run(mon, rng, 'xrfi.py', args + names, cwd)
    for n, ds in zip(names, dss):
        what = 'xrfi %s %s' % (args, n)
        got = flagged(mon, cwd, n, ds, what, 'r')
        first, base = {}, {}
        for r in ds.recs:
            f = (np.zeros(nchan, bool) if reflag else r.mask) | (r.data == 0)
            f[chans] = True
            base[r.t, key(r)] = f
        by_t = {}
        for r, g in zip(ds.recs, got):
            b = base[r.t, key(r)]
            mon.check(not (b & ~g).any(), '%s: %s at %r: flags of channels %s were not kept or set' % (what, key(r), r.t, np.flatnonzero(b & ~g)[:5]))
            by_t.setdefault(r.t, []).append((r, g))
        if share:
            mon.ev('shared')
            for t, l in by_t.items():
                for r, g in l[1:]:
                    mon.eq(g, l[0][1], '%s: flags of %s and %s differ at %r though shared' % (what, key(r), key(l[0][0]), t))
        for t, l in by_t.items():
            u = np.any([base[t, key(r)] for r, g in l], axis=0)
            for r, g in l:
                w = u if share else base[t, key(r)]
                if mode == 'none':
                    mon.eq(g, w, '%s: flags without cause' % what)
                elif not share:
                    auto = r.ij[0] == r.ij[1]
                    if auto and mode == 'val' or not auto and mode == 'int':
                        mon.eq(g, w, '%s: flags of %s, which this mode does not examine' % (what, key(r)))
                    elif auto:      # by whole integrations
                        mon.check(np.array_equal(g, w) or g.all(), '%s: part of an integration of %s' % (what, key(r)))
                        mon.ev('integrations', int(g.all() and not w.all()))
        if mode in ('int', 'both') and not share:      # those of a baseline that its powers give away
            series = {}
            for r, g in zip(ds.recs, got):
                if r.ij[0] == r.ij[1]:
                    series.setdefault(key(r), []).append((r, g, base[r.t, key(r)]))
            for k, l in series.items():
                l.sort(key=lambda x: x[0].t)
                d = np.ma.array([x[0].data for x in l], mask=[x[2] for x in l])
                bad = np.asarray(aipy.rfi.flag_by_int(d, nsig=nsig, raw=raw)) > 0
                mon.ev('bad_integrations', int(bad.sum()))
                if raw:
                    mon.ev('raw_powers')
                mon.eq(np.array([x[1] for x in l]), np.ma.getmaskarray(d) | bad[:, None], '%s: flags of %s' % (what, k))
        if mode in ('val', 'both'):
            series = {}
            for r, g in zip(ds.recs, got):
                if r.ij[0] != r.ij[1]:
                    series.setdefault(key(r), []).append((r, g, base[r.t, key(r)]))
            for k, l in series.items():
                l.sort(key=lambda x: x[0].t)
                g, b = np.array([x[1] for x in l]), np.array([x[2] for x in l])
                mon.ev('outliers', int((g & ~b).sum()))
                if share or mode == 'both':
                    continue
                # judged by the spectrum without its smooth part: single flags are for what exceeds everything that was left
                taper = nchan / 2 - np.abs(np.arange(nchan) - nchan / 2)
                a = np.abs(np.fft.fft(np.fft.ifft([r.data.astype('D') for r, _, _ in l], axis=1) * taper, axis=1))
                if not g.all():
                    # whatever the threshold, what is flagged by value is above all that is not; whole channels and integrations follow from their shares
                    lines, rows = g.all(axis=0), g.all(axis=1)
                    part = g[~rows][:, ~lines]
                    mon.check(not part.size or (part.sum(axis=0) <= chthr * len(l)).all(), '%s: %s: channels with more than %g of their data flagged were kept' % (what, k, chthr))
                    mon.check(not part.size or (part.sum(axis=1) <= intthr * nchan).all(), '%s: %s: integrations with more than %g of their data flagged were kept' % (what, k, intthr))
                    most = b | (a > a[~g].max() * (1 - 1e-4))
                    for c in np.flatnonzero(lines & ~b[~rows].all(axis=0)):
                        mon.ev('whole_channels')
                        mon.check(most[:, c].sum() > chthr * len(l), '%s: %s: channel %d is flagged in all of %d integrations, %d outliers at most' % (what, k, c, len(l), most[:, c].sum()))
                    for t in np.flatnonzero(rows & ~b[:, ~lines].all(axis=1)):
                        mon.ev('whole_integrations')
                        mon.check(most[t].sum() > intthr * nchan, '%s: %s: all %d channels of integration %d are flagged, %d outliers at most' % (what, k, nchan, t, most[t].sum()))
                one = g & ~b & ~g.all(axis=0)[None] & ~g.all(axis=1)[:, None]
                if one.any() and not g.all():
                    mon.ev('single_flags', int(one.sum()))
                    mon.check(a[one].min() > a[~g].max() * (1 - 1e-4), '%s: %s: a value of %g (without its smooth part) is flagged, one of %g is not' % (
                        what, k, a[one].min(), a[~g].max()))
    mon.case('xrfi', mode, nt, nchan, nsig, tuple(chans), share, reflag, dss[0].recs[0].t)


@P.workload(quick=40, thorough=800)
def loud(rng, mon):
    """A sample a million times the rest is flagged, in its integration and baseline."""
    nt, nchan = int(rng.integers(50, 90)), 64
    ds = obs(rng, early=True, nant=2, nt=nt, nchan=nchan, dt=.0005, t0=jd(rng), flag=0, autos=rng.random() < .5, pols=[-5])
    cross = [k for k, r in enumerate(ds.recs) if r.ij[0] != r.ij[1]]
    k, c = int(rng.choice(cross)), int(rng.integers(nchan))
    lev = np.median(np.abs(ds.recs[k].data))
    for j in cross:
        ds.recs[j].data = (lev * np.exp(rng.normal(size=nchan) * .3) * np.exp(2j * np.pi * rng.random(nchan))).astype('F')
    ds.recs[k].data[c] = 1e6 * lev
    cwd, names = files(rng, mon, [ds])
    run(mon, rng, 'xrfi.py', ['-m', str(rng.choice(['val', 'both'])), '-n', '3'] + names, cwd)
    got = flagged(mon, cwd, names[0], ds, 'xrfi', 'r')
    mon.ev('outliers')
    mon.check(got[k][c], 'interference of 1e6 times the rest at channel %d of integration %d was not flagged (%d samples of it were)' % (c, k, got[k].sum()))
    mon.case('loud', nt, k, c)


def near(x, thr):
    return bool(np.any(np.abs(x - thr) <= 2e-5 * np.abs(thr)))


def simple(ds, chans, df, dt, nsig):
    """Flags of every record as the options define them; None if a value is too near a threshold."""
    out, series = {}, {}
    for r in ds.recs:
        series.setdefault(key(r), []).append(r)
    for k, l in series.items():
        l = sorted(l, key=lambda r: r.t)
        d = np.array([r.data for r in l]).astype('D')
        m = np.array([r.mask for r in l])
        m[:, chans] = True
        if df is not None:
            x = np.abs(d[:, 1:-1] - .5 * (d[:, :-2] + d[:, 2:]))
            s = np.sqrt(np.median(x**2, axis=1))[:, None] * np.ones_like(x)
            if near(x, df * s):
                return None
            m[:, 0] = m[:, -1] = True
            m[:, 1:-1] |= x > df * s
        if dt is not None:
            x = np.abs(d[1:-1] - .5 * (d[:-2] + d[2:]))
            s = np.sqrt(np.median(x**2, axis=0))[None] * np.ones_like(x)
            if near(x, dt * s):
                return None
            m[0] = m[-1] = True
            m[1:-1] |= x > dt * s
        if df is None and dt is None:
            x = np.abs(d)
            thr = np.median(x) + nsig * np.sqrt(np.median((x - np.median(x))**2))
            if near(x, thr):
                return None
            m |= x > thr
        for r, f in zip(l, m):
            out[r.t, key(r)] = f
    return out


def spread(ds, m, thresh):
    """The one mask of each time."""
    c = {}
    for (t, k), f in m.items():
        c[t] = c.get(t, 0) + f.astype(int)
    return {t: x >= thresh for t, x in c.items()}


@P.workload(quick=120, thorough=3000)
def xrfi_simple(rng, mon):
    """xrfi_simple flags exactly what its thresholds say, per baseline or by coincidence."""
    nt, nchan = int(rng.integers(3, 30)), int(rng.choice([4, 8, 16, 64]))
    dss = [noisy(rng, nt, nchan, flag=float(rng.choice([0, .05])), nant=int(rng.integers(2, 4))) for _ in range(int(rng.choice([1, 1, 2])))]
    args, chans = channels(rng, nchan)
    df = dt = None
    nsig = 2.
    k = rng.integers(4)
    if k in (1, 3):
        df = float(rng.choice([2, 3.5, 6]))
        args += ['--df', df]
    if k in (2, 3):
        dt = float(rng.choice([2, 3.5, 6]))
        args += ['--dt', dt]
    if k == 0 and rng.random() < .7:
        nsig = float(rng.choice([1.5, 3, 8]))
        args += ['-n', nsig]
    ms = [simple(d, chans, df, dt, nsig) for d in dss]
    if None in ms:
        raise Skip
    combine = rng.random() < .5
    thresh = 1
    if combine:
        mon.ev('combined')
        args += ['--combine']
        if rng.random() < .7:
            thresh = int(rng.integers(1, 4))
            args += ['-t', thresh]
        for d, m in zip(dss, ms):
            s = spread(d, m, thresh)
            for t, x in list(m):
                m[t, x] = s[t]
    cwd, names = files(rng, mon, dss)
    if combine and rng.random() < .5:       # kept in a file, applied to another observation of the same or other times
        mon.ev('from_npz')
        run(mon, rng, 'xrfi_simple.py', ['-a', 'all'] + args + ['--to_npz', 'm.npz', names[0]], cwd)
        mon.eq([x for x in os.listdir(cwd) if x.endswith('R')], [], 'xrfi_simple --to_npz wrote a dataset')
        run(mon, rng, 'xrfi_simple.py', ['-a', 'all', '--combine', '--from_npz', 'm.npz'] + names, cwd)
        s = {t: f for (t, x), f in ms[0].items()}
        ms = [{(r.t, key(r)): s.get(r.t, np.ones(nchan, bool)) for r in d.recs} for d in dss]
    else:
        run(mon, rng, 'xrfi_simple.py', ['-a', 'all'] + args + names, cwd)
    for n, d, m in zip(names, dss, ms):
        what = 'xrfi_simple %s %s' % (args, n)
        for r, g in zip(d.recs, flagged(mon, cwd, n, d, what, 'R')):
            mon.eq(g, m[r.t, key(r)], '%s: flags of %s at %r' % (what, key(r), r.t))
    mon.case('simple', tuple(map(str, args)), nt, nchan, dss[0].recs[0].t)


# ---------------------------------------------------------------- delay and delay-rate filters
def filtered(ns, ds, src, dw, drw):
    """The part of each cross-correlation within the bins, as the options define it, for unflagged data."""
    out, series = {}, {}
    for r in ds.recs:
        if r.ij[0] != r.ij[1]:
            series.setdefault(key(r), []).append(r)
    allup = []
    for k, l in series.items():
        rows, ups = [], []
        for r in l:
            aa = model(ns, ds, r.vars['pol'], r.t)
            d = r.data.astype('D')
            up = True
            if src is not None:
                s = source(src)
                s.compute(aa)
                try:
                    d = np.asarray(aa.phs2src(d, s, *r.ij)).reshape(-1)
                except aipy.phs.PointingError:
                    up, d = False, d * 0
            allup.append(up)
            rows.append(np.fft.ifft(d))
            ups.append(up)
        d = np.array(rows)
        if drw != -1:
            n = int(np.ceil(len(d) * .1))
            d = np.concatenate([d[:n][::-1], d, d[-n:][::-1]])
            d = np.fft.ifft(d, axis=0)
            d[np.arange(len(d))[drw:(-drw + 1) or None]] = 0
            d = np.fft.fft(d, axis=0)[n:-n]
        d[:, dw:(-dw or None)] = 0
        d = np.fft.fft(d, axis=1)
        for r, x, up in zip(l, d, ups):
            if src is not None:
                aa = model(ns, ds, r.vars['pol'], r.t)
                s = source(src)
                s.compute(aa)
                x = np.asarray(aa.unphs2src(x, s, *r.ij)).reshape(-1) if up else x * 0
            out[r.t, k] = x
    # integrations without the source are gaps that a delay-rate filter deconvolves
    return None if drw != -1 and not all(allup) and any(allup) else out


@P.workload(quick=90, thorough=2000)
def delays(rng, mon):
    """filter_src removes, or extracts, the delays and delay rates near the source (or near zero): the two add up to the input."""
    nt = int(rng.integers(1, 12))
    nant, nchan = int(rng.integers(2, 4)), int(rng.choice([8, 16, 32]))
    flag = 0 if rng.random() < .6 else .1
    ds = obs(rng, early=True, nant=nant, nchan=nchan, nt=nt, t0=jd(rng), dt=float(rng.choice([1e-4, 1e-3, .02])), flag=flag, pols=[int(p) for p in rng.choice([-5, -6, -7, -8], size=int(rng.integers(1, 3)), replace=False)])
    cwd, names = files(rng, mon, [ds])
    ns = cal(rng, nant, cwd)
    src = None if rng.random() < .3 else direction(rng, ds.recs[0].t, model(ns, ds, -5))
    dw = int(rng.integers(0, nchan // 2))
    drw = -1 if nt < 4 or rng.random() < .5 else int(rng.integers(1, 3))
    args = ['-C', 'gencal', '-d', dw, '-r', drw] + (['-s', src] if src else []) + (['--clean', '1e-8'] if flag == 0 else [])
    if rng.random() < .2:       # deconvolves by the passband: not laid down to the digit
        args, flag = ['-P'] + args[:8] + (['-s', src] if src else []), flag or 1e-9
        mon.ev('passband')
    before = tree(os.path.join(cwd, names[0]))
    res = {}
    atol = 3e-5 * top([ds])
    f = filtered(ns, ds, src, dw, drw) if flag == 0 else None
    for e in ([0, 1] if src else [int(rng.integers(2))]):
        run(mon, rng, 'filter_src.py', args + ['-e'] * e + names, cwd)
        suffix = 'f' if src is None else '.e_' + src if e else '.f_' + src
        uv, got = read(aipy, os.path.join(cwd, names[0] + suffix), list(ds.types))
        mon.check(len(got) == len(ds.recs), 'filter_src %s: %d records, want %d' % (args, len(got), len(ds.recs)))
        res[e] = got
        want = [rec(r) for r in ds.recs]
        for w, g in zip(want, got):
            if w.ij[0] != w.ij[1]:
                if f is None:
                    w.data = g.data
                else:
                    x = f[w.t, key(w)]
                    w.data = x if e else w.data - x
        if f is not None:
            mon.ev('filtered')
        same_recs(mon, got, want, 'filter_src %s%s' % (args, ' -e' * e), tol=0, atol=atol)
        mon.check(uv['history'].startswith(ds.items['history']) and uv['history'] != ds.items['history'], 'history %r' % uv['history'])
    mon.eq(tree(os.path.join(cwd, names[0])), before, 'filter_src changed its input')
    if len(res) == 2:
        mon.ev('conserved')
        for r, a, b in zip(ds.recs, res[0], res[1]):
            if r.ij[0] != r.ij[1]:
                ok = ~r.mask
                mon.close((a.data + b.data)[ok], r.data[ok], atol * 2, 'filter_src %s: removed and extracted parts of %s do not add up' % (args, key(r)))
    mon.case('filter', nt, nchan, dw, drw, src, flag, ds.recs[0].t)


@P.workload(quick=40, thorough=800)
def kept(rng, mon):
    """Outputs that exist are left alone, those of the other inputs are written."""
    script = str(rng.choice(['xrfi.py', 'xrfi_simple.py', 'xtalk3.py', 'filter_src.py']))
    dss = [obs(rng, early=True, nant=2, nchan=8, nt=3, pols=[-5], autos=True, t0=jd(rng), flag=0) for _ in range(int(rng.integers(1, 4)))]
    for d in dss:
        for r in d.recs:
            r.vars.update({k: dss[0].recs[0].vars[k] for k in ('sfreq', 'sdf')})
    cwd, names = files(rng, mon, dss)
    cal(rng, 2, cwd)
    args, suffix = {'xrfi.py': (['-m', 'val'], 'r'), 'xrfi_simple.py': (['-a', 'all', '-n', '3'], 'R'), 'xtalk3.py': ([], 'x'),
                    'filter_src.py': (['-C', 'gencal', '-d', 2], 'f')}[script]
    existing(rng, mon, script, args, cwd, names, [n + suffix for n in names], [len(d.recs) for d in dss])


P.main()
