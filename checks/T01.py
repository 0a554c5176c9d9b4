"""T01: the calibration, selection, averaging and simulation scripts write the documented transform of every record, and change nothing else."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import arr, mir, scr
aipy = load()
scr.use(aipy)
from scr import *

P = Prop('T01', rule='an execution runs one script on one to three generated observations, in a new interpreter or a fork of the worker, and '
         'compares every output record, variable and the history with the transform computed from the input records; distinct by script, options and observation',
         assumptions=['the model of the sky and array is the library\'s, recomputed from scratch for each record (judged by P and F checks)',
                      'a bin with as many flagged as unflagged channels may go either way in combine_freqs', 'flagged channels hold any value'],
         require=['script_runs', 'kept_outputs', 'new_outputs', 'curves', 'noise_samples', 'noise_statistics', 'new_interpreters', 'records_compared', 'skipped_outputs', 'run:pull_ants.py', 'run:pull_pol.py', 'run:combine_freqs.py',
                  'run:uv_addsub.py', 'run:apply_bp.py', 'run:apply_cal.py', 'run:phs2src.py', 'run:flux_cal.py', 'run:mdlvis.py'])

@P.workload(quick=120, thorough=3000)
def selection(rng, mon):
    """pull_ants and pull_pol keep the named antennas or polarisations, bit for bit."""
    n = int(rng.integers(2, 6))
    dss = [scr.obs(rng, nant=n) for _ in range(int(rng.choice([1, 1, 2, 3])))]
    if rng.random() < .5:
        ants = [int(a) for a in rng.choice(n + 2, size=int(rng.integers(1, n + 1)), replace=False)]
        pipeline(rng, mon, 'pull_ants.py', ['-a', ','.join(map(str, ants))], dss, 'A',
                 lambda ds: [r for r in ds.recs if r.ij[0] in ants and r.ij[1] in ants], flagged=True)
    else:
        pols = [str(p) for p in rng.choice(['xx', 'yy', 'xy', 'yx'], size=int(rng.integers(1, 4)), replace=False)]
        pipeline(rng, mon, 'pull_pol.py', ['-p', ','.join(pols)], dss, 'P',
                 lambda ds: [r for r in ds.recs if POL[r.vars['pol']] in pols], flagged=True)


def combined(r, n, careful, dont):
    """Averaged record, and the bins whose flag is not laid down."""
    ratio = len(r.data) // n
    if ratio == 1:
        return r, np.zeros(n, bool)
    good = ~r.mask.reshape(n, ratio)
    cnt = good.sum(axis=1)
    d = np.where(good, r.data.reshape(n, ratio), 0).astype('D').sum(axis=1) / np.maximum(cnt, 1)
    f = cnt < ratio if careful else cnt < 1 if dont else 2 * cnt <= ratio
    v = dict(r.vars, nchan=n, sfreq=r.vars['sfreq'] + (ratio - 1) / 2 * r.vars['sdf'], sdf=r.vars['sdf'] * ratio)
    return rec(r, data=d, mask=f, vars=v), (2 * cnt == ratio) & (not careful) & (not dont)


@P.workload(quick=120, thorough=3000)
def averaging(rng, mon):
    """combine_freqs averages the unflagged channels of each bin and moves the frequencies."""
    nchan = int(rng.choice([4, 6, 8, 12, 16, 32, 60]))
    n = int(rng.choice([k for k in range(1, nchan + 1) if nchan % k == 0]))
    args = ['-n', str(n)]
    careful, dont = rng.random() < .3, rng.random() < .3
    args += ['-c'] * careful + ['-d'] * dont
    dss = [scr.obs(rng, nchan=nchan)]
    unify = rng.random() < .35
    dss += [scr.obs(rng, nchan=nchan, types=dss[0].types if unify else None) for _ in range(int(rng.choice([0, 1, 2]) if not unify else rng.integers(3)))]
    if unify:
        for d in dss[1:]:
            for r in d.recs:
                r.vars.update({k: dss[0].recs[0].vars[k] for k in ('sfreq', 'sdf', 'inttime', 'telescop')})
    cwd, names = files(rng, mon, dss)
    before = [scr.tree(os.path.join(cwd, x)) for x in names]
    scr.run(mon, rng, 'combine_freqs.py', args + ['-u'] * unify + names, cwd)
    outs = [(names[0] + 'm', [r for d in dss for r in d.recs])] if unify else [(x + 'm', d.recs) for x, d in zip(names, dss)]
    mon.eq(sorted(x for x in os.listdir(cwd) if x.endswith('m')), sorted(x for x, _ in outs), 'outputs of combine_freqs %s' % args)
    mon.eq([scr.tree(os.path.join(cwd, x)) for x in names], before, 'inputs changed')
    for x, recs in outs:
        vn = list(dss[names.index(x[:-1])].types)
        uv, got = scr.read(aipy, os.path.join(cwd, x), vn)
        mon.check(len(got) == len(recs), '%s: %d records, want %d' % (x, len(got), len(recs)))
        for g, r in zip(got, recs):
            w, tie = combined(r, n, careful, dont)
            w.mask = np.where(tie, g.mask, w.mask) if g.mask.shape == w.mask.shape else w.mask
            w = rec(w, vars=dict(w.vars))
            if unify:       # a later file need not set what an earlier one did
                g.vars = {k: v for k, v in g.vars.items() if k in w.vars}
            close = ('sfreq', 'sdf')
            for k in close:
                mon.close(g.vars.pop(k), w.vars.pop(k), 1e-9, '%s: %s of output channels' % (x, k))
            scr.same_recs(mon, [g], [w], 'combine_freqs %s: %s' % (args, x), tol=2e-6)
            if len(r.data) != n and g.mask.any():
                mon.ev('zeroed', int(g.mask.sum()))
                mon.check((g.data[g.mask] == 0).all(), 'combine_freqs %s: flagged averages of %s are %s, not zero' % (args, w.ij, g.data[g.mask][:4]))
        mon.check(uv['history'].startswith(dss[0].items['history'] if unify else ''), 'history')
    mon.case('combine', n, nchan, careful, dont, unify, len(dss), dss[0].recs[0].t)


@P.workload(quick=60, thorough=1500)
def addsub(rng, mon):
    a = scr.obs(rng)
    recs = []
    for r in a.recs:
        d = (rng.normal(size=len(r.data)) + 1j * rng.normal(size=len(r.data))) * np.abs(r.data).max()
        recs.append(rec(r, data=d.astype('F'), mask=mir.gen_mask(rng, len(d))))
    b = mir.DS('r')
    b.types, b.recs, b.items = dict(a.types), recs, {'history': 'other\n'}
    cwd, names = files(rng, mon, [a, b])
    sub = rng.random() < .5
    before = [scr.tree(os.path.join(cwd, n)) for n in names]
    scr.run(mon, rng, 'uv_addsub.py', ['--sub'] * sub + names, cwd)
    mon.eq([scr.tree(os.path.join(cwd, n)) for n in names], before, 'inputs changed')
    uv, got = scr.read(aipy, os.path.join(cwd, 'in0.uv' + 'ad'[sub]), list(a.types))
    want = [rec(x, data=x.data - y.data if sub else x.data + y.data, mask=x.mask | y.mask) for x, y in zip(a.recs, b.recs)]
    scr.same_recs(mon, got, want, 'uv_addsub sub=%s' % sub, tol=1e-6)
    for g, w in zip(got, want):
        if w.mask.any():
            mon.ev('zeroed', int(w.mask.sum()))
            mon.check((g.data[w.mask] == 0).all(), 'uv_addsub: flagged samples of %s are %s, not zero' % (w.ij, g.data[w.mask][:4]))
    mon.check(uv['history'].startswith(a.items['history']) and 'in1.uv' in uv['history'], 'history %r' % uv['history'])
    mon.case('addsub', sub, len(want), a.recs[0].t)


# laboratory measurements of the correlator: (digital gain, power out) and (attenuation in dB, power out)
DIGI = [(12157.5439, 69.4239101), (10941.7895, 66.7908058), (9847.61054, 63.4221363), (8862.84949, 59.8487377), (7976.56454, 56.2606945),
      (7178.90809, 52.3417244), (6461.01728, 48.2318153), (5814.91555, 43.9959545), (5233.424, 39.6231079), (4710.0816, 35.1286697),
      (4239.07344, 30.7197094), (3815.16609, 26.5645065), (3433.64948, 22.6805363), (3090.28454, 18.9764328), (2781.25608, 15.7225094),
      (2503.13047, 12.953413), (2252.81743, 10.5884399), (2027.53568, 8.62832832), (1824.78212, 7.05498695), (1642.3039, 5.73844147),
      (1478.07351, 4.65587997), (1330.26616, 3.82151413), (1197.23955, 3.12589455), (1077.51559, 2.55574417), (969.764032, 2.10250664),
      (872.787629, 1.72937584), (785.508866, 1.43913269), (706.957979, 1.19428635), (636.262181, 0.996246338), (572.635963, 0.839185715),
      (515.372367, 0.702550888)]
FULL = [(44, 0.43), (43, 0.46), (42, 0.5), (41, 0.55), (40, 0.6), (40, 0.6), (39, 0.66), (38, 0.74), (37, 0.84), (36, 1), (35, 1.1), (34, 1.3),
      (33, 1.6), (32, 1.9), (31, 2.3), (30, 2.7), (30, 2.7), (29, 3.4), (28, 4.2), (27, 5.2), (26, 6.5), (25, 8.1), (24, 10.1), (23, 12.6),
      (22, 15.7), (21, 19.3), (20, 23.3), (20, 23.7), (19, 28.3), (18, 32.9), (17, 37.9), (16, 42.6), (15, 47.4), (14, 51.9), (13, 56.2), (12, 60.2),
      (11, 63.8), (10, 66.9)]


def correction(mode, x):
    """True power of a raw value by a curve through the measurements, the same at 10."""
    q = np.array(DIGI if mode == 'digi' else FULL)
    c = np.polyfit(q[:, 1], q[:, 0]**2 if mode == 'digi' else 10**(-q[:, 0] / 10), 6)
    return 10 * np.polyval(c, x) / np.polyval(c, 10)


@P.workload(quick=80, thorough=2000)
def bandpass(rng, mon):
    ds = scr.obs(rng, autos=True)
    v = ds.recs[0].vars
    n, nchan = v['nants'], v['nchan']
    bp = None
    if rng.random() < .7:
        bp = rng.uniform(.3, 3, size=(n, nchan))
        ds.items['bandpass'] = bp.flatten().astype('F').astype('D')
        bp = bp.astype('f').astype('d')
    else:
        bp = np.ones((n, nchan))
    k = rng.integers(3)
    s = 10. ** rng.uniform(-3, 3) if k else 12250000.
    args = ['-s', repr(float(s))] if k else []
    def cross(ds):
        out = []
        for r in ds.recs:
            d = r.data * bp[r.ij[0]] * bp[r.ij[1]] * s
            out.append(rec(r, data=d))
        return out
    if rng.random() < .5:       # no linearisation: one law for every record
        pipeline(rng, mon, 'apply_bp.py', args + ['-l', 'null'], [ds], 'b', cross, tol=3e-6)
        uv = aipy.miriad.UV(os.path.join(mon.tmp(), 'in0.uvb'))
        mon.check('bandpass' not in uv.items(), 'the output of apply_bp still has a bandpass to apply')
        return
    # the quantisation corrections act on autocorrelations only, agree at 10, and `comb` is the mean of the other three
    for r in ds.recs:
        if r.ij[0] == r.ij[1]:
            r.data = rng.uniform(.5, 60, size=nchan).astype('F')
            r.data[rng.integers(nchan)] = 10
    cwd, names = files(rng, mon, [ds])
    res = {}
    for mode in ['null', 'digi', 'full', 'comb']:
        scr.run(mon, rng, 'apply_bp.py', args + (['-l', mode] if mode != 'comb' or rng.random() < .5 else []) + names, cwd, real=.03)
        uv, got = scr.read(aipy, os.path.join(cwd, 'in0.uvb'), list(ds.types))
        want = cross(ds)
        for g, w, r in zip(got, want, ds.recs):
            if r.ij[0] == r.ij[1]:
                ten = r.data == 10
                mon.close(g.data[ten], w.data[ten], 1e-4 * np.abs(w.data[ten]).max(), 'apply_bp -l %s of a raw value of 10' % mode)
                mon.ev('tens', int(ten.sum()))
                w.data = g.data
        scr.same_recs(mon, got, want, 'apply_bp -l %s' % mode, tol=3e-6)
        res[mode] = got
        shutil.rmtree(os.path.join(cwd, 'in0.uvb'))
    for k, r in enumerate(ds.recs):
        if r.ij[0] == r.ij[1]:
            lin = {m: res[m][k].data.astype('D') / (bp[r.ij[0]] * bp[r.ij[1]] * s) for m in res}
            mon.close(lin['null'], r.data, 1e-5 * np.abs(r.data).max(), 'apply_bp -l null')
            for m in ('digi', 'full'):
                want = correction(m, r.data.real.astype('d'))
                mon.close(lin[m], want, 2e-5 * np.abs(want).max(), 'apply_bp -l %s is not the curve through the measurements' % m)
            mon.ev('curves')
            tot = (lin['null'] + lin['digi'] + lin['full']) / 3
            mon.close(lin['comb'], tot, 1e-5 * max(np.abs(lin[m]).max() for m in lin), 'apply_bp -l comb is not the mean of null, digi and full')
    mon.case('bp', len(ds.recs), ds.recs[0].t, s)


@P.workload(quick=60, thorough=1200)
def kept(rng, mon):
    """Outputs that exist are left alone by every script, those of the other inputs are written."""
    script = str(rng.choice(['pull_ants.py', 'pull_pol.py', 'combine_freqs.py', 'uv_addsub.py', 'apply_bp.py', 'apply_cal.py', 'phs2src.py', 'flux_cal.py', 'mdlvis.py']))
    dss = [scr.obs(rng, nant=3, nchan=4, nt=2, pols=[-5], autos=True, t0=jd(rng), early=True) for _ in range(2 if script == 'uv_addsub.py' else int(rng.integers(1, 4)))]
    for d in dss:
        for r in d.recs:
            r.vars.update({k: dss[0].recs[0].vars[k] for k in ('sfreq', 'sdf')})
    cwd, names = files(rng, mon, dss)
    scr.cal(rng, 3, cwd)
    args, suffix, cross = {'pull_ants.py': (['-a', '0,1,2'], 'A', 0), 'pull_pol.py': (['-p', 'xx'], 'P', 0), 'combine_freqs.py': (['-n', str(rng.choice([1, 2, 4]))], 'm', 0),
        'uv_addsub.py': (['--sub'], 'd', 0), 'apply_bp.py': ([], 'b', 0), 'apply_cal.py': (['-C', 'gencal'], 'C', 0), 'phs2src.py': (['-C', 'gencal', '-s', 'zen'], '.zen', 0),
        'flux_cal.py': (['-C', 'gencal', '-p'], '.p', 0), 'mdlvis.py': (['-C', 'gencal', '-s', 'cyg'], 's', 1)}[script]
    outs = [n + suffix for n in names]
    count = [sum(not cross or r.ij[0] != r.ij[1] for r in d.recs) for d in dss]
    scr.existing(rng, mon, script, args, cwd, names, outs[:1] if script == 'uv_addsub.py' else outs, count)


# ---------------------------------------------------------------- calibration against a model
@P.workload(quick=80, thorough=2000)
def gains(rng, mon):
    """apply_cal divides by the passband and phases to zenith."""
    dss, cwd, names, ns = calobs(rng, mon)
    ng, nph = rng.random() < .3, rng.random() < .3
    def want(ds):
        out = []
        for r in ds.recs:
            aa = model(ns, ds, r.vars['pol'])
            d = r.data.astype('D')
            if not ng:
                d = d / aa.passband(*r.ij)
            if not nph:
                d = aa.phs2src(d, 'z', *r.ij)
            out.append(rec(r, data=np.asarray(d).reshape(len(r.data))))
        return out
    pipeline(rng, mon, 'apply_cal.py', ['-C', 'gencal'] + ['--no_gain'] * ng + ['--no_phs'] * nph, dss, 'C', want, tol=1e-5, cwd_names=(cwd, names))


@P.workload(quick=100, thorough=2500)
def phasing(rng, mon):
    """phs2src phases cross-correlations to a source, to zenith, or only removes the instrument's phase."""
    dss, cwd, names, ns = calobs(rng, mon)
    k = rng.random()
    setphs, rot = rng.random() < .25, rng.random() < .3
    if k < .2:
        src, suffix, args = None, 'P', []
        setphs = rot = False
    elif k < .4:
        src, suffix, args = 'z', '.zen', ['-s', 'zen']
    else:
        s = direction(rng, dss[0].recs[0].t, model(ns, dss[0], -5))
        src, suffix, args = source(s), '.' + s, ['-s', s]
    def want(ds):
        out = []
        for r in ds.recs:
            if r.ij[0] == r.ij[1]:
                out.append(r)
                continue
            aa = model(ns, ds, r.vars['pol'], r.t)
            d, uvw = r.data.astype('D'), r.uvw
            try:
                if src is None:
                    d = d * np.exp(-2j * np.pi * aa.get_phs_offset(*r.ij))
                else:
                    if src != 'z':
                        src.compute(aa)
                    d = aa.unphs2src(np.abs(d), src, *r.ij) if setphs else aa.phs2src(d, src, *r.ij)
                    if rot:
                        uvw = aa.get_baseline(*r.ij, src=src)
                    mon.ev('sources_up')
            except aipy.phs.PointingError:
                mon.ev('sources_down')
                d = d * 0
            out.append(rec(r, data=np.asarray(d).reshape(len(r.data)), uvw=np.asarray(uvw).reshape(3)))
        return out
    pipeline(rng, mon, 'phs2src.py', ['-C', 'gencal'] + args + ['--setphs'] * setphs + ['--rot_uvw'] * rot, dss, suffix, want, tol=2e-5,
             cwd_names=(cwd, names), hist=False)


@P.workload(quick=100, thorough=2500)
def fluxes(rng, mon):
    """flux_cal divides by the passband, the beam towards the source and the source's spectrum."""
    dss, cwd, names, ns = calobs(rng, mon)
    p, b, f = [bool(x) for x in rng.random(3) < .6]
    args = ['-p'] * p + ['-b'] * b + ['-f'] * f
    if b or f:
        s = direction(rng, dss[0].recs[0].t, model(ns, dss[0], -5))
        args += ['-s', s]
    def want(ds):
        out = []
        for r in ds.recs:
            aa = model(ns, ds, r.vars['pol'], r.t)
            g = 1.
            if b or f:
                cat = aipy.fit.SrcCatalog([source(s)])
                cat.compute(aa)
            if p:
                g = g * aa.passband(*r.ij)
            if b:
                up = cat.get_crds('top', ncrd=3)[2, 0] > 0
                mon.ev('sources_up' if up else 'sources_down')
                if up:
                    aa.sim_cache(cat.get_crds('eq', ncrd=3))
                g = g * np.asarray(aa.bm_response(*r.ij)).squeeze() if up else 0
            if f:
                g = g * np.asarray(cat.get_jys()).reshape(-1)
            out.append(rec(r, data=np.asarray(r.data / np.where(g == 0, 1, g)).reshape(len(r.data))))
        return out
    suffix = '.' + 'p' * p + 'b' * b + 'f' * f
    pipeline(rng, mon, 'flux_cal.py', ['-C', 'gencal'] + args, dss, suffix, want, tol=2e-5, cwd_names=(cwd, names))


@P.workload(quick=80, thorough=2000)
def models(rng, mon):
    """mdlvis replaces the selected cross-correlations by the model, adds it, or subtracts it."""
    dss, cwd, names, ns = calobs(rng, mon, nant=int(rng.integers(2, 5)))
    n = dss[0].recs[0].vars['nants']
    k = rng.integers(3)
    if k == 0:
        sel, keep = [], lambda i, j: i != j
    elif k == 1:
        sel, keep = ['-a', 'all'], lambda i, j: True
    else:
        a, b = [int(x) for x in rng.choice(n, size=2, replace=False)]
        sel, keep = ['-a', '%d_%d' % (a, b)], lambda i, j: {i, j} == {a, b}
    mode = str(rng.choice(['sim', 'sub', 'add']))
    flag = rng.random() < .4
    srcs = sky(rng, dss[0].recs[0].t, model(ns, dss[0], -5))
    if len({s.split('_')[0] for s in srcs}) < len(srcs):
        raise Skip
    def want(ds):
        out = []
        for r in ds.recs:
            if not keep(*r.ij):
                continue
            if r.ij[0] == r.ij[1]:
                out.append(r)
                continue
            s = visibility(ns, ds.recs[0].vars, r, srcs)
            m = r.mask
            if mode == 'sim':
                d = s
                m = m if flag else np.zeros(len(d), bool)
            else:
                d = r.data - s if mode == 'sub' else r.data + s
            out.append(rec(r, data=d, mask=m))
        return out
    # subtracting a model of 1e4 Jy from data of any size: the tolerance is set by the larger
    big = 2e-5
    if mode != 'sim':
        for ds in dss:
            for r in ds.recs:
                if r.ij[0] != r.ij[1] and keep(*r.ij):
                    big_vis = np.abs(visibility(ns, ds.recs[0].vars, r, srcs)).max()
                    if big_vis > 0 and np.abs(r.data).max() < .1 * big_vis:
                        raise Skip
    pipeline(rng, mon, 'mdlvis.py', ['-C', 'gencal', '-s', ','.join(srcs), '-m', mode] + ['-f'] * flag + sel, dss, 's', want, tol=big,
             cwd_names=(cwd, names))


@P.workload(quick=30, thorough=800)
def scratch(rng, mon):
    """mdlvis without input simulates every baseline of the array over the requested times."""
    cwd = mon.tmp()
    n = int(rng.integers(1, 4))
    ns = scr.cal(rng, n, cwd)
    nchan = int(rng.choice([1, 2, 8, 16]))
    sfreq, sdf = round(float(rng.uniform(.08, .15)), 4), round(float(rng.uniform(.01, .05) / nchan), 6)
    inttime = float(rng.choice([10., 40., 300.]))
    t0 = round(jd(rng), 3)
    nt = int(rng.integers(1, 4))
    t1 = t0 + (nt - .5) * inttime / 86400
    pols = [str(p) for p in rng.choice(['xx', 'yy', 'xy', 'yx'], size=int(rng.integers(1, 3)), replace=False)]
    v = dict(nchan=nchan, sfreq=sfreq, sdf=sdf)
    def aa(t=None):
        a = ns['get_aa'](np.arange(nchan) * sdf + sfreq)
        if t is not None:
            a.set_jultime(t)
        return a
    srcs = sky(rng, t0, aa())
    scr.run(mon, rng, 'mdlvis.py', ['-C', 'gencal', '-s', ','.join(srcs), '--pol', ','.join(pols), '--startjd', repr(t0), '--endjd', repr(t1), '--inttime', inttime,
                                    '--nchan', nchan, '--sfreq', repr(sfreq), '--sdf', repr(sdf)], cwd)
    if rng.random() < .2:       # without input there is nothing to add to, subtract from or take flags of, and polarizations must be named
        bad = [['-m', 'add'], ['-m', 'sub'], ['-f']][rng.integers(3)]
        o = scr.run(mon, rng, 'mdlvis.py', ['-C', 'gencal', '-s', 'cyg', '--startjd', repr(t0), '--endjd', repr(t0 + 1e-5), '--nchan', 2] +
                    (['--pol', 'xx'] + bad if rng.random() < .8 else []), cwd, ok=False)
        mon.check(o.rc != 0 and sorted(x for x in os.listdir(cwd) if x.endswith('.uv')) == ['new.uv'], 'mdlvis %s without input ended with %s' % (bad, o.rc))
        mon.ev('refused')
    names = ['pol', 'lst', 'ra', 'obsra', 'sfreq', 'sdf', 'nchan', 'nants', 'npol', 'latitud', 'longitu', 'dec', 'inttime', 'antpos',
             'telescop', 'source', 'epoch', 'obsdec', 'freq', 'restfreq', 'nspect', 'nschan', 'ischan']
    uv, got = scr.read(aipy, os.path.join(cwd, 'new.uv'), names)
    code = {x: k for k, x in POL.items()}
    want = []
    for t in t0 + np.arange(nt) * inttime / 86400:
        for i in range(n):
            for j in range(i, n):
                for p in pols:
                    want.append((t, i, j, p))
    mon.check(len(got) == len(want), 'mdlvis: %d records, want %d' % (len(got), len(want)))
    for g, (t, i, j, p) in zip(got, want):
        mon.ev('records_compared')
        mon.close(g.t, t, 1e-6, 'mdlvis time')
        mon.eq((tuple(g.ij), int(g.vars['pol'])), ((i, j), code[p]), 'mdlvis baseline and polarisation')
        a = aa(g.t)
        lst = float(a.sidereal_time())
        for k in ('lst', 'ra', 'obsra'):
            mon.close(arr.angle(float(g.vars[k]) - lst), 0, 1e-9, 'mdlvis ' + k)
        uvw = np.asarray(a.get_baseline(i, j))
        mon.close(g.uvw, uvw, 1e-9 * (1 + np.abs(uvw).max()), 'mdlvis uvw')
        mon.check(not g.mask.any(), 'mdlvis flags')
        s = np.zeros(nchan) if i == j else visibility(ns, v, mir.Rec(uvw, g.t, (i, j), None, None, {'pol': code[p]}), srcs)
        mon.close(g.data, s, 2e-5 * np.abs(s).max() + 1e-30, 'mdlvis visibility %s' % ((i, j, p),))
        for k, w in dict(nchan=nchan, nants=n, npol=len(pols), nspect=1, nschan=nchan, ischan=1).items():
            mon.eq(int(g.vars[k]), w, 'mdlvis ' + k)
        mon.eq([str(g.vars[k]).rstrip('\0') for k in ('telescop', 'source')], ['AIPY', 'zenith'], 'mdlvis telescope and source')
        for k, w in dict(sfreq=sfreq, sdf=sdf, inttime=inttime, latitud=float(a.lat), longitu=float(a.long), dec=float(a.lat), obsdec=float(a.lat),
                         freq=sfreq, restfreq=sfreq, epoch=2000.).items():
            mon.close(float(g.vars[k]), w, 1e-9, 'mdlvis ' + k)
        mon.close(np.asarray(g.vars['antpos']).reshape(3, n), np.array([x.pos for x in a]).T, 1e-9 * np.abs(uvw).max() + 1e-3, 'mdlvis antpos')
    mon.case('scratch', n, nchan, nt, tuple(pols), t0)


@P.workload(quick=30, thorough=600)
def noise(rng, mon):
    """mdlvis adds noise of the level asked for to the cross-correlations, of any phase and independent in each sample; other modes are refused."""
    dss, cwd, names, ns = calobs(rng, mon, ndss=1, nant=int(rng.integers(2, 5)), flag=0, nchan=int(rng.choice([1, 8, 16, 32, 32, 64])))
    ds = dss[0]
    lev = float(10. ** rng.uniform(-1, 3) * top(dss))
    mode = str(rng.choice(['sub', 'add', 'sim']))
    srcs = ['cyg']
    args = ['-C', 'gencal', '-s', 'cyg', '-a', 'all', '-n', repr(lev)]
    if rng.random() < .3:
        bad = scr.run(mon, rng, 'mdlvis.py', args + ['-m', str(rng.choice(['mul', 'Sim', 'x', 'replace']))] + names, cwd, ok=False)
        mon.check(bad.rc != 0 or all(r.ij[0] == r.ij[1] for r in ds.recs), 'mdlvis took a mode that does not exist')
        shutil.rmtree(os.path.join(cwd, names[0] + 's'), ignore_errors=True)
        mon.ev('refused')
    scr.run(mon, rng, 'mdlvis.py', args + ['-m', mode] + names, cwd)
    uv, got = scr.read(aipy, os.path.join(cwd, names[0] + 's'), list(ds.types))
    mon.check(len(got) == len(ds.recs), 'mdlvis: %d records, want %d' % (len(got), len(ds.recs)))
    x = []
    for g, r in zip(got, ds.recs):
        mon.check(g.t == r.t and tuple(g.ij) == tuple(r.ij) and not g.mask.any(), 'mdlvis -n: record of %s' % (r.ij,))
        if r.ij[0] == r.ij[1]:
            mon.eq(g.data, r.data, 'mdlvis -n: an autocorrelation')
            continue
        v = visibility(ns, ds.recs[0].vars, r, srcs)
        want = v if mode == 'sim' else r.data - v if mode == 'sub' else r.data + v
        aa = model(ns, ds, r.vars['pol'])
        z = (g.data.astype('D') - want) / (lev * aa.passband(*r.ij))
        tol = 2e-5 * (1 + (np.abs(v).max() + np.abs(r.data).max()) / (lev * np.abs(aa.passband(*r.ij)).min()))
        if tol > .05:
            raise Skip
        mon.check((np.abs(z) <= 1 + tol).all(), 'mdlvis -n %g: noise of %g times that' % (lev, np.abs(z).max()))
        x += list(z)
    x = np.array(x)
    if x.size:
        mon.ev('noise_samples', int(x.size))
        mon.check(len(np.unique(np.round(x, 6))) > .9 * x.size - 2, 'mdlvis -n: the same noise in several samples')
    if x.size >= 40:
        s = 1 / np.sqrt(x.size)      # the mean, power and square of such noise deviate by .58, .30 and .45 of this
        mon.check(abs(x.mean()) < 3 * s, 'mdlvis -n: noise of mean %r' % x.mean())
        mon.check(abs((np.abs(x)**2).mean() - 1 / 3) < 1.8 * s and abs((x**2).mean()) < 2.4 * s, 'mdlvis -n: noise of variance %r' % (np.abs(x)**2).mean())
        mon.ev('noise_statistics')
    mon.case('noise', mode, lev, x.size)



P.main()
