"""Runs aipy's command-line scripts as a user would, on generated observations (for the T checks)."""
import gc, hashlib, os, runpy, subprocess, sys, time, traceback
import numpy as np
import arr, mir


def path(name):
    return os.path.join(os.environ['AIPY_VBUILD'], 'scripts', name)


class Out:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run(mon, rng, script, args, cwd, ok=True, real=.1, timeout=200):
    """Run a script in `cwd`: in a new interpreter, or (cheaper) in a fork of this one."""
    fo, fe = os.path.join(cwd, '.stdout'), os.path.join(cwd, '.stderr')
    args = [str(a) for a in args]
    mon.ev('script_runs')
    mon.ev('run:' + script)
    if rng.random() < real:
        mon.ev('new_interpreters')
        with open(fo, 'w') as o, open(fe, 'w') as e:
            rc = subprocess.run([sys.executable, path(script)] + args, cwd=cwd, stdout=o, stderr=e, timeout=timeout,
                                stdin=subprocess.DEVNULL).returncode
    else:
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.dup2(os.open(fo, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 1)
                os.dup2(os.open(fe, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 2)
                sys.stdout = open(1, 'w', closefd=False)
                sys.stderr = open(2, 'w', closefd=False)
                os.chdir(cwd)
                sys.argv = [path(script)] + args
                sys.path.insert(0, os.path.dirname(path(script)))
                try:
                    runpy.run_path(path(script), run_name='__main__')
                    rc = 0
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    traceback.print_exc()
                gc.collect()        # what the end of an interpreter would close
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        t0 = time.time()
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > timeout:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                raise RuntimeError('%s did not end in %d s' % (script, timeout))
            time.sleep(.002)
        rc = os.waitstatus_to_exitcode(st)
    r = Out(rc, open(fo, errors='replace').read(), open(fe, errors='replace').read())
    os.remove(fo)
    os.remove(fe)
    if ok:
        mon.check(rc == 0, '%s %s ended with %d: %s' % (script, ' '.join(args), rc, r.err.strip()[-700:]))
    return r


def tree(d):
    """A digest of every file below d."""
    h = {}
    for p, ds, fs in os.walk(d):
        for f in sorted(fs):
            with open(os.path.join(p, f), 'rb') as fh:
                h[os.path.relpath(os.path.join(p, f), d)] = hashlib.sha1(fh.read()).hexdigest()
    return h


# ---------------------------------------------------------------- observations
LINEAR = [-5, -6, -7, -8]


def obs(rng, nant=None, nchan=None, nt=None, pols=None, autos=None, t0=None, flag=None, extra=3, dt=None, types=None, early=False):
    """A drift-scan observation: every baseline and polarisation of every integration, with variables changing in time."""
    ds = mir.DS('r')
    nant = nant or int(rng.integers(2, 5))
    nchan = nchan or int(rng.choice([1, 2, 4, 8, 12, 16, 31, 32, 64]))
    nt = nt or int(rng.integers(1, 5))
    if pols is None:
        pols = [int(p) for p in rng.choice(LINEAR, size=int(rng.choice([1, 1, 2, 4])), replace=False)]
    autos = rng.random() < .8 if autos is None else autos
    t0 = t0 or 2455000. + float(rng.integers(10**6)) / 977.
    dt = dt or float(rng.choice([1e-4, 1e-3, .01, .1]))
    ant = list(range(nant))
    bls = [(a, b) for a in ant for b in ant[a:] if autos or a != b]
    cur = dict(nchan=nchan, sfreq=float(rng.uniform(.08, .15)), sdf=float(rng.uniform(.02, .1) / nchan), inttime=10., pol=pols[0],
               lst=0., nants=nant, telescop='GEN')
    ds.types.update({k: t for k, t in mir.BASEVARS if k in cur})
    dyn = ['va', 'vb', 'v_1'][:extra]
    for k in dyn:
        ds.types[k] = types[k] if types else str(rng.choice(list('aird')))
    scale = 10. ** rng.uniform(-2, 4)
    for n in range(nt):
        t = t0 + n * dt
        cur['lst'] = (.3 + n * .01) % 6.28
        order = bls if rng.random() < .7 else [bls[k] for k in rng.permutation(len(bls))]
        for ij in order:
            for p in pols:
                cur['pol'] = p
                for k in dyn:
                    if rng.random() < (.2 if ds.recs else 1 if early else .7):
                        cur[k] = mir.gen_value(rng, ds.types[k])
                d = scale * (rng.normal(size=nchan) + 1j * rng.normal(size=nchan))
                if ij[0] == ij[1]:
                    d = np.abs(d) + 0j
                m = mir.gen_mask(rng, nchan) if flag is None else rng.random(nchan) < flag
                ds.recs.append(mir.Rec(rng.normal(size=3) * 100, t, ij, d.astype(np.complex64), m, dict(cur)))
    ds.items['history'] = 'observed\n' * int(rng.integers(1, 3))
    return ds


def read(aipy, p, names):
    uv = aipy.miriad.UV(p)
    return uv, mir.read_all(uv, 'raw', names)


def same_recs(mon, got, want, what, tol=None, flagged=False, vars=True, atol=0):
    """Records, and the variables in force at each. Data: exact, or within tol of the largest unflagged value of the record."""
    mon.check(len(got) == len(want), '%s: %d records, want %d' % (what, len(got), len(want)))
    for k, (g, w) in enumerate(zip(got, want)):
        m = '%s, record %d of %d %s' % (what, k, len(want), (w.ij, w.vars.get('pol')))
        mon.ev('records_compared')
        mon.close(np.asarray(g.uvw, float), np.asarray(w.uvw, float), 1e-9 * (1 + np.abs(w.uvw).max()), m + ' uvw')
        mon.check(g.t == w.t and tuple(g.ij) == tuple(w.ij), '%s: time and baseline %r, want %r' % (m, (g.t, g.ij), (w.t, w.ij)))
        mon.eq(np.asarray(g.mask, bool), np.asarray(w.mask, bool), m + ' flags')
        ok = np.ones(len(w.mask), bool) if flagged else ~np.asarray(w.mask, bool)
        gd, wd = np.asarray(g.data)[ok], np.asarray(w.data)[ok]
        if tol is None:
            mon.eq(gd.astype('F'), wd.astype('F'), m + ' data')
        elif wd.size:
            s = np.abs(wd).max() if np.isfinite(wd).all() else 0
            mon.close(gd.astype('D'), wd.astype('D'), tol * s + atol + 1e-30, m + ' data')
        mon.ev('channels_compared', int(ok.sum()))
        if vars:
            mir.cmp_vars(mon, g.vars, w.vars, m)


# ---------------------------------------------------------------- calibration files
CATALOG = '''
srcs_own = %r
def get_catalog(srcs=None, cutoff=None, catalogs=[]):
    own = {s['name']: a.fit.RadioFixedBody(s['ra'], s['dec'], name=s['name'], jys=s['jys'], index=s['index'], mfreq=s['mfreq'],
           srcshape=tuple(s['shape'])) for s in srcs_own}
    if srcs is None:
        f = lambda s: s['jys'] * (cutoff[1] / s['mfreq'])**s['index']
        return a.fit.SrcCatalog([own[s['name']] for s in srcs_own if cutoff is None or f(s) > cutoff[0]])
    cat = a.fit.SrcCatalog([own[s] if s in own else s for s in srcs if s in own or not isinstance(s, str)])
    rest = [s for s in srcs if isinstance(s, str) and s not in own]
    if rest:
        cat.add_srcs(list(a.src.get_catalog(rest, None, catalogs).values()))
    return cat
'''


def own_sources(rng, n, shapes=False):
    import ephem
    out = []
    for k in range(n):
        ra, dec = rng.uniform(0, 2 * np.pi), np.arcsin(rng.uniform(-1, 1))
        sh = [float(x) for x in (rng.uniform(.02, .3), rng.uniform(.02, .3), rng.uniform(0, np.pi))] if shapes and rng.random() < .5 else [0., 0., 0.]
        out.append(dict(name='s%d' % k, ra=str(ephem.hours(ra)), dec=str(ephem.degrees(dec)), jys=round(float(10. ** rng.uniform(-1, 4)), 3),
                        index=round(float(rng.uniform(-2, 1)), 3), mfreq=round(float(rng.uniform(.08, .3)), 3), shape=sh))
    return out


def cal(rng, nant, cwd, name='gencal', plain=False, wide=False, srcs=None):
    """Write a calibration module, as users do, with its own sources if given; returns its text's namespace."""
    lat = float(rng.uniform(-80, 80))
    lon = float(rng.uniform(-180, 180))
    ants = []
    scale = 10. ** rng.uniform(1, 3.3)
    for k in range(nant):
        ants.append(dict(pos=[float(x) for x in rng.normal(size=3) * scale],
                         dly={p: float(rng.normal() * 5) for p in 'xy'}, off={p: float(rng.normal()) for p in 'xy'},
                         amp={p: float(rng.uniform(.3, 3)) for p in 'xy'}, bp_r={p: [float(rng.uniform(-2, 2)), float(rng.uniform(.5, 2))] for p in 'xy'},
                         bp_i={p: [float(rng.uniform(-.5, .5))] for p in 'xy'}))
    beam = str(rng.choice(['Beam2DGaussian', 'Beam'])) if not wide else 'Beam'
    txt = '''import aipy as a
ants = %r
def get_aa(freqs):
    A = []
    for p in ants:
        beam = a.fit.%s
        A.append(a.pol.Antenna(p['pos'][0], p['pos'][1], p['pos'][2], beam,
            phsoff={x: [p['dly'][x], p['off'][x]] for x in 'xy'}, amp=dict(p['amp']),
            bp_r={x: list(p['bp_r'][x]) for x in 'xy'}, bp_i={x: list(p['bp_i'][x]) for x in 'xy'}, lat=%r))
    return a.pol.AntennaArray((%r, %r), A)
''' % (ants, 'Beam2DGaussian(freqs, .9, .7)' if beam == 'Beam2DGaussian' else 'Beam(freqs)', float(np.radians(lat)), float(np.radians(lat)), float(np.radians(lon)))
    if srcs is not None:
        txt += CATALOG % (srcs,)
    with open(os.path.join(cwd, name + '.py'), 'w') as f:
        f.write(txt)
    ns = {}
    exec(txt, ns)
    return ns


# ---------------------------------------------------------------- what the checks of scripts share
aipy = None


def use(lib):
    global aipy
    aipy = lib


POL = {-5: 'xx', -6: 'yy', -7: 'xy', -8: 'yx'}


def rec(r, **kw):
    n = mir.Rec(r.uvw, r.t, r.ij, r.data, r.mask, r.vars)
    for k, v in kw.items():
        setattr(n, k, v)
    return n


def files(rng, mon, dss):
    cwd = mon.tmp()
    names = []
    for k, ds in enumerate(dss):
        names.append('in%d.uv' % k)
        mir.write(aipy, os.path.join(cwd, names[-1]), ds, how=str(rng.choice(['ma', 'flags'])))
    return cwd, names


def pipeline(rng, mon, script, args, dss, suffix, want, tol=None, flagged=False, hist=True, exact_flags=True, cwd_names=None, label=''):
    """Run script over the datasets; each output must hold want(dataset)."""
    cwd, names = cwd_names or files(rng, mon, dss)
    before = [tree(os.path.join(cwd, n)) for n in names]
    done = None
    if len(names) > 1 and rng.random() < .3:       # an output that exists already is left alone
        done = int(rng.integers(len(names)))
        os.mkdir(os.path.join(cwd, names[done] + suffix))
        with open(os.path.join(cwd, names[done] + suffix, 'keep'), 'w') as f:
            f.write('mine')
    run(mon, rng, script, args + names, cwd)
    for k, (n, ds) in enumerate(zip(names, dss)):
        p = os.path.join(cwd, n)
        mon.eq(tree(p), before[k], '%s changed its input %s' % (script, n))
        if k == done:
            mon.ev('skipped_outputs')
            mon.eq(sorted(tree(p + suffix)), ['keep'], '%s touched %s, which existed' % (script, n + suffix))
            continue
        mon.check(os.path.isdir(p + suffix), '%s wrote no %s' % (script, n + suffix))
        w = want(ds)
        if not w:       # nothing selected: a dataset without records cannot be opened
            mon.ev('empty_outputs')
            with mon.raises(IOError, 'opening a dataset without records'):
                aipy.miriad.UV(p + suffix)
            continue
        uv, got = read(aipy, p + suffix, list(ds.types))
        same_recs(mon, got, w, '%s %s: %s' % (script, ' '.join(args), n), tol=tol, flagged=flagged)
        h, h0 = uv['history'], ds.items['history']
        mon.check(h.startswith(h0) and (len(h) > len(h0)) == hist, '%s: history %r of a dataset whose history was %r' % (script, h, h0))
        for k, v in ds.items.items():
            if k not in ('history', 'bandpass'):
                mon.eq(uv[k], v, 'item ' + k)
    left = sorted(x for x in os.listdir(cwd) if x.startswith('in') and not x.endswith('.py'))
    mon.eq(left, sorted(names + [n + suffix for n in names]), '%s left other files' % script)
    mon.case(script, tuple(args), len(dss), tuple(len(d.recs) for d in dss), dss[0].recs[0].t)
    mon.sample(dict(script=script, args=args, records=[len(d.recs) for d in dss]))


def jd(rng):
    return float(rng.uniform(2447000, 2465000))


def top(dss):
    return max(np.abs(r.data).max() for d in dss for r in d.recs)


def model(ns, ds, pol, t=None):
    v = ds.recs[0].vars
    aa = ns['get_aa'](np.arange(v['nchan']) * v['sdf'] + v['sfreq'])
    aa.set_active_pol(POL[pol])
    if t is not None:
        aa.set_jultime(t)
    return aa


def calobs(rng, mon, ndss=None, **kw):
    n = kw.pop('nant', None) or int(rng.integers(2, 5))
    nchan = kw.pop('nchan', None) or int(rng.choice([1, 2, 4, 8, 16]))
    dss = [obs(rng, nant=n, nchan=nchan, t0=jd(rng), nt=int(rng.integers(1, 4)), **kw) for _ in range(ndss or int(rng.choice([1, 1, 2])))]
    f = {k: dss[0].recs[0].vars[k] for k in ('sfreq', 'sdf')}
    for d in dss:
        for r in d.recs:
            r.vars.update(f)
    cwd, names = files(rng, mon, dss)
    return dss, cwd, names, cal(rng, n + int(rng.integers(2)), cwd)


def direction(rng, t, aa):
    """An option naming a source: from a catalogue, or coordinates that are likely up."""
    if rng.random() < .4:
        return str(rng.choice(['cyg', 'cas', 'crab', 'vir', 'her', 'hyd', 'pic', 'for']))
    import ephem
    aa.set_jultime(t)
    ra = (float(aa.sidereal_time()) + rng.uniform(-1, 1)) % (2 * np.pi)
    dec = np.clip(aa.lat + rng.uniform(-1, 1), -1.5, 1.5)
    return '%s_%s' % (ephem.hours(ra), ephem.degrees(dec))


def source(name):
    srclist, cutoff, cats = aipy.scripting.parse_srcs(name, 'helm,misc')
    cat = aipy.src.get_catalog(srclist, cutoff, cats)
    assert len(cat) == 1
    return list(cat.values())[0]


def visibility(ns, ds_vars, r, srcs):
    aa = ns['get_aa'](np.arange(ds_vars['nchan']) * ds_vars['sdf'] + ds_vars['sfreq'])
    aa.set_jultime(r.t)
    cat = aipy.fit.SrcCatalog([source(s) for s in srcs])
    cat.compute(aa)
    aa.sim_cache(cat.get_crds('eq', ncrd=3), cat.get_jys(), mfreqs=cat.get('mfreq'), ionrefs=cat.get('ionref'), srcshapes=cat.get('srcshape'))
    aa.set_active_pol(POL[r.vars['pol']])
    return np.asarray(aa.sim(*r.ij)).reshape(ds_vars['nchan'])


def sky(rng, t, aa):
    return [direction(rng, t, aa) for _ in range(int(rng.choice([1, 1, 2])))] if rng.random() < .3 else \
        [str(x) for x in rng.choice(['cyg', 'cas', 'crab', 'vir', 'her', 'hyd', 'pic'], size=int(rng.integers(1, 4)), replace=False)]


def existing(rng, mon, script, args, cwd, inputs, outputs, records=None):
    """Run a script some (or all) of whose outputs exist: those are left byte for byte as they are, the others are written."""
    import shutil
    have = [o for o in outputs if rng.random() < .6] or [outputs[int(rng.integers(len(outputs)))]]
    for o in have:
        p = os.path.join(cwd, o)
        k = rng.integers(3)
        if k == 0:      # the product of another day
            shutil.copytree(os.path.join(cwd, inputs[int(rng.integers(len(inputs)))]), p)
        else:
            os.mkdir(p)
            if k == 1:
                with open(os.path.join(p, 'visdata'), 'w') as f:
                    f.write('mine')
    digest = lambda: [(x, tree(os.path.join(cwd, x))) for x in inputs + have]
    before = digest()
    run(mon, rng, script, args + inputs, cwd)
    for (x, b), (_, n) in zip(before, digest()):
        mon.eq(sorted(n.items()), sorted(b.items()), '%s %s touched %s, which existed' % (script, args, x))
    mon.ev('kept_outputs', len(have))
    for k, o in enumerate(outputs):
        if o not in have:
            uv, got = read(aipy, os.path.join(cwd, o), [])
            mon.check(records is None or len(got) == records[k], '%s %s: %d records in %s, want %s' % (script, args, len(got), o, records))
            mon.ev('new_outputs')
    mon.case('existing', script, tuple(args), tuple(have), len(inputs))
