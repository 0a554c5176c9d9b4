"""T03: the listing, archiving and map scripts print, keep and place exactly what their options describe."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import ast, resource, shutil, subprocess, tempfile
import arr, hpx, mir, scr
aipy = load()
scr.use(aipy)
from scr import *
if WORKER:
    import ephem

P = Prop('T03', rule='an execution runs one script (or a sequence of runs) on generated catalogs, datasets, archives or maps and compares what it prints and '
         'writes with what its options describe; distinct by script, options and inputs',
         assumptions=['sources and pixels within rounding of a bound may go either way', 'compress_uv runs as an unprivileged user on scratch files; names have no leading dash, colon or backslash',
                      'sources of modmap do not move'],
         require=['script_runs', 'new_interpreters', 'run:srclist.py', 'run:uvlist.py', 'run:lst', 'run:modmap.py', 'run:compress_uv.py', 'selected', 'not_selected', 'params',
                  'expanded', 'failed_archives', 'full_disks', 'deleted', 'kept', 'odd_names', 'rotated', 'degraded', 'extended', 'point'])


# ---------------------------------------------------------------- srclist
def where(body, jd):
    """Position of a fixed source at a date, made anew."""
    f = ephem.FixedBody()
    f._ra, f._dec, f._epoch = body['ra'], body['dec'], ephem.J2000
    f.compute(ephem.J2000 if jd is None else jd - 2415020.)
    return float(f.ra), float(f.dec)


def sep(a, b):
    x, y = [np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)]) for r, d in (a, b)]
    return float(np.arctan2(np.linalg.norm(np.cross(x, y)), x @ y))


def between(x, lo, hi, eps=1e-7):
    """True, False, or None if too close to say."""
    if min(abs(x - lo), abs(x - hi)) < eps:
        return None
    return lo < x < hi if lo < hi else x > lo or x < hi


@P.workload(quick=240, thorough=6000)
def lists(rng, mon):
    """srclist prints exactly the sources that satisfy every selection, with their parameters."""
    cwd = mon.tmp()
    own = scr.own_sources(rng, int(rng.integers(1, 40)), shapes=True)
    by = {s['name']: s for s in own}
    scr.cal(rng, 1, cwd, srcs=own)
    names = list(by)
    args = ['-C', 'gencal']
    jd = None
    if rng.random() < .4:
        jd = scr.jd(rng)
        args += ['-j', repr(jd)]
    flux = lambda s, f: s['jys'] * (f / s['mfreq'])**s['index']

    def some():
        k = rng.integers(3)
        if k == 0:
            return 'all', {n: True for n in names}
        if k == 1:
            c, f = round(float(10. ** rng.uniform(-1, 4)), 2), round(float(rng.uniform(.05, .3)), 3)
            return '%r/%r' % (c, f), {n: None if abs(flux(by[n], f) / c - 1) < 1e-6 else flux(by[n], f) > c for n in names}
        w = [str(x) for x in rng.choice(names, size=int(rng.integers(1, min(len(names), 8) + 1)), replace=False)]
        return ','.join(w), {n: n in w for n in names}

    a, sel = some()
    args += ['-s', a]
    pos = {n: where(by[n], jd) for n in names}
    def both(cond):
        for n in names:
            c = cond(n)
            sel[n] = False if sel[n] is False or c is False else None if sel[n] is None or c is None else True
    if rng.random() < .3:
        a, x = some()
        args += ['-x', a]
        both(lambda n: None if x[n] is None else not x[n])
    if rng.random() < .3:
        a, cen = some()
        s = round(float(rng.uniform(1, 90)), 2)
        args += ['-c', a, '--sep', repr(s)]
        def near(n):
            best = False
            for m in names:
                if cen[m] is False:
                    continue
                q = sep(pos[n], pos[m])
                c = None if abs(q - np.radians(s)) < 1e-7 else bool(q < np.radians(s))
                if m == n:
                    c = True
                c = None if c and cen[m] is None else c
                best = True if c is True or best is True else None if c is None or best is None else False
            return best
        both(near)
    if rng.random() < .4:
        lo, hi = [str(ephem.hours(x)) for x in rng.uniform(0, 2 * np.pi, size=2)]
        args += ['--ra', '%s_%s' % (lo, hi)]
        both(lambda n: between(pos[n][0], float(ephem.hours(lo)), float(ephem.hours(hi))))
    if rng.random() < .4:
        lo, hi = [str(ephem.degrees(x)) for x in rng.uniform(-1.57, 1.57, size=2)]
        args += ['--dec=%s_%s' % (lo, hi)]
        both(lambda n: between(pos[n][1], float(ephem.degrees(lo)), float(ephem.degrees(hi))))
    mode = rng.integers(3)
    div = str(rng.choice([' ', ',', '/', ' + ']))
    prms = [str(p) for p in rng.choice(['jys', 'index', 'ra', 'dec', 'mfreq', 'a1', 'a2', 'th', 'dra', 'ddec'], size=int(rng.integers(1, 5)), replace=False)]
    if mode == 0:
        args += ['--divstr', div] if div != ' ' or rng.random() < .3 else []
    else:
        args += ['-P', ','.join(prms) if mode == 2 or rng.random() < .8 else '*'] + ['--fitprms'] * int(mode == 2)
        if '*' in args:
            prms = ['jys', 'index', 'ra', 'dec', 'mfreq', 'a1', 'a2', 'th', 'dra', 'ddec']
    r = scr.run(mon, rng, 'srclist.py', args, cwd)
    lines = [l for l in r.out.split('\n')]
    if mode == 0:
        got = lines[0].split(div) if lines[0] else []
    elif mode == 1:
        got, vals = [], {}
        for l in lines:
            w = l.split()
            if len(w) == 1:
                got.append(w[0])
                vals[w[0]] = {}
            elif w:
                vals[got[-1]][w[0]] = w[1]
    else:
        d = aipy.scripting.parse_prms(lines[0]) if lines[0] else {}
        got = list(d)
        for n in got:
            mon.eq(sorted(d[n]), sorted(prms), 'srclist %s: parameters of %s' % (args, n))
    m = 'srclist.py %s' % ' '.join(args)
    mon.eq(got, sorted(got), m + ': order of names')
    mon.check(len(set(got)) == len(got), '%s lists a source twice: %s' % (m, got))
    for n in names:
        if sel[n] is not None:
            mon.ev('selected' if sel[n] else 'not_selected')
            mon.check((n in got) == sel[n], '%s: %s %s at %s' % (m, n, 'is missing' if sel[n] else 'was not asked for', pos[n]))
    mon.check(set(got) <= set(names), '%s lists unknown sources %s' % (m, got))
    if mode == 1:
        for n in got:
            s = by[n]
            mon.eq(sorted(vals[n]), sorted(prms), m + ': parameters of ' + n)
            want = dict(s, a1=s['shape'][0], a2=s['shape'][1], th=s['shape'][2], dra=0., ddec=0.)
            for p in prms:
                mon.ev('params')
                w, g = want[p], vals[n][p]
                if p == 'ra':
                    g, w = float(ephem.hours(g)), float(ephem.hours(w))
                elif p == 'dec':
                    g, w = float(ephem.degrees(g)), float(ephem.degrees(w))
                mon.close(float(g), float(w), 1e-6 * abs(float(w)) + 1e-7, '%s: %s of %s' % (m, p, n))
    mon.case('srclist', tuple(args), tuple(got))
    mon.sample(dict(args=args, got=got))


# ---------------------------------------------------------------- uvlist and lst
@P.workload(quick=60, thorough=1500)
def keywords(rng, mon):
    """uvlist prints the value of every keyword asked for, file by file."""
    dss = [scr.obs(rng, nt=1) for _ in range(int(rng.integers(1, 4)))]
    for d in dss:
        for k in ('ngains', 'ntau', 'interval', 'stopt'):
            if rng.random() < .4:
                d.items[k] = float(rng.normal()) if k in ('interval', 'stopt') else int(rng.integers(10**6))
    cwd, names = files(rng, mon, dss)
    first = [dict(d.items, **d.recs[0].vars) for d in dss]
    common = sorted(set(first[0]).intersection(*first) - {'va', 'vb', 'v_1'})
    keys = [str(k) for k in rng.choice(common, size=int(rng.integers(1, min(5, len(common)) + 1)), replace=False)]
    plain = rng.random() < .3
    r = scr.run(mon, rng, 'uvlist.py', ([] if plain else ['-k', ','.join(keys)]) + names, cwd)
    parts = r.out.split('-' * 59 + '\n')
    mon.check(len(parts) == len(names) + 1 and parts[-1] == '', 'uvlist of %d files printed %d parts' % (len(names), len(parts) - 1))
    for n, d, p, f in zip(names, dss, parts, first):
        lines = p.split('\n')
        mon.eq(lines[0], n, 'uvlist: file name')
        if plain:
            got = ast.literal_eval(lines[1].strip())
            uv = aipy.miriad.UV(os.path.join(cwd, n))
            mon.check(set(f) <= set(got) and len(got) == len(set(got)), 'uvlist lists %s' % got)
            mon.eq(sorted(got), sorted(uv.items() + uv.vars()), 'uvlist lists')
            continue
        rest = p[len(n) + 1:]
        for k in keys:
            v = f[k]
            v = str(v) if isinstance(v, str) else v
            head = '     ' + k + '\n' + ' ' * 8 + ' '
            mon.check(rest.startswith(head), 'uvlist -k %s: %r' % (keys, rest))
            rest = rest[len(head):]
            txt = rest[:len(v)] if isinstance(v, str) else rest.split('\n')[0]
            rest = rest[len(txt):]
            if isinstance(v, str):
                mon.eq(txt, v, 'uvlist: ' + k)
                rest = rest.lstrip('\0')
            else:
                mon.close(float(txt), float(v), 1e-6 * abs(v), 'uvlist: ' + k)
            mon.check(rest.startswith('\n'), 'uvlist: after %s: %r' % (k, rest[:20]))
            rest = rest[1:]
        mon.eq(rest, '', 'uvlist prints more than asked')
    mon.case('uvlist', plain, tuple(keys), len(names), dss[0].recs[0].t)


@P.workload(quick=50, thorough=1200)
def times(rng, mon):
    """lst prints the sidereal time, and altitude and next transit of each source."""
    cwd = mon.tmp()
    own = scr.own_sources(rng, int(rng.integers(1, 4)))
    ns = scr.cal(rng, 1, cwd, srcs=own)
    jds = [scr.jd(rng) for _ in range(int(rng.integers(1, 4)))]
    k = rng.integers(4)
    src = ['-s', 'all']
    if k == 0:
        src, shown = [], []
    elif k == 1:
        shown = [own[n] for n in sorted(rng.permutation(len(own))[:rng.integers(1, len(own) + 1)])]
        src = ['-s', ','.join(s['name'] for s in shown)]
    else:
        shown = own
    r = scr.run(mon, rng, 'lst', ['-C', 'gencal'] + src + [repr(j) for j in jds], cwd)
    parts = r.out.split('-' * 70 + '\n')
    mon.check(len(parts) == len(jds) + 1, 'lst printed %d parts for %d times' % (len(parts) - 1, len(jds)))
    o = ephem.Observer()
    aa = ns['get_aa'](np.array([.15]))
    for j, p in zip(jds, parts):
        lines = [l.strip() for l in p.split('\n')]
        val = lambda k: [l for l in lines if l.startswith(k)][0][len(k):].strip()
        o.lat, o.lon, o.elevation, o.pressure, o.date = aa.lat, aa.lon, aa.elev, 0, j - 2415020.
        lst = float(o.sidereal_time())
        mon.close(float(val('LST radians:')), lst, 1e-7, 'lst at %r' % j)
        mon.close(float(ephem.hours(val('LST:'))), lst, 1e-6, 'lst (printed as time) at %r' % j)
        mon.close(float(val('Julian Date:')), j, 1e-9, 'lst: Julian date')
        mon.check(abs(float(ephem.Date(val('Day:'))) - float(o.date)) < 2 / 86400., 'lst: date')
        for nm, b in (('Sun', ephem.Sun()), ('Moon', ephem.Moon())):
            b.compute(o)
            got = ast.literal_eval(val('%s is at (RA, DEC):' % nm))
            mon.close(np.array([float(ephem.hours(got[0])), float(ephem.degrees(got[1]))]), np.array([float(b.ra), float(b.dec)]), 1e-5, 'lst: place of the %s at %r' % (nm, j))
        mon.eq(sorted(l.split()[0] for l in lines if 'ALT=' in l), sorted(s['name'] for s in shown), 'lst: sources shown')
        for s in shown:
            k = [n for n, l in enumerate(lines) if l.startswith(s['name'] + ' ')][0]
            f = ephem.FixedBody()
            f._ra, f._dec = s['ra'], s['dec']
            f.compute(o)
            mon.close(float(ephem.degrees(lines[k].split('ALT=')[1].strip())), float(f.alt), 1e-4, 'lst: altitude of %s' % s['name'])
            t = float(lines[k + 1].split('TRANSIT=')[1])
            mon.check(-2e-5 < t - j < 1.001, 'lst: next transit of %s at %r, now %r' % (s['name'], t, j))
            q = ephem.Observer()
            q.lat, q.lon, q.pressure, q.date = o.lat, o.lon, 0, t - 2415020.
            f.compute(q)
            ha = (float(q.sidereal_time()) - float(f.ra) + np.pi) % (2 * np.pi) - np.pi
            mon.close(ha, 0, 3e-4, 'lst: hour angle at transit of %s' % s['name'])
    mon.case('lst', tuple(jds), len(shown))


# ---------------------------------------------------------------- compress_uv
NOBODY = 65534
ODD = ["in 0.uv", "it's.uv", 'a"b.uv', 'c$HOME.uv', 'd;e.uv', 'f*.uv', 'g&h.uv', 'i(j).uv', 'k`l`.uv', 'm|n.uv', 'o>p.uv', 's t u.uv', 'v#w.uv', 'fall.uv', 'in', '0.uv', 's', 't', 'u.uv']


@P.workload(quick=80, thorough=2000)
def archives(rng, mon):
    """compress_uv keeps every byte: it deletes only what it has archived, and archives restore what was there."""
    cwd = tempfile.mkdtemp(dir='/tmp')
    try:
        _archives(rng, mon, cwd)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


def _archives(rng, mon, cwd):
    os.chown(cwd, NOBODY, NOBODY)
    os.chmod(cwd, 0o755)
    shutil.copy(scr.path('compress_uv.py'), os.path.join(cwd, '.script.py'))
    os.chmod(os.path.join(cwd, '.script.py'), 0o644)

    def go(args, limit=None):
        def pre():
            if limit:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        mon.ev('script_runs')
        mon.ev('run:compress_uv.py')
        mon.ev('new_interpreters')
        try:
            r = subprocess.run([sys.executable, '-B', '.script.py'] + args, cwd=cwd, user=NOBODY, group=NOBODY, extra_groups=[], env={'PATH': os.environ['PATH'], 'HOME': cwd, 'LC_ALL': 'C.UTF-8'},
                               preexec_fn=pre, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        except PermissionError:
            raise Skip
        return r

    def state():
        return {n: scr.tree(os.path.join(cwd, n)) if os.path.isdir(os.path.join(cwd, n)) else open(os.path.join(cwd, n), 'rb').read()
                for n in os.listdir(cwd) if n != '.script.py'}

    odd = rng.random() < .6
    pool = ODD if odd else ['d%d.uv' % k for k in range(12)]
    names = [str(n) for n in rng.choice(pool, size=int(rng.integers(2, 7)), replace=False)]
    mon.ev('odd_names', len(names) if odd else 0)
    for n in names:
        os.mkdir(os.path.join(cwd, n))
        for k in range(int(rng.integers(1, 5))):
            with open(os.path.join(cwd, n, 'item%d' % k), 'wb') as f:
                f.write(rng.integers(0, 256, size=int(rng.choice([0, 10, 3000, 40000])), dtype='u1').tobytes())
    for p, ds, fs in os.walk(cwd):
        for x in ds + fs:
            os.chown(os.path.join(p, x), NOBODY, NOBODY)
    ask = names[:int(rng.integers(1, len(names) + 1))]
    delete = rng.random() < .6
    full = rng.random() < .2
    bad = None
    done = set()
    for n in ask:
        if rng.random() < .15:
            done.add(n)
            with open(os.path.join(cwd, n + '.tar.bz2'), 'w') as f:
                f.write('not to be touched')
            os.chown(f.name, NOBODY, NOBODY)
    if not full and rng.random() < .3:
        n = int(rng.integers(len(ask)))
        if ask[n] not in done:
            bad = n
            if rng.random() < .5:
                ask[n] = 'missing ' + ask[n]
            else:
                os.chmod(os.path.join(cwd, ask[n], 'item0'), 0)      # as root may, the user may not
    before = state()
    r = go(['-d'] * delete + ask, limit=2048 if full else None)
    after = state()
    m = 'compress_uv %s%s: %s' % ('-d ' * delete, ask, r.stdout.decode(errors='replace')[-300:])
    if full:        # archives beyond the limit cannot be written
        mon.ev('full_disks')
        for n in before:
            if n not in after:
                mon.check(delete and n + '.tar.bz2' in after and n in ask, '%s lost %s' % (m, n))
        for n in after:
            if n.endswith('.tar.bz2') and n[:-8] in ask and n not in before:
                mon.check(subprocess.run(['tar', 'tjf', n], cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0, '%s left a malformed %s' % (m, n))
        archived = [n for n in ask if n + '.tar.bz2' in after and n not in done]
    else:
        archived = [n for k, n in enumerate(ask) if n not in done and (bad is None or k < bad)]
        if bad is not None:
            mon.ev('failed_archives')
            mon.check(ask[bad] + '.tar.bz2' not in after, '%s left the archive of what it could not read' % m)
        for n in archived:
            mon.check(n + '.tar.bz2' in after, '%s made no archive of %s' % (m, n))
    for n in before:
        if n in archived and delete:
            mon.ev('deleted')
            mon.check(n not in after, '%s kept %s' % (m, n))
        else:
            mon.ev('kept')
            mon.check(n in after, '%s lost %s' % (m, n))
            mon.check(after[n] == before[n], '%s changed %s' % (m, n))
    mon.eq(sorted(after), sorted({n for n in before if not (delete and n in archived)} | {n + '.tar.bz2' for n in archived}), m + ': files')
    if archived:        # and back, in the same place or after the originals are gone
        if not delete:
            for n in archived:
                shutil.rmtree(os.path.join(cwd, n))
        r = go(['-x'] + [n + '.tar.bz2' for n in archived])
        back = state()
        for n in archived:
            mon.ev('expanded')
            mon.check(n in back, '%s does not come back from its archive: %s' % (n, r.stdout.decode(errors='replace')[-200:]))
            mon.check(back[n] == before[n], '%s comes back changed' % n)
        mon.eq(sorted(set(back) - set(archived)), sorted(set(after) - set(archived)), 'files after expanding')
    mon.case('compress', odd, delete, full, bad, len(done), tuple(ask))


# ---------------------------------------------------------------- modmap
SYS = {'eq': 'Equatorial', 'ec': 'Ecliptic', 'ga': 'Galactic'}


def position(ra, dec, osys, oepoch):
    """Unit vector of a J2000 position in another system, by PyEphem."""
    c = ephem.Equatorial(ra, dec, epoch=ephem.J2000)
    if osys == 'ga':
        c = ephem.Galactic(c)
    elif osys == 'ec':
        c = ephem.Ecliptic(c, epoch=oepoch)
    else:
        c = ephem.Equatorial(c, epoch=oepoch)
    lo, la = (c.ra, c.dec) if osys == 'eq' else (c.lon, c.lat)
    return np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])


def epoch(rng):
    return str(rng.choice(['2000', '2000', '1950', '1900', '2020']))


@P.workload(quick=150, thorough=4000)
def sources_on_maps(rng, mon):
    """modmap adds each source's scaled flux at its place, and nothing else."""
    cwd = mon.tmp()
    ext = rng.random() < .5
    own = scr.own_sources(rng, int(rng.integers(1, 5)), shapes=ext)
    point_ok = True
    ns = scr.cal(rng, 1, cwd, srcs=own)
    nside = int(rng.choice([1, 2, 8, 16, 32, 64]))
    osys, oep = str(rng.choice(['eq', 'eq', 'ec', 'ga'])), epoch(rng)
    f = round(float(rng.uniform(.08, .3)), 3)
    ss = round(float(10. ** rng.uniform(-3, 3)), 5)
    nind = int(rng.choice([0, 0, 1]))
    sel = [str(x) for x in rng.choice([s['name'] for s in own], size=int(rng.integers(1, len(own) + 1)), replace=False)]
    args = ['-C', 'gencal', '-j', repr(scr.jd(rng)), '-s', ','.join(sel), '-f', repr(f), '--nside', nside, '-m', 'm.fits']
    args += ['--osys', osys] if osys != 'eq' or rng.random() < .3 else []
    args += ['--oepoch', oep] if oep != '2000' else []
    args += ['--sscale', repr(ss)] if rng.random() < .6 else []
    args += ['--nindices', nind] if nind else []
    dt = str(rng.choice(['', 'float', 'double']))
    args += ['--dtype', dt] if dt else []
    ss = ss if '--sscale' in args else 1.
    scr.run(mon, rng, 'modmap.py', args, cwd)
    h = aipy.map.Map(fromfits=os.path.join(cwd, 'm.fits'))
    m = 'modmap.py %s' % ' '.join(map(str, args))
    mon.check(h.nside() == nside and len(h.ind) == nind and h.get_dtype() == (np.float32 if dt == 'float' else np.float64), '%s: nside %d, %d indices, %s' % (m, h.nside(), len(h.ind), h.get_dtype()))
    val = np.asarray(h.map.map, float)
    crd = hpx.centers(nside)
    v = np.array([np.sqrt(1 - crd[0]**2) * np.cos(crd[1]), np.sqrt(1 - crd[0]**2) * np.sin(crd[1]), crd[0]])
    want = np.zeros(12 * nside**2)
    touched = np.zeros(12 * nside**2, bool)
    total = 0
    by = {s['name']: s for s in own}
    judged = True
    for n in sel:
        s = by[n]
        flux = s['jys'] * (f / s['mfreq'])**s['index'] * ss
        total += flux
        x = position(ephem.hours(s['ra']), ephem.degrees(s['dec']), osys, oep)
        px = None
        if max(s['shape']) > 0:
            # equatorial coordinates (of the output epoch) of every pixel, from three rotated axes
            q = ephem.Equatorial(ephem.Equatorial(ephem.hours(s['ra']), ephem.degrees(s['dec']), epoch=ephem.J2000), epoch=oep)
            R = np.array([rot(k, osys, oep) for k in np.eye(3)]).T        # equatorial -> osys
            e = R.T @ v
            ra, dec = np.arctan2(e[1], e[0]), np.arcsin(np.clip(e[2], -1, 1))
            dr, dd = (ra - q.ra + np.pi) % (2 * np.pi) - np.pi, dec - q.dec
            a1, a2, th = s['shape']
            d = ((dr * np.cos(th) - dd * np.sin(th)) / a1)**2 + ((dr * np.sin(th) + dd * np.cos(th)) / a2)**2
            if np.abs(d - 1).min() < 1e-4:
                judged = False
            px = np.nonzero(d <= 1)[0]
        if px is not None and len(px):
            mon.ev('extended')
            np.add.at(want, px, flux / len(px))
            touched[px] = True
        else:
            mon.ev('point')
            p = hpx.ang2pix(nside, x[2], np.arctan2(x[1], x[0]), False, eps=1e-4 * nside)
            if p is None:
                judged = False
                continue
            want[p] += flux
            touched[p] = True
    mon.close(val.sum(), total, 1e-5 * total, m + ': total flux')
    if judged:
        mon.close(val, want, 1e-5 * np.abs(want).max(), m + ': pixels')
        if nind:
            i = np.asarray(h.ind[0].map, float)
            mon.eq(np.nonzero(i)[0].tolist(), [p for p in np.nonzero(touched)[0] if i[p] != 0], m + ': indices of untouched pixels')
            mon.check(all(np.min(np.abs(i[p] - np.array([by[n]['index'] for n in sel]))) < 1e-5 for p in np.nonzero(touched)[0]), m + ': index')
    mon.case('modmap', tuple(map(str, args)))


def rot(k, osys, oep):
    """A direction, equatorial at the output epoch, in the output system."""
    ra, dec = np.arctan2(k[1], k[0]), np.arcsin(k[2])
    c = ephem.Equatorial(ra, dec, epoch=oep)
    if osys == 'eq':
        return k
    c = ephem.Galactic(c) if osys == 'ga' else ephem.Ecliptic(c, epoch=oep)
    return np.array([np.cos(c.lat) * np.cos(c.lon), np.cos(c.lat) * np.sin(c.lon), np.sin(c.lat)])


@P.workload(quick=120, thorough=3000)
def maps(rng, mon):
    """modmap scales, degrades (by averaging), retypes and rotates an existing map."""
    cwd = mon.tmp()
    nside = int(rng.choice([4, 8, 16, 32]))
    dt = [np.float32, np.float64][rng.integers(2)]
    nind = int(rng.integers(3))
    scheme = str(rng.choice(['RING', 'NEST']))
    h = aipy.map.Map(nside=nside, scheme=scheme, nindices=nind, dtype=dt)
    npix = 12 * nside**2
    z, phi = hpx.centers(nside, scheme == 'NEST')
    v = np.array([np.sqrt(1 - z**2) * np.cos(phi), np.sqrt(1 - z**2) * np.sin(phi), z])
    isys, osys, iep, oep = 'eq', 'eq', '2000', '2000'
    turn = rng.random() < .5
    if turn:
        isys, osys = str(rng.choice(['eq', 'ec', 'ga'])), str(rng.choice(['eq', 'ec', 'ga']))
        if isys != 'ga' and osys != 'ga':
            iep, oep = epoch(rng), epoch(rng)
    c = rng.normal(size=4)
    smooth = lambda x: c[0] * 3 + c[1:] @ x
    m0 = smooth(v) if turn else rng.normal(size=npix)
    w = float(rng.choice([1., .5, 4.])) if turn or rng.random() < .5 else rng.uniform(.5, 3, size=npix)
    inds = [(smooth(v) * .3 if turn else rng.normal(size=npix)) for _ in range(nind)]
    W = np.ones(npix) * w
    h.map.set_map((m0 * W).astype(dt), scheme)
    h.wgt.set_map(W.astype(dt), scheme)
    for k in range(nind):
        h.ind[k].set_map((inds[k] * W).astype(dt), scheme)
    h.to_fits(os.path.join(cwd, 'i.fits'))
    ms = round(float(10. ** rng.uniform(-3, 3)), 5)
    args = ['-i', 'i.fits', '-m', 'o.fits']
    args += ['--mscale', repr(ms)] if rng.random() < .6 else []
    ms = ms if '--mscale' in args else 1.
    ns = nside
    keep = nind
    if rng.random() < .5:
        ns = int(rng.choice([x for x in (1, 2, 4, 8, 16, 32) if x <= nside]))
        if turn:
            ns = nside
        args += ['--nside', ns]
    odt = str(rng.choice(['', '', 'float', 'double']))
    args += ['--dtype', odt] if odt else []
    if '--nside' in args or odt:
        keep = int(rng.integers(nind + 1))
        args += ['--nindices', keep]
    if turn:
        args += ['--isys', isys, '--osys', osys, '--iepoch', iep, '--oepoch', oep]
    before = open(os.path.join(cwd, 'i.fits'), 'rb').read()
    scr.run(mon, rng, 'modmap.py', args, cwd)
    mon.eq(open(os.path.join(cwd, 'i.fits'), 'rb').read(), before, 'modmap changed its input')
    o = aipy.map.Map(fromfits=os.path.join(cwd, 'o.fits'))
    m = 'modmap.py %s (%s, nside %d, %s)' % (' '.join(map(str, args)), scheme, nside, np.dtype(dt))
    wdt = {'': dt, 'float': np.float32, 'double': np.float64}[odt]
    mon.check(o.nside() == ns and len(o.ind) == keep and o.get_dtype() == wdt, '%s: nside %d, %d indices, %s' % (m, o.nside(), len(o.ind), o.get_dtype()))
    mon.check((np.asarray(o.wgt.map) == 1).all(), m + ': weights')
    eps = 2e-6 if np.float32 in (dt, wdt) else 1e-9
    zo, po = hpx.centers(ns, o.scheme() == 'NEST')
    vo = np.array([np.sqrt(1 - zo**2) * np.cos(po), np.sqrt(1 - zo**2) * np.sin(po), zo])
    if turn:
        mon.ev('rotated')
        R = []
        for k in np.eye(3):        # output axes in the input system
            lo, la = np.arctan2(k[1], k[0]), np.arcsin(k[2])
            q = getattr(ephem, SYS[osys])(lo, la, epoch=oep)
            q = ephem.Galactic(q) if isys == 'ga' else getattr(ephem, SYS[isys])(q, epoch=iep)
            lo, la = (q.ra, q.dec) if isys == 'eq' else (q.lon, q.lat)
            R.append([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
        x = np.array(R).T @ vo
        tol = 2.5 / nside**2 * np.abs(c[1:]).sum() * 3 + eps * 10
        mon.close(np.asarray(o.map.map, float) / ms, smooth(x), tol, m + ': rotated map')
        for k in range(keep):
            mon.close(np.asarray(o.ind[k].map, float), smooth(x) * .3, tol, m + ': rotated index')
    else:
        # which output pixel holds each input pixel
        own = np.arange(npix)
        if scheme == 'RING':
            own = hpx.ring2nest(nside)[own]
        own = own // (nside // ns)**2
        if o.scheme() == 'RING':
            n2r = np.empty(12 * ns**2, int)
            n2r[hpx.ring2nest(ns)] = np.arange(12 * ns**2)
            own = n2r[own]
        if ns < nside:
            mon.ev('degraded')
        sw = np.bincount(own, W, minlength=12 * ns**2)
        mean = lambda a: np.bincount(own, a * W, minlength=12 * ns**2) / sw
        mon.close(np.asarray(o.map.map, float), mean(m0) * ms, eps * 20 * np.abs(m0 * ms).max(), m + ': map')
        for k in range(keep):
            mon.close(np.asarray(o.ind[k].map, float), mean(inds[k]), eps * 20 * np.abs(inds[k]).max(), m + ': index %d' % k)
    mon.case('maps', tuple(map(str, args)), nside, scheme, nind)


if __name__ == '__main__':
    P.main()
