"""K01: source catalogs: positions, fluxes and spectra as published, and queries that select exactly what was asked."""
import importlib, json, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
aipy = load()

P = Prop('K01', rule='an execution queries catalogs (bundled, or made of generated data files) in a random sequence and compares names, positions and '
         'spectra of what is returned with an independent reading of the data; distinct by files, queries and selected sources',
         assumptions=['published tables are read by the byte columns they declare'],
         require=['bundled', 'from_files', 'by_name', 'by_flux', 'whole', 'unavailable', 'unknown', 'own_sources', 'tampered', 'fitted_spectra', 'helm_files', 'strings', 'planets', 'fitted_observed'])

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'data', 'helm.json')
D2R = np.pi / 180


class Src:
    """name, position (degrees), flux model: power law (jys, index, mfreq), or the fitted curve of a Helmboldt source."""
    def __init__(self, name, ra, dec, jys, index=0., mfreq=.150, shape=(0, 0, 0), curve=None):
        self.name, self.ra, self.dec, self.jys, self.index, self.mfreq, self.shape, self.curve = name, ra, dec, jys, index, mfreq, shape, curve

    def flux(self, f):
        if self.curve is not None:
            A, B, C, D = self.curve
            X = np.log10(f / self.mfreq)
            return 10**(A + B * X + (C * np.exp(D * X) if C else 0 * X))
        return self.jys * (f / self.mfreq)**self.index


def helm_src(name, d):
    f74, slope, A, B, C, D, rms = d['fit']
    if A is None or A == -99:
        return Src(name, d['pos'][0], d['pos'][1], f74, -99 if slope is None else slope, .074)
    c = (A, B, C or 0., D or 0.)
    return Src(name, d['pos'][0], d['pos'][1], 10**A, None, .074, curve=c)


def hms(h, m, s):
    return (h + m / 60. + s / 3600.) * 15


def dms(sg, d, m, s):
    return sg * (d + m / 60. + s / 3600.)


MISC = {n: Src(n, None, None, 0, 0., .150) for n in ['Moon', 'Mercury', 'Venus', 'Mars', 'Jupiter', 'Saturn', 'Uranus', 'Neptune']}
for s in [Src('Sun', None, None, 57000, 2., .150, (4.6e-3, 4.6e-3, 0)),
          Src('for', hms(3, 22, 41.7), dms(-1, 37, 12, 30), 170, -.8, .150), Src('pic', hms(5, 19, 49.7), dms(-1, 45, 46, 45), 452, -.8, .160),
          Src('hyd', hms(9, 18, 5.7), dms(-1, 12, 5, 44), 1860, -2.3, .160), Src('cen', hms(13, 25, 27.6), dms(-1, 43, 1, 9), 5144, -.65, .150),
          Src('her', hms(16, 51, 8.15), dms(1, 4, 59, 33.3), 300, -1, .159, (.000669, .000669, 0)),
          Src('sgr', hms(17, 45, 40.), dms(-1, 29, 0, 28), 121, -4.21, .160), Src('crab', hms(5, 34, 32.), dms(1, 22, 0, 52), 1838, -.3, .150),
          Src('vir', hms(12, 30, 49.4), dms(1, 12, 23, 28), 1446, -.86, .150), Src('cyg', hms(19, 59, 28.3), dms(1, 40, 44, 2), 10900, -.69, .150),
          Src('cas', hms(23, 23, 27.94), dms(1, 58, 48, 42.4), 9160, -.73, .150)]:
    MISC[s.name] = s
HELM = {n: helm_src(n, d) for n, d in json.load(open(DATA)).items()} if WORKER else {}


def freqs(rng):
    return np.sort(rng.uniform(.05, .3, size=int(rng.integers(1, 6))))


def check_src(mon, s, m, f):
    mon.eq(s.src_name, m.name, 'name of a source')
    if m.ra is not None:
        mon.close(np.exp(1j * float(s._ra)), np.exp(1j * m.ra * D2R), 1e-9, 'right ascension', name=m.name)
        mon.close(float(s._dec), m.dec * D2R, 1e-9, 'declination', name=m.name)
    mon.close(s.mfreq, m.mfreq, 1e-12, 'frequency of the flux', name=m.name)
    mon.close(s.srcshape, m.shape, 1e-12, 'size of the source', name=m.name)
    mon.close(s.ionref, (0, 0), 0, 'refraction of the source', name=m.name)
    s.update_jys(f)
    want = m.flux(f)
    mon.close(s.get_jys(), want, 1e-9 * abs(want) + 1e-300, 'flux spectrum', name=m.name)
    mon.eq(np.shape(s.get_jys()), np.shape(f), 'shape of the spectrum')
    line = str(s).split('\t')
    mon.eq(line[0], m.name, 'printed name')
    if m.ra is not None:
        mon.eq(line[1:3], [str(s._ra), ('' if s._dec < 0 else '+') + str(s._dec)], 'printed position', name=m.name)
        mon.eq(line[5], str(s.mfreq), 'printed frequency', name=m.name)
        mon.close(float(line[6]), want[0], 1e-9 * abs(want[0]), 'printed flux', name=m.name)
        mon.close(float(line[7]), f[0], 1e-9 * f[0], 'frequency of the printed flux', name=m.name)
        mon.ev('printed')
    if m.curve is not None:
        mon.ev('fitted_spectra')


def own(rng, k):
    return aipy.fit.RadioFixedBody(str(rng.integers(0, 24)) + ':00', str(rng.integers(-80, 80)) + ':30', name='own%d' % k, jys=float(rng.uniform(1, 5)))


def query(rng, mon, world, get, order, tag=()):
    """One query of get_catalog over `world` {catalog: {name: Src}}, checked."""
    names = [str(c) for c in rng.permutation(order)[:rng.integers(1, len(order) + 1)]] if rng.random() < .8 else list(order)
    if rng.random() < .15:
        names.insert(int(rng.integers(len(names) + 1)), 'nosuch')
    allsrc = [n for c in names for n in world.get(c, ())]
    srcs, cut, mine = None, None, []
    if rng.random() < .4:
        srcs = [str(x) for x in rng.permutation(allsrc)[:rng.integers(0, 8)]]
        if rng.random() < .4:
            srcs.append('nobody')
            mon.ev('unknown')
        if rng.random() < .3:
            mine = [own(rng, k) for k in range(rng.integers(1, 3))]
            srcs += mine
            mon.ev('own_sources')
        if rng.random() < .2:
            cut = (float(rng.uniform(1, 50)), .1)
        mon.ev('by_name')
    elif rng.random() < .6:
        fq = float(rng.uniform(.05, .4))
        fl = [m.flux(np.array([fq]))[0] for c in names for m in world.get(c, {}).values()]
        cut = (float(rng.choice(fl)) * float(rng.choice([1 + 1e-6, 1 - 1e-6, 1.5])) if fl and rng.random() < .8 else float(10**rng.uniform(-1, 4)), fq)
        mon.ev('by_flux')
    else:
        mon.ev('whole')
    want, soft = {}, set()
    for c in names:
        for n, m in world.get(c, {}).items():
            if srcs is not None:
                if n in [s for s in srcs if isinstance(s, str)]:
                    want[n] = m
            elif cut is not None:
                x = m.flux(np.array([cut[1]]))[0]
                if abs(x - cut[0]) < 1e-9 * abs(cut[0]):
                    soft.add(n)
                if x > cut[0]:
                    want[n] = m
            else:
                want[n] = m
    if soft:
        raise Skip('flux too close to the cutoff')
    kw = {}
    if srcs is not None or rng.random() < .3:
        kw['srcs'] = srcs
    if cut is not None or rng.random() < .3:
        kw['cutoff'] = cut
    if names != ['helm', 'misc'] or rng.random() < .5:
        kw['catalogs'] = names
    keep = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    cat = get(**kw)
    mon.eq(kw, keep, 'the query was changed')
    mon.check(isinstance(cat, aipy.fit.SrcCatalog), 'not a catalog')
    for s in mine:
        mon.check(dict.get(cat, s.src_name) is s, 'a source given is not the one in the catalog')
        mon.check(s.src_name in cat, 'a source given is missing')
    mon.eq(sorted(set(cat.keys()) - {s.src_name for s in mine}), sorted(want), 'sources selected', query=keep)
    f = freqs(rng)
    some = list(want)
    if len(some) > 40:
        some = [str(x) for x in rng.permutation(some)[:40]]
    for n in some:
        mon.check(dict.__getitem__(cat, n).src_name == n, 'a source is listed under another name')
        check_src(mon, cat[n], want[n], f)
    mon.case(tag, names, srcs and [str(s)[:12] for s in srcs], cut)
    return cat, want, f


@P.workload(quick=600, thorough=20000, cost=2)
def bundled(rng, mon):
    world = {'helm': HELM, 'misc': MISC}
    get = aipy.src.get_catalog if rng.random() < .7 else aipy.cal.get_catalog
    held = []
    for _ in range(int(rng.integers(2, 5))):
        try:
            cat, want, f = query(rng, mon, world, get, ['helm', 'misc'])
        except Skip:
            continue
        mon.ev('bundled')
        # what a caller does with its catalog stays in it
        for c, w, g in held:
            for n in w[:5]:
                mon.eq(c[n]._jys, 12.5, 'a parameter of a source held was changed by another query', name=n)
                mon.eq(len(c[n].jys), len(g), 'the spectrum of a source held was changed by another query', name=n)
        names, ns = [n for n in want], None
        if names and rng.random() < .6:
            ns = [str(x) for x in rng.permutation(names)[:5]]
            cat.set_params({n: {'jys': 12.5, 'mfreq': .2} for n in ns})
            for n in ns:
                cat[n].srcshape[0] = .25
            mon.ev('tampered')
        # access through the catalog
        if names:
            sub = [str(x) for x in rng.permutation(names)[:4]]
            mon.eq([s.src_name for s in cat.get_srcs(*sub)], sub, 'get_srcs(names)')
            mon.eq([s.src_name for s in cat.get_srcs(sub)], sub, 'get_srcs(list)')
            mon.eq([s.src_name for s in cat.get_srcs()], list(cat.keys()), 'get_srcs()')
            mon.eq(cat.get('mfreq', sub), np.array([cat[n].mfreq for n in sub]), 'get(attribute)')
            g = freqs(rng)
            cat.update_jys(g)
            mon.eq(cat.get_jys(sub), np.array([cat[n].jys for n in sub]), 'get_jys')
            mon.eq(cat.get_jys().shape, (len(cat), len(g)), 'get_jys of all')
            for n in sub[:2]:
                s = cat[n]
                if hasattr(s, '_ra'):
                    t = str(s).split('\t')
                    mon.eq(t[0], n, 'name in str()')
                    h = [float(x) for x in t[1].split(':')]
                    d = [float(x) for x in t[2].lstrip('+-').split(':')]
                    mon.close(hms(*h) * D2R, float(s._ra), 2e-6, 'right ascension in str()')
                    mon.close(dms(-1 if t[2].startswith('-') else 1, *d) * D2R, float(s._dec), 2e-6, 'declination in str()')
                    mon.close(float(t[3]), s._jys, 1e-9 * abs(s._jys), 'flux in str()')
                    mon.close(float(t[5]), s.mfreq, 1e-9, 'frequency in str()')
                    mon.close(float(t[6]), s.jys[0], 1e-9 * abs(s.jys[0]), 'present flux in str()')
                    mon.close(float(t[7]), g[0], 1e-9, 'present frequency in str()')
                    mon.ev('strings')
            p = cat.get_params({sub[0]: ['jys', 'index', 'ra', 'dec']})[sub[0]]
            q = cat[sub[0]].get_params()
            for k in p:
                mon.eq(p[k], q[k], 'parameters of one query and of all', name=sub[0], prm=k)
            mon.check({'jys', 'index'} <= set(p), 'parameters are missing')
            if ns:
                held.append((cat, ns, g))


@P.workload(quick=500, thorough=8000, cost=2)
def observed(rng, mon):
    """Sources seen from an array: fluxes at its channels, positions of the date, for every time it is set to."""
    import ephem
    from arr import location, jultime, freqs as bands, angle, channels
    f = bands(rng)
    loc, lat, lon = location(rng)
    beam = aipy.fit.Beam(f)
    aa = aipy.fit.AntennaArray(loc, [aipy.fit.Antenna(0, 0, 0, beam)])
    world = dict(HELM, **MISC)
    names = [str(x) for x in rng.choice(sorted(HELM), size=int(rng.integers(1, 6)), replace=False)] + [str(x) for x in rng.choice(sorted(MISC), size=int(rng.integers(1, 5)), replace=False)]
    cat = aipy.src.get_catalog(names)
    obs = ephem.Observer()
    obs.lat, obs.lon, obs.pressure = aa.lat, aa.lon, 0
    obs.elevation = aa.elev
    chans = np.arange(f.size)
    for _ in range(int(rng.integers(1, 4))):
        jd = jultime(rng)
        aa.set_jultime(jd)
        obs.date = obs.epoch = aa.date
        if rng.random() < .5:
            chans = channels(rng, f.size, chans)
            aa.select_chans(chans)
        cat.compute(aa)
        fa = f[chans]
        want = np.array([world[n].flux(fa) for n in names])
        mon.close(cat.get_jys(names), want, 1e-9 * np.abs(want) + 1e-300, 'fluxes of sources at the channels of the array', names=names)
        for n in names:
            m, s = world[n], cat[n]
            if m.ra is None:
                b = getattr(ephem, n)()
                mon.ev('planets')
            else:
                b = ephem.FixedBody()
                b._ra, b._dec, b._epoch = m.ra * D2R, m.dec * D2R, ephem.J2000
            b.compute(obs)
            mon.close(angle(np.array([s.ra - b.ra, s.dec - b.dec])), np.zeros(2), 1e-8, 'position of the date', name=n)
            mon.close(angle(np.array([(s.az - b.az) * np.cos(b.alt), s.alt - b.alt])), np.zeros(2), 1e-7, 'position above the horizon', name=n)
            x = aipy.coord.azalt2top((b.az, b.alt))
            mon.close(cat.get_crds('top', srcs=[n])[:, 0], x, 1e-7, 'direction above the horizon', name=n)
            p = s.get_params()
            mon.eq(sorted(set(p) - {'mfreq'}), sorted((['ra', 'dec'] if m.ra is not None else []) + ['jys', 'index', 'a1', 'a2', 'th', 'dra', 'ddec']), 'parameters of a source', name=n)
            mon.close(p['jys'], 10**m.curve[0] if m.curve else m.jys, 1e-9 * abs(p['jys']), 'parameter jys', name=n)
            if m.curve:
                mon.close((list(p['index']) + [0, 0, 0])[:3] if isinstance(p['index'], list) else [p['index'], 0, 0], m.curve[1:], 1e-12, 'parameter index', name=n)
                mon.ev('fitted_observed')
            else:
                mon.eq(float(p['index']), float(m.index), 'parameter index', name=n)
            k = [str(x) for x in rng.permutation(sorted(p))[:rng.integers(1, 4)]]
            mon.eq(s.get_params(k + ['nothing']), {x: p[x] for x in k}, 'selected parameters', name=n)
    mon.case('observed', names, jd, lat, lon)


# -- catalogs of data files
def sexa(rng, ra):
    """A sexagesimal position in the styles of the published tables, and its value in degrees."""
    h = int(rng.integers(0, 24 if ra else 90))
    m = int(rng.integers(0, 60))
    k = rng.integers(3)
    if k == 0:
        m = float('%.1f' % (m + rng.random() * .9))
        txt, v = '%02d %04.1f' % (h, m), (h, m, 0.)
    elif k == 1:
        s = int(rng.integers(0, 60))
        txt, v = '%02d %02d %02d' % (h, m, s), (h, m, s)
    else:
        s = float('%.2f' % (rng.random() * 59.9))
        txt, v = '%02d %02d %05.2f' % (h, m, s), (h, m, s)
    if ra:
        return txt, hms(*v)
    sg = -1 if rng.random() < .5 else 1
    return ('-' if sg < 0 else '+') + txt, dms(sg, *v)


#           file                 name ra dec flux scale mfreq index columns
VIZIER = {
    'three_c': ('3c.txt', 2, 0, 1, 9, 1, .159, None, 10), 'three_cr': ('3cr.txt', 2, 0, 1, 7, 1, .178, None, 8), 'four_c': ('4c.txt', 2, 0, 1, 5, 1, .178, None, 6),
    'six_c': (None, None, 0, 1, 4, 1, .151, None, 5), 'seven_c': ('7c.txt', None, 0, 1, 5, 1, .151, None, 6), 'gbsix': ('gb6.txt', 18, 0, 1, 8, 1000, 4.85, None, 19),
    'nvss': ('nvss.txt', 2, 3, 4, 7, 1000, 1.4, None, 8), 'parkes': ('parkes.txt', 11, 0, 1, 9, 1, 2.7, None, 12), 'txs': ('txs.txt', 2, 0, 1, 7, 1, .365, 10, 11),
    'vlss': ('vlss.txt', 2, 3, 4, 5, 1, .074, None, 6), 'wenss': ('wenss.txt', 2, 4, 5, 9, 1000, .33, None, 10), 'paper': ('paper.txt', 3, 1, 2, 4, 1, .15, None, 5),
    'culgoora': ('culgoora.txt', 2, 0, 1, 7, 1, .16, 10, 11), 'mrt': ('CatalogueMRTa.txt', 0, 1, 2, 3, 1, .15, None, 4)}
SIXC = ['6c1.txt', '6c2.txt', '6c3.txt', '6c4.txt', '6c5_1.txt', '6c5_2.txt']


def number(rng):
    x = 10.**rng.uniform(-2, 4)
    t = str(rng.choice(['%.2f', '%.3f', '%d', ' %.1f', '%.2f ', '%.1e'])) % x
    return (t, float(t)) if float(t) > 0 else ('1.', 1.)


def rows(rng, kind, n, base):
    """Text lines and the sources they publish."""
    fn, cn, cra, cdec, cf, scale, mf, ci, ncol = VIZIER[kind]
    lines, out = [], {}
    if kind == 'mrt':
        lines = ['header %d  whatever  1 2' % k for k in range(4)]
    else:
        lines = ['#', '# ' + kind, '#Column\t1\t2\t3\t4\t5', '_RAJ2000\t_DEJ2000\tName\ta\tb\tc\td\te', '"h:m:s"\t"d:m:s"\t \t \t \t \t ', '-' * 8 + '\t' + '\t'.join(['---'] * 8), '']
    for k in range(n):
        ra, rv = sexa(rng, True)
        dec, dv = sexa(rng, False)
        name = str(rng.choice(['%s%d' % (base, k), '%s %d+%d' % (base, k, rng.integers(99)), '  %s%d.1 ' % (base, k)])) if kind != 'mrt' else '%s%d' % (base, k)
        ft, fv = number(rng)
        if kind == 'mrt':
            lines.append(str(rng.choice([' ', '   ', '\t'])).join([name, ra.replace(' ', ':'), dec.replace(' ', ':'), ft.strip()] + ['%d' % rng.integers(9)] * int(rng.integers(0, 3))))
            out[name] = Src(name, rv, dv, fv, 0, mf)
            continue
        cols = [str(rng.choice(['', ' ', '12.5', 'x', '-3', '1 2 3'])) for _ in range(ncol + int(rng.integers(0, 3)))]
        if cra != 0:
            cols[0] = '%d' % rng.integers(1, 999) if kind != 'paper' else ' %d' % rng.integers(1, 999)
        cols[cra], cols[cdec], cols[cf] = ra, dec, ft
        if kind == 'paper':
            cols[cra], cols[cdec] = ra.replace(' ', ':'), dec.replace(' ', ':')
        if cn is not None:
            cols[cn] = name
            name = name.strip()
        else:
            name = '%s_%s' % (ra.replace(' ', ':'), dec.replace(' ', ':'))
        src = Src(name, rv, dv, fv / scale, 0, mf)
        if kind == 'txs':
            cols[ci] = str(rng.choice(['-0.85', ' ', '1.2']))
            src.index = float(cols[ci]) if cols[ci].strip() else 0
        if kind == 'culgoora':
            t8, v8 = number(rng)
            cols[6], cols[8] = str(rng.choice(['', '<', ' '], p=[.4, .2, .4])), str(rng.choice(['', '<', ' '], p=[.4, .2, .4]))
            if rng.random() < .6:       # both
                cols[7], cols[9] = ft, t8
                if rng.random() < .5:
                    cols[10] = '%.2f' % rng.uniform(-2, 1)
                    src.index = float(cols[10])
                else:
                    cols[10] = ' '
                    if cols[6] == '<':
                        src.jys, src.mfreq = v8, .080
                        if cols[8] == '<':
                            src = None
            elif rng.random() < .5:
                cols[7], cols[9], cols[10] = ft, '', ''
            else:
                cols[7], cols[9], cols[10] = ' ', t8, ' '
                src.jys, src.mfreq = v8, .080
        if kind == 'parkes' and rng.random() < .2:
            cols[cf] = '     '
            src = None
        lines.append('\t'.join(cols))
        if rng.random() < .1:
            lines.append(str(rng.choice(['', '#1 2 3\t4\t5\t6\t7\t8\t9\t10', '1 2\t3'])))
        if src is not None:
            out[name] = src
    return lines, out


class Farm:
    """The data directory of the package, replaced by a scratch copy without data files, with nothing loaded."""
    def __init__(self, mon):
        self.dir = os.path.join(mon.tmp(), 'aipy')
        self.src = os.path.join(self.dir, '_src')
        shutil.copytree(os.path.join(os.path.dirname(aipy.__file__), '_src'), self.src, ignore=shutil.ignore_patterns('__pycache__', *[v[0] for v in VIZIER.values() if v[0]] + SIXC))

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k.startswith('aipy._src') or k == 'aipy.src'}
        self.path, self.attrs = list(aipy.__path__), (aipy._src, aipy.src)
        for k in self.saved:
            del sys.modules[k]
        del aipy._src, aipy.src
        aipy.__path__.insert(0, self.dir)
        importlib.invalidate_caches()
        importlib.import_module('aipy._src')
        return importlib.import_module('aipy.src')

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k.startswith('aipy._src') or k == 'aipy.src']:
            del sys.modules[k]
        sys.modules.update(self.saved)
        aipy._src, aipy.src = self.attrs
        aipy.__path__[:] = self.path


@P.workload(quick=500, thorough=15000, cost=3)
def files(rng, mon):
    farm = Farm(mon)
    with farm as src:
        mon.check(src.__file__.startswith(os.path.dirname(aipy.__file__)), 'wrong module')
        kinds = [str(k) for k in rng.permutation(sorted(VIZIER))[:rng.integers(1, 5)]]
        todo, world = {}, {}
        for i, k in enumerate(kinds):
            lines, out = rows(rng, k, int(rng.integers(1, 14)), 'N%d.' % i if rng.random() < .8 else 'same')
            if k == 'six_c':
                parts = [[] for _ in SIXC]
                for L in lines:
                    parts[rng.integers(6)].append(L)
                todo[k] = (list(zip(SIXC, parts)), out)
            else:
                todo[k] = ([(VIZIER[k][0], lines)], out)
        def install(k):
            for fn, lines in todo[k][0]:
                with open(os.path.join(farm.src, fn), 'w') as f:
                    f.write('\n'.join(lines) + ('\n' if lines else ''))
            world[k] = todo.pop(k)[1]
        for _ in range(int(rng.integers(3, 9))):
            if todo and rng.random() < .5:
                k = str(rng.choice(sorted(todo)))
                for _ in range(int(rng.integers(0, 3))):
                    with mon.raises(Exception, 'a catalog whose data file is not there'):
                        src.get_catalog(catalogs=[k], **[{}, {'srcs': ['x']}, {'cutoff': (1., .1)}][rng.integers(3)])
                    mon.ev('unavailable')
                install(k)
            if not world:
                continue
            w = dict(world)
            if rng.random() < .2:
                w['misc'] = MISC
            try:
                cat, want, f = query(rng, mon, w, src.get_catalog, sorted(w), tuple(kinds))
            except Skip:
                continue
            mon.ev('from_files')
            if 'culgoora' in w and 'culgoora' in sys.modules['aipy._src'].__dict__:
                mon.ev('culgoora')
            if want and rng.random() < .3:
                n = sorted(want)[0]
                cat.set_params({n: {'jys': 1e5, 'index': 3.}})
                mon.ev('tampered')
            for k in list(world):
                if world[k] and rng.random() < .2:      # exactly at the cutoff is not above it
                    n = str(rng.choice(sorted(world[k])))
                    m = world[k][n]
                    if VIZIER[k][5] == 1 and m.index == 0:
                        got = src.get_catalog(cutoff=(m.jys, .2), catalogs=[k])
                        mon.check(n not in got, 'a flux equal to the cutoff is above it', name=n, catalog=k)


@P.workload(quick=300, thorough=10000)
def helm_files(rng, mon):
    pos, fit, want, meta = ['Title', 'Bytes'], ['Title', '-' * 20], {}, {}
    for k in range(int(rng.integers(1, 12))):
        name = 'J%04d%s%03d' % (rng.integers(0, 2400), rng.choice(['+', '-']), k)
        h, m, s = int(rng.integers(0, 24)), int(rng.integers(0, 60)), float('%.1f' % rng.uniform(0, 59.9))
        sg, d, dm, ds = int(rng.choice([-1, 1])), int(rng.integers(0, 90)), int(rng.integers(0, 60)), float('%.1f' % rng.uniform(0, 59.9))
        nc = int(rng.integers(1, 6))
        ms = []
        for _ in range(int(rng.integers(1, 6))):
            v = (int(rng.integers(10, 99999)), float('%.2f' % 10**rng.uniform(-1, 3)), float('%.2f' % 10**rng.uniform(-1, 2)))
            ms.append((v[0] / 1e3, v[1], v[2]))
            pos.append('%-9s %-22s %d %02d %02d %04.1f %s%02d %02d %04.1f %6d %8.2f %7.2f' % (name, 'other', nc, h, m, s, '-' if sg < 0 else '+', d, dm, ds, v[0], v[1], v[2]))
        f74 = float('%.1f' % rng.uniform(15, 900))
        form = rng.integers(5)
        F = [f74] + [None] * 6
        if form > 0:
            F[1], ext = float('%.2f' % rng.normal()), float('%.1f' % rng.uniform(10, 100))
        if form > 1:
            F[2], F[3], F[6] = float('%.2f' % rng.uniform(.5, 3)), float('%.2f' % rng.normal()), float('%.3f' % rng.uniform(0, .3))
        if form > 2:
            F[4], F[5] = float('%.2f' % rng.normal()), float('%.2f' % rng.uniform(-3, 1))
        if form == 4:
            F[2] = -99.
        w = ['' if x is None else '%.2f' % x for x in F[1:6]]
        fit.append(('%-9s %2d %7.1f %5s %6s %6s %6s %6s %7s %7s' % (name, len(ms), f74, w[0], '' if form == 0 else '%.1f' % ext, w[1], w[2], w[3], w[4], '' if F[6] is None else '%.3f' % F[6])).ljust(71))
        want[name] = helm_src(name, dict(pos=(hms(h, m, s), dms(sg, d, dm, ds)), fit=F))
        meta[name] = (ms, nc, -1 if F[6] is None else F[6])
    d = mon.tmp()
    for fn, L in (('p', pos), ('f', fit)):
        with open(os.path.join(d, fn), 'w') as f:
            f.write('\n'.join(L) + '\n')
    again = rng.random() < .3
    for _ in range(2 if again else 1):
        cat = aipy._src.helm.HelmboldtCatalog()
        cat.fromfile(os.path.join(d, 'p'), os.path.join(d, 'f'))
    mon.eq(sorted(cat.keys()), sorted(want), 'sources of the files')
    f = freqs(rng)
    for n in want:
        check_src(mon, cat[n], want[n], f)
        mon.eq([tuple(x) for x in cat.get_metadata()[n]], meta[n][0], 'measurements', name=n)
        mon.eq(cat.get_ncomp()[n], meta[n][1], 'components', name=n) if n not in SEEN else None
        SEEN.add(n)
        mon.eq(cat.get_rms()[n], meta[n][2], 'rms', name=n)
        prm = cat[n].get_params()
        mon.close(prm['jys'], want[n].jys, 1e-9 * want[n].jys, 'jys parameter')
        if want[n].curve is not None:
            i = (list(prm['index']) + [0, 0])[:3]
            mon.close(i[:1], want[n].curve[1:2], 1e-12, 'index parameters')
            # a fit step on a fitted source scales its spectrum
            cat.set_params({n: {'jys': prm['jys'] * 2}})
            cat[n].update_jys(f)
            mon.close(cat[n].get_jys(), 10**(np.log10(2) + np.log10(want[n].flux(f))), 1e-9 * want[n].flux(f) * 2, 'spectrum after doubling the flux')
    mon.ev('helm_files')
    mon.case(len(want), again, sorted(want)[0])


SEEN = set()

if __name__ == '__main__':
    P.main()
