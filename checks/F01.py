"""F01: fit parameters read back as set, act on exactly what they name, and are not linked to what they were set from or read into."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from arr import *
aipy = load()

P = Prop('F01', rule='an execution takes an array or a catalogue through a generated history of setting and reading parameters (and altering what was passed '
         'or returned) and compares every parameter and derived quantity with a model; distinct by history and values',
         assumptions=['phase polynomials with at least two coefficients', 'delay/offset and the whole phase polynomial are not set together'],
         require=['set', 'read', 'selected', 'isolated', 'polarized', 'beam_gauss', 'beam_poly', 'beam_alm', 'catalog', 'copied', 'derived', 'helmboldt', 'bare'])


def poly(c, f):
    return sum(x * f**(len(c) - 1 - k) for k, x in enumerate(c)) + 0 * f


class Array:
    """A model of every parameter of every antenna."""
    def __init__(self, rng, mon, n=None, like=None):
        self.polm = rng.random() < .35 if like is None else like.polm
        n = n or int(rng.integers(1, 5))
        self.f = freqs(rng) if like is None else like.f
        self.m, self.kinds = [], []
        ants = []
        common = [list(rng.normal(size=3)), list(rng.normal(size=2)), list(rng.normal(size=2)), float(rng.normal())]
        for k in range(n):
            kind = ['flat', 'gauss', 'gauss', 'poly', 'alm'][rng.choice(5, p=[.3, .25, .2, .2, .05])] if like is None else like.kinds[k]
            self.kinds.append(kind)
            p = dict(zip('xyz', rng.normal(size=3)))
            share = rng.random() < .4
            dflt = not self.polm and rng.random() < .3
            kw = {}
            for pl in (['x', 'y'] if self.polm else ['']):
                s = '_' + pl if pl else ''
                c = common if share else [list(rng.normal(size=rng.integers(2, 5))) if like is None else list(rng.normal(size=len(like.m[k]['phsoff' + s]))),
                                          list(rng.normal(size=rng.integers(1, 4))), list(rng.normal(size=rng.integers(1, 4))), float(rng.normal())]
                if like is not None:
                    c = [list(rng.normal(size=len(like.m[k]['phsoff' + s]))), list(rng.normal(size=len(like.m[k]['bp_r' + s]))),
                         list(rng.normal(size=len(like.m[k]['bp_i' + s]))), float(rng.normal())]
                    dflt = False
                if dflt:
                    c = [[0., 0.], [1], [0], 1]
                p['phsoff' + s], p['bp_r' + s], p['bp_i' + s], p['amp' + s] = [list(x) if np.ndim(x) else x for x in c]
                if rng.random() < .2:
                    c = [tuple(x) if isinstance(x, list) else x for x in c]
                for a, b in (('phsoff', c[0]), ('bp_r', c[1]), ('bp_i', c[2]), ('amp', c[3])):
                    if pl:
                        kw.setdefault(a, {})[pl] = b
                    elif not dflt:
                        kw[a] = b
            if kind == 'flat':
                bm = aipy.fit.Beam(self.f)
            elif kind == 'gauss':
                p['bm_xwidth'], p['bm_ywidth'] = [float(x) for x in rng.uniform(.2, 2, size=2)]
                bm = aipy.fit.Beam2DGaussian(self.f, p['bm_xwidth'], p['bm_ywidth'])
            elif kind == 'poly':
                c = rng.uniform(2, 4, size=(2, 3)) if like is not None else rng.uniform(2, 4, size=(rng.integers(1, 3), rng.integers(1, 4)))
                if like is not None:
                    c = rng.uniform(2, 4, size=like.shapes[k])
                self.shapes = getattr(self, 'shapes', {})
                self.shapes[k] = c.shape
                p['bm_poly'] = list(c.ravel())
                bm = aipy.fit.BeamPolynomial(self.f, c)
            else:
                deg = 1
                co = {q: rng.normal(size=6) + 1j * rng.normal(size=6) for q in range(deg + 1)}
                bm = aipy.fit.BeamAlm(self.f, lmax=2, mmax=2, deg=deg, nside=4, coeffs=co)
                for q in co:
                    p['alm%d' % q] = list(np.array([co[q].real, co[q].imag]).T.ravel())
            if kind != 'flat':
                mon.ev('beam_' + kind)
            self.m.append(p)
            A = aipy.pol.Antenna if self.polm else aipy.fit.Antenna
            ants.append(A(p['x'], p['y'], p['z'], beam=bm, **kw))
        loc, self.lat, self.lon = location(rng)
        self.aa = (aipy.pol.AntennaArray if self.polm else aipy.fit.AntennaArray)(loc, ants)
        self.ants = ants
        if self.polm:
            mon.ev('polarized')

    def full(self, k):
        p = dict(self.m[k])
        for s in (['_x', '_y'] if self.polm else ['']):
            p['dly' + s], p['off' + s] = p['phsoff' + s][-2], p['phsoff' + s][-1]
        return p

    def verify(self, mon, what):
        got = self.aa.get_params()
        want = {str(k): self.full(k) for k in range(len(self.m))}
        compare(mon, got, want, what)
        mon.ev('read')
        for k, a in enumerate(self.ants):
            p = self.m[k]
            mon.close(np.array(list(a)), np.array([p['x'], p['y'], p['z']]), 0, 'position of antenna %d %s' % (k, what))
            for s in (['_x', '_y'] if self.polm else ['']):
                po = a.phsoff[s[1:]] if s else a.phsoff
                pb = a.passband(pol=s[1:]) if s else a.passband()
                mon.close(po, poly(p['phsoff' + s], self.f), 1e-12 * (1 + np.abs(p['phsoff' + s]).sum() * 10), 'phase offset of antenna %d %s' % (k, what))
                g = p['amp' + s] * (poly(p['bp_r' + s], self.f) + 1j * poly(p['bp_i' + s], self.f))
                mon.close(pb, g, 1e-12 * (1 + abs(p['amp' + s]) * (np.abs(p['bp_r' + s]).sum() + np.abs(p['bp_i' + s]).sum()) * 20), 'pass-band of antenna %d %s' % (k, what))
            mon.ev('derived')
            v = np.array([[.3, .0, -.2], [.1, .5, .6], [0, 0, 0]])
            v[2] = np.sqrt(1 - v[0]**2 - v[1]**2)
            if self.kinds[k] == 'gauss':
                r = np.exp(-.25 * ((np.arcsin(v[0]) / p['bm_xwidth'])**2 + (np.arcsin(v[1]) / p['bm_ywidth'])**2))
                mon.close(a.beam.response(v), np.repeat(r[None], self.f.size, axis=0), 1e-12, 'beam of antenna %d %s' % (k, what))
            elif self.kinds[k] == 'poly':
                c = np.reshape(p['bm_poly'], self.shapes[k])
                az, za = np.arctan2(v[0], v[1]), np.arccos(v[2])
                sg = sum(c[q, n] * np.multiply.outer(.5 + 0 * az if q == 0 else np.cos(2 * q * az), self.f**n) for q in range(c.shape[0]) for n in range(c.shape[1]))
                if np.abs(sg).min() > .1:
                    mon.close(a.beam.response(v), np.exp(-.5 * (za[:, None] / sg)**2).T, 1e-10, 'beam of antenna %d %s' % (k, what))


def compare(mon, got, want, what):
    mon.eq(set(got), set(want), 'names of what has parameters, ' + what)
    for k in want:
        mon.eq(set(got[k]), set(want[k]), 'names of the parameters of %s, %s' % (k, what))
        for p in want[k]:
            g, w = got[k][p], want[k][p]
            mon.check(np.ndim(g) == np.ndim(w), 'parameter %s of %s is %s, not %s, %s' % (p, k, short(g), short(w), what))
            mon.close(np.asarray(g, float), np.asarray(w, float), 1e-14 * (1 + np.abs(w).max()), 'parameter %s of %s, %s' % (p, k, what))


def new_value(rng, old):
    if np.ndim(old) == 0:
        return float(rng.uniform(.3, 3))
    v = rng.uniform(.5, 4, size=len(old))
    return [list(v), v, tuple(v)][rng.integers(3)]


def conflicting(names, p):
    """dly/off set parts of phsoff: not both in one call."""
    s = p[p.index('_'):] if p.startswith(('dly_', 'off_', 'phsoff_')) else ''
    b = p.split('_')[0] if p.startswith(('dly', 'off', 'phsoff')) else None
    if b == 'phsoff':
        return 'dly' + s in names or 'off' + s in names
    if b in ('dly', 'off'):
        return 'phsoff' + s in names
    return False


@P.workload(quick=4500, thorough=15000)
def antennas(rng, mon):
    A = Array(rng, mon)
    n = len(A.m)
    A.verify(mon, 'as built')
    ops = []
    for step in range(int(rng.integers(1, 7))):
        op = ['set', 'set', 'read', 'self', 'tamper'][rng.integers(5)]
        ops.append(op)
        if op == 'set':
            prms, given = {}, []
            for k in rng.permutation(n)[:rng.integers(1, n + 1)]:
                names = list(A.full(k))
                d = {}
                for p in rng.permutation(names)[:rng.integers(1, min(6, len(names)) + 1)]:
                    p = str(p)
                    if conflicting(d, p):
                        continue
                    d[p] = new_value(rng, A.full(k)[p])
                    given.append(d[p])
                    val = list(d[p]) if np.ndim(d[p]) else d[p]
                    base = p.split('_')[0]
                    s = p[3:] if base in ('dly', 'off') else ''
                    if base == 'dly':
                        A.m[k]['phsoff' + s][-2] = val
                    elif base == 'off':
                        A.m[k]['phsoff' + s][-1] = val
                    else:
                        A.m[k][p] = val
                if rng.random() < .2:
                    d['no_such_parameter'] = 3.
                prms[str(int(k))] = d
            if rng.random() < .1:
                prms['77'] = {'x': 5.}
            import copy
            before = copy.deepcopy(prms)
            A.aa.set_params(prms)
            mon.check(same(prms, before) and all(np.shape(x) == np.shape(y) for k in prms for x, y in zip(prms[k].values(), before[k].values())),
                      'setting parameters changed the dictionary', ops=ops)
            for v in given:                      # what was passed is the caller's to reuse
                if isinstance(v, np.ndarray):
                    v[...] = 77.
                elif isinstance(v, list):
                    v[:] = [88.] * len(v)
            mon.ev('set')
            mon.ev('isolated')
        elif op == 'read':
            sel, want = {}, {}
            for k in rng.permutation(n)[:rng.integers(1, n + 1)]:
                names = list(A.full(k))
                pick = [str(p) for p in rng.permutation(names)[:rng.integers(1, 4)]]
                if rng.random() < .2:
                    pick.append('nonsense')
                q = pick[0] if rng.random() < .2 else pick
                sel[str(int(k))] = q
                want[str(int(k))] = {p: A.full(k)[p] for p in ([q] if isinstance(q, str) else q) if p in names}
            if rng.random() < .4:
                pick = ['x', 'bm_xwidth', 'amp', 'amp_x', 'phsoff']
                sel = {'*': pick}
                want = {str(k): {p: A.full(k)[p] for p in pick if p in A.full(k)} for k in range(n)}
            compare(mon, A.aa.get_params(sel), want, 'selected')
            mon.ev('selected')
        elif op == 'self':
            A.aa.set_params(A.aa.get_params())
        else:
            got = A.aa.get_params()
            for d in got.values():
                for v in d.values():
                    if isinstance(v, list):
                        v[:] = [99.] * len(v)
                    elif isinstance(v, np.ndarray):
                        v[...] = 99.
            mon.ev('isolated')
        A.verify(mon, 'after ' + '+'.join(ops))
    if rng.random() < .3:
        B = Array(rng, mon, n=n, like=A)
        g = A.aa.get_params()
        B.aa.set_params(g)
        B.m = A.m
        B.verify(mon, 'copied to another array')
        mon.ev('copied')
    mon.case('ant', tuple(ops), tuple(tuple(sorted((k, str(v)) for k, v in m.items())) for m in A.m))


@P.workload(quick=3600, thorough=12000)
def alm_beam(rng, mon):
    """A spherical-harmonic beam reads back what it was made of, term by term; setting what was read changes nothing."""
    if rng.random() < .75:
        raise Skip()
    f = freqs(rng)
    l = int(rng.integers(1, 4))
    ncoef = (l + 1) * (l + 2) // 2
    deg = int(rng.integers(0, 3))
    co = {q: rng.normal(size=ncoef) + 1j * rng.normal(size=ncoef) for q in range(deg + 1)}
    bm = aipy.fit.BeamAlm(f, lmax=l, mmax=l, deg=deg, nside=4, coeffs=co)
    v = rng.normal(size=(3, 4))
    v /= np.sqrt((v**2).sum(axis=0))
    r0 = bm.response(v)
    p = bm.get_params()
    for q in co:
        c = np.reshape(p['alm%d' % q], (ncoef, 2))
        mon.close(c[:, 0] + 1j * c[:, 1], co[q], 1e-15, 'coefficients of term %d' % q)
    bm.set_params(p)
    mon.close(bm.response(v), r0, 1e-12 * np.abs(r0).max(), 'response after setting what was read')
    q = int(rng.integers(deg + 1))
    c2 = rng.normal(size=ncoef) + 1j * rng.normal(size=ncoef)
    bm.set_params({'alm%d' % q: list(np.array([c2.real, c2.imag]).T.ravel())})
    fresh = aipy.fit.BeamAlm(f, lmax=l, mmax=l, deg=deg, nside=4, coeffs=dict(co, **{}) if False else {**co, q: c2})
    mon.close(bm.response(v), fresh.response(v), 1e-12 * (1 + np.abs(r0).max()), 'response after setting term %d' % q)
    mon.ev('beam_alm')
    mon.case('alm', l, deg, v.tobytes())


HELM = []


def helmboldt(rng):
    """A body of the Helmboldt catalogue, whose spectrum has up to three coefficients."""
    import copy
    if not HELM:
        cat = aipy.src.get_catalog(catalogs=['helm'])
        HELM.extend([cat[k] for k in sorted(cat.keys()) if np.ndim(cat[k].index)][:9])
    return copy.deepcopy(HELM[rng.integers(len(HELM))])


def spectrum(p, f):
    mf = p.get('mfreq', p.get('_mf'))
    if '_helm' in p:
        x = np.log10(f / mf)
        b, c, d = (list(np.atleast_1d(p['index'])) + [0, 0, 0])[:3]
        return 10**(np.log10(p['jys']) + b * x + c * np.exp(d * x))
    return p['jys'] * (f / mf)**p['index']


@P.workload(quick=600, thorough=4000)
def bare(rng, mon):
    """Bodies made with as little as possible have the documented defaults at every level."""
    lvl = [aipy.phs, aipy.amp, aipy.fit][rng.integers(3)]
    kw = {}
    for k, v in (('mfreq', float(rng.uniform(.05, .5))), ('ionref', tuple(rng.normal(size=2))), ('srcshape', tuple(rng.normal(size=3)))):
        if rng.random() < .4:
            kw[k] = v
    if rng.random() < .5:
        nm = str(rng.choice(['Sun', 'Moon', 'Jupiter']))
        b = lvl.RadioSpecial(nm, **kw)
    else:
        nm = str(rng.choice(['', 'a b', 'x']))
        kw2 = dict(name=nm) if nm else {}
        ra, dec = float(rng.uniform(0, TAU)), float(rng.uniform(-1.5, 1.5))
        b = lvl.RadioFixedBody(ra, dec, **kw2, **kw)
        mon.check((float(b._ra), float(b._dec)) == (ra, dec), 'right ascension or declination of a new source')
    mon.eq(b.src_name, nm, 'name of a new source')
    mon.check(float(b.mfreq) == kw.get('mfreq', .150), 'frequency of a new source', got=float(b.mfreq), given=kw)
    mon.eq(np.array(b.ionref, float), np.array(kw.get('ionref', (0., 0.))), 'offset of a new source')
    mon.eq(np.array(b.srcshape, float), np.array(kw.get('srcshape', (0., 0., 0.))), 'shape of a new source')
    if lvl is not aipy.phs:
        b.update_jys(np.array([.05, .15]))
        mon.close(b.get_jys(), np.zeros(2), 0, 'flux of a new source')
    if lvl is aipy.fit:
        p = b.get_params()
        mon.check(p['jys'] == 0 and p['index'] == -1, 'flux of a new source', got=p)
    mon.ev('bare')
    mon.case('bare', lvl.__name__, nm, str(kw))


@P.workload(quick=4500, thorough=15000)
def catalog(rng, mon):
    m, srcs = {}, []
    for k in range(int(rng.integers(1, 5))):
        nm = 's%d' % k
        p = dict(jys=float(rng.exponential()), index=float(rng.normal()), a1=.01, a2=.02, th=.3, dra=float(rng.normal()), ddec=0., mfreq=float(rng.uniform(.1, .5)))
        kw = dict(jys=p['jys'], index=p['index'], mfreq=p['mfreq'])
        shape, ion = (p['a1'], p['a2'], p['th']), (p['dra'], p['ddec'])
        if rng.random() < .3:
            shape, ion = (0., 0., 0.), (0., 0.)
            p.update(a1=0., a2=0., th=0., dra=0., ddec=0.)
        else:
            kw.update(srcshape=list(shape), ionref=ion)
        if k == 1 and rng.random() < .5:
            nm = 'Sun'
            srcs.append(aipy.fit.RadioSpecial('Sun', **kw))
            p.pop('mfreq')
            p['_mf'] = kw['mfreq']
        else:
            p['ra'], p['dec'] = float(rng.uniform(0, TAU)), float(rng.uniform(-1.5, 1.5))
            srcs.append(aipy.fit.RadioFixedBody(p['ra'], p['dec'], name=nm, **kw))
        m[nm] = p
    if rng.random() < .3:
        h = helmboldt(rng)
        q = [float(x) for x in rng.uniform(-1, 1, size=3)]
        p = dict(jys=float(rng.uniform(.5, 5)), index=list(q), a1=.1, a2=.2, th=.3, dra=float(rng.normal()), ddec=float(rng.normal()), ra=float(rng.uniform(0, TAU)), dec=float(rng.uniform(-1.5, 1.5)))
        h.set_params({k: list(v) if isinstance(v, list) else v for k, v in p.items()})
        p.update(_mf=float(h.mfreq), _helm=1)
        srcs.append(h)
        m[h.src_name] = p
        mon.ev('helmboldt')
    cat = aipy.fit.SrcCatalog(srcs)
    vis = lambda p: {k: v for k, v in p.items() if k[0] != '_'}
    f = freqs(rng)
    aa = aipy.fit.AntennaArray(('38:0', '-80:0'), [aipy.fit.Antenna(0, 0, 0, beam=aipy.fit.Beam(f))])
    ops = []
    for step in range(int(rng.integers(1, 6))):
        op = ['set', 'read', 'self'][rng.integers(3)]
        ops.append(op)
        if op == 'set':
            prms = {}
            for nm in rng.permutation(list(m))[:rng.integers(1, len(m) + 1)]:
                nm = str(nm)
                d = {str(p): float(rng.uniform(.1, 1)) for p in rng.permutation(list(vis(m[nm])))[:rng.integers(1, 5)]}
                m[nm].update(d)
                prms[nm] = d
            if rng.random() < .2:
                prms['nowhere'] = {'jys': 1.}
            cat.set_params(prms)
            mon.ev('set')
        elif op == 'self':
            cat.set_params(cat.get_params())
        else:
            pick = [str(p) for p in rng.permutation(['jys', 'ra', 'a1', 'ddec', 'mfreq', 'nonsense'])[:3]]
            nm = str(rng.choice(list(m)))
            compare(mon, cat.get_params({nm: pick}), {nm: {p: m[nm][p] for p in pick if p in m[nm]}}, 'selected')
            compare(mon, cat.get_params({'*': pick[0]}), {k: {p: m[k][p] for p in pick[:1] if p in m[k]} for k in m}, 'selected')
            # a name given after the wildcard has its own list, and the wildcard alone applies to the others
            q = [str(p) for p in rng.permutation(['jys', 'ra', 'index', 'dra'])[:2]]
            compare(mon, cat.get_params({'*': pick[0], nm: q}), {k: {p: m[k][p] for p in (q if k == nm else pick[:1]) if p in m[k]} for k in m}, 'wildcard and name')
            mon.ev('selected')
        compare(mon, cat.get_params(), {k: vis(p) for k, p in m.items()}, 'after ' + '+'.join(ops))
        mon.ev('read')
        if rng.random() < .4:
            aa.set_jultime(2455000.3)
            cat.compute(aa)
            for k, p in m.items():
                want = spectrum(p, f)
                mon.close(cat[k].get_jys(), want, 1e-12 * np.abs(want).max(), 'flux of a source')
            mon.close(cat.get('srcshape'), np.array([[p['a1'], p['a2'], p['th']] for p in m.values()]).T, 0, 'shapes of the sources')
            mon.close(cat.get('ionref'), np.array([[p['dra'], p['ddec']] for p in m.values()]).T, 0, 'offsets of the sources')
            mon.ev('derived')
    mon.ev('catalog')
    mon.case('cat', tuple(ops), str(m))


if __name__ == '__main__':
    P.main()
