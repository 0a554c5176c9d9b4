"""X01: command-line selections (antennas, polarizations, channels, sources, parameters) and calibration modules mean what is documented."""
import optparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
aipy = load()

P = Prop('X01', rule='an execution generates a selection as a tree, writes it as a string, parses it and compares with the meaning of the tree, or applies '
         'it to a data set, or loads generated calibration modules; distinct by string',
         assumptions=['exclusions that name polarizations are not applied to data sets', 'selections are applied from left to right'],
         require=['ants', 'chans', 'srcs', 'prms', 'refused', 'options', 'datasets', 'partial', 'modules', 'fallbacks', 'end_to_end'])


def bl(i, j):
    return aipy.miriad.ij2bl(i, j)


# -- antennas
def term(rng, nants, pols):
    """(text, [(antenna, included, pol)])."""
    one = lambda: (int(rng.integers(nants)), rng.random() > .2, str(rng.choice(['', 'x', 'y'])) if pols else '')
    txt = lambda t: ('' if t[1] else '-') + str(t[0]) + t[2]
    if rng.random() < .5:
        t = one()
        return txt(t), [t]
    ts = [one() for _ in range(int(rng.integers(1, 4)))]
    return '(' + ','.join(txt(t) for t in ts) + ')', ts


def expand(a, b):
    """The (baseline, include, polarization) of one pair."""
    (i, ii, pi), (j, jj, pj) = a, b
    pol = [-1] if not pi and not pj else [x + y for x in (pi or 'xy') for y in (pj or 'xy')]
    return [(bl(i, j), int(ii and jj), p) for p in pol]


def selection(rng, nants, pols=True):
    items, want = [], []
    for _ in range(int(rng.integers(1, 6))):
        k = rng.random()
        if k < .1:
            w = str(rng.choice(['all', 'auto', 'cross']))
            items.append(w)
            if w == 'all':
                want = []
            else:
                want.append(('auto', int(w == 'auto'), -1))
        elif k < .4:
            t = (int(rng.integers(nants)), rng.random() > .2, str(rng.choice(['', '', 'x', 'y'])) if pols else '')
            items.append(('' if t[1] else '-') + str(t[0]) + t[2])
            for j in range(nants):
                want += expand(t, (j, True, ''))
        else:
            a, A = term(rng, nants, pols)
            b, B = term(rng, nants, pols)
            items.append(a + '_' + b)
            for x in A:
                for y in B:
                    want += expand(x, y)
    return ','.join(items), want


@P.workload(quick=8000, thorough=300000)
def ants(rng, mon):
    nants = int(rng.choice([1, 2, 4, 12, 130, 300]))
    s, want = selection(rng, nants)
    got = aipy.scripting.parse_ants(s, nants)
    mon.eq([tuple(x) for x in got], want, 'antenna selection', string=s, nants=nants)
    mon.ev('ants')
    if rng.random() < .2:
        bad = str(rng.choice(['foo', '(0_1)_2', '0_1_2', '_1', '0_x', ')', '(0', '0_1;', s + ',oops', s + ',(']))
        with mon.raises(ValueError, 'a selection that cannot be parsed: ' + bad):
            aipy.scripting.parse_ants(bad, nants)
        mon.ev('refused')
    mon.case('ants', s)


@P.workload(quick=4000, thorough=100000)
def chans(rng, mon):
    nchan = int(rng.choice([1, 7, 64, 1024]))
    if rng.random() < .15:
        s, want = 'all', [list(range(nchan))]
    else:
        items, want = [], []
        for _ in range(int(rng.integers(1, 7))):
            k = rng.integers(3)
            a = int(rng.integers(nchan))
            b = int(rng.integers(a, nchan))
            st = int(rng.integers(1, 9))
            items.append([str(a), '%d_%d' % (a, b), '%d_%d_%d' % (a, b, st)][k])
            want.append([[a], list(range(a, b + 1)), [x for x in range(a, b + 1) if (x - a) % st == 0]][k])
        s = ','.join(items)
    got = aipy.scripting.parse_chans(s, nchan)
    mon.eq(list(got), sum(want, []), 'channels', string=s, nchan=nchan)
    mon.check(np.issubdtype(got.dtype, np.integer), 'channels are not integers')
    got = aipy.scripting.parse_chans(s, nchan, concat=False)
    mon.eq([list(x) for x in got], want, 'channel groups', string=s)
    data = np.arange(nchan)
    mon.eq(data[aipy.scripting.parse_chans(s, nchan, concat=True)], np.array(sum(want, [])), 'data of channels')
    mon.ev('chans')
    if rng.random() < .2:
        bad = str(rng.choice(['1_2_3_4', 'x', '1,,2', '1_', '1;2', '_']))
        with mon.raises(Exception, 'channels that cannot be parsed: ' + bad):
            aipy.scripting.parse_chans(bad, nchan)
        mon.ev('refused')
    mon.case('chans', s)


# -- sources
NAMES = ['cyg', 'cas', 'crab', 'vir', 'Sun', 'Jupiter', 'J0025-293', 'bug_man', 'a_b_c', '3c_48', 'x_1', '1_2_3', 'nobody', '12:00', 'J1_']


@P.workload(quick=3000, thorough=80000)
def srcs(rng, mon):
    cats = [str(x) for x in rng.permutation(['helm', 'misc'])[:rng.integers(1, 3)]]
    k = rng.random()
    if k < .15:
        s, want = 'all', (None, None, cats)
    elif k < .35:
        a, b = float('%.3g' % 10**rng.uniform(-1, 4)), float('%.3g' % rng.uniform(.05, .3))
        s, want = '%r/%r' % (a, b), (None, [a, b], cats)
    else:
        L, w = [], []
        for _ in range(int(rng.integers(1, 6))):
            if rng.random() < .5:
                L.append(str(rng.choice(NAMES)))
                w.append((L[-1], None))
            else:
                h, d = int(rng.integers(24)), int(rng.integers(-89, 90))
                hm, dm, hs, ds = int(rng.integers(60)), int(rng.integers(60)), float('%.1f' % rng.uniform(0, 59)), float('%.1f' % rng.uniform(0, 59))
                f = rng.integers(4)
                sg = '-' if d < 0 else ['', '+'][rng.integers(2)]
                ra, rv = [('%d' % h, h), ('%02d:%02d' % (h, hm), h + hm / 60), ('%d:%02d:%04.1f' % (h, hm, hs), h + hm / 60 + hs / 3600), ('%d.25' % h, h + .25)][f]
                g = rng.integers(3)
                de, dv = [('%d' % abs(d), abs(d)), ('%02d:%02d' % (abs(d), dm), abs(d) + dm / 60), ('%d:%02d:%04.1f' % (abs(d), dm, ds), abs(d) + dm / 60 + ds / 3600)][g]
                L.append(ra + '_' + sg + de)
                w.append((L[-1], (rv * np.pi / 12, dv * np.pi / 180 * (-1 if sg == '-' else 1))))
        s, want = ','.join(L), (w, None, cats)
    out = aipy.scripting.parse_srcs(s, ','.join(cats))
    mon.eq(len(out), 3, 'parts of the result')
    mon.eq((out[1] if out[1] is None else list(out[1]), list(out[2])), want[1:], 'cutoff and catalogs', string=s)
    if want[0] is None:
        mon.check(out[0] is None, 'sources were named')
    else:
        mon.eq(len(out[0]), len(want[0]), 'number of sources', string=s)
        for g, (nm, pos) in zip(out[0], want[0]):
            if pos is None:
                mon.eq(g, nm, 'a source name', string=s)
            else:
                mon.check(isinstance(g, aipy.fit.RadioFixedBody), 'a position was not taken as one', string=s, part=nm)
                mon.eq(g.src_name, nm, 'name of a position')
                mon.close((float(g._ra), float(g._dec)), pos, 1e-9, 'position', string=s, part=nm)
    mon.ev('srcs')
    mon.case('srcs', s)
    if rng.random() < .3:       # to a catalog, as every script does
        cat = aipy.cal.get_catalog(None, *out)
        allc = {}
        for c in cats:
            for n, b in aipy.src.get_catalog(catalogs=[c]).items():
                allc[n] = b
        if want[0] is not None:
            names = {n for n, p in want[0] if p is not None or n in allc}
        elif want[1]:
            names = set()
            for n, b in allc.items():
                b.update_jys(np.array([want[1][1]]))
                x = float(b.get_jys()[0])
                if abs(x - want[1][0]) < 1e-9 * x:
                    raise Skip('flux too close to the cutoff')
                if x > want[1][0]:
                    names.add(n)
        else:
            names = set(allc)
        mon.eq(sorted(cat.keys()), sorted(names), 'catalog of a command line', string=s, cats=cats)
        mon.ev('end_to_end')


# -- parameters
def group(rng, xs):
    return xs[0] if len(xs) == 1 else '(' + '/'.join(xs) + ')'


def num(rng):
    x = [float(rng.normal()), float(10**rng.uniform(-30, 30)), float(rng.integers(-5, 500)), 0.][rng.integers(4)]
    t = repr(x) if rng.random() < .7 or x != int(min(abs(x), 1e9)) else '%d' % x
    return t, float(t)


@P.workload(quick=6000, thorough=200000)
def prms(rng, mon):
    objs = ['cyg', '0', '12', '1x', 'J0025-293', 'src one', '12:00_40:00', '*', 'a.b']
    plist = ['jys', 'index', 'dra', 'x', 'bm_xwidth', 'phsoff', 'ra*', '*']
    items, want = [], {}
    for _ in range(int(rng.integers(1, 6))):
        o = [str(x) for x in rng.permutation(objs)[:rng.choice([1, 1, 2, 3])]]
        p = [str(x) for x in rng.permutation(plist)[:rng.choice([1, 1, 2, 3])]]
        n = 1 if len(o) > 1 and len(p) > 1 else max(len(o), len(p))
        form = rng.integers(4)       # none, value, value and error, error alone
        val = [num(rng) for _ in range(n if rng.random() < .5 else 1)]
        sig = [num(rng) for _ in range(n if rng.random() < .5 else 1)]
        s = group(rng, o) + '=' + group(rng, p)
        if form in (1, 2):
            s += '/' + group(rng, [t for t, x in val])
        if form == 2:
            s += '/' + group(rng, [t for t, x in sig])
        if form == 3:
            s += '//' + group(rng, [t for t, x in sig])
        items.append(s)
        for i, a in enumerate(o):
            for j, b in enumerate(p):
                k = max(i, j)
                v = val[k if len(val) > 1 else 0][1] if form in (1, 2) else None
                e = sig[k if len(sig) > 1 else 0][1] if form in (2, 3) else None
                want.setdefault(a, {})[b] = (v, e)
    s = ','.join(items)
    got = aipy.scripting.parse_prms(s)
    mon.eq({o: {p: tuple(v) for p, v in d.items()} for o, d in got.items()}, want, 'parameters', string=s)
    mon.ev('prms')
    if rng.random() < .2:
        bad = str(rng.choice(['(a/b)=(c/d)/(1/2)/(3/4)', '(a/b)=c/(1/2/3)', 'a=(b/c)/(1/2/3)', 'a=b/(1/2)', 'a', '=b', '(a/b)=c/1/(1/2/3)', 'a=b/x', '(a/b=c']))
        with mon.raises(Exception, 'parameters that cannot be parsed: ' + bad):
            aipy.scripting.parse_prms(bad)
        mon.ev('refused')
    mon.case('prms', s)


OPTS = {'ant': ('ant', '-a', '--ant', 'cross', '0_1,2'), 'pol': ('pol', '-p', '--pol', -1, 'xx,yy'), 'chan': ('chan', '-c', '--chan', 'all', '0_10_2'),
        'cal': ('cal', '-C', '--cal', None, 'psa'), 'prms': ('prms', '-P', '--prms', None, 'a=b/1'), 'cmap': ('cmap', None, '--cmap', 'jet', 'hot'),
        'max': ('max', None, '--max', None, 2.5), 'drng': ('drng', None, '--drng', None, 4.)}


@P.workload(quick=300, thorough=5000)
def options(rng, mon):
    on = {k for k in list(OPTS) + ['src', 'dec'] if rng.random() < .6}
    o = optparse.OptionParser()
    aipy.scripting.add_standard_options(o, **{k: True for k in on})
    spec = [OPTS[k] for k in on if k in OPTS]
    if 'src' in on:
        spec += [('src', '-s', '--src', None, 'cyg,cas'), ('cat', None, '--cat', 'helm,misc', 'misc')]
    if 'dec' in on:
        spec += [('decimate', '-x', '--decimate', 1, 7), ('decphs', None, '--dphs', 0, 3)]
    args, want = ['file1'], {}
    for dest, sh, lo, default, val in spec:
        want[dest] = default
        if rng.random() < .5:
            want[dest] = val
            args += [[sh or lo, str(val)], [lo + '=' + str(val)]][rng.integers(2)]
    opts, rest = o.parse_args(args + ['file2'])
    mon.eq(vars(opts), want, 'options', args=args)
    mon.eq(rest, ['file1', 'file2'], 'arguments')
    mon.ev('options')
    mon.case('opts', args)


# -- on data
@P.workload(quick=250, thorough=6000, cost=2)
def datasets(rng, mon):
    nants = int(rng.integers(1, 6))
    f = os.path.join(mon.tmp(), 'd.uv')
    uv = aipy.miriad.UV(f, 'new')
    for v, t in (('nants', 'i'), ('npol', 'i'), ('pol', 'i')):
        uv.add_var(v, t)
    uv['nants'] = nants
    recs = []
    use = [str(x) for x in rng.permutation(['xx', 'yy', 'xy', 'yx'])[:rng.integers(1, 5)]]
    for k in range(int(rng.integers(1, 3))):
        for p in use:
            uv['pol'] = {'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8}[p]
            for i in range(nants):
                for j in range(i, nants):
                    if rng.random() < .9:
                        uv.write((np.zeros(3), 2455000. + k, (i, j)), np.ma.array(np.array([len(recs)], complex)))
                        recs.append((i, j, p))
    del uv
    if not recs:
        raise Skip('no records')
    for _ in range(4):
        s, items = selection(rng, nants, pols=rng.random() < .4)
        if any(not inc and p != -1 for b, inc, p in items):
            continue
        pol = -1 if rng.random() < .5 else ','.join(str(x) for x in rng.permutation(['xx', 'yy', 'xy', 'yx'])[:rng.integers(1, 4)])
        uv = aipy.miriad.UV(f)
        how = rng.random()
        if how < .15:
            aipy.scripting.uv_selector(uv, pol_str=pol)
            s, items = None, []
        elif how < .6:
            aipy.scripting.uv_selector(uv, s, pol)
        else:
            aipy.scripting.uv_selector(uv, ants=items, pol_str=pol)
        got = [int(d.data[0].real) for _, d in uv.all()]
        want = []
        for n, (i, j, p) in enumerate(recs):
            keep = None
            for b, inc, q in items:
                hit = i == j if b == 'auto' else b == bl(i, j)
                q = pol if q == -1 else q
                if inc:
                    hit = hit and (q == -1 or p in q.split(','))
                    keep = hit if keep is None else keep or hit
                else:
                    hit = not hit and (q == -1 or p in q.split(','))
                    keep = hit if keep is None else keep and hit
            if keep is None:
                keep = pol == -1 or p in pol.split(',')
            if keep:
                want.append(n)
        mon.eq([recs[n] for n in got], [recs[n] for n in want], 'records selected', ants=s, pol=pol, items=items, nants=nants)
        mon.eq(got, want, 'records selected', ants=s, pol=pol)
        mon.ev('datasets')
        if want and len(want) < len(recs):
            mon.ev('partial')
        mon.case('uv', s, pol, nants)
    with mon.raises(Exception, 'a polarization that does not exist'):
        aipy.scripting.uv_selector(aipy.miriad.UV(f), 'all', 'qq')
    mon.ev('refused')


# -- calibration modules
CAL = '''
import aipy, numpy as np
POS = %r
LOC = %r
def get_aa(freqs):
    beam = aipy.fit.Beam(freqs)
    return aipy.fit.AntennaArray(LOC, [aipy.fit.Antenna(x, y, z, beam) for x, y, z in POS])
'''
CAT = '''
def get_catalog(srcs=None, cutoff=None, catalogs=['misc']):
    return ('mine', srcs, cutoff, catalogs)
'''


@P.workload(quick=300, thorough=5000)
def modules(rng, mon):
    sdf, sfreq, nchan = float(rng.uniform(1e-5, 1e-2)), float(rng.uniform(.05, .3)), int(rng.integers(1, 200))
    fr = aipy.cal.get_freqs(sdf, sfreq, nchan)
    want = np.array([sfreq + k * sdf for k in range(nchan)])
    mon.close(fr, want, 1e-12, 'channel frequencies')
    mon.eq(fr.shape, (nchan,), 'number of channels')
    cwd, path = os.getcwd(), list(sys.path)
    name = 'vfcal%d_%d' % (mon.now[1], rng.integers(1 << 30))
    try:
        d = mon.tmp()
        pos = [[float(x) for x in rng.normal(size=3)] for _ in range(int(rng.integers(1, 5)))]
        loc = ('%d:30' % rng.integers(-60, 60), '%d:15' % rng.integers(0, 180))
        has = rng.random() < .5
        key = name
        os.makedirs(os.path.join(d, 'here'))
        if rng.random() < .2:
            os.makedirs(os.path.join(d, 'here', name))
            open(os.path.join(d, 'here', name, '__init__.py'), 'w').close()
            fn, key = os.path.join(d, 'here', name, 'sub.py'), name + '.sub'
        else:
            fn = os.path.join(d, 'here', name + '.py')
        with open(fn, 'w') as g:
            g.write(CAL % (pos, loc) + (CAT if has else ''))
        os.chdir(os.path.join(d, 'here'))
        aa = aipy.cal.get_aa(key, sdf, sfreq, nchan) if rng.random() < .6 else aipy.cal.get_aa(key, want.copy())
        mon.eq(len(aa), len(pos), 'antennas of the module')
        for a, p in zip(aa, pos):
            mon.eq([float(x) for x in a.pos], p, 'antenna of the module')
        mon.close(aa.get_afreqs(), want, 1e-12, 'frequencies of the array')
        mon.ev('modules')
        kw = {}
        if rng.random() < .7:
            kw['srcs'] = ['cyg', 'nobody', 'Sun']
        if rng.random() < .4:
            kw['cutoff'] = (100., .15)
        if rng.random() < .6:
            kw['catalogs'] = ['misc'] if rng.random() < .7 else ['helm', 'misc']
        got = aipy.cal.get_catalog(key, **kw)
        if has:
            mon.eq(got[:3], ('mine', kw.get('srcs'), kw.get('cutoff')), 'arguments of the catalog of the module')
            mon.eq(list(got[3]), list(kw.get('catalogs', ['helm', 'misc'])), 'catalogs asked of the module')
        ref = sorted(aipy.src.get_catalog(**kw).keys())
        if not has:
            mon.eq(sorted(got.keys()), ref, 'a module without a catalog: the default one')
            mon.ev('fallbacks')
        got = aipy.cal.get_catalog(*[[], [None]][rng.integers(2)], **kw)
        mon.eq(sorted(got.keys()), ref, 'no module: the default catalog')
        got = aipy.cal.get_catalog(name + 'x', **kw)
        mon.eq(sorted(got.keys()), ref, 'no such module: the default catalog')
        mon.ev('fallbacks')
        with mon.raises(ImportError, 'an array of a module that does not exist'):
            aipy.cal.get_aa(name + 'x', want)
        mon.ev('refused')
    finally:
        os.chdir(cwd)
        sys.path[:] = path
        for k in [k for k in sys.modules if k.startswith(name)]:
            del sys.modules[k]
    aa = aipy.scripting.get_null_aa()
    mon.eq((len(aa), [float(x) for x in aa[0].pos], list(aa.get_afreqs())), (1, [0., 0., 0.], [.15]), 'the null array')
    mon.eq((float(aa.lat), float(aa.long)), (0., 0.), 'place of the null array')
    mon.case('cal', key, has)


if __name__ == '__main__':
    P.main()
