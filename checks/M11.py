"""M11: read_files groups every selected record by baseline and polarisation, complete and in order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M11', rule='an execution writes 1..3 datasets, reads them with read_files under a random antenna string, polarisation string '
         'and decimation, and compares every series of data, flags, times, lsts and frequencies with grouping the written '
         'records by hand; distinct by (antenna string, polarisations, decimation, shape)',
         assumptions=['antenna strings: all, auto, cross, antenna lists, baseline lists, grouped and negated baselines'],
         require=['series_compared', 'samples_compared', 'decimated'])


def gen_antstr(rng, n):
    """(string, predicate) by the documented syntax."""
    k = int(rng.integers(6))
    if k == 0:
        return 'all', lambda i, j: True
    if k == 1:
        return 'auto', lambda i, j: i == j
    if k == 2:
        return 'cross', lambda i, j: i != j
    if k == 3:
        a = sorted(set(int(x) for x in rng.integers(n, size=int(rng.integers(1, 3)))))
        return ','.join(map(str, a)), lambda i, j: i in a or j in a
    if k == 4:
        b = [tuple(int(y) for y in x) for x in rng.integers(n, size=(int(rng.integers(1, 5)), 2))]
        s = set((min(x), max(x)) for x in b)
        return ','.join('%d_%d' % x for x in b), lambda i, j: (min(i, j), max(i, j)) in s
    a, b = [sorted(set(int(x) for x in rng.integers(n, size=2))) for _ in range(2)]
    s = set((min(x, y), max(x, y)) for x in a for y in b)
    return '(%s)_(%s)' % (','.join(map(str, a)), ','.join(map(str, b))), lambda i, j: (min(i, j), max(i, j)) in s


@P.workload(quick=900, thorough=10000)
def grouping(rng, mon):
    nant = int(rng.integers(2, 5))
    nchan = int(rng.integers(1, 20))
    codes = [int(x) for x in rng.choice([-5, -6, -7, -8, 1, 2], size=int(rng.integers(1, 4)), replace=False)]
    files, recs_all = [], []
    t0 = 2455000.
    for k in range(int(rng.integers(1, 4))):
        ds = mir.gen(rng, corrmode='r', nchan=nchan, ants=list(range(nant)), pols=codes, extra=0, wild=False,
                     nrec=int(rng.integers(3, 60)))
        ds.types['nants'] = 'i'
        for r in ds.recs:
            r.vars['nants'] = nant
            r.vars['sfreq'], r.vars['sdf'], r.vars['inttime'] = .1, .001, 10.7
        # times must tell integrations apart
        last, t = None, t0
        for r in ds.recs:
            if last is not None and r.t != last:
                t += float(rng.choice(2. ** np.array([-10, -10, -2, -17, -22])))
            last, r.t = r.t, t
        for a, b in zip(ds.recs, ds.recs[1:]):
            if a.t == b.t:
                b.vars['lst'] = a.vars['lst']
        t0 = t + 1
        p = os.path.join(mon.tmp(), '%d.uv' % k)
        mir.write(aipy, p, ds)
        files.append(p)
        recs_all.append(ds.recs)
    antstr, pred = gen_antstr(rng, nant)
    names = {v: s for s, v in aipy.miriad.str2pol.items()}
    want_pols = [codes[int(x)] for x in rng.permutation(len(codes))[:int(rng.integers(1, len(codes) + 1))]]
    polstr = ','.join(names[c] for c in want_pols)
    dec, ph = (int(rng.integers(2, 4)), int(rng.integers(0, 3))) if rng.random() < .4 else (1, 0)
    want_d, want_f, times, lsts = {}, {}, [], []
    for recs in recs_all:
        cnt, last = -1, None
        for r in recs:
            if not pred(*r.ij) or r.vars['pol'] not in want_pols:
                continue
            if r.t != last:
                cnt, last = cnt + 1, r.t
            if (cnt - ph) % dec:
                continue
            if not times or times[-1] != r.t:
                times.append(r.t)
                lsts.append(r.vars['lst'])
            k = r.ij + (names[r.vars['pol']],)
            want_d.setdefault(k, []).append(r.data)
            want_f.setdefault(k, []).append(r.mask)
    arr = rng.random() < .7
    info, d, f = aipy.miriad.read_files(files if len(files) > 1 or rng.random() < .5 else files[0], antstr, polstr,
                                        decimate=dec, decphs=ph, recast_as_array=bool(arr))
    if dec > 1:
        mon.ev('decimated')
    mon.check(set(d) == set(want_d), 'series %s, want %s (ants %r pols %r)' % (sorted(d), sorted(want_d), antstr, polstr))
    mon.check(set(f) == set(want_f), 'flag series differ from data series')
    for k in want_d:
        mon.ev('series_compared')
        mon.ev('samples_compared', len(want_d[k]))
        mon.check(isinstance(d[k], np.ndarray) == arr, 'recast_as_array')
        mon.eq(np.array(d[k]), np.array(want_d[k]), 'data of %r' % (k,))
        mon.eq(np.array(f[k]), np.array(want_f[k]), 'flags of %r' % (k,))
    mon.check(not arr or isinstance(info['times'], np.ndarray) and isinstance(info['lsts'], np.ndarray), 'times and lsts are arrays')
    mon.eq(np.array(info['times']), np.array(times), 'times')
    mon.eq(np.array(info['lsts']), np.array(lsts), 'lsts')
    mon.close(info['freqs'], .1 + .001 * np.arange(nchan), 1e-9, 'freqs')
    mon.check(info['inttime'] == 10.7 and info['sdf'] == .001, 'inttime or sdf')
    mon.case(antstr, polstr, dec, ph, len(times), len(want_d))
    mon.sample(dict(ants=antstr, pols=polstr, decimate=dec, files=len(files), series=len(want_d)))


if __name__ == '__main__':
    P.main()
