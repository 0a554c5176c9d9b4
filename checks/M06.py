"""M06: re-reading is repeatable: rewind, second readers and interleaving give the same records."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M06', rule='an execution opens one dataset through several readers, interleaves their reads, rewinds, item and variable '
         'reads in a random schedule and compares each returned record with the one at that reader\'s position; distinct by schedule',
         assumptions=['variables set for the first time after record 1 keep a value after rewind'],
         require=['records_compared', 'rewinds', 'interleavings', 'selected_passes'])


def cmp1(mon, g, w, cm, what):
    mir.cmp_recs(mon, [g], [w], cm, what, vars=False)
    mir.cmp_vars(mon, {k: v for k, v in g.vars.items() if k in w.vars}, w.vars, what)


@P.workload(quick=4500, thorough=12000)
def readers(rng, mon):
    dss, paths = [], []
    for k in range(int(rng.integers(1, 3))):
        ds = mir.gen(rng, nchan=int(rng.choice([1, 5, 31, 64, 600])), extra=4)
        ds.items = {'history': 'dataset %d' % k}
        p = os.path.join(mon.tmp(), '%d.uv' % k)
        mir.write(aipy, p, ds)
        dss.append(ds)
        paths.append(p)
    readers = []
    sched = []
    for _ in range(int(rng.integers(20, 120))):
        k = rng.random()
        if not readers or (k < .08 and len(readers) < 6):
            d = int(rng.integers(len(dss)))
            readers.append([d, aipy.miriad.UV(paths[d]), 0])
            sched.append(('open', d))
            continue
        x = int(rng.integers(len(readers)))
        d, uv, pos = readers[x]
        ds = dss[d]
        if k < .16:
            uv.rewind()
            readers[x][2] = 0
            mon.ev('rewinds')
            sched.append(('rw', x))
        elif k < .22 and len(readers) > 1:
            del readers[x], uv
            sched.append(('close', x))
        elif k < .3:
            mon.eq(uv['history'], 'dataset %d' % d, 'history of dataset %d' % d)
            sched.append(('item', x))
        else:
            sched.append(('read', x))
            if pos == len(ds.recs):
                with mon.raises(IOError, 'reading past the end'):
                    uv.read()
                continue
            if rng.random() < .5:
                (uvw, t, ij), dat, m = uv.read(raw=True)
            else:
                (uvw, t, ij), dm = uv.read()
                dat, m = dm.data, np.ma.getmaskarray(dm)
            cmp1(mon, mir.Rec(uvw, t, ij, dat, m, mir.snapshot(uv, list(ds.types))), ds.recs[pos], ds.corrmode,
                 'reader %d of dataset %d at record %d' % (x, d, pos))
            readers[x][2] += 1
    mon.ev('interleavings')
    mon.case(tuple(sched))
    mon.sample(dict(schedule=sched[:30], datasets=len(dss)))


@P.workload(quick=1080, thorough=3000)
def passes(rng, mon):
    """Full passes by all(), partial passes abandoned, then rewind: always the same stream."""
    ds = mir.gen(rng, extra=2, big=False)
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds)
    uv = aipy.miriad.UV(p)
    hist = []
    for _ in range(int(rng.integers(2, 6))):
        stop = int(rng.integers(0, len(ds.recs) + 2))
        got = []
        for (uvw, t, ij), d, f in uv.all(raw=True):
            got.append(mir.Rec(uvw, t, ij, d, f, {}))
            if len(got) == stop:
                break
        want = ds.recs[:stop] if 0 < stop else ds.recs
        mir.cmp_recs(mon, got, want, ds.corrmode, 'pass', vars=False)
        uv.rewind()
        mon.ev('rewinds')
        hist.append(stop)
    mon.case('pass', tuple(hist), len(ds.recs))


@P.workload(quick=2250, thorough=6000)
def selected(rng, mon):
    """Passes over a selection, complete or not, always start again with the records a fresh reader gets."""
    ds = mir.gen(rng, extra=2, big=False, nrec=int(rng.integers(4, 25)))
    if rng.random() < .7:       # integrations of several records, at times that repeat
        t, n = ds.recs[0].t, int(rng.integers(1, 4))
        for k, r in enumerate(ds.recs):
            r.t = t + (k // n) * 1e-3
        if 'time' in ds.types:
            for r in ds.recs:
                r.vars['time'] = r.t
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds)
    ts = [r.t for r in ds.recs]
    sel = []
    for _ in range(int(rng.integers(1, 4))):
        k = rng.integers(6)
        if k <= 1:
            d = int(rng.integers(1, 4))
            sel.append(('decimate', d, int(rng.integers(d))))
        elif k == 2:
            i, j = ds.recs[rng.integers(len(ds.recs))].ij
            sel.append(('antennae', i, int(rng.choice([j, -1])), bool(rng.random() < .7)))
        elif k == 3:
            a = float(rng.choice(ts)) - 5e-4
            sel.append(('time', a, a + float(rng.uniform(1e-3, 1e-2))))
        elif k == 4:
            sel.append(('visibility', 1., float(rng.integers(1, len(ts) + 1))))
        else:
            sel.append(('increment', float(rng.integers(1, 4)), 0.))
    def reader():
        uv = aipy.miriad.UV(p)
        for s in sel:
            uv.select(*s)
        return uv
    def take(uv, stop):
        got = []
        for (uvw, t, ij), d, f in uv.all(raw=True):
            got.append(mir.Rec(uvw, t, ij, d, f, {}))
            if len(got) == stop:
                break
        return got
    want = take(reader(), 0)
    known = {(r.t, tuple(sorted(r.ij))) for r in ds.recs}
    mon.check(all((r.t, tuple(sorted(r.ij))) in known for r in want), 'records that were not written', selection=sel)
    uv = reader()
    hist = []
    for _ in range(int(rng.integers(2, 7))):
        stop = int(rng.choice([0, 1, 1, rng.integers(0, len(ds.recs) + 2)]))
        got = take(uv, stop)
        mon.eq([(r.t, tuple(r.ij)) for r in got], [(r.t, tuple(r.ij)) for r in (want[:stop] if stop else want)], 'records of a selection read again', selection=sel, history=hist)
        for g, w in zip(got, want):
            mon.eq((g.data, g.mask), (w.data, w.mask), 'data of a selection read again')
        mon.ev('records_compared', len(got))
        uv.rewind()
        mon.ev('rewinds')
        hist.append(stop)
    mon.ev('selected_passes', len(hist))
    mon.case('sel', tuple(sel), tuple(hist), len(want))


if __name__ == '__main__':
    P.main()
