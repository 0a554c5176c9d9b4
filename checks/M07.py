"""M07: appending to a dataset keeps what was there and adds exactly the new records."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M07', rule='an execution writes a dataset in several sessions (new, then append any number of times, some empty) '
         'and compares all records, variables and items with the concatenation; distinct by (storage, nchan, records per session)',
         assumptions=['an appending session declares the variables it sets', 'an appending session uses the storage mode of the dataset'],
         require=['records_compared', 'append_sessions', 'empty_sessions', 'obstypes', 'full_refused', 'full_accepted'])


def obstype(recs):
    k = {r.ij[0] == r.ij[1] for r in recs}
    return {(True, False): 'mixed-auto-cross', (True,): 'autocorrelation', (False,): 'crosscorrelation'}[tuple(sorted(k, reverse=True))]


@P.workload(quick=5400, thorough=15000)
def sessions(rng, mon):
    ds = mir.gen(rng, extra=int(rng.integers(0, 5)), nchan=mir.nchans(rng), nrec=int(rng.integers(1, 30)))
    if rng.random() < .5:
        n, auto = int(rng.integers(len(ds.recs) + 1)), bool(rng.random() < .5)      # sessions of one kind only
        for k, r in enumerate(ds.recs):
            i = r.ij[0]
            r.ij = (i, i) if (k < n) == auto else (i, i + 1) if i < 2046 else (i - 1, i)
    p = os.path.join(mon.tmp(), 'a.uv')
    cut = sorted(int(x) for x in rng.integers(1, len(ds.recs) + 1, size=int(rng.integers(1, 6))))
    cut = [0] + cut + [len(ds.recs)]
    hist = ''
    # what the sessions leave set is what later sessions continue from
    prev = {}
    for k, (a, b) in enumerate(zip(cut, cut[1:])):
        uv = aipy.miriad.UV(p, 'append' if k else 'new', ds.corrmode)
        mir.declare(uv, ds)
        carry = {} if rng.random() < .5 else prev
        prev = dict(prev, **mir.write_recs(uv, ds, ds.recs[a:b], how=str(rng.choice(['ma', 'raw'])), prev=carry))
        if k:
            mon.ev('append_sessions')
            mon.ev('empty_sessions', int(a == b))
        hist += 's%d\n' % k
        uv['history'] = hist
        del uv
        if rng.random() < .3:
            got = mir.read_all(aipy.miriad.UV(p), names=list(ds.types))
            mir.cmp_recs(mon, got, ds.recs[:b], ds.corrmode, 'after session %d of %r' % (k, cut))
        if ds.recs[:b]:
            mon.eq(aipy.miriad.UV(p)['obstype'].strip('\0'), obstype(ds.recs[:b]), 'obstype after session %d of %r' % (k, cut))
            mon.ev('obstypes')
    uv = aipy.miriad.UV(p)
    mon.eq(uv['history'], hist, 'history')
    got = mir.read_all(uv, names=list(ds.types))
    mir.cmp_recs(mon, got, ds.recs, ds.corrmode, 'sessions %r' % cut)
    mon.case(ds.corrmode, len(ds.recs[0].data), tuple(cut))
    mon.sample(dict(corrmode=ds.corrmode, cuts=cut, nchan=len(ds.recs[0].data)))


@P.workload(quick=720, thorough=1500)
def append_by_pipe(rng, mon):
    """Combining datasets: clone one, then append others by raw writes."""
    parts = [mir.gen(rng, corrmode='r', extra=0, nchan=int(rng.choice([4, 31, 62, 100]))) for _ in range(int(rng.integers(2, 4)))]
    n = len(parts[0].recs[0].data)
    want = []
    for k, ds in enumerate(parts):
        ds.recs = [r for r in ds.recs if len(r.data) == n] or parts[0].recs
        ds.items = {'history': 'h'}
        mir.write(aipy, os.path.join(mon.tmp(), '%d.uv' % k), ds)
    out = os.path.join(mon.tmp(), 'out.uv')
    for k, ds in enumerate(parts):
        uvi = aipy.miriad.UV(os.path.join(mon.tmp(), '%d.uv' % k))
        if k == 0:
            uvo = aipy.miriad.UV(out, 'new')
            uvo.init_from_uv(uvi)
            uvo.pipe(uvi)
        else:
            uvo = aipy.miriad.UV(out, 'append')
            for nm, t in ds.types.items():
                uvo.add_var(nm, t)
            for (uvw, t, ij), d, f in uvi.all(raw=True):
                for nm in ds.types:
                    if nm in ds.recs[0].vars:
                        uvo[nm] = uvi[nm]
                uvo.write((uvw, t, ij), d, f)
            mon.ev('append_sessions')
        del uvo, uvi
        want += ds.recs
    got = mir.read_all(aipy.miriad.UV(out), names=list(parts[0].types))
    mir.cmp_recs(mon, got, want, 'r', 'combined')
    mon.case('combine', n, tuple(len(d.recs) for d in parts))


@P.workload(quick=600, thorough=6000)
def full_disk(rng, mon):
    """A session that runs out of room reports it, and whatever can be read afterwards is what was written, earlier records first."""
    import resource, signal
    big = rng.random() < .04
    if big:
        ds = mir.gen(rng, corrmode='r', extra=1, nchan=4096, nrec=40)
    else:
        ds = mir.gen(rng, extra=int(rng.integers(0, 5)), nchan=mir.nchans(rng), nrec=int(rng.integers(1, 60)))
    p = os.path.join(mon.tmp(), 'a.uv')
    a = int(rng.integers(0, len(ds.recs))) if not big else int(rng.integers(0, 4))
    prev = {}
    size = 0
    if a:
        uv = aipy.miriad.UV(p, 'new', ds.corrmode)
        mir.declare(uv, ds)
        uv['history'] = 'first\n'
        prev = mir.write_recs(uv, ds, ds.recs[:a])
        del uv
        size = os.path.getsize(os.path.join(p, 'visdata'))
    total = sum(len(r.data) for r in ds.recs[a:]) * (8 if ds.corrmode == 'r' else 4)
    room = int(rng.choice([rng.integers(0, 3), rng.integers(0, 300), rng.integers(0, total + 2), rng.integers(0, 40000)]))
    if big:
        room = int(rng.integers(0, 300000))
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    done, err, uv = 0, None, None
    resource.setrlimit(resource.RLIMIT_FSIZE, (size + room, old[1]))
    try:
        try:
            uv = aipy.miriad.UV(p, 'append' if a else 'new', ds.corrmode)
            mir.declare(uv, ds)
            carry = dict(prev) if rng.random() < .5 else {}
            for r in ds.recs[a:]:
                carry = mir.write_recs(uv, ds, [r], prev=carry)
                done += 1
        except (RuntimeError, IOError) as e:
            err = repr(e)             # not the exception: its traceback would keep the dataset open
        del uv
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, sig)
    mon.ev('full_refused' if err else 'full_accepted')
    mon.check(err is not None or total - room < 300000, 'writing %d bytes with room for %d raised no error' % (total, room))
    got, uv = [], None
    try:
        uv = aipy.miriad.UV(p)
        while True:
            (uvw, t, ij), d, m = uv.read(raw=True)
            got.append(mir.Rec(uvw, t, ij, d, m, mir.snapshot(uv, list(ds.types))))
    except (RuntimeError, IOError) as e:
        end = repr(e)
    mon.check(a <= len(got) <= a + done + 1, 'no room: %d records left of %d written before and %d in the session without room (%s)' % (len(got), a, done, end))
    mir.cmp_recs(mon, got, ds.recs[:len(got)], ds.corrmode, 'after a session without room')
    if a:
        mon.eq(uv['history'], 'first\n', 'history after a session without room')
    del uv
    # the process is none the worse
    q = os.path.join(mon.tmp(), 'b.uv')
    ds.items = {}
    mir.write(aipy, q, ds)
    mir.cmp_recs(mon, mir.read_all(aipy.miriad.UV(q), names=list(ds.types)), ds.recs, ds.corrmode, 'a dataset written later')
    mon.case('full', a, len(got), room, len(ds.recs[0].data))


if __name__ == '__main__':
    P.main()
