"""M01: every visibility record written to a UV dataset is read back, in order and unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M01', rule='an execution writes a generated UV dataset (nchan 1..4096, records crossing the 16 kB stream '
         'and 4 kB mask buffers, float or 16-bit storage, extreme values, run-length flags, antennas up to 2046) '
         'through one of the write entry points, closes it, reads it through one of the read entry points and compares '
         'every record; distinct and non-trivial by (storage, nchan, records, write/read entry, flag pattern, max |value| decade)',
         assumptions=['antenna numbers 0..2046', '16-bit storage: finite values between 1e-28 and 1e29 are compared '
                      'to one quantisation step of the record', 'one writer at a time'],
         require=['records_compared', 'channels_compared'])


def key(ds, *more):
    r = ds.recs
    mx = max([float(np.abs(x.data[np.isfinite(x.data)]).max(initial=0)) for x in r] or [0])
    return (ds.corrmode, len(r[0].data) if r else 0, len(r), sum(int(x.mask.sum()) for x in r),
            int(np.log10(mx)) if mx > 0 else None) + more


def spoil(rng, ds):
    """Non-finite values: stored as they are in float mode; never disturbing others in 16-bit mode."""
    for r in ds.recs:
        if rng.random() < .3:
            n = len(r.data)
            for v in (np.nan, np.inf, -np.inf):
                r.data[int(rng.integers(n))] = complex(v, 1) if rng.random() < .5 else complex(1, v)


@P.workload(quick=3600, thorough=12000)
def roundtrip(rng, mon):
    ds = mir.gen(rng, big=mon.thorough or rng.random() < .3, extra=2)
    if rng.random() < .25:
        spoil(rng, ds)
    w = str(rng.choice(['ma', 'flags', 'raw']))
    r = str(rng.choice(['ma', 'raw']))
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds, how=w, rewrite=rng.random() < .2)
    uv = aipy.miriad.UV(p)
    got = mir.read_all(uv, how=r)
    mir.cmp_recs(mon, got, ds.recs, ds.corrmode, 'read back', vars=False)
    with mon.raises(IOError, 'reading past the end'):
        uv.read()
    mon.case(key(ds, w, r))
    mon.sample(dict(corrmode=ds.corrmode, write=w, read=r, records=[x.brief() for x in ds.recs[:3]], n=len(ds.recs)))


@P.workload(quick=216, thorough=400, cost=8)
def long_streams(rng, mon):
    """Many records of few channels, and few of many: buffer boundaries in the stream and the mask."""
    if rng.random() < .5:
        ds = mir.gen(rng, nchan=int(rng.integers(1, 40)), nrec=int(rng.integers(300, 900)), extra=0)
    else:
        ds = mir.gen(rng, nchan=int(rng.integers(1500, 4097)), nrec=int(rng.integers(8, 40)), extra=0)
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds, how='raw' if rng.random() < .5 else 'ma')
    uv = aipy.miriad.UV(p)
    got = []
    if rng.random() < .5:
        for (uvw, t, ij), d, f in uv.all(raw=True):
            got.append(mir.Rec(uvw, t, ij, d, f, {}))
    else:
        for (uvw, t, ij), d in uv.all():
            got.append(mir.Rec(uvw, t, ij, d.data, np.ma.getmaskarray(d), {}))
    mir.cmp_recs(mon, got, ds.recs, ds.corrmode, 'read back', vars=False)
    mon.case(key(ds, 'long'))


@P.workload(quick=540, thorough=1500)
def shapes_of_input(rng, mon):
    """The same record given in other memory layouts and types is the same record."""
    n = mir.nchans(rng)
    p = os.path.join(mon.tmp(), 'a.uv')
    uv = aipy.miriad.UV(p, 'new')
    want = []
    for k in range(int(rng.integers(1, 6))):
        base = (rng.integers(-500, 500, size=2 * n) + 1j * rng.integers(-500, 500, size=2 * n)).astype(np.complex64)
        m2 = rng.random(2 * n) < .4
        uvw6 = rng.normal(size=6)
        lay = int(rng.integers(5))
        d, m, uvw = base[::2], m2[::2], uvw6[::2]
        if lay == 1:
            d, m = base[::-2], m2[::-2]
        elif lay == 2:
            d, m = base[::2].astype(np.complex128), m2[::2]
        elif lay == 3:
            d, m = base[::2].real.copy(), m2[::2]
        elif lay == 4:
            m = np.zeros(n, bool)
        t = 2455000. + k
        want.append(mir.Rec(np.array(uvw), t, (k, k + 1), np.array(d).astype(np.complex64), np.array(m), {}))
        entry = int(rng.integers(3))
        if entry == 0:
            uv.write((uvw, t, (k, k + 1)), np.ma.array(d) if lay == 4 else np.ma.array(d, mask=m))
        elif entry == 1:
            uv.write((uvw, t, (k, k + 1)), d, m if rng.random() < .5 else m.astype(int))
        else:
            fl = np.logical_not(m).astype(np.int64 if rng.random() < .5 else np.int32)
            uv.raw_write((uvw, t, (k, k + 1)), d.astype(np.complex64, copy=False), fl)
        mon.case('layout', lay, entry, n)
    if rng.random() < .3:
        uv.write((np.zeros(3), 2455001., (0, 1)), None)     # "no data" is not a record
        mon.ev('none_written')
    del uv
    got = mir.read_all(aipy.miriad.UV(p))
    mir.cmp_recs(mon, got, want, 'r', 'layouts', vars=False)


@P.workload(quick=270, thorough=600)
def varying_nchan(rng, mon):
    """Records of different lengths: every record comes back with its own channels, and no others."""
    p = os.path.join(mon.tmp(), 'a.uv')
    cm = str(rng.choice(['r', 'j']))
    ds = mir.DS(cm)
    n0 = int(rng.integers(5, 60))
    uv = aipy.miriad.UV(p, 'new', cm)
    for k in range(int(rng.integers(2, 9))):
        n = n0 if k == 0 else int(rng.integers(1, n0 + 1))
        ds.recs.append(mir.Rec(rng.normal(size=3), 2455000. + k, (0, k), mir.gen_vals(rng, n), mir.gen_mask(rng, n), {}))
    mir.write_recs(uv, ds)
    del uv
    got = mir.read_all(aipy.miriad.UV(p), how=str(rng.choice(['ma', 'raw'])))
    mir.cmp_recs(mon, got, ds.recs, cm, 'varying nchan', vars=False)
    mon.case('vary', tuple(len(r.data) for r in ds.recs))


if __name__ == '__main__':
    P.main()
