"""M09: a damaged dataset never crashes, hangs or disturbs others; a truncated one yields a prefix of its records."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import shutil
import mir
aipy = load()

P = Prop('M09', rule='an execution damages one file of a dataset (truncation at any byte, overwritten bytes and blocks, bit flips, removal, '
         'swapped files, garbage) and then opens, selects, reads, clones and appends to it while a healthy dataset is open; '
         'distinct by (file, damage, offset, outcome)',
         assumptions=['truncation and missing-file damage must give a prefix of the records or an error; other damage must only be '
                      'survived: values may differ'],
         require=['damaged_opens', 'reported', 'healthy_compared', 'prefix_records'])
E = (IOError, RuntimeError, ValueError, KeyError, UnicodeDecodeError, AssertionError, TypeError, MemoryError)


def damage(rng, path):
    """(file, kind, offset): one change to one file of the dataset."""
    fs = sorted(os.listdir(path))
    f = str(rng.choice(fs))
    p = os.path.join(path, f)
    b = bytearray(open(p, 'rb').read())
    n = len(b)
    kind = str(rng.choice(['truncate', 'truncate', 'flip', 'byte', 'block', 'zero', 'ff', 'remove', 'garbage', 'int', 'dup', 'insert']))
    off = int(rng.integers(n + 1)) if rng.random() < .6 else int(rng.integers(min(n, 64) + 1))
    if kind == 'truncate':
        b = b[:off]
    elif kind == 'remove':
        os.remove(p)
        return f, kind, 0
    elif kind == 'garbage':
        b = bytearray(rng.integers(256, size=int(rng.integers(200)), dtype=np.uint8).tobytes())
    elif kind == 'insert':
        b = b[:off] + bytearray(rng.integers(256, size=int(rng.integers(1, 9)), dtype=np.uint8).tobytes()) + b[off:]
    elif n:
        off = min(off, n - 1)
        if kind == 'flip':
            b[off] ^= 1 << int(rng.integers(8))
        elif kind == 'byte':
            b[off] = int(rng.integers(256))
        elif kind == 'int':
            off &= ~3
            v = int(rng.choice([0, 1, -1, 2**31 - 1, -2**31, 65536, 255, 4096]))
            b[off:off + 4] = (v & 0xffffffff).to_bytes(4, 'big')
        elif kind == 'dup':
            m = int(rng.integers(1, 64))
            b[off:off + m] = b[:m]
        else:
            m = int(rng.integers(1, 40))
            fill = {'zero': b'\0', 'ff': b'\xff'}.get(kind)
            blk = fill * m if fill else rng.integers(256, size=m, dtype=np.uint8).tobytes()
            b[off:off + m] = blk
    open(p, 'wb').write(bytes(b))
    return f, kind, off


def use(rng, mon, path, base, names):
    """Open and exercise a damaged dataset; returns (stage reached, records)."""
    got, stage = [], 'closed'
    try:
        uv = aipy.miriad.UV(path)
        mon.ev('opened_anyway')
        stage = 'open'
        uv.items(), uv.vars()
        if rng.random() < .3:
            uv.select('antennae', 0, 1)
            uv.select('clear', 0, 0)
        stage = 'read'
        for k in range(2000):
            (uvw, t, ij), d, f = uv.read(raw=True)
            got.append(mir.Rec(uvw, t, ij, d, f, mir.snapshot(uv, names)))
    except E as e:
        mon.ev('reported')
        if stage == 'read' and type(e) is OSError:
            stage = 'end'
        del e
    try:
        uv.rewind()
        uv.read()
        uv['history'], uv['freq0']
    except E:
        pass
    except UnboundLocalError:
        pass
    return stage, got


@P.workload(quick=1200, thorough=40000)
def damaged(rng, mon):
    base = mon.tmp()
    ds = mir.gen(rng, nchan=int(rng.choice([1, 3, 20, 31, 70])), nrec=int(rng.choice([1, 4, 20])), extra=3)
    ds.items = {'history': 'text', 'freq0': 2.5}
    if rng.random() < .3:
        ds.items['bandpass'] = np.arange(20) * 1j
    p, ok = os.path.join(base, 'a.uv'), os.path.join(base, 'ok.uv')
    mir.write(aipy, p, ds)
    good = mir.gen(rng, nchan=7, nrec=4, extra=2)
    mir.write(aipy, ok, good)
    healthy = aipy.miriad.UV(ok)
    got = []
    n1 = int(rng.integers(0, len(good.recs)))
    names = list(good.types)
    for k in range(n1):
        (uvw, t, ij), d, f = healthy.read(raw=True)
        got.append(mir.Rec(uvw, t, ij, d, f, mir.snapshot(healthy, names)))
    f, kind, off = damage(rng, p)
    if rng.random() < .2:
        damage(rng, p)
        kind = 'double'
    mon.ev('damaged_opens')
    stage, recs = use(rng, mon, p, base, list(ds.types))
    if kind in ('truncate', 'remove') and f in ('visdata', 'vartable', 'header', 'flags'):
        mon.ev('prefix_records', len(recs))
        mon.check(len(recs) <= len(ds.recs), '%d records out of %d' % (len(recs), len(ds.recs)))
        if f != 'vartable':
            if f == 'header' or (f, kind) == ('flags', 'remove'):   # without its flags item a dataset is unflagged
                for g, w in zip(recs, ds.recs):
                    g.mask = w.mask
            mir.cmp_recs(mon, recs, ds.recs[:len(recs)], ds.corrmode, '%s of %s at %d' % (kind, f, off), vars=(f == 'visdata'))
    if rng.random() < .3:       # clone the damaged one
        try:
            uvi = aipy.miriad.UV(p)
            uvo = aipy.miriad.UV(os.path.join(base, 'clone.uv'), 'new')
            uvo.init_from_uv(uvi)
            uvo.pipe(uvi)
        except E:
            mon.ev('reported')
        uvi = uvo = None
    if rng.random() < .3:       # append to the damaged one
        try:
            uv = aipy.miriad.UV(p, 'append', ds.corrmode)
            mir.declare(uv, ds)
            mir.write_recs(uv, ds, ds.recs[:2])
        except E:
            mon.ev('reported')
        uv = None
        try:
            mir.read_all(aipy.miriad.UV(p))
        except E:
            mon.ev('reported')
    for r in mir.read_all(healthy, names=names):
        got.append(r)
    mir.cmp_recs(mon, got, good.recs, good.corrmode, 'healthy dataset beside a damaged one (%s %s %d)' % (f, kind, off))
    mon.ev('healthy_compared')
    mon.case(f, kind, off, stage, len(recs))
    mon.sample(dict(file=f, damage=kind, offset=off, stage=stage, records=len(recs), of=len(ds.recs)))


if __name__ == '__main__':
    P.main()
