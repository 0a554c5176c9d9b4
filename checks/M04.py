"""M04: cloning a dataset through pipe keeps everything not deliberately changed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M04', rule='an execution clones a generated dataset with init_from_uv + pipe, with a random function that drops, '
         'edits or passes records, random override/exclude of variables and items, appended history, raw or masked mode and '
         'selection or decimation on the source, and compares every record, variable and item of the clone with the model; '
         'distinct by (mode, options, records kept, variables)',
         assumptions=['the copy function returns what write() accepts'],
         require=['records_compared', 'variables_compared', 'dropped', 'overridden', 'excluded', 'edited', 'decimated'])


@P.workload(quick=8100, thorough=20000)
def clone(rng, mon):
    ds = mir.gen(rng, nchan=int(rng.integers(1, 40)), extra=int(rng.integers(1, 7)), sets=float(rng.choice([.05, .3, .8])))
    ds.items = {'history': 'made here\n', 'freq0': 1.25, 'nsols': 7}
    if rng.random() < .2:
        del ds.items['history']
    if rng.random() < .25:      # records of several lengths, none longer than the first
        for r in ds.recs[1:]:
            n = int(rng.integers(1, len(r.data) + 1)) if rng.random() < .5 else len(r.data)
            r.data, r.mask = r.data[:n], r.mask[:n]
            r.vars['nchan'] = n
    crop = min(len(r.data) for r in ds.recs) if rng.random() < .3 else None
    src, dst = os.path.join(mon.tmp(), 'a.uv'), os.path.join(mon.tmp(), 'b.uv')
    mir.write(aipy, src, ds)
    last = ds.recs[-1].vars
    override, exclude = {}, []
    for n in last:
        if n in ('nchan', 'pol'):
            continue
        k = rng.random()
        if k < .12:
            override[n] = mir.gen_value(rng, ds.types[n])
            mon.ev('overridden')
        elif k < .24:
            exclude.append(n)
            mon.ev('excluded')
    if rng.random() < .2:
        override['freq0'] = 9.5
    if rng.random() < .2:
        exclude.append('nsols')
    uvi = aipy.miriad.UV(src)
    want_idx = list(range(len(ds.recs)))
    lim = int(rng.integers(5))
    if lim == 0:
        n, ph = int(rng.integers(1, 5)), int(rng.integers(0, 4))
        uvi.select('decimate', n, ph)
        cnt, last_t, want_idx = -1, None, []
        for k, r in enumerate(ds.recs):
            if r.t != last_t:
                cnt, last_t = cnt + 1, r.t
            if (cnt - ph) % n == 0:
                want_idx.append(k)
        mon.ev('decimated')
    elif lim == 1:
        pol = ds.recs[int(rng.integers(len(ds.recs)))].vars['pol']
        uvi.select('polarization', pol, 0)
        want_idx = [k for k in want_idx if ds.recs[k].vars['pol'] == pol]
        mon.ev('selected')
    act = rng.integers(4, size=len(ds.recs))     # 0 drop, 1 edit, else pass
    if rng.random() < .3:
        act[:] = 3
    setvar = rng.random() < .3 and 'lst' in override
    half = rng.random() < .2
    cmode = ds.corrmode if rng.random() < .7 else 'r'
    uvo = aipy.miriad.UV(dst, 'new', cmode)
    uvo.init_from_uv(uvi, override=override, exclude=exclude)
    it, out = iter(want_idx), []

    def edit(k, uv, p, d, f):
        uvw, t, ij = p
        # what the source dataset shows inside the function is this record
        mon.check(uv['lst'] == ds.recs[k].vars['lst'], 'lst in the function at record %d' % k)
        if act[k] == 0:
            mon.ev('dropped')
            return p, None, None
        if act[k] == 1:
            mon.ev('edited')
            p = (uvw * 2, t + .5, (ij[1], ij[0]))
            d = (d * np.complex64(2j)).astype(np.complex64)
            f = ~f if rng.random() < .5 else f
            if half and out and len(out[0].data) == len(d) > 1:     # the first record sets the length of all reads
                d, f = d[:len(d) // 2], f[:len(d) // 2]
        if crop:
            d, f = d[:crop], f[:crop]
        if setvar:
            uvo['lst'] = float(k)
        v = {n: x for n, x in ds.recs[k].vars.items() if n not in exclude and n not in override}
        v.update({n: x for n, x in override.items() if n in ds.types})
        if setvar:
            v['lst'] = float(k)
        v['nchan'] = len(d)
        out.append(mir.Rec(np.array(p[0]), p[1], p[2], d, f, v))
        return p, d, f

    kw = dict(append2hist='and cloned\n') if rng.random() < .7 else {}
    if rng.random() < .5:
        def fn(uv, p, d, f):
            p, d, f2 = edit(next(it), uv, p, d, f)
            return p, d, f2
        uvo.pipe(uvi, mfunc=fn, raw=True, **kw)
    else:
        def fn(uv, p, d):
            p, d, f = edit(next(it), uv, p, d.data, np.ma.getmaskarray(d))
            return p, None if d is None else np.ma.array(d, mask=f)
        uvo.pipe(uvi, mfunc=fn, **kw)
    mon.check(next(it, None) is None, 'the copy function was not called for every record')
    del uvo
    if not out:
        mon.ev('empty_clone')
        return
    if cmode == 'j' and ds.corrmode == 'r':
        cmode = 'j'
    uvo = aipy.miriad.UV(dst)
    for n in exclude:
        mon.check(n not in uvo.vars() and n not in uvo.items(), 'excluded %s is in the clone' % n)
    for n in out[-1].vars:
        mon.eq(uvo.vartable.get(n), ds.types[n], 'type of variable ' + n)
    if max(len(r.data) for r in out) > len(out[0].data):
        with mon.raises(RuntimeError, 'reading records longer than the first'):
            mir.read_all(uvo)
        return
    got = mir.read_all(uvo, names=list(out[-1].vars))
    mir.cmp_recs(mon, got, out, cmode, 'clone')
    if 'history' in ds.items or kw:
        mon.eq(uvo['history'], ds.items.get('history', '') + kw.get('append2hist', ''), 'history')
    if 'nsols' not in exclude:
        mon.eq(uvo['nsols'], 7, 'item nsols')
    mon.eq(uvo['freq0'], override.get('freq0', 1.25), 'item freq0')
    mon.ev('clones')
    mon.case(ds.corrmode, lim, tuple(act.tolist()), sorted(override), sorted(exclude), len(out))
    mon.sample(dict(corrmode=ds.corrmode, source_records=len(ds.recs), kept=len(out), override=sorted(override), exclude=exclude))


@P.workload(quick=1440, thorough=3000)
def plain_clone_of_clone(rng, mon):
    """Clone twice with no function: all three datasets read the same, and the sources are not modified."""
    ds = mir.gen(rng, nchan=int(rng.integers(1, 70)), extra=4)
    ds.corrmode = 'r'
    ds.items = {'history': 'x'}
    p = [os.path.join(mon.tmp(), '%d.uv' % k) for k in range(3)]
    mir.write(aipy, p[0], ds)
    before = {f: open(os.path.join(p[0], f), 'rb').read() for f in os.listdir(p[0])}
    for a, b in zip(p, p[1:]):
        uvi = aipy.miriad.UV(a)
        uvo = aipy.miriad.UV(b, 'new')
        uvo.init_from_uv(uvi)
        uvo.pipe(uvi)
        del uvo, uvi
    for f in p:
        got = mir.read_all(aipy.miriad.UV(f), names=list(ds.types))
        mir.cmp_recs(mon, got, ds.recs, 'r', 'generation ' + os.path.basename(f))
    after = {f: open(os.path.join(p[0], f), 'rb').read() for f in os.listdir(p[0])}
    mon.check(before == after, 'reading or cloning modified the source files')
    mon.case('cc', len(ds.recs), tuple(sorted(ds.types.items())))


if __name__ == '__main__':
    P.main()
