"""M02: reading a record makes every UV variable show the value its writer had set at that record."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M02', rule='an execution writes a dataset whose variables (all six types, scalars, arrays of changing length, '
         'strings; up to 250 of them) change at random records, and compares every variable with the writer\'s value '
         'after the constructor and after each read; distinct by (types, number of variables, number of value changes, '
         'access pattern)',
         assumptions=['variable names of 1..8 characters that are not header items, values of less than 32 kB',
                      'a string is compared up to trailing NULs, an array of one element as a scalar'],
         require=['variables_compared', 'records_compared', 'value_changes', 'records_while_writing', 'overrides'])


def model_changes(ds):
    n = 0
    for a, b in zip(ds.recs, ds.recs[1:]):
        n += sum(k not in a.vars or mir.differs(a.vars[k], v) for k, v in b.vars.items())
    return n


@P.workload(quick=3780, thorough=12000)
def per_record(rng, mon):
    ds = mir.gen(rng, nchan=int(rng.integers(1, 20)), extra=int(rng.integers(1, 9)),
                 sets=float(rng.choice([.05, .3, .9])))
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds, rewrite=rng.random() < .3)
    uv = aipy.miriad.UV(p)
    mon.check(set(ds.types) - set(uv.vars()) <= {n for n in ds.types if n not in ds.recs[-1].vars},
              'vars() does not list %s' % sorted(set(ds.types) - set(uv.vars())))
    for n in ds.recs[-1].vars:
        mon.eq(uv.vartable.get(n), ds.types[n], 'type of variable ' + n)
    names = list(ds.types)
    mir.cmp_vars(mon, mir.snapshot(uv, names), ds.recs[0].vars, 'after opening')
    got = mir.read_all(uv, names=names)
    mir.cmp_recs(mon, got, ds.recs, ds.corrmode, 'variables')
    n = model_changes(ds)
    mon.ev('value_changes', n)
    mon.case(tuple(sorted(ds.types.items())), len(ds.recs), n)
    mon.sample(dict(types=ds.types, first={k: v for k, v in ds.recs[0].vars.items()}, changes=n))


@P.workload(quick=540, thorough=1500, cost=3)
def many_variables(rng, mon):
    """A dataset with up to 240 variables: each is still itself."""
    nv = int(rng.choice([60, 120, 126, 127, 128, 129, 160, 200, 240]))
    types, cur = {}, {}
    for k in range(nv):
        nm = 'v%s%d' % ('abcdefgh'[int(rng.integers(8))], k)
        types[nm] = str(rng.choice(list('aijrdc')))
    ds = mir.DS()
    ds.types = types
    for r in range(int(rng.integers(1, 7))):
        for nm, t in types.items():
            if r == 0 or rng.random() < .1:
                cur[nm] = mir.gen_value(rng, t)
        ds.recs.append(mir.Rec(rng.normal(size=3), 2455000. + r, (0, r), mir.gen_vals(rng, 3), mir.gen_mask(rng, 3), dict(cur)))
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds)
    uv = aipy.miriad.UV(p)
    got = mir.read_all(uv, names=list(types))
    mir.cmp_recs(mon, got, ds.recs, 'r', '%d variables' % nv)
    mon.ev('value_changes', model_changes(ds))
    mon.case('many', nv, len(ds.recs))


@P.workload(quick=1080, thorough=3000)
def lengths(rng, mon):
    """A variable whose length changes at every set, up to several stream buffers."""
    t = str(rng.choice(list('aijrdc')))
    lens = [int(rng.choice([1, 2, 3, 4, 5, 8, 9, 31, 100, 1000, 2000, 4094, 4095, 4096, 4097, 8191, 32000])) for _ in range(int(rng.integers(2, 9)))]
    most = 32767 // dict(a=1, i=4, j=4, r=4, d=8, c=8)[t]        # what the wrapper's buffers can return
    lens = [min(n, most) for n in lens]
    want, p = [], os.path.join(mon.tmp(), 'a.uv')
    uv = aipy.miriad.UV(p, 'new')
    uv.add_var('x', t)
    uv.add_var('after', 'i')
    for k, n in enumerate(lens):
        if t == 'a':
            v = ''.join(chr(97 + int(c)) for c in rng.integers(26, size=n - 1))
        elif t in 'ij':
            v = rng.integers(-32000, 32000, size=n)
        elif t == 'c':
            v = (rng.normal(size=n) + 1j * rng.normal(size=n)).astype(np.complex64).astype(complex)
        elif t == 'r':
            v = rng.normal(size=n).astype(np.float32)
        else:
            v = rng.normal(size=n)
        for _ in range(int(rng.integers(3))):       # a value overwritten before the record never shows
            uv['x'] = v[:1] if t == 'a' or n == 1 else v[::-1].copy()
            mon.ev('overwritten')
        uv['x'] = v
        uv['after'] = k
        uv.write((np.zeros(3), 2455000. + k, (0, 1)), np.ma.array(np.ones(2, np.complex64), mask=[False, True]))
        want.append(v)
    del uv
    uv = aipy.miriad.UV(p)
    for k, v in enumerate(want):
        uv.read()
        mir.cmp_value(mon, uv['x'], v, 'record %d, type %s, length %d' % (k, t, lens[k]))
        mon.check(uv['after'] == k, 'the variable set after x is %r, want %d' % (uv['after'], k))
        mon.ev('variables_compared', 2)
    mon.ev('value_changes', len(want))
    mon.case('len', t, tuple(lens))


@P.workload(quick=1350, thorough=4000)
def while_writing(rng, mon):
    """The dataset being written shows each variable as it was last set, however often that was."""
    p = os.path.join(mon.tmp(), 'w.uv')
    uv = aipy.miriad.UV(p, 'new', str(rng.choice(['r', 'j'])))
    types = {'v%d' % k: str(rng.choice(list('aijrdc'))) for k in range(int(rng.integers(1, 6)))}
    types['pol'] = 'i'
    for k, t in types.items():
        uv.add_var(k, t)
    uv.add_var('nchan', 'i')
    now, want = {}, []
    busy = rng.random(len(types))
    pols = [int(x) for x in rng.choice([-5, -6, -7, -8], size=int(rng.integers(1, 5)), replace=False)]
    for n in range(int(rng.choice([3, 12, 30, 80]))):
        for k, b in zip(types, busy):
            for _ in range(int(rng.choice([0, 1, 1, 2])) if rng.random() < b or n == 0 else 0):
                v = pols[n % len(pols)] if k == 'pol' else mir.gen_value(rng, types[k])
                uv[k] = v
                now[k] = v
                mon.ev('value_changes')
                if rng.random() < .5:
                    mir.cmp_value(mon, uv[k], v, 'just set, type %s %s' % (types[k], k))
        if rng.random() < .3 and now:
            k = str(rng.choice(list(now)))
            uv[k] = now[k]      # set to what it is already
        for k in now:
            mir.cmp_value(mon, uv[k], now[k], 'before record %d, type %s %s' % (n, types[k], k))
            mon.ev('variables_compared')
        if rng.random() < .8:
            uv.write((np.zeros(3), 2455000. + n, (0, 1)), np.ma.array(mir.gen_vals(rng, 2), mask=[False, True]))
            mon.ev('records_while_writing')
            want.append(dict(now))
    del uv
    if want:
        uv = aipy.miriad.UV(p)
        for n, w in enumerate(want):
            uv.read()
            for k in w:
                mir.cmp_value(mon, uv[k], w[k], 'record %d, type %s %s' % (n, types[k], k))
    mon.case('writing', tuple(sorted(types.values())), len(want))


ITEMS = dict(ngains='i', nfeeds='i', ntau='i', nsols='i', nspect0='i', nchan0='i', interval='d', freq0='d', stopt='d', duration='d')


@P.workload(quick=360, thorough=2000)
def overridden(rng, mon):
    """A header item of a single number holds over the variable of its name, in every record and in a copy; other variables are themselves."""
    ds = mir.gen(rng, nchan=int(rng.integers(1, 6)), extra=int(rng.integers(1, 5)))
    names = [str(x) for x in rng.choice(sorted(ITEMS), size=int(rng.integers(1, 5)), replace=False)]
    held = {n: (int(rng.integers(-99, 99)) if ITEMS[n] == 'i' else float(np.float32(rng.normal()))) for n in names if rng.random() < .7}
    p = os.path.join(mon.tmp(), 'a.uv')
    cur = {}
    # an integer item may hold over a variable of any numeric type, a double one over any but integers
    types = {n: str(rng.choice(list('ird' if ITEMS[n] == 'i' else 'rd'))) if n in held else ITEMS[n] for n in names}
    for r in ds.recs:
        for n in names:
            if n not in cur or rng.random() < .3:
                cur[n] = int(rng.integers(-99, 99)) if types[n] == 'i' else float(np.float32(rng.normal()))
        r.vars.update(cur)
    uv = aipy.miriad.UV(p, 'new', ds.corrmode)
    for n in held:
        uv[n] = held[n]                 # not a variable yet, so an item
    for n in rng.permutation(names):
        ds.types[str(n)] = types[str(n)]
    mir.declare(uv, ds)
    mir.write_recs(uv, ds)
    del uv
    for r in ds.recs:
        r.vars.update(held)
    uv = aipy.miriad.UV(p)
    for n in names:
        mon.eq(n in uv.items(), n in held, 'items() lists %s' % n)
    mir.cmp_vars(mon, mir.snapshot(uv, list(ds.types)), ds.recs[0].vars, 'after opening, held %r' % (held,))
    mir.cmp_recs(mon, mir.read_all(uv, names=list(ds.types)), ds.recs, ds.corrmode, 'held %r' % (held,))
    if ds.corrmode == 'r' and all(types[n] == ITEMS[n] or (types[n], ITEMS[n]) == ('r', 'd') for n in held):
        uv = aipy.miriad.UV(p)
        c = os.path.join(mon.tmp(), 'c.uv')
        uvo = aipy.miriad.UV(c, 'new')
        uvo.init_from_uv(uv)
        uvo.pipe(uv)
        del uvo
        mir.cmp_recs(mon, mir.read_all(aipy.miriad.UV(c), names=list(ds.types)), ds.recs, 'r', 'a copy, held %r' % (held,))
    mon.ev('overrides', len(held))
    mon.case('held', tuple(sorted(held)), tuple(sorted(names)), len(ds.recs))


@P.workload(quick=540, thorough=1200)
def errors_are_errors(rng, mon):
    """Undefined or unknown variables are reported and leave the others alone."""
    ds = mir.gen(rng, nchan=3, nrec=3, extra=3)
    p = os.path.join(mon.tmp(), 'a.uv')
    uv = aipy.miriad.UV(p, 'new', ds.corrmode)
    mir.declare(uv, ds)
    uv.add_var('never', str(rng.choice(list('ird'))))
    with mon.raises(KeyError, 'setting an undeclared variable'):
        uv['nosuch'] = 3
    bad, t = [('notanum', 'i'), ('notanum', 'r'), ('notanum', 'd'), (3, 'a'), ([[1, 2], [3, 4]], 'i'),
              ({}, 'd'), (None, 'i'), ('x', 'c')][int(rng.integers(8))]
    uv.add_var('tmpv', t)
    with mon.raises((TypeError, ValueError, RuntimeError, AttributeError), 'setting a %s variable to %r' % (t, bad)):
        uv['tmpv'] = bad
    mir.write_recs(uv, ds)
    del uv
    uv = aipy.miriad.UV(p)
    with mon.raises(KeyError, 'reading an unknown variable'):
        uv['nosuch']
    got = mir.read_all(uv, names=list(ds.types))
    mir.cmp_recs(mon, got, ds.recs, ds.corrmode, 'after refused values')
    mon.case('err', repr(bad), t, len(ds.types))


if __name__ == '__main__':
    P.main()
