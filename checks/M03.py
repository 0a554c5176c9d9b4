"""M03: header items read back as written: every kind, any length, and no item disturbs another."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M03', rule='an execution performs a random sequence of header-item sets, re-sets, reads and re-openings on a dataset '
         'and compares every item (and items()) with a dictionary model; distinct by the sequence of (item, kind of value)',
         assumptions=['obstype, vartable are maintained by the library and are not set by the user',
                      'a numeric item holding one value reads as a scalar'],
         require=['items_compared', 'resets', 'reopened'])
ITEMS = {'history': 'a', 'ngains': 'i', 'nfeeds': 'i', 'ntau': 'i', 'nsols': 'i', 'interval': 'd', 'leakage': 'c',
         'freq0': 'd', 'freqs': '?', 'bandpass': 'c', 'nspect0': 'i', 'nchan0': 'i', 'stopt': 'd', 'duration': 'd'}


def gen_item(rng, t):
    n = int(rng.choice([1, 1, 2, 3, 17, 64, 500, 5000]))
    if t == 'a':
        L = int(rng.choice([1, 3, 60, 1000, 4095, 4096, 4097, 9000]))
        alpha = 'abc XYZ\n\t:,=' + ('éßπ€' if rng.random() < .3 else '')
        return ''.join(alpha[i] for i in rng.integers(len(alpha), size=L))
    if t == 'i':
        v = rng.integers(-2**31, 2**31, size=n)
    elif t == 'd':
        v = rng.normal(size=n) * 10. ** rng.uniform(-100, 100)
    elif t == 'c':
        v = (rng.normal(size=n) + 1j * rng.normal(size=n)).astype(np.complex64).astype(complex)
    else:
        k = int(rng.integers(1, 6))
        v = [k]
        for _ in range(k):
            v += [int(rng.integers(1, 4096)), float(rng.uniform(.05, 2)), float(rng.normal())]
        return v
    if n == 1 and rng.random() < .7:
        return v[0].item()
    return v if rng.random() < .5 else [x.item() for x in v]


def expect(v):
    if isinstance(v, str):
        return v
    v = list(np.atleast_1d(np.array(v))) if not isinstance(v, list) else v
    return v[0] if len(v) == 1 else v


def compare(mon, uv, model, when):
    for k, v in model.items():
        g, w = uv[k], expect(v)
        mon.ev('items_compared')
        if isinstance(w, str):
            mon.check(g == w, '%s: item %s reads %r, want %r' % (when, k, short(g), short(w)))
        else:
            mon.eq(np.array(g), np.array(w), '%s: item %s' % (when, k))
    it = set(uv.items())
    mon.check(it - {'obstype', 'vartable'} == set(model), '%s: items() lists %s, want %s' % (when, sorted(it), sorted(model)))


@P.workload(quick=2880, thorough=8000)
def items(rng, mon):
    p = os.path.join(mon.tmp(), 'a.uv')
    uv = aipy.miriad.UV(p, 'new')
    model, trace = {}, []
    names = [str(x) for x in rng.choice(list(ITEMS), size=int(rng.integers(1, 9)), replace=False)]
    wrote = False
    for k in range(int(rng.integers(1, 14))):
        nm = names[int(rng.integers(len(names)))]
        v = gen_item(rng, ITEMS[nm])
        if nm in model:
            mon.ev('resets')
        uv[nm] = v
        model[nm] = v
        trace.append((nm, np.size(v) if not isinstance(v, str) else len(v)))
        if rng.random() < .3:
            compare(mon, uv, model, 'while writing')
        if rng.random() < .3:
            uv.write((np.zeros(3), 2455000. + k, (0, 1)), np.ma.array(np.ones(3, np.complex64), mask=[0, 1, 0]))
            wrote = True
    if not wrote:
        uv.write((np.zeros(3), 2455000., (0, 1)), np.ma.array(np.ones(3, np.complex64), mask=[0, 1, 0]))
    del uv
    uv = aipy.miriad.UV(p)
    mon.ev('reopened')
    compare(mon, uv, model, 'after re-opening')
    if rng.random() < .5:
        uv.read()
        compare(mon, uv, model, 'after a read')
    mon.check(uv['obstype'].strip('\0 ').startswith(('crosscorrelation', 'mixed', 'autocorrelation')), 'obstype %r' % uv['obstype'])
    del uv
    if rng.random() < .5:       # change items of an existing dataset
        uv = aipy.miriad.UV(p, 'append')
        for k in range(int(rng.integers(1, 5))):
            nm = names[int(rng.integers(len(names)))]
            v = gen_item(rng, ITEMS[nm])
            uv[nm] = v
            model[nm] = v
        compare(mon, uv, model, 'while appending')
        del uv
        mon.ev('reopened')
        compare(mon, aipy.miriad.UV(p), model, 'after appending')
    mon.case(tuple(trace))
    mon.sample(dict(trace=trace))


@P.workload(quick=900, thorough=1500)
def absent(rng, mon):
    """Items a dataset does not have are reported as absent; names outside the table are refused."""
    p = os.path.join(mon.tmp(), 'a.uv')
    uv = aipy.miriad.UV(p, 'new')
    have = [n for n in ITEMS if rng.random() < .3]
    model = {n: gen_item(rng, ITEMS[n]) for n in have}
    for n, v in model.items():
        uv[n] = v
    uv.write((np.zeros(3), 2455000., (0, 1)), np.ma.array(np.ones(3, np.complex64), mask=[0, 1, 0]))
    del uv
    uv = aipy.miriad.UV(p)
    for n in ITEMS:
        if n not in model:
            with mon.raises(IOError, 'reading the absent item ' + n):
                uv[n]
    with mon.raises(KeyError, 'reading a name that is neither variable nor item'):
        uv['nonsense']
    compare(mon, uv, model, 'after failed reads')
    mon.ev('resets')
    mon.case('absent', tuple(have))


if __name__ == '__main__':
    P.main()
