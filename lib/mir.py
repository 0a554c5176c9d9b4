"""MIRIAD datasets: generator, executable model, writers and readers used by the M and S checks."""
import os
import numpy as np

POLS = [1, 2, 3, 4, -1, -2, -3, -4, -5, -6, -7, -8]
ANTS = [0, 1, 2, 3, 5, 7, 31, 63, 127, 128, 200, 253, 254, 255, 256, 257, 300, 1023, 2045, 2046]


class Rec:
    __slots__ = ('uvw', 't', 'ij', 'data', 'mask', 'vars')

    def __init__(self, uvw, t, ij, data, mask, vars):
        self.uvw, self.t, self.ij, self.data, self.mask, self.vars = uvw, t, ij, data, mask, vars

    def brief(self):
        return dict(uvw=[float(x) for x in self.uvw], t=self.t, ij=self.ij, nchan=len(self.data),
                    nflag=int(self.mask.sum()))


class DS:
    """A dataset as its writer sees it. recs[k].vars holds every variable value in force at record k."""
    def __init__(self, corrmode='r'):
        self.corrmode, self.types, self.recs, self.items = corrmode, {}, [], {}


# ---------------------------------------------------------------- generator
def gen_vals(rng, n, wild=True):
    """n complex64 values; `wild` adds huge, tiny, denormal and signed-zero ones."""
    d = rng.normal(size=n) + 1j * rng.normal(size=n)
    k = rng.integers(7) if wild else 0
    if k == 1:
        d = d * 10. ** rng.uniform(-28, 28)
    elif k == 2:
        d = d * 10. ** rng.uniform(-6, 6, size=n)
    elif k == 3:
        d = np.zeros(n, complex)
    elif k == 4:
        d = np.round(d * 3)
    elif k == 5:
        d[rng.random(n) < .3] = 0
    elif k == 6:
        d = rng.integers(-32767, 32768, size=n) + 1j * rng.integers(-32767, 32768, size=n)
    return d.astype(np.complex64)


def gen_mask(rng, n):
    k = rng.integers(6)
    if k == 0:
        return np.zeros(n, bool)
    if k == 1:
        return np.ones(n, bool)
    if k == 2:
        return rng.random(n) < .5
    if k == 3:
        return rng.random(n) < .03
    m = np.zeros(n, bool)
    for _ in range(int(rng.integers(1, 4))):        # runs, of every phase against the 31-bit mask words
        a = int(rng.integers(n))
        m[a:a + int(rng.integers(1, 70))] = True
    return m if k == 4 else ~m


def gen_ants(rng, n):
    pool = [int(a) for a in rng.choice(ANTS, size=n)] if rng.random() < .5 else list(range(n))
    return pool


def nchans(rng, big=False):
    k = rng.random()
    if k < .5:
        return int(rng.integers(1, 12))
    if k < .8:
        return int(rng.choice([30, 31, 32, 33, 61, 62, 63, 64, 93, 100, 128]))
    return int(rng.choice([203, 256, 512, 1024] + ([2048, 3967, 3968, 4096] if big else [])))


def gen_value(rng, typ, scale=1):
    """A value for a UV variable, as a user would set it."""
    k = rng.random()
    n = int(rng.choice([2, 3, 4, 7, 16, 40])) if k < .35 else 0
    if typ == 'a':
        L = int(rng.choice([0, 1, 2, 5, 12, 60, 200]))
        alpha = 'abcXYZ 019_-+.,é' if rng.random() < .3 else 'abcdefghij klm_09'
        return ''.join(alpha[i] for i in rng.integers(len(alpha), size=L)).rstrip('\0')
    if typ == 'i':
        lim = int(rng.choice([3, 1000, 2**31 - 1]))
        return rng.integers(-lim, lim + 1, size=n) if n else int(rng.integers(-lim, lim + 1))
    if typ == 'j':
        lim = int(rng.choice([3, 1000, 32767]))
        return rng.integers(-lim, lim + 1, size=n) if n else int(rng.integers(-lim, lim + 1))
    if typ == 'r':
        v = (rng.normal(size=max(n, 1)) * 10. ** rng.uniform(-20, 20)).astype(np.float32)
        return v if n else float(v[0])
    if typ == 'd':
        v = rng.normal(size=max(n, 1)) * 10. ** rng.uniform(-200, 200)
        return v if n else float(v[0])
    if typ == 'c':
        v = (rng.normal(size=max(n, 1)) + 1j * rng.normal(size=max(n, 1))) * 10. ** rng.uniform(-9, 9)
        v = v.astype(np.complex64).astype(complex)
        return v if n else complex(v[0])
    raise ValueError(typ)


BASEVARS = [('nchan', 'i'), ('sfreq', 'd'), ('sdf', 'd'), ('inttime', 'd'), ('pol', 'i'), ('lst', 'd'),
            ('nants', 'i'), ('ra', 'd'), ('dec', 'd'), ('obsra', 'd'), ('obsdec', 'd'), ('telescop', 'a')]


def gen(rng, corrmode=None, nrec=None, nchan=None, wild=True, extra=4, big=False, ants=None, pols=None,
        sets=.3, changing=True):
    """A dataset: records in integrations over baselines and polarisations, and variables changing in time."""
    ds = DS(corrmode or str(rng.choice(['r', 'j'])))
    nchan = nchan or nchans(rng, big)
    nrec = nrec or int(rng.choice([1, 2, 3, 6, 12, 25, 40]))
    ants = ants or gen_ants(rng, int(rng.integers(1, 5)))
    bls = [(a, b) for x, a in enumerate(ants) for b in ants[x:]]
    if rng.random() < .3:
        bls = [(b, a) if rng.random() < .5 else (a, b) for a, b in bls]
    pols = pols or [int(p) for p in rng.choice(POLS, size=int(rng.integers(1, 4)), replace=False)]
    cur = dict(nchan=nchan, sfreq=float(rng.uniform(.05, .2)), sdf=float(rng.uniform(1e-5, 1e-3)),
               inttime=float(rng.choice([1., 10.7])), pol=pols[0], lst=0., nants=len(ants))
    ds.types.update({k: t for k, t in BASEVARS if k in cur})
    names = ['va', 'vb', 'v_1', 'vlongnam', 'x', 'dup', 'pud', 'zz9']
    for k in range(extra):
        ds.types[names[k]] = str(rng.choice(list('aijrdc')))
    dyn = names[:extra]
    if wild and rng.random() < .25:
        t = float(rng.choice([0., -3.5, 1., 1e9, 258., 1000.]))
    else:
        t = 2455000. + float(rng.integers(10**6)) / 977.
    dt = float(rng.choice([1e-4, 7.1e-5, .25, 1.]))
    k = 0
    while k < nrec:
        cur['lst'] = (cur['lst'] + .01) % 6.3 if changing else cur['lst']
        sub = bls if rng.random() < .7 else [bls[i] for i in rng.permutation(len(bls))]
        for ij in sub:
            for p in pols:
                if k >= nrec:
                    break
                cur['pol'] = p
                for name in dyn:
                    if rng.random() < (sets if k else .6):
                        cur[name] = gen_value(rng, ds.types[name])
                uvw = rng.normal(size=3) * 10. ** rng.uniform(-3, 5)
                if rng.random() < .15:
                    uvw = np.array([0., 0., 0.])
                elif rng.random() < .1 and ds.recs:
                    uvw = ds.recs[-1].uvw.copy()
                    x = int(rng.integers(3))
                    uvw[x] = uvw[x] + 1 if rng.random() < .5 else uvw[x] * (1 + 1e-9) if rng.random() < .5 else np.nextafter(uvw[x], np.inf)
                data = gen_vals(rng, nchan, wild)
                ds.recs.append(Rec(uvw, t, ij, data, gen_mask(rng, nchan), dict(cur)))
                k += 1
        if rng.random() < .9:
            t = t + dt if rng.random() < .95 else t - 3 * dt
    return ds


# ---------------------------------------------------------------- writers
def differs(a, b):
    import vf
    return type(a) != type(b) or not vf.same(a, b)


def write_recs(uv, ds, recs=None, how='ma', rewrite=False, prev=None):
    """Write records as a user would: set the variables that change, then write()."""
    prev = dict(prev or {})
    for r in (ds.recs if recs is None else recs):
        for name, v in r.vars.items():
            if rewrite or name not in prev or differs(prev[name], v):
                uv[name] = v
                prev[name] = v
        if how == 'raw':
            uv.raw_write((r.uvw, r.t, r.ij), r.data, np.logical_not(r.mask).astype(np.int32))
        elif how == 'flags':
            uv.write((r.uvw, r.t, r.ij), r.data, r.mask)
        else:
            uv.write((r.uvw, r.t, r.ij), np.ma.array(r.data, mask=r.mask))
    return prev


def declare(uv, ds):
    for name, t in ds.types.items():
        uv.add_var(name, t)


def write(aipy, path, ds, how='ma', rewrite=False):
    uv = aipy.miriad.UV(path, 'new', ds.corrmode)
    declare(uv, ds)
    for k, v in ds.items.items():
        uv[k] = v
    write_recs(uv, ds, how=how, rewrite=rewrite)
    del uv


# ---------------------------------------------------------------- readers
def norm(v):
    """Strings are NUL-terminated in the format: trailing NULs are not part of the value."""
    return v.rstrip('\0') if isinstance(v, str) else v


def snapshot(uv, names):
    d = {}
    for n in names:
        try:
            d[n] = uv[n]
        except (RuntimeError, KeyError):    # no value yet
            pass
    return d


def read_all(uv, how='ma', names=()):
    """Drain uv: list of Rec (data of masked channels included)."""
    out = []
    while True:
        try:
            if how == 'raw':
                (uvw, t, ij), d, m = uv.read(raw=True)
            else:
                (uvw, t, ij), dm = uv.read()
                d, m = dm.data, np.ma.getmaskarray(dm)
        except IOError:
            return out
        out.append(Rec(uvw, t, ij, d, m, snapshot(uv, names)))


# ---------------------------------------------------------------- monitors
def lsb(data):
    """Largest error of the 16-bit storage mode for this record."""
    d = np.concatenate([np.abs(data.real), np.abs(data.imag)]).astype(np.float64)
    d = d[np.isfinite(d)]
    mx = d.max() if d.size else 0.
    # truncated to a step, scaled in single precision
    return (mx if mx > 0 else 0.) / 32767 * 1.01 + 1e-44


def cmp_data(mon, got, want, corrmode, msg, **kw):
    mon.ev('channels_compared', want.size)
    if corrmode == 'r':
        mon.check(got.dtype == np.complex64, msg + ': dtype %s' % got.dtype)
        a = np.ascontiguousarray(got).view(np.float32)
        b = np.ascontiguousarray(want.astype(np.complex64)).view(np.float32)
        mon.eq(a, b, msg, **kw)
    else:
        fin = np.isfinite(want.real) & np.isfinite(want.imag)
        tol = lsb(want)
        mon.check(got.shape == want.shape, msg + ': shape', **kw)
        mon.close(got.real[fin].astype(float), want.real[fin].astype(float), tol, msg + ' (real, 16-bit)', **kw)
        mon.close(got.imag[fin].astype(float), want.imag[fin].astype(float), tol, msg + ' (imag, 16-bit)', **kw)


def cmp_recs(mon, got, want, corrmode, what, vars=True, types=None):
    mon.check(len(got) == len(want), '%s: %d records, want %d' % (what, len(got), len(want)))
    for k, (g, w) in enumerate(zip(got, want)):
        m = '%s, record %d of %d' % (what, k, len(want))
        mon.ev('records_compared')
        mon.eq(np.asarray(g.uvw), w.uvw, m + ' uvw')
        mon.check(g.t == w.t, m + ' time: got %r, want %r' % (g.t, w.t))
        mon.check(tuple(g.ij) == tuple(w.ij), m + ' baseline: got %r, want %r' % (g.ij, w.ij))
        mon.eq(np.asarray(g.mask, bool), w.mask, m + ' flags')
        cmp_data(mon, g.data, w.data, corrmode, m + ' data')
        if vars:
            cmp_vars(mon, g.vars, w.vars, m)


def cmp_vars(mon, got, want, m):
    for name, w in want.items():
        mon.ev('variables_compared')
        mon.check(name in got, '%s: variable %s has no value, want %r' % (m, name, w))
        if name in got:
            cmp_value(mon, got[name], w, '%s variable %s' % (m, name))
    extra = set(got) - set(want)
    mon.check(not extra, '%s: variables %s have a value before any was set' % (m, sorted(extra)))


def cmp_value(mon, g, w, m):
    if isinstance(w, str):
        mon.check(isinstance(g, str) and norm(g) == norm(w), '%s: got %r, want %r' % (m, g, w))
    else:
        w = np.asarray(w)
        if w.ndim == 1 and w.size == 1:
            w = w[0]
        mon.eq(g, w, m)
