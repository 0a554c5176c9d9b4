"""N04: the other deconvolvers stay in bounds, report the residual of what they return and make the steps they document."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
aipy = load()

P = Prop('N04', rule='an execution deconvolves one generated image by least squares, maximum entropy (with given or searched variance) or '
         'annealing and checks bounds, residual, score, termination, untouched inputs and agreement with an independent implementation; or '
         'checks re-centring; distinct by image, kernel and options',
         assumptions=['real 2-d images; finite values'],
         require=['lsq', 'maxent', 'findvar', 'anneal', 'recenter', 'reference_compared'])


def conv(a, k):
    """Circular convolution, directly (as a matrix product)."""
    n0, n1 = a.shape
    r = np.zeros(a.shape)
    for i in range(n0):
        for j in range(n1):
            if a[i, j]:
                r += a[i, j] * np.roll(k, (i, j), (0, 1))
    return r


def make(rng, positive):
    shape = (int(rng.choice([1, 2, 3, 5, 8, 10])), int(rng.choice([1, 2, 3, 5, 8, 10])))
    ker = np.zeros(shape)
    ker[0, 0] = 1
    if rng.random() < .7:
        d = [np.minimum(np.arange(n), n - np.arange(n)) for n in shape]
        ker = np.exp(-(d[0][:, None]**2 + d[1][None, :]**2) / (2 * rng.uniform(.2, .8)**2))
    if rng.random() < .3:
        ker = ker + rng.normal(size=shape) * .02
    if rng.random() < .3:
        ker = ker * rng.choice([2., .1, 10.])
    src = rng.exponential(size=shape) + .2
    if not positive and rng.random() < .5:
        src = src * rng.choice([-1, 1], size=shape)
    im = conv(src, ker)
    if rng.random() < .5:
        im = im + rng.normal(size=shape) * .01 * np.abs(im).max()
    if positive:
        im = np.abs(im) + 1e-3
    mdl = None
    if rng.random() < .4:
        mdl = np.abs(rng.normal(size=shape)) + .1 if positive else rng.normal(size=shape)
    return im, ker, src, mdl


def common(mon, im, ker, got, info, before, arrays, lower, upper, moved, what):
    mon.check(before == [a.tobytes() for a in arrays], '%s changed its input' % what)
    mon.check(got.shape == im.shape and info['res'].shape == im.shape, 'shape of the result')
    mon.check(not any(np.shares_memory(got, a) for a in arrays), '%s returned its input' % what)
    if np.isfinite(got).all():
        s = np.abs(im).max() + np.abs(got).sum() * np.abs(ker).max()
        mon.close(info['res'], im - conv(got, ker), 1e-12 * s, 'residual of %s is not image - kernel * model' % what)
    if moved:
        mon.check(((got >= lower) & (got <= upper) | np.isnan(got)).all(), '%s left its bounds' % what, lower=lower, upper=upper,
                  got=[float(np.nanmin(got)), float(np.nanmax(got))])


def bounds(rng, kw):
    k = rng.random()
    lo, up = float(np.finfo(float).tiny), np.inf
    if k < .3:
        lo = float(rng.choice([0, .1, -np.inf, -1]))
        kw['lower'] = lo
    if rng.random() < .3:
        up = float(rng.choice([.5, 2, 100]))
        kw['upper'] = up
    return lo, up


@P.workload(quick=3600, thorough=40000)
def lsq(rng, mon):
    im, ker, src, mdl = make(rng, False)
    kw = dict(gain=float(rng.choice([.1, .5, .02])), tol=float(rng.choice([1e-3, 1e-5, .1, 0])), maxiter=int(rng.choice([1, 2, 10, 60])))
    lo, up = bounds(rng, kw)
    area = None
    if rng.random() < .4:
        area = (rng.random(im.shape) < .6).astype(str(rng.choice(['?', 'i', 'd'])))
        kw['area'] = area
    if mdl is not None:
        kw['mdl'] = mdl
    arrays = [a for a in (im, ker, mdl, area) if a is not None]
    before = [a.tobytes() for a in arrays]
    with np.errstate(all='ignore'):
        got, info = aipy.deconv.lsq(im, ker, **kw)
    mon.ev('lsq')
    # independent implementation
    q = np.sqrt((ker**2).sum())
    ar = 1 if area is None else np.asarray(area).astype(int)
    x = np.zeros(im.shape) if mdl is None else mdl.copy()
    prev, close, term, steps = 0., False, 'maxiter', 0
    with np.errstate(all='ignore'):
        for i in range(kw['maxiter']):
            diff = (im - conv(x, ker)) * ar
            n = np.mean(diff**2)
            t = abs(1 - prev / n)
            if n < 1e-20 * np.mean(im**2) or abs(t - kw['tol']) < 1e-7:
                close = True
            if t < kw['tol']:
                term = 'tol'
                break
            prev = n
            x = np.clip(x + np.where(diff != 0, kw['gain'] * diff / (2 * q), 0), lo, up)
            steps += 1
    common(mon, im, ker, got, info, before, arrays, lo, up, info['term'] == 'maxiter' or info['iter'] > 1, 'lsq')
    mon.check(info['term'] in ('tol', 'maxiter') and info['success'] and 1 <= info['iter'] <= kw['maxiter'] and info['tol'] == kw['tol'], 'termination')
    mon.check(info['term'] != 'maxiter' or info['iter'] == kw['maxiter'], 'maxiter')
    mon.case('lsq', im.tobytes(), ker.tobytes(), sorted((k, v) for k, v in kw.items() if np.isscalar(v)))
    if close:
        mon.ev('too_close')
        return
    mon.ev('reference_compared')
    mon.check(info['term'] == term and info['iter'] == i + 1, 'lsq ended with %s at %d, the reference with %s at %d' % (info['term'], info['iter'], term, i + 1))
    s = np.abs(im).max() / q + np.abs(x).max()
    mon.close(got, x, 1e-7 * s, 'least-squares model')
    mon.close(info['score'], prev, 1e-6 * (prev + 1e-6 * np.mean(im**2)), 'least-squares score')
    if area is not None and info['term'] == 'maxiter':
        keep = ar == 0
        m0 = np.clip(np.zeros(im.shape) if mdl is None else mdl, lo, up)
        mon.eq(got[keep], m0[keep], 'pixels outside the area')


@P.workload(quick=3600, thorough=40000)
def maxent(rng, mon):
    im, ker, src, mdl = make(rng, True)
    kw = dict(gain=float(rng.choice([.1, .3, .02])), tol=float(rng.choice([1e-3, 1e-2, 1e-5])), maxiter=int(rng.choice([1, 3, 20, 100])))
    lo, up = bounds(rng, kw)
    if lo <= 0:
        kw['lower'] = lo = float(rng.choice([1e-6, 1e-3]))
    var0 = float(np.var(im) * rng.choice([1e-4, 1e-2, .1, .5]) + 1e-6)
    if mdl is not None:
        kw['mdl'] = mdl
    elif ker.sum() == 0 or np.average(im) / ker.sum() <= 0:
        raise Skip()
    arrays = [a for a in (im, ker, mdl) if a is not None]
    before = [a.tobytes() for a in arrays]
    with np.errstate(all='ignore'):
        got, info = aipy.deconv.maxent(im, ker, var0, **kw)
    mon.ev('maxent')
    common(mon, im, ker, got, info, before, arrays, lo, up, info['iter'] > 1, 'maxent')
    mon.check(info['var0'] == var0 and info['tol'] == kw['tol'], 'echoed parameters')
    mon.check(info['term'] in ('tol', 'maxiter', 'divergence') and bool(info['success']) == (info['term'] != 'divergence'), 'termination and success')
    sc = info['score']
    mon.check({'tol': 0 < sc < kw['tol'], 'divergence': not (0 < sc <= 1e10), 'maxiter': info['iter'] == kw['maxiter'] and sc >= kw['tol']}[info['term']],
              'termination %s with score %r' % (info['term'], float(sc)))
    mon.ev('maxent_' + info['term'])
    # independent implementation of the documented (Cornwell & Evans) step
    m = np.full(im.shape, np.average(im) / ker.sum()) if mdl is None else mdl
    b, alpha, q, term, close = m.copy(), 0., np.sqrt((ker**2).sum()), 'maxiter', False
    with np.errstate(all='ignore'):
        for i in range(kw['maxiter']):
            diff = im - conv(b, ker)
            E = (diff**2).sum() - im.size * var0
            gE = -2 * q * diff
            gJ = -np.log(b / m) - 1 - alpha * gE
            H = 1 / b + alpha * 2 * q**2
            dot = lambda u, v: (u * v / H).sum()
            score = dot(gJ, gJ) / (1 / H).sum()
            da = (E + dot(gE, gJ)) / dot(gE, gE)
            if not np.isfinite(score) or abs(score - kw['tol']) < 1e-5 * kw['tol'] or abs(score) > 1e9 or abs(score) < 1e-9 \
                    or np.abs(H).min() < 1e-7 * np.abs(1 / b).max() or (diff**2).sum() < 1e-12 * (im**2).sum():
                close = True
                break
            if 0 < score < kw['tol']:
                term = 'tol'
                break
            if score > 1e10 or score <= 0:
                term = 'divergence'
                break
            b = np.clip(b + kw['gain'] / H * (gJ - da * gE), lo, up)
            alpha += kw['gain'] * da
    mon.case('maxent', im.tobytes(), ker.tobytes(), var0)
    if close or i > 30:
        mon.ev('too_close')     # long or ill-conditioned runs amplify rounding
        return
    mon.ev('reference_compared')
    mon.check(info['term'] == term and info['iter'] == i + 1, 'maxent ended with %s at %d, the reference with %s at %d' % (info['term'], info['iter'], term, i + 1))
    mon.close(got, b, 1e-4 * np.abs(b).max(), 'maximum-entropy model')
    mon.close(info['alpha'], alpha, 1e-3 * abs(alpha) + 1e-9, 'alpha')


@P.workload(quick=180, thorough=2000)
def findvar(rng, mon):
    """The variance search returns a converged fit."""
    shape = (int(rng.integers(4, 9)), int(rng.integers(4, 9)))
    d = [np.minimum(np.arange(n), n - np.arange(n)) for n in shape]
    ker = np.exp(-(d[0][:, None]**2 + d[1][None, :]**2) / (2 * .4**2))
    im = conv(rng.exponential(size=shape) + .5, ker)
    kw = dict(gain=.1, tol=1e-3, maxiter=200, maxiterok=bool(rng.random() < .3))
    if rng.random() < .5:
        kw['var'] = float(np.var(im) * rng.choice([.05, .2, .4]))
    before = im.tobytes(), ker.tobytes()
    import io, contextlib
    out = io.StringIO()
    with np.errstate(all='ignore'), contextlib.redirect_stdout(out):
        got, info = aipy.deconv.maxent_findvar(im, ker, **kw)
    mon.ev('findvar')
    mon.check(out.getvalue() == '', 'output without verbose: %r' % out.getvalue()[:50])
    common(mon, im, ker, got, info, list(before), [im, ker], np.finfo(float).tiny, np.inf, True, 'maxent_findvar')
    mon.check(info['success'] and (info['term'] == 'tol' or kw['maxiterok'] and info['term'] == 'maxiter'), 'not converged: %s' % info['term'])
    with np.errstate(all='ignore'):
        again, i2 = aipy.deconv.maxent(im, ker, info['var0'], gain=.1, tol=1e-3, maxiter=200)
    mon.eq(got, again, 'the fit is that of the variance found')
    mon.case('findvar', im.tobytes())


@P.workload(quick=1500, thorough=15000)
def anneal(rng, mon):
    im, ker, src, mdl = make(rng, False)
    kw = dict(maxiter=int(rng.choice([1, 5, 60, 200])))
    lo, up = bounds(rng, kw)
    if mdl is not None:
        kw['mdl'] = mdl
    calls = []
    if rng.random() < .6:
        s = float(rng.choice([0, .1, .5]))

        def cooling(i, x):
            calls.append((i, np.array(x)))
            return s * np.abs(x) / (1 + i)
        kw['cooling'] = cooling
    m0 = np.zeros(im.shape) if mdl is None else mdl
    arrays = [a for a in (im, ker, mdl) if a is not None]
    before = [a.tobytes() for a in arrays]
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    got, info = aipy.deconv.anneal(im, ker, **kw)
    n_calls = list(calls)
    np.random.seed(seed)
    again, i2 = aipy.deconv.anneal(im, ker, **kw)
    mon.ev('anneal')
    mon.eq(got, again, 'the same random numbers give the same result')
    moved = not np.array_equal(got, m0)
    mon.check(before == [a.tobytes() for a in arrays], 'anneal changed its input')
    s = np.abs(im).max() + np.abs(got).sum() * np.abs(ker).max()
    mon.close(info['res'], im - conv(got, ker), 1e-12 * s, 'residual of anneal is not image - kernel * model')
    if moved:
        mon.check(((got >= lo) & (got <= up)).all(), 'anneal left its bounds')
        mon.ev('annealed')
    sc0 = np.mean((im - conv(m0, ker))**2)
    mon.check(info['score'] <= sc0 * (1 + 1e-9) + 1e-24 * s**2, 'annealing made the fit worse', score=float(info['score']), start=float(sc0))
    mon.close(info['score'], np.mean(info['res']**2), 1e-9 * sc0, 'score is not that of the residual')
    mon.check(info['iter'] == kw['maxiter'] and info['success'] and info['term'] == 'maxiter', 'termination')
    if n_calls:
        mon.eq([c[0] for c in n_calls], list(range(kw['maxiter'])), 'cooling is called with each iteration')
        q = np.sqrt((ker**2).sum())
        mon.close(n_calls[0][1], (im - conv(m0, ker)) / q, 1e-9 * s / q, 'cooling is given the scaled residual')
        r = [np.mean(c[1]**2) for c in n_calls]
        mon.check(all(b <= a * (1 + 1e-9) for a, b in zip(r, r[1:])), 'a step that worsened the residual was taken')
    mon.case('anneal', im.tobytes(), ker.tobytes(), kw['maxiter'])


@P.workload(quick=1800, thorough=10000)
def recenter(rng, mon):
    """Re-centring is the cyclic shift that brings pixel c to the corner, and its inverse undoes it."""
    shape = tuple(int(x) for x in rng.integers(1, 12, size=2))
    a = rng.normal(size=shape)
    if rng.random() < .3:
        a = a + 1j
    masked = rng.random() < .4
    c = tuple(int(x) for x in rng.integers(-30, 31, size=2))
    i, j = np.indices(shape)
    src = ((i + c[0]) % shape[0], (j + c[1]) % shape[1])
    f = [aipy.img.recenter] if masked else [aipy.img.recenter, aipy.deconv.recenter]
    x = np.ma.array(a, mask=rng.random(shape) < .4) if masked else a
    for g in f:
        y = g(x, c)
        mon.eq(y, x[src], 'recentred')
        mon.check(np.ma.isMA(y) == masked, 'kind of the result')
        mon.eq(g(y, (-c[0], -c[1])), x, 'recentred back')
        mon.ev('recenter')
    mon.case('recenter', shape, c, masked)


if __name__ == '__main__':
    sys.exit(P.main())
