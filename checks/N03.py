"""N03: CLEAN conserves the image (residual = image - kernel * model), follows its rules and reports truthfully."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
aipy = load()

P = Prop('N03', rule='an execution cleans one generated image (1-d or 2-d, real or complex, three precisions) and checks conservation, '
         'area, positivity, score, termination and untouched inputs, and agreement with an independent implementation unless a decision '
         'was too close to call; distinct by image, kernel and options',
         assumptions=['finite images and kernels; agreement with the reference is demanded up to rounding'],
         require=['cleans', 'conserved', 'reference_compared', 'refused_calls', 'refused_kernels', 'term_tol', 'term_divergence', 'term_maxiter'])


def conv(a, k):
    """Circular convolution, directly."""
    r = np.zeros(a.shape, np.result_type(a, k))
    for i in zip(*np.nonzero(a)):
        r = r + a[i] * np.roll(k, i, tuple(range(a.ndim)))
    return r


def make(rng, small=False):
    nd = int(rng.choice([1, 2]))
    dims = [1, 2, 3, 4, 7, 8, 12] if nd == 2 else [1, 2, 3, 8, 15, 32]
    shape = tuple(int(rng.choice(dims)) for _ in range(nd))
    dt = np.dtype(str(rng.choice(['f', 'd', 'd', 'd', 'g', 'F', 'D', 'D', 'G'])))

    def noise(s):
        a = rng.normal(size=shape) * s
        if dt.kind == 'c':
            a = a + 1j * rng.normal(size=shape) * s
        return a
    kind = str(rng.choice(['delta', 'psf', 'psf', 'noise', 'gauss', 'zero'], p=[.15, .3, .25, .12, .16, .02]))
    ker = np.zeros(shape, complex if dt.kind == 'c' else float)
    if kind != 'zero':
        ker.flat[0] = 1
    if kind == 'psf':
        ker = ker + noise(float(rng.choice([.02, .1, .3])))
    elif kind == 'noise':
        ker = noise(1.)
    elif kind == 'gauss':
        g = np.ones(shape)
        s = float(rng.uniform(.3, 2))
        for ax, n in enumerate(shape):
            d = np.minimum(np.arange(n), n - np.arange(n))
            g = g * np.exp(-d**2 / (2 * s**2)).reshape([-1 if i == ax else 1 for i in range(nd)])
        ker = ker * 0 + g
    if rng.random() < .4:
        ker = ker * (rng.choice([-1, 2, .01, 1000]) * (1j if dt.kind == 'c' and rng.random() < .5 else 1))
    src = np.zeros(shape, ker.dtype)
    for _ in range(int(rng.integers(1, 6))):
        i = tuple(int(rng.integers(n)) for n in shape)
        src[i] += rng.choice([-1, 1, 1, 1]) * rng.exponential() * (np.exp(2j * np.pi * rng.random()) if dt.kind == 'c' else 1)
    im = conv(src, ker) + noise(float(rng.choice([0, 0, .01, .3])))
    if rng.random() < .04:
        im = im * 0
    im = im * 10.**rng.integers(-3, 4)
    area = None
    a = rng.random()
    if a < .5:
        area = rng.random(size=shape) < rng.choice([.1, .5, .9])
        if rng.random() < .05:
            area[...] = False
        area = area.astype(str(rng.choice(['?', 'i', 'l', 'd', 'B']))) * (1 if rng.random() < .8 else 0 + 1)
        if area.dtype.kind in 'ild' and rng.random() < .3:
            area = area * area.dtype.type(rng.choice([-1, 5, 100]))
            if area.dtype == np.int_ and rng.random() < .5:
                area = area * 2**32
    mdl = None
    if rng.random() < .25:
        mdl = (src * rng.choice([.5, 1, 2]) + noise(.1) * (rng.random() < .5)).astype(dt)
    opt = dict(gain=float(rng.choice([.1, .1, .5, 1, .9, .02, 1.7, 2.5], p=[.2, .2, .2, .1, .1, .1, .05, .05])),
               maxiter=int(rng.choice([0, 1, 2, 5, 50, 300])), tol=float(rng.choice([1e-3, 1e-3, 1e-2, 1e-6, 0, .3])),
               stop_if_div=bool(rng.random() < .6), pos_def=bool(rng.random() < .3))
    return im.astype(dt), ker.astype(dt), mdl, area, opt


def view(rng, a):
    k = rng.random()
    if k < .6:
        return a
    if k < .7:
        return np.asfortranarray(a)
    if k < .8:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k < .9:
        return a.astype(a.dtype.newbyteorder())
    b = a.copy()
    b.flags.writeable = False
    return b


class Close(Exception):
    """The reference came to a decision that rounding could turn."""


def reference(im, ker, mdl, area, gain, maxiter, tol, stop_if_div, pos_def, eps, limit=2500):
    nd = im.ndim
    ax = tuple(range(nd))
    cplx = im.dtype.kind == 'c'
    wide = np.clongdouble if cplx else np.longdouble
    im, ker = im.astype(wide), ker.astype(wide)
    m = np.zeros(im.shape, wide) if mdl is None else mdl.astype(wide)
    res = im - conv(m, ker)
    ok = np.ones(im.shape, bool) if area is None else np.asarray(area).astype(np.int_) != 0
    mag = np.abs(ker)
    pk = np.unravel_index(np.argmax(mag), ker.shape)
    srt = np.sort(mag.ravel())
    if len(srt) > 1 and srt[-1] - srt[-2] <= 1e-3 * srt[-1] and (mag >= srt[-1] * .999).sum() > 1:
        vals = ker[mag >= srt[-1] * .999]
        if np.abs(vals - vals[0]).max() > 0:
            raise Close('kernel peak')
    q = 1 / ker[pk] if ker[pk] != 0 else wide(0)
    scale = float(np.abs(im).max()) + float(np.abs(res).max()) + 1e-300
    fuzz = 200 * eps * scale
    arg, peak = (0,) * nd, wide(0)
    score, first, best, i, tot = -1., None, None, 0, 0
    saved, nothing = None, False
    while i < maxiter:
        tot += 1
        if tot > limit:
            raise Close('too long')
        step = gain * peak * q
        m[arg] += step
        res = res - np.roll(ker, arg, ax) * step
        n = float(np.sqrt(np.mean(np.abs(res)**2)))
        cand = ok.copy()
        if pos_def and not cplx:
            if (np.abs(res[ok]) < fuzz).any():
                raise Close('sign')
            cand &= res > 0
        if cand.any():
            a = np.where(cand, np.abs(res), -1)
            top = a.max()
            near = (a > top - fuzz * (1 + tot))
            if near.sum() > 1 and top > 0:
                raise Close('peak')
            arg_new = np.unravel_index(np.argmax(a), a.shape)
            peak, found = res[arg_new], True
        else:
            arg_new, peak, found = arg, wide(0), False
        first = n if first is None else first
        if score >= 0 and (score < fuzz or n < fuzz):
            raise Close('zero score')
        if score > 0 and abs(n - score) < fuzz * tot and not nothing:
            raise Close('score')
        if score > 0 and n > score:
            if stop_if_div:
                m[arg] -= step
                return m, 'divergence', i
            if best is not None and abs(score - best) < fuzz * tot:
                raise Close('best')
            if best is None or score < best:
                u = m.copy()
                u[arg] -= step
                saved, best, i = u, score, 0
        elif score > 0 and (score - n) / first < tol:
            if abs((score - n) / first - tol) < 1e-3 * tol + 200 * eps * tot:
                if not (step == 0 and tol > 1e-5):
                    raise Close('tol')
            return m, 'tol', i
        else:
            if score > 0 and abs((score - n) / first - tol) < 1e-3 * tol + 200 * eps * tot:
                raise Close('tol')
            if not stop_if_div and n < score and (best is None or n < best):
                i = 0
        score, arg, nothing = n, arg_new, not found      # no candidate: the next step is none at all, exactly
        i += 1
    if best is not None and best < score:
        m = saved
    return m, 'maxiter', maxiter


@P.workload(quick=54000, thorough=200000)
def cleans(rng, mon):
    im, ker, mdl, area, opt = make(rng)
    if not opt['stop_if_div'] and opt['tol'] < 1e-4:
        opt['tol'] = float(rng.choice([1e-3, 0])) if im.size < 40 and opt['gain'] >= .5 and im.dtype.char not in 'gG' else 1e-3
    eps = float(np.finfo(im.dtype).eps)
    args = [view(rng, im), view(rng, ker)]
    kw = dict(opt)
    if mdl is not None:
        kw['mdl'] = view(rng, mdl)
    if area is not None:
        kw['area'] = view(rng, area)
    every = args + [v for v in (kw.get('mdl'), kw.get('area')) if v is not None]
    before = [a.tobytes() for a in every]
    got, info = aipy.deconv.clean(*args, **kw)
    mon.ev('cleans')
    mon.check(before == [a.tobytes() for a in every], 'clean changed its input')
    mon.check(not any(np.shares_memory(x, y) for x in (got, info['res']) for y in every), 'the result shares memory with the input')
    mon.check(got.shape == im.shape and got.dtype.num == im.dtype.num and info['res'].shape == im.shape, 'shape or type of the result')
    res = info['res']
    case = dict(options=opt, shape=im.shape, dtype=im.dtype.char)
    m0 = np.zeros(im.shape, im.dtype) if mdl is None else mdl
    mon.check(np.isfinite(got).all() and np.isfinite(res).all(), 'the result is not finite', **case)

    # conservation
    wide = np.clongdouble if im.dtype.kind == 'c' else np.longdouble
    steps = max(info['iter'], 1) + (im.size * 100 if not opt['stop_if_div'] else 0)
    scale = np.abs(im).max() + np.abs(m0).sum() * np.abs(ker).max() + np.abs(got).sum() * np.abs(ker).max() + np.abs(res).max()
    tol = 20 * eps * (10 + np.sqrt(steps) + im.size) * scale
    if mdl is not None:
        tol = max(tol, 1e-13 * scale * im.size)        # the starting residual is computed by FFT in double precision
        if im.dtype.char in 'fF':
            tol = max(tol, 1e-6 * scale)
    mon.close(res.astype(wide), im.astype(wide) - conv(got.astype(wide), ker.astype(wide)), tol, 'residual is not image - kernel * model', **case)
    mon.ev('conserved')
    r0 = im.astype(wide) - conv(m0.astype(wide), ker.astype(wide))
    rms0 = float(np.sqrt(np.mean(np.abs(r0)**2)))
    # where and how components are put
    ok = np.ones(im.shape, bool) if area is None else np.asarray(area).astype(np.int_) != 0
    put = got != m0
    mon.check(not put[~ok].any(), 'components outside the area', **case)
    if opt['stop_if_div']:
        mon.check(put.sum() <= max(info['iter'], 0), 'more components than iterations', **case)
    if opt['pos_def'] and im.dtype.kind != 'c' and np.abs(ker).max() > 0:
        pk = ker.flat[np.argmax(np.abs(ker))]
        d = (got - m0) * np.sign(pk)
        if (np.abs(ker) == np.abs(pk)).sum() == 1:
            undo = opt['gain'] * np.sqrt(im.size) * rms0 / np.abs(pk)      # a last step undone leaves its rounding
            mon.check((d >= -4 * eps * (np.abs(m0) + np.abs(got) + undo)).all(), 'a negative component with pos_def', **case)
            mon.ev('positive')
    # score and termination
    rms = float(np.sqrt(np.mean(np.abs(res.astype(wide))**2)))
    mon.close(float(info['score']), rms, (1e-5 if im.dtype.char in 'fF' else 1e-12) * (rms + 1e-3 * rms0), 'score is not the rms of the residual', **case)
    if opt['stop_if_div'] or info['term'] == 'maxiter':
        mon.check(rms <= rms0 * (1 + 1e3 * eps) + float(tol), 'the residual grew', rms=rms, start=rms0, **case)
    mon.check(info['term'] in ('tol', 'maxiter', 'divergence'), 'termination %r' % info['term'])
    mon.ev('term_' + info['term'])
    mon.check(bool(info['success']) == (info['term'] == 'tol'), 'success %r with termination %r' % (info['success'], info['term']))
    mon.check(0 <= info['iter'] <= opt['maxiter'] and (info['term'] != 'maxiter' or info['iter'] == opt['maxiter'])
              and (info['term'] == 'maxiter' or 0 < info['iter'] < opt['maxiter']), 'iterations', **case)
    mon.check(info['term'] != 'divergence' or opt['stop_if_div'], 'ended by divergence though told not to')
    mon.check(info['tol'] == opt['tol'], 'tol')
    # independent implementation
    mon.case('clean', im.tobytes(), ker.tobytes(), sorted(opt.items()), area is None, mdl is None)
    mon.sample(case)
    if mdl is not None and im.dtype.char in 'gG':
        return
    try:
        want, term, it = reference(im, ker, mdl, area, eps=max(eps, 1e-12 if mdl is not None else 0), **opt)
    except Close as e:
        mon.ev('too_close_' + str(e).replace(' ', '_'))
        return
    mon.ev('reference_compared')
    mon.check(info['term'] == term and info['iter'] == it, 'terminated with %s at %d, the reference with %s at %d' % (info['term'], info['iter'], term, it), **case)
    kmax = float(np.abs(ker).max()) or 1.
    rel, floor = (1e-3, 1e-5) if im.dtype.char in 'fF' else (1e-8, 1e-8)
    mon.close(got.astype(wide), want, rel * np.abs(want) + floor * float(np.abs(im).max()) / kmax + 1e3 * eps * np.abs(m0).max(),
              'model differs from the reference', **case)


@P.workload(quick=3600, thorough=15000)
def equivariance(rng, mon):
    """Moving, scaling, transposing or embedding an image moves, scales, transposes or embeds its model."""
    im, ker, _, area, opt = make(rng)
    im, ker = im.astype('d' if im.dtype.kind == 'f' else 'D'), ker.astype('d' if ker.dtype.kind == 'f' else 'D')
    opt.update(stop_if_div=True, tol=1e-3, maxiter=50)
    a = np.ones(im.shape, int) if area is None else (np.asarray(area) != 0).astype(int)
    m, info = aipy.deconv.clean(im, ker, area=a, **opt)
    s = 2.**int(rng.integers(-8, 9))
    m2, i2 = aipy.deconv.clean(im * s, ker, area=a, **opt)
    mon.eq(m2, m * s, 'model of a scaled image')
    m2, i2 = aipy.deconv.clean(im, ker * s, area=a, **opt)
    mon.eq(m2, m / s, 'model for a scaled kernel')
    if im.dtype.kind == 'c' and opt['gain'] != 0:
        m2, i2 = aipy.deconv.clean(im.conj(), ker.conj(), area=a, **opt)
        mon.eq(m2, m.conj(), 'model of the conjugate')
    if im.ndim == 1:
        m2, i2 = aipy.deconv.clean(im[None, :], ker[None, :], area=a[None, :], **opt)
        mon.close(m2[0], m, 1e-9 * (np.abs(m).max() + 1e-300), 'a 1-d clean as one row of a 2-d clean')
        mon.check(i2['term'] == info['term'], 'termination as 2-d')
    mon.ev('cleans', 4)
    mon.case('eq', im.tobytes(), sorted(opt.items()))


@P.workload(quick=2700, thorough=8000)
def recovers(rng, mon):
    """Point sources far apart under a kernel with small sidelobes come back with their flux."""
    nd = int(rng.choice([1, 2]))
    shape = (64,) if nd == 1 else (24, 20)
    cplx = rng.random() < .5
    ker = rng.normal(size=shape) * .01 + (1j * rng.normal(size=shape) * .01 if cplx else 0)
    ker.flat[0] = 1
    src = np.zeros(shape, complex if cplx else float)
    for _ in range(int(rng.integers(1, 5))):
        src[tuple(int(rng.integers(n)) for n in shape)] = rng.uniform(1, 3) * (np.exp(2j * np.pi * rng.random()) if cplx else 1)
    im = np.fft.ifftn(np.fft.fftn(src) * np.fft.fftn(ker))
    im = im if cplx else im.real
    m, info = aipy.deconv.clean(im, ker, gain=float(rng.choice([.1, .3, .7])), tol=1e-8, maxiter=5000, stop_if_div=bool(rng.random() < .7),
                                pos_def=bool(not cplx and rng.random() < .3))
    mon.ev('cleans')
    mon.check(info['term'] == 'tol' or info['score'] < 1e-3, 'did not converge: %s' % info['term'])
    mon.close(m, src, .02, 'recovered sources')
    mon.case('rec', shape, im.tobytes())


@P.workload(quick=1350, thorough=3000)
def refused(rng, mon):
    """Arrays that do not fit together are refused, never read past their end."""
    k = int(rng.integers(8))
    im, ker = rng.normal(size=(4, 5)), rng.normal(size=(4, 5))
    kw = {}
    if k == 0:
        ker = ker[:-1] if rng.random() < .5 else ker[:, :2]
    elif k == 1:
        kw['mdl'] = np.zeros((3, 5)) if rng.random() < .5 else np.zeros(4)
    elif k == 2:
        kw['area'] = np.ones((4, 4)) if rng.random() < .5 else np.ones(5)
    elif k == 3:
        n = int(rng.choice([0, 3, 4]))
        im, ker = rng.normal(size=(3,) * n), rng.normal(size=(3,) * n)
    elif k == 4:
        im, ker = [(np.zeros(0),) * 2, (np.zeros((0, 3)),) * 2, (np.zeros((3, 0)),) * 2][int(rng.integers(3))]
    elif k == 5:
        im, ker = im.astype('h'), ker.astype('h')
    elif k == 6:
        ker = ker.astype('f')
    else:
        ker = ker.ravel()
    with mon.raises((ValueError, TypeError), 'clean of misfit arrays (%d)' % k):
        aipy.deconv.clean(im, ker, **kw)
    mon.ev('refused_calls')
    mon.case('refused', k)


@P.workload(quick=1200, thorough=20000)
def misfits(rng, mon):
    """Arguments of the kernel of which one does not fit are refused, and nothing is changed."""
    shape = tuple(int(x) for x in rng.integers(2, 7, size=int(rng.integers(1, 3))))
    dt = np.dtype(str(rng.choice(list('fdgFDG'))))
    args = [rng.normal(size=shape).astype(dt) for _ in range(2)] + [np.zeros(shape, dt), np.ones(shape, np.int_)]
    i, k, ax = int(rng.integers(4)), int(rng.integers(4)), int(rng.integers(len(shape)))
    a, s = args[i], list(shape)
    if k == 0:
        s[ax] += int(rng.choice([-1, 1, 3]))
        b = np.ones(s, a.dtype)
    elif k == 1:
        s = s[:-1] if len(s) == 2 and rng.random() < .5 else s + [int(rng.integers(1, 4))]
        b = np.ones(s, a.dtype)
    elif k == 2:
        b = a.astype(str(rng.choice([c for c in 'bhifdgFDG' if c != dt.char])))
    else:
        b = a.astype(a.dtype.newbyteorder())
    args[i] = b
    before = [(x.tobytes(), x.shape, x.dtype) for x in args]
    with mon.raises((ValueError, TypeError), 'clean of misfit argument %d (%d)' % (i, k)):
        aipy._deconv.clean(*args, maxiter=2)
    mon.eq([(x.tobytes(), x.shape, x.dtype) for x in args], before, 'arguments of a refused clean')
    mon.ev('refused_kernels')
    mon.case('misfits', shape, dt, i, k, s)


@P.workload(quick=1800, thorough=4000, cpu=20)
def hostile(rng, mon):
    """Images with NaN or infinity end like any other (what they give is not judged)."""
    im, ker, mdl, area, opt = make(rng)
    for a in [im] if rng.random() < .6 else [ker, im]:
        a.flat[int(rng.integers(a.size))] = rng.choice([np.nan, np.inf, -np.inf, 1e300 if a.dtype.char not in 'fF' else 1e38])
    with np.errstate(all='ignore'):
        m, info = aipy.deconv.clean(im, ker, mdl=mdl, area=area, **opt)
    mon.check(info['term'] in ('tol', 'maxiter', 'divergence'), 'termination')
    mon.ev('hostile_cleans')
    mon.case('hostile', im.tobytes())


if __name__ == '__main__':
    sys.exit(P.main())
