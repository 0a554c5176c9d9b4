"""R01: numerical helpers (windows, oversampling, RFI detection, 2D Gaussians, parallactic angle, baseline codes, constants) keep their definitions."""
import os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from scipy.signal import windows
aipy = load()
warnings.simplefilter('ignore')

P = Prop('R01', rule='an execution evaluates one helper on generated input and compares with its definition (scipy windows, explicit sums, known outliers, '
         'spherical geometry), or compares related inputs; distinct by helper and input',
         require=['windows', 'oversampled', 'spikes', 'spikes_masked', 'thresholds', 'flagged', 'gaussians', 'angles', 'codes', 'constants', 'refused', 'pol_records', 'outliers_flagged'])


def window_ref(name, L, alpha):
    x = np.arange(L, dtype=float)
    c = (L - 1) / 2.
    return {'blackman': lambda: windows.blackman(L), 'blackman-harris': lambda: windows.blackmanharris(L), 'gaussian0.4': lambda: windows.gaussian(L, .4 * c),
            'kaiser2': lambda: windows.kaiser(L, 2 * np.pi), 'kaiser3': lambda: windows.kaiser(L, 3 * np.pi), 'hamming': lambda: windows.hamming(L),
            'hanning': lambda: windows.hann(L), 'parzen': lambda: 1 - abs(L / 2. - x) / (L / 2.), 'none': lambda: np.ones(L),
            'tukey': lambda: windows.tukey(L, alpha), 'barthann': lambda: windows.barthann(L)}[name]()


WIN = ['blackman', 'blackman-harris', 'gaussian0.4', 'kaiser2', 'kaiser3', 'hamming', 'hanning', 'parzen', 'none', 'tukey', 'barthann']


@P.workload(quick=4000, thorough=100000)
def window(rng, mon):
    name = WIN[rng.integers(len(WIN))]
    L = int(rng.choice([1, 2, 3, 4, 5, 8, 17, 64, 203, 1024, rng.integers(1, 3000)]))
    alpha, kw = .5, {}
    if name == 'tukey' and rng.random() < .8:
        alpha = float(rng.choice([0, .1, .25, .5, .9, 1., rng.random()]))
        kw = {'alpha': alpha}
    w = aipy.dsp.gen_window(L, window=name, **kw) if name != 'hamming' or rng.random() < .5 else aipy.dsp.gen_window(L)
    mon.eq(np.shape(w), (L,), 'shape of a window', window=name)
    edge = alpha * (L - 1) / 2
    if name == 'tukey' and L > 1 and 0 < alpha < 1 and abs(edge - round(edge)) < 1e-9:
        mon.close(w, windows.tukey(L, alpha), 1e-3, 'window', window=name, L=L, alpha=alpha)
    elif name == 'gaussian0.4' and L == 1:
        mon.eq(list(w), [1.], 'window of length 1')
    else:
        mon.close(w, window_ref(name, L, alpha) if L > 1 else np.ones(1), 1e-9, 'window', window=name, L=L, alpha=alpha)
    if name != 'parzen':
        mon.close(w, w[::-1], 1e-9, 'a window is symmetric', window=name, L=L)
    mon.ev('windows')
    with mon.raises(KeyError, 'a window that does not exist'):
        aipy.dsp.gen_window(L, 'nosuch')
    mon.ev('refused')
    mon.case('window', name, L, alpha)


# -- oversampling
def extend(y, n, degree=2):
    """y extended at both ends by polynomials fitted (least squares) to the first and the last n samples."""
    t = np.arange(n, dtype=float)
    V = np.vander(t, degree + 1)
    a = np.linalg.lstsq(V, y[:n], rcond=None)[0]
    b = np.linalg.lstsq(V, y[-n:], rcond=None)[0]
    return np.concatenate([np.vander(np.arange(-n, 0.), degree + 1) @ a, y, np.vander(np.arange(n, 2. * n), degree + 1) @ b])


@P.workload(quick=1500, thorough=40000)
def oversample(rng, mon):
    order = int(rng.choice([4, 4, 4, 6, 8]))
    factor = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 12, 16, 22, 24, rng.integers(1, 60)]))
    n = int(rng.integers(order, 40))
    k = rng.random()
    y = np.cumsum(rng.normal(size=n)) * 10.**rng.integers(-3, 4) if k < .6 else np.full(n, rng.normal()) if k < .8 else rng.normal(size=n) + 1j * rng.normal(size=n)
    def tri(x, width=1.5):
        return np.clip(1 - abs(x) / width, 0, None) + .01
    scale = float(rng.choice([1, 1, -1, -2.5, 1e-3]))       # only the shape of a filter matters
    filt = [None, lambda x: scale * tri(x)][int(rng.random() < .4)]
    kw = {}
    if order != 4 or rng.random() < .3:
        kw['order'] = order
    if filt is not None:
        kw['filter'] = filt
    y0 = y.copy()
    got = aipy.interp.interpolate(y, factor, **kw)
    mon.eq(y, y0, 'oversampling changed its argument')
    mon.eq(np.shape(got), (n * factor,), 'number of samples', n=n, factor=factor, order=order)
    x = np.arange(-order * factor, order * factor + 1) / factor
    i = np.arange(x.size) / x.size * 2 * np.pi
    w = (1 - np.cos(i)) * np.sinc(.25 * x) if filt is None else filt(x)
    ye = extend(y, order)
    mag = abs(ye).max()
    for m in [0, n * factor - 1] + [int(v) for v in rng.integers(0, n * factor, size=6)]:
        num = den = 0
        for s in range(len(ye)):
            o = (m - (s - order) * factor)
            if abs(o) <= order * factor:
                num, den = num + w[o + order * factor] * ye[s], den + w[o + order * factor]
        mon.close(got[m], num / den, 1e-8 * mag, 'an oversampled value', factor=factor, order=order, m=m)
    if k >= .6 and k < .8:
        mon.close(got, np.full(n * factor, y[0]), 1e-9 * abs(y[0]), 'a constant oversampled')
    mon.ev('oversampled')
    mon.case('interp', order, factor, n, y[0])


# -- RFI
def outliers(rng, n, frac=.06):
    k = max(1, int(rng.integers(1, max(2, int(n * frac)))))
    return np.sort(rng.choice(n, size=k, replace=False))


@P.workload(quick=1500, thorough=40000)
def spikes(rng, mon):
    """Data that are polynomials but for a few outliers: the polynomial comes back."""
    n = int(rng.integers(80, 300))
    xs = np.arange(n)
    t = 2. * xs / n - 1
    order = int(rng.integers(1, 7))
    c = rng.normal(size=int(rng.integers(1, order + 2)))
    y = np.polyval(c, t) + 5
    d = y + 1e-4 * rng.normal(size=n)
    bad = outliers(rng, n)
    d[bad] += rng.choice([-1, 1], size=len(bad)) * 10.**rng.uniform(1, 1.3, size=len(bad)) * 10
    kw = {'order': order} if order != 6 or rng.random() < .5 else {}
    mask = None
    if rng.random() < .5:       # masked garbage, too
        mask = np.zeros(n, bool)
        mask[rng.choice(n, size=int(rng.integers(1, n // 4)), replace=False)] = True
        d[mask] = rng.normal(size=int(mask.sum())) * 1e4
        mask = mask if rng.random() < .7 else mask.astype(int)
        kw['mask'] = mask.copy()
        mon.ev('spikes_masked')
    if rng.random() < .3:
        d = np.ma.array(d, mask=mask if mask is not None else False)
    if rng.random() < .2:
        kw['return_poly'] = True
    if rng.random() < .2:
        kw['iter'] = int(rng.integers(2, 4))
    d0 = d.copy()
    got = aipy.rfi.remove_spikes(d, **kw)
    mon.eq(np.ma.getdata(d), np.ma.getdata(d0), 'data changed')
    if kw.get('return_poly'):
        mon.eq(len(got), order + 1, 'number of coefficients')
        got = np.polyval(got, xs)
    mon.eq(np.shape(got), (n,), 'shape of the smooth function')
    tol = .1
    mon.close(got, y, tol, 'the smooth function beneath the spikes', order=order, n=n, nbad=len(bad), masked=mask is not None)
    mon.ev('spikes')
    mon.case('spikes', n, order, len(bad), mask is not None)


@P.workload(quick=400, thorough=10000)
def thresholds(rng, mon):
    n = int(rng.choice([2000, 5000, 12000]))
    cnt = int(rng.choice([20, 50, 100]))
    sd, mean = float(rng.uniform(.05, .5)), float(rng.uniform(-3, 3))
    z = mean + sd * rng.normal(size=n)
    d = 10**z * (np.exp(2j * np.pi * rng.random(n)) if rng.random() < .7 else rng.choice([-1, 1], size=n))
    nsig = float(rng.uniform(1, 3))
    kw = dict(nsig=nsig, cnt_per_bin=cnt)
    d0 = d.copy()
    hi, lo = aipy.rfi.gen_rfi_thresh(d, **kw)
    mon.eq(d, d0, 'data changed')
    mon.check(lo < hi, 'thresholds are ordered', lo=lo, hi=hi)
    a = abs(d)
    mon.check(a.min() * (1 - 1e-9) <= lo and hi <= a.max() * (1 + 1e-9), 'thresholds are among the data')
    # between half and twice the deviation asked for (clipped to the data): the fitted width is that of exp(-(x/s)^2)
    for t, s in ((hi, 1), (lo, -1)):
        dev = s * (np.log10(t) - mean) / sd
        end = abs((np.log10(a.max() if s > 0 else a.min()) - mean) / sd)
        mon.check(min(.6 * nsig, end - .5) <= dev <= 2 * nsig + .5, 'a threshold is at the deviation asked for', deviation=dev, nsig=nsig, side=s, n=n, cnt=cnt)
    # only amplitudes matter, in any order, and masked data do not
    k = rng.integers(3)
    if k == 0:
        e = rng.permutation(d) * 1j
    elif k == 1:
        e = np.ma.array(np.concatenate([d, np.full(50, 1e9)]), mask=np.concatenate([np.zeros(n, bool), np.ones(50, bool)]))
    else:
        e = d.reshape(-1, 20) if n % 20 == 0 and cnt != 20 else np.conj(d)
    mon.close(aipy.rfi.gen_rfi_thresh(e, **kw), (hi, lo), 1e-6 * np.array([hi, lo]), 'thresholds of equivalent data', how=int(k))
    for small in (d[:5], d[:0]):
        mon.eq(aipy.rfi.gen_rfi_thresh(small, nsig=nsig), (None, None), 'thresholds of too little data')
    mon.ev('thresholds')
    mon.case('thr', n, cnt, nsig)


@P.workload(quick=400, thorough=10000)
def integrations(rng, mon):
    nt, nch = int(rng.choice([30, 60, 150, 300])), int(rng.integers(3, 30))
    t = np.linspace(-1, 1, nt)
    power = 10 + rng.normal() * t + rng.normal() * t**2
    d = power[:, None] * rng.uniform(.5, 2, size=nch)[None] * (1 + 1e-3 * rng.normal(size=(nt, nch)))
    if rng.random() < .5:
        d = d.astype(complex)
    raw = bool(rng.random() < .3) or nt < 60
    bad = outliers(rng, nt, .04)
    if not raw:         # a fit absorbs outliers at its ends
        bad = np.unique(np.clip(bad, nt // 5, nt - nt // 5))
    d[bad] *= 20 if raw else rng.uniform(3, 10)
    m = np.zeros((nt, nch), bool)
    lost = np.zeros(nt, bool)
    if rng.random() < .7:
        m = rng.random(size=m.shape) < .05
        lost = rng.random(nt) < .1
        m[lost] = True
        m[~lost & m.all(axis=1), 0] = False
    a = np.ma.array(d, mask=m)
    a0 = a.copy()
    nsig = float(rng.uniform(1, 2.5))
    f = aipy.rfi.flag_by_int(a, nsig=nsig, raw=raw)
    mon.eq((np.ma.getdata(a), np.ma.getmaskarray(a)), (np.ma.getdata(a0), np.ma.getmaskarray(a0)), 'data changed')
    mon.eq(np.shape(f), (nt,), 'one flag per integration')
    mon.check(np.issubdtype(f.dtype, np.integer) and set(np.unique(f)) <= {0, 1}, 'flags are 0 or 1')
    mon.check((np.asarray(f)[lost] == 1).all(), 'an integration without data is flagged')
    f = np.asarray(f) == 1
    p = np.ma.average(abs(a), axis=1)
    if raw:     # all those above the threshold of their powers
        hi, lo = aipy.rfi.gen_rfi_thresh(p, cnt_per_bin=20, nsig=nsig)
        if hi is None:      # too few integrations to tell
            mon.eq(f, lost, 'too few integrations: only those without data are flagged')
            hi = np.inf
        far = ~lost & (abs(p.filled(0) - hi) > 1e-9 * p.filled(0))
        mon.eq(f[far], (p.filled(0) >= hi)[far], 'integrations above the threshold of the powers')
    else:       # outliers before all others, whatever the threshold
        isbad = np.isin(np.arange(nt), bad) & ~lost
        if (f & ~isbad & ~lost).any():
            mon.check(f[isbad].all(), 'integrations of smooth power are flagged, outlying ones are not', bad=bad, flags=f, nsig=nsig)
        mon.ev('outliers', int(isbad.sum()))
        mon.ev('outliers_flagged', int((f & isbad).sum()))
    few = np.ma.array(d[:10], mask=m[:10])
    f = aipy.rfi.flag_by_int(few, raw=True)
    mon.eq(list(f), [int(x) for x in lost[:10]], 'too few integrations: only those without data are flagged')
    mon.ev('flagged')
    mon.case('int', nt, nch, raw, nsig)


@P.workload(quick=600, thorough=15000)
def gaussians(rng, mon):
    amp, sig, off = float(10**rng.uniform(-2, 3)), float(rng.uniform(.5, 30)), float(rng.normal() * 20)
    x = rng.normal(size=20) * 30
    mon.close(aipy.rfi.gaussian(amp, sig, off, x), amp * np.exp(-(x - off)**2 / sig**2), 1e-12 * amp, 'Gaussian')
    # 2D
    shape = (int(rng.integers(20, 60)), int(rng.integers(20, 60)))
    cx, cy = int(rng.integers(8, shape[1] - 8)), int(rng.integers(8, shape[0] - 8))     # column, row
    wr, wc = rng.uniform(.7, 2.2, size=2)
    amp = float(10**rng.uniform(-2, 3))
    r, c = np.indices(shape)
    want = amp * np.exp(-((r - cy) / wr)**2 / 2 - ((c - cx) / wc)**2 / 2)
    p = [0., amp, cx, cy, wr, wc]
    p0 = list(p)
    got = aipy.twodgauss.twodgaussian(p, shape=shape)
    mon.eq(p, p0, 'parameters changed')
    mon.close(got, want, 1e-12 * amp, '2D Gaussian', shape=shape, p=p)
    f = aipy.twodgauss.twodgaussian(p)
    y, xx = rng.uniform(0, 20, size=2)
    mon.close(f(y, xx), amp * np.exp(-((y - cy) / wr)**2 / 2 - ((xx - cx) / wc)**2 / 2), 1e-12 * amp, '2D Gaussian as a function')
    m = aipy.twodgauss.moments(want)
    mon.eq(len(m), 6, 'number of moments')
    mon.close(m[0], np.median(want), 1e-12 * amp, 'height')
    mon.close(m[1], amp - np.median(want), 1e-9 * amp, 'amplitude')
    mon.eq((int(m[2]), int(m[3])), (cx, cy), 'position of the peak', shape=shape)
    with mon.raises(Exception, 'too many parameters'):
        aipy.twodgauss.twodgaussian(p + [3.], shape=shape)
    with mon.raises(Exception, 'moments of data that are not numbers'):
        aipy.twodgauss.moments(want * np.nan)
    mon.ev('refused', 2)
    mon.ev('gaussians')
    mon.case('gauss', shape, cx, cy)


@P.probe('moment-widths')
def moment_widths(mon):
    r, c = np.indices((40, 50))
    d = 3 * np.exp(-((r - 12) / 1.5)**2 / 2 - ((c - 30) / 3.)**2 / 2)
    m = aipy.twodgauss.moments(d)
    return max(abs(aipy.twodgauss.twodgaussian(m, shape=d.shape) - d).flat) > .3


@P.workload(quick=1500, thorough=30000)
def sky(rng, mon):
    ha, dec, lat = rng.uniform(-np.pi, np.pi), np.arcsin(rng.uniform(-1, 1)), np.arcsin(rng.uniform(-1, 1))
    n = int(rng.integers(1, 6))
    if rng.random() < .5:
        ha = rng.uniform(-np.pi, np.pi, size=n)
    # frame: x to the meridian, y to the west, z to the pole
    s = np.array([np.cos(dec) * np.cos(ha), np.cos(dec) * np.sin(ha), np.sin(dec) + 0 * ha])
    zen = np.array([np.cos(lat), 0, np.sin(lat)])
    north = np.array([-np.sin(dec) * np.cos(ha), -np.sin(dec) * np.sin(ha), np.cos(dec) + 0 * ha])
    west = np.array([-np.sin(ha), np.cos(ha), 0 * ha])
    zn, zw = np.tensordot(zen, north, 1), np.tensordot(zen, west, 1)
    sure = np.hypot(zn, zw) > 1e-6
    got = aipy.pol.ParAng(ha, dec, lat)
    mon.eq(np.shape(got), np.shape(ha), 'shape of the angle')
    q = np.arctan2(-zw, zn)      # from north through east (west of the meridian it is positive)
    mon.close(np.where(sure, np.exp(1j * got), 1), np.where(sure, np.exp(1j * q), 1), 1e-8, 'parallactic angle', ha=ha, dec=dec, lat=lat)
    mon.ev('angles')
    i, j, p = int(rng.integers(0, 2047)), int(rng.integers(0, 2047)), int(rng.integers(-8, 5))
    i, j = min(i, j), max(i, j)
    b = aipy.pol.ijp2blp(i, j, p)
    mon.eq([int(x) for x in aipy.pol.blp2ijp(b)], [i, j, p], 'baseline and polarization code')
    i2, p2 = int(rng.integers(0, j + 1)), int(rng.integers(-8, 5))
    if (i2, p2) != (i, p):
        mon.check(aipy.pol.ijp2blp(i2, j, p2) != b, 'two baselines or polarizations share a code')
    mon.ev('codes')
    mon.case('ang', float(dec), float(lat))


CONST = {'pi': (np.pi, 1e-12), 'c': (2.99792458e10, 1e-9), 'G': (6.674e-8, 1e-3), 'h': (6.62607e-27, 1e-5), 'e': (4.80320e-10, 1e-5), 'm_e': (9.10938e-28, 1e-5),
         'm_p': (1.67262e-24, 1e-5), 'k': (1.38065e-16, 1e-4), 's': (5.6704e-5, 1e-4), 'au': (1.495979e13, 1e-4), 'r_sun': (6.96e10, 2e-3), 'm_sun': (1.989e33, 1e-3),
         'ev': (1.602177e-12, 1e-5), 'pc': (3.0857e18, 3e-3), 'km': (1e5, 0), 's_per_day': (86400., 0), 's_per_yr': (365.24 * 86400, 1e-4), 'sidereal_day': (86164.09, 1e-6),
         'len_ns': (29.9792458, 1e-9), 'deg': (np.pi / 180, 1e-12), 'sq_deg': ((np.pi / 180)**2, 1e-5), 'arcmin': (np.pi / 10800, 1e-12), 'arcsec': (np.pi / 648000, 1e-12),
         'ft': (30.48, 1e-5)}


@P.workload(quick=20, thorough=20)
def constants(rng, mon):
    seen = list(CONST)
    mon.eq(sorted(aipy.const.description()), sorted(CONST), 'constants described')
    for n in seen:
        mon.close(float(getattr(aipy.const, n)), CONST[n][0], CONST[n][1] * CONST[n][0], 'a constant', name=n)
    mon.ev('constants', len(seen))
    # polarization read and written by name
    f = os.path.join(mon.tmp(), 'p.uv')
    uv = aipy.pol.UV(f, 'new')
    uv.add_var('pol', 'i')
    names = [str(x) for x in rng.permutation(['xx', 'yy', 'xy', 'yx', 'I', 'Q', 'U', 'V', 'rr', 'll', 'rl', 'lr'])]
    for k, n in enumerate(names):
        uv.write_pol(n)
        uv.write((np.zeros(3), 2455000. + k, (0, 1)), np.ma.array(np.ones(3, complex)))
    del uv
    uv = aipy.pol.UV(f)
    got = [(uv.read_pol(), uv['pol']) for _ in uv.all()]
    mon.eq([g[0] for g in got], names, 'polarizations by name')
    mon.eq([g[1] for g in got], [{'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8, 'I': 1, 'Q': 2, 'U': 3, 'V': 4, 'rr': -1, 'll': -2, 'rl': -3, 'lr': -4}[n] for n in names], 'polarization codes')
    mon.ev('pol_records', len(got))
    mon.case('const', names)


if __name__ == '__main__':
    P.main()
