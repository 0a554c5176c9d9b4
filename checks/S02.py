"""S02: the compiled numeric kernels corrupt no memory, read nothing uninitialised and keep nothing, whatever they are given."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *
import N01, N02, N03
aipy = load()

P = Prop('S02', rule='an execution is one of the workloads of the scatter-add, gridding and CLEAN checks, or calls of the three compiled modules with '
         'any arguments, run on an AddressSanitizer+UndefinedBehaviorSanitizer build or on the optimised build under valgrind memcheck; or a '
         'call repeated while memory is accounted; distinct by the workload\'s own key',
         assumptions=['integer sums do not overflow (the build wraps them)', 'memory errors only: the values are judged by the N checks'],
         require=['sanitized', 'memcheck_iterations', 'kernel_calls', 'leak_checks', 'one_wrong'])

PLAN = {
    'N01': dict(adds=((1200, 40000), (100, 2000)), refused=((800, 20000), (100, 1500)), histogram=((3, 60), (0, 0))),
    'N02': dict(grid1d=((500, 15000), (60, 800)), grid2d=((400, 15000), (40, 500)), degrid2d=((400, 15000), (40, 500)), refused=((600, 15000), (60, 900))),
    'N03': dict(cleans=((500, 20000), (30, 600)), refused=((150, 3000), (30, 300)), hostile=((100, 3000), (10, 200))),
}


def add(mod, name, w, counts, variant):
    if not counts[0]:
        return

    def fn(rng, mon):
        mon.ev('sanitized')
        try:
            w['fn'](rng, mon)
        except Skip:
            raise
        except (Violation, Exception):
            mon.ev('ended_early')       # behaviour is for the N checks to judge
    fn.__name__ = '%s_%s_%s' % (mod, name, variant)
    P.workload(quick=counts[0], thorough=counts[1], variant=variant, cpu=4 * w['cpu'], cost=w['cost'] * (3 if variant == 'asan' else 25))(fn)


for mod, plan in PLAN.items():
    for name, c in plan.items():
        w = globals()[mod].P.loads[name]
        add(mod, name, w, c[0], 'asan')
        add(mod, name, w, c[1], 'memcheck')


def array(rng):
    """Any array at all."""
    nd = int(rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 4]))
    shape = tuple(int(rng.choice([0, 1, 2, 3, 5, 8])) for _ in range(nd))
    dt = np.dtype(str(rng.choice(['f', 'F', 'f', 'F', 'd', 'D', 'l', 'l', 'i', 'g', 'G', '?', 'b', 'e', 'O', 'S4', '>f4', '>c8', '>i8'])))
    a = (rng.normal(size=shape) * rng.choice([1, 5, 1e9])).astype('d')
    with np.errstate(all='ignore'):
        a = np.array(a).astype(dt)
    if dt.kind in 'fc' and a.size and rng.random() < .1:
        a.flat[0] = rng.choice([np.nan, np.inf, 1e38])
    k = rng.random()
    if k < .2 and nd:
        a = a[tuple(slice(None, None, int(rng.choice([1, 2, -1]))) for _ in range(nd))]
    elif k < .3:
        a = a.T
    elif k < .35 and nd:
        a = np.broadcast_to(a, (3,) + a.shape)
    elif k < .4 and dt != object and a.nbytes:        # misaligned
        b = np.zeros(a.nbytes + 1, np.uint8)[1:].view(dt)[:a.size].reshape(a.shape)
        b[...] = a
        a = b
    return a


def anything(rng):
    k = int(rng.integers(9))
    return [None, 3, -1.5, 'text', b'x', [1, 2], {}, (), np.float32(2)][k]


def kernel_calls(rng, mon):
    """Calls with any arguments: an exception at worst."""
    mon.ev('sanitized')
    same_shape = rng.random() < .6
    f, n = [(aipy.utils.add2array, 3), (aipy._dsp.grid1D_c, 3), (aipy._dsp.grid2D_c, 4), (aipy._dsp.degrid2D_c, 4), (aipy._deconv.clean, 4)][int(rng.integers(5))]
    args = [array(rng) if rng.random() < .93 else anything(rng) for _ in range(int(n if rng.random() < .95 else rng.integers(0, 8)))]
    if same_shape and isinstance(args[0] if args else None, np.ndarray):
        a = args[0]
        if f is aipy._deconv.clean:
            args = [a.copy() if rng.random() < .9 else array(rng) for _ in range(3)] + [np.ones(a.shape, np.int_) if rng.random() < .9 else array(rng)]
        elif f is aipy.utils.add2array:
            m = int(rng.integers(0, 6))
            args = [a, rng.integers(-9, 9, size=(m, a.ndim)), np.zeros(m, a.dtype)]
        else:
            m = int(rng.integers(0, 6))
            w = 1 if n == 3 else 2
            args = [np.zeros(tuple(int(x) for x in rng.integers(0, 6, size=w)), np.complex64)] + \
                [(rng.normal(size=m) * 10.**rng.integers(0, 30)).astype('f') for _ in range(w)] + [np.zeros(m, np.complex64)]
            if rng.random() < .3:
                args[int(rng.integers(len(args)))] = array(rng)
    kw = {}
    if f is aipy._deconv.clean:
        kw = dict(gain=float(rng.choice([.1, 1, np.nan, np.inf, -1])), maxiter=int(rng.choice([0, 1, -1, 20])), tol=float(rng.choice([0, 1e-3, np.nan])),
                  stop_if_div=int(rng.integers(2)), pos_def=int(rng.integers(2)), verbose=0)
        kw = {k: v for k, v in kw.items() if rng.random() < .7 or k == 'maxiter'}
    elif f is not aipy.utils.add2array and rng.random() < .5:
        args.append(int(rng.choice([0, 1, 6, 7, -1, -6, -10**9, 30, 2**31 - 1, 2**40])) if 0 else int(rng.choice([0, 1, 6, 7, -1, -6, -10**9, 30])))
    if os.environ.get('VF_TRACE'):
        print(f, args, kw, file=open(os.environ['VF_TRACE'], 'a'), flush=True)
    mon.ev('kernel_calls')
    try:
        with np.errstate(all='ignore'):
            f(*args, **kw)
        mon.ev('kernel_calls_accepted')
    except Exception:
        mon.ev('kernel_calls_refused')
    mon.case('call', f.__name__, [getattr(a, 'shape', None) for a in args], [getattr(a, 'dtype', None) for a in args])


P.workload(quick=12000, thorough=300000, variant='asan')(kernel_calls)

def good(rng):
    """A kernel and arguments that fit together."""
    f, n = [(aipy.utils.add2array, 3), (aipy._dsp.grid1D_c, 3), (aipy._dsp.grid2D_c, 4), (aipy._dsp.degrid2D_c, 4), (aipy._deconv.clean, 4), (aipy._deconv.clean, 4)][int(rng.integers(6))]
    m = int(rng.integers(1, 9))
    if f is aipy._deconv.clean:
        shape = tuple(int(x) for x in rng.integers(1, 9, size=int(rng.integers(1, 3))))
        dt = np.dtype(str(rng.choice(list('fdgFDG'))))
        args = [rng.normal(size=shape).astype(dt) for _ in range(2)] + [np.zeros(shape, dt), np.ones(shape, np.int_)]
        return f, args, dict(maxiter=int(rng.integers(1, 6)), stop_if_div=int(rng.integers(2)))
    if f is aipy.utils.add2array:
        shape = tuple(int(x) for x in rng.integers(1, 9, size=int(rng.integers(1, 4))))
        dt = np.dtype(str(rng.choice(list('fdFDhilq'))))
        ind = np.array([[rng.integers(-k, k) for k in shape] for _ in range(m)], np.int_) * int(rng.random() < .7)
        return f, [np.zeros(shape, dt), ind, np.ones(m, dt)], {}
    w = 1 if n == 3 else 2
    return f, [np.zeros(tuple(int(x) for x in rng.integers(1, 9, size=w)), np.complex64)] + [rng.normal(size=m).astype('f') for _ in range(w)] + [np.ones(m, np.complex64)], {}


@P.workload(quick=6000, thorough=100000, variant='asan')
def one_wrong(rng, mon):
    """Arguments that fit, but for one property of one of them."""
    mon.ev('sanitized')
    f, args, kw = good(rng)
    i, k = int(rng.integers(len(args))), int(rng.integers(8))
    a = args[i]
    ax = int(rng.integers(a.ndim))
    shape = list(a.shape)
    if k < 4:                                           # one dimension too short, too long, gone or new
        shape[ax] = max(0, shape[ax] + int(rng.choice([-1, -2, -shape[ax] + 1, 1, 5, -shape[ax]])))
        if k == 3:
            shape = shape[:ax] + shape[ax + 1:] if rng.random() < .5 else shape + [1]
        b = np.zeros(shape, a.dtype) + (1 if a.dtype == np.int_ else 0)
    elif k == 4:
        b = a.astype(str(rng.choice(list('bhilqfdgFDG'))))
    elif k == 5:
        b = a.astype(a.dtype.newbyteorder())
    elif k == 6:
        b = a.copy()
        b.flags.writeable = False
    else:
        b = np.repeat(a, 3, axis=ax)[(slice(None),) * ax + (slice(None, None, 3 if rng.random() < .5 else -3),)]
    args[i] = b
    try:
        with np.errstate(all='ignore'):
            f(*args, **kw)
        mon.ev('kernel_calls_accepted')
    except Exception:
        mon.ev('kernel_calls_refused')
    mon.ev('one_wrong')
    mon.case('one_wrong', f.__name__, i, k, [x.shape for x in args], [str(x.dtype) for x in args])




def kernel_calls_memcheck(rng, mon):
    kernel_calls(rng, mon)


P.workload(quick=600, thorough=10000, variant='memcheck', cost=25)(kernel_calls_memcheck)


def memory_kept(rng, mon):
    """Repeating a call, accepted or refused, keeps no memory and no reference."""
    C, F = np.complex64, np.float32
    im, ker = rng.normal(size=(8, 8)), np.eye(8)
    b1, b2, x, d = np.zeros(8, C), np.zeros((8, 8), C), np.zeros(4, F), np.zeros(4, C)
    a, ind, dat = np.zeros((4, 4)), np.zeros((3, 2), int), np.zeros(3)
    big = rng.normal(size=(60, 60))

    def attempt(f, *args, **kw):
        try:
            f(*args, **kw)
        except (ValueError, TypeError):
            pass
    G, U, K = aipy._dsp, aipy.utils, aipy._deconv
    ones = np.ones((8, 8), int)
    ops = [lambda: G.grid1D_c(b1, x, d), lambda: G.grid2D_c(b2, x, x, d), lambda: G.degrid2D_c(b2, x, x, d),
           lambda: attempt(G.grid1D_c, b1, x, d[:2]), lambda: attempt(G.grid2D_c, b2, x + F(np.inf), x, d), lambda: attempt(G.degrid2D_c, b2, x, x, x),
           lambda: U.add2array(a, ind, dat), lambda: attempt(U.add2array, a, ind + 9, dat), lambda: attempt(U.add2array, a.astype('e'), ind, dat.astype('e')),
           lambda: attempt(U.add2array, a, ind, dat.astype('f')), lambda: attempt(U.add2array, 3, ind, dat),
           lambda: attempt(U.add2array, np.zeros(4, 'S2'), ind[:, :1], np.zeros(3, 'S2'))]
    for t in 'dDf':
        for stop in (0, 1):
            for mi in (0, 3, 50):
                ops.append(lambda t=t, stop=stop, mi=mi: K.clean(im.astype(t), ker.astype(t), np.zeros((8, 8), t), ones, stop_if_div=stop, maxiter=mi, gain=[.1, 3][mi == 3]))
                ops.append(lambda t=t, stop=stop, mi=mi: K.clean(im[0].astype(t), ker[0].astype(t), np.zeros(8, t), ones[0], stop_if_div=stop, maxiter=mi, tol=[1e-9, .5][mi == 50]))
    ops += [lambda: attempt(K.clean, im.astype('i'), ker.astype('i'), im.astype('i'), ones), lambda: attempt(K.clean, im, ker, im, ones[:3]),
            lambda: attempt(K.clean, im, ker, im, im), lambda: attempt(K.clean, im, ker.astype('f'), im, ones),
            lambda: K.clean(big.copy(), big, np.zeros((60, 60)), np.ones((60, 60), int), maxiter=3, gain=5.)]
    k = mon.now[1] % len(ops)
    arrays = [im, ker, b1, b2, x, d, a, ind, dat, big, ones]
    for _ in range(3):
        ops[k]()
    refs = [sys.getrefcount(z) for z in arrays]
    for _ in range(50):
        ops[k]()
    mon.eq([sys.getrefcount(z) for z in arrays], refs, 'references to the arrays (operation %d)' % k)
    mon.ev('leak_checks')
    mon.leaks(ops[k], 'operation %d' % k, n=200)
    mon.case('leak', k)


P.workload(quick=110, thorough=1100)(memory_kept)

if os.environ.get('VF_ONLY_VARIANT'):
    P.loads = {k: v for k, v in P.loads.items() if v['variant'] == os.environ['VF_ONLY_VARIANT']}

if __name__ == '__main__':
    sys.exit(P.main())
