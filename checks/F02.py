"""F02: flattening a parameter dictionary for a fitter and reconstructing it are exact inverses."""
import contextlib, copy, io, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from arr import *
aipy = load()

P = Prop('F02', rule='an execution flattens a generated hierarchy of parameters (or those of an array and catalogue), alters numbers in the list and '
         'reconstructs it; distinct by hierarchy', require=['inverse', 'altered', 'one_element', 'empty', 'nested', 'fit_step', 'printed', 'printed_gradients'])


def tree(rng, depth, mon):
    d = {}
    for k in range(int(rng.integers(0, 5)) if depth else int(rng.integers(1, 5))):
        name = str(rng.choice(['x', 'y', 'dly', 'bp_r', 'bp_i', 'amp', 'jys', '0', '1', '10', '2', 'cyg', 'A', 'b'])) + ('' if rng.random() < .5 else str(k))
        r = rng.random()
        if r < .3 and depth < 3:
            d[name] = tree(rng, depth + 1, mon)
            mon.ev('nested')
        elif r < .6:
            d[name] = [float(rng.normal()), int(rng.integers(9)), np.float64(rng.normal()), np.array(rng.normal())][rng.integers(4)]
        else:
            n = int(rng.choice([0, 1, 1, 2, 3, 7, 7, 16, 40, 300]))
            v = rng.normal(size=n)
            d[name] = [list(v), v, tuple(v), [float(x) for x in v]][rng.integers(4)]
            mon.ev('empty' if n == 0 else 'one_element' if n == 1 else 'list')
    return d


def leaves(d, path=()):
    for k in d:
        if isinstance(d[k], dict):
            yield from leaves(d[k], path + (k,))
        else:
            yield path + (k,), d[k]


def skel(d):
    return {k: skel(v) if isinstance(v, dict) else None for k, v in d.items()}


def at(d, path):
    for k in path:
        d = d[k]
    return d


def equal(mon, got, want, what):
    mon.eq(skel(got), skel(want), 'structure, ' + what)
    for p, w in leaves(want):
        g = at(got, p)
        mon.check(np.ndim(g) == np.ndim(w) and np.shape(g) == np.shape(w), '%s is %s, not %s, %s' % ('/'.join(p), short(g), short(w), what))
        mon.eq(np.asarray(g, float), np.asarray(w, float), '/'.join(p) + ', ' + what)


@P.workload(quick=9000, thorough=100000)
def trees(rng, mon):
    d = tree(rng, 0, mon)
    before = copy.deepcopy(d)
    flat, keys = aipy.fit.flatten_prms(d)
    mon.check(same(d, before), 'flattening changed the dictionary')
    n = sum(np.size(v) for _, v in leaves(d))
    mon.eq(len(flat), n, 'length of the flat list')
    mon.eq(sorted(float(x) for x in flat), sorted(float(x) for _, v in leaves(d) for x in np.ravel(v)), 'numbers of the flat list')
    for vec in (list(flat), np.array(flat, dtype=float)):
        vb = np.array(vec).tobytes()
        equal(mon, aipy.fit.reconstruct_prms(vec, keys), d, 'reconstructed')
        mon.eq(np.array(vec).tobytes(), vb, 'the list changed')
    mon.ev('inverse')
    # a second dictionary of the same structure is independent; flattening twice gives the same
    f2, k2 = aipy.fit.flatten_prms(d)
    mon.eq([float(x) for x in f2], [float(x) for x in flat], 'flattening again')
    if n:
        i = int(rng.integers(n))
        vec = [float(x) for x in flat]
        vec[i] += 1000.
        got = aipy.fit.reconstruct_prms(vec, keys)
        changed = [(p, int(np.argmax(np.ravel(at(got, p)) != np.ravel(v)))) for p, v in leaves(d) if (np.ravel(np.asarray(at(got, p), float)) != np.ravel(np.asarray(v, float))).any()]
        mon.eq(len(changed), 1, 'parameters changed by changing one number', changed=str(changed))
        mon.eq(sum(int((np.ravel(np.asarray(at(got, p), float)) != np.ravel(np.asarray(v, float))).sum()) for p, v in leaves(d)), 1, 'numbers changed by changing one')
        # a list of distinct numbers comes back with each exactly once
        vec = list(rng.permutation(n) + 500.)
        got = aipy.fit.reconstruct_prms(vec, keys)
        mon.eq(sorted(float(x) for _, v in leaves(got) for x in np.ravel(v)), sorted(vec), 'every number is used exactly once')
        equal(mon, aipy.fit.reconstruct_prms(aipy.fit.flatten_prms(got)[0], keys), got, 'flattened again')
        mon.ev('altered')
    mon.case('tree', tuple((p, str(v)) for p, v in leaves(d)))


@P.workload(quick=1200, thorough=10000)
def fit_step(rng, mon):
    """A step of a fit: read, flatten, change every number, reconstruct, set, read."""
    f = freqs(rng)
    ants = []
    for k in range(int(rng.integers(1, 4))):
        bm = [aipy.fit.Beam(f), aipy.fit.Beam2DGaussian(f, 1., 2.), aipy.fit.BeamPolynomial(f, rng.uniform(1, 2, size=(2, 2)))][rng.integers(3)]
        kw = {}
        if rng.random() < .6:
            kw = dict(phsoff=list(rng.normal(size=2)), bp_r=rng.normal(size=rng.integers(1, 4)), bp_i=list(rng.normal(size=rng.integers(1, 4))), amp=2.)
        ants.append(aipy.fit.Antenna(*rng.normal(size=3), beam=bm, **kw))
    aa = aipy.fit.AntennaArray(('38:0', '-80:0'), ants)
    cat = aipy.fit.SrcCatalog([aipy.fit.RadioFixedBody(.3 * k, .1, name='src%d' % k, jys=3.) for k in range(int(rng.integers(1, 4)))])
    sel = [['x', 'y', 'z', 'dly', 'off', 'amp'], ['phsoff', 'bp_r', 'bp_i', 'amp', 'x'], ['bp_r', 'bm_poly', 'bm_xwidth', 'dly']][rng.integers(3)]
    prms = aa.get_params({'*': sel})
    prms.update(cat.get_params({'*': [['jys', 'index'], ['*'], ['ra', 'dec', 'mfreq']][rng.integers(3)]}))
    flat, keys = aipy.fit.flatten_prms(prms)
    vec = np.array(flat, dtype=float) + rng.uniform(.1, 1, size=len(flat))
    new = aipy.fit.reconstruct_prms(vec if rng.random() < .5 else list(vec), keys)
    aa.set_params(new)
    cat.set_params(new)
    ref = copy.deepcopy(new)
    vec[:] = -9.                      # the fitter reuses its vector
    got = aa.get_params({'*': sel})
    got.update(cat.get_params({k: list(prms[k]) for k in cat}))
    for p, w in leaves(ref):
        mon.close(np.ravel(np.asarray(at(got, p), float)), np.ravel(np.asarray(w, float)), 1e-14 * (1 + np.abs(w).max() if np.size(w) else 1), '/'.join(p) + ' after a step of a fit')
        mon.check(np.ndim(at(got, p)) == np.ndim(at(prms, p)), 'kind of ' + '/'.join(p))
    for k, a in enumerate(ants):
        q = aa.get_params()[str(k)]
        pb = q['amp'] * (np.polyval(np.ravel(q['bp_r']), f) + 1j * np.polyval(np.ravel(q['bp_i']), f))
        mon.close(a.passband(), pb, 1e-12 * (1 + np.abs(pb).max()), 'pass-band after a step of a fit')
    mon.ev('fit_step')
    mon.case('step', vec.size, str(ref))


NUM = re.compile(r'-?(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?')


@P.workload(quick=1500, thorough=10000)
def printed(rng, mon):
    """Printing parameters lists each name with its numbers, and with the gradient of each if one is given."""
    def gen(depth):
        d = {}
        for k in rng.permutation(['amp', 'bp', 'dly', 'cyg', 'jys', 'x', 'A', 'ph'])[:rng.integers(1, 6)]:
            r = rng.random()
            n = int(rng.choice([1, 2, 3, 9]))
            d[str(k)] = gen(depth + 1) if r < .3 and depth < 2 else float(rng.normal()) if r < .6 else [float(x) for x in rng.normal(size=n)] if r < .9 else \
                np.array(rng.normal(size=n)) if r < .95 else [None, [], {}][rng.integers(3)]
        return d
    def like(v):
        if isinstance(v, dict):
            return {k: like(x) for k, x in v.items()}
        return v if v is None else rng.normal(size=np.shape(v)).tolist() if np.ndim(v) else float(rng.normal())
    d = gen(0)
    g = like(d) if rng.random() < .5 else None
    before = copy.deepcopy(d)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if g is None:
            aipy.fit.print_params(d)
        else:
            aipy.fit.print_params(d, grad=g)
    mon.check(same(d, before), 'printing changed the parameters')
    text = re.sub(r'np\.float\d+', '', out.getvalue())
    tok = re.findall(r'[A-Za-z]+\b(?![-+.\d])|' + NUM.pattern, text)
    def walk(d, g):
        for k in sorted(d):
            v = d[k]
            if v is None or (isinstance(v, (dict, list)) and not len(v)):
                continue
            if isinstance(v, dict):
                yield k, []
                yield from walk(v, g and g[k])
            else:
                yield k, [float(x) for x in np.ravel(v)] + ([float(x) for x in np.ravel(g[k])] if g else [])
    got = []
    for t in tok:
        if t[0].isalpha():
            got.append((t, []))
        else:
            mon.check(got, 'a number before any name', text=text)
            got[-1][1].append(float(t))
    want = list(walk(d, g))
    mon.eq([k for k, _ in got], [k for k, _ in want], 'names printed', text=text)
    for (k, a), (_, b) in zip(got, want):
        mon.close(np.sort(a), np.sort(b), 1e-6 * (np.abs(b).max() if b else 1), 'numbers printed for %s' % k, text=text)
    mon.ev('printed' if g is None else 'printed_gradients')
    mon.case('print', str(want))


if __name__ == '__main__':
    P.main()
