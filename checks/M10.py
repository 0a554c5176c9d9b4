"""M10: baseline and polarisation codes are lossless, and the Python and stored codes agree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M10', rule='an execution takes a block of antenna pairs (the union of the blocks covers all 2.1 million pairs, '
         'and random ones across blocks) and checks that encoding is injective and inverted by decoding, and '
         'that pairs stored in a dataset come back; distinct by block',
         assumptions=['antenna numbers 0..2046 for stored pairs'],
         require=['pairs', 'stored_pairs', 'polarisations'])
NMAX = 2047
BLOCKS = 64


def check_pair(mon, i, j):
    m = aipy.miriad
    bl = m.ij2bl(i, j)
    a, b = min(i, j), max(i, j)
    if m.bl2ij(bl) != (a, b):
        mon.fail('baseline (%d,%d) encodes to %r which decodes to %r' % (i, j, bl, m.bl2ij(bl)))
    if m.ij2bl(j, i) != bl:
        mon.fail('the code of (%d,%d) depends on the order' % (i, j))
    return bl


@P.workload(quick=BLOCKS, thorough=BLOCKS)
def codes(rng, mon):
    """Block k: all pairs whose lower antenna is k mod BLOCKS."""
    k = mon.now[1]
    top = NMAX
    seen = {}
    n = 0
    for i in range(k, top, BLOCKS):
        for j in range(i, top):
            bl = check_pair(mon, i, j)
            if bl in seen:
                mon.fail('(%d,%d) and %r share the code %r' % (i, j, seen[bl], bl))
            seen[bl] = (i, j)
            n += 1
    for _ in range(20000 if mon.thorough else 2000):
        i, j = (int(x) for x in rng.integers(NMAX, size=2))
        bl = check_pair(mon, i, j)
        if seen.setdefault(bl, (min(i, j), max(i, j))) != (min(i, j), max(i, j)):
            mon.fail('(%d,%d) and %r share the code %r' % (i, j, seen[bl], bl))
        n += 1
    mon.ev('pairs', n)
    mon.ev('checks', n)
    mon.case('block', k, n)


@P.workload(quick=40, thorough=400, cost=5)
def stored(rng, mon):
    """Pairs written to a dataset come back as written, and the stored code is the Python one."""
    p = os.path.join(mon.tmp(), 'a.uv')
    uv = aipy.miriad.UV(p, 'new')
    k = mon.now[1]
    pairs = [(int(a), int(b)) for a, b in rng.integers(NMAX, size=(150, 2))]
    pairs += [(a, b) for a in mir.ANTS for b in mir.ANTS][k % 5::5]
    pairs += [(250 + k % 10, x) for x in range(250, 262)]
    pairs = [pairs[i] for i in rng.permutation(len(pairs))]
    for n, ij in enumerate(pairs):
        uv.write((np.zeros(3), 2455000. + n, ij), np.ma.array(np.ones(1, np.complex64) * n, mask=[False]))
    del uv
    uv = aipy.miriad.UV(p)
    for n, ij in enumerate(pairs):
        (uvw, t, got), d = uv.read()
        mon.check(got == ij and d[0] == n, 'pair %r came back as %r' % (ij, got))
        if ij[0] <= ij[1]:
            mon.check(int(uv['baseline']) == aipy.miriad.ij2bl(*ij), 'stored code %r of %r, want %r'
                      % (uv['baseline'], ij, aipy.miriad.ij2bl(*ij)))
            mon.check(aipy.miriad.bl2ij(uv['baseline']) == ij, 'bl2ij of the stored code of %r' % (ij,))
        mon.ev('stored_pairs')
    mon.case('stored', k)
    mon.sample(dict(pairs=pairs[:6]))


@P.workload(quick=1, thorough=1)
def polarisations(rng, mon):
    s, p = aipy.miriad.str2pol, aipy.miriad.pol2str
    std = {'I': 1, 'Q': 2, 'U': 3, 'V': 4, 'rr': -1, 'll': -2, 'rl': -3, 'lr': -4, 'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8}
    for k, v in std.items():
        mon.eq(s.get(k), v, 'code of ' + k)
        mon.eq(p.get(v), k, 'name of %d' % v)
        mon.ev('polarisations')
    mon.eq(len(s), len(p), 'number of codes')
    for k, v in s.items():
        mon.eq(p[v], k, 'name of %d' % v)
    mon.case('pol')


if __name__ == '__main__':
    P.main()
