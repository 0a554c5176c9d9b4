"""M05: select() returns exactly the records a reference filter keeps, in order, with their own variables."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
import mir
aipy = load()

P = Prop('M05', rule='an execution applies a random program of select() calls (antennae, auto, time, polarization, visibility, '
         'increment, uvrange, uvnrange, ra, dec, dra, ddec, on, pointing, lst, ha, elevation, frequency, bin, dazim, delev, shadow, amplitude, and/or/clear, decimate; include and exclude) to a '
         'generated dataset, reads, rewinds and re-selects, and compares records, flags and variables with a reference '
         'filter over the writer\'s records; distinct by (program, records kept)',
         assumptions=['within a clause selections of one kind are alternatives and different kinds must all hold',
                      'bounds of uv ranges, and of sky ranges with offsets, that coincide with a value to rounding are not generated',
                      'decimation counts the integrations that the other selections let through'],
         require=['records_compared', 'partial_selections', 'programs', 'refused', 'missing_variable'])


class Clause:
    def __init__(self, conj):
        self.conj, self.ants, self.ops, self.amp = conj, None, {}, None


class Ref:
    """The documented meaning of a sequence of select() calls."""
    def __init__(self):
        self.cl, self.dec = [], (1, 0)

    def select(self, name, a, b, inc=1):
        if name == 'clear':
            self.cl = []
            return
        if name == 'decimate':
            self.dec = (a, b)
            return
        if name in ('and', 'or'):
            if self.cl:
                self.cl.append(Clause(name))
            return
        if not self.cl:
            self.cl.append(Clause('and'))
        c = self.cl[-1]
        if name in ('antennae', 'auto'):
            c.ants = (c.ants or []) + [(name, a, b, inc)]
        elif name == 'amplitude':
            c.amp = (a, b, inc)
        else:
            c.ops.setdefault(name, []).append((a, b, inc))

    @staticmethod
    def _match(name, a, b, r, callno):
        v = r.vars
        if name == 'visibility':
            return a <= callno <= b
        if name == 'increment':
            return (callno - 1) % int(a) == 0
        if name == 'time':
            frac = r.t - int(r.t - .5) - .5
            return a <= r.t <= b or a <= frac <= b
        if name == 'uvnrange':
            return a ** 2 <= r.uvw[0] ** 2 + r.uvw[1] ** 2 <= b ** 2
        if name == 'uvrange':
            return a ** 2 <= (r.uvw[0] ** 2 + r.uvw[1] ** 2) * v['sfreq'] ** 2 <= b ** 2
        if name in ('dra', 'ddec'):
            return a <= v[name] <= b
        if name == 'polarization':
            return v['pol'] == a
        if name == 'on':
            return v['on'] == a
        if name == 'pointing':
            e = [v['axisrms'][2 * k + x] for k in r.ij for x in (0, 1)]
            return a <= max(e) <= b
        if name == 'lst':
            return a <= v['lst'] <= b if a < b else v['lst'] >= a or v['lst'] <= b
        if name == 'ha':
            return a <= v['lst'] - v['obsra'] <= b
        if name == 'elevation':
            return a <= v['antel'] <= b
        if name == 'frequency':
            return a <= v['sfreq'] <= b
        if name == 'bin':
            return a <= v['bin'] <= b
        if name in ('dazim', 'delev'):
            return any(a <= x <= b for x in np.ravel(v[name]))
        if name == 'shadow':
            return shadowed(r, b)
        raise KeyError(name)

    def keep(self, r, callno, flags):
        """(selected, amplitude clause) for one record; `flags` = which sky offsets apply."""
        sel, amp = True, None
        for c in self.cl:
            if (c.conj == 'and') != sel:
                continue
            ok = True
            if c.ants is not None:
                state = not c.ants[0][3]
                i, j = min(r.ij), max(r.ij)
                for name, a, b, inc in c.ants:
                    if name == 'auto':
                        hit = i == j
                    elif a == -1 and b == -1:
                        hit = True
                    elif -1 in (a, b):
                        hit = max(a, b) in (i, j)
                    else:
                        hit = (min(a, b), max(a, b)) == (i, j)
                    if hit:
                        state = bool(inc)
                ok = state
            for name, ops in c.ops.items():
                state = not ops[0][2]
                for a, b, inc in ops:
                    if name in ('ra', 'dec'):
                        dec = r.vars['dec'] + (r.vars['ddec'] if 'ddec' in flags else 0)
                        x = dec if name == 'dec' else r.vars['ra'] + (r.vars['dra'] / np.cos(dec) if 'dra' in flags else 0)
                        hit = a <= x <= b
                    else:
                        hit = self._match(name, a, b, r, callno)
                    if hit:
                        state = bool(inc)
                ok = ok and state
            sel = ok
            if ok and c.amp is not None:
                amp = c.amp
        return sel, amp

    def run(self, recs, flags):
        out, cnt, last = [], -1, None
        for k, r in enumerate(recs):
            ok, amp = self.keep(r, k + 1, flags)
            if not ok:
                continue
            if r.t != last:
                cnt, last = cnt + 1, r.t
            if (cnt - self.dec[1]) % self.dec[0] == 0:
                out.append((r, amp))
        return out


def shadowed(r, diameter):
    """Whether an antenna of the baseline has another in front of it within a diameter (in m), as seen from the source."""
    x, y, z = np.reshape(r.vars['antpos'], (3, -1))
    h, d = r.vars['lst'] - r.vars['obsra'], r.vars['obsdec']
    u = x * np.sin(h) + y * np.cos(h)
    q = -x * np.cos(h) + y * np.sin(h)
    v, w = q * np.sin(d) + z * np.cos(d), -q * np.cos(d) + z * np.sin(d)
    lim = (diameter / .299792458)**2
    for i in set(r.ij):
        for k in range(len(x)):
            if k != i and (u[k] - u[i])**2 + (v[k] - v[i])**2 <= lim and w[k] >= w[i]:
                return True
    return False


def gen_ds(rng):
    ants = sorted(set(int(a) for a in rng.choice(mir.ANTS if rng.random() < .3 else range(6), size=int(rng.integers(1, 5)))))
    ds = mir.gen(rng, nchan=int(rng.integers(1, 6)), nrec=int(rng.choice([1, 5, 20, 45, 80])), extra=1, wild=False, ants=ants)
    ds.corrmode = 'r'
    ds.types.update(ra='d', dec='d', on='i', nschan='i', axisrms='r')
    off = rng.random() < .5
    if off:
        ds.types.update(dra='r', ddec='r')
    full = rng.random() < .4 and max(ants) < 1000
    if full:
        ds.types.update(obsra='d', obsdec='d', antpos='d', antel='d', bin='i', dazim='d', delev='d')
        na = max(ants) + 1 + int(rng.integers(0, 3))
        pos = rng.normal(size=(3, na)) * 30
    extra = {}
    for k, r in enumerate(ds.recs):
        r.t = float(np.round(r.t * 4096) / 4096)
        if k == 0 or rng.random() < .3:
            extra = dict(ra=float(rng.integers(64)) / 16, dec=float(rng.integers(-20, 20)) / 16, on=int(rng.integers(-1, 3)),
                         sfreq=float(rng.integers(1, 9)) / 8,
                         axisrms=(rng.integers(0, 40, size=2 * (max(ants) + 1)) / 4.).astype(np.float32))
            if off:
                extra.update(dra=float(rng.integers(-8, 8)) / 16, ddec=float(rng.integers(-8, 8)) / 16)
            if full:
                if rng.random() < .3:
                    pos = pos + rng.normal(size=(3, na))
                extra.update(obsra=float(rng.uniform(-.3, .3)), obsdec=float(rng.uniform(-1.5, 1.5)), antpos=pos.ravel().copy(), antel=float(rng.integers(0, 32)) / 16,
                             bin=int(rng.integers(1, 5)), dazim=rng.integers(0, 64, size=int(rng.integers(2, 5))) / 8., delev=rng.integers(0, 64, size=int(rng.integers(2, 5))) / 8.)
        r.vars.update(extra, nschan=len(r.data))
        r.uvw = np.round(r.uvw)
    return ds, ants, off + 2 * full


def gen_call(rng, ds, ants, off):
    inc = int(rng.random() < .65)
    r = ds.recs[int(rng.integers(len(ds.recs)))]
    names = ['antennae'] * 5 + ['auto', 'time', 'time', 'polarization', 'polarization', 'visibility', 'increment', 'uvnrange',
             'uvrange', 'ra', 'dec', 'on', 'pointing', 'lst', 'frequency', 'and', 'or', 'or', 'or', 'clear', 'decimate', 'amplitude']
    if off & 1:
        names += ['dra', 'ddec']
    if off & 2:
        names += ['ha', 'elevation', 'bin', 'dazim', 'delev', 'shadow', 'shadow'] * 2
    nm = str(rng.choice(names))
    if nm == 'antennae':
        k = rng.random()
        a = int(rng.choice(ants))
        b = int(rng.choice(ants)) if k < .6 else -1
        if k > .95:
            a = -1
        if k < .2:
            a, b = r.ij
        return (nm, a, b, inc)
    if nm in ('auto', 'and', 'or', 'clear'):
        return (nm, 0, 0, inc)
    if nm == 'time':
        if rng.random() < .3:
            lo = float(rng.uniform(0, 1))
            return (nm, lo, lo + float(rng.uniform(.1, .6)), inc)
        if rng.random() < .4:       # times of records are bounds: ranges include their ends
            lo, hi = sorted((r.t, ds.recs[int(rng.integers(len(ds.recs)))].t))
            return (nm, lo, hi if hi > lo else lo + .25, inc)
        lo = r.t - float(rng.integers(0, 3)) * .25 - 1e-5
        return (nm, lo, lo + float(rng.choice([3e-5, .3, 1.1])), inc)
    if nm == 'polarization':
        return (nm, r.vars['pol'], 0, inc)
    if nm == 'on':
        return (nm, int(rng.integers(-1, 3)), 0, inc)
    if nm == 'visibility':
        a = int(rng.integers(1, len(ds.recs) + 2))
        return (nm, a, a + int(rng.integers(0, len(ds.recs) + 1)), inc)
    if nm == 'increment':
        return (nm, int(rng.integers(1, 6)), 0, inc)
    if nm in ('uvnrange', 'uvrange'):
        x = np.hypot(*r.uvw[:2]) * (r.vars['sfreq'] if nm == 'uvrange' else 1)
        lo = max(0., float(x * rng.choice([0, .5, 1 - 1e-9, 1.001])))
        return (nm, lo, lo * float(rng.choice([1.0001, 1.5, 5])) + 1e-3, inc)
    if nm in ('dra', 'ddec') and rng.random() < .4 or nm in ('ra', 'dec') and not off & 1 and rng.random() < .4:
        lo, hi = sorted((float(r.vars[nm]), float(ds.recs[int(rng.integers(len(ds.recs)))].vars[nm])))
        return (nm, lo, hi if hi > lo else lo + .0625, inc)
    if nm in ('ra', 'dec', 'dra', 'ddec'):
        lo = float(r.vars[nm]) + float(rng.choice([-.01, -.3, .01, -1]))
        return (nm, lo, lo + float(rng.choice([.02, .3, 1.3])), inc)
    if nm in ('lst', 'ha'):
        x = r.vars['lst'] - (r.vars['obsra'] if nm == 'ha' else 0)
        lo, hi = x - float(rng.choice([.0051, .2, -.003, 1e-9])), x + float(rng.choice([.0049, .02, 1., .1]))
        return (nm, hi, lo, inc) if nm == 'lst' and rng.random() < .3 else (nm, lo, hi, inc)
    if nm == 'frequency':
        lo = float(rng.integers(1, 9)) / 8 - float(rng.choice([0, .01]))
        return (nm, lo, lo + float(rng.choice([.125, .3, .02])), inc)
    if nm == 'elevation':
        lo = r.vars['antel'] - float(rng.choice([0, .01, .5]))
        return (nm, lo, lo + float(rng.choice([.02, .5, 1])), inc)
    if nm == 'bin':
        lo = int(rng.integers(1, 5))
        return (nm, lo, int(rng.integers(lo, 6)), inc)
    if nm in ('dazim', 'delev'):
        lo = float(rng.choice(np.ravel(r.vars[nm]))) - float(rng.choice([0, .1]))
        return (nm, lo, lo + float(rng.choice([.11, .5, 2])), inc)
    if nm == 'shadow':
        return (nm, 0, float(rng.choice([.5, 3, 7, 12.])), inc)
    if nm == 'pointing':
        lo = float(rng.integers(0, 8)) + float(rng.choice([.1, 0, .25]))
        return (nm, lo, lo + float(rng.integers(1, 6)), inc)
    if nm == 'amplitude':
        a = float(rng.uniform(0, 1.5))
        return (nm, a, a + float(rng.uniform(.1, 2)), inc)
    return (nm, int(rng.integers(1, 5)), int(rng.integers(0, 5)), inc)


def compare(mon, uv, ds, ref, names, prog, flags, what, again=False):
    kept = ref.run(ds.recs, flags)
    want = []
    for r, amp in kept:
        m = r.mask
        if amp is not None:
            a2 = r.data.real.astype(float) ** 2 + r.data.imag.astype(float) ** 2
            inside = (amp[0] ** 2 <= a2) & (a2 <= amp[1] ** 2)
            m = m | (~inside if amp[2] else inside)
            mon.ev('amplitude_records')
        want.append(mir.Rec(r.uvw, r.t, r.ij, r.data, m, r.vars))
    got = mir.read_all(uv, names=names)
    if again:       # variables keep what an earlier pass gave them until they are set again
        for g, w in zip(got, want):
            g.vars = {n: v for n, v in g.vars.items() if n in w.vars}
    mir.cmp_recs(mon, got, want, 'r', '%s %r' % (what, prog))
    mon.ev('programs')
    if 0 < len(want) < len(ds.recs):
        mon.ev('partial_selections')
    return len(want)


def one(rng, mon, ds, ants, off, path, ncall):
    prog, ref = [], Ref()
    uv = aipy.miriad.UV(path)
    names = list(ds.types)
    amps = 0
    for _ in range(ncall):
        c = gen_call(rng, ds, ants, off)
        if c[0] == 'amplitude':
            amps += 1
            if amps > 1:
                continue
        if c[0] == 'clear':
            amps = 0
        prog.append(c)
        uv.select(c[0], c[1], c[2], include=c[3])
        ref.select(*c)
    # offsets count for ra/dec once a selection needed them
    flags = {'dra', 'ddec'} if off & 1 else set()
    n = compare(mon, uv, ds, ref, names, prog, flags, 'select')
    mon.case(tuple(prog), n, len(ds.recs))
    if rng.random() < .5:
        uv.rewind()
        compare(mon, uv, ds, ref, names, prog, flags, 'after rewind', True)
    if rng.random() < .4:
        uv.rewind()
        uv.select('clear', 0, 0)
        uv.select('decimate', 1, 0)
        r2 = Ref()
        if rng.random() < .5:
            c = gen_call(rng, ds, ants, off)
            uv.select(c[0], c[1], c[2], include=c[3])
            r2.select(*c)
            prog = [c]
        else:
            prog = []
        compare(mon, uv, ds, r2, names, prog, flags, 'after clear', True)
    return prog


@P.workload(quick=1500, thorough=15000)
def programs(rng, mon):
    ds, ants, off = gen_ds(rng)
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds)
    for _ in range(4):
        prog = one(rng, mon, ds, ants, off, p, int(rng.integers(1, 7)))
    mon.sample(dict(program=prog, records=len(ds.recs), ants=ants))


@P.workload(quick=360, thorough=3000)
def baseline_lists(rng, mon):
    """Long antenna programs, as scripts issue them: one clause per baseline joined by 'or'."""
    ds, ants, off = gen_ds(rng)
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds)
    uv, ref, prog = aipy.miriad.UV(p), Ref(), []
    for k in range(int(rng.integers(1, 12))):
        if k and rng.random() < .8:
            c = (str(rng.choice(['or', 'and'])), -1, -1, 1)
            uv.select(*c)
            ref.select(*c)
            prog.append(c)
        c = ('antennae', int(rng.choice(ants)), int(rng.choice(ants)), int(rng.random() < .7))
        uv.select(*c)
        ref.select(*c)
        prog.append(c)
        if rng.random() < .4:
            c = ('polarization', ds.recs[-1].vars['pol'], 0, 1)
            uv.select(*c)
            ref.select(*c)
            prog.append(c)
    compare(mon, uv, ds, ref, list(ds.types), prog, set(), 'baselines')
    mon.case('bl', tuple(prog))


def gen_bad(rng, ref):
    """A call to be refused."""
    x = float(rng.integers(0, 9)) / 4
    less = x - float(rng.choice([0, 0, .25, 3]))
    bad = [(str(rng.choice(['time', 'dra', 'ddec', 'ra', 'dec', 'ha', 'elevation', 'dazim', 'delev', 'uvrange', 'uvnrange', 'pointing', 'frequency'])), x, less),
           (str(rng.choice(['uvrange', 'uvnrange', 'pointing', 'frequency', 'amplitude'])), -x - .25, 9),
           ('frequency', 0, 1 + x), ('visibility', int(rng.integers(-3, 1)), 5), ('visibility', 5 + int(x), 4), ('increment', int(rng.integers(-3, 1)), 0),
           ('shadow', 1 + x, 5), ('shadow', 0, -1 - x), ('bin', 0, 2), ('bin', 3, 2), ('amplitude', x, less),
           ('antennae', int(rng.integers(5000, 99999)), int(rng.choice([-1, 0, 1]))), ('antennae', 0, int(rng.integers(5000, 99999))), ('antennae', -int(rng.integers(5, 99)), 1),
           ('window', int(rng.choice([-1, 0, 100000])), 0)]
    if ref.cl and ref.cl[-1].amp is not None:
        bad = [('amplitude', x, x + 1)]
    c = bad[rng.integers(len(bad))]
    return c + (int(rng.random() < .6),)


@P.workload(quick=600, thorough=6000)
def refused(rng, mon):
    """Impossible selections are refused and change nothing; one that needs a variable the dataset lacks fails until it is cleared."""
    ds, ants, off = gen_ds(rng)
    p = os.path.join(mon.tmp(), 'a.uv')
    mir.write(aipy, p, ds)
    flags = {'dra', 'ddec'} if off & 1 else set()
    for _ in range(3):
        uv, ref, prog = aipy.miriad.UV(p), Ref(), []
        again = False
        if rng.random() < .4 and off < 2:       # no antpos, obsra, antel, bin
            for c in [(str(rng.choice(['ha', 'elevation', 'bin', 'shadow'])), 0, 3, 1)]:
                if c[0] == 'bin':
                    c = ('bin', 1, 3, 1)
                uv.select(*c)
                prog.append(c)
            for _ in range(int(rng.integers(1, 3))):
                with mon.raises(RuntimeError, 'reading by a variable the dataset has not', prog=prog):
                    uv.read()
                uv.rewind()
            uv.select('clear', 0, 0)
            uv.select('decimate', 1, 0)
            uv.rewind()
            prog.append(('clear',))
            mon.ev('missing_variable')
            again = True
            if rng.random() < .5:
                compare(mon, uv, ds, ref, list(ds.types), prog, flags, 'cleared', True)
                uv.rewind()
        for _ in range(int(rng.integers(1, 7))):
            if rng.random() < .5:
                c = gen_bad(rng, ref)
                with mon.raises(RuntimeError, 'an impossible selection', call=c):
                    uv.select(*c)
                mon.ev('refused')
            else:
                c = gen_call(rng, ds, ants, off)
                if c[0] == 'amplitude' and any(x.amp is not None for x in ref.cl):
                    continue
                uv.select(c[0], c[1], c[2], include=c[3])
                ref.select(*c)
            prog.append(c)
        n = compare(mon, uv, ds, ref, list(ds.types), prog, flags, 'with refused calls', again)
        mon.case('refused', tuple(prog), n)


if __name__ == '__main__':
    P.main()
