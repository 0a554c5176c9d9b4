"""Runtime-monitoring harness: workloads, monitors, verdicts, evidence.

A check is a file checks/<ID>.py that declares a `Prop` with workloads.  Run as
    /opt/venv/bin/python checks/<ID>.py            (tier from VERIF_TIER, seed from VERIF_SEED)
    /opt/venv/bin/python checks/<ID>.py --replay replays/<file>.json
it builds aipy from /repo's working tree (lib/vbuild.py), runs every workload for
a fixed number of iterations in worker processes (plain or sanitizer build), and
decides from what the monitors observed:

  exit 0   held on everything executed          exit 1   VIOLATION property=... replay=...
  exit 2   inconclusive (a monitor that never fired, watchdog, build failure)

An iteration is a pure function of (seed, workload, index, tier), so a replay
file names one.  A violation is: a monitor's check that failed, an exception the
workload did not expect, a crashed worker (signal or sanitizer report), or an
iteration that burnt more CPU than its limit.
"""
import errno, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, zlib
import numpy as np
import vbuild

VERIF = vbuild.VERIF
WORKER = bool(os.environ.get('VF_WORKER'))
NPROC = 8
WALL_LIMIT = {'quick': 780, 'thorough': 6 * 3600}


class Violation(Exception):
    def __init__(self, msg, key=None, details=None):
        Exception.__init__(self, msg)
        self.key, self.details = key, details


class Inconclusive(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain (counted, not judged)."""


def load():
    """The aipy under test (worker processes only; the parent never imports it)."""
    if not WORKER:
        return None
    b = os.environ['AIPY_VBUILD']
    if os.environ['VF_VARIANT'] == 'memcheck':      # only the modules used: imports are slow under valgrind
        import types, importlib
        aipy = types.ModuleType('aipy')
        aipy.__path__ = [os.path.join(b, 'aipy')]
        sys.modules['aipy'] = aipy
        for m in ('miriad', 'deconv', '_deconv', '_dsp', 'utils'):
            try:
                setattr(aipy, m, importlib.import_module('aipy.' + m))
            except ImportError:
                pass
        return aipy
    import aipy
    if not aipy.__file__.startswith(b):
        raise Inconclusive('wrong aipy imported: ' + aipy.__file__)
    return aipy


def known_findings():
    """Keys listed in KNOWN_FINDINGS.txt: lines 'finding: property=<id> key=<key> <what fails>'."""
    r = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding:'):
                w = ln[len('finding:'):].split()
                d = dict(x.split('=', 1) for x in w[:2])
                r.setdefault(d['property'], {})[d['key']] = ' '.join(w[2:])
    return r


def short(x, n=300):
    with np.printoptions(precision=8, threshold=24, edgeitems=6):
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def jsonable(x):
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) < 1e300 else repr(x)
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x[:40]]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in list(x.items())[:40]}
    return short(x)


class Raises:
    """A context manager whose block must raise; it keeps no reference to the exception's frames."""
    def __init__(self, mon, exc, msg, details):
        self.mon, self.exc, self.msg, self.details = mon, exc, msg, details

    def __enter__(self):
        return self

    def __exit__(self, typ, val, tb):
        self.mon.ev('checks')
        if typ is None:
            self.mon.fail(self.msg + ': no error was raised', **self.details)
            return False
        if issubclass(typ, self.exc):
            self.mon.ev('expected_errors')
            return True
        return False


class Mon:
    """What one worker's monitors observed."""
    def __init__(self, prop, tier):
        self.prop, self.tier, self.thorough = prop, tier, tier == 'thorough'
        self.events, self.cases, self.samples = {}, set(), []
        self.evals, self.skips, self.known_hits, self.per = 0, 0, {}, {}
        self.known = known_findings().get(prop, {})
        self.root = None
        self._tmp = None
        self._undo = []
        self.now = None

    # -- events
    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def case(self, *key):
        """Register this execution as distinct and non-trivial under `key`."""
        self.cases.add(zlib.crc32(repr(key).encode()) | (zlib.adler32(repr(key).encode()) << 32))

    def sample(self, obj, p=None):
        if len(self.samples) < 2:
            self.samples.append({'workload': self.now[0], 'index': self.now[1], 'case': jsonable(obj)})

    # -- oracles
    def fail(self, msg, key=None, **details):
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(msg, key, {k: jsonable(v) for k, v in details.items()})

    def check(self, cond, msg, key=None, **details):
        self.ev('checks')
        if not cond:
            self.fail(msg, key, **details)

    def eq(self, got, want, msg, **details):
        self.ev('checks')
        if not same(got, want):
            self.fail(msg + ': got %s, want %s' % (short(got), short(want)), **details)

    def close(self, got, want, tol, msg, **details):
        """|got - want| <= tol elementwise (tol scalar or array); NaN only where want is NaN."""
        self.ev('checks')
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail('%s: shape %s, want %s' % (msg, got.shape, want.shape), **details)
            return
        with np.errstate(all='ignore'):
            bad = ~(np.abs(got - want) <= tol)
            bad &= ~((got != got) & (want != want)) & ~(got == want)
        if bad.any():
            i = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
            self.fail('%s: at %s got %r, want %r (%d of %d differ)' % (
                msg, [int(k) for k in i], got[i], want[i], bad.sum(), bad.size), **details)

    def raises(self, exc, msg, **details):
        """The block must raise one of `exc`."""
        return Raises(self, exc, msg, details)

    def leaks(self, fn, msg, n=200, warm=20, **details):
        """Repeating fn() must not keep memory: counts Python's blocks and malloc's bytes around n calls."""
        def use():
            import gc
            gc.collect()
            return sys.getallocatedblocks(), malloced()
        for _ in range(warm):
            fn()
        rep = []
        for _ in range(3):       # a leak shows every time
            a = use()
            for _ in range(n):
                fn()
            b = use()
            self.ev('leak_checked_calls', n)
            rep.append((b[0] - a[0], b[1] - a[1]))
            if rep[-1][0] < n / 2 and rep[-1][1] < 16 * n:
                return
        self.fail('%s: %d calls kept %r (blocks, bytes)' % (msg, n, rep), **details)

    # -- instrumentation
    def hook(self, owner, name, wrap):
        """Replace owner.name by wrap(original) until the iteration ends; False if there is none."""
        orig = owner.__dict__.get(name) if isinstance(owner, type) else getattr(owner, name, None)
        if orig is None:
            return False
        setattr(owner, name, wrap(orig))
        self._undo.append((owner, name, orig))
        return True

    # -- scratch
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=self.root)
        return self._tmp

    def end_iteration(self):
        while self._undo:
            setattr(*self._undo.pop())
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def dump(self):
        return dict(events=self.events, cases=sorted(self.cases), samples=self.samples, evals=self.evals,
                    skips=self.skips, known_hits=self.known_hits, per=self.per)


def malloced():
    """Bytes malloc has handed out."""
    import ctypes
    global _mallinfo
    if _mallinfo is None:
        class MI(ctypes.Structure):
            _fields_ = [(x, ctypes.c_size_t) for x in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]
        _mallinfo = ctypes.CDLL(None).mallinfo2
        _mallinfo.restype = MI
    m = _mallinfo()
    return m.uordblks + m.hblkhd


_mallinfo = None


def same(a, b):
    """Equal in value and shape, exactly; NaN equals NaN."""
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        return (same(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
                and same(np.ma.getdata(a), np.ma.getdata(b)))
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)
                and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a is b or (type(a) == type(b) and a == b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return bool(np.all(a == b))
    r = (a == b) | ((a != a) & (b != b))
    return bool(np.all(r))


class Prop:
    def __init__(self, pid, rule, assumptions=(), require=(), level='exploration'):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions, self.require = list(assumptions), list(require)
        self.loads = {}
        self.probes = {}

    def workload(self, quick, thorough=None, variant='plain', cpu=60, cost=None):
        """fn(rng, mon) is run `quick` (or `thorough`) times; cpu = CPU-second limit per iteration."""
        def deco(fn):
            self.loads[fn.__name__] = dict(fn=fn, quick=quick, thorough=thorough or 20 * quick,
                                           variant=variant, cpu=cpu,
                                           cost=cost or (3 if variant == 'asan' else 1))
            return fn
        return deco

    def probe(self, key, variant='plain'):
        """fn(mon) -> True while the known finding `key` still occurs."""
        def deco(fn):
            self.probes[key] = dict(fn=fn, variant=variant)
            return fn
        return deco

    # ------------------------------------------------------------- worker
    def _iterate(self, mon, name, index, seed, out):
        w = self.loads[name]
        mon.now = (name, index)
        rng = np.random.Generator(np.random.PCG64(
            np.random.SeedSequence([seed & 0xffffffff, zlib.crc32(name.encode()), index])))
        np.random.seed(int(rng.integers(2**32)))
        import random
        random.seed(int(rng.integers(2**32)))
        out({'start': [name, index]})
        signal.setitimer(signal.ITIMER_VIRTUAL, w['cpu'] * (30 if w['variant'] == 'memcheck' else 1))
        try:
            w['fn'](rng, mon)
            mon.evals += 1
            mon.per[name] = mon.per.get(name, 0) + 1
        except Skip:
            mon.skips += 1
        except Violation as e:
            out({'violation': [name, index, str(e), e.details, traceback.format_exc(limit=-4)]})
            return False
        except Inconclusive as e:
            out({'inconclusive': [name, index, str(e)]})
        except MemoryError as e:
            out({'inconclusive': [name, index, 'MemoryError: ' + traceback.format_exc(limit=-4)]})
        except OSError as e:
            if e.errno in (errno.ENOSPC, errno.EMFILE, errno.EDQUOT):
                out({'inconclusive': [name, index, repr(e)]})
            else:
                out({'violation': [name, index, 'unexpected ' + repr(e), None, traceback.format_exc(limit=-6)]})
                return False
        except Exception as e:
            out({'violation': [name, index, 'unexpected ' + short(e), None, traceback.format_exc(limit=-6)]})
            return False
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            try:
                mon.end_iteration()
            except Exception:
                pass
        return True

    def _memcheck(self, mon, name, index, out):
        """Errors valgrind logged during this iteration with a frame in aipy's native code."""
        logs = [f for f in os.listdir(os.environ['VF_LOGS']) if f.startswith('vg.%d' % os.getpid())]
        f = open(os.path.join(os.environ['VF_LOGS'], logs[0]), errors='replace')
        f.seek(getattr(self, '_vgpos', 0))
        text = f.read()
        self._vgpos = f.tell()
        mon.ev("memcheck_iterations");
        for block in re.split(r'(?m)^==\d+== *$', text):
            if '/.build/' in block and ('ninitialised' in block or 'nvalid' in block or 'verlap' in block or 'ismatched' in block):
                lines = [re.sub(r'^==\d+== ?', '', x) for x in block.strip().split('\n')]
                where = next((x for x in lines if '/.build/' in x), '')
                out({'violation': [name, index, 'memcheck: %s %s' % (lines[0].strip(), where.strip()[-120:]), None, '\n'.join(lines)]})
                return False
        return True

    def _worker(self, job):
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        f = open(job['out'], 'a')

        def out(rec):
            f.write(json.dumps(rec) + '\n')
            f.flush()
        mon = Mon(self.pid, job['tier'])
        mon.root = job['scratch']
        for key in job.get('probes', ()):
            mon.now = ('probe', key)
            out({'start': ['probe:' + key, 0]})
            try:
                still = bool(self.probes[key]['fn'](mon))
            except Exception:
                out({'inconclusive': ['probe:' + key, 0, traceback.format_exc(limit=-4)]})
                still = None
            mon.end_iteration()
            out({'probe': [key, still]})
        nviol = 0
        for name, idx in job['iters']:
            for i in idx:
                ok = self._iterate(mon, name, i, job['seed'], out)
                if os.environ['VF_VARIANT'] == 'memcheck':
                    ok = self._memcheck(mon, name, i, out) and ok
                if not ok:
                    nviol += 1
                    if nviol >= 3:
                        break
        out({'end': mon.dump()})
        f.close()
        os._exit(0)

    # ------------------------------------------------------------- parent
    def main(self):
        if WORKER:
            self._worker(json.load(open(os.environ['VF_JOB'])))
        args = sys.argv[1:]
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1'))
        replay = None
        while args:
            a = args.pop(0)
            if a == '--replay':
                replay = json.load(open(args.pop(0)))
            elif a == '--tier':
                tier = args.pop(0)
            elif a == '--seed':
                seed = int(args.pop(0))
            elif a == '--only':
                only = args.pop(0).split(',')
                self.loads = {k: v for k, v in self.loads.items() if k in only}
                self.require = []
        t0 = time.time()
        if replay:
            tier, seed = replay['tier'], replay['seed']
        rc = self._run(tier, seed, replay, t0)
        sys.stdout.flush()
        sys.exit(rc)

    def _plan(self, tier, seed, replay):
        """Jobs: one list of (workload, indices) per worker."""
        if replay:
            w = self.loads[replay['workload']]
            return [(w['variant'], [(replay['workload'], [replay['index']])], [])]
        known = known_findings().get(self.pid, {})
        groups = {}
        for name, w in self.loads.items():
            groups.setdefault(w['variant'], []).append(name)
        for key, p in self.probes.items():
            if key in known:
                groups.setdefault(p['variant'], [])
        tot = {v: sum(self.loads[n]['cost'] * self.loads[n][tier] for n in ns) or 1 for v, ns in groups.items()}
        s = float(sum(tot.values()))
        jobs = []
        for v, ns in groups.items():
            k = max(1, min(NPROC - len(groups) + 1, int(round(NPROC * tot[v] / s))))
            for r in range(k):
                iters = [(n, list(range(r, self.loads[n][tier], k))) for n in ns]
                iters = [(n, i) for n, i in iters if i]
                probes = [key for key, p in self.probes.items()
                          if key in known and p['variant'] == v] if r == 0 else []
                if iters or probes:
                    jobs.append((v, iters, probes))
        return jobs

    def _run(self, tier, seed, replay, t0):
        base = tempfile.mkdtemp(prefix='vf-%s-' % self.pid)
        procs = []
        try:
            return self._run2(tier, seed, replay, t0, base, procs)
        finally:
            for p in procs:
                if p['p'].poll() is None:
                    p['p'].kill()
                    p['p'].wait()
            shutil.rmtree(base, ignore_errors=True)

    def _run2(self, tier, seed, replay, t0, base, procs):
        plan = self._plan(tier, seed, replay)
        try:
            builds = {v: vbuild.get(v) for v in sorted(set(j[0] for j in plan))}
        except (vbuild.BuildError, subprocess.CalledProcessError) as e:
            print('INCONCLUSIVE property=%s the build failed: %s' % (self.pid, e))
            return 2
        tbuild = time.time() - t0
        script = os.path.abspath(sys.argv[0])
        for k, (v, iters, probes) in enumerate(plan):
            d = os.path.join(base, 'w%d' % k)
            os.makedirs(os.path.join(d, 'scratch'))
            job = dict(out=os.path.join(d, 'out.jsonl'), tier=tier, seed=seed, iters=iters,
                       probes=probes, scratch=os.path.join(d, 'scratch'))
            json.dump(job, open(os.path.join(d, 'job.json'), 'w'))
            env = vbuild.env(v, builds[v], d)
            env.update(VF_WORKER='1', VF_JOB=os.path.join(d, 'job.json'), TMPDIR=job['scratch'],
                       VF_VARIANT=v, HOME=job['scratch'], VF_LOGS=d)
            err = open(os.path.join(d, 'err'), 'wb')
            p = subprocess.Popen(vbuild.prefix(v, d) + [vbuild.PY, '-W', 'ignore', script], env=env, cwd=job['scratch'],
                                 stdin=subprocess.DEVNULL, stdout=err, stderr=err)
            err.close()
            procs.append(dict(p=p, d=d, v=v, job=job))
        timeout = False
        while any(p['p'].poll() is None for p in procs):
            if time.time() - t0 > WALL_LIMIT[tier]:
                timeout = True
                break
            time.sleep(0.05)
            for p in procs:     # MIRIAD is talkative: keep the logs from filling the disk
                e = os.path.join(p['d'], 'err')
                if p['p'].poll() is None and os.path.getsize(e) > 64 << 20:
                    os.truncate(e, 0)
        viols, inconcl, probes = [], [], {}
        agg = dict(events={}, cases=set(), samples=[], evals=0, skips=0, known_hits={}, per={})
        for p in procs:
            last, ended = None, False
            rc = p['p'].poll()
            if os.path.exists(p['job']['out']):
                for ln in open(p['job']['out']):
                    try:
                        r = json.loads(ln)
                    except ValueError:
                        continue
                    if 'start' in r:
                        last = r['start']
                    elif 'violation' in r:
                        viols.append(r['violation'] + [p['v']])
                    elif 'inconclusive' in r:
                        inconcl.append(r['inconclusive'])
                    elif 'probe' in r:
                        probes[r['probe'][0]] = r['probe'][1]
                    elif 'end' in r:
                        ended = True
                        m = r['end']
                        for k in ('events', 'known_hits', 'per'):
                            for a, b in m[k].items():
                                agg[k][a] = agg[k].get(a, 0) + b
                        agg['cases'].update(m['cases'])
                        agg['samples'] += m['samples']
                        agg['evals'] += m['evals']
                        agg['skips'] += m['skips']
            if ended:
                continue
            if rc is None:
                inconcl.append([str(last), 0, 'watchdog: still running after %d s' % WALL_LIMIT[tier]])
                continue
            tail = open(os.path.join(p['d'], 'err'), 'rb').read()[-3000:].decode('utf-8', 'replace')
            logs = ''
            for f in sorted(os.listdir(p['d'])):
                if f.startswith('san.'):
                    logs += open(os.path.join(p['d'], f), errors='replace').read()[:6000]
            if last is None or rc == -signal.SIGKILL:
                inconcl.append([str(last), 0, 'worker ended with %s before/without a verdict: %s' % (rc, tail[-1500:])])
            elif rc == -signal.SIGVTALRM:
                viols.append([last[0], last[1], 'no progress: the iteration used more than %d CPU-seconds'
                              % self.loads.get(last[0], {'cpu': 60})['cpu'], None, tail, p['v']])
            else:
                what = ('sanitizer report' if logs else 'process died (exit %s)' % rc)
                head = ''
                for ln in logs.split('\n'):
                    if 'ERROR: ' in ln or 'runtime error' in ln:
                        head = ln.strip()
                        break
                viols.append([last[0], last[1], '%s: %s' % (what, head or tail[-300:]), None, logs or tail, p['v']])
        if timeout and not viols:
            inconcl.append(['', 0, 'wall-clock watchdog'])
        for ev in self.require:
            if not replay and not viols and not agg['events'].get(ev):
                inconcl.append(['', 0, 'the monitor event %r was never observed' % ev])

        # report
        for key, what in sorted(known_findings().get(self.pid, {}).items()):
            if probes.get(key) or agg['known_hits'].get(key):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        wall = time.time() - t0
        if not replay:
            self._evidence(tier, seed, agg, viols, inconcl, probes, builds, wall, tbuild)
        if viols:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            seen = 0
            for name, idx, msg, det, tb, v in viols[:3]:
                path = os.path.join('replays', '%s-%s-%s-%d.json' % (self.pid, tier, name.replace(':', '_'), idx))
                rec = dict(property=self.pid, workload=name, index=idx, seed=seed, tier=tier, variant=v,
                           message=msg, details=det, trace=tb,
                           rerun='%s checks/%s.py --replay %s' % (vbuild.PY, self.pid, path))
                if not replay:
                    json.dump(rec, open(os.path.join(VERIF, path), 'w'), indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  %s[%d] (%s build): %s' % (name, idx, v, msg))
                if det:
                    print('  ' + json.dumps(det)[:1500])
                if seen == 0:
                    print('  ' + '\n  '.join((tb or '').split('\n')[-25:])[:2500])
                seen += 1
            return 1
        if inconcl:
            for i in inconcl[:5]:
                print('INCONCLUSIVE property=%s %s' % (self.pid, i))
            return 2
        print('%s: held on %d executions (%d distinct non-trivial) in %.1f s; events %s' % (
            self.pid, agg['evals'], len(agg['cases']), wall,
            json.dumps(dict(sorted(agg['events'].items())))))
        return 0

    def _evidence(self, tier, seed, agg, viols, inconcl, probes, builds, wall, tbuild):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(evaluations=agg['evals'] + len(viols), distinct_nontrivial=len(agg['cases']), rule=self.rule,
                   samples=agg['samples'][:8], monitor_events=dict(sorted(agg['events'].items())),
                   executions_per_workload=agg['per'], out_of_domain_cases=agg['skips'],
                   builds={v: os.path.basename(b) for v, b in builds.items()},
                   build_seconds=round(tbuild, 2))
        if agg['known_hits'] or probes:
            cov['known_finding_hits'] = agg['known_hits']
            cov['known_finding_probes'] = probes
        if inconcl:
            cov['inconclusive'] = jsonable(inconcl[:10])
        ev = dict(property=self.pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(wall, 2), violations=len(viols))
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
