"""Case runner, monitors, verdicts and evidence."""
import hashlib, json, os, signal, sys, time, traceback, zlib
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
CASE_TIMEOUT = 240          # seconds; firing is inconclusive, never a violation


class Violation(Exception):
    pass


class Skip(Exception):
    """the drawn situation is outside of the property's domain (counted, not judged)"""


class Inconclusive(Exception):
    pass


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


class Monitor:
    """collects what the deciding monitors observed during one case"""

    def __init__(self, pid, known=()):
        self.pid = pid
        self.evals = {}         # monitor -> number of evaluations
        self.worst = {}         # monitor -> largest value/bound seen
        self.params = {}
        self.known = {k['key'] for k in known if k['property'] == pid}
        self.known_hit = {}
        self.events = {}

    # -- description of the case
    def param(self, **kw):
        for k, v in kw.items():
            self.params[k] = _plain(v)

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    # -- deciding monitors
    def _count(self, name):
        self.evals[name] = self.evals.get(name, 0) + 1

    def ok(self, name, cond, msg=''):
        self._count(name)
        if not bool(cond):
            self.fail(name, msg)

    def le(self, name, value, bound, msg=''):
        """value <= bound (and value is a number)"""
        self._count(name)
        value = float(value)
        r = value/bound if bound else (0.0 if value <= 0 else np.inf)
        if not np.isfinite(value) or value > bound:
            self.fail(name, 'measured %.6g, allowed %.6g %s' % (value, bound, msg))
        self.worst[name] = max(self.worst.get(name, 0.0), r)

    def close(self, name, a, b, tol, scale=None, msg=''):
        """max|a-b| <= tol*scale, scale defaulting to the largest magnitude of b"""
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            self._count(name)
            self.fail(name, 'shapes differ: %s and %s %s' % (a.shape, b.shape, msg))
        if a.size == 0:
            self._count(name)
            return
        if scale is None:
            scale = max(float(np.max(np.abs(b))), float(np.max(np.abs(a))))
        d = float(np.max(np.abs(a-b)))
        if scale == 0:
            self.le(name, d, 0.0, msg)
        else:
            self.le(name, d/scale, tol, msg)

    def same(self, name, a, b, msg=''):
        """exactly equal arrays"""
        self._count(name)
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=(a.dtype.kind in 'fc' and b.dtype.kind in 'fc')):
            self.fail(name, 'arrays differ %s' % msg)

    def raises(self, name, fn, msg='', exc=Exception):
        self._count(name)
        try:
            r = fn()
        except exc:
            return
        self.fail(name, 'accepted: %s (returned %s)' % (msg, type(r).__name__))

    def finding(self, key, cond, what):
        """a violation that known_findings.json may list, by mechanism"""
        self._count(key)
        if cond:
            return
        if key in self.known:
            self.known_hit[key] = what
        else:
            self.fail(key, what)

    def fail(self, name, msg):
        raise Violation('%s: %s' % (name, msg))


def _plain(v):
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float('%.6g' % float(v))
    if isinstance(v, float):
        return float('%.6g' % v)
    if isinstance(v, complex) or isinstance(v, np.complexfloating):
        return str(complex(v))
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return 'array%s' % (v.shape,)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    return str(v)


def case_rng(pid, kind, idx, seed):
    return np.random.default_rng([seed, zlib.crc32(pid.encode()), zlib.crc32(kind.encode()), idx])


def run_case(mod, pid, kind, idx, seed, tier, known):
    """-> dict result of one case, in this process"""
    rng = case_rng(pid, kind, idx, seed)
    np.random.seed(int(rng.integers(2**31)))
    mon = Monitor(pid, known)
    res = dict(kind=kind, idx=idx, status='held', msg='')
    t0 = time.time()

    def alarm(*a):
        raise Inconclusive('case exceeded %d s' % CASE_TIMEOUT)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.case(kind, rng, mon, tier)
    except Skip as e:
        res.update(status='skipped', msg=str(e))
    except Violation as e:
        res.update(status='violation', msg=str(e))
    except (Inconclusive, MemoryError, KeyboardInterrupt) as e:
        res.update(status='inconclusive', msg=repr(e))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO)+os.sep)]
        where = inside[-1] if inside else tb[-1]
        res.update(status='violation',
                   msg='unexpected %s in a supported situation: %s (at %s:%d)' % (type(e).__name__, e, os.path.basename(where.filename), where.lineno),
                   tb=''.join(traceback.format_exception(e))[-4000:])
    finally:
        signal.alarm(0)
    res.update(evals=mon.evals, worst=mon.worst, params=mon.params, known=mon.known_hit, events=mon.events,
               wall=time.time()-t0)
    return res


class Lines:
    """lines of the code under test that ran (each is reported once, so this costs nothing after the first time)"""

    def __init__(self):
        self.new = []
        self.root = os.path.realpath(REPO)+os.sep
        mon = getattr(sys, 'monitoring', None)
        if mon is None or mon.get_tool(mon.COVERAGE_ID):
            return
        mon.use_tool_id(mon.COVERAGE_ID, 'vt')

        def line(code, no):
            f = code.co_filename
            if f.startswith(self.root):
                self.new.append((f[len(self.root):], no))
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def take(self):
        n, self.new = self.new, []
        return n


def code_lines(path):
    """numbers of all lines of a module that hold statements of its functions"""
    out = set()

    def walk(c, inside):
        if inside:
            out.update(n for _, _, n in c.co_lines() if n and n > c.co_firstlineno)
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                walk(k, k.co_flags & 2 or inside)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        walk(compile(open(path).read(), path, 'exec'), False)
    return out


def reached(results):
    """module -> 'lines of its functions that ran during this check / all of them'"""
    hit = {}
    for r in results:
        for f, n in r.get('lines', ()):
            hit.setdefault(f, set()).add(n)
    out = {}
    for f in sorted(hit):
        try:
            allof = code_lines(os.path.join(REPO, f))
        except (OSError, SyntaxError):
            continue
        n = len(hit[f] & allof)
        if n:
            out[f] = '%d/%d' % (n, len(allof))
    return out, hit


def worker(conn, mod, pid, seed, tier, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if not os.environ.get('VT_VERBOSE'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1); os.dup2(dn, 2)
    import warnings
    warnings.simplefilter('ignore')
    lines = Lines()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        r = run_case(mod, pid, job[0], job[1], seed, tier, known)
        r['lines'] = lines.take()
        conn.send(r)


def run_cases(mod, pid, jobs, seed, tier, known, njobs, deadline, stop_after=3):
    """dispatches cases to forked workers; a worker killed by a native crash is a violation of its case"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    ws = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, mod, pid, seed, tier, known), daemon=True)
        p.start(); b.close()
        ws[a] = [p, None]
        return a
    todo = list(jobs)
    todo.reverse()
    results = []
    nviol = 0
    for _ in range(min(njobs, max(1, len(todo)))):
        spawn()

    def feed(c):
        if todo and nviol < stop_after and time.time() < deadline:
            j = todo.pop()
            ws[c][1] = j
            c.send(j)
        else:
            ws[c][1] = None
        started[c] = time.time()
    started = {}
    for c in list(ws):
        feed(c)
    while any(v[1] is not None for v in ws.values()):
        for c in wait([c for c in ws if ws[c][1] is not None], timeout=5) or []:
            p, j = ws[c]
            try:
                r = c.recv()
            except (EOFError, ConnectionResetError, OSError):
                p.join(10)
                code = p.exitcode
                sig = -code if code is not None and code < 0 else 0
                bad = sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
                r = dict(kind=j[0], idx=j[1], status='violation' if bad else 'inconclusive',
                         msg='the process died (exit code %s) while running this case' % code,
                         evals={'native crash': 1} if bad else {}, worst={}, params={}, known={}, events={}, wall=0)
                del ws[c]
                c = spawn()
            results.append(r)
            if r['status'] == 'violation':
                nviol += 1
            feed(c)
        # workers stuck in native code (the alarm cannot interrupt those): their case is inconclusive
        for c in [c for c in ws if ws[c][1] is not None and time.time() > started[c]+CASE_TIMEOUT+20]:
            ws[c][0].kill()
    for c, (p, _) in ws.items():
        try:
            c.send(None)
        except OSError:
            pass
    for c, (p, _) in ws.items():
        p.join(2)
        if p.is_alive():
            p.kill()
    return results, len(todo)


def write_replay(pid, seed, tier, r):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s-%d-s%d.json' % (pid, r['kind'], r['idx'], seed)
    with open(os.path.join(d, name), 'w') as f:
        json.dump(dict(property=pid, kind=r['kind'], idx=r['idx'], seed=seed, tier=tier, message=r['msg'],
                       params=r['params'], traceback=r.get('tb', '')), f, indent=1)
    return os.path.join('replays', name)


def fingerprint(r):
    return hashlib.sha1(json.dumps([r['kind'], r['params']], sort_keys=True).encode()).hexdigest()


def evidence(pid, mod, tier, seed, results, wall, nviol, notrun):
    evals, worst, kinds, status, events = {}, {}, {}, {}, {}
    fps = set()
    samples = []
    seen = {}
    for r in results:
        status[r['status']] = status.get(r['status'], 0) + 1
        k = kinds.setdefault(r['kind'], dict(cases=0, monitor_evaluations=0))
        k['cases'] += 1
        n = sum(r['evals'].values())
        k['monitor_evaluations'] += n
        for m, v in r['evals'].items():
            evals[m] = evals.get(m, 0) + v
        for m, v in r['worst'].items():
            worst[m] = max(worst.get(m, 0), v)
        for m, v in r['events'].items():
            events[m] = events.get(m, 0) + v
        if n and r['status'] != 'skipped':
            fps.add(fingerprint(r))
            if seen.get(r['kind'], 0) < 3:
                seen[r['kind']] = seen.get(r['kind'], 0) + 1
                samples.append(dict(kind=r['kind'], idx=r['idx'], params=r['params'], monitors=r['evals'], outcome=r['status']))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(fps),
                            rule=(getattr(mod, 'RULE', '') + ' A case counts as non-trivial if at least one deciding monitor was evaluated on it and'
                                  ' its drawn parameters differ from those of every other case.').strip(),
                            samples=samples, kinds=kinds, outcomes=status,
                            monitor_evaluations=evals,
                            worst_measured_over_allowed={k: float('%.3g' % v) for k, v in worst.items()},
                            observed_events=events, lines_of_the_code_reached=reached(results)[0], planned_but_not_run=notrun),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=nviol)
    if not ev['coverage']['lines_of_the_code_reached']:
        del ev['coverage']['lines_of_the_code_reached']     # (everything ran in child processes)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', pid+'.json')
    with open(p+'.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p+'.tmp', p)
    return ev
