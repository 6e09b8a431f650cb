"""Independent computations in several threads at once, under a scheduler that decides who runs between the lines of the library."""
import copy, hashlib, os, sys, threading, time, traceback
import numpy as np
from .. import core, gen
from ..gen import choice
from . import c36

PLAN = {'quick': {'scheduled': 80, 'free': 30}, 'thorough': {'scheduled': 6000, 'free': 2000}}
FLOORS = {'as alone': 1500}
RULE = ('Two to four independent computations (complete uses of the library, most of them with one parameter or array of another one changed, some sharing the arrays they are given) run in threads of one fresh process: '
        'with a scheduler that lets one thread run at a time and hands over to a random one between random lines of the library ("scheduled"), and preempted by the interpreter every few microseconds ("free"). '
        'All results must be those of each computation alone in a fresh process. Handovers and distinct interleavings are counted.')
ASSUMPTIONS = ['threads share no simulation, optimization or objective (they may share arrays, which no operation modifies)', 'plots are not made in threads (matplotlib is not made for it)',
               'results are compared to the same tolerances as in C36']
ROOT = os.path.realpath(core.REPO)+os.sep
KINDS = ['fields', 'fields', 'nonlinear', 'nonlinear', 'mode', 'density', 'gradient', 'gradient', 'run', 'scan', 'parts']


class Scheduler:
    """one thread at a time; a thread that waits in vain for its turn (another one blocks on a lock it holds) goes on anyway"""

    def __init__(self, n, seed, often):
        self.c = threading.Condition()
        self.alive = list(range(n))
        self.rng = np.random.default_rng(seed)
        self.now = int(self.rng.integers(n))
        self.often = often
        self.n = 0
        self.late = 0
        self.h = hashlib.sha1()

    def wait(self, i):
        t = time.monotonic()+2
        while self.now != i and i in self.alive:
            if not self.c.wait(max(0, t-time.monotonic())) and time.monotonic() >= t:
                self.late += 1
                self.now = i

    def hand(self, i):
        j = self.alive[int(self.rng.integers(len(self.alive)))]
        if j != i:
            self.n += 1
            self.now = j
            self.c.notify_all()

    def start(self, i):
        with self.c:
            self.wait(i)

    def point(self, i, frame):
        # (loops over pixels need not be interrupted over and over)
        if self.rng.random() < (self.often if self.n < 1000 else self.often/100):
            with self.c:
                self.h.update(('%d %s %d;' % (i, frame.f_code.co_name, frame.f_lineno)).encode())
                self.hand(i)
                self.wait(i)

    def end(self, i):
        with self.c:
            self.alive.remove(i)
            if self.alive:
                self.hand(i)


def together(jobs, seed, often):
    """-> ([result of each], handovers, interleaving, late)"""
    n = len(jobs)
    res = [None]*n
    sch = Scheduler(n, seed, often) if often else None

    def thread(i):
        if sch is None:
            res[i] = c36.attempt(*jobs[i])
            return

        def local(frame, event, arg):
            if event == 'line':
                sch.point(i, frame)
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None
        sch.start(i)
        sys.settrace(enter)
        try:
            res[i] = c36.attempt(*jobs[i])
        finally:
            sys.settrace(None)
            sch.end(i)
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6 if sch is None else old)
    ts = [threading.Thread(target=thread, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    return res, (sch.n, sch.h.hexdigest(), sch.late) if sch else (0, '', 0)


def case(kind, rng, mon, tier):
    n = choice(rng, [2, 2, 3, 4])
    k = choice(rng, KINDS)
    p = c36.draw(rng, k)
    jobs, what = [(k, p)], []
    for _ in range(n-1):
        r = rng.random()
        if r < .7:
            q, w = c36.perturb(rng, p, k)
            jobs.append((k, q)); what.append('other '+w)
        elif r < .85:
            k2 = choice(rng, [x for x in KINDS if x not in ('run', 'scan')])
            jobs.append((k2, c36.draw(rng, k2))); what.append(k2)
        else:
            jobs.append((k, copy.deepcopy(p))); what.append('the same')
    for _, q in jobs:
        if q.get('style') == 'random':
            q['style'] = 'full'         # (random numbers come from one generator)
    shared = rng.random() < .5
    if shared:
        # equal arrays are one and the same object (but sources: setting up modes writes to the source of its simulation)
        known = []
        for _, q in jobs:
            for name, v in q.items():
                if isinstance(v, np.ndarray) and name != 'src':
                    for o in known:
                        if o.shape == v.shape and o.dtype == v.dtype and np.array_equal(o, v):
                            q[name] = o
                            break
                    else:
                        known.append(v)
    seed = int(rng.integers(2**31))
    often = float(10**rng.uniform(-3, 0)) if kind == 'scheduled' else 0
    mon.param(kind=k, threads=n, what=what, shared=shared, often=often, pol=p['pol'], N=p['N'], NPML=p['NPML'])
    alone = c36.child(lambda: [c36.attempt(x, copy.deepcopy(q)) for x, q in jobs])
    both = c36.child(lambda: together(jobs, seed, often))
    for r in (alone, both):
        if r[0] == 'failed':
            raise RuntimeError(r[1])
    res, (hand, order, late) = both
    mon.event('handovers', hand); mon.event('late', late)
    mon.param(interleaving=order)
    for j, ((x, _), a, b) in enumerate(zip(jobs, alone, res)):
        if a[0] == 'raised':
            raise RuntimeError('alone: %s\n%s' % (a[1], a[2]))
        if b is None or b[0] == 'raised':
            mon._count('as alone'); mon.fail('as alone', '%s is fine alone, but beside %s: %s' % (x, what, b and b[1:]))
        compare(mon, x, a[1], b[1], what)


def compare(mon, kind, A, B, what):
    tol = 1e-6 if kind == 'run' else 1e-7 if kind in ('nonlinear', 'scan', 'gradient', 'mode') else 1e-8
    for k, v in A.items():
        w = B[k]
        s = [np.abs(u[np.isfinite(u)]) for r in (A, B) for n, u in r.items() if n == k or n[-2:-1] in 'EH' and n[:-1] == k[:-1]]
        s = max([float(np.max(u)) for u in s if u.size] or [0])
        if v.shape == w.shape and not np.isfinite(v).all():
            mon.same('as alone', np.isfinite(w), np.isfinite(v), k)
            v, w = v[np.isfinite(v)], w[np.isfinite(v)]
        mon.close('as alone', w, v, tol, scale=s, msg='%s beside %s' % (k, what))
