"""Factorizations alive after each public operation, and memory of the process over many of them."""
import ctypes, gc, os, tracemalloc
import numpy as np
from .. import gen, ops
from ..gen import choice, Cfg
from ..core import Skip

gen.DECOY = 0         # (live factorizations and allocations are counted)

PLAN = {'quick': {'history': 160, 'backend': 60, 'memory': 36}, 'thorough': {'history': 3000, 'backend': 1000, 'memory': 300}}
FLOORS = {'factorizations released': 437, 'one factorization at a time': 437, 'resident memory': 14, 'python memory': 14}
RULE = ('Random histories of solves (linear, every nonlinear solver, modal normalization, objectives, adjoint gradients, optimizations, frequency and power scans, copies) with the '
        'factorize/release events of the MKL back end hooked: none is alive once a public call returns. Then one operation repeated many times: the growth of resident memory '
        'is compared with that of as many factorizations kept alive on purpose, and the memory traced by Python must not grow.')


class Live:
    """factorizations that have been made and not released, by the phases requested of the back end"""

    def __init__(self):
        self.live = set(); self.made = 0; self.freed = 0; self.peak = 0

    def __enter__(self):
        self.cls = None
        try:
            from pyMKL import pardisoSolver
        except Exception:
            return self
        self.cls = pardisoSolver
        self.orig = pardisoSolver.run_pardiso
        me = self

        def run_pardiso(slf, phase, rhs=None):
            key = slf.pt.ctypes.data
            if phase in (11, 12, 13, 22, 23):
                me.made += 1
                me.live.add((key, id(slf)))
                me.peak = max(me.peak, len(me.live))
            r = me.orig(slf, phase, rhs)
            if phase in (0, -1):
                me.freed += 1
                me.live.discard((key, id(slf)))
            slf.__dict__.setdefault('_keep', me)
            me.hold.append(slf) if phase == 12 else None      # (ids stay unique while the case runs)
            return r
        self.hold = []
        pardisoSolver.run_pardiso = run_pardiso
        return self

    def __exit__(self, *a):
        if self.cls is not None:
            self.cls.run_pardiso = self.orig
            for s in self.hold:
                if (s.pt.ctypes.data, id(s)) in self.live:
                    self.orig(s, -1)

    def check(self, mon, what):
        mon.ok('factorizations released', not self.live, '%d of %d factorizations still held after %s' % (len(self.live), self.made, what))
        mon.ok('one factorization at a time', self.peak <= 1, '%d held at once during %s' % (self.peak, what))


def nlsim(rng, st):
    st.nl_solved = False
    if st.pol == 'Ez' and rng.random() < .8:
        ops.op_nl(rng, st)


def op_scan_f(rng, st):
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    nl = st.pol == 'Ez' and rng.random() < .5
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)**2), [obj_arg('e', st.pol, bool(nl))]), st.sim, np.ones(st.N))
    o.scan_frequency(Nf=int(rng.integers(2, 5)), df=1e-2)


def op_scan_p(rng, st):
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    if st.pol != 'Ez' or min(st.N) < 8:
        return
    ops.op_mode(rng, st)
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)**2), [obj_arg('e', st.pol, False)]), st.sim, np.ones(st.N))
    o.scan_power(probes=[lambda s: float(np.max(np.abs(s.fields_nl['Ez'])))], Ns=2, s_min=1e-3, s_max=1e-2, solver=choice(rng, ['born', 'newton']))
    st.sim.modes = []
    ops.op_src(rng, st)


def op_run(rng, st):
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    if np.iscomplexobj(st.sim.eps_r):
        ops.op_eps(rng, st)
        if np.iscomplexobj(st.sim.eps_r):
            return
    d = np.zeros(st.N); x0, x1, y0, y1 = st.inner
    d[x0:(x0+x1)//2+1, y0:y1] = 1
    st.sim.init_design_region(d, 4.)
    nl = bool(rng.random() < .5) and st.pol == 'Ez'
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)**2)/st.amp**2, [obj_arg('e', st.pol, nl)]), st.sim, d, eps_m=4.)
    o.run(method=choice(rng, ['gd', 'adam', 'lbfgs']), Nsteps=int(rng.integers(1, 4)), step_size=1e-3)
    st.eps = np.array(st.sim.eps_r)


OPS = [ops.op_solve, ops.op_solve_nl, ops.op_index, ops.op_flux, ops.op_mode, ops.op_copy, ops.op_opt, op_scan_f, op_scan_p, op_run]


def history(rng, mon):
    st = ops.make(rng, mon)
    if min(st.N) == 1 or max(st.N) > 300:
        raise Skip('one-dimensional')
    st.sim = st.c.build(src=st.src)
    nlsim(rng, st)
    st.c.describe(mon)
    names = []
    with Live() as L:
        for _ in range(int(rng.integers(3, 9))):
            f = choice(rng, OPS)
            names.append(f.__name__)
            f(rng, st)
            L.check(mon, ', '.join(names))
            if rng.random() < .4:
                choice(rng, [ops.op_src, ops.op_eps])(rng, st)
        mon.event('factorizations', L.made)
        mon.event('releases', L.freed)
    mon.param(ops=names)


def backend(rng, mon):
    import scipy.sparse as sp
    from angler import linalg
    n = int(rng.integers(2, 60))
    A = sp.csr_matrix(sp.random(n, n, .2, random_state=int(rng.integers(2**31)))+sp.eye(n)*n*(1-.1j))
    B = sp.csr_matrix(sp.random(n, n, .05, random_state=int(rng.integers(2**31)))*(1+.3j))
    with Live() as L:
        for _ in range(int(rng.integers(2, 8))):
            if rng.random() < .04:
                # (a large system)
                m = int(rng.integers(5000, 40000))
                M = sp.diags([np.full(m, 4-.2j), np.full(m-1, -1.), np.full(m-1, -1.)], [0, 1, -1]).tocsr()
                linalg.solver_direct(M, rng.standard_normal(m)+0j)
                L.check(mon, 'solver_direct, %d unknowns' % m)
            b = (rng.standard_normal(n)+1j*rng.standard_normal(n))*(rng.random() > .15)
            kw = {} if rng.random() < .6 else dict(solver=choice(rng, ['pardiso', 'scipy', 'PARDISO']))
            if rng.random() < .2:
                kw['timing'] = True
            # (a singular or badly conditioned system takes the other way through the back end)
            M = A
            if rng.random() < .25:
                M = A.copy().tolil(); M[0, :] = M[1, :]; M[0, 0] += 1e-6; M = M.tocsr()
            if rng.random() < .5:
                linalg.solver_direct(M, b, **kw)
                what = 'solver_direct'
            else:
                linalg.solver_complex2real(M, B, b, **kw)
                what = 'solver_complex2real'
            L.check(mon, '%s %s' % (what, kw))
        mon.event('factorizations', L.made)
        mon.event('releases', L.freed)
    mon.param(n=n)


def rss():
    gc.collect()
    try:
        ctypes.CDLL('libc.so.6').malloc_trim(0)
    except Exception:
        pass
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1])*os.sysconf('SC_PAGE_SIZE')


def memory(rng, mon):
    """one operation repeated"""
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    what = choice(rng, ['linear', 'linear', 'born', 'newton', 'hybrid', 'gradient', 'nonlinear gradient', 'scan', 'modes', 'optimization', 'copies'])
    n = int(rng.integers(44, 60))
    pol = 'Ez' if what in ('born', 'newton', 'hybrid', 'nonlinear gradient') else choice(rng, ['Ez', 'Hz'])
    c = Cfg(rng, pol=pol, NPML=[6, 6], N=[n, n+3], cells=float(rng.uniform(12, 30)), lossy=False)
    sim = c.build(); sim.src = np.zeros(c.N, complex); sim.src[n//2, n//2] = 1
    e = np.max(np.abs(sim.solve_fields()[2]))
    d = np.zeros(c.N); d[12:20, 10:-10] = 1
    if pol == 'Ez':
        sim.add_nl(c.L0**2*3e-3/3/e**2, d)
    sim.init_design_region(d, 4.)
    nl = what == 'nonlinear gradient'
    opt = Optimization(Objective(lambda f: npa.sum(npa.abs(f)**2)/e**2, [obj_arg('f', pol, nl)]), sim, d, eps_m=4.)
    mon.param(what=what, pol=pol, n=n)

    def op(k):
        sim.src[n//2, n//2] = 1+.01*(k % 7)        # (so that nothing is served from memory)
        if what == 'linear':
            sim.solve_fields()
        elif what in ('born', 'newton', 'hybrid'):
            sim.solve_fields_nl(solver_nl=what, max_num_iter=3, conv_threshold=1e-14)
        elif 'gradient' in what:
            sim.eps_r = sim.eps_r
            opt.compute_dJ(sim, d)
        elif what == 'scan':
            opt.scan_frequency(Nf=2, df=1e-2)
        elif what == 'modes':
            sim.modes = []
            sim.add_mode(1.5, 'x', [n//2, n//2], n//2)
            sim.setup_modes()
        elif what == 'optimization':
            opt.objfn_list = []
            opt.run(method='adam', Nsteps=2, step_size=1e-3)
        else:
            from copy import deepcopy
            deepcopy(sim).solve_fields()
    with Live() as L:
        def hold():
            L.hold.clear()
        for k in range(4):
            op(k)
        L.check(mon, what)
        m0 = L.made
        hold(); a = rss()
        reps = 16
        for k in range(reps):
            op(k); hold()
        b = rss()
        solves = (L.made-m0)
        L.check(mon, what)
    # what as many solves as were observed would hold, if they did
    import scipy.sparse as sp
    try:
        from pyMKL import pardisoSolver
        from angler.linalg import construct_A
        A = construct_A(sim.omega, sim.xrange, sim.yrange, sim.eps_r, sim.NPML, sim.pol, sim.L0)[0]
        A = sp.csr_matrix(A)
        held = []
        p0 = rss()
        for _ in range(6):
            p = pardisoSolver(A, mtype=13); p.factor(); held.append(p)
        each = (rss()-p0)/6
        for p in held:
            p.clear()
    except Exception:
        each = 0
    each = max(each, A.nnz*16*4) if each else n*n*16*20
    solves = max(solves, reps)
    mon.event('solves with memory watched', solves)
    mon.le('resident memory', b-a, .3*solves*each+4e6, '%d solves, a factorization takes %.3g MB' % (solves, each/1e6))
    tracemalloc.start()
    try:
        for k in range(3):
            op(k)
        gc.collect(); t0 = tracemalloc.get_traced_memory()[0]
        for k in range(8):
            op(k)
        gc.collect(); t1 = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    # less than half of a field array per operation
    mon.param(growth=int(t1-t0), rss=int(b-a))
    mon.le('python memory', t1-t0, 8*.5*c.N[0]*c.N[1]*16, 'bytes after 8 times %s' % what)


def case(kind, rng, mon, tier):
    {'history': history, 'backend': backend, 'memory': memory}[kind](rng, mon)
