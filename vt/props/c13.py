import numpy as np
from .. import gen, ref
from ..gen import choice
from ..nl import NL, converged

PLAN = {'quick': {'agree': 180, 'history': 260, 'oracle': 160, 'quadratic': 200, 'strong': 70, 'slow': 24}, 'thorough': {'agree': 3000, 'history': 4000, 'oracle': 2500, 'quadratic': 3000, 'strong': 1000, 'slow': 300}}
FLOORS = {'same solution': 250, 'stops at the first entry below the threshold': 104, 'history entry': 150, 'quadratic step': 80, 'strong: honest end': 30, 'slow: goes on until it converges or reaches the limit': 24}
RULE = ('Random Kerr problems: solutions of all solvers and starting fields are compared; convergence histories are checked against the shape and stopping rule, against histories '
        'recomputed from truncated runs, and against an independently assembled fixed-point and Newton iteration; Newton steps are tested for quadratic decrease.')
ASSUMPTIONS = ['Ez polarization', 'agreement and quadratic convergence are judged for index shifts of at most 1e-2 of the field scale where Born converges']


def operator(c):
    """dense operator of the periodic lattice: (E -> curl curl E + w^2 mu0 eps E), built without angler"""
    Nx, Ny = c.N
    e0, m0 = ref.EPS0*c.L0, ref.MU0*c.L0
    n = Nx*Ny
    idx = np.arange(n).reshape(Nx, Ny)
    L = np.zeros((n, n), complex)
    i = idx.ravel()
    for ax, N in ((0, Nx), (1, Ny)):
        if N == 1:
            continue
        L[i, np.roll(idx, -1, ax).ravel()] += 1/c.dl**2/m0
        L[i, np.roll(idx, 1, ax).ravel()] += 1/c.dl**2/m0
        L[i, i] -= 2/c.dl**2/m0
    return L


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon, tier)


def do_agree(rng, mon, tier):
    p = NL(rng, shift=10**rng.uniform(-4, -2))
    c = p.c
    c.describe(mon, shift=p.shift, n=len(p.terms))
    sols = []
    start = p.lin['Ez']*(1+.1*rng.standard_normal(c.N)*np.exp(2j*np.pi*rng.random(c.N)))
    for solver in ('born', 'newton', 'hybrid'):
        for st in (None, start, 'linear'):
            if st is not None and rng.random() < .5:
                continue
            sim = p.build()
            if rng.random() < .5:
                sim.solve_fields()
            kw = {} if st is None else dict(Estart=p.lin['Ez'] if isinstance(st, str) else gen.maybe_layout(np.array(st)))
            r = sim.solve_fields_nl(solver_nl=solver, **kw)
            n, ok = converged(r[3], 1e-10)
            if solver != 'newton' and not ok:
                # a resonance in which the fixed point iteration does not contract: not the weak regime
                mon.event('born unconverged')
                if solver == 'born':
                    return
            mon.ok('converges', ok, '%s from %s: %s' % (solver, st if st is None else 'given', np.asarray(r[3])[:, 0]))
            sols.append((solver, gen.fields(sim, r[:3])))
    for s, F in sols[1:]:
        for k in F:
            mon.close('same solution', F[k], sols[0][1][k], 1e-7, msg='%s and %s %s' % (s, sols[0][0], k))


def do_history(rng, mon, tier):
    p = NL(rng, shift=10**rng.uniform(-5, .3))
    c = p.c
    thr = 10**rng.uniform(-12, -2)
    solver = choice(rng, ['born', 'newton', 'hybrid'])
    m = int(rng.integers(1, 30))
    c.describe(mon, shift=p.shift, n=len(p.terms), thr=thr, solver=solver, m=m)
    sim = p.build()
    kw = dict(solver_nl=solver, conv_threshold=thr)
    r = sim.solve_fields_nl(max_num_iter=m, **kw)
    h = np.asarray(r[3])
    if solver == 'hybrid':
        m = h.size
    mon.ok('one entry per iteration', h.size == m and h.shape[0] == m, str(h.shape))
    h = h.reshape(-1)
    mon.ok('finite and non-negative', np.isreal(h).all() and np.isfinite(h).all() and (h >= 0).all())
    done = np.flatnonzero(h)
    n = int(done[-1])+1 if done.size else 0
    mon.ok('stops at the first entry below the threshold', (h[:max(0, n-1)] >= thr).all(), 'threshold %g, history %s' % (thr, h))
    if n < m and (n == 0 or h[n-1] >= thr):
        # only if the next change was exactly 0, that is, at the solution
        F = gen.fields(sim, r[:3])
        d = np.abs(p.eps_nl(F['Ez'])-sim.eps_nl)
        mon.le('stops only below the threshold', float(np.max(d)), 1e-14, 'threshold %g, history %s' % (thr, h))
        return
    if n < m:
        mon.ok('stops only below the threshold', h[n-1] < thr, 'threshold %g, history %s' % (thr, h))
    mon.event('stopped early' if n < m else 'ran to the limit')
    if solver == 'hybrid':
        # Born first, then Newton from its result if that did not converge
        b = p.build(); rb = b.solve_fields_nl(solver_nl='born', conv_threshold=thr, max_num_iter=20)
        if converged(rb[3], thr)[1]:
            mon.same('hybrid is Born where that converges', h, np.asarray(rb[3]).reshape(-1))
            mon.same('hybrid is Born where that converges', r[2], rb[2])
        elif np.isfinite(rb[2]).all():
            w = p.build(); rw = w.solve_fields_nl(solver_nl='newton', conv_threshold=thr, max_num_iter=20, Estart=rb[2])
            hw = np.asarray(rw[3]).reshape(-1)
            mon.event('newton half of hybrid')
            k = max(1, min(3, int(np.sum(hw > 1e-6))))
            mon.close('hybrid continues with Newton', h[:k], hw[:k], 1e-4, scale=np.max(hw[:k]))
        return
    # the history of a truncated run is the beginning of this one, and its fields are this iteration's
    k = int(rng.integers(1, max(2, n)))
    t = p.build(); rt = t.solve_fields_nl(max_num_iter=k, **kw)
    mon.close('truncated runs', np.asarray(rt[3]).reshape(-1), h[:k], 1e-6, scale=max(1e-6, float(np.max(h[:k]))))
    if k < m and solver == 'born' and k < n:
        t2 = p.build(); rt2 = t2.solve_fields_nl(max_num_iter=k+1, **kw)
        d = np.linalg.norm(rt2[2]-rt[2])/np.linalg.norm(rt2[2])
        mon.le('entry is the relative field change', abs(d-h[k]), 1e-9+1e-6*h[k], 'iteration %d' % k)


def do_slow(rng, mon, tier):
    """hundreds of iterations: fixed points that are hardly attractive, or not at all"""
    p = NL(rng, shift=10**rng.uniform(-1, .5), maxinner=10, maxpml=6)
    thr = 10**rng.uniform(-14, -9)
    p.c.describe(mon, shift=p.shift, thr=thr)
    # bisect for a strength at which the iteration needs many steps
    lo, hi, best = None, None, None
    chi = [t[0] for t in p.terms]
    f = 1.0
    for _ in range(7):
        for t, x in zip(p.terms, chi):
            t[0] = x*f
        r = p.build().solve_fields_nl(solver_nl='born', max_num_iter=60, conv_threshold=thr)
        if converged(r[3], thr)[1]:
            lo = f; f = f*2 if hi is None else (f+hi)/2
        else:
            hi = f; f = f/2 if lo is None else (f+lo)/2
    for t, x in zip(p.terms, chi):
        t[0] = x*(hi or f)
    m = int(rng.integers(110, 400))
    mon.param(m=m)
    r = p.build().solve_fields_nl(solver_nl='born', max_num_iter=m, conv_threshold=thr)
    h = np.asarray(r[3]).reshape(-1)
    n = int(np.flatnonzero(h)[-1])+1 if h.any() else 0
    mon.ok('one entry per iteration', h.size == m, str(h.shape))
    mon.ok('slow: goes on until it converges or reaches the limit', n == m or n == 0 or h[n-1] < thr, '%d of %d iterations, last change %g, threshold %g' % (n, m, h[n-1], thr))
    mon.ok('slow: no entry below the threshold but the last', (h[:max(0, n-1)] >= thr).all())
    mon.event('more than 100 iterations' if n > 100 else 'fewer than 100 iterations')


def do_oracle(rng, mon, tier):
    N = [int(rng.integers(5, 13)), int(rng.integers(5, 13))]
    if rng.random() < .2:
        N[int(rng.integers(2))] = 1
    c = gen.Cfg(rng, pol='Ez', NPML=[0, 0], N=N, cells=float(rng.uniform(8, 25)))
    c.eps = np.real(c.eps)*(1-.1j)
    p = NL(rng, cfg=c, shift=10**rng.uniform(-4, -.5))
    m = 5
    solver = choice(rng, ['born', 'newton'])
    given = bool(rng.random() < .5)
    c.describe(mon, shift=p.shift, solver=solver, given=given, n=len(p.terms))
    w, e0 = c.omega, ref.EPS0*c.L0
    L = operator(c)
    b = 1j*w*c.src.ravel()
    E = p.lin['Ez'].ravel()
    mon.close('linear field', np.linalg.solve(L+np.diag(w**2*e0*c.eps.ravel()), b), E, 1e-6)
    kw = {}
    if given:
        E = E*(1+.2*rng.standard_normal(E.size))
        kw = dict(Estart=gen.maybe_layout(E.reshape(c.N)))
    hist, fs = [], []
    for _ in range(m):
        enl = p.eps_nl(E.reshape(c.N)).ravel()
        B = L+np.diag(w**2*e0*(c.eps.ravel()+enl))
        if solver == 'born':
            E1 = np.linalg.solve(B, b)
        else:
            # f(E) = B(E)E-b, df = (B+|.|^2 terms) dE + E^2 term conj(dE)
            g = np.where(np.abs(E) > 0, enl/np.maximum(np.abs(E)**2, 1e-300), 0)*w**2*e0
            J1 = B+np.diag(g*np.abs(E)**2); J2 = np.diag(g*E*E)
            J = np.block([[J1.real+J2.real, -J1.imag+J2.imag], [J1.imag+J2.imag, J1.real-J2.real]])
            f = B@E-b
            d = np.linalg.solve(J, np.r_[f.real, f.imag])
            E1 = E-(d[:E.size]+1j*d[E.size:])
        hist.append(np.linalg.norm(E1-E)/np.linalg.norm(E1)); fs.append(E1)
        E = E1
    sim = p.build()
    thr = 1e-9
    r = sim.solve_fields_nl(solver_nl=solver, conv_threshold=thr, max_num_iter=m, **kw)
    h = np.asarray(r[3]).reshape(-1)
    real_density = all(not t[2] for t in p.terms)
    for k in range(m):
        if k and hist[k-1] < 1.01*thr:
            break
        if solver == 'newton' and not real_density:
            # with complex permittivity the density factor is complex: the solver's Jacobian may be approximate
            if k:
                break
            continue
        mon.le('history entry', abs(h[k]-hist[k]), 1e-7+1e-4*hist[k], 'iteration %d of %s: %g, expected %g' % (k, solver, h[k], hist[k]))
    n = int(np.sum(h > 0))
    if solver == 'born' and n:
        mon.close('returned field is the last iterate', r[2].ravel(), fs[n-1], 1e-6)


def do_quadratic(rng, mon, tier):
    p = NL(rng, shift=10**rng.uniform(-4, -2), real=True, NPML=[int(rng.integers(5, 9)), int(rng.integers(0, 2)*6)])
    c = p.c
    c.describe(mon, shift=p.shift, n=len(p.terms))
    sim = p.build()
    kw = {}
    if rng.random() < .5:
        kw = dict(Estart=gen.maybe_layout(p.lin['Ez']*(1+.05*rng.standard_normal(c.N))))
    b = p.build(); rb = b.solve_fields_nl(solver_nl='born', conv_threshold=1e-8, max_num_iter=20)
    if not converged(rb[3], 1e-8)[1]:
        # near a resonance: not the weak regime
        mon.event('born unconverged')
        return
    r = sim.solve_fields_nl(solver_nl='newton', conv_threshold=1e-13, max_num_iter=15, **kw)
    h = np.asarray(r[3]).reshape(-1)
    mon.ok('Newton converges', (h < 1e-9).any(), str(h))
    for k in range(len(h)-1):
        if h[k] <= 0 or h[k+1] <= 0:
            break
        if h[k] < 1e-2:
            mon.le('quadratic step', h[k+1], 30*h[k]**2+1e-10, str(h))
            if h[k] > 1e-6:
                mon.event('quadratic steps above rounding')


def do_strong(rng, mon, tier):
    """nonlinearities too strong for the fixed-point iteration, where the hybrid solver goes on with Newton"""
    p = NL(rng, shift=.03)
    c = p.c
    f = None
    for k in range(14):
        b = p.build()
        rb = b.solve_fields_nl(solver_nl='born', conv_threshold=1e-10, max_num_iter=20)
        if not converged(rb[3], 1e-10)[1]:
            f = 2.**k
            break
        for t in p.terms:
            t[0] *= 2
    if f is None:
        mon.event('Born always converged')
        return
    thr = 10**rng.uniform(-12, -6)
    c.describe(mon, shift=p.shift*f, n=len(p.terms), thr=thr)
    h = None
    solver = choice(rng, ['hybrid', 'hybrid', 'newton', 'born'])
    kw = {} if solver == 'hybrid' else dict(max_num_iter=int(rng.integers(3, 40)))
    sim = p.build()
    r = sim.solve_fields_nl(solver_nl=solver, conv_threshold=thr, **kw)
    h = np.asarray(r[3]).reshape(-1)
    if not np.isfinite(h).all():
        mon.event('overflow')
        return
    hit = np.flatnonzero((h < thr) & (h > 0))
    done = np.flatnonzero(h)
    n = int(done[-1])+1
    mon.ok('one entry per iteration', solver == 'hybrid' or h.size == kw['max_num_iter'])
    mon.ok('strong: honest end', n == h.size or h[n-1] < thr, '%s, threshold %g, history %s' % (solver, thr, h))
    mon.ok('stops at the first entry below the threshold', (h[:n-1] >= thr).all(), 'threshold %g, history %s' % (thr, h))
    if h[n-1] >= thr:
        mon.event('strong: ran to the limit')
        return
    mon.event('strong: %s converged' % solver)
    # a reported convergence is one: the fields solve the equation, which a Newton step from them confirms
    w = p.build()
    rw = w.solve_fields_nl(solver_nl='newton', Estart=np.array(r[2]), conv_threshold=1e-13, max_num_iter=1)
    mon.le('strong: Newton step from the solution', float(np.asarray(rw[3]).reshape(-1)[0]), 30*thr+1e-9, solver)
