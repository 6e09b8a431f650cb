import numpy as np
from .. import gen, runs
from ..gen import choice

PLAN = {'quick': {'run': 130, 'prefix': 70}, 'thorough': {'run': 2500, 'prefix': 1500}}
FLOORS = {'no more than the requested number': 80, 'history does not decrease': 80, 'last entry is the objective of the final structure': 80, 'entry is the objective accepted in that iteration': 80}
RULE = ('Random L-BFGS runs: length and monotony of the history, final structure against freshly computed objectives, and the entries against the final structures of shorter runs.')
ASSUMPTIONS = ['no index-shift limit (which changes the objective between the steps)', 'runs of different lengths from the same start share their common iterations']


def case(kind, rng, mon, tier):
    p = runs.problem(rng)
    runs.normalize(p, rng)
    p.describe(mon)
    nl = any(q for _, q in p.args)
    N = int(rng.integers(1, 9)) if kind == 'run' else int(rng.integers(2, 6))
    if kind == 'run' and not nl and rng.random() < .12:
        N = int(rng.integers(12, 45))
    default = bool(rng.random() < .5)
    mon.param(N=N, default=default)

    seen = []

    def go(n):
        sim = p.sim()
        if nl:
            seen.append(runs.Mild(sim))
        opt = p.optimization(sim)
        if default:
            opt.run(Nsteps=n)
        else:
            opt.run(method=choice(rng, ['LBFGS', 'lbfgs']), Nsteps=n, step_size=3.3)
        return sim, opt
    J0 = p.J_fresh(p.rho)
    tol = 1e-6 if nl else 1e-8
    sim, opt = go(N)
    h = np.asarray(opt.objfn_list, float)
    top = max(abs(J0), float(np.max(np.abs(h))) if h.size else 0, 1e-12)
    mon.ok('no more than the requested number', h.size <= N, '%d of %d' % (h.size, N))
    mon.event('iterations', int(h.size))
    runs.consistent(mon, p, sim)
    mon.same('source unchanged', np.asarray(sim.src), np.asarray(p.c.src))
    if not all(m.ok() for m in seen):
        # (an optimization may drive a structure into a regime without unique nonlinear solutions)
        mon.event('runs into the strongly nonlinear regime')
        return
    Jf = p.J_fresh(np.real(sim.rho))
    mon.ok('not worse than the start', Jf >= J0-tol*top, 'from %.10g to %.10g' % (J0, Jf))
    if h.size:
        mon.ok('history does not decrease', (np.diff(h) >= -tol*top).all() and h[0] >= J0-tol*top, 'start %.12g, %s' % (J0, h))
        mon.le('last entry is the objective of the final structure', abs(h[-1]-Jf)/top, tol, '%.12g and %.12g' % (h[-1], Jf))
        if h[-1] > J0+1e-6*top:
            mon.event('runs that improved')
    if kind == 'prefix':
        for k in range(1, h.size):
            s, o = go(k)
            hk = o.objfn_list
            if not all(m.ok() for m in seen):
                return
            mon.ok('entry is the objective accepted in that iteration', len(hk) == k, '%d of %d' % (len(hk), k))
            mon.le('entry is the objective accepted in that iteration', abs(p.J_fresh(np.real(s.rho))-h[k-1])/top, 10*tol, 'iteration %d of %s' % (k, h))
