import numpy as np
from .. import gen, runs
from ..gen import choice

PLAN = {'quick': {'limit': 110, 'trace': 70, 'nolimit': 60, 'noshift': 40}, 'thorough': {'limit': 2500, 'trace': 1500, 'nolimit': 800, 'noshift': 500}}
FLOORS = {'below the limit': 87, 'close to the limit': 43, 'same profile': 100, 'recorded amplitude': 102, 'source never changes': 54}
RULE = ('Random runs with and without an index-shift limit (above or below the present shift): final source against the initial one, final shift against the limit with a fresh simulation, '
        'recorded amplitudes against the sources of runs of every length.')
ASSUMPTIONS = ['Ez polarization', 'closeness is judged in the weakly nonlinear regime and for steps that hardly move the structure']


def setup(rng, weak=None):
    p = runs.problem(rng, pol='Ez', nl=True)
    if rng.random() < .4:
        # purely linear objective of a nonlinear simulation
        p.args = [(a, False) for a, _ in p.args]
    return p


def shift(p, rho, src):
    s = p.sim(rho, src=src)
    r = s.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12)
    enl = p.nlset.eps_nl(r[2], eps=s.eps_r)
    return float(np.max(np.abs(np.sqrt(np.real(s.eps_r+enl))-np.sqrt(np.real(s.eps_r)))))


def watched(p):
    from angler import Simulation

    class Watched(Simulation):
        def solve_fields_nl(self, *a, **k):
            r = Simulation.solve_fields_nl(self, *a, **k)
            c = np.asarray(r[3])
            self.seen['unconverged'] += not (c < 1e-8).any()
            lin = Simulation.solve_fields(self)[2]
            n = float(np.linalg.norm(lin))
            self.seen['worst'] = max(self.seen['worst'], float(np.linalg.norm(r[2]-lin))/n if n else 0.)
            return r
    s = p.sim()
    s.__class__ = Watched
    s.seen = dict(unconverged=0, worst=0.)
    return s


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon)


def do_limit(rng, mon):
    p = setup(rng)
    runs.normalize(p, rng)
    dn0 = shift(p, p.rho, p.c.src)
    if dn0 < 1e-9:
        mon.event('no shift')
        return
    f = 10**rng.uniform(-2, 1)
    limit = min(dn0*f, 3e-3)
    method = choice(rng, ['GD', 'ADAM', 'LBFGS'])
    N = int(rng.integers(1, 5))
    p.describe(mon); mon.param(method=method, N=N, factor=f, dn0=dn0)
    sim = watched(p)
    opt = p.optimization(sim, max_ind_shift=limit)
    tiny = 1e-9
    opt.run(method=method, Nsteps=N, step_size=tiny)
    src = np.asarray(sim.src)
    m = np.abs(p.c.src) > 0
    k = src[m]/p.c.src[m]
    mon.close('same profile', k, np.full(k.shape, k[0]), 1e-9)
    mon.ok('same profile', not np.any(src[~m]), 'new source pixels')
    mon.ok('positive factor', np.real(k[0]) > 0 and abs(np.imag(k[0])) <= 1e-9*abs(k[0]), str(k[0]))
    n = len(opt.src_amplitudes)
    mon.ok('one amplitude per step', n == len(opt.objfn_list) and (method == 'LBFGS' or n == N), '%d amplitudes, %d objectives, %d steps' % (n, len(opt.objfn_list), N))
    if n == 0:
        mon.event('no iterations')
        return
    dn = shift(p, np.real(sim.rho), src)
    mon.event("judged "+method)
    if sim.seen['worst'] > 8e-3 or sim.seen['unconverged'] or method == 'LBFGS' and dn == 0:
        # the source is scaled to first order, which misses the limit by twice the relative change of the fields (the margin is 2%);
        # the trial structures of L-BFGS may be strongly nonlinear
        mon.event('not in the weak regime '+method)
        return
    mon.le('below the limit', dn/limit, 1.001)
    mon.ok('close to the limit', dn/limit > .9, 'shift %g, limit %g' % (dn, limit))
    # angler's own measure
    s = p.sim(np.real(sim.rho), src=src)
    mon.le('below the limit', float(np.max(s.compute_index_shift()))/limit, 1.001)


def do_trace(rng, mon):
    """amplitudes of every step, from runs of every length"""
    p = setup(rng)
    runs.normalize(p, rng)
    dn0 = shift(p, p.rho, p.c.src)
    limit = choice(rng, [None, min(3e-3, dn0*10**rng.uniform(-1, 1)) or None])
    method = choice(rng, ['GD', 'ADAM'])
    N = int(rng.integers(2, 5)); step = 10**rng.uniform(-3, -1)
    p.describe(mon); mon.param(method=method, N=N, limit=limit, step=step)
    peak = [float(np.max(np.abs(p.c.src)))]
    for n in range(1, N+1):
        sim = p.sim(); opt = p.optimization(sim, max_ind_shift=limit)
        opt.run(method=method, Nsteps=n, step_size=step)
        a = np.asarray(opt.src_amplitudes, float)
        mon.ok('one amplitude per step', a.shape == (n,) and len(opt.objfn_list) == n, '%d for %d steps' % (a.size, n))
        mon.close('recorded amplitude', a, np.array(peak[:n]), 1e-9)
        peak.append(float(np.max(np.abs(sim.src))))
        k = np.asarray(sim.src)[np.abs(p.c.src) > 0]/p.c.src[np.abs(p.c.src) > 0]
        mon.close('same profile', k, np.full(k.shape, np.abs(k[0])+0j), 1e-9)
    if limit is None:
        mon.same('source never changes', np.asarray(sim.src), np.asarray(p.c.src))


def do_nolimit(rng, mon):
    p = runs.problem(rng)
    runs.normalize(p, rng)
    p.describe(mon)
    method = choice(rng, ['GD', 'ADAM', 'LBFGS'])
    N = int(rng.integers(1, 5))
    mon.param(method=method, N=N)
    sim = p.sim(); opt = p.optimization(sim)
    opt.run(method=method, Nsteps=N, step_size=10**rng.uniform(-4, 0))
    mon.same('source never changes', np.asarray(sim.src), np.asarray(p.c.src))
    a = np.asarray(opt.src_amplitudes, float)
    mon.ok('one amplitude per step', a.size == len(opt.objfn_list) and (method == 'LBFGS' or a.size == N))
    mon.close('recorded amplitude', a, np.full(a.shape, np.max(np.abs(p.c.src))), 1e-12)


def do_noshift(rng, mon):
    """a limit, but nothing that shifts the index: the source is left alone (and stays finite)"""
    p = runs.problem(rng, pol='Ez', nl=False)
    runs.normalize(p, rng)
    p.describe(mon)
    method = choice(rng, ['GD', 'ADAM', 'LBFGS'])
    how = choice(rng, ['none', 'chi', 'region'])
    mon.param(method=method, how=how)
    sim = p.sim()
    if how == 'chi':
        sim.add_nl(0.0, np.ones(p.c.N))
    elif how == 'region':
        sim.add_nl(1e-3, np.zeros(p.c.N))
    opt = p.optimization(sim, max_ind_shift=10**rng.uniform(-6, 0))
    opt.run(method=method, Nsteps=int(rng.integers(1, 4)), step_size=1e-3)
    mon.same('source never changes', np.asarray(sim.src), np.asarray(p.c.src))
    mon.ok('finite objectives', np.all(np.isfinite(np.asarray(opt.objfn_list, float))))
