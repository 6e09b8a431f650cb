import numpy as np
from .. import gen, runs
from ..gen import choice

PLAN = {'quick': {'run': 260, 'again': 60}, 'thorough': {'run': 5000, 'again': 1000}}
FLOORS = {'outside: permittivity': 800, 'density within [0,1]': 800, 'permittivity is the image of the density': 800}
RULE = ('Random optimization runs (all methods, step sizes up to ones that hit the bounds, filters, projections, both polarizations, source limits); the simulation is watched before '
        'every solve during the run and after it.')
ASSUMPTIONS = ['real permittivity', 'the density, where given, describes the initial permittivity']


def case(kind, rng, mon, tier):
    p = runs.problem(rng)
    method = choice(rng, runs.METHODS)
    N = int(rng.integers(1, 6)) if rng.random() < .93 else int(rng.integers(10, 40))
    step = 10**rng.uniform(-4, 3)
    how = choice(rng, ['rho', 'none', 'init'])
    runs.normalize(p, rng)
    limit = None
    p.describe(mon)
    mon.param(method=method, N=N, step=step, how=how)
    cls = runs.recorder()
    c = p.c
    rho = np.array(p.rho)
    if how == 'none':
        rho = np.where(p.design == 1, np.clip(rho, 0, 1), rho)
    if how == 'rho' and rng.random() < .3:
        rho = np.where(p.design == 1, np.round(rho), rho)       # starts at the bounds
    eps0 = 1+(p.eps_m-1)*rho if how != 'rho' else p.map.eps(rho)
    sim = cls(c.omega, np.array(eps0), c.dl, list(c.NPML), c.pol, L0=c.L0)
    sim.src = np.array(c.src)
    if p.nlset is not None:
        p.nlset.add(sim)
        if rng.random() < .5:
            limit = float(np.max(sim.compute_index_shift()))*10**rng.uniform(-1, .3)
            limit = limit or None
    if how == 'rho':
        sim.rho = np.array(rho)
    elif how == 'init':
        sim.init_design_region(gen.mask(p.design), p.eps_m, style=choice(rng, ['full', 'empty', 'halfway', 'random', 'random_sym', '']))
        rho = np.array(sim.rho)
        eps0 = np.array(sim.eps_r)
    out = p.design != 1
    mon.param(limit=limit)

    def look(s, during=True):
        mon.event('states seen during runs' if during else 'states seen after runs')
        e = np.asarray(s.eps_r); r = np.asarray(s.rho)
        mon.close('outside: permittivity', e[out], eps0[out], 1e-12)
        mon.close('outside: density', r[out], rho[out], 1e-13)
        ri, ei = r[~out], e[~out]
        mon.ok('density within [0,1]', np.all(np.isfinite(ri)) and ri.min() >= 0 and ri.max() <= 1, '%s .. %s' % (ri.min(), ri.max()))
        mon.ok('permittivity within [1, maximum]', np.real(ei).min() >= 1-1e-9 and np.real(ei).max() <= p.eps_m+1e-9 and np.max(np.abs(np.imag(ei))) < 1e-12,
               '%s .. %s' % (ei.min(), ei.max()))
        runs.consistent(mon, p, s)
        if during and np.any((ri == 0) | (ri == 1)):
            mon.event('states with densities at a bound')
    opt = p.optimization(sim, max_ind_shift=limit)
    first = [True]

    def watch(s):
        look(s)
    sim.watch_me = (id(sim), watch)
    runs.run(opt, method, N, step_size=step)
    look(sim, False)
    if kind == 'again':
        runs.run(opt, choice(rng, runs.METHODS), int(rng.integers(1, 4)), step_size=step)
        look(sim, False)
