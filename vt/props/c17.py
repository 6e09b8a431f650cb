import numpy as np
from .. import adj, gen
from ..gen import choice
from .c15 import run

TAIL = 0.03
PLAN = {'quick': {'gradient': 95, 'steep': 25, 'unavailable': 60}, 'thorough': {'gradient': 2500, 'steep': 600, 'unavailable': 800}}
FLOORS = {'gradient': 176, 'no gradient for Hz, Ex, Ey': 48}
RULE = ('Random objectives with at least one nonlinear Ez/Hx/Hy argument, mixed with linear ones, on structures with 1-3 Kerr nonlinearities: the adjoint gradient against '
        'five-point finite differences of freshly solved (Newton) objectives.')
ASSUMPTIONS = ['weak to moderate nonlinearity in which the solvers converge', 'smooth objectives', 'real permittivity where the nonlinearity scales with the density']


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon)


def do_steep(rng, mon):
    do_gradient(rng, mon, True)


def do_gradient(rng, mon, steep=False):
    p = adj.Problem(rng, 'Ez', nl=True, steep=steep, wild=True, maxinner=14, maxpml=6, weak=10**rng.uniform(-3, -.5))
    p.describe(mon)
    sim = p.sim()
    r = sim.solve_fields_nl()
    if float(np.min(np.where(np.asarray(r[3]) > 0, r[3], 1))) > 1e-10:
        mon.event('unconverged')
        return
    lin, nlf = p.lin['Ez'], r[2]
    if np.max(np.abs(lin-nlf)) > .3*np.max(np.abs(lin)):
        mon.event('too strong')
        return
    mon.event('effect above 1e-3' if np.max(np.abs(lin-nlf)) > 1e-3*np.max(np.abs(lin)) else 'effect below 1e-3')
    run(p, rng, mon, nrandom=1, npix=2, hs=(.02/p.beta, .004/p.beta) if steep else (2e-3, 4e-4), tol=1e-5)


def do_unavailable(rng, mon):
    """nonlinear arguments without a gradient raise, also next to arguments that have one"""
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    c = gen.Cfg(rng, pol='Hz', maxinner=12, maxpml=6, lossy=False, NPML=[5, 5])
    c.with_source(rng)
    comp = choice(rng, ['Hz', 'Ex', 'Ey'])
    c.describe(mon, comp=comp)
    sim = c.build()
    d = gen.design(rng, c)
    sim.rho = (np.real(c.eps)-1)/4
    n = int(rng.integers(1, 4))
    if n == 1:
        J = lambda a: npa.sum(npa.abs(a)**2)
    elif n == 2:
        J = lambda a, b: npa.sum(npa.abs(a)**2)+npa.sum(npa.abs(b))
    else:
        J = lambda a, b, z: npa.sum(npa.abs(a)**2)*npa.sum(npa.abs(b)**2)+npa.sum(npa.abs(z)**2)
    k = int(rng.integers(n))
    if rng.random() < .5:
        sim.add_nl(c.L0**2*1e-9, d)

    def go():
        o = Optimization(Objective(J, [obj_arg('a%d' % i, comp if i == k else choice(rng, ['Hz', 'Ex', 'Ey']), nl=(i == k)) for i in range(n)]), sim, d, eps_m=5.)
        # fields: the Born solver is the only one for this polarization
        sim.solve_fields(); sim.solve_fields_nl(solver_nl='born', max_num_iter=2)
        return o.compute_dJ(sim, d)
    mon.raises('no gradient for Hz, Ex, Ey', go, comp)

    # the gradient routine itself refuses too
    f = obj_arg('x', comp, nl=True).gradient
    z = np.ones(c.N)+0j
    o = Optimization(Objective(lambda a: npa.sum(npa.abs(a)**2), [obj_arg('a', comp, nl=False)]), sim, d, eps_m=5.)
    mon.raises('no gradient for Hz, Ex, Ey', lambda: f(o, o.objective.dJ_list[0], z, [z]), comp)
