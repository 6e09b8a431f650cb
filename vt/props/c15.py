from .. import adj

TAIL = 0.02
PLAN = {'quick': {'gradient': 220, 'steep': 60}, 'thorough': {'gradient': 5000, 'steep': 1200}}
FLOORS = {'gradient': 623}
RULE = ('Random objectives (1-3 Ez/Hx/Hy arguments) of random structures, filters and projections: the adjoint gradient against five-point finite differences of an independently '
        'filtered and freshly solved objective, along the gradient, along random directions and at single pixels.')
ASSUMPTIONS = ['smooth objectives', 'loss only outside of the design region (or uniform)']
POL, NLIN = 'Ez', False


def case(kind, rng, mon, tier):
    p = adj.Problem(rng, 'Ez', steep=kind == 'steep', wild=True)
    p.describe(mon)
    run(p, rng, mon, **(dict(hs=(.03/p.beta, .006/p.beta)) if kind == 'steep' else {}))


def run(p, rng, mon, **kw):
    sim = p.sim()
    opt = p.optimization(sim)
    if rng.random() < .5:
        mon.close('objective', opt.compute_J(sim), p.J_fresh(p.rho), 1e-7)
    g = opt.compute_dJ(sim, p.design)
    adj.check_gradient(p, g, mon, rng, **kw)
