import numpy as np
from .. import gen, ref
from ..gen import choice
from ..nl import NL, converged

TAIL = 0.02
PLAN = {'quick': {'solve': 500, 'zero': 120, 'strong': 120, 'beyond': 60}, 'thorough': {'solve': 8000, 'zero': 1500, 'strong': 2500, 'beyond': 800}}
FLOORS = {'ampere': 247, 'stored': 300, 'no nonlinearity': 144, 'linear fields kept': 300}
RULE = ('Random structures with 1-3 Kerr nonlinearities (regions of any shape, with and without density scaling, either sign) solved by the Born, Newton and hybrid '
        'solvers; converged solutions are put into an independent discretization of the nonlinear Maxwell equations.')
ASSUMPTIONS = ['Ez polarization', 'only solutions whose convergence history reports convergence are judged']


def case(kind, rng, mon, tier):
    shift = 10**rng.uniform(-1.3, 0.3) if kind == 'strong' else None
    p = NL(rng, shift=shift)
    c = p.c
    thr = choice(rng, [1e-10, 1e-10, 1e-8, 1e-6, 1e-12])
    solver = choice(rng, ['born', 'newton', 'hybrid'])
    if kind == 'beyond':
        # so strong that the fixed-point iteration does not converge (in 20 steps) any more
        solver = choice(rng, ['newton', 'hybrid', 'hybrid'])
        for _ in range(14):
            if not converged(p.build().solve_fields_nl(solver_nl='born', conv_threshold=1e-10, max_num_iter=20)[3], 1e-10)[1]:
                break
            for t in p.terms:
                t[0] *= 2
            p.shift *= 2
    c.describe(mon, solver=solver, thr=thr, shift=p.shift, n=len(p.terms), scaled=[t[2] for t in p.terms], kind=kind)
    if kind == 'zero':
        sim = c.build()
        what = choice(rng, ['none', 'chi', 'region', 'density'])
        mon.param(what=what)
        if what == 'chi':
            for _, r, s, em in p.terms:
                sim.add_nl(0.0, r, eps_scale=s, eps_max=em)
        elif what == 'region':
            for chi, r, s, em in p.terms:
                sim.add_nl(chi, 0*r, eps_scale=s, eps_max=em)
        elif what == 'density':
            sim.eps_r = np.ones(c.N)
            for chi, r, s, em in p.terms:
                sim.add_nl(chi, r, eps_scale=True, eps_max=em)
        lin = gen.fields(sim, sim.solve_fields())
        r = sim.solve_fields_nl(solver_nl=solver, conv_threshold=thr)
        for k, v in gen.fields(sim, r[:3]).items():
            mon.close('no nonlinearity', v, lin[k], 1e-7)
            mon.same('linear fields kept', sim.fields[k], lin[k])
        return
    sim = p.build()
    pre = bool(rng.random() < .5)
    if pre:
        lin = gen.fields(sim, sim.solve_fields())
        keep = {k: np.array(v) for k, v in lin.items()}
    kw = {}
    if rng.random() < .3:
        kw['Estart'] = gen.maybe_layout(p.lin['Ez']*(1+.1*rng.standard_normal(c.N)))
    if solver != 'hybrid':
        kw['max_num_iter'] = 40
    r = sim.solve_fields_nl(solver_nl=solver, conv_threshold=thr, **kw)
    F = gen.fields(sim, r[:3])
    for k in F:
        mon.ok('stored', sim.fields_nl[k] is F[k] or np.array_equal(sim.fields_nl[k], F[k]), k)
    if pre:
        for k in keep:
            mon.ok('linear fields kept', sim.fields[k] is not None)
            mon.same('linear fields kept', sim.fields[k], keep[k], k)
    elif sim.fields['Ez'] is not None:
        for k in p.lin:
            mon.close('linear fields are those of the linear problem', sim.fields[k], p.lin[k], 1e-9)
    n, ok = converged(r[3], thr)
    if not ok:
        mon.event('unconverged')
        return
    mon.event('converged with '+solver)
    e = np.asarray(c.eps)+p.eps_nl(F['Ez'])
    mon.event('effect on fields above 1e-4' if np.max(np.abs(F['Ez']-p.lin['Ez'])) > 1e-4*p.peak else 'smaller effect')
    ref.check_maxwell(mon, 'Ez', F, e, c.src, c.omega, c.dl, c.L0, c.NPML, tol=1e-8+5*thr)
    # nothing of the returned arrays is shared with the linear ones
    if pre:
        mon.ok('separate arrays', not np.shares_memory(F['Ez'], sim.fields['Ez']))
