import copy
import numpy as np
from .. import gen, runs
from ..gen import choice
from ..filt import Map

PLAN = {'quick': {'history': 130, 'check': 110}, 'thorough': {'history': 2500, 'check': 2000}}
FLOORS = {'objective': 246, 'gradient': 143, 'analytic derivative': 130, 'numerical derivative': 130}
RULE = ('Random sequences of source, density, nonlinearity and objective changes interleaved with evaluations, runs, scans, derivative checks and evaluations of other simulations: '
        'objective and gradient after every step against a fresh simulation and optimization; derivative checks against a table of all design pixels.')
ASSUMPTIONS = ['permittivities are changed by assignment', 'gradients are asked for the simulation that the optimization was made for, whose permittivity is the image of its density']


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon)


def scaled(J, k, n):
    return [lambda f: k*J(f), lambda f, g: k*J(f, g), lambda f, g, h: k*J(f, g, h)][n-1]


def fresh(p, rho, src, terms):
    s = p.c.build(eps=p.eps(rho), src=np.array(src))
    for chi, r, sc, em in terms:
        s.add_nl(chi, r, eps_scale=sc, eps_max=em if sc else None)
    s.rho = np.array(rho)
    return s


def do_history(rng, mon):
    p = runs.problem(rng)
    runs.normalize(p, rng)
    p.describe(mon)
    sim = p.sim()
    opt = p.optimization(sim)
    terms = list(p.nlset.terms) if p.nlset is not None else []
    nl = any(q for _, q in p.args)
    rho, src = np.array(p.rho), np.array(p.c.src)
    other = p.sim(np.clip(p.rho*.7+.1, 0, 1), src=p.c.src*.3)
    J_other, map0 = None, p.map
    ops = []

    def values(rho, src):
        s = fresh(p, rho, src, terms)
        o = p.optimization(s)
        L = gen.fields(s, s.solve_fields())
        args = []
        if nl:
            r = s.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12)
            NLF = gen.fields(s, r[:3])
        for a, q in p.args:
            args.append((NLF if q else L)[a])
        J = float(p.J(*args))
        return J, s, o
    tol = 1e-6 if nl else 1e-9
    for step in range(int(rng.integers(4, 9))):
        op = choice(rng, ['src', 'src_inplace', 'rho', 'nl', 'J', 'dJ', 'other', 'check', 'scan', 'run', 'lin', 'index', 'copy', 'swap', 'phase', 'sign', 'projection', 'projection', 'borrow', 'borrow', 'parts'])
        ops.append(op)
        if op == 'src':
            src = p.c.src*rng.uniform(.3, 1.2); sim.src = np.array(src)
        elif op == 'src_inplace':
            sim.src *= .8; src = np.array(sim.src)
        elif op in ('phase', 'sign'):
            sim.src = sim.src*(np.exp(1j*rng.uniform(0, 6)) if op == 'phase' else -1); src = np.array(sim.src)
        elif op == 'rho':
            rho = np.clip(rho+rng.uniform(-.3, .3, rho.shape)*(p.design == 1), 0, 1)
            sim.rho = np.array(rho); sim.eps_r = p.eps(rho)
        elif op == 'projection':
            # (as in a run that sharpens the projection step by step)
            if rng.random() < .8:
                p.beta = opt.beta = choice(rng, [1e-9, 1., 4., 12.])
            if rng.random() < .4:
                p.eta = opt.eta = float(rng.uniform(.3, .7))
            p.map = Map(p.c.N, p.design, p.c.NPML, p.eps_m, p.R, p.eta, p.beta)
            sim.eps_r = p.eps(rho)
        elif op == 'nl':
            if nl:
                t = [p.nlset.terms[0][0]*.5, rng.random(p.c.N)*p.design, False, None]
                terms = terms+[t]
                sim.add_nl(t[0], t[1])
        elif op == 'J':
            opt.compute_J(sim)
        elif op == 'dJ':
            opt.compute_dJ(sim, p.design)
        elif op == 'other':
            v = opt.compute_J(other)
            if J_other is None:
                now, p.map = p.map, map0        # (it has the permittivity of the initial projection)
                J_other = p.J_fresh(np.real(other.rho), np.asarray(other.src))
                p.map = now
            mon.le('objective of another simulation', abs(v-J_other), tol*max(abs(J_other), 1e-2), ' '.join(ops))
        elif op == 'check':
            opt.check_deriv(Npts=2)
        elif op == 'scan':
            opt.scan_frequency(Nf=2, df=.1, pbar=False)
        elif op == 'run':
            opt.run(method=choice(rng, ['GD', 'ADAM', 'LBFGS']), Nsteps=1, step_size=1e-2)
            rho = np.real(np.array(sim.rho))
        elif op == 'lin':
            sim.solve_fields()
        elif op == 'borrow':
            # (fields of another source, which is put back afterwards)
            sim.src = src*rng.uniform(.2, .7)
            sim.solve_fields()
            if nl and rng.random() < .7:
                sim.solve_fields_nl(solver_nl='newton')
            sim.src = np.array(src)
        elif op == 'parts':
            if p.c.pol == 'Ez':
                sim.compute_nl(rng.random(p.c.N)*p.nlset.peak if p.nlset is not None else np.ones(p.c.N))
        elif op == 'index':
            if p.c.pol == 'Ez':
                sim.compute_index_shift()
        elif op == 'copy':
            c = copy.deepcopy(sim)
            c.src = c.src*2; c.eps_r = c.eps_r+1
            opt.compute_J(c)
        else:
            c = p.sim(rho, src=src)
            s0 = np.array(c.src); c.src = s0*1.5; opt.compute_J(c); c.src = s0
        if op == 'swap' and rng.random() < .5:
            # another objective function
            k = float(rng.uniform(1.5, 3))
            p.J = scaled(p.J, k, len(p.args))
            opt.objective.J = p.J
            if J_other is not None:
                J_other *= k
        if rng.random() < .75 or step > 5:
            J, s, o = values(rho, src)
            both = rng.random() < .6
            order = rng.random() < .5
            if both and order:
                g = opt.compute_dJ(sim, p.design)
            mon.le('objective', abs(opt.compute_J(sim)-J), tol*max(abs(J), 1e-2), 'after %s' % ' '.join(ops))
            if both:
                if not order:
                    g = opt.compute_dJ(sim, p.design)
                want = o.compute_dJ(s, p.design)
                mon.close('gradient', g*(p.design == 1), want*(p.design == 1), 1e-5 if nl else 1e-7, scale=max(float(np.max(np.abs(want*p.design))), 1e-9), msg='after %s' % ' '.join(ops))


def do_check(rng, mon):
    """the derivative check: both columns, for some design pixel each"""
    p = runs.problem(rng)
    while p.design.sum() > 40:
        i = np.argwhere(p.design == 1); q = i[int(rng.integers(len(i)))]
        p.design[q[0], :] = 0 if p.design[q[0], :].sum() < p.design.sum() else p.design[q[0], :]
        if (p.design[:, q[1]].sum() < p.design.sum()):
            p.design[:, q[1]] = 0
    p.map = Map(p.c.N, p.design, p.c.NPML, p.eps_m, p.R, p.eta, p.beta)
    runs.normalize(p, rng, top=1.0)
    p.describe(mon)
    sim = p.sim(); opt = p.optimization(sim)
    n = int(rng.integers(1, 6))
    d = choice(rng, [1e-3, 1e-4, 1e-2])
    mon.param(n=n, d=d)
    if rng.random() < .5:
        opt.compute_J(sim)
    if rng.random() < .3:
        sim.src = sim.src*.7
    src = np.array(sim.src)
    a, b = opt.check_deriv(Npts=n, d_rho=d) if d != 1e-3 or rng.random() < .5 else opt.check_deriv(Npts=n)
    mon.ok('one pair per sampled pixel', len(a) == n and len(b) == n, '%d and %d for %d' % (len(a), len(b), n))
    s = p.sim(src=src); g = p.optimization(s).compute_dJ(s, p.design)
    pix = [tuple(q) for q in np.argwhere(p.design == 1)]
    J0 = p.J_fresh(p.rho, src)
    nl = any(q for _, q in p.args)
    noise = (3e-7 if nl else 1e-11)*max(1e-3, abs(J0))/d
    num = {}
    for av, nv in zip(a, b):
        top = max(1e-12, float(np.max(np.abs(g[p.design == 1]))))
        near = [q for q in pix if abs(g[q]-av) <= (1e-5 if nl else 1e-7)*top]
        mon.ok('analytic derivative', bool(near), '%g is the gradient of no design pixel' % av)
        best = np.inf
        for q in near[:12]:
            if q not in num:
                r = np.array(p.rho); r[q] += d
                num[q] = (p.J_fresh(r, src)-J0)/d
            best = min(best, abs(num[q]-nv))
        mon.le('numerical derivative', best, noise+1e-6*abs(nv)+1e-12, 'reported %g' % nv)
    mon.close('simulation unchanged', sim.rho, p.rho, 1e-13, scale=1)
    mon.close('simulation unchanged', np.asarray(sim.eps_r), p.eps(p.rho), 1e-10)
    mon.same('source unchanged', np.asarray(sim.src), src)
