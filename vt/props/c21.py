import numpy as np
from .. import gen, runs, adj
from ..gen import choice

PLAN = {'quick': {'GD': 110, 'ADAM': 130, 'improves': 50, 'resume': 30, 'long': 20}, 'thorough': {'GD': 2000, 'ADAM': 2500, 'improves': 800, 'resume': 500, 'long': 400}}
FLOORS = {'gradient ascent step': 153, 'ADAM step': 181, 'recorded objective': 334, 'ascends': 40}
RULE = ('Random gradient-ascent and ADAM runs of every length up to N: the densities of consecutive lengths are compared with the update rule applied to freshly computed gradients, '
        'the recorded history with freshly computed objectives.')
ASSUMPTIONS = ['runs of different lengths from the same start share their common steps (runs are deterministic)']


def final(p, method, n, limit, **kw):
    """simulation and optimization after n steps"""
    sim = p.sim()
    opt = p.optimization(sim, max_ind_shift=limit)
    opt.run(method=method, Nsteps=n, **kw)
    return sim, opt


def case(kind, rng, mon, tier):
    p = runs.problem(rng)
    if not runs.normalize(p, rng):
        mon.event('no gradient')
        return
    d = p.design == 1
    p.describe(mon)
    if kind == 'improves':
        return improves(p, d, rng, mon)
    if kind == 'resume':
        return resume(p, d, rng, mon)
    if kind == 'long':
        return long(p, d, rng, mon)
    N = int(rng.integers(2, 6))
    limit = None
    if p.nlset is not None and rng.random() < .5:
        limit = float(np.max(p.sim().compute_index_shift()))*10**rng.uniform(-1, .2) or None
    if kind == 'GD':
        step = 10**rng.uniform(-3, 1)
        kw = dict(step_size=step)
        b1 = b2 = None
    else:
        step = 10**rng.uniform(-3, -.3)
        b1, b2 = float(rng.uniform(.3, .99)), float(rng.uniform(.5, .9999))
        kw = dict(step_size=step, beta1=b1, beta2=b2)
        if rng.random() < .2:
            kw = dict(step_size=step); b1, b2 = .9, .999
    name = choice(rng, [kind, kind.lower()])
    mon.param(N=N, step=step, b1=b1, b2=b2, limit=limit)
    states = [(np.array(p.rho), np.array(p.c.src))]
    for n in range(1, N+1):
        sim, opt = final(p, name, n, limit, **kw)
        mon.ok('one entry per step', len(opt.objfn_list) == n, '%d for %d steps' % (len(opt.objfn_list), n))
        states.append((np.array(sim.rho), np.array(sim.src)))
    hist = opt.objfn_list
    nl = any(q for _, q in p.args)
    m = v = 0
    for k in range(N):
        rho, src = states[k]
        J = p.J_fresh(rho, src)
        mon.le('recorded objective', abs(hist[k]-J), (1e-6 if nl else 1e-8)*max(abs(J), 1e-3*abs(p.J_fresh(states[0][0], states[0][1]))), 'step %d: %g, expected %g' % (k, hist[k], J))
        # gradient at the state of the step, with the source that the step uses
        used = states[k+1][1]
        s = p.sim(rho, src=used)
        g = p.optimization(s).compute_dJ(s, p.design)
        top = float(np.max(np.abs(g[d])))
        if kind == 'GD':
            new = rho+step*g
            tol = (1e-5 if nl else 1e-7)*min(1, step*top)+1e-11
            ok = d
        else:
            m = b1*m+(1-b1)*g; v = b2*v+(1-b2)*g**2
            mh, vh = m/(1-b1**(k+1)), v/(1-b2**(k+1))
            new = rho+step*mh/(np.sqrt(vh)+1e-8)
            ok = d & (np.sqrt(vh) > 1e-3*np.max(np.sqrt(vh[d]))) & (np.sqrt(vh) > 1e-4)
            tol = 1e-2*step if nl else 1e-5*step
            if not ok.any():
                continue
        want = np.where(d, np.clip(new, 0, 1), rho)
        got = states[k+1][0]
        mon.le('gradient ascent step' if kind == 'GD' else 'ADAM step', float(np.max(np.abs(got-want)[ok])), tol, 'step %d of %d' % (k, N))
        mon.same('outside of the design region', got[~d], rho[~d])
        if np.any((want == 0) | (want == 1)):
            mon.event('steps that hit a bound')
        mon.event('pixels compared', int(ok.sum()))


def improves(p, d, rng, mon):
    """a small step in the rule's direction increases the objective"""
    method = choice(rng, ['GD', 'ADAM'])
    s = p.sim()
    g = p.optimization(s).compute_dJ(s, p.design)
    free = d & ~((p.rho >= 1-1e-3) & (g > 0)) & ~((p.rho <= 1e-3) & (g < 0))
    if not free.any() or np.max(np.abs(g[free])) < 1e-3*np.max(np.abs(g[d])):
        return
    J0 = p.J_fresh(p.rho)
    top = float(np.max(np.abs(g[free])))
    move = 1e-4
    step = move/top if method == 'GD' else move
    sim, opt = final(p, method, 1, None, step_size=step)
    dr = np.array(sim.rho)-p.rho
    gain = float(np.sum(g*dr))
    J1 = p.J_fresh(sim.rho)
    if method == 'GD':
        want = float(np.sum((step*g*g)[free]))
    else:
        want = float(np.sum((step*np.abs(g))[free & (np.abs(g) > 1e-3*top)]))*.5
    mon.ok('ascends', gain >= .5*want, 'predicted gain %g, of which %g' % (want, gain))
    if gain > 1e-9*max(abs(J0), 1e-6) and gain > 100*1e-12*abs(J0):
        mon.ok('ascends', J1 > J0, 'from %.12g to %.12g' % (J0, J1))


def resume(p, d, rng, mon):
    """a run that is continued takes the same gradient-ascent steps as a single one; ADAM starts over with fresh moments"""
    a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    method = choice(rng, ['GD', 'ADAM'])
    kw = dict(step_size=10**rng.uniform(-3, -1))
    mon.param(a=a, b=b, method=method, **kw)
    sim, opt = final(p, method, a, None, **kw)
    mid = np.array(sim.rho)
    opt.run(method=method, Nsteps=b, **kw)
    mon.ok('one entry per step', len(opt.objfn_list) == a+b, '%d for %d+%d' % (len(opt.objfn_list), a, b))
    s2 = p.sim(np.real(mid)); o2 = p.optimization(s2)
    o2.run(method=method, Nsteps=b, **kw)
    mon.close('continued run', np.asarray(sim.rho), np.asarray(s2.rho), 1e-6, scale=1)
    mon.close('continued run', np.asarray(opt.objfn_list[a:]), np.asarray(o2.objfn_list), 1e-6)


def long(p, d, rng, mon):
    """a run of many steps, watched before every solve"""
    method = choice(rng, ['GD', 'ADAM'])
    N = int(rng.integers(12, 60)) if p.nlset is None else int(rng.integers(8, 20))
    step = 10**rng.uniform(-4, -2)
    b1, b2 = float(rng.uniform(.3, .99)), float(rng.uniform(.5, .9999))
    kw = dict(step_size=step) if method == 'GD' else dict(step_size=step, beta1=b1, beta2=b2)
    mon.param(method=method, N=N, step=step, b1=b1, b2=b2)
    c = p.c
    cls = runs.recorder()
    sim = cls(c.omega, np.array(p.map.eps(p.rho))+p.loss, c.dl, list(c.NPML), c.pol, L0=c.L0)
    sim.src = np.array(c.src)
    if p.nlset is not None:
        p.nlset.add(sim)
    sim.rho = np.array(p.rho)
    states = []

    def watch(s):
        r = np.array(np.real(s.rho))
        if not states or not np.array_equal(r, states[-1]):
            states.append(r)
    opt = p.optimization(sim)
    sim.watch_me = (id(sim), watch)
    opt.run(method=method, Nsteps=N, **kw)
    watch(sim)
    h = np.asarray(opt.objfn_list, float)
    mon.ok('one entry per step', h.size == N, '%d for %d steps' % (h.size, N))
    if len(states) != N+1 or not np.array_equal(states[0], p.rho):
        mon.event('steps that could not be told apart')
        return
    nl = any(q for _, q in p.args)
    m = v = 0
    for k in range(N):
        rho = states[k]
        s = p.sim(rho)
        mild = runs.Mild(s)
        o = p.optimization(s)
        g = o.compute_dJ(s, p.design)
        if nl and not mild.ok():
            return
        J = p.J_fresh(rho)
        mon.le('recorded objective', abs(h[k]-J), (1e-6 if nl else 1e-8)*max(abs(J), 1e-3*abs(h[0])), 'step %d: %g, expected %g' % (k, h[k], J))
        top = float(np.max(np.abs(g[d])))
        if method == 'GD':
            new, ok = rho+step*g, d
            tol = (1e-5 if nl else 1e-7)*min(1, step*top)+1e-11
        else:
            m = b1*m+(1-b1)*g; v = b2*v+(1-b2)*g**2
            mh, vh = m/(1-b1**(k+1)), v/(1-b2**(k+1))
            new = rho+step*mh/(np.sqrt(vh)+1e-8)
            ok = d & (np.sqrt(vh) > 1e-3*np.max(np.sqrt(vh[d]))) & (np.sqrt(vh) > 1e-4)
            tol = 1e-2*step if nl else 1e-5*step
            if not ok.any():
                continue
        want = np.where(d, np.clip(new, 0, 1), rho)
        mon.le('gradient ascent step' if method == 'GD' else 'ADAM step', float(np.max(np.abs(states[k+1]-want)[ok])), tol, 'step %d of %d' % (k, N))
        mon.same('outside of the design region', states[k+1][~d], rho[~d])
    mon.event('steps of long runs', N)
