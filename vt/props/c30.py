import numpy as np
from .. import gen
from ..gen import choice, Cfg

PLAN = {'quick': {'history': 350, 'random': 150}, 'thorough': {'history': 12000, 'random': 5000}}
FLOORS = {'other pixels kept': 400, 'style': 400, 'density': 400, 'rebuilt': 200, 'symmetric': 60}
RULE = ('Random base permittivities (real, complex, integer, one-dimensional), regions of every form and dtype, and sequences of initializations with changing region, maximum permittivity and style, '
        'interleaved with solves; the permittivity, density and fields are compared with a reference after every step.')


def base(rng):
    c = Cfg(rng, maxinner=16, mininner=4, maxpml=6)
    e = np.array(c.eps)
    r = rng.random()
    if r < .15:
        e = np.ones(c.N, int)*int(rng.integers(1, 13))
    elif r < .25:
        e = np.round(np.real(e)).astype(int)
    elif r < .4:
        e = e*(1-.1j*rng.random(c.N))
    elif r < .5:
        e = np.asfortranarray(e)
    c.eps = e
    return c


def region(rng, N):
    k = choice(rng, ['box', 'box', 'pixels', 'all', 'one', 'none', 'symmetric'])
    d = np.zeros(N)
    if k == 'box':
        x = sorted(rng.integers(0, N[0], 2)); y = sorted(rng.integers(0, N[1], 2))
        d[x[0]:x[1]+1, y[0]:y[1]+1] = 1
    elif k == 'pixels':
        d = (rng.random(N) < rng.uniform(.1, .9))*1.
    elif k == 'all':
        d[:] = 1
    elif k == 'one':
        d[int(rng.integers(N[0])), int(rng.integers(N[1]))] = 1
    elif k == 'symmetric':
        x = sorted(rng.integers(0, N[0], 2)); y = int(rng.integers(0, (N[1]+1)//2))
        d[x[0]:x[1]+1, y:N[1]-y] = 1
    dt = choice(rng, [float, float, int, bool, np.float32])
    d = d.astype(dt)
    if rng.random() < .2:
        d = np.asfortranarray(d)
    return d, k


def verify(mon, rng, sim, before, D, eps_m, style, c):
    e = np.asarray(sim.eps_r); d = np.asarray(D) == 1
    mon.ok('other pixels kept', e.shape == before.shape, str(e.shape))
    mon.same('other pixels kept', e[~d].astype(complex), before[~d].astype(complex), style)
    v = e[d]
    if style in ('full', 'halfway', 'empty'):
        want = dict(full=eps_m, halfway=(1+eps_m)/2, empty=1.0)[style]
        mon.close('style', v, np.full(v.shape, want), 1e-14, msg=style)
    elif style == '':
        mon.same('style', v.astype(complex), before[d].astype(complex), 'no style')
    else:
        mon.ok('style', np.all(np.imag(v) == 0) and np.all(np.real(v) >= 1-1e-12) and np.all(np.real(v) <= eps_m*(1+1e-12)), 'values between 1 and the maximum')
        w = np.real(v)
        if style == 'random_sym':
            m = np.real(np.fliplr(e)); both = d & np.fliplr(d)
            mon.le('symmetric', float(np.max(np.abs(np.real(e)-m)[both])) if both.any() else 0.0, 1e-12*eps_m)
        n = w.size
        if n >= 40:
            q = (w-1)/(eps_m-1)
            mon.ok('random', np.unique(np.round(q, 9)).size >= n/2.5, '%d values in %d pixels' % (np.unique(np.round(q, 9)).size, n))
            mon.ok('random', (n < 200 or np.ptp(q) > .3) and abs(q.mean()-.5) < .35, 'mean %g, range %g' % (q.mean(), np.ptp(q)))
            t = .4 if style == 'random_sym' else .15        # (missed by chance less than once in 1e14 fills)
            mon.ok('random', n < 200 or (q.min() < t and q.max() > 1-t), '%g to %g' % (q.min(), q.max()))
    mon.close('density', np.asarray(sim.rho), (e-1)/(eps_m-1), 1e-13)


def case(kind, rng, mon, tier):
    c = base(rng)
    c.with_source(rng)
    given = np.array(c.eps)
    sim = c.build(eps=c.eps)
    mon.param(N=list(c.N), pol=c.pol, dtype=str(c.eps.dtype))
    log = []
    for step in range(int(rng.integers(1, 5)) if kind == 'history' else 1):
        D, k = region(rng, c.N)
        if kind == 'random':
            D = np.zeros(c.N); D[:, :] = rng.random(c.N) < .9 if rng.random() < .3 else 1; k = 'large'
        D = gen.mask(D)
        eps_m = choice(rng, [float(rng.uniform(1.2, 13)), int(rng.integers(2, 13))])
        style = choice(rng, ['full', 'halfway', 'empty', 'random', 'random_sym', '']) if kind == 'history' else choice(rng, ['random', 'random_sym'])
        log.append([style, k, eps_m])
        mon.param(steps=log)
        if rng.random() < .5:
            sim.solve_fields()
            if rng.random() < .3:
                sim.solve_fields_nl(solver_nl='born', max_num_iter=2)
        before = np.array(sim.eps_r); held = sim.eps_r; D0 = np.array(D)
        if style == '' and rng.random() < .5:
            sim.init_design_region(D, eps_m)
        else:
            sim.init_design_region(D, eps_m, style=style)
        verify(mon, rng, sim, before, D, eps_m, style, c)
        mon.same('arguments kept', D, D0); mon.same('arguments kept', held, before); mon.same('arguments kept', c.eps, given)
        if style != '':
            mon.ok('rebuilt', all(v is None for v in sim.fields.values()) and all(v is None for v in sim.fields_nl.values()), 'fields of the previous permittivity are still there')
        f = c.build(eps=np.array(sim.eps_r))
        a, b = sim.solve_fields(), f.solve_fields()
        for x, y in zip(a, b):
            mon.close('rebuilt', x, y, 1e-6, scale=max(float(np.max(np.abs(b[2])))*1e-12, float(np.max(np.abs(y))), float(np.max(np.abs(x))))+1e-300)
        if kind == 'random':
            again = np.array(sim.eps_r)
            sim.init_design_region(D, eps_m, style=style)
            verify(mon, rng, sim, before, D, eps_m, style, c)
            if (D == 1).sum() >= 4:
                mon.ok('random', not np.array_equal(again, sim.eps_r), 'the same values every time')
