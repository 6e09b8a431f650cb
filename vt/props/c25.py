import numpy as np
from .. import gen, adj, runs
from ..gen import choice

TAIL = 0.02
PLAN = {'quick': {'scan': 160, 'peak': 160}, 'thorough': {'scan': 3000, 'peak': 3000}}
FLOORS = {'frequencies': 100, 'objective': 300, 'linewidth': 80}
RULE = ('Random scans (2 to 40 frequencies, relative widths up to 1, linear and nonlinear, lossy and resonant structures): every frequency and objective against an independent simulation, '
        'the linewidth against a recount of the returned objectives.')


def snapshot(sim):
    d = {}
    for k, v in sim.__dict__.items():
        if isinstance(v, np.ndarray):
            d[k] = np.array(v)
        elif k in ('omega', 'dl', 'L0', 'pol', 'NPML', 'Nx', 'Ny', 'W_in'):
            d[k] = repr(v)
    for g in ('fields', 'fields_nl'):
        for k, v in getattr(sim, g).items():
            d[g+k] = None if v is None else np.array(v)
    d['A'] = sim.A.toarray() if sim.A.shape[0] < 400 else sim.A.data.copy()
    d['n'] = (len(sim.nonlinearity), len(sim.modes))
    return d


def unchanged(mon, sim, before):
    now = snapshot(sim)
    mon.ok('simulation unchanged', set(now) == set(before), str(set(now) ^ set(before)))
    for k, v in before.items():
        if isinstance(v, np.ndarray):
            mon.ok('simulation unchanged', now[k] is not None, k)
            mon.same('simulation unchanged', now[k], v, k)
        else:
            mon.ok('simulation unchanged', now[k] is None if v is None else now[k] == v, k)


def case(kind, rng, mon, tier):
    nl = rng.random() < .25 and kind == 'scan'
    pol = 'Ez' if nl else choice(rng, ['Ez', 'Hz'])
    p = adj.Problem(rng, pol, nl=nl, maxinner=14, maxpml=7, tanh=False, R=False, weak=10**rng.uniform(-4, -2) if nl else None)
    p.describe(mon)
    Nf = int(choice(rng, [2, 3, 4, 5, 6, 7, 10, 11, int(rng.integers(8, 40))])) if not nl else int(rng.integers(2, 7))
    df = choice(rng, [1/20, float(10**rng.uniform(-6, 0))])
    mon.param(Nf=Nf, df=df)
    if kind == 'peak':
        # an objective that is peaked (or oscillates) about its value at the operating frequency
        import autograd.numpy as npa
        Nf = int(rng.integers(3, 30))
        a = p.args[0][0]; p.args = p.args[:1]
        q = np.unravel_index(int(np.argmax(np.abs(p.lin[a]))), p.c.N) if rng.random() < .3 else tuple(int(rng.integers(n)) for n in p.c.N)
        z0 = abs(p.lin[a][q]) or 1.0
        s = p.c.build(eps=p.eps(p.rho), omega=p.c.omega*(1+.4*df))
        z1 = abs(gen.fields(s, s.solve_fields())[a][q])
        w = max(1e-9, abs(z1/z0-1))*10**rng.uniform(-1.5, .5)
        osc = bool(rng.random() < .4); off = float(rng.uniform(-1, 1))*w
        p.J = (lambda f: 1+npa.cos((npa.abs(f[q])/z0-1)/w)) if osc else (lambda f: 1/(1+((npa.abs(f[q])/z0-1-off)/w)**2))
        mon.param(Nf=Nf, w=w, osc=osc)
    sign = -1 if kind == 'scan' and rng.random() < .15 else 1
    if sign < 0:
        pos = p.J
        p.J = [lambda f: -pos(f), lambda f, g: -pos(f, g), lambda f, g, h: -pos(f, g, h)][len(p.args)-1]
    sim = p.sim(); opt = p.optimization(sim)
    if rng.random() < .5:
        opt.compute_J(sim)
    if rng.random() < .3:
        sim.solve_fields()
    before = snapshot(sim)
    kw = dict(pbar=False) if rng.random() < .8 else {}
    freqs, objs, width = opt.scan_frequency(Nf=Nf, df=df, **kw)
    unchanged(mon, sim, before)
    f0 = p.c.omega/2/np.pi
    mon.ok('frequencies', len(freqs) == Nf and len(objs) == Nf, '%d, %d' % (len(freqs), len(objs)))
    want = f0*(1+df*(np.arange(Nf)/(Nf-1)-.5))
    mon.le('frequencies', float(np.max(np.abs(np.asarray(freqs)/want-1))), 1e-12)
    # an independent simulation at (some of) the frequencies
    idx = range(Nf) if Nf <= 8 else sorted(set(rng.integers(0, Nf, 7)) | {0, Nf-1})
    for i in idx:
        s = p.c.build(eps=p.eps(p.rho), omega=2*np.pi*want[i])
        if p.nlset is not None:
            p.nlset.add(s)
        L = gen.fields(s, s.solve_fields())
        if any(q for _, q in p.args):
            r = s.solve_fields_nl()
            if not (np.asarray(r[3]) < 1e-10).any():
                mon.event('unconverged')
                continue
            NLF = gen.fields(s, r[:3])
        J = float(p.J(*[(NLF if q else L)[a] for a, q in p.args]))
        mon.le('objective', abs(objs[i]-J), (1e-6 if kind == 'scan' else 1e-4)*max(abs(J), 1e-3*float(np.max(np.abs(objs)))), 'frequency %d of %d: %g, expected %g' % (i, Nf, objs[i], J))
    # linewidth: consecutive points around the centre above half of the maximum
    o = np.asarray(objs, float)
    above = o > o.max()/2
    m = Nf//2
    n = 0
    i = m
    while i < Nf and above[i]:
        n += 1; i += 1
    i = m-1
    while i >= 0 and above[i]:
        n += 1; i -= 1
    mon.le('linewidth', abs(width-n*f0*df/(Nf-1)), 1e-9*f0*df+1e-12*f0*(n+1), 'reported %g, counted %d points of %g' % (width, n, f0*df/(Nf-1)))
    mon.event('all points above half maximum' if n == Nf else ('none' if n == 0 else 'peak'))
    # evaluations after the scan are for the simulation again
    J = p.J_fresh(p.rho)
    mon.le('objective after the scan', abs(opt.compute_J(sim)-J), (1e-6 if kind == 'scan' else 1e-4)*max(abs(J), 1e-3*float(np.max(np.abs(o)))))
