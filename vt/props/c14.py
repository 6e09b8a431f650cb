import numpy as np
from .. import gen, ref
from ..gen import choice
from ..nl import NL, converged

PLAN = {'quick': {'formula': 500, 'shift': 260, 'units': 120}, 'thorough': {'formula': 8000, 'shift': 4000, 'units': 2000}}
FLOORS = {'eps_nl': 200, 'index shift': 104, 'derivative by field': 250, 'derivative by permittivity': 200, 'zero outside of the regions': 304}
RULE = ('Random sets of Kerr nonlinearities evaluated on random fields and permittivities, against the formula, finite differences and sums of single ones; '
        'index shifts against an independent fresh simulation solved with another solver; the same physics in other length units.')
ASSUMPTIONS = ['derivatives are taken at real permittivities']


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon, tier)


def do_formula(rng, mon, tier):
    L0 = choice(rng, [1e-6, 1e-9, 1e-3, 1.0])
    N = tuple(int(n) for n in rng.integers(1, 14, 2))
    if N == (1, 1):
        N = (4, 5)
    pol = choice(rng, ['Ez', 'Ez', 'Hz'])
    c = gen.Cfg(rng, pol=pol, NPML=[0, 0], N=N, L0=L0, lossy=False)
    sim = c.build()
    n = int(rng.integers(1, 5))
    c.describe(mon, n=n)
    terms = []
    e = (rng.standard_normal(N)+1j*rng.standard_normal(N))*10**rng.uniform(-3, 3)
    if rng.random() < .2:
        e = np.real(e)
    for _ in range(n):
        r = choice(rng, [lambda: (rng.random(N) < .4)*1.0, lambda: np.ones(N), lambda: rng.random(N), lambda: (rng.random(N) < .4)])()
        s = bool(rng.random() < .5); em = float(rng.uniform(2, 13))
        chi = 10**rng.uniform(-3, 0)*choice(rng, [1, 1, -1])*L0**2
        terms.append((chi, r, s, em))
        sim.add_nl(chi, r, eps_scale=s, **({'eps_max': em} if s or rng.random() < .5 else {}))
    def total(e, eps, which=None):
        t = np.zeros(N)
        for i, (chi, r, s, em) in enumerate(terms):
            if which is not None and i != which:
                continue
            t = t+3*chi*np.abs(e/L0)**2*r*((eps-1)/(em-1) if s else 1)
        return t
    eps = c.eps
    sim.compute_nl(np.array(e))
    mon.close('eps_nl', sim.eps_nl, total(e, eps), 1e-12)
    out = np.all([np.asarray(t[1]) == 0 for t in terms], axis=0)
    mon.ok('zero outside of the regions', not np.any(np.asarray(sim.eps_nl)[out]) and not np.any((np.asarray(sim.dnl_de)*np.ones(N))[out])
           and not np.any((np.asarray(sim.dnl_deps)*np.ones(N))[out]))
    # Anl is the diagonal that the nonlinear permittivity adds to the system matrix of Ez
    d = sim.Anl.diagonal()
    mon.close('system matrix term', d, c.omega**2*ref.EPS0*L0*total(e, eps).ravel(), 1e-12)
    mon.close('system matrix term', sim.Anl.toarray(), np.diag(d), 1e-14)
    de, deps = np.array(sim.dnl_de), np.array(np.asarray(sim.dnl_deps)*np.ones(N))
    # derivative by the field: d eps_nl = 2 Re(dnl_de * de)
    h = 1e-5*max(1e-300, np.max(np.abs(e)))
    for u in (1, 1j, np.exp(1j*rng.random(N)*6)):
        sim.compute_nl(e+h*u); a = np.array(sim.eps_nl)
        sim.compute_nl(e-h*u); b = np.array(sim.eps_nl)
        mon.close('derivative by field', 2*np.real(de*u), (a-b)/2/h, 1e-7, scale=max(np.max(np.abs(de)), 1e-300))
    # derivative by permittivity
    ke = 1e-4
    sim.eps_r = eps+ke; sim.compute_nl(e); a = np.array(sim.eps_nl)
    sim.eps_r = eps-ke; sim.compute_nl(e); b = np.array(sim.eps_nl)
    sc = max(np.max(np.abs(total(e, 1+0*eps))), np.max(np.abs(deps)), np.max(np.abs(a)))
    mon.close('derivative by permittivity', deps, (a-b)/2/ke, 1e-9, scale=sc if sc else 1)
    # single nonlinearities add up
    s = 0; sd = 0; sp = 0
    for chi, r, k, em in terms:
        t = c.build(); t.add_nl(chi, r, eps_scale=k, eps_max=em); t.compute_nl(e)
        s = s+t.eps_nl; sd = sd+t.dnl_de; sp = sp+t.dnl_deps*np.ones(N)
    sim.eps_r = eps; sim.compute_nl(e)
    mon.close('sum of contributions', sim.eps_nl, s, 1e-12)
    mon.close('sum of contributions', sim.dnl_de, sd, 1e-12)
    mon.close('sum of contributions', np.asarray(sim.dnl_deps)*np.ones(N), sp, 1e-12)


def do_shift(rng, mon, tier):
    p = NL(rng, shift=10**rng.uniform(-4, -1.3))
    c = p.c
    c.describe(mon, shift=p.shift, n=len(p.terms))
    sim = p.build()
    if rng.random() < .5:
        sim.solve_fields_nl(solver_nl=choice(rng, ['born', 'newton']))
    if rng.random() < .3:
        s = np.array(sim.src); sim.src = s*3; sim.solve_fields(); sim.src = s
    if rng.random() < .5:
        # the state was different before: another source, fewer nonlinearities, another permittivity
        k = choice(rng, ['src', 'src', 'nl', 'eps'])
        mon.event('history: '+k)
        if k == 'src':
            s = np.array(sim.src); sim.src = s*choice(rng, [.3, .5j, -.7, 0]); sim.compute_index_shift(); sim.src = s
        elif k == 'nl':
            last = sim.nonlinearity.pop(); sim.compute_index_shift(); sim.nonlinearity.append(last)
        else:
            sim.eps_r = np.ones(c.N)*(1-.01j); sim.compute_index_shift(); sim.eps_r = np.array(c.eps)
    dn = sim.compute_index_shift()
    t = p.build()
    r = t.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12)
    if not (converged(r[3], 1e-10)[1]):
        mon.event('unconverged')
        return
    # the same branch must have been found (hybrid starts with Born)
    if np.max(np.abs(sim.fields_nl['Ez']-r[2])) > 1e-6*np.max(np.abs(r[2])):
        mon.event('another branch'); return
    enl = p.eps_nl(r[2])
    want = np.abs(np.sqrt(np.real(c.eps+enl))-np.sqrt(np.real(c.eps)))
    mon.ok('real and non-negative', np.isrealobj(dn) and (np.asarray(dn) >= 0).all())
    mon.close('index shift', dn, want, 1e-6, scale=max(np.max(want), 1e-9))
    out = np.all([np.asarray(t[1]) == 0 for t in p.terms], axis=0)
    mon.ok('zero outside of the regions', not np.any(np.asarray(dn)[out]))
    for k in p.lin:
        mon.close('linear fields solved too', sim.fields[k], p.lin[k], 1e-9)


def do_units(rng, mon, tier):
    """the same physical system described in another length unit has the same index shift"""
    c = gen.Cfg(rng, pol='Ez', maxinner=14, maxpml=7, cells=float(rng.uniform(12, 30)))
    if not any(c.NPML):
        c.eps = c.eps*(1-.05j)
    p = NL(rng, cfg=c, shift=10**rng.uniform(-3, -1.5))
    k = choice(rng, [1e3, 1e-3, 10.0, 0.37])
    c.describe(mon, k=k, shift=p.shift)
    a = p.build()
    dn = a.compute_index_shift()
    b = c.build(dl=c.dl/k, L0=c.L0*k)
    # fields in V/L0: the current density of the same source, per unit area, scales as k**2 (in A/L0**2)
    b.src = c.src*k**2*1.0
    F = gen.fields(b, b.solve_fields())['Ez']
    # E in V per L0 grows by k
    mon.close('fields scale with the unit', F, p.lin['Ez']*k, 1e-7)
    p.add(b)
    mon.close('index shift in another unit', b.compute_index_shift(), dn, 1e-6, scale=max(np.max(dn), 1e-9))
