import numpy as np
from .. import gen, filt
from ..gen import choice

PLAN = {'quick': {'projection': 900, 'chain': 300, 'utils': 300}, 'thorough': {'projection': 10000, 'chain': 4000, 'utils': 4000}}
FLOORS = {'ends': 900, 'derivative': 487, 'round trip': 300}
RULE = ('Projection, its derivative, and the density/permittivity conversions on random densities, strengths and thresholds, against the formula, '
        'finite differences and their limits; both implementations (angler.filter and angler.utils).')


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon)


def do_projection(rng, mon):
    from angler import filter as F, utils as U
    eta = choice(rng, [.5, float(rng.uniform(0.01, .99)), 0.0, 1.0] if rng.random() < .2 else [float(rng.uniform(.05, .95))])
    beta = 10**rng.uniform(-9, 3)
    N = tuple(int(n) for n in rng.integers(1, 12, 2))
    r = choice(rng, [rng.random(N), np.sort(rng.random(N).ravel()).reshape(N), np.round(rng.random(N))])
    mon.param(eta=eta, beta=beta, N=list(N))
    f = lambda x: F.rhot2rhob(x, eta=eta, beta=beta)
    small = 3e-16/beta
    tol = 1e-12+4*small
    y = f(r)
    mon.close('formula', y, filt.project(r, eta, beta), 1e-10+4*small, scale=1)
    mon.le('ends', abs(f(np.zeros((1, 1)))[0, 0]), tol); mon.le('ends', abs(f(np.ones((1, 1)))[0, 0]-1), tol)
    mon.ok('within [0,1]', y.min() >= -tol and y.max() <= 1+tol)
    g = np.sort(rng.random(40)).reshape(1, -1)
    mon.ok('monotone', (np.diff(f(g)[0]) >= -tol).all())
    if beta < 1e-4:
        mon.le('identity for small strength', float(np.max(np.abs(y-r))), tol+2*beta**2+1e-12)
    if beta > 60:
        far = np.abs(r-eta) > 25/beta
        ends = (np.abs(r-eta) > 0) & far
        if .05 < eta < .95:
            mon.close('step for large strength', y[ends], (r > eta)[ends]*1.0, 1e-9+2*np.exp(-2*beta*min(eta, 1-eta)), scale=1)
    if 1e-5 < beta:
        h = 1e-5/max(1, beta)
        d = F.drhob_drhot(r, eta=eta, beta=beta).reshape(N)
        fd = (f(r+h)-f(r-h))/2/h
        mon.close('derivative', d, fd, 1e-6, scale=max(1., float(np.max(np.abs(fd))))+3e-16/beta/h*1e6)
        mon.ok('derivative is not negative', (d >= 0).all())
    mon.ok('pure', np.array_equal(y, f(r)))
    mon.close('both implementations', np.asarray(U.rho_bar(r, eta=eta, beta=beta)), y, 1e-10+4*small, scale=1)


def do_chain(rng, mon):
    """density -> permittivity of an optimization and the pieces of its chain rule"""
    from angler import filter as F
    N = tuple(int(n) for n in rng.integers(3, 10, 2))
    NPML = [0 if rng.random() < .7 else 1 for _ in range(2)]
    R = int(rng.integers(1, 4)); em = float(rng.uniform(1.2, 13)); eta = float(rng.uniform(.1, .9)); beta = 10**rng.uniform(-2, 1.5)
    d = (rng.random(N) < .7)*1.0
    mon.param(N=list(N), NPML=NPML, R=R, eps_m=em, eta=eta, beta=beta)
    W = F.get_W(N[0], N[1], d, NPML=NPML, R=R)
    r = rng.random(N)
    f = (filt.filter_matrix(N, d, NPML, R)@r.ravel()).reshape(N)
    want = 1+(em-1)*filt.project(f, eta, beta)
    e = F.rho2eps(r, em, W, eta=eta, beta=beta)
    mon.close('permittivity of a density', e, want, 1e-11)
    mon.ok('permittivity within [1, maximum]', e.min() >= 1-1e-9 and e.max() <= em*(1+1e-12)+1e-9)
    mon.close('ends', F.rho2eps(np.zeros(N), em, W, eta=eta, beta=beta), np.ones(N), 1e-9)
    mon.close('ends', F.rho2eps(np.ones(N), em, W, eta=eta, beta=beta), np.full(N, em), 1e-9)
    # monotone in every pixel
    up = F.rho2eps(np.minimum(1, r+.1*rng.random(N)), em, W, eta=eta, beta=beta)
    mon.ok('monotone', (up >= e-1e-9).all())
    mon.close('slope of the permittivity', F.deps_drhob(f, em)*np.ones(N), np.full(N, em-1), 1e-12)
    # derivative of the whole chain along a direction
    v = rng.standard_normal(N); h = 1e-5
    fd = (F.rho2eps(r+h*v, em, W, eta=eta, beta=beta)-F.rho2eps(r-h*v, em, W, eta=eta, beta=beta))/2/h
    an = F.deps_drhob(f, em)*F.drhob_drhot(F.rho2rhot(r, W), eta=eta, beta=beta).reshape(N)*np.real(F.drhot_drho(W).dot(v.ravel())).reshape(N)
    mon.close('derivative', an, fd, 1e-5, scale=max(1e-4*em, float(np.max(np.abs(fd)))))


def do_utils(rng, mon):
    from angler import filter as F, utils as U
    N = tuple(int(n) for n in rng.integers(1, 12, 2)); em = float(rng.uniform(1.1, 13))
    mon.param(N=list(N), eps_m=em)
    r = rng.random(N); e = 1+(em-1)*rng.random(N)
    tol = 1e-12/(em-1)
    mon.close('round trip', F.rhob2eps(F.eps2rho(e, em), em), e, tol)
    mon.close('round trip', F.eps2rho(F.rhob2eps(r, em), em), r, tol, scale=1)
    mon.close('round trip', U.rho_bar2eps(U.eps2rho_bar(e, em), em), e, tol)
    mon.close('round trip', U.eps2rho_bar(U.rho_bar2eps(r, em), em), r, tol, scale=1)
    mon.close('both implementations', U.eps2rho_bar(e, em), F.eps2rho(e, em), tol, scale=1)
    mon.close('both implementations', U.rho_bar2eps(r, em), F.rhob2eps(r, em), 1e-12)
    for g in (F.rhob2eps, U.rho_bar2eps):
        mon.close('ends', g(np.array([[0., 1.]]), em), np.array([[1, em]]), 1e-12)
    for g in (F.eps2rho, U.eps2rho_bar):
        mon.close('ends', g(np.array([[1., em]]), em), np.array([[0., 1.]]), tol)
        mon.ok('increasing', (np.diff(g(np.sort(e.ravel()), em)) >= 0).all())
    mon.le('density slope', abs(U.deps_drho_bar(e, em)*(em-1)-1), 1e-12)
    eta = float(rng.uniform(.1, .9)); beta = 10**rng.uniform(-2, 1.7)
    h = 1e-6/max(1, beta)
    fd = (U.rho_bar(r+h, eta=eta, beta=beta)-U.rho_bar(r-h, eta=eta, beta=beta))/2/h
    d = U.drho_bar_drho(r, eta=eta, beta=beta)
    mon.close('derivative', d, fd, 1e-5, scale=max(1., float(np.max(np.abs(fd)))))
    mon.close('both implementations', d, F.drhob_drhot(r, eta=eta, beta=beta).reshape(N), 1e-9, scale=max(1., float(np.max(np.abs(d)))))
