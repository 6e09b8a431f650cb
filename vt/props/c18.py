import numpy as np
from .. import gen, filt
from ..gen import choice

PLAN = {'quick': {'dense': 500, 'laws': 500, 'optimization': 60}, 'thorough': {'dense': 6000, 'laws': 5000, 'optimization': 1000}}
FLOORS = {'filter matrix': 200, 'uniform densities preserved': 250, 'commutes with translations': 60}
RULE = ('Filter matrices of random grids, design regions, boundary conditions and radii against a dense reference built from the definition, and their laws '
        '(uniform, minimum/maximum, linear, monotone, untouched pixels, translations) on random densities.')


def setup(rng, small=True):
    NPML = [0 if rng.random() < .5 else int(rng.integers(1, 6)) for _ in range(2)]
    R = int(rng.integers(1, 6)) if rng.random() < .85 else int(rng.integers(6, 15))
    N = [int(rng.integers(1, 13)) if p == 0 else 2*p+int(rng.integers(1, 2*R+12)) for p in NPML]
    Nx, Ny = N
    k = choice(rng, ['all', 'box', 'pixels', 'band', 'one'])
    d = np.zeros(N)
    if k == 'all':
        d[:] = 1
    elif k == 'box':
        x = sorted(rng.integers(0, Nx, 2)); y = sorted(rng.integers(0, Ny, 2)); d[x[0]:x[1]+1, y[0]:y[1]+1] = 1
    elif k == 'pixels':
        d = (rng.random(N) < .5)*1.0
    elif k == 'band':
        a = int(rng.integers(Nx)); d[a:a+max(1, Nx//3), :] = 1
    else:
        d[int(rng.integers(Nx)), int(rng.integers(Ny))] = 1
    if rng.random() < .2:
        d = d.astype(int)
    else:
        d = gen.mask(d)
    return NPML, R, tuple(N), d, k


def case(kind, rng, mon, tier):
    from angler import filter as F
    globals()['do_'+kind](rng, mon, F)


def do_dense(rng, mon, F):
    NPML, R, N, d, k = setup(rng)
    mon.param(NPML=NPML, R=R, N=list(N), design=k, pixels=int(np.sum(d)))
    keep = np.array(d)
    W = F.get_W(N[0], N[1], d, NPML=list(NPML), R=R)
    mon.same('caller arrays', d, keep)
    ref = filt.filter_matrix(N, d, NPML, R)
    mon.close('filter matrix', W.toarray() if hasattr(W, 'toarray') else np.asarray(W), ref, 1e-12)
    mon.event('filtered rows', int(np.sum(np.any(ref != np.eye(ref.shape[0]), axis=1))))
    mon.event('untouched rows', int(np.sum(np.all(ref == np.eye(ref.shape[0]), axis=1))))
    rho = rng.random(N)
    mon.close('filtered density', F.rho2rhot(rho, W), (ref@rho.ravel()).reshape(N), 1e-12)


def do_laws(rng, mon, F):
    NPML, R, N, d, k = setup(rng)
    mon.param(NPML=NPML, R=R, N=list(N), design=k, pixels=int(np.sum(d)))
    W = F.get_W(N[0], N[1], d, NPML=list(NPML), R=R)
    f = lambda r: F.rho2rhot(r, W)
    u = float(rng.random())
    mon.close('uniform densities preserved', f(np.full(N, u)), np.full(N, u), 1e-12, scale=1)
    mon.close('uniform densities preserved', f(np.ones(N)), np.ones(N), 1e-12, scale=1)
    a, b = rng.random(N), rng.random(N)
    fa = f(a)
    mon.ok('between minimum and maximum', fa.min() >= a.min()-1e-12 and fa.max() <= a.max()+1e-12)
    mon.close('untouched outside of the design region', fa[d != 1], a[d != 1], 1e-14)
    x, y = rng.standard_normal(2)
    mon.close('linear', f(x*a+y*b), x*fa+y*f(b), 1e-12, scale=abs(x)+abs(y))
    mon.ok('monotone', (f(a+b*.1) >= fa-1e-12).all())
    # reach: a single raised pixel is felt only within the radius (along wrapped distances)
    i, j = int(rng.integers(N[0])), int(rng.integers(N[1]))
    e = np.zeros(N); e[i, j] = 1
    fe = f(e)
    ax = [np.abs(np.arange(N[0])-i), np.abs(np.arange(N[1])-j)]
    for q in (0, 1):
        if NPML[q] == 0:
            ax[q] = np.minimum(ax[q], N[q]-ax[q])
    dist = np.hypot(ax[0][:, None], ax[1][None, :])
    mon.ok('nothing beyond the radius', not np.any(fe[dist >= R]))
    mon.ok('weights are not negative', (fe >= 0).all())
    # weights fall with distance: same pixel, nearer neighbour weighs more (away from double wrapping)
    for q in (0, 1):
        if NPML[q] == 0 and np.all(d.any(axis=q) == d.all(axis=q)):
            s = int(rng.integers(1, N[q]+1))
            mon.close('commutes with translations', f(np.roll(a, s, q)), np.roll(fa, s, q), 1e-12, scale=1)


def do_optimization(rng, mon, F):
    """the filter that an optimization uses"""
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    c = gen.Cfg(rng, maxinner=14, maxpml=6, lossy=False)
    d = gen.design(rng, c, margin=0)
    R = choice(rng, [None, 1, 2, 3])
    c.describe(mon, R=R)
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)), [obj_arg('e', c.pol)]), c.build(), d, R=R)
    ref = filt.filter_matrix(c.N, d, c.NPML, R)
    mon.close('filter matrix of an optimization', np.real(o.W.toarray()), ref, 1e-6)
    r = rng.random(c.N)
    mon.close('filter matrix of an optimization', np.real(F.rho2rhot(r, o.W)), (ref@r.ravel()).reshape(c.N), 1e-6)
