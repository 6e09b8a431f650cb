import numpy as np
from ..gen import choice
from .. import gen

PLAN = {'quick': {'value': 400, 'gradient': 150, 'order': 150}, 'thorough': {'value': 20000, 'gradient': 6000, 'order': 8000}}
FLOORS = {'factor': 400, 'binary': 98, 'outside does not matter': 300, 'gradient': 150, 'gray is smaller': 150, 'decorator': 150}
RULE = ('Random objectives, design regions, permittivities (binary, gray, mixed), maximum permittivities and strengths, for the three penalties: the factor is recomputed, and its gradient compared with '
        'finite differences; permittivities outside of the region vary.')
KINDS = ['density', 'density_exp', 'smoothness']


def factor(kind, eps, D, eps_m, c):
    r = (eps[D == 1]-1)/(eps_m-1)
    g = 4*np.mean(r*(1-r))
    return np.exp(-c*abs(g)) if kind == 'density_exp' else 1-g


def objective(rng, N):
    import autograd.numpy as npa
    a, b, c = rng.standard_normal(3); w = rng.random(N)
    t = int(rng.integers(4))
    s = float(10.0**rng.integers(-6, 7))
    J = [lambda e, e_nl, eps: s*(a*npa.sum(w*npa.abs(e)**2)+b*npa.sum(npa.abs(e_nl))),
         lambda e, e_nl, eps: s*(a+npa.sum(w*npa.abs(e)**2)*npa.sum(npa.abs(e_nl-e)**2)),
         lambda e, e_nl, eps: s*(b*npa.sum(npa.abs(e)**2)+c*npa.sum(w*eps**2)),
         lambda e, e_nl, eps: s*a][t]
    return J, t


def setup(rng):
    from angler.utils import Binarizer
    N = (int(rng.integers(2, 14)), int(rng.integers(2, 14)))
    D = np.zeros(N)
    if rng.random() < .5:
        x = sorted(rng.integers(0, N[0], 2)); y = sorted(rng.integers(0, N[1], 2))
        D[x[0]:x[1]+1, y[0]:y[1]+1] = 1
    else:
        D = (rng.random(N) < .5)*1.
        D[0, 0] = 1
    eps_m = float(rng.uniform(1.2, 13)); c = choice(rng, [1, 1, float(rng.uniform(.1, 20))])
    D = gen.mask(D)
    b = Binarizer(D, eps_m) if c == 1 else Binarizer(D, eps_m, exp_const=c)
    k = choice(rng, ['binary', 'gray', 'mixed', 'half'])
    r = dict(binary=(rng.random(N) < rng.random())*1., gray=rng.random(N), half=np.full(N, .5),
             mixed=np.where(rng.random(N) < .5, rng.random(N), rng.random(N) < .5))[k]
    eps = 1+(eps_m-1)*r
    out = D != 1
    eps[out] = rng.uniform(.1, 20, int(out.sum()))
    return N, D, eps_m, c, b, k, eps, choice(rng, KINDS)


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon)


def fields(rng, N):
    return [rng.standard_normal(N)+1j*rng.standard_normal(N) for _ in range(2)]


def do_value(rng, mon):
    N, D, eps_m, c, b, k, eps, name = setup(rng)
    J, t = objective(rng, N)
    mon.param(N=N, eps_m=eps_m, c=c, eps=k, penalty=name, J=t, pixels=int(D.sum()))
    e, n = fields(rng, N)
    D0, eps0 = np.array(D), np.array(eps)
    Jb = getattr(b, name)(J)
    v0, v = float(J(e, n, eps)), float(Jb(e, n, eps))
    f = factor(name, eps, D, eps_m, c)
    mon.le('factor', abs(v-v0*f), 1e-11*abs(v0)+1e-300, '%g times %g, expected %g' % (v0, v/v0 if v0 else 0, f))
    if k == 'binary':
        mon.le('binary', abs(v-v0), 1e-12*abs(v0)+1e-300)
    if k == 'half':
        mon.le('factor', abs(v-v0*(np.exp(-c) if name == 'density_exp' else 0)), 1e-11*abs(v0)+1e-300)
    # elsewhere the permittivity, and the fields, make no difference to the factor
    other = np.array(eps); out = D != 1
    other[out] = rng.uniform(.1, 20, int(out.sum()))
    w0 = float(J(e, n, other))
    mon.le('outside does not matter', abs(float(Jb(e, n, other))-w0*f), 1e-11*abs(w0)+1e-300)
    e2, n2 = fields(rng, N)
    u0 = float(J(e2, n2, eps))
    mon.le('outside does not matter', abs(float(Jb(e2, n2, eps))-u0*f), 1e-11*abs(u0)+1e-300)
    # several objectives of one binarizer, and the decorator form
    J2, _ = objective(rng, N)
    dec = getattr(b, name)

    @dec
    def Jd(e, e_nl, eps):
        return J2(e, e_nl, eps)
    x0 = float(J2(e, n, eps))
    mon.le('decorator', abs(float(Jd(e, n, eps))-x0*f), 1e-11*abs(x0)+1e-300)
    # objectives may have further arguments after the permittivity
    more = [other, rng.random(N)*eps_m, 2.5][:int(rng.integers(1, 4))]
    J3 = lambda e, e_nl, eps, *more: J(e, e_nl, eps)+v0*sum(float(np.sum(m)) for m in more)
    z0 = float(J3(e, n, eps, *more))
    mon.le('factor', abs(float(getattr(b, name)(J3)(e, n, eps, *more))-z0*f), 1e-11*abs(z0)+1e-300, 'further arguments')
    for nm in KINDS:
        mon.le('factor', abs(float(getattr(b, nm)(J)(e, n, eps))-v0*factor(nm, eps, D, eps_m, c)), 1e-11*abs(v0)+1e-300, nm)
    mon.le('factor', abs(float(Jb(e, n, eps))-v), 0.0, 'second evaluation')
    mon.same('arguments kept', D, D0); mon.same('arguments kept', eps, eps0)


def do_order(rng, mon):
    N, D, eps_m, c, b, k, eps, name = setup(rng)
    J = lambda e, e_nl, eps: 1.0
    mon.param(N=N, eps_m=eps_m, c=c, penalty=name, pixels=int(D.sum()))
    r = (rng.random(N) < .5)*1.
    e, n = fields(rng, N)
    Jb = getattr(b, name)(J)
    last = float(Jb(e, n, 1+(eps_m-1)*r))
    mon.le('binary', abs(last-1), 1e-12)
    pix = np.argwhere(D == 1)
    for _ in range(5):
        # one pixel moves towards gray
        i, j = pix[int(rng.integers(len(pix)))]
        d = (.5-r[i, j])*rng.uniform(.05, 1)
        if abs(d) < 1e-3:
            continue
        r[i, j] += d
        now = float(Jb(e, n, 1+(eps_m-1)*r))
        mon.ok('gray is smaller', now < last, '%.15g after %.15g' % (now, last))
        mon.ok('between 0 and 1', -1e-12 <= now <= 1)
        last = now


def do_gradient(rng, mon):
    from autograd import grad
    N, D, eps_m, c, b, k, eps, name = setup(rng)
    J, t = objective(rng, N)
    r = rng.uniform(.05, .95, N)
    eps = np.where(D == 1, 1+(eps_m-1)*r, eps)
    mon.param(N=N, eps_m=eps_m, c=c, penalty=name, J=t, pixels=int(D.sum()))
    e, n = fields(rng, N)
    Jb = getattr(b, name)(J)
    g = np.asarray(grad(Jb, 2)(e, n, eps))
    mon.ok('gradient', g.shape == N and np.isfinite(g).all(), str(g.shape))
    f = factor(name, eps, D, eps_m, c)
    for _ in range(3):
        v = rng.standard_normal(N)*(.01 if rng.random() < .5 else .01*D)
        at = lambda x: float(J(e, n, eps+x*v))*factor(name, eps+x*v, D, eps_m, c)
        h = 1e-2
        fd = (at(-2*h)-8*at(-h)+8*at(h)-at(2*h))/12/h
        an = float(np.sum(g*v))
        mon.le('gradient', abs(an-fd), 1e-6*max(abs(fd), float(np.sqrt(np.sum((g*v)**2))))+1e-9*abs(at(0)), '%g, expected %g' % (an, fd))
    if t != 3:
        ge, g0 = np.asarray(grad(Jb, 0)(e, n, eps)), np.asarray(grad(J, 0)(e, n, eps))
        mon.close('gradient', ge, g0*f, 1e-10, scale=float(np.max(np.abs(g0))) or None)
