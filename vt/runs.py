"""Random optimization runs."""
import numpy as np
from . import gen, adj
from .gen import choice


def problem(rng, pol=None, nl=None, **kw):
    """a real (lossless) optimization problem with some absorbing layer"""
    pol = pol or choice(rng, ['Ez', 'Hz'])
    nl = (pol == 'Ez' and rng.random() < .35) if nl is None else nl
    if nl:
        pol = 'Ez'
    NPML = [int(rng.integers(5, 8)), choice(rng, [0, int(rng.integers(5, 8))])]
    if rng.random() < .5:
        NPML.reverse()
    kw.setdefault('maxinner', 14 if nl else 18); kw.setdefault('mininner', 8)
    lo, hi = kw.pop('mininner'), kw.pop('maxinner')
    N = [2*q+int(rng.integers(lo, hi+1)) for q in NPML]
    if rng.random() < .06:
        ax = 0 if NPML[0] == 0 else 1           # one-dimensional, still with layers along the other axis
        if NPML[1-ax]:
            N[ax] = 1; NPML[ax] = 0
    cfg = gen.Cfg(rng, pol=pol, lossy=False, NPML=NPML, N=N, cells=float(rng.uniform(12, 30)))
    return adj.Problem(rng, pol, nl=nl, cfg=cfg, lossy=False, weak=10**rng.uniform(-3.5, -2) if nl else None, **kw)


def normalize(p, rng, top=None):
    """rescale the objective so that the largest gradient at the start is about `top`"""
    s = p.sim()
    g = p.optimization(s).compute_dJ(s, p.design)
    t = float(np.max(np.abs(g*p.design)))
    top = top or 10**rng.uniform(-1, 1)
    k = top/t if t > 0 else 1.0
    J = p.J
    n = len(p.args)
    if n == 1:
        p.J = lambda f: k*J(f)
    elif n == 2:
        p.J = lambda f, g: k*J(f, g)
    else:
        p.J = lambda f, g, h: k*J(f, g, h)
    return t > 0


def recorder():
    from angler import Simulation

    class Recorded(Simulation):
        """calls `watch` before every solve of the watched simulation"""
        watch = None

        def solve_fields(self, *a, **k):
            w = self.__dict__.get('watch_me')
            if w is not None and w[0] == id(self):
                w[1](self)
            return Simulation.solve_fields(self, *a, **k)

        def __deepcopy__(self, memo):
            import copy
            cls = self.__class__
            new = cls.__new__(cls)
            memo[id(self)] = new
            for k, v in self.__dict__.items():
                if k != 'watch_me':
                    new.__dict__[k] = copy.deepcopy(v, memo)
            return new
    return Recorded


def run(opt, method, N, rng=None, **kw):
    opt.run(method=method, Nsteps=N, **kw)
    return opt


METHODS = ['LBFGS', 'lbfgs', 'GD', 'gd', 'ADAM', 'adam', 'Adam']


def consistent(mon, p, sim, prefix='', tol=1e-9):
    e = np.asarray(sim.eps_r)
    mon.close(prefix+'permittivity is the image of the density', e, p.map.eps(np.real(sim.rho)), tol)


class Mild:
    """observes the nonlinear solves of a simulation: beyond some strength (fields far from the linear ones, no convergence)
    solutions are no longer unique, and the result of a solve depends on its starting field"""

    def __init__(self, sim):
        self.worst, self.failed = 0.0, False
        orig = sim.solve_fields_nl

        def solve(*a, **k):
            r = orig(*a, **k)
            self.see(sim, r[2], r[3], k.get('conv_threshold', 1e-10))
            return r
        sim.solve_fields_nl = solve

    def see(self, sim, Ez, conv, thr):
        from .nl import converged
        self.failed = self.failed or not converged(conv, thr)[1]
        lin = sim.fields[sim.pol]
        if lin is not None:
            n = float(np.linalg.norm(lin))
            self.worst = max(self.worst, float(np.linalg.norm(np.asarray(Ez)-lin))/n if n else 0.0)

    def ok(self):
        return not self.failed and self.worst < .3
