"""Random Kerr-nonlinear set-ups (Ez polarization) and the reference nonlinear permittivity."""
import numpy as np
from . import gen
from .gen import Cfg, choice


class NL:
    """cfg, source and a list of nonlinearities (chi in physical units, region, eps_scale, eps_max)"""

    def __init__(self, rng, shift=None, n=None, scale=None, real=None, cfg=None, **kw):
        if cfg is None:
            kw.setdefault('maxinner', 20); kw.setdefault('maxpml', 9)
            kw.setdefault('cells', float(rng.uniform(12, 30)))
            cfg = Cfg(rng, pol='Ez', lossy=False if real else None, **kw)
            if not any(cfg.NPML) and not real:
                cfg.eps = cfg.eps*(1-0.05j)
        self.c = cfg
        if cfg.src is None:
            cfg.with_source(rng, margin=1)
        c = cfg
        lin = c.build()
        self.lin = gen.fields(lin, lin.solve_fields())
        peak = float(np.max(np.abs(self.lin['Ez'])))
        self.peak = peak
        if shift is None:
            shift = 10**rng.uniform(-4, -1.5)
        self.shift = shift
        n = n if n is not None else int(rng.integers(1, 4))
        self.terms = []
        x0, x1, y0, y1 = c.inner(0)
        for k in range(n):
            kind = choice(rng, ['design', 'all', 'pixels', 'graded'])
            r = np.zeros(c.N)
            if kind == 'design':
                r = gen.design(rng, c, margin=0)
            elif kind == 'all':
                r[x0:x1, y0:y1] = 1
            elif kind == 'pixels':
                r[x0:x1, y0:y1] = rng.random((x1-x0, y1-y0)) < .3
            else:
                r[x0:x1, y0:y1] = rng.random((x1-x0, y1-y0))
            s = bool(rng.random() < .4) if scale is None else scale
            em = float(np.max(np.real(c.eps))*rng.uniform(1.0, 1.5))+1e-3+(1.0 if np.max(np.real(c.eps)) < 1.2 else 0)
            chi = c.L0**2*shift*rng.uniform(.3, 1)/3/peak**2/n*choice(rng, [1, 1, 1, -1])
            self.terms.append([chi, r, s, em])

    def add(self, sim):
        for chi, r, s, em in self.terms:
            sim.add_nl(chi, gen.mask(r), eps_scale=s, eps_max=em if s else choice_none)
        return sim

    def build(self, **kw):
        return self.add(self.c.build(**kw))

    def eps_nl(self, e, eps=None):
        eps = self.c.eps if eps is None else eps
        t = np.zeros(self.c.N, complex)
        for chi, r, s, em in self.terms:
            v = 3*chi*np.abs(np.asarray(e)/self.c.L0)**2*r
            if s:
                v = v*(eps-1)/(em-1)
            t = t+v
        return t


choice_none = None


def converged(conv, thr):
    """number of iterations done, and whether the history reports convergence"""
    c = np.asarray(conv)[:, 0]
    hit = np.flatnonzero(c < thr)           # (a change of exactly 0 included)
    return (int(hit[0])+1, True) if hit.size else (c.size, False)
