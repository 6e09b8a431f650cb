"""Random objectives, optimizations and finite-difference derivatives."""
import numpy as np
from . import gen
from .gen import choice
from .filt import Map


def make_terms(rng, N, scales, inner):
    """one smooth scalar of one field per argument"""
    import autograd.numpy as npa
    terms, names = [], []
    x0, x1, y0, y1 = inner
    for s in scales:
        kind = choice(rng, ['power', 'overlap', 'real', 'imag', 'quartic', 'norm'])
        w = np.zeros(N); m = np.zeros(N)
        sh = choice(rng, ['all', 'box', 'pixel', 'line'])
        if sh == 'all':
            m[x0:x1, y0:y1] = 1
        elif sh == 'box':
            m = gen.design(rng, type('C', (), dict(N=N, inner=staticmethod(lambda margin: inner)))())
        elif sh == 'pixel':
            m[int(rng.integers(x0, x1)), int(rng.integers(y0, y1))] = 1
        else:
            if rng.random() < .5:
                m[int(rng.integers(x0, x1)), y0:y1] = 1
            else:
                m[x0:x1, int(rng.integers(y0, y1))] = 1
        w = m*rng.uniform(.3, 1, N)/max(1, m.sum())
        cx = w*np.exp(2j*np.pi*rng.random(N))
        if sh == 'line':
            cx = w+0j
        t = {'power': lambda f, w=w, s=s: npa.sum(w*npa.abs(f/s)**2),
             'overlap': lambda f, c=cx, s=s: npa.abs(npa.sum(c*f/s))**2,
             'real': lambda f, c=cx, s=s: npa.real(npa.sum(c*f/s)),
             'imag': lambda f, c=cx, s=s: npa.imag(npa.sum(c*f/s)),
             'quartic': lambda f, w=w, s=s: npa.sum(w*npa.abs(f/s)**4),
             'norm': lambda f, w=w, s=s: npa.sqrt(1e-2+npa.sum(w*npa.real(f*npa.conj(f))/s**2))}[kind]
        terms.append(t); names.append(kind+' '+sh)
    if len(scales) > 1 and rng.random() < .12:
        # arguments whose partial derivatives are the same arrays: the same weights of fields, sources and the total
        part, s = choice(rng, [npa.real, npa.imag]), max(scales)
        terms = [lambda f: part(npa.sum(cx*f/s))]*len(scales)
        names = ['same '+sh]*len(scales)
        terms[0].tied = True
    return terms, names


def make_J(rng, terms, wild=False):
    """function with exactly one positional parameter per term"""
    import autograd.numpy as npa
    comb = choice(rng, ['sum', 'product', 'ratio', 'log', 'cross'])
    a = rng.uniform(-2, 2, len(terms))
    amp = 10.0**rng.integers(-2, 3)
    if wild and abs(a[0])*1e3 % 1 < .2:
        # (objectives are in any unit)
        amp = 10.0**(60*(abs(a[0])*1e5 % 1)-40)
    if getattr(terms[0], 'tied', False) and rng.random() < .7:
        comb = 'sum'; a[:] = a[0]

    def J(*f):
        q = [t(x) for t, x in zip(terms, f)]
        if comb == 'sum':
            v = sum(c*x for c, x in zip(a, q))
        elif comb == 'product':
            v = 1
            for x in q:
                v = v*(1+x)
        elif comb == 'ratio':
            v = q[0]/(1+sum(x*x for x in q[1:])) if len(q) > 1 else q[0]/(1+q[0]**2)
        elif comb == 'log':
            v = npa.log1p(sum(x*x for x in q))
        else:
            v = sum(c*x for c, x in zip(a, q))+sum(q[i]*q[i-1] for i in range(len(q)))
        return amp*v
    if len(terms) == 1:
        return (lambda f: J(f)), comb
    if len(terms) == 2:
        return (lambda f, g: J(f, g)), comb
    if len(terms) == 3:
        return (lambda f, g, h: J(f, g, h)), comb
    return (lambda f, g, h, k: J(f, g, h, k)), comb


class Problem:
    """a random optimization problem; J(rho) is evaluated on freshly built simulations with the reference density map"""

    def __init__(self, rng, pol, nl=False, maxargs=3, comps=None, nlmix=None, weak=None, tanh=True, lossy=None, cfg=None, tight=True, R=True, steep=False, wild=False, **kw):
        from .nl import NL
        if cfg is None:
            kw.setdefault('maxinner', 22); kw.setdefault('maxpml', 9); kw.setdefault('mininner', 9)
            kw.setdefault('cells', float(rng.uniform(12, 30)))
            cfg = gen.Cfg(rng, pol=pol, lossy=False, **kw)
        c = self.c = cfg
        c.with_source(rng, choice(rng, ['point', 'line', 'dense']), margin=1)
        self.eps_m = float(rng.uniform(2, 12))
        self.design = gen.design(rng, c, margin=choice(rng, [0, 1, 2]))
        self.R = choice(rng, [None, None, 1, 2, 3, 4]) if R else None
        if self.R is None and any(c.NPML) and rng.random() < .2:
            # a region that extends into the absorbing layers
            self.design = gen.design(rng, c, margin=-int(rng.integers(1, min(n for n in c.NPML if n)+1)), frac=1)
        self.eta = float(rng.uniform(.2, .8)); self.beta = choice(rng, [1e-9, 1e-3, 1., 4., 12.]) if tanh else 1e-9
        if steep:
            # (as the notebooks have it; densities within the step)
            self.beta = choice(rng, [30., 100., 300.])
        self.map = Map(c.N, self.design, c.NPML, self.eps_m, self.R, self.eta, self.beta)
        self.rho = rng.uniform(0, 1, c.N) if rng.random() < .5 else np.clip(gen.smooth(rng, c.N, 1), 0, 1)
        if rng.random() < .3:
            self.rho = np.where(self.design == 1, self.rho, 0)
        r = rng.random()
        if r < .25:
            # the initial structures of init_design_region, and densities at their bounds
            v = choice(rng, [0., 1., .5, np.round(rng.random(c.N)), np.clip(rng.uniform(-.5, 1.5, c.N), 0, 1)])
            self.rho = np.where(self.design == 1, v, self.rho)
        if steep:
            self.rho = self.eta+rng.uniform(-2, 2, c.N)/self.beta
        loss = rng.random() < .3 if lossy is None else lossy
        if not any(c.NPML):
            loss = True
        self.loss = 0
        if loss:
            self.loss = -0.1j*rng.random(c.N)*(self.design != 1)-(.02j if not any(c.NPML) else 0)
        self.nlset = None
        c.eps = self.eps(self.rho)
        if nl:
            self.nlset = NL(rng, cfg=c, shift=weak or 10**rng.uniform(-3.5, -1.5), scale=False if loss else None)
        lin = c.build()
        F = self.lin = gen.fields(lin, lin.solve_fields())
        names = gen.FIELDS[c.pol]
        nargs = int(rng.integers(1, maxargs+1))
        self.args = []
        for i in range(nargs):
            comp = choice(rng, comps or names)
            if np.max(np.abs(F[comp])) <= 1e-6*max(np.max(np.abs(F[k])) for k in F if (k[0] == comp[0])):
                comp = c.pol
            self.args.append((comp, bool(nl) and (i == 0 or rng.random() < .5)))
        if nlmix:
            self.args = nlmix
        if nl and rng.random() < .5:
            self.args.reverse()
        # fields are weighed by the largest value within the layers
        x0, x1, y0, y1 = c.inner(0)
        sc = [float(np.max(np.abs(F[a][x0:x1, y0:y1]))) or 1.0 for a, _ in self.args]
        terms, self.tn = make_terms(rng, c.N, sc, c.inner(0))
        self.J, self.comb = make_J(rng, terms, wild)

    def describe(self, mon):
        self.c.describe(mon, eps_m=self.eps_m, R=self.R, eta=self.eta, beta=self.beta, args=['%s%s' % (a, ' nl' if n else '') for a, n in self.args],
                        terms=self.tn, comb=self.comb, pixels=int(self.design.sum()), loss=bool(np.any(self.loss)),
                        nl=None if self.nlset is None else [[t[2], self.nlset.shift] for t in self.nlset.terms])

    def eps(self, rho):
        return self.map.eps(rho)+self.loss

    def sim(self, rho=None, src=None):
        rho = self.rho if rho is None else rho
        s = self.c.build(eps=self.eps(rho), src=src)
        if self.nlset is not None:
            self.nlset.add(s)
        s.rho = gen.maybe_layout(np.array(rho))
        return s

    def objective(self):
        from angler.objective import Objective, obj_arg
        return Objective(self.J, [obj_arg('arg%d' % i, component=a, nl=n) for i, (a, n) in enumerate(self.args)])

    def optimization(self, sim, **kw):
        from angler import Optimization
        return Optimization(self.objective(), sim, gen.mask(self.design), eps_m=self.eps_m, R=self.R, eta=self.eta, beta=self.beta, **kw)

    def J_fresh(self, rho, src=None, thr=1e-13):
        """objective of a fresh simulation (no Optimization, no Objective)"""
        s = self.sim(rho, src)
        L = gen.fields(s, s.solve_fields())
        if any(n for _, n in self.args):
            r = s.solve_fields_nl(solver_nl='newton', conv_threshold=thr, max_num_iter=12)
            NLF = gen.fields(s, r[:3])
            self.last_conv = float(np.min(np.where(np.asarray(r[3]) > 0, r[3], 1)))
        return float(self.J(*[(NLF if n else L)[a] for a, n in self.args]))

    def derivative(self, v, hs=(3e-3, 3e-4), rho=None):
        """-> (five-point derivative along v, its own error estimate)"""
        rho = self.rho if rho is None else rho
        est = []
        v = np.asarray(v, float)
        for h in hs:
            f = lambda k: self.J_fresh(rho+k*h*v)
            a, b, p, q = f(-2), f(-1), f(1), f(2)
            five = (a-8*b+8*p-q)/12/h
            est.append((five, (p-b)/2/h, 3e-12*max(abs(a), abs(b), abs(p), abs(q))/h))
        # discrepancies between the two step sizes and orders
        (f1, t1, n1), (f2, t2, n2) = est[0], est[-1]
        e = abs(f1-f2)
        return (f1 if n1+abs(f1-f2) < n2 else f2), e+n1


def check_gradient(p, g, mon, rng, name='gradient', tol=2e-5, nrandom=2, npix=3, hs=(3e-3, 3e-4)):
    g = np.asarray(g)
    mon.ok('real array of the grid shape', g.shape == p.c.N and np.isrealobj(g) and np.isfinite(g).all(), str(g.shape))
    d = p.design == 1
    gd = g*d
    pix = np.argwhere(d)
    dirs = []
    top = float(np.max(np.abs(gd)))
    if top > 0:
        dirs.append(('along itself', gd/top))
    for _ in range(nrandom):
        dirs.append(('random signs', d*rng.choice([-1., 1.], p.c.N)))
    chosen = [pix[0], pix[-1]]+[pix[int(rng.integers(len(pix)))] for _ in range(npix)]
    if top > 0:
        chosen.append(np.argwhere(np.abs(gd) == top)[0])
    for q in chosen[-npix:]:
        v = np.zeros(p.c.N); v[tuple(q)] = 1
        dirs.append(('pixel', v))
    nn = float(np.linalg.norm(gd))
    for kind, v in dirs:
        fd, err = p.derivative(v, hs=hs)
        an = float(np.sum(gd*v))
        scale = top if kind == 'pixel' else max(nn*float(np.linalg.norm(v))/np.sqrt(max(1, np.sum(v != 0))), abs(an))
        scale = max(scale, abs(fd))
        if err > 2e-2*scale and scale > 0 or scale == 0 and err > 0:
            if abs(fd-an) <= 5*err:
                mon.event('finite difference too noisy')
                continue
        if scale == 0:
            mon.le(name, abs(fd), 0.0 if err == 0 else 10*err, kind)
            continue
        mon.le(name, abs(fd-an)/scale, tol+10*err/scale, '%s: finite difference %.8g (+-%.2g), gradient %.8g' % (kind, fd, err, an))
        mon.event('sharp (error estimate below 1e-4)' if err < 1e-4*scale else 'blunt')
