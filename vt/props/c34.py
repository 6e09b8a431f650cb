"""Comparison with closed-form solutions at a spacing and at half of it."""
import numpy as np
from scipy.optimize import brentq
from scipy.special import hankel2
from .. import ref
from ..gen import choice
from ..core import Skip

PLAN = {'quick': {'point': 60, 'line': 250, 'slab': 250, 'guide': 80, 'ring': 150}, 'thorough': {'point': 300, 'line': 2500, 'slab': 2500, 'guide': 600, 'ring': 1500}}
FLOORS = {'point source': 48, 'line source': 200, 'slab transmission': 200, 'slab reflection': 200, 'propagation constant': 56, 'guided field': 56,
          'second order': 380, 'radiated power': 80, 'extrapolated': 120}
RULE = ('Random wavelengths, units, permittivities (lossy included), sizes, orientations and polarizations, each simulated at 11 to 26 cells per wavelength and at twice that, '
        'against: the 2D Green function of a point source; plane waves (normal, oblique, evanescent) of a sheet source with a phase ramp; Fresnel/Airy coefficients of a slab '
        'at normal and oblique incidence, with their phases; the fundamental mode of a slab guide, its propagation constant, profile and absolute amplitude; '
        'and, at four spacings extrapolated to zero, the field of a sheet source in a closed ring (no absorbing layers), to 3e-5.')
ASSUMPTIONS = ['absorbing layers of at least 10 cells (more for the finer grid), waves up to 45 degrees; their reflections enter as an absolute floor of at most 3e-3',
               'guides carry one mode well confined (decay length below 1.2 widths) and are excited by a current with the profile of that mode']


class Setup:
    def __init__(self, rng):
        self.pol = choice(rng, ['Ez', 'Hz'])
        self.L0 = choice(rng, [1e-6, 1e-6, 1e-9, 1e-3, 1.0])
        self.lam = float(rng.uniform(.2, 3))          # vacuum wavelength in L0
        self.k0 = 2*np.pi/self.lam
        self.omega = self.k0*ref.C0/self.L0
        self.ax = int(rng.integers(2))
        # E = i*om*mu*J*G or H = i*om*eps*M*G, lengths in L0
        self.amp = 1j*self.omega*self.L0*(ref.MU0 if self.pol == 'Ez' else ref.EPS0)

    def sim(self, eps, dl, NPML, src):
        from angler import Simulation
        if self.ax:
            eps, src, NPML = np.array(eps.T), np.array(src.T), NPML[::-1]
        s = Simulation(self.omega, eps, dl, list(NPML), self.pol, L0=self.L0)
        s.src = src
        return s

    def run(self, eps, dl, NPML, src, full=False):
        """fields with the propagation axis first"""
        s = self.sim(eps, dl, NPML, src)
        F = s.solve_fields()[2]
        F = F.T if self.ax else F
        return (F, s) if full else F


def draw_eps(rng, top=12., lossy=.25):
    e = float(rng.uniform(1, top)) if rng.random() < .8 else 1.
    if rng.random() < lossy:
        e = e*(1-1j*rng.uniform(0, .06))
    return e


def full(shape, v):
    return np.full(shape, v)


def point(rng, mon):
    s = Setup(rng)
    eps = draw_eps(rng)
    n = np.sqrt(complex(eps)); k = s.k0*n
    cells = float(rng.uniform(11, 24))
    half = rng.uniform(.8, 1.2)
    off = rng.uniform(-.25, .25, 2)
    mon.param(kind='point', pol=s.pol, eps=eps, cells=cells, lam=s.lam, L0=s.L0)
    err = []
    for f, P in ((1, 12), (2, 20)):
        c = cells*f
        dl = s.lam/n.real/c
        N = [2*P+2*int(half*cells)*f+1 for _ in range(2)]
        N[1] += int(.2*cells)*f
        q = [P+f*(int(half*cells)+int(off[i]*cells)) for i in range(2)]
        J = rng.standard_normal()+1j*rng.standard_normal()
        src = np.zeros(N, complex); src[q[0], q[1]] = J
        F = s.run(full(N, eps), dl, [P, P], src)
        R = np.hypot(*np.meshgrid(np.arange(N[0])-q[0], np.arange(N[1])-q[1], indexing='ij'))*dl
        m = np.zeros(N, bool); m[P+2*f:-P-2*f, P+2*f:-P-2*f] = 1
        m &= R > .4*dl*c
        A = s.amp*(eps if s.pol == 'Hz' else 1)*J*dl**2*.25j*hankel2(0, k*np.where(m, R, 1))
        e = np.abs(F[m]/A[m]-1); kr = abs(k)*R[m]
        kd = abs(k)*dl
        mon.le('point source', np.max(e/(.75*kd**2*(.3+kr/24)+3e-3)), 1, 'Green function at %.1f cells per wavelength' % c)
        err.append(e.max())
    mon.le('second order', err[1], .35*err[0]+2e-3, 'errors %g and %g' % tuple(err))


def line(rng, mon):
    s = Setup(rng)
    eps = draw_eps(rng)
    n = np.sqrt(complex(eps)); k = s.k0*n
    cells = float(rng.uniform(11, 26))
    p, m = 0, 1
    if rng.random() < .7:
        m = int(rng.integers(2, 9)) if rng.random() < .4 else int(cells*rng.uniform(.3, 2.5))+2
        # transverse order, below 45 degrees, or well evanescent
        top = int(.7*m/cells)
        p = int(rng.integers(-top, top+1))
        if rng.random() < .2:
            p = int(choice(rng, [-1, 1])*np.ceil(1.3*m/cells))
            if abs(p)/m*cells > 2:
                p = 0
    half = rng.uniform(.6, 2.)
    decays = None
    mon.param(kind='line', pol=s.pol, eps=eps, cells=cells, lam=s.lam, L0=s.L0, m=m, p=p, ax='xy'[s.ax])
    err = []
    for f, P in ((1, 12), (2, 20)):
        c = cells*f
        dl = s.lam/n.real/c
        M = m*f if m > 1 else 1
        kt = 2*np.pi*p/(M*dl)
        kx = np.sqrt(k*k-kt*kt+0j); kx = -kx if kx.imag > 0 else kx
        if kx.imag == 0 and kx.real < 0:
            kx = -kx
        inner = int(2*half*cells)
        N = 2*P+inner*f+1
        q = P+int(inner*.3)*f
        J = rng.standard_normal()+1j*rng.standard_normal()
        src = np.zeros((N, M), complex)
        ramp = np.exp(-1j*kt*dl*np.arange(M))
        src[q] = J*ramp
        F, sim = s.run(full((N, M), eps), dl, [P, 0], src, True)
        x = np.abs(np.arange(N)-q)*dl
        a0 = s.amp*(eps if s.pol == 'Hz' else 1)*J*dl*.5j/kx
        A = (a0*np.exp(-1j*kx*x))[:, None]*ramp
        sl = slice(P+2*f, N-P-2*f)
        kd = max(abs(k), abs(kt))*dl
        if decays is None:
            decays = abs(kx.imag)*x.max() > 1
        if decays:          # decaying wave: relative to the field at the source
            sc = abs(a0)
        else:
            sc = np.abs(A[sl])
        e = np.abs(F[sl]-A[sl])/sc
        kk = max(abs(k), abs(kt))
        r = max(1., abs(kk/kx))
        mon.le('line source', np.max(e/(kd**2*r*r*(.25+1.4*kk*x[sl, None]/24)+3e-3)), 1, 'plane wave at %.1f cells per wavelength' % c)
        err.append(np.max(e))
        if not np.iscomplexobj(np.array(eps)) and kx.imag == 0 and M > 1:
            # power per length, |a|^2 kx/(2 om mu) or |a|^2 kx/(2 om eps)
            w = 2*(M//2)
            want = .5*abs(a0)**2*kx.real/(s.omega*s.L0*(ref.MU0 if s.pol == 'Ez' else ref.EPS0*eps))*w*dl
            for pos, sg in ((N-P-4, 1), (P+4, -1)):
                if abs(pos-q) < 2 or (pos > q) != (sg > 0):
                    continue
                cen = [pos, M//2] if s.ax == 0 else [M//2, pos]
                got = sg*sim.flux_probe('xy'[s.ax], cen, w)
                mon.le('radiated power', abs(got/want-1), kd**2*r*r*.4+4e-3, '%g, expected %g' % (got, want))
    mon.le('second order', err[1], .35*err[0]+2e-3, 'errors %g and %g' % tuple(err))


def slab(rng, mon):
    s = Setup(rng)
    eb, es = draw_eps(rng, 6., 0), draw_eps(rng)
    nb, ns = np.sqrt(complex(eb)), np.sqrt(complex(es))
    top = max(nb.real, ns.real)
    cells = int(rng.integers(12, 27))
    D = max(3, int(round(rng.uniform(.1, 1.4)*cells)))
    p, m = 0, 1
    if rng.random() < .6:
        m = int(rng.integers(2, 6)) if rng.random() < .3 else int(cells*rng.uniform(.5, 3))+2
        lim = int(.7*m/cells*nb.real/top)
        p = int(rng.integers(-lim, lim+1))
    mon.param(kind='slab', pol=s.pol, background=eb, slab=es, cells=cells, D=D, lam=s.lam, L0=s.L0, m=m, p=p, ax='xy'[s.ax])
    et, er, nrm = [], [], None
    for f, P in ((1, 14), (2, 24)):
        c, Df, M = cells*f, D*f, (m*f if m > 1 else 1)
        dl = s.lam/top/c
        pad = c
        N = 2*P+2*pad+Df
        q = P+pad//3
        kt = 2*np.pi*p/(M*dl)
        src = np.zeros((N, M), complex); src[q] = np.exp(-1j*kt*dl*np.arange(M))
        a = P+pad
        e0 = np.full((N, M), eb, complex if np.iscomplexobj(np.array(es)) else float)
        e1 = e0.copy(); e1[a:a+Df] = es
        F0 = s.run(e0, dl, [P, 0], src); F1 = s.run(e1, dl, [P, 0], src)
        kb = np.sqrt((s.k0*nb)**2-kt**2+0j); k1 = np.sqrt((s.k0*ns)**2-kt**2+0j)
        k1 = -k1 if k1.imag > 0 else k1
        r = k1/kb if s.pol == 'Ez' else (k1/es)/(kb/eb)
        w = Df*dl
        rho = (1-r)/(1+r)
        X = np.exp(-1j*k1*w)
        T = 4*r*X/((1+r)**2-(1-r)**2*X*X)*np.exp(1j*kb*w)
        pr = np.arange(a+Df+2, N-P-2)
        t = F1[pr]/F0[pr]
        d1 = (a-.5-q)*dl
        R = rho*(1-X*X)/(1-rho**2*X*X)*np.exp(-2j*kb*d1)
        pl = np.arange(P+2, q)
        g = (F1[pl]-F0[pl])/F0[pl]
        # errors: of the phase in the slab, amplified by its resonances, and of the interfaces
        kk = max(abs(s.k0*nb), abs(s.k0*ns))
        kd = kk*dl
        Q = 1+abs(1-r)**2/abs(4*r)
        obl = max(1., abs(kk/k1) if abs(k1) > .2*kk else 5, abs(kk/kb))
        amp = min(Q*obl, 12.)
        b = kd**2*amp*(.2+kk*w/24*1.5)
        b2 = b+kd**2*(.2+kk*2*d1/24*1.5)*abs(R)*abs(kk/kb)
        mon.le('slab transmission', np.max(np.abs(t-T)), .5*b+2e-3, '%s, expected %s at %d cells' % (t.flat[0], T, c))
        mon.le('slab reflection', np.max(np.abs(g-R)), .5*b2+4e-3, '%s, expected %s at %d cells' % (g.flat[0], R, c))
        et.append(np.max(np.abs(t-T))); er.append(np.max(np.abs(g-R)))
    mon.le('second order', et[1], .36*et[0]+2e-3, 'transmission errors %g and %g' % tuple(et))
    mon.le('second order', er[1], .36*er[0]+4e-3, 'reflection errors %g and %g' % tuple(er))


def guide(rng, mon):
    s = Setup(rng)
    eb = float(rng.uniform(1, 2.5)) if rng.random() < .6 else 1.
    ec = eb*float(rng.uniform(2.2, 9))
    cells = int(rng.integers(12, 22))            # per wavelength in the core
    W = int(round(cells*rng.uniform(.3, .75)))
    w = W*s.lam/np.sqrt(ec)/cells
    p = 1. if s.pol == 'Ez' else ec/eb

    def disp(n):
        kap, gam = np.sqrt(ec-n*n), np.sqrt(n*n-eb)
        return kap*np.sin(s.k0*w/2*kap)-p*gam*np.cos(s.k0*w/2*kap)
    lo = np.sqrt(max(eb, ec-(np.pi/(s.k0*w))**2))
    ne = brentq(disp, lo*(1+1e-9), np.sqrt(ec)*(1-1e-9))
    kap, gam = s.k0*np.sqrt(ec-ne**2), s.k0*np.sqrt(ne**2-eb)
    mon.param(kind='guide', pol=s.pol, background=eb, core=ec, cells=cells, W=W, neff=ne, lam=s.lam, L0=s.L0, ax='xy'[s.ax])
    if gam*w < 1/1.2:
        raise Skip('weakly guiding')
    ev, ep = [], []
    even = bool(rng.integers(2))
    for f, P in ((1, 12), (2, 20)):
        Wf = W*f
        dl = s.lam/np.sqrt(ec)/(cells*f)
        pad = int(np.ceil(5/gam/dl))
        if pad > 140:
            raise Skip('weakly guiding')
        NX, NY = 2*P+int(2.5*cells)*f, 2*P+2*pad+Wf+(0 if even else 3)
        e = np.full((NX, NY), eb); a = P+pad; e[:, a:a+Wf] = ec
        y = np.abs(np.arange(NY)-(a+Wf/2-.5))*dl
        phi = np.where(y < w/2, np.cos(kap*y), np.cos(kap*w/2)*np.exp(-gam*(y-w/2)))
        beta = s.k0*ne
        J = rng.standard_normal()+1j*rng.standard_normal()
        src = np.zeros((NX, NY), complex); q = P+5*f
        src[q] = J*phi/(e[q] if s.pol == 'Hz' else 1)
        src[q, :P] = 0; src[q, NY-P:] = 0
        F = s.run(e, dl, [P, P], src)
        x0, x1 = q+3*f, NX-P-3*f
        A = (s.amp*J*dl*.5j/beta)*phi[None, :]*np.exp(-1j*beta*(np.arange(x0, x1)-q)[:, None]*dl)
        G = F[x0:x1]
        # propagation constant from the overlap with the profile
        wt = phi/(e[0] if s.pol == 'Hz' else 1)
        o = G@wt
        ph = np.unwrap(np.angle(o))
        b = -np.polyfit(np.arange(ph.size), ph, 1)[0]/dl
        kd = s.k0*np.sqrt(ec)*dl
        mon.le('propagation constant', abs(b/beta-1), .16*kd**2+1.5e-3, 'neff %.6g, expected %.6g' % (b/s.k0, ne))
        L = (x1-q)*dl*s.k0*np.sqrt(ec)
        m = slice(P+2, NY-P-2)
        err = np.max(np.abs(G-A)[:, m])/np.max(np.abs(A))
        mon.le('guided field', err, kd**2*(.3+.08*L)+4e-3, 'at %d cells per wavelength' % (cells*f))
        ev.append(abs(b/beta-1)); ep.append(err)
    mon.le('second order', ev[1], .36*ev[0]+1.5e-3, 'errors of the propagation constant %g and %g' % tuple(ev))
    mon.le('second order', ep[1], .4*ep[0]+8e-3, 'errors of the field %g and %g' % tuple(ep))


def ring(rng, mon):
    s = Setup(rng)
    eps = draw_eps(rng)
    k = s.k0*np.sqrt(complex(eps))
    for _ in range(40):
        turns = rng.uniform(.1, 1.6)
        L = 2*np.pi*turns/k.real
        if abs(np.sin(k*L/2)) > .35:
            break
    else:
        raise Skip('resonant')
    n0 = int(max(8, np.ceil(rng.uniform(24, 40)*turns)))
    M = int(choice(rng, [1, 1, 2, 3]))
    mon.param(kind='ring', pol=s.pol, eps=eps, turns=turns, n0=n0, lam=s.lam, L0=s.L0, ax='xy'[s.ax])
    J = rng.standard_normal()+1j*rng.standard_normal()
    q = int(rng.integers(n0))
    vals = []
    for f in (1, 2, 4):
        N = n0*f; dl = L/N
        src = np.zeros((N, M), complex); src[q*f] = J/dl
        vals.append(s.run(full((N, M), eps), dl, [0, 0], src)[::f, 0])
    a, b, c = vals
    u, v = (4*b-a)/3, (4*c-b)/3
    F = (16*v-u)/15
    x = np.abs(np.arange(n0)-q)*L/n0
    A = s.amp*(eps if s.pol == 'Hz' else 1)*J*.5/k*np.cos(k*(L/2-x))/np.sin(k*L/2)
    sc = np.max(np.abs(A))
    mon.le('extrapolated', np.max(np.abs(F-A))/sc, 3e-5, 'field in a ring of %.3g wavelengths' % turns)
    mon.le('second order', np.max(np.abs(c-A)), .36*np.max(np.abs(b-A))+1e-5*sc, 'ring')


def case(kind, rng, mon, tier):
    {'point': point, 'line': line, 'slab': slab, 'guide': guide, 'ring': ring}[kind](rng, mon)
