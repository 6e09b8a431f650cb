"""Workload generators."""
import numpy as np
from .ref import C0

DECOY = .15        # share of the simulations built after a similar one
TAIL = 0.0         # share of the drawn set-ups with much larger grids (a check that can afford it sets TAIL in its module)

LAYOUT = .25       # share of the simulations whose arrays are not stored row by row

FIELDS = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def smooth(rng, N, n=2):
    a = rng.random(N)
    for _ in range(n):
        for ax in (0, 1):
            a = (a+np.roll(a, 1, ax)+np.roll(a, -1, ax))/3
    a = a-a.min()
    return a/max(a.max(), 1e-12)


def permittivity(rng, N, kind=None, emax=None, lossy=None):
    """relative permittivity array, real or complex (loss has negative imaginary part for exp(+iwt))"""
    Nx, Ny = N
    kind = kind or choice(rng, ['vacuum', 'uniform', 'blocks', 'blocks', 'wg_x', 'wg_y', 'pixels', 'smooth'])
    emax = emax or float(rng.uniform(1.5, 12.25))
    e = np.ones(N)
    if kind == 'uniform':
        e[:] = emax
    elif kind == 'blocks':
        for _ in range(int(rng.integers(1, 5))):
            x = sorted(rng.integers(0, Nx+1, 2)); y = sorted(rng.integers(0, Ny+1, 2))
            e[x[0]:x[1]+1, y[0]:y[1]+1] = rng.uniform(1, emax)
    elif kind == 'wg_x':
        c = Ny//2; w = max(1, Ny//8)
        e[:, c-w:c+w] = emax
    elif kind == 'wg_y':
        c = Nx//2; w = max(1, Nx//8)
        e[c-w:c+w, :] = emax
    elif kind == 'pixels':
        e = 1+(emax-1)*rng.random(N)
    elif kind == 'smooth':
        e = 1+(emax-1)*smooth(rng, N)
    if emax*1e4 % 1 < .12:
        e = np.round(e)         # (structures of whole numbers, see Cfg.build)
    if lossy is None:
        lossy = rng.random() < 0.25
    if lossy:
        e = e*(1-1j*rng.uniform(0, 0.3)*(rng.random(N) < 0.5))
    return e, kind


def disguise(rng, a):
    """same values, another memory layout / dtype"""
    r = rng.integers(5)
    if r == 0:
        return np.asfortranarray(a), 'fortran'
    if r == 1:
        big = np.zeros((a.shape[0]*2, a.shape[1]*2), a.dtype); big[::2, ::2] = a
        return big[::2, ::2], 'strided'
    if r == 2:
        return a.astype(np.complex128), 'complex128'
    return a, str(a.dtype)


def layout(a, k=None):
    """the same values in another memory order: column by column, every second element of a larger array, backwards"""
    a = np.asarray(a)
    if a.ndim != 2:
        return a
    k = np.random.randint(4) if k is None else k
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        big = np.zeros((a.shape[0]*2, a.shape[1]*2), a.dtype); big[::2, ::2] = a
        return big[::2, ::2]
    if k == 2:
        return np.array(a[::-1, ::-1])[::-1, ::-1]
    return np.array(a.T).T


def maybe_layout(a):
    return layout(a) if np.random.rand() < LAYOUT else a


def source(rng, N, kind=None, inner=None):
    kind = kind or choice(rng, ['point', 'point', 'line', 'dense', 'multi'])
    s = np.zeros(N, complex)
    x0, x1, y0, y1 = inner or (0, N[0], 0, N[1])
    if x1 <= x0 or y1 <= y0:
        x0, x1, y0, y1 = 0, N[0], 0, N[1]

    def px():
        return int(rng.integers(x0, x1)), int(rng.integers(y0, y1))
    # (purely real and imaginary values, of either sign, are as common as others)
    ex = rng.uniform(-3, 3)
    if abs(ex)*1e3 % 1 < .12:
        ex = 4*ex-4         # (some are very weak or strong)
    amp = 10.0**ex*(np.exp(2j*np.pi*rng.random()) if rng.random() < .6 else 1j**int(rng.integers(4)))
    if kind == 'point':
        s[px()] = amp
    elif kind == 'line':
        i, j = px()
        if rng.random() < .5:
            s[i, y0:y1] = amp*np.exp(1j*np.linspace(0, rng.uniform(0, 6), y1-y0))
        else:
            s[x0:x1, j] = amp*np.exp(1j*np.linspace(0, rng.uniform(0, 6), x1-x0))
    elif kind == 'multi':
        for _ in range(4):
            s[px()] += amp*rng.standard_normal()
    else:
        s[x0:x1, y0:y1] = amp*(rng.standard_normal((x1-x0, y1-y0))+1j*rng.standard_normal((x1-x0, y1-y0)))
    return s, kind


class Cfg:
    """a drawn simulation set-up"""

    def __init__(self, rng, pol=None, NPML=None, N=None, L0=None, size=None, cells=None, oned=0.12, minpml=5, maxpml=14, mininner=8, maxinner=28,
                 eps=None, eps_kind=None, lossy=None, pml_choice=None):
        self.pol = pol or choice(rng, ['Ez', 'Hz'])
        self.L0 = L0 or choice(rng, [1e-6, 1e-6, 1e-6, 1e-9, 1e-3, 1.0])
        self.dl = float(rng.uniform(0.01, 0.2))
        self.cells = cells or float(rng.uniform(9, 45))          # cells per vacuum wavelength
        self.lam = self.dl*self.cells                            # in L0
        self.omega = 2*np.pi*C0/(self.lam*self.L0)
        if NPML is None:
            NPML = [0 if rng.random() < .3 else int(rng.integers(minpml, maxpml+1)) for _ in range(2)]
        self.NPML = list(NPML)
        if N is None:
            N = [2*n+int(rng.integers(mininner, maxinner+1)) for n in self.NPML]
            if rng.random() < oned:
                ax = int(rng.integers(2))
                N[ax] = 1
                self.NPML[ax] = 0
            u = self.dl*1e6 % 1
            if u < TAIL:
                # (decided by digits of dl, so that nothing else of the case changes)
                r = np.random.default_rng(int(u*1e9))
                long = r.random() < .3
                for ax in (0, 1):
                    if N[ax] == 1:
                        continue
                    if long and N[ax] == max(N) and max(N) < 250:
                        N[ax] += int(r.integers(220, 900))
                    elif not long and r.random() < .7:
                        N[ax] += int(r.integers(30, 110)) if min(N) > 1 else int(r.integers(50, 400))
        self.N = tuple(int(n) for n in N)
        if eps is None:
            eps, self.eps_kind = permittivity(rng, self.N, eps_kind, lossy=lossy)
        else:
            self.eps_kind = 'given'
        self.eps = eps
        self.src = None

    def inner(self, margin=2):
        """bounds of the cells outside the absorbing layers (with margin)"""
        out = []
        for n, p in zip(self.N, self.NPML):
            out += [p+margin if p else 0, n-p-margin if p else n]
        return tuple(out)

    def with_source(self, rng, kind=None, margin=2):
        self.src, self.src_kind = source(rng, self.N, kind, self.inner(margin))
        return self

    def build(self, eps=None, src=None, **kw):
        from angler import Simulation
        d = dict(omega=self.omega, dl=self.dl, NPML=list(self.NPML), pol=self.pol, L0=self.L0)
        d.update(kw)
        e = np.array(self.eps) if eps is None else eps
        if DECOY and np.random.rand() < DECOY and np.ndim(e) == 2:
            self.decoy(d, e)
        if not np.iscomplexobj(e) and np.random.rand() < .5 and np.array_equal(e, np.round(e)):
            e = e.astype(choice(np.random.default_rng(e.size), [int, int, np.int32]))         # (whole numbers may be given as such)
        if np.ndim(e) == 2 and np.random.rand() < LAYOUT:
            e = layout(e)
            if e.shape[1] == 1 and np.random.rand() < .5:
                e = e[:, 0]         # (one-dimensional structures may be given as such)
        s = Simulation(d['omega'], e, d['dl'], d['NPML'], d['pol'], L0=d['L0'])
        if src is None and self.src is not None:
            src = np.array(self.src)
        if src is not None:
            s.src = maybe_layout(src)
        return s

    def decoy(self, d, e):
        """first solves another simulation, which differs in one parameter only: nothing of it may show up in the next one"""
        from angler import Simulation
        d = dict(d); d['NPML'] = list(d['NPML'])
        what = ['omega', 'dl', 'L0', 'NPML', 'eps', 'pol', 'rearranged'][np.random.randint(7)]
        if what in ('omega', 'dl'):
            d[what] = d[what]*(np.random.uniform(.7, 1.3) if np.random.rand() < .5 else 10**np.random.uniform(-2, 2))
        elif what == 'L0':
            # (the same physical frequency, or the same number of cells per wavelength)
            f = 10.0**np.random.randint(-3, 4)
            d['L0'] = d['L0']*f
            if np.random.rand() < .5:
                d['omega'] = d['omega']/f
        elif what == 'NPML':
            ax = np.random.randint(2)
            d['NPML'][ax] = 0 if d['NPML'][ax] else min(8, (e.shape[ax]-1)//2)
        elif what == 'eps':
            e = 1+np.random.rand()*np.array(e)
        elif what == 'rearranged':
            e = [e[::-1], e[:, ::-1], np.roll(e, 1, 0), np.roll(e, 2, 1)][np.random.randint(4)]
        else:
            d['pol'] = 'Hz' if d['pol'] == 'Ez' else 'Ez'
        try:
            s = Simulation(d['omega'], np.array(e), d['dl'], d['NPML'], d['pol'], L0=d['L0'])
            src = np.zeros(s.Nx*s.Ny, complex); src[np.random.randint(src.size)] = 1
            s.src = src.reshape(s.Nx, s.Ny)
            if self.src is not None and np.shape(self.src) == e.shape and np.random.rand() < .7:
                s.src = np.array(self.src)
            s.solve_fields()
        except Exception:
            pass        # (not judged here)

    def describe(self, mon, **kw):
        mon.param(pol=self.pol, N=list(self.N), NPML=self.NPML, L0=self.L0, dl=self.dl, cells=self.cells, eps=self.eps_kind,
                  cplx=bool(np.iscomplexobj(self.eps)), src=getattr(self, 'src_kind', None), **kw)


def fields(sim, ret, pol=None):
    return dict(zip(FIELDS[pol or sim.pol], ret))


def mask(d):
    """the same region as an array of floats, integers, truth values (as the manual has it), or in another memory order"""
    d = np.array(d)
    if not np.isin(d, (0, 1)).all():
        return d
    k = (int(d.sum())*7+d.shape[0]*3+d.shape[-1]) % 6
    return [d, d.astype(bool), d.astype(int), np.asfortranarray(d), d.astype(bool), d.astype(np.float32)][k]


def design(rng, cfg, margin=2, frac=0.6):
    """rectangular or irregular design region inside the absorbing layers"""
    x0, x1, y0, y1 = cfg.inner(margin)
    d = np.zeros(cfg.N)
    def rng2(a, b):
        n = max(1, int(round((b-a)*rng.uniform(.25, frac))))
        s = int(rng.integers(a, max(a+1, b-n+1)))
        return s, min(b, s+n)
    a, b = rng2(x0, x1); c, e = rng2(y0, y1)
    d[a:b, c:e] = 1
    if rng.random() < .3:
        d[a:b, c:e] *= (rng.random((b-a, e-c)) < .7)
        d[a, c] = 1
    return d
