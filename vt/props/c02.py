import numpy as np
from .. import gen, ref
from ..gen import Cfg, choice

PLAN = {'quick': {'open': 140, 'slab': 80, 'guide': 40, 'passive': 80, 'decay': 60, 'thin': 60},
        'thorough': {'open': 2500, 'slab': 1500, 'guide': 800, 'passive': 1500, 'decay': 1000, 'thin': 800}}
FLOORS = {'same interior': 150, 'power leaves': 32, 'thin layers absorb': 60}
RULE = ('The same sources and structure are simulated in the drawn domain and in a larger one (independent paddings per side, other layer '
        'thickness), and the fields in the common interior compared.')
ASSUMPTIONS = ['layers of 10 cells or more, 14 or more cells per wavelength in the material touching the layers, structures continued unchanged into the layers']


def interior_slices(c, m=1):
    x0, x1, y0, y1 = c.inner(m)
    return slice(x0, x1), slice(y0, y1)


def enlarge(rng, c, lo=6, hi=30):
    """-> larger configuration and the offset of the original in it"""
    pads, npml = [], []
    for ax in (0, 1):
        if c.NPML[ax] > 0:
            pads.append((int(rng.integers(lo, hi)), int(rng.integers(lo, hi))))
            npml.append(int(rng.integers(12, 26)))
        else:
            pads.append((0, 0)); npml.append(0)
    # the larger domain may not put its layers over the interior of the smaller one
    pads = [(max(a, q-p+2) if q else 0, max(b, q-p+2) if q else 0) for (a, b), p, q in zip(pads, c.NPML, npml)]
    eps = np.pad(c.eps, pads, mode='edge')
    src = np.pad(c.src, pads)
    return eps, src, npml, (pads[0][0], pads[1][0])


def compare(mon, rng, c, tol):
    s = c.build()
    F = gen.fields(s, s.solve_fields())
    eps, src, npml, off = enlarge(rng, c)
    b = c.build(eps=eps, src=src, NPML=npml)
    G = gen.fields(b, b.solve_fields())
    sx, sy = interior_slices(c)
    for k in F:
        f = F[k][sx, sy]
        g = G[k][off[0]:off[0]+c.N[0], off[1]:off[1]+c.N[1]][sx, sy]
        n = np.linalg.norm(g)
        if n < 1e-9*max(np.linalg.norm(v) for v in G.values()) * (1 if k[0] == c.pol[0] else 0):
            continue
        if n == 0:
            continue
        # transverse components along a uniform direction are zero up to rounding
        z = np.linalg.norm(G[c.pol])
        zscale = z/ref.ETA0 if c.pol == 'Ez' else z*ref.ETA0
        if k != c.pol and n < 1e-6*zscale:
            continue
        mon.le('same interior', np.linalg.norm(f-g)/n, tol, '%s, larger domain %s NPML %s' % (k, eps.shape, npml))


def case(kind, rng, mon, tier):
    p = int(rng.integers(10, 19))
    if rng.random() < (.3 if kind == 'slab' else .06):
        p = int(rng.integers(25, 70 if kind == 'slab' else 45))         # thick layers
        mon.event('thick layers')
    if kind == 'thin':
        return thin(rng, mon)
    n0 = choice(rng, [1.0, 1.0, 1.5, 2.0, 3.4])          # index of the medium touching the layers
    cells = n0*float(rng.uniform(16, 40))
    if kind == 'open':
        npml = [p, int(rng.integers(10, 19))]
        N = [2*q+int(rng.integers(14, 40)) for q in npml]
        c = Cfg(rng, N=N, NPML=npml, cells=cells)
        e = np.full(c.N, n0**2)
        x0, x1, y0, y1 = c.inner(2)
        if rng.random() < .6:
            for _ in range(3):
                x = sorted(rng.integers(x0, x1, 2)); y = sorted(rng.integers(y0, y1, 2))
                e[x[0]:x[1]+1, y[0]:y[1]+1] = rng.uniform(1, 6)
        c.eps = e; c.eps_kind = 'blocks in n=%g' % n0
        c.with_source(rng, margin=3)
        c.describe(mon, n0=n0)
        compare(mon, rng, c, 2e-3)
    elif kind == 'slab':
        # layers along one axis only; period along the other far below the wavelength, or line source
        ax = int(rng.integers(2))
        N = [0, 0]; npml = [0, 0]
        npml[ax] = p
        N[ax] = 2*p+int(rng.integers(14, 60))
        line = rng.random() < .6
        N[1-ax] = choice(rng, [1, 2, 5, int(rng.integers(3, 12))]) if line else max(2, int(rng.integers(2, max(3, int(0.5*cells/n0)))))
        c = Cfg(rng, N=N, NPML=npml, cells=cells)
        prof = np.full(N[ax], n0**2)
        if line:
            for _ in range(3):
                a, b = sorted(rng.integers(p+2, N[ax]-p-2, 2)); prof[a:b+1] = rng.uniform(1, 9)
        c.eps = np.array(np.broadcast_to(prof[:, None] if ax == 0 else prof[None, :], c.N)); c.eps_kind = 'slabs'
        src = np.zeros(c.N, complex)
        i = int(rng.integers(p+3, N[ax]-p-3))
        sl = [slice(None), slice(None)]; sl[ax] = i
        if not line:
            sl[1-ax] = int(rng.integers(N[1-ax]))
        src[tuple(sl)] = np.exp(1j*rng.uniform(0, 6))
        c.src = src; c.src_kind = 'line' if line else 'grating'
        c.describe(mon, n0=n0)
        compare(mon, rng, c, 2e-3)
    elif kind == 'guide':
        ax = int(rng.integers(2))
        N = [0, 0]; npml = [0, 0]
        npml[ax] = p; npml[1-ax] = choice(rng, [p, p, 0])
        N[ax] = 2*npml[ax]+int(rng.integers(20, 50)); N[1-ax] = 2*npml[1-ax]+int(rng.integers(24, 44))
        n0 = float(rng.uniform(1.5, 3.4))
        cells = n0*float(rng.uniform(16, 30))
        if not npml[1-ax]:
            # (a wider period has orders of any angle, also grazing ones, which no layer absorbs)
            N[1-ax] = int(rng.integers(8, max(9, int(.7*cells/n0))))
        c = Cfg(rng, N=N, NPML=npml, cells=cells)
        prof = np.ones(N[1-ax]); m = N[1-ax]//2; w = max(2, min(N[1-ax]-2, int(c.cells/n0/2*rng.uniform(.3, 1))))
        prof[m-w//2:m-w//2+w] = n0**2
        c.eps = np.array(np.broadcast_to(prof[None, :] if ax == 0 else prof[:, None], c.N)); c.eps_kind = 'guide'
        src = np.zeros(c.N, complex)
        i = int(rng.integers(npml[ax]+3, N[ax]-npml[ax]-3))
        if ax == 0:
            src[i, m-w//2:m-w//2+w] = 1
        else:
            src[m-w//2:m-w//2+w, i] = 1
        c.src = src; c.src_kind = 'guide'
        c.describe(mon, n0=n0, w=w)
        compare(mon, rng, c, 4e-3)
    elif kind == 'passive':
        npml = [p, int(rng.integers(10, 19))]
        N = [2*q+int(rng.integers(14, 40)) for q in npml]
        c = Cfg(rng, N=N, NPML=npml, cells=cells)
        e = np.full(c.N, n0**2)
        x0, x1, y0, y1 = c.inner(3)
        if rng.random() < .6:
            x = sorted(rng.integers(x0, x1, 2)); y = sorted(rng.integers(y0, y1, 2))
            e[x[0]:x[1]+1, y[0]:y[1]+1] = rng.uniform(1, 6)
        c.eps = e; c.eps_kind = 'block'
        c.with_source(rng, margin=4)
        c.describe(mon, n0=n0)
        s = c.build()
        F = gen.fields(s, s.solve_fields())
        x0, x1, y0, y1 = c.inner(2)
        P = [-ref.poynting_flux(c.pol, F, c.dl, 0, x0, y0, y1), ref.poynting_flux(c.pol, F, c.dl, 0, x1, y0, y1),
             -ref.poynting_flux(c.pol, F, c.dl, 1, y0, x0, x1), ref.poynting_flux(c.pol, F, c.dl, 1, y1, x0, x1)]
        tot = sum(P)
        mon.ok('power leaves', tot > 0, 'total outward power %g' % tot)
        mon.le('no side returns power', -min(P)/tot, 0.02, str(P))
    else:
        # inside of the layers fields die out: the wrapped-around side never sees them
        ax = int(rng.integers(2))
        npml = [p, p]
        N = [2*p+int(rng.integers(16, 40)), 2*p+int(rng.integers(16, 40))]
        c = Cfg(rng, N=N, NPML=npml, cells=cells, eps=np.full(N, n0**2))
        c.src = np.zeros(c.N, complex)
        x0, x1, y0, y1 = c.inner(3)
        c.src[int(rng.integers(x0, x1)), int(rng.integers(y0, y1))] = 1; c.src_kind = 'point'
        c.describe(mon, n0=n0)
        s = c.build()
        F = gen.fields(s, s.solve_fields())[c.pol]
        x0, x1, y0, y1 = c.inner(2)
        ins = np.sqrt(np.mean(np.abs(F[x0:x1, y0:y1])**2))
        rim = np.concatenate([F[0, :], F[:, 0]])
        mon.le('outermost cells dark', np.sqrt(np.mean(np.abs(rim)**2))/ins, 0.05)
        lay = np.abs(F).max()/np.abs(F[x0:x1, y0:y1]).max()
        mon.le('no amplification in the layers', lay, 1.0001)


def thin(rng, mon):
    """layers of any thickness absorb, on the axis that has them"""
    ax = int(rng.integers(2))
    p = int(rng.integers(1, 10))
    n0 = choice(rng, [1.0, 1.0, 1.5, 2.0, 3.4])
    cells = n0*float(rng.uniform(16, 40))
    npml = [0, 0]; npml[ax] = p
    N = [0, 0]; N[ax] = 2*p+int(rng.integers(14, 50)); N[1-ax] = choice(rng, [1, 2, int(rng.integers(3, 30))])
    c = Cfg(rng, N=N, NPML=npml, cells=cells)
    c.eps = np.full(c.N, n0**2); c.eps_kind = 'uniform'
    i = int(rng.integers(p+4, N[ax]-p-4))
    c.src = np.zeros(c.N, complex); c.src_kind = 'line'
    if rng.random() < .5:
        x = sorted(rng.integers(p+2, N[ax]-p-2, 2))
        if ax == 0:
            c.eps[x[0]:x[1]+1, :] = rng.uniform(1, 6)
        else:
            c.eps[:, x[0]:x[1]+1] = rng.uniform(1, 6)
    if ax == 0:
        c.src[i, :] = 1
    else:
        c.src[:, i] = 1
    c.describe(mon, n0=n0, p=p)
    s = c.build()
    F = gen.fields(s, s.solve_fields())
    lo, hi = p+2, N[ax]-p-2
    n = N[1-ax]
    P = [-ref.poynting_flux(c.pol, F, c.dl, ax, lo, 0, n), ref.poynting_flux(c.pol, F, c.dl, ax, hi, 0, n)]
    # both waves, to and fro, carry the power of the total field
    z = (ref.ETA0/n0 if c.pol == 'Ez' else ref.ETA0/n0)
    f = np.abs(F[c.pol])
    row = lambda q: np.sum((f[q, :] if ax == 0 else f[:, q])**2)*c.dl/2*(1/z if c.pol == 'Ez' else z)
    for side, q, w in ((0, lo, P[0]), (1, hi, P[1])):
        mon.le('thin layers absorb', (1e-4 if p == 1 else .02 if p < 4 else .3)-w/max(row(q), row(q-1), row(q+1), 1e-300), 0, 'side %d, %d cells: %g of %g' % (side, p, w, row(q)))
