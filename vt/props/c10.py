import numpy as np
from .. import gen, ref
from ..gen import choice

PLAN = {'quick': {'profile': 500, 'setup': 160, 'orient': 160}, 'thorough': {'profile': 8000, 'setup': 2500, 'orient': 2500}}
FLOORS = {'whole numbers': 60, 'eigenmode': 300, 'order': 200}
RULE = ('Modes of random cross sections (slabs, graded and multi-core guides), orders, orientations, widths and positions; the profile written to the source is '
        'judged with a dense eigenproblem of an independently written cross-section operator.')
ASSUMPTIONS = ['real permittivity along the line; degenerate modes (of lines of uniform permittivity) are only required to be the same every time; the order is judged where the distances of the candidates from the guess differ by more than 0.01 %']


def cross(rng, m, n0):
    k = choice(rng, ['slab', 'slab', 'graded', 'two', 'ridge', 'offset'])
    e = np.ones(m)*choice(rng, [1., 1., 2.1])
    w = max(3, int(m*rng.uniform(.1, .5)))
    c = m//2
    if k == 'slab':
        e[c-w//2:c-w//2+w] = n0**2
    elif k == 'offset':
        a = int(rng.integers(2, max(3, m-w-2))); e[a:a+w] = n0**2
    elif k == 'graded':
        e += (n0**2-1)*np.exp(-((np.arange(m)-c)/w)**2)
    elif k == 'two':
        w = max(2, w//3); g = max(2, m//8)
        e[c-g-w:c-g] = n0**2; e[c+g:c+g+w+1] = n0**2
    else:
        e[c-w//2:c-w//2+w] = n0**2; e[c-w:c+w] = np.maximum(e[c-w:c+w], 1+(n0**2-1)*.3)
    if n0*1e4 % 1 < .2:
        e = np.round(e); k += ' of whole numbers'
    return e, k


def draw(rng, L0=None):
    m = int(rng.integers(24, 80)); n = int(rng.integers(14, 30))
    L0 = L0 or choice(rng, [1e-6, 1e-6, 1e-9, 1.0])
    dl = float(rng.uniform(.02, .1))
    n0 = float(rng.uniform(1.6, 3.5))
    lam = dl*n0*float(rng.uniform(10, 25))
    omega = 2*np.pi*ref.C0/(lam*L0)
    e, k = cross(rng, m, n0)
    return m, n, L0, dl, n0, omega, e, k


def place(ax, e, n):
    """cross section e along the other axis, uniform along ax"""
    return np.array(np.tile(e[None, :], (n, 1)) if ax == 0 else np.tile(e[:, None], (1, n)))


def case(kind, rng, mon, tier):
    from angler import Simulation
    from angler.source.mode import mode
    m, n, L0, dl, n0, omega, e, k = draw(rng)
    ax = int(rng.integers(2))
    pol = choice(rng, ['Ez', 'Hz'])
    width = int(rng.integers(max(12, m//2), m+1))
    cen = m//2
    if rng.random() < .3:
        cen = int(np.clip(cen+rng.integers(-3, 4), (width+1)//2, m-(width+1)//2))
    lo, hi = int(cen-width/2), int(cen+width/2)
    line = e[lo:hi]
    pos = int(rng.integers(0, n))
    neg = rng.random() < .3
    p = pos-n if neg else pos
    center = [p, cen] if ax == 0 else [cen, p]
    order = choice(rng, [1, 1, 1, 2, 2, 3, 4])
    nmax = np.sqrt(np.max(line))
    neff = float(rng.uniform(1.0, nmax*1.05)) if rng.random() < .6 else float(nmax*rng.uniform(1.0, 1.2))
    scale = float(10**rng.uniform(-3, 3))
    if scale*1e3 % 1 < .3:
        scale = -scale
    mon.param(pol=pol, ax=ax, m=m, n=n, width=width, center=center, order=order, neff=neff, scale=scale, L0=L0, dl=dl, cross=k, n0=n0)
    eps = place(ax, e, n)
    if rng.random() < .5:
        # other material elsewhere must not matter
        o = [i for i in range(n) if i != pos]
        junk = 1+5*rng.random(eps.shape)
        if np.array_equal(eps, np.round(eps)):
            junk = np.round(junk)
        if ax == 0:
            eps[o, :] = junk[o, :]
        else:
            eps[:, o] = junk[:, o]
    if np.array_equal(eps, np.round(eps)):
        eps = eps.astype(int)
        mon._count('whole numbers')
    s = Simulation(omega, eps, dl, [0, 0], pol, L0=L0)
    sl = (pos, slice(lo, hi)) if ax == 0 else (slice(lo, hi), pos)
    if kind == 'profile':
        bg = (rng.standard_normal(s.src.shape)+1j*rng.standard_normal(s.src.shape)).astype(np.complex64) if rng.random() < .5 else np.zeros(s.src.shape, complex)
        s.src = bg.copy()
        mode(neff, 'xy'[ax], center, width, scale, order=order).insert_mode(s, s.src)
        judge(mon, rng, s, sl, bg, line, omega, dl, L0, pol, neff, order, scale)
        # the scale is a factor, with its sign
        k = choice(rng, [-1, -1, -2.5, .1])
        got = np.array(s.src[sl]).reshape(-1)
        mode(neff, 'xy'[ax], center, width, k*scale, order=order).insert_mode(s, s.src)
        mon.close('proportional to the scale', np.array(s.src[sl]).reshape(-1), k*got, 2e-5)
    elif kind == 'setup':
        # through the simulation, repeatedly, several modes
        s.add_mode(neff, 'xy'[ax], center, width, scale=scale, order=order)
        s.setup_modes()
        a = np.array(s.src)
        judge(mon, rng, s, sl, np.zeros(s.src.shape), line, omega, dl, L0, pol, neff, order, scale)
        np.random.seed(int(rng.integers(1 << 30)))
        s.setup_modes()
        t = Simulation(omega, eps.copy(), dl, [0, 0], pol, L0=L0)
        t.add_mode(neff, 'xy'[ax], center, width, scale=scale, order=order)
        t.setup_modes()
        mon.close('repeatable', s.src, a, 2e-5, scale=abs(scale))
        mon.close('repeatable', t.src, a, 2e-5, scale=abs(scale))
        # a second mode elsewhere leaves the first one in place
        p2 = (pos+n//2) % n
        if p2 != n-1 or True:
            c2 = [p2, cen] if ax == 0 else [cen, p2]
            s.add_mode(neff, 'xy'[ax], c2, width, scale=scale*2, order=1)
            s.setup_modes()
            mon.close('other modes stay', s.src[sl], a[sl], 2e-5, scale=abs(scale))
            mon.ok('one mode object each', len(s.modes) == 2)
    else:
        # the same cross section along the other axis, in another unit, at another position
        mode(neff, 'xy'[ax], center, width, scale, order=order).insert_mode(s, s.src)
        a = np.array(s.src[sl]).reshape(-1)
        bx = 1-ax
        q = int(rng.integers(0, n))
        u = float(10**rng.uniform(-3, 3))
        t = Simulation(omega, place(bx, e, n), dl/u, [0, 0], pol, L0=L0*u)
        c2 = [q, cen] if bx == 0 else [cen, q]
        mode(neff, 'xy'[bx], c2, width, scale, order=order).insert_mode(t, t.src)
        b = np.array(t.src[(q, slice(lo, hi)) if bx == 0 else (slice(lo, hi), q)]).reshape(-1)
        if well_defined(line, omega, dl, L0, pol, neff, order):
            mon.close('same along x and y', b, a, 1e-4, scale=np.max(np.abs(a)))
        judge(mon, rng, t, (q, slice(lo, hi)) if bx == 0 else (slice(lo, hi), q), np.zeros(t.src.shape), line, omega, dl, L0, pol, neff, order, scale)


def spectrum(line, omega, dl, L0, pol, neff):
    A = ref.slab_modes(line, omega, dl, L0, pol)
    v, V = np.linalg.eig(A)
    k0 = omega*np.sqrt(ref.EPS0*ref.MU0)*L0
    g = (k0*neff)**2
    d = np.abs(v-g)
    o = np.argsort(d)
    return A, v[o], V[:, o], d[o], g


def well_defined(line, omega, dl, L0, pol, neff, order):
    A, v, V, d, g = spectrum(line, omega, dl, L0, pol, neff)
    if np.max(np.abs(np.imag(v[:order+1]))) > 1e-9*np.max(np.abs(v)):
        return False
    r = np.sort(d)[:order+1]
    if np.min(np.diff(r)) < 1e-4*r[-1]:
        return False
    # sign convention: the first main lobe is positive - undecided when lobes are nearly equally half as high
    f = np.abs(np.real(V[:, order-1])); f = f/f.max()
    first = np.argmax(f > .5)
    return not np.any(np.abs(f[:first+1]-.5) < .02) and not gaps(v, order-1)


def gaps(v, i):
    """is eigenvalue i degenerate"""
    d = np.abs(v-v[i]); d[i] = np.inf
    return np.min(d) < 1e-6*np.max(np.abs(v))


def judge(mon, rng, s, sl, bg, line, omega, dl, L0, pol, neff, order, scale):
    src = np.array(s.src)
    got = src[sl].astype(complex).reshape(-1)
    rest = src.copy(); rest[sl] = 0
    b = np.array(bg).astype(src.dtype); b[sl] = 0
    mon.same('rest of the source untouched', rest, b)
    mon.le('real profile', np.max(np.abs(np.imag(got))), 1e-12*np.max(np.abs(got)))
    g = np.real(got)*np.sign(scale)
    scale = abs(scale)
    single = src.dtype == np.complex64
    mon.le('unit norm times scale', abs(np.linalg.norm(g)/scale-1), 1e-5 if single else 1e-9)
    A, v, V, d, guess = spectrum(line, omega, dl, L0, pol, neff)
    near = v[:order+2]
    if np.max(np.abs(np.imag(near))) > 1e-9*np.max(np.abs(v)):
        mon.event('complex eigenvalues'); return
    if gaps(v, order-1):
        mon.event('degenerate mode'); return
    u = g/np.linalg.norm(g)
    lam = float(u@(A@u))
    big = float(np.max(np.abs(v)))
    mon.le('eigenmode', np.linalg.norm(A@u-lam*u)/big, 2e-6)
    # which one
    mine = abs(lam-guess)
    below = int(np.sum(d < mine-1e-4*max(d[order-1], mine)-1e-7*big)); upto = int(np.sum(d <= mine+1e-4*max(d[order-1], mine)+1e-7*big))
    mon.ok('order', below <= order-1 < upto, 'order %d asked for, got one with %d closer ones' % (order, below))
    if order == 1 and neff >= np.sqrt(np.max(line)):
        # the fundamental mode has no sign change
        i = int(np.argmax(np.real(v)))
        if abs(lam-np.real(v[i])) < 1e-7*big and not gaps(v, i):
            mon.ok('fundamental has one sign', np.min(u) > -1e-5 or np.max(u) < 1e-5, 'min %g max %g' % (u.min(), u.max()))
