"""Independent reference model: discrete Maxwell equations by array shifts, no angler code.

Conventions (documented behaviour of angler): fields ~ exp(+i omega t); Ez (Hz) on cell centres, transverse
fields on the backward edges; lengths in units of L0, so eps0 and mu0 are multiplied by L0."""
import numpy as np

EPS0 = 8.85418782e-12
MU0 = 1.25663706e-6
C0 = 1/np.sqrt(EPS0*MU0)
ETA0 = np.sqrt(MU0/EPS0)


def fwd(F, ax, dl):
    return (np.roll(F, -1, axis=ax)-F)/dl


def bwd(F, ax, dl):
    return (F-np.roll(F, 1, axis=ax))/dl


def avg(F, ax):
    """mean of a cell and the one before it"""
    return (F+np.roll(F, 1, axis=ax))/2


def interior(shape, NPML, margin=2):
    """cells whose equations involve no absorbing-layer coefficient (all of them along axes without layers)"""
    m = np.ones(shape, bool)
    for ax in (0, 1):
        if NPML[ax] > 0:
            i = np.arange(shape[ax])
            ok = (i > NPML[ax]+margin-1) & (i < shape[ax]-NPML[ax]-margin+1)
            m &= ok[:, None] if ax == 0 else ok[None, :]
    return m


def maxwell_residuals(pol, F, eps, src, omega, dl, L0):
    """F: dict of fields; eps: relative permittivity per cell. -> list of (name, residual array, scale array)"""
    e0, m0 = EPS0*L0, MU0*L0
    w = omega
    eps = np.asarray(eps).astype(complex); src = np.asarray(src).astype(complex)
    if pol == 'Ez':
        Hx, Hy, Ez = F['Hx'], F['Hy'], F['Ez']
        a, b = fwd(Hy, 0, dl), fwd(Hx, 1, dl)
        d = 1j*w*e0*eps*Ez
        out = [('ampere', a-b-d-src, [a, b, d, src])]
        t = bwd(Ez, 1, dl); u = -1j*w*m0*Hx
        out.append(('faraday x', t-u, [np.roll(Ez, 1, 1)/dl, Ez/dl, u]))
        t = bwd(Ez, 0, dl); u = 1j*w*m0*Hy
        out.append(('faraday y', t-u, [np.roll(Ez, 1, 0)/dl, Ez/dl, u]))
    else:
        Ex, Ey, Hz = F['Ex'], F['Ey'], F['Hz']
        a, b = fwd(Ey, 0, dl), fwd(Ex, 1, dl)
        d = 1j*w*m0*Hz
        out = [('faraday', a-b+d+src, [a, b, d, src])]
        t = bwd(Hz, 1, dl); u = 1j*w*e0*avg(eps, 1)*Ex
        out.append(('ampere x', t-u, [np.roll(Hz, 1, 1)/dl, Hz/dl, u]))
        t = bwd(Hz, 0, dl); u = -1j*w*e0*avg(eps, 0)*Ey
        out.append(('ampere y', t-u, [np.roll(Hz, 1, 0)/dl, Hz/dl, u]))
    return out


def check_maxwell(mon, pol, F, eps, src, omega, dl, L0, NPML, tol=1e-8, margin=2, prefix=''):
    eps = np.asarray(eps).reshape(F['Ez' if pol == 'Ez' else 'Hz'].shape)
    m = interior(eps.shape, NPML, margin)
    if not m.any():
        return 0
    for name, r, terms in maxwell_residuals(pol, F, eps, src, omega, dl, L0):
        scale = max(float(np.max(np.abs(t[m]))) for t in terms)
        if scale == 0:
            mon.le(prefix+name, float(np.max(np.abs(r[m]))), 0.0)
        else:
            mon.le(prefix+name, float(np.max(np.abs(r[m])))/scale, tol)
    return int(m.sum())


def poynting_flux(pol, F, dl, axis, c, lo, hi):
    """power through the backward edges of cells [lo,hi) at index c along axis, per unit depth"""
    sl = (slice(c, c+1), slice(lo, hi)) if axis == 0 else (slice(lo, hi), slice(c, c+1))
    if pol == 'Ez':
        Ez = avg(F['Ez'], axis)[sl]
        if axis == 0:
            S = -0.5*np.real(Ez*np.conj(F['Hy'][sl]))
        else:
            S = 0.5*np.real(Ez*np.conj(F['Hx'][sl]))
    else:
        Hz = avg(F['Hz'], axis)[sl]
        if axis == 0:
            S = 0.5*np.real(F['Ey'][sl]*np.conj(Hz))
        else:
            S = -0.5*np.real(F['Ex'][sl]*np.conj(Hz))
    return dl*float(np.sum(S))


def slab_modes(eps, omega, dl, L0, pol):
    """dense eigenvalues/vectors of the periodic cross-section operator; eigenvalue = beta^2 (in 1/L0^2).
    Sorted by decreasing real part."""
    n = eps.size
    e0, m0 = EPS0*L0, MU0*L0
    I = np.eye(n)
    if n > 1:
        Df = (np.roll(I, 1, 1)-I)/dl          # row i: f[i+1]-f[i]
        Db = (I-np.roll(I, -1, 1))/dl
    else:
        Df = Db = np.zeros((1, 1))
    if pol == 'Ez':
        A = np.diag(omega**2*m0*e0*eps)+Df@Db
    else:
        ex = (eps+np.roll(eps, 1))/2
        A = np.diag(omega**2*m0*e0*eps)+np.diag(eps)@Df@np.diag(1/ex)@Db
    return A
