import numpy as np
from .. import gen
from ..gen import Cfg, choice

TAIL = 0.02
PLAN = {'quick': {'shift': 500, 'mirror': 500, 'exchange': 700, 'uniform': 400}, 'thorough': {'shift': 8000, 'mirror': 8000, 'exchange': 12000, 'uniform': 6000}}
FLOORS = {'shifted': 300, 'mirrored': 300, 'exchanged': 300, 'uniform axis': 200}
RULE = 'A transformed copy of a random set-up is solved and compared with the transformed fields of the original.'


def well(c):
    """a little loss keeps closed periodic cavities away from resonances, where rounding errors are amplified"""
    if not any(c.NPML):
        c.eps = c.eps*(1-0.02j)
    return c


def cmp(mon, name, A, B, pol, tol=1e-6):
    """fields A and B (dicts) agree; transverse components on the scale of the largest transverse one"""
    t = [k for k in A if k != pol]
    ts = max(np.max(np.abs(B[k])) for k in t)
    mon.close(name, A[pol], B[pol], tol, msg=pol)
    zs = np.max(np.abs(B[pol]))
    for k in t:
        if ts > 0 and zs > 0:
            mon.close(name, A[k], B[k], tol, scale=ts, msg=k)


def solve(c, **kw):
    s = c.build(**kw)
    return gen.fields(s, s.solve_fields())


def case(kind, rng, mon, tier):
    if kind == 'shift':
        c = Cfg(rng)
        ax = int(rng.integers(2))
        c.NPML[ax] = 0
        well(c).with_source(rng)
        c.describe(mon, ax=ax)
        k = int(rng.integers(1, max(2, c.N[ax])))
        F = solve(c)
        G = solve(c, eps=np.roll(c.eps, k, ax), src=np.roll(c.src, k, ax))
        cmp(mon, 'shifted', G, {n: np.roll(f, k, ax) for n, f in F.items()}, c.pol)
    elif kind == 'mirror':
        c = Cfg(rng)
        ax = int(rng.integers(2))
        c.NPML[ax] = 0
        well(c).with_source(rng)
        c.describe(mon, ax=ax)
        n = c.N[ax]
        cen = (-np.arange(n)) % n          # cell centres
        edg = (1-np.arange(n)) % n         # backward edges
        F = solve(c)
        G = solve(c, eps=np.take(c.eps, cen, ax), src=np.take(c.src, cen, ax))
        # the component across the mirror axis' backward edge flips sign (it holds the derivative along that axis)
        names = gen.FIELDS[c.pol]
        edge_of = {0: names[1], 1: names[0]}[ax]
        H = {}
        for k in F:
            H[k] = -np.take(F[k], edg, ax) if k == edge_of else np.take(F[k], cen, ax)
        cmp(mon, 'mirrored', G, H, c.pol)
    elif kind == 'exchange':
        c = well(Cfg(rng)).with_source(rng)
        c.describe(mon)
        F = solve(c)
        G = solve(c, eps=np.array(c.eps.T), src=np.array(c.src.T), NPML=c.NPML[::-1])
        a, b, z = gen.FIELDS[c.pol]
        cmp(mon, 'exchanged', G, {a: -F[b].T, b: -F[a].T, z: F[z].T}, c.pol)
    else:
        ax = int(rng.integers(2))
        c = Cfg(rng, oned=0)
        n = c.N[1-ax]
        e1, _ = gen.permittivity(rng, (n, 1))
        e1 = e1[:, 0]
        c.NPML[ax] = 0
        if not any(c.NPML):
            e1 = e1*(1-0.02j)
        x0, x1, y0, y1 = c.inner(2)
        lo, hi = (y0, y1) if ax == 0 else (x0, x1)
        s1 = np.zeros(n, complex)
        s1[int(rng.integers(lo, hi))] = np.exp(1j*rng.uniform(0, 6))
        if rng.random() < .5:
            s1[lo:hi] += rng.standard_normal(hi-lo)
        m = c.N[ax]
        up = (lambda v: np.tile(v[None, :], (m, 1))) if ax == 0 else (lambda v: np.tile(v[:, None], (1, m)))
        one = (lambda v: v[None, :]) if ax == 0 else (lambda v: v[:, None])
        c.eps = up(e1); c.eps_kind = 'uniform along %d' % ax; c.src = up(s1); c.src_kind = 'uniform'
        vec = ax == 1 and rng.random() < .5          # a vector is a column of cells along x
        c.describe(mon, ax=ax, vector=vec)
        F = solve(c)
        G = solve(c, eps=np.array(e1) if vec else np.array(one(e1)), src=np.array(one(s1)))
        cmp(mon, 'uniform axis', {k: np.broadcast_to(v, c.N) for k, v in G.items()}, F, c.pol)
        names = gen.FIELDS[c.pol]
        flat = {0: names[1], 1: names[0]}[ax]          # derivative along the uniform axis
        other = {0: names[0], 1: names[1]}[ax]
        mon.ok('no field along the uniform axis', np.max(np.abs(G[flat])) <= 1e-9*np.max(np.abs(G[other])), flat)
