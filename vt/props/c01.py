import numpy as np
from .. import gen, ref
from ..gen import Cfg, choice

PLAN = {'quick': {'random': 1500, 'shape': 400, 'twin': 200, 'large': 24, 'long': 40}, 'thorough': {'random': 40000, 'shape': 8000, 'twin': 4000, 'large': 600, 'long': 800}}
FLOORS = {'ampere': 500, 'faraday': 500}
RULE = ('Random set-ups (polarization, permittivity, layout, grid, spacing, unit, PML per axis, source); the residual of each '
        'discrete Maxwell equation is evaluated at every cell outside the absorbing layers by an independent shift-based model.')
ASSUMPTIONS = ['cells within one cell of an absorbing layer are not judged']


def single(*a):
    return any(np.asarray(x).dtype in (np.complex64, np.float32) for x in a)


def judge(mon, c, sim, ret, eps, src):
    F = gen.fields(sim, ret)
    for k, v in F.items():
        mon.ok('shape', v.shape == c.N, 'field %s has shape %s' % (k, v.shape))
        mon.ok('finite', np.all(np.isfinite(v)), k)
        mon.same('stored = returned', sim.fields[k], v, k)
    # (single-precision sources and permittivities are multiplied by constants in single precision)
    n = ref.check_maxwell(mon, c.pol, F, eps, src, c.omega, c.dl, c.L0, c.NPML,
                          tol=1e-6 if single(eps, src) else 1e-7, margin=1)
    mon.event('cells judged', n)


def case(kind, rng, mon, tier):
    if kind == 'shape':
        # odd shapes and layers: tiny grids, 1D given as vectors, only one axis absorbing, thick layers
        shp = choice(rng, ['vector', 'tiny', 'row', 'col', 'thick', 'two', 'asym'])
        if shp == 'vector' or shp == 'row':
            c = Cfg(rng, N=(int(rng.integers(20, 80)), 1), NPML=[choice(rng, [0, 6, 10]), 0])
        elif shp == 'col':
            c = Cfg(rng, N=(1, int(rng.integers(20, 80))), NPML=[0, choice(rng, [0, 6, 10])])
        elif shp == 'tiny':
            c = Cfg(rng, N=(int(rng.integers(3, 8)), int(rng.integers(3, 8))), NPML=[0, 0])
        elif shp == 'two':
            c = Cfg(rng, N=(2, int(rng.integers(10, 30))), NPML=[0, 0])
        elif shp == 'thick':
            c = Cfg(rng, N=(60, 24), NPML=[24, 0])
        else:
            c = Cfg(rng, N=(48, 37), NPML=[int(rng.integers(1, 16)), int(rng.integers(1, 14))])
        c.with_source(rng)
        c.describe(mon, shp=shp)
        eps = c.eps
        if shp == 'vector':
            eps = np.array(eps[:, 0])
        sim = c.build(eps=eps)
        judge(mon, c, sim, sim.solve_fields(), c.eps, c.src)
        return
    if kind == 'long':
        # narrow domains of hundreds of cells
        n = [int(rng.integers(1, 24)), int(rng.integers(200, 1500))]
        q = [0 if n[0] < 14 else choice(rng, [0, 5]), choice(rng, [0, 8, 20])]
        if rng.random() < .5:
            n.reverse(); q.reverse()
        c = Cfg(rng, N=n, NPML=q).with_source(rng)
    elif kind == 'large':
        c = Cfg(rng, mininner=60, maxinner=160, maxpml=25).with_source(rng)
    else:
        c = Cfg(rng).with_source(rng)
    if rng.random() < .12:
        # parts of metal
        m = rng.random(c.N) < .5 if rng.random() < .3 else gen.design(rng, c, margin=choice(rng, [-1, 0, 2]))
        c.eps = np.where(m, -rng.uniform(1, 30)*(1+.3j*rng.random()), c.eps)
        mon.event('metal')
    elif rng.random() < .1:
        c.eps = np.round(np.real(c.eps)).astype(int)
    elif rng.random() < .1:
        c.eps = np.real(c.eps).astype(np.float32)
    eps, lay = gen.disguise(rng, c.eps)
    c.describe(mon, layout=lay, dtype=str(eps.dtype))
    if kind in ('random', 'large'):
        sim = c.build(eps=eps)
        style = int(rng.integers(4))
        src = c.src
        if style == 0:
            src = c.src.astype(np.complex64); sim.src = src
        elif style == 1:
            sim.src[:, :] = 0
            sim.src += c.src.astype(np.complex64); src = np.array(sim.src)
        elif style == 2:
            src = np.real(c.src).copy(); sim.src = src
        ret = sim.solve_fields()
        judge(mon, c, sim, ret, np.asarray(c.eps), src)
        if rng.random() < .3:
            # the same object solved again for another source and permittivity
            c.eps = gen.permittivity(rng, c.N)[0]
            c.with_source(rng)
            sim.eps_r = np.array(c.eps); sim.src = np.array(c.src)
            judge(mon, c, sim, sim.solve_fields(timing=bool(rng.random() < .3)), c.eps, c.src)
    else:
        # replica in the other polarization / unit of the same geometry: judged alike
        for pol in ('Ez', 'Hz'):
            c.pol = pol
            sim = c.build(eps=np.array(c.eps))
            judge(mon, c, sim, sim.solve_fields(), c.eps, c.src)
