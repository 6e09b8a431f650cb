import numpy as np
from .. import gen
from ..gen import Cfg, choice
from .c04 import cmp, solve, well

TAIL = 0.02
PLAN = {'quick': {'sum': 600, 'zero': 120, 'unit': 600, 'frequency': 500}, 'thorough': {'sum': 10000, 'zero': 2000, 'unit': 10000, 'frequency': 8000}}
FLOORS = {'superposition': 300, 'unit': 300, 'frequency': 300, 'zero': 100}
RULE = 'Independent solves of a random set-up, of weighted sums of sources, and of the same system in another unit or scaled in frequency.'


def case(kind, rng, mon, tier):
    c = well(Cfg(rng)).with_source(rng)
    c.describe(mon)
    if kind == 'sum':
        n = int(rng.integers(2, 4))
        S = [gen.source(rng, c.N, None, c.inner(2))[0] for _ in range(n)]
        if rng.random() < .3:
            S[0] = np.real(S[0])
        if rng.random() < .5:
            # (from tiny to huge sources)
            m = 10.0**rng.uniform(-45, 30)
            S = [s*m for s in S]
            mon.param(magnitude=m)
        w = [10.0**rng.uniform(-3, 3)*np.exp(1j*rng.uniform(0, 6.28)) for _ in range(n)]
        tot = sum(a*s for a, s in zip(w, S))
        F = [solve(c, src=np.array(s)) for s in S]
        G = solve(c, src=tot)
        z = max(np.max(np.abs(a*f[c.pol])) for a, f in zip(w, F))
        for k in G:
            sc = max(np.max(np.abs(a*f[k])) for a, f in zip(w, F))
            if sc > 0:
                sc = max(sc, max(np.max(np.abs(a*f[q])) for a, f in zip(w, F) for q in f if q != c.pol) if k != c.pol else 0)
                mon.close('superposition', G[k], sum(a*f[k] for a, f in zip(w, F)), 1e-6, scale=sc, msg=k)
    elif kind == 'zero':
        s = c.build(src=np.zeros(c.N, choice(rng, [complex, float, np.complex64])))
        for r in range(2):
            for k, f in gen.fields(s, s.solve_fields()).items():
                mon.ok('zero', f.shape == c.N and not np.any(f), k)
    elif kind == 'unit':
        F = solve(c)
        k = choice(rng, [1e-3, 0.5, 2.0, 1e3, 1e6, float(np.exp(rng.uniform(-7, 7)))])
        G = solve(c, L0=c.L0*k, dl=c.dl/k)
        mon.param(k=k)
        cmp(mon, 'unit', {n: g*k for n, g in G.items()}, F, c.pol)
    else:
        F = solve(c)
        k = float(np.exp(rng.uniform(-4, 4)))
        G = solve(c, omega=c.omega*k, dl=c.dl/k)
        mon.param(k=k)
        cmp(mon, 'frequency', {n: g*k for n, g in G.items()}, F, c.pol)
