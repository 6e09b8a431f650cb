import numpy as np
from .. import gen
from ..gen import Cfg

TAIL = 0.02
PLAN = {'quick': {'points': 900, 'extended': 900}, 'thorough': {'points': 15000, 'extended': 15000}}
FLOORS = {'reciprocity': 400}
RULE = 'Two solves of the same random structure with exchanged sources; the overlap integrals of either source with the other field are compared.'


def case(kind, rng, mon, tier):
    c = Cfg(rng)
    if min(c.N) == 1 and rng.random() < .5:
        c = Cfg(rng)
    if not any(c.NPML) and rng.random() < .7:
        c.eps = c.eps*(1-0.02j)
    one = c.build()
    same = rng.random() < .5          # one object re-used, or two of them
    inner = c.inner(1)
    if kind == 'points':
        x0, x1, y0, y1 = inner
        pts = [(int(rng.integers(x0, x1)), int(rng.integers(y0, y1))) for _ in range(2)]
        S = []
        for p in pts:
            s = np.zeros(c.N, complex); s[p] = 1; S.append(s)
    else:
        S = [gen.source(rng, c.N, None, inner)[0] for _ in range(2)]
    c.describe(mon, same=same)
    F = []
    for s in S:
        sim = one if same else c.build()
        sim.src = s.copy()
        F.append(gen.fields(sim, sim.solve_fields())[c.pol])
    a = np.sum(S[0]*F[1]); b = np.sum(S[1]*F[0])
    bound = 1e-6*max(abs(a), abs(b)) + 1e-10*max(np.linalg.norm(S[0])*np.linalg.norm(F[1]), np.linalg.norm(S[1])*np.linalg.norm(F[0]))
    mon.le('reciprocity', abs(a-b), bound, '%s %s' % (a, b))
