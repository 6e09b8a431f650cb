import numpy as np
from .. import gen, ref
from ..gen import Cfg, choice

TAIL = 0.02
PLAN = {'quick': {'probe': 500, 'box': 700, 'nlbox': 160, 'segments': 300}, 'thorough': {'probe': 8000, 'box': 12000, 'nlbox': 2500, 'segments': 5000}}
FLOORS = {'probe = Poynting power': 500, 'box balance': 400, 'nonlinear box balance': 60}
RULE = ('Probe values on random lines are compared with an independent Poynting sum over the same cells; closed boxes of four probes are balanced '
        'against the work of the sources inside and the absorption inside, computed from the solved fields.')


def cells(center, width):
    return int(center-width/2), int(center+width/2)


def absorbed(pol, F, eps, omega, dl, L0, x0, x1, y0, y1):
    """power dissipated in the material of the box, per unit depth"""
    e2 = -np.imag(np.asarray(eps)+0j)
    w = omega*ref.EPS0*L0
    if pol == 'Ez':
        return 0.5*dl**2*w*float(np.sum(e2[x0:x1, y0:y1]*np.abs(F['Ez'][x0:x1, y0:y1])**2))
    px = ref.avg(e2, 0)*np.abs(F['Ey'])**2          # on the backward x edges
    py = ref.avg(e2, 1)*np.abs(F['Ex'])**2
    nx, ny = px.shape
    tot = 0
    for i in range(x0, x1):
        tot += np.sum(px[i, y0:y1]+px[(i+1) % nx, y0:y1])/2
    for j in range(y0, y1):
        tot += np.sum(py[x0:x1, j]+py[x0:x1, (j+1) % ny])/2
    return 0.5*dl**2*w*float(tot)


def work(pol, F, src, dl, x0, x1, y0, y1):
    """power delivered by the sources inside of the box"""
    s = src[x0:x1, y0:y1]
    if pol == 'Ez':
        return -0.5*dl**2*float(np.real(np.sum(F['Ez'][x0:x1, y0:y1]*np.conj(s))))
    return -0.5*dl**2*float(np.real(np.sum(np.conj(F['Hz'][x0:x1, y0:y1])*s)))


def probes(sim, x0, x1, y0, y1, nl):
    cx, cy, wx, wy = (x0+x1)/2, (y0+y1)/2, x1-x0, y1-y0
    return [-sim.flux_probe('x', [x0, cy], wy, nl=nl), sim.flux_probe('x', [x1, cy], wy, nl=nl),
            -sim.flux_probe('y', [cx, y0], wx, nl=nl), sim.flux_probe('y', [cx, y1], wx, nl=nl)]


def balance(mon, name, c, sim, F, eps, src, x0, x1, y0, y1, nl, tol):
    P = probes(sim, x0, x1, y0, y1, nl)
    W = work(c.pol, F, src, c.dl, x0, x1, y0, y1)
    A = absorbed(c.pol, F, eps, c.omega, c.dl, c.L0, x0, x1, y0, y1)
    z = F[c.pol][x0:x1, y0:y1]
    # rounding: reactive powers flow back and forth
    t = [F[k][x0:x1+1, y0:y1+1] for k in F if k != c.pol]
    scale = sum(abs(p) for p in P)+abs(W)+abs(A)+1e-3*c.dl*float(np.sum(np.abs(z)))*max(float(np.max(np.abs(q))) for q in t)
    if scale == 0:
        return
    mon.le(name, abs(sum(P)-(W-A))/scale, tol, 'probes %s work %g absorbed %g' % (P, W, A))


def case(kind, rng, mon, tier):
    if kind == 'nlbox':
        c = Cfg(rng, pol='Ez', oned=0, maxinner=20, maxpml=9, cells=float(rng.uniform(14, 30)))
        if not any(c.NPML):
            c.eps = c.eps*(1-.03j)
        c.with_source(rng, kind='point')
        c.describe(mon)
        s = c.build()
        F = gen.fields(s, s.solve_fields())
        chi = c.L0**2*float(rng.uniform(.001, .03))/3/np.max(np.abs(F['Ez']))**2
        reg = (rng.random(c.N) < .7)*1.
        s.add_nl(chi, reg)
        r = s.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12)
        if r[3].min() > 0:
            mon.event('unconverged'); return
        G = gen.fields(s, r[:3])
        x0, x1, y0, y1 = c.inner(1)
        for _ in range(3):
            a = sorted(rng.choice(np.arange(x0, x1), 2, replace=False)); b = sorted(rng.choice(np.arange(y0, y1), 2, replace=False))
            e = np.asarray(c.eps)+3*chi/c.L0**2*reg*np.abs(G['Ez'])**2
            balance(mon, 'nonlinear box balance', c, s, G, e, c.src, int(a[0]), int(a[1]), int(b[0]), int(b[1]), True, 1e-6)
            balance(mon, 'box balance', c, s, F, c.eps, c.src, int(a[0]), int(a[1]), int(b[0]), int(b[1]), False, 1e-6)
            for d in ('x', 'y'):
                n = [int(a[0]), int(b[0])]
                w = int(rng.integers(1, 7))
                lo, hi = cells(n[1 if d == 'x' else 0], w)
                if lo < 0:
                    continue
                for nl, Q in ((True, G), (False, F)):
                    p = ref.poynting_flux('Ez', Q, c.dl, 0 if d == 'x' else 1, n[0 if d == 'x' else 1], lo, hi)
                    sc = max(abs(p), 1e-3*c.dl*np.max(np.abs(Q['Ez']))*max(np.max(np.abs(Q[k])) for k in ('Hx', 'Hy')))
                    mon.le('probe = Poynting power', abs(s.flux_probe(d, n, w, nl=nl)-p)/sc, 1e-9, 'nl=%s' % nl)
        return
    c = Cfg(rng, oned=0.05 if kind == 'probe' else 0)
    if not any(c.NPML):
        c.eps = c.eps*(1-.02j)
    c.with_source(rng)
    c.describe(mon)
    s = c.build()
    F = gen.fields(s, s.solve_fields())
    if kind == 'probe':
        t = [k for k in F if k != c.pol]
        for _ in range(8):
            d = int(rng.integers(2))
            i = int(rng.integers(0, c.N[d]))
            m = c.N[1-d]
            w = int(rng.integers(1, m+1))
            q = int(rng.integers((w+1)//2, m-w//2+1)) if m-w//2+1 > (w+1)//2 else (w+1)//2
            lo, hi = cells(q, w)
            hi = min(hi, m)
            if lo < 0 or hi <= lo:
                continue
            neg = rng.random() < .3
            cen = [0, 0]; cen[d] = i-c.N[d] if neg else i; cen[1-d] = q
            v = s.flux_probe('xy'[d], cen if rng.random() < .5 else tuple(cen), w)
            p = ref.poynting_flux(c.pol, F, c.dl, d, i, lo, hi)
            sc = c.dl*np.max(np.abs(F[c.pol]))*max(np.max(np.abs(F[k])) for k in t)
            mon.le('probe = Poynting power', abs(v-p), 1e-9*abs(p)+1e-13*sc, '%s %s width %d: %g %g' % ('xy'[d], cen, w, v, p))
            mon.ok('real number', np.isrealobj(v) and np.ndim(v) == 0)
    elif kind == 'segments':
        x0, x1, y0, y1 = 0, c.N[0], 0, c.N[1]
        for d in (0, 1):
            m = c.N[1-d]; i = int(rng.integers(c.N[d]-1))
            cuts = sorted(set([0, m]+[int(v) for v in rng.integers(0, m+1, int(rng.integers(1, 4)))]))
            tot = 0; mag = 0
            for a, b in zip(cuts[:-1], cuts[1:]):
                cen = [0, 0]; cen[d] = i; cen[1-d] = (a+b)/2
                v = s.flux_probe('xy'[d], cen, b-a); tot += v; mag += abs(v)
            cen = [0, 0]; cen[d] = i; cen[1-d] = m/2
            v = s.flux_probe('xy'[d], cen, m)
            mon.le('segments add up', abs(v-tot), 1e-9*(mag+abs(v)), str(cuts))
    else:
        x0, x1, y0, y1 = c.inner(1)
        for _ in range(3):
            a = sorted(rng.choice(np.arange(x0, x1), 2, replace=False)); b = sorted(rng.choice(np.arange(y0, y1), 2, replace=False))
            a0, a1, b0, b1 = int(a[0]), int(a[1]), int(b[0]), int(b[1])
            balance(mon, 'box balance', c, s, F, c.eps, c.src, a0, a1, b0, b1, False, 1e-6)
            if not np.any(c.src[a0:a1, b0:b1]) and not np.any(np.imag(c.eps[np.ix_(np.arange(a0-1, a1+1) % c.N[0], np.arange(b0-1, b1+1) % c.N[1])])):
                P = probes(s, a0, a1, b0, b1, False)
                t = [F[k] for k in F if k != c.pol]
                sc = sum(abs(p) for p in P)+1e-3*c.dl*float(np.sum(np.abs(F[c.pol][a0:a1+1, b0:b1+1])))*max(float(np.max(np.abs(q[a0:a1+1, b0:b1+1]))) for q in t)
                if sc > 0:
                    mon.le('empty box', abs(sum(P))/sc, 1e-6, str(P))
