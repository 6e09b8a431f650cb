import numpy as np
from .. import gen, ref
from ..gen import choice

PLAN = {'quick': {'power': 110, 'scale': 60, 'context': 80}, 'thorough': {'power': 1500, 'scale': 800, 'context': 1000}}
FLOORS = {'launched power': 44, 'square of the scale': 48, 'context': 60}
RULE = ('Modal sources in random waveguides; the recorded input power is compared with the Poynting power that an independent straight-waveguide simulation of the '
        'mode alone carries on either side.')
ASSUMPTIONS = ['single-mode guides whose mode fits into the mode width, at least 10 PML cells at both ends', 'power that is the same (5 %) at all distances from the source']


def waveguide(rng, pol=None, L0=None):
    """straight single-mode slab waveguide along axis ax"""
    L0 = L0 or choice(rng, [1e-6, 1e-6, 1e-9, 1.0])
    pol = pol or choice(rng, ['Ez', 'Hz'])
    n0 = float(rng.uniform(1.8, 3.4))
    cpl = float(rng.uniform(16, 26))*n0          # cells per vacuum wavelength
    dl = float(rng.uniform(.02, .1))
    lam = cpl*dl
    omega = 2*np.pi*ref.C0/(lam*L0)
    V = np.sqrt(n0**2-1)
    w = max(3, int(cpl/2/V*rng.uniform(.6, .95)))          # below the cut-off of the second mode
    # the evanescent tail: decays by e^-5 within the mode width
    n_eff = np.sqrt(1+(n0**2-1)*.25)
    tail = int(5*cpl/2/np.pi/np.sqrt(n_eff**2-1))
    tail = min(max(tail, 10), 60)
    m = w+2*tail
    return dict(pol=pol, L0=L0, dl=dl, omega=omega, n0=n0, w=w, m=m, cpl=cpl)


def section(g):
    e = np.ones(g['m']); a = (g['m']-g['w'])//2
    e[a:a+g['w']] = g['n0']**2
    return e


def launched(ret_pol, F, dl, ax, pos, m, d):
    """powers moving away from the source on either side, d cells from it"""
    return (ref.poynting_flux(ret_pol, F, dl, ax, pos+d+1, 0, m), -ref.poynting_flux(ret_pol, F, dl, ax, pos-d, 0, m))


def case(kind, rng, mon, tier):
    from angler import Simulation
    g = waveguide(rng)
    pol, L0, dl, omega, m = g['pol'], g['L0'], g['dl'], g['omega'], g['m']
    ax = int(rng.integers(2))
    p = int(rng.integers(12, 18)); q = choice(rng, [0, 0, 10])
    n = 2*p+int(rng.integers(30, 60))
    e = section(g)
    M = m+2*q
    full = np.concatenate([np.full(q, e[0]), e, np.full(q, e[-1])])
    npml = [p, q] if ax == 0 else [q, p]
    cen = M//2
    width = m if m % 2 == 0 else m-1
    pos = int(rng.integers(p+4, n-p-4))
    scale = float(10**rng.uniform(-2, 2))
    neff = g['n0']
    mon.param(ax=ax, n=n, pos=pos, scale=scale, NPML=npml, **{k: v for k, v in g.items()})
    eps = np.array(np.tile(full[None, :], (n, 1)) if ax == 0 else np.tile(full[:, None], (1, n)))

    def sim(eps=eps, pos=pos, scale=scale, neg=False):
        s = Simulation(omega, np.array(eps), dl, list(npml), pol, L0=L0)
        i = pos-(n if neg else 0)
        s.add_mode(neff, 'xy'[ax], [i, cen] if ax == 0 else [cen, i], width, scale=scale)
        return s
    s = sim(neg=rng.random() < .3)
    s.setup_modes()
    W = s.W_in
    mon.ok('positive number', np.isfinite(W) and np.isrealobj(W) and np.ndim(W) == 0 and W > 0, str(W))
    lo, hi = int(cen-width/2), int(cen+width/2)
    if kind == 'power':
        t = Simulation(omega, np.array(eps), dl, list(npml), pol, L0=L0)
        t.src = np.array(s.src).astype(complex)
        F = gen.fields(t, t.solve_fields())
        far = [ref.poynting_flux(pol, F, dl, ax, i, lo, hi) for i in range(p+3, n-p-2)]
        up = [v for i, v in zip(range(p+3, n-p-2), far) if i > pos+6]
        dn = [-v for i, v in zip(range(p+3, n-p-2), far) if i < pos-6]
        v = (up or dn)+(dn or up)
        if v:
            ref_p = float(np.median(v))
            if np.ptp(v) > .05*abs(ref_p) or ref_p <= 0:
                # waves along the line of the source, which the layers neither absorb nor keep out
                mon.event('power not settled'); return
            mon.le('launched power', abs(W/ref_p-1), 0.08, 'recorded %g, launched %g' % (W, ref_p))
    elif kind == 'scale':
        k = float(10**rng.uniform(-3, 3))
        t = sim(scale=scale*k); t.setup_modes()
        mon.le('square of the scale', abs(t.W_in/W/k**2-1), 1e-4)
        s.modes[0].scale = scale*k
        s.modes[0].setup_src(s)
        mon.le('square of the scale', abs(s.W_in/W/k**2-1), 1e-4, 'same object')
        s.setup_modes()
        mon.le('repeatable', abs(s.W_in/W/k**2-1), 1e-4)
    else:
        # the rest of the structure, other sources, earlier solves and the position do not matter
        junk = np.array(eps)
        idx = [i for i in range(n) if i != pos]
        r = 1+8*rng.random(eps.shape)
        if ax == 0:
            junk[idx, :] = r[idx, :]
        else:
            junk[:, idx] = r[:, idx]
        t = sim(junk)
        t.src = (rng.standard_normal(eps.shape)*scale*10)+0j
        if rng.random() < .5:
            t.solve_fields()
        if rng.random() < .5 and pol == 'Ez':
            t.add_nl(L0**2*1e-3/scale**2, np.ones(eps.shape))
        t.setup_modes()
        mon.le('context', abs(t.W_in/W-1), 1e-4, 'rest of the structure and other sources')
        # power spread over everything the straight guide holds settles with distance
        u = sim(pos=int(rng.integers(p+4, n-p-4))); u.setup_modes()
        mon.le('position', abs(u.W_in/W-1), 0.15, 'at another position')
        # other modes set up before do not matter either
        v = sim(); v.modes.insert(0, sim(pos=p+4, scale=scale*3).modes[0]); v.setup_modes()
        # a mode that is set up again measures the structure of that time
        w = sim()
        w.setup_modes()
        k = float(rng.uniform(1.1, 1.5))
        w.eps_r = 1+(np.array(eps)-1)*k
        w.setup_modes()
        x = sim(1+(np.array(eps)-1)*k); x.setup_modes()
        mon.le('context', abs(w.W_in/x.W_in-1), 1e-4, 'set up again in another structure')
        if rng.random() < .5:
            w.eps_r = np.array(eps)
            w.modes[0].setup_src(w)
            mon.le('context', abs(w.W_in/W-1), 1e-4, 'set up again in the first structure')
        if p+4 != pos:
            mon.le('context', abs(v.W_in/W-1), 1e-4, 'another mode set up before')
