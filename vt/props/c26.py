import copy
import numpy as np
from .. import gen, ref
from ..gen import choice, Cfg
from .c25 import snapshot, unchanged

PLAN = {'quick': {'scan': 150, 'linear': 60, 'beyond': 60, 'refused': 10}, 'thorough': {'scan': 3000, 'linear': 1500, 'beyond': 1500, 'refused': 30}}
FLOORS = {'input power': 200, 'linear transmission': 150, 'nonlinear transmission': 60, 'constant transmission': 25, 'hybrid solves the nonlinear equations': 20}
RULE = ('Scans with the hybrid solver into the regime where the Born series fails and Newton converges, judged by the residual of the nonlinear equations seen by the probe. '
        'Random power scans (1 to 6 points over up to four decades, linear and nonlinear probes, every solver, one or two modes): input powers and transmissions against '
        'independently built simulations whose mode has that scale.')
ASSUMPTIONS = ['points at which the independent nonlinear simulation does not converge are not judged (counted in observed_events)']


def setup(rng, nl):
    pol = 'Ez' if nl else choice(rng, ['Ez', 'Hz'])
    ax = int(rng.integers(2))
    NPML = [int(rng.integers(5, 9)), choice(rng, [0, int(rng.integers(5, 8))])]
    N = [2*NPML[0]+int(rng.integers(14, 26)), 2*NPML[1]+int(rng.integers(10, 18))]
    if ax:
        NPML.reverse(); N.reverse()
    c = Cfg(rng, pol=pol, NPML=NPML, N=N, cells=float(rng.uniform(12, 30)), eps=np.ones(N))
    c.ax = ax
    L, M = N[ax], N[1-ax]
    e = np.ones((L, M))
    cen = M//2; h = int(rng.integers(2, min(5, cen-2)))
    emax = float(rng.uniform(2.5, 9))
    e[:, cen-h:cen+h] = emax
    P = NPML[ax]
    c.pos = P+int(rng.integers(1, 4))
    a = c.pos+3
    if rng.random() < .8:
        # some obstacle behind the source
        x = sorted(rng.integers(a, L-P, 2)); y = sorted(rng.integers(0, M+1, 2))
        e[x[0]:x[1]+1, y[0]:y[1]+1] = rng.uniform(1, emax)
    c.cells = float(rng.uniform(9, 16)*np.sqrt(emax)); c.lam = c.dl*c.cells; c.omega = 2*np.pi*ref.C0/(c.lam*c.L0)     # (resolved)
    c.eps = e if ax == 0 else np.array(e.T)
    c.cen = cen; c.width = 2*int(rng.integers(h+1, M//2))      # (more than the guide: no degenerate modes)
    c.modes = [c.pos]
    if rng.random() < .25:
        c.modes.append(L-P-2)
    c.neff = float(np.sqrt(emax)*rng.uniform(.85, 1))
    c.scales = [float(10**rng.uniform(-1, 1)) for _ in c.modes]
    c.regions = []
    if nl:
        for _ in range(int(rng.integers(1, 3))):
            c.regions.append(gen.design(rng, c, margin=0))
    c.shift = 10**rng.uniform(-4, -1.7)
    c.chi = 0
    return c


def build(c, setup_modes=True):
    s = c.build()
    for pos, sc in zip(c.modes, c.scales):
        cen = [pos, c.cen] if c.ax == 0 else [c.cen, pos]
        s.add_mode(c.neff, 'xy'[c.ax], cen, c.width, scale=sc)
    for r in c.regions:
        s.add_nl(c.chi, np.array(r))
    if setup_modes:
        s.setup_modes()
    return s


def probes(rng, c, nl):
    """-> list of functions of a simulation"""
    out = []
    x0, x1, y0, y1 = c.inner(0)
    for _ in range(int(rng.integers(1, 4))):
        n = bool(rng.random() < .6) and nl
        if rng.random() < .75:
            d = c.ax if rng.random() < .7 else 1-c.ax
            lo, hi = [(x0, x1), (y0, y1)][d]
            pos = int(rng.integers(lo, hi))
            wlo, whi = [(x0, x1), (y0, y1)][1-d]
            w = int(rng.integers(2, whi-wlo)) if whi-wlo > 2 else 1
            mid = (wlo+whi)//2
            cen = [pos, mid] if d == 0 else [mid, pos]
            out.append(('flux '+'xy'[d]+(' nl' if n else ''), n, lambda s, d=d, cen=cen, w=w, n=n: s.flux_probe('xy'[d], list(cen), w, nl=n)))
        else:
            q = (int(rng.integers(x0, x1)), int(rng.integers(y0, y1)))
            comp = choice(rng, gen.FIELDS[c.pol])
            out.append(('intensity '+comp+(' nl' if n else ''), n, lambda s, q=q, comp=comp, n=n: float(abs((s.fields_nl if n else s.fields)[comp][q])**2)))
    return out


def beyond(rng, mon):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    c = setup(rng, True)
    c.shift = 10**rng.uniform(-.5, 1.5)
    smax = float(10**rng.uniform(-2, 2))
    c.describe(mon, ax='xy'[c.ax], modes=c.modes, smax=smax, shift=c.shift)
    t = build(c)
    t.modes[0].scale = smax; t.modes[0].setup_src(t)
    F = t.solve_fields()[2]
    top = max([float(np.max(np.abs(F*r))) for r in c.regions])
    if top == 0:
        return mon.event('no field')
    c.chi = c.L0**2*c.shift/3/top**2
    t = build(c); t.modes[0].scale = smax; t.modes[0].setup_src(t)
    conv = {}
    for k in ('born', 'newton'):
        g = copy.deepcopy(t)
        g.solve_fields()
        try:
            conv[k] = np.asarray(g.solve_fields_nl(solver_nl=k, conv_threshold=1e-10, max_num_iter=100)[3])
        except (ArithmeticError, ValueError):
            return mon.event('overflow')
        # (long iterations may be chaotic)
        conv[k] = bool((conv[k][:100 if k == 'born' else 20] < 1e-10).any())
    mon.event('born %s, newton %s' % (conv['born'], conv['newton']))
    if not conv['newton']:
        return
    seen = []

    def probe(s):
        E = np.array(s.fields_nl['Ez'])
        # the equations: (linear operator + chi |E|^2) E = source, by independent means
        eps = np.asarray(s.eps_r)+sum(3*c.chi*np.abs(E/c.L0)**2*r for r in c.regions)
        seen.append(({k: np.array(v) for k, v in s.fields_nl.items() if v is not None}, eps, np.array(s.src)))
        return float(np.sum(np.abs(E)**2))
    sim = build(c)
    w = np.zeros(c.N); w[c.N[0]//2, c.N[1]//2] = 1
    opt = Optimization(Objective(lambda f: npa.sum(w*npa.abs(f)**2), obj_arg('f', component=c.pol)), sim, np.ones(c.N))
    P, T = opt.scan_power(probes=[probe], Ns=1, s_min=smax, s_max=smax, solver='hybrid')
    F, eps, src = seen[0]
    mon.le('input power', abs(P[0]/t.W_in-1), 1e-5)
    mon.close('hybrid solves the nonlinear equations', np.array(T[0]), np.array([np.sum(np.abs(F['Ez'])**2)/P[0]]), 1e-9)
    F = {k: F[k] for k in gen.FIELDS['Ez']}
    ref.check_maxwell(mon, 'Ez', F, eps, src, c.omega, c.dl, c.L0, c.NPML, tol=1e-5, margin=1, prefix='hybrid solves the nonlinear equations: ')
    mon.ok('hybrid solves the nonlinear equations', True)


def case(kind, rng, mon, tier):
    if kind == 'beyond':
        return beyond(rng, mon)
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    nl = kind == 'scan' and rng.random() < .75
    c = setup(rng, nl)
    decades = rng.uniform(0, 4) if kind != 'linear' else rng.uniform(1, 5)
    smax = float(10**rng.uniform(-2, 3)); smin = float(smax/10**decades)
    Ns = int(rng.integers(1, 7)) if kind != 'linear' else int(rng.integers(2, 6))
    solver = choice(rng, ['newton', 'newton', 'born', 'hybrid', None]) if c.pol == 'Ez' else 'born'
    c.describe(mon, ax='xy'[c.ax], modes=c.modes, scales=c.scales, neff=c.neff, Ns=Ns, smin=smin, smax=smax, solver=solver, nl=len(c.regions), shift=c.shift)
    if nl:
        t = build(c)
        t.modes[0].scale = smax
        t.modes[0].setup_src(t)
        top = max([1e-300]+[float(np.max(np.abs(t.solve_fields()[2]*r))) for r in c.regions])
        c.chi = c.L0**2*c.shift/3/top**2
    sim = build(c)
    pr = probes(rng, c, True)
    mon.param(probes=[p[0] for p in pr])
    w = np.zeros(c.N); w[c.N[0]//2, c.N[1]//2] = 1
    opt = Optimization(Objective(lambda f: npa.sum(w*npa.abs(f)**2), obj_arg('f', component=c.pol)), sim, np.ones(c.N))
    if kind == 'refused':
        mon.raises('probes are required', lambda: opt.scan_power(Ns=Ns, s_min=smin, s_max=smax), 'no probes')
        return
    if rng.random() < .5:
        sim.solve_fields()
        if rng.random() < .5 and c.pol == 'Ez':
            sim.solve_fields_nl()
    before = snapshot(sim)
    scales = [m.scale for m in sim.modes]
    kw = {} if solver is None else dict(solver=solver)
    powers, trans = opt.scan_power(probes=[p[2] for p in pr], Ns=Ns, s_min=smin, s_max=smax, **kw)
    unchanged(mon, sim, before)
    mon.ok('simulation unchanged', scales == [m.scale for m in sim.modes], 'mode scales')
    mon.ok('one value per point and probe', len(powers) == Ns and len(trans) == len(pr) and all(len(t) == Ns for t in trans), '%d points, %s' % (len(powers), [len(t) for t in trans]))
    S = np.array([smin*(smax/smin)**(k/(Ns-1)) for k in range(Ns)]) if Ns > 1 else np.array([smin])
    # (sources are kept in single precision)
    mon.le('power grows with the square of the scale', float(np.max(np.abs(np.log(np.asarray(powers)/powers[0])-2*np.log(S/S[0])))), 2e-5)
    for k in range(Ns):
        f = build(c)
        f.modes[0].scale = float(S[k])
        f.modes[0].setup_src(f)
        L = gen.fields(f, f.solve_fields())
        mon.le('input power', abs(powers[k]/f.W_in-1), 1e-5, 'point %d' % k)
        conv = True
        if not nl:
            NLF = L
        elif any(p[1] for p in pr):
            r = f.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12, max_num_iter=30)
            conv = bool((np.asarray(r[3]) < 1e-9).any())
            if solver == 'born':
                g = build(c); g.modes[0].scale = float(S[k]); g.modes[0].setup_src(g)
                conv = conv and bool((np.asarray(g.solve_fields_nl(solver_nl='born', conv_threshold=1e-9, max_num_iter=60)[3]) < 1e-9).any())
            NLF = gen.fields(f, r[:3])
        f.fields.update(L)
        if conv:
            f.fields_nl.update(NLF) if nl is False or any(p[1] for p in pr) else None
        # (a flux is a difference of powers: judged relative to the largest power through any line)
        x = [abs(L[a]).max() for a in gen.FIELDS[c.pol]]
        top = f.dl*max(c.N)*.5*x[2]*max(x[0], x[1])
        for j, (name, isnl, fn) in enumerate(pr):
            if isnl and not conv:
                mon.event('unconverged')
                continue
            want = fn(f)/f.W_in
            got = trans[j][k]
            tol = 1e-5*abs(want)+(1e-9*top/f.W_in if 'flux' in name else 1e-12*abs(want))
            mon.le('nonlinear transmission' if isnl else 'linear transmission', abs(got-want), tol+1e-300, '%s at point %d: %g, expected %g' % (name, k, got, want))
    if kind == 'linear' and len(c.modes) == 1:
        # nothing nonlinear: the transmissions are the same at every power
        for j, (name, isnl, fn) in enumerate(pr):
            t = np.asarray(trans[j], float)
            mon.le('constant transmission', float(np.ptp(t)), 1e-5*float(np.max(np.abs(t)))+1e-9*top/f.W_in+1e-300, name)
