import copy
import numpy as np
from .. import gen, ops
from ..gen import Cfg, choice

PLAN = {'quick': {'history': 160, 'optimize': 48, 'scan': 24, 'parts': 60}, 'thorough': {'history': 3000, 'optimize': 700, 'scan': 300, 'parts': 800}}
FLOORS = {'caller array': 1500, 'other simulation': 500}
RULE = ('Byte-exact snapshots of every array handed to the library and of bystander simulations built from the same arrays, compared after each operation.')


class Snap:
    """byte-exact copies of arrays"""

    def __init__(self):
        self.items = []

    def add(self, name, a):
        self.items.append((name, a, a.copy(order='K'), a.dtype))
        return a

    def check(self, mon, after):
        for name, a, b, dt in self.items:
            mon._count('caller array')
            if a.dtype != dt or a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
                mon.fail('caller array', '%s was modified by %s' % (name, after))


class Bystander:
    def __init__(self, name, sim):
        self.name, self.sim = name, sim
        sim.solve_fields()
        self.a = [(k, getattr(sim, k), np.array(getattr(sim, k))) for k in ('eps_r', 'src', 'eps_nl', 'mu_r')]
        self.f = {k: (v, None if v is None else v.copy()) for k, v in sim.fields.items()}
        self.rho = None if sim.rho is None else np.array(sim.rho)
        self.n = (len(sim.nonlinearity), len(sim.modes))
        self.A = sim.A.copy()

    def check(self, mon, after):
        s = self.sim
        mon._count('other simulation')
        bad = [k for k, a, b in self.a if not np.array_equal(getattr(s, k), b)]
        bad += ['field '+k for k, (v, b) in self.f.items() if (s.fields[k] is None) != (b is None) or (b is not None and not np.array_equal(s.fields[k], b))]
        bad += ['rho'] if (s.rho is None) != (self.rho is None) or (self.rho is not None and not np.array_equal(s.rho, self.rho)) else []
        bad += ['lists'] if (len(s.nonlinearity), len(s.modes)) != self.n else []
        bad += ['system matrix'] if abs(s.A-self.A).max() > 0 else []
        if bad:
            mon.fail('other simulation', '%s: %s changed by %s' % (self.name, bad, after))


def case(kind, rng, mon, tier):
    from angler import Simulation, Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    snap = Snap()
    if kind == 'history':
        st = ops.make(rng, mon)
        st.c.describe(mon)
        eps = snap.add('permittivity', np.array(st.eps))
        npml = list(st.NPML); npml0 = list(npml)
        st.sim = Simulation(st.c.omega, eps, st.c.dl, npml, st.pol, L0=st.c.L0)
        st.src = np.array(st.sim.src)
        st.given = snap.add
        others = [Bystander('built from the same array', Simulation(st.c.omega, eps, st.c.dl, npml, st.pol, L0=st.c.L0))]
        others[0].sim.src[:] = 0
        trace = []
        p = ops.WEIGHTS/ops.WEIGHTS.sum()
        for i in range(int(rng.integers(3, 10))):
            op = ops.OPS[int(rng.choice(len(ops.OPS), p=p))]
            trace.append(op.__name__); mon.param(trace=trace)
            before = st.sim
            op(rng, st)
            mon.event(op.__name__)
            snap.check(mon, op.__name__)
            for b in others:
                b.check(mon, op.__name__)
            mon.ok('caller array', npml == npml0, 'PML list changed by '+op.__name__)
            if rng.random() < .3:
                others.append(Bystander('deep copy', copy.deepcopy(st.sim)))
            if rng.random() < .4:
                for k, f in zip(gen.FIELDS[st.pol], st.sim.solve_fields()):
                    snap.add('earlier returned field '+k, f)
            if rng.random() < .3 and st.pol == 'Ez':
                r = st.sim.solve_fields_nl(solver_nl='born', max_num_iter=3)
                for k, f in zip(gen.FIELDS[st.pol], r):
                    snap.add('earlier returned nonlinear field '+k, f)
            if rng.random() < .3:
                e = snap.add('assigned permittivity', np.array(st.eps))
                st.sim.eps_r = e
            if rng.random() < .3:
                r = snap.add('nonlinear region', (rng.random(st.N) < .5)*1.0)
                st.sim.add_nl(st.chi*.1, r)
            if rng.random() < .3:
                d = snap.add('design region', (rng.random(st.N) < .3)*1.0)
                st.sim.init_design_region(d, 3., style=choice(rng, ['full', 'halfway', 'empty', 'random', 'random_sym', '']))
                st.eps = np.array(st.sim.eps_r)
            snap.check(mon, 'operations after '+op.__name__)
            for b in others:
                b.check(mon, 'operations after '+op.__name__)
        return
    if kind == 'parts':
        from angler import filter as flt, structures, utils
        from angler.nonlinearity import Nonlinearity
        N = (int(rng.integers(14, 26)), int(rng.integers(14, 26)))
        npml = [int(rng.integers(0, 4)), int(rng.integers(0, 4))]
        d = snap.add('design region', (rng.random(N) < .5)*1.0)
        rho = snap.add('density', rng.random(N))
        W = flt.get_W(N[0], N[1], d, npml, R=int(rng.integers(1, 4)))
        snap.check(mon, 'get_W')
        wd = W.copy()
        flt.rho2rhot(rho, W); flt.rhot2rhob(rho, .5, 10.); flt.rhob2eps(rho, 4.); flt.eps2rho(rho, 4.); flt.rho2eps(rho, 4., W); flt.drhob_drhot(rho, .4, 7.)
        flt.drhot_drho(W); flt.deps_drhob(rho, 4.)
        snap.check(mon, 'filter functions')
        mon.ok('caller array', abs(W-wd).max() == 0, 'filter matrix changed')
        utils.rho_bar(rho); utils.drho_bar_drho(rho); utils.eps2rho_bar(rho, 3.); utils.rho_bar2eps(rho, 3.)
        e = snap.add('field', rng.standard_normal(N)+1j*rng.standard_normal(N))
        nl = Nonlinearity(1e-3, d, eps_scale=bool(rng.random() < .5), eps_max=4.)
        nl.eps_nl(e, rho); nl.dnl_de(e, rho); nl.dnl_deps(e, rho)
        snap.check(mon, 'nonlinearity')
        b = utils.Binarizer(d, 4.)
        for f in (b.density, b.density_exp, b.smoothness):
            f(lambda a, c, eps: npa.sum(npa.abs(a)))(e, e, rho)
        snap.check(mon, 'binarizer')
        xs, ys = structures.get_grid(N, .1)
        snap.add('xs', xs); snap.add('ys', ys)
        structures.apply_regions([lambda x, y: x > 0], xs, ys, 4.)
        snap.check(mon, 'structures')
        from angler.linalg import solver_direct, solver_complex2real, grid_average
        import scipy.sparse as sp
        n = 40
        A = sp.random(n, n, .1, format='csr', random_state=int(rng.integers(1e6)))*(1+.5j)+sp.eye(n)*4
        A = A.tocsr(); Ac = A.copy()
        v = snap.add('right-hand side', rng.standard_normal(n)+0j)
        B = (A*.1).tocsr(); Bc = B.copy()
        for s in ('pardiso', 'scipy'):
            solver_direct(A, v, solver=s); solver_complex2real(A, B, v, solver=s)
        snap.check(mon, 'direct solvers')
        mon.ok('caller array', abs(A-Ac).max() == 0 and abs(B-Bc).max() == 0, 'matrix changed')
        grid_average(e, 'x'); grid_average(e, 'y')
        # one-dimensional structures
        line = snap.add('one-dimensional permittivity', 1+rng.random(N[0]))
        s1 = Simulation(1e15, line, .05, [int(rng.integers(0, 4)), 0], choice(rng, ['Ez', 'Hz']))
        snap.check(mon, 'a simulation of it')
        s1.src[N[0]//2, 0] = 1; s1.solve_fields()
        two = snap.add('second one-dimensional permittivity', 1+rng.random(N[0]))
        s1.eps_r = two; s1.solve_fields()
        s1.init_design_region(np.ones((N[0], 1)), 3., style='halfway')
        snap.check(mon, 'operations on a simulation of it')
        snap.check(mon, 'grid_average')
        mon.param(N=list(N), NPML=npml)
        return
    # optimizations and scans
    pol = 'Ez' if kind == 'scan' else choice(rng, ['Ez', 'Hz'])
    N = (int(rng.integers(26, 34)), int(rng.integers(24, 30))); npml = [6, choice(rng, [0, 6])]
    c = Cfg(rng, pol=pol, N=N, NPML=npml, L0=1e-6, cells=float(rng.uniform(20, 30)), lossy=False, eps_kind='wg_x')
    eps = snap.add('permittivity', np.array(c.eps))
    sim = Simulation(c.omega, eps, c.dl, npml, pol, L0=c.L0)
    d = np.zeros(N); d[12:18, 10:16] = 1
    snap.add('design region', d)
    by = [Bystander('built from the same array', Simulation(c.omega, eps, c.dl, npml, pol, L0=c.L0))]
    st = choice(rng, ['random', 'halfway', 'rho', None])
    if st == 'rho':
        sim.rho = snap.add('density', (np.array(c.eps)-1)/4*(1-d)+d*rng.random(N))
    elif st:
        sim.init_design_region(d, 5., style=st)
    by[0].check(mon, 'init_design_region'); snap.check(mon, 'init_design_region')
    x0 = 8
    if kind == 'scan' or rng.random() < .4:
        sim.add_mode(2., 'x', [x0, N[1]//2], 10, scale=1.)
        sim.setup_modes()
    else:
        sim.src[x0, 11:15] = 1
    nl = pol == 'Ez' and rng.random() < .6
    reg = snap.add('nonlinear region', np.array(d))
    if nl:
        sim.solve_fields()
        chi = 1e-2*c.L0**2/3/np.max(np.abs(sim.fields['Ez']))**2
        sim.add_nl(chi, reg, eps_scale=True, eps_max=5.)
    R = choice(rng, [None, 2])
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)**2)*1e-3, [obj_arg('e', pol, bool(nl))]), sim, d, eps_m=5., R=R, beta=choice(rng, [1e-9, 5.]),
                     max_ind_shift=1e-3 if nl and rng.random() < .5 else None)
    by.append(Bystander('deep copy', copy.deepcopy(sim)))
    mon.param(N=list(N), NPML=npml, pol=pol, start=st, nl=bool(nl), R=R)

    def chk(what):
        snap.check(mon, what)
        for b in by:
            b.check(mon, what)
        mon.event(what)
    if kind == 'optimize':
        m = choice(rng, ['gd', 'adam', 'lbfgs'])
        o.run(method=m, Nsteps=3, step_size=1e-2)
        chk('run '+m)
        for f in sim.solve_fields():
            snap.add('earlier returned field', f)
        g = snap.add('earlier gradient', o.compute_dJ(sim, d))
        o.check_deriv(Npts=2)
        chk('check_deriv')
        o.run(method='gd', Nsteps=2, step_size=1e-2)
        chk('second run')
        o.plt_objs(); ops.close_figs()
        chk('plt_objs')
    else:
        o.run(method='gd', Nsteps=1, step_size=1e-3)
        b = Bystander('the scanned simulation', sim)
        chk('run')
        o.scan_frequency(Nf=3, df=.02, pbar=False)
        chk('scan_frequency'); b.check(mon, 'scan_frequency')
        o.scan_power(probes=[lambda s: s.flux_probe('x', [N[0]-9, N[1]//2], 10, nl=True)], Ns=2, s_min=1e-2, s_max=1., solver='born')
        chk('scan_power'); b.check(mon, 'scan_power')
        mon.ok('other simulation', sim.modes[0].scale == 1., 'mode scale changed by scan_power')
