"""Devices recorded for later analysis (data/device_saver.py)."""
import builtins, contextlib, copy, importlib.util, io, os, pickle, sys, tempfile, types, warnings
import numpy as np
from .. import core, gen, ref
from ..gen import choice
from .c25 import snapshot, unchanged

PLAN = {'quick': {'device': 70, 'save': 30}, 'thorough': {'device': 2500, 'save': 500}}
FLOORS = {'transmission': 100, 'index shift': 50, 'frequency scan': 100, 'power scan': 100, 'loaded = saved': 200, 'originals unchanged': 1000}
RULE = ('Random two-, three- and four-armed devices (made by the structure generators, with a modal source, weakly nonlinear), recorded as devices: transmissions, index shifts, frequency and power scans '
        'against independently built simulations and fluxes; saved to a scratch file and loaded again.')
ASSUMPTIONS = ['the package dill is not installed here: a pickler that keeps functions by reference stands in for it', 'points without convergence are not judged']
FUNCS = []


class Pickler(pickle.Pickler):
    def persistent_id(self, o):
        if isinstance(o, (types.FunctionType, types.ModuleType, types.BuiltinFunctionType)) or type(o).__module__.startswith('matplotlib'):
            FUNCS.append(o)
            return len(FUNCS)-1


class Unpickler(pickle.Unpickler):
    def persistent_load(self, i):
        return FUNCS[i]


def dill():
    m = types.ModuleType('dill')
    m.dump = lambda o, f, *a, **k: Pickler(f).dump(o)
    m.load = lambda f, *a, **k: Unpickler(f).load()

    def dumps(o, *a, **k):
        f = io.BytesIO(); Pickler(f).dump(o)
        return f.getvalue()
    m.dumps = dumps
    m.loads = lambda b, *a, **k: Unpickler(io.BytesIO(b)).load()
    return m


MOD = None


def module():
    global MOD
    if MOD is None:
        try:
            import dill as _          # noqa
        except ImportError:
            sys.modules['dill'] = dill()
        import matplotlib
        matplotlib.use('Agg')
        path = os.path.join(core.REPO, 'data', 'device_saver.py')
        spec = importlib.util.spec_from_file_location('device_saver', path)
        MOD = importlib.util.module_from_spec(spec)
        sys.modules['device_saver'] = MOD
        with contextlib.redirect_stdout(io.StringIO()):
            spec.loader.exec_module(MOD)
    return MOD


class Dev:
    """a drawn device"""

    def __init__(self, rng, big=False):
        from angler import structures as st
        self.kind = choice(rng, ['two_port', 'three_port', 'ortho_port'])
        self.dl = dl = float(choice(rng, [.05, .1, float(rng.uniform(.04, .12))]))
        self.NPML = [int(rng.integers(5, 9)), int(rng.integers(5, 9))]
        px = lambda a, b: int(rng.integers(a, b))*dl*1.0001
        self.w = w = px(3, 5)
        self.l = px(8, 13)
        if big:
            self.l = px(70, 110)
        L = px(8, 13); H = px(8, 12); spc = px(4, 7)
        self.eps_m = float(rng.uniform(3, 7))
        if self.kind == 'two_port':
            self.geo = (L, H, w, self.l, spc, dl, list(self.NPML), self.eps_m)
            self.H = H
        elif self.kind == 'three_port':
            self.d = px(6, 8); self.H = H = px(12, 15)
            self.geo = (L, H, w, self.d, self.l, spc, dl, list(self.NPML), self.eps_m)
        else:
            self.H = H = px(9, 13)
            self.geo = (L, L-2*dl, H, H-2*dl, w, self.l, dl, list(self.NPML), self.eps_m)
        self.eps, self.region = getattr(st, self.kind)(*self.geo)
        self.N = self.eps.shape
        if rng.random() < .6:
            # some pattern in the design region
            r = np.clip(gen.smooth(rng, self.N, 1), 0, 1)
            self.eps = np.where(self.region == 1, 1+(self.eps_m-1)*r, self.eps)
        self.L0 = choice(rng, [1e-6, 1e-6, 1e-9, 1.0])
        self.cells = float(rng.uniform(9, 16)*np.sqrt(self.eps_m))
        self.lam = self.cells*dl
        self.omega = 2*np.pi*ref.C0/(self.lam*self.L0)
        self.scale = float(10**rng.uniform(-2, 2))
        self.nx, self.ny = self.N[0]//2, self.N[1]//2
        self.pos = self.NPML[0]+int(rng.integers(2, 4))
        self.width = 2*int(w/dl)+4
        self.shift = 10**rng.uniform(-4, -2)
        self.chi = 0

    def build(self, omega=None, scale=None):
        from angler import Simulation
        s = Simulation(omega or self.omega, np.array(self.eps), self.dl, list(self.NPML), 'Ez', L0=self.L0)
        s.add_mode(float(np.sqrt(self.eps_m))*.9, 'x', [self.pos, self.ny], self.width, scale=scale or self.scale)
        s.setup_modes()
        if self.chi:
            s.add_nl(self.chi, np.array(self.region), eps_scale=True, eps_max=self.eps_m)
        return s

    def ports(self):
        """(name, axis, index along it, centre across, width) of the outputs"""
        P, l, dl = self.NPML, self.l, self.dl
        ex = self.N[0]-P[0]-int(l/2/dl)
        if self.kind == 'two_port':
            return [('out', 0, ex, self.ny, int(self.N[1]/2))]
        if self.kind == 'three_port':
            o = int(self.d/2/dl); w = int(self.H/2/dl)
            return [('top', 0, ex, self.ny+o, w), ('bot', 0, ex, self.ny-o, w)]
        w = int(self.H/2/dl)
        return [('right', 0, ex, self.ny, w), ('top', 1, self.N[1]-P[1]-int(l/2/dl), self.nx, w)]

    def fluxes(self, F):
        return [ref.poynting_flux('Ez', F, self.dl, ax, i, int(c-w/2), int(c+w/2)) for _, ax, i, c, w in self.ports()]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        yield seen


def unit_flux(dev, F):
    """scale of the rounding errors of a flux"""
    return dev.dl*max(dev.N)*.5*np.abs(F['Ez']).max()*max(np.abs(F['Hx']).max(), np.abs(F['Hy']).max())


def prepare(rng, mon, big=False):
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    dev = Dev(rng, big)
    s = dev.build()
    F = s.solve_fields()[2]
    top = float(np.max(np.abs(F*dev.region)))
    if top == 0:
        raise core.Skip('no field')
    dev.chi = dev.L0**2*dev.shift/3/top**2
    sim = dev.build()
    w = np.zeros(dev.N); w[dev.NPML[0]+2:-dev.NPML[0]-2, dev.ny-2:dev.ny+2] = rng.random((dev.N[0]-2*dev.NPML[0]-4, 4))
    nl = bool(rng.random() < .5)
    sc = top**2
    J = lambda f: npa.sum(w*npa.abs(f)**2)/sc
    opt = Optimization(Objective(J, obj_arg('Ez', component='Ez', nl=nl)), sim, np.array(dev.region), eps_m=dev.eps_m)
    mon.param(kind=dev.kind, geometry=[g for g in dev.geo], N=dev.N, L0=dev.L0, cells=dev.cells, scale=dev.scale, shift=dev.shift, nl=nl)
    return dev, sim, opt, J, nl


def nonlinear(s):
    r = s.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12, max_num_iter=30)
    return gen.fields(s, r[:3]), bool((np.asarray(r[3]) < 1e-9).any())


def case(kind, rng, mon, tier):
    import matplotlib.pyplot as plt
    Device = module().Device
    dev, sim, opt, J, nl = prepare(rng, mon, kind == 'save' and rng.random() < .15)
    if rng.random() < .5:
        sim.solve_fields()
    before = snapshot(sim)
    with quiet():
        D = Device(sim, opt)
        D.set_parameters(dev.lam*dev.L0, dev.dl, list(dev.NPML), dev.chi, dev.eps_m, dev.scale)
        D.set_geometry(dev.kind, *dev.geo)
    try:
        {'device': device, 'save': save}[kind](rng, mon, dev, sim, opt, J, nl, D)
    finally:
        plt.close('all')
    n = dict(mon.evals)
    unchanged(mon, sim, before)
    mon.evals['originals unchanged'] = mon.evals.get('originals unchanged', 0)+mon.evals.pop('simulation unchanged')
    mon.ok('originals unchanged', opt.simulation is sim)


def device(rng, mon, dev, sim, opt, J, nl, D):
    f = dev.build()
    L = gen.fields(f, f.solve_fields())
    NLF, conv = nonlinear(f)
    Nf, Np = int(rng.integers(2, 7)), int(rng.integers(1, 4))
    smin, smax = sorted(dev.scale*10**rng.uniform(-1.5, .2, 2))
    mon.param(Nf=Nf, Np=Np, smin=smin, smax=smax)
    mon.close('fields', np.asarray(D.Ez), L['Ez'], 1e-6)
    if conv:
        mon.close('fields', np.asarray(D.Ez_nl), NLF['Ez'], 1e-6)
    with quiet():
        if rng.random() < .5:
            D.generate_data(Nf=Nf, Np=Np, s_min=smin, s_max=smax)
            flags = True
        else:
            D.compute_index_shift(); D.calc_transmissions(); D.freq_scan(Nf=Nf); D.power_scan(Np=Np, s_min=smin, s_max=smax)
            flags = False
    mon.ok('flags', D.are_parameters_set and D.is_geometry_set and bool(D.is_data_generated) == flags)
    # transmissions
    Win = f.W_in
    mon.le('transmission', abs(D.W_in/Win-1), 1e-5, 'input power')
    names = [p[0] for p in dev.ports()]
    lin, non = dev.fluxes(L), dev.fluxes(NLF)
    floor = 1e-8*unit_flux(dev, L)
    for n, a, b in zip(names, lin, non):
        for suffix, want, ok in (('lin', a, True), ('nl', b, conv)):
            if ok:
                got = getattr(D, 'W_%s_%s' % (n, suffix))
                mon.le('transmission', abs(got-want), 1e-5*abs(want)+floor, '%s %s: %g, expected %g' % (n, suffix, got, want))
    if dev.kind == 'two_port':
        T = {('out', 0): D.T_lin, ('out', 1): D.T_nl}
    elif dev.kind == 'three_port':
        T = {(n, k): D.S[i][k] for i, n in enumerate(('top', 'bot')) for k in (0, 1)}
    else:
        T = {(n, k): D.S[k][i] for i, n in enumerate(('top', 'right')) for k in (0, 1)}
    for i, n in enumerate(names):
        for k, F in enumerate((lin, non)):
            if k == 0 or conv:
                mon.le('transmission', abs(T[n, k]-F[i]/Win), 1e-5*abs(F[i]/Win)+floor/Win, 'matrix entry of %s' % n)
    # index shift
    if conv:
        enl = dev.chi*3*np.abs(NLF['Ez']/dev.L0)**2*dev.region*(dev.eps-1)/(dev.eps_m-1)
        want = np.abs(np.sqrt(dev.eps+enl)-np.sqrt(dev.eps))
        mon.close('index shift', np.asarray(D.index_shift), want, 1e-6)
    # parameters
    mon.ok('parameters', (D.Nx, D.Ny) == tuple(dev.N) and (D.nx, D.ny) == (dev.nx, dev.ny) and D.structure_type == dev.kind and D.w == dev.w and D.l == dev.l and D.eps_start == dev.eps_m)
    mon.le('parameters', abs(D.grids_per_lamda/dev.cells-1), 1e-9); mon.le('parameters', abs(D.omega/dev.omega-1), 1e-3)
    # frequencies
    f0 = dev.omega/2/np.pi
    want = f0*(1+(np.arange(Nf)/(Nf-1)-.5)/400)
    mon.le('frequency scan', float(np.max(np.abs(np.asarray(D.freqs)/want-1))), 1e-11)
    for i in range(Nf):
        s = dev.build(); src = np.array(s.src)
        from angler import Simulation
        s = Simulation(2*np.pi*want[i], np.array(dev.eps), dev.dl, list(dev.NPML), 'Ez', L0=dev.L0); s.src = src
        s.add_nl(dev.chi, np.array(dev.region), eps_scale=True, eps_max=dev.eps_m)
        e = s.solve_fields()[2]
        if nl:
            F, ok = nonlinear(s)
            if not ok:
                mon.event('unconverged')
                continue
            e = F['Ez']
        mon.le('frequency scan', abs(D.objs[i]/float(J(e))-1), 1e-5, 'objective %d: %g, expected %g' % (i, D.objs[i], J(e)))
    if D.FWHM > 0:
        mon.le('frequency scan', abs(D.Q*D.FWHM/f0-1), 1e-3, 'quality factor')
    # powers
    S = np.array([smin*(smax/smin)**(k/(Np-1)) for k in range(Np)]) if Np > 1 else np.array([smin])
    mon.ok('power scan', len(D.powers) == Np and len(D.transmissions) == len(names) and all(len(t) == Np for t in D.transmissions))
    for k in range(Np):
        s = dev.build(scale=float(S[k]))
        s.solve_fields()
        mon.le('power scan', abs(D.powers[k]/s.W_in-1), 1e-5, 'input power %d' % k)
        F, ok = nonlinear(s)
        if not ok:
            mon.event('unconverged')
            continue
        for t, want in zip(D.transmissions, dev.fluxes(F)):
            mon.le('power scan', abs(t[k]-want/s.W_in), 1e-5*abs(want/s.W_in)+1e-8*unit_flux(dev, F)/s.W_in, 'point %d: %g, expected %g' % (k, t[k], want/s.W_in))


def equal(mon, a, b, path=''):
    if isinstance(a, np.ndarray) or np.isscalar(a):
        mon.same('loaded = saved', np.asarray(b), np.asarray(a), path)
    elif isinstance(a, (list, tuple)):
        mon.ok('loaded = saved', len(a) == len(b), path)
        for i, (x, y) in enumerate(zip(a, b)):
            equal(mon, x, y, '%s[%d]' % (path, i))


def save(rng, mon, dev, sim, opt, J, nl, D):
    m = module()
    todo = {'parameters', 'geometry', 'data'}
    with quiet():
        D = m.Device(sim, opt)
        if rng.random() < .6:
            D.set_parameters(dev.lam*dev.L0, dev.dl, list(dev.NPML), dev.chi, dev.eps_m, dev.scale); todo.discard('parameters')
        if rng.random() < .6:
            D.set_geometry(dev.kind, *dev.geo); todo.discard('geometry')
        if not todo & {'parameters', 'geometry'} and rng.random() < .7:
            D.generate_data(Nf=2, Np=2, s_min=dev.scale*.1, s_max=dev.scale); todo.discard('data')
    mon.raises('unknown structure types are rejected', lambda: D.set_geometry('four_port', *dev.geo))
    keep = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in D.__dict__.items()}
    with tempfile.TemporaryDirectory(prefix='vt37.') as tmp:
        fn = os.path.join(tmp, 'device.p')
        with quiet() as seen:
            D.save(fn)
        mon.ok('warns of missing parts', len([w for w in seen if issubclass(w.category, UserWarning)]) == len(todo), '%s missing, %d warnings' % (sorted(todo), len(seen)))
        mon.ok('writes one file', os.listdir(tmp) == ['device.p'], str(os.listdir(tmp)))
        E = m.load_device(fn)
    FUNCS.clear()
    for k, v in keep.items():
        mon.ok('loaded = saved', hasattr(E, k), 'attribute %s lost' % k)
        equal(mon, v, getattr(E, k), k); equal(mon, v, getattr(D, k), k)
    for k in ('Ez', 'Hx', 'Hy'):
        mon.same('loaded = saved', E.simulation.fields[k], D.simulation.fields[k], k)
    mon.same('loaded = saved', E.simulation.eps_r, sim.eps_r); mon.same('loaded = saved', E.simulation.src, sim.src)
    mon.close('loaded = saved', E.simulation.solve_fields()[2], np.asarray(D.simulation.fields['Ez']), 1e-9)
    mon.event('missing: %s' % sorted(todo))
