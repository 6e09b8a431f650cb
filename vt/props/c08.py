import numpy as np
from .. import gen, ops
from ..gen import Cfg, choice

PLAN = {'quick': {'simulation': 80, 'probe': 40, 'objective': 60, 'nonlinearity': 40, 'plot': 24, 'run': 24, 'fresh': 1}, 'thorough': {'simulation': 400, 'probe': 200, 'objective': 300, 'nonlinearity': 200, 'plot': 100, 'run': 100, 'fresh': 3}}
FLOORS = {'rejected': 800, 'accepted': 300, 'works in a fresh interpreter': 25}
RULE = 'Invalid and neighbouring valid requests, drawn per case; an invalid one has to raise, a valid one has to return. Modules and functions are used by themselves in fresh interpreters.'


# each of these has to work in an interpreter that has imported nothing else
SIM = 'import numpy as np\nfrom angler import Simulation\ne = np.ones((30, 28)); e[12:18, 10:18] = 4\ns = Simulation(9e14, e, .1, [8, 8], "Ez")\ns.src[15, 12] = 1\n'
FRESH = {**{'module '+m: 'import angler.'+m for m in ('adjoint', 'constants', 'derivatives', 'filter', 'gradients', 'linalg', 'nonlinear_solvers', 'nonlinearity', 'objective',
                                                      'optimization', 'plot', 'pml', 'simulation', 'structures', 'utils', 'source.mode')},
         'animation': 'import numpy as np\nfrom angler.plot import plt_base_ani\nplt_base_ani(np.ones((4, 5))*1j, Nframes=5)',
         'solve': SIM+'assert abs(s.solve_fields()[2][14, 14]) > 0',
         'plots': SIM+'s.solve_fields(); s.plt_abs(); s.plt_re(); s.plt_eps(); s.plt_abs(logscale=True)',
         'nonlinear': SIM+'s.add_nl(1e-30, e > 1); s.solve_fields_nl(); s.plt_diff(); s.compute_index_shift()',
         'mode': SIM+'s.add_mode(1.5, "x", [12, 14], 10); s.setup_modes(); assert s.W_in > 0',
         'structures': 'import angler\nassert angler.two_port(2, 2, .4, 1, 1, .1, [10, 10], 5.)[0].shape == angler.structures.N_port(3, 2, 2, .4, .5, 1, 1, .1, [10, 10], 5.)[1].shape',
         'binarizer': 'import numpy as np, autograd.numpy as npa\nfrom angler import Binarizer\nb = Binarizer(np.ones((3, 3)), 4.)\n'
                      'assert abs(b.density(lambda a, c, e: npa.sum(a))(1., 1., np.ones((3, 3)))-1) < 1e-12',
         'optimization': SIM+'from angler import Optimization\nimport autograd.numpy as npa\nfrom angler.objective import Objective, obj_arg\n'
                         'o = Optimization(Objective(lambda a: npa.sum(npa.abs(a)**2), obj_arg("a")), s, 1.*(e > 1), eps_m=4., R=2)\n'
                         's.init_design_region(1.*(e > 1), 4., style="halfway"); o.run(method="lbfgs", Nsteps=1); o.check_deriv(Npts=1); o.plt_objs(); o.scan_frequency(Nf=2)',
         'temporary plots': 'from angler import Temp_plt\nTemp_plt(it_plot=2, folder="x")'}


def fresh(mon):
    import os, subprocess, sys
    from .. import core
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    jobs = list(FRESH.items())
    mon.param(programs=len(jobs))
    run = []
    while jobs or run:
        while jobs and len(run) < 6:
            n, c = jobs.pop(0)
            run.append((n, subprocess.Popen([sys.executable, '-W', 'ignore', '-c', c], cwd=os.environ.get('VT_SCRATCH', '/tmp'), env=env, stdin=subprocess.DEVNULL,
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        n, p = run.pop(0)
        try:
            err = p.communicate(timeout=200)[1].decode(errors='replace')
        except subprocess.TimeoutExpired:
            p.kill()
            raise core.Inconclusive('%s: still running' % n)
        if p.returncode in (-9, -15):
            raise core.Inconclusive('%s: ended by signal %d' % (n, -p.returncode))
        mon.ok('works in a fresh interpreter', p.returncode == 0, '%s: %s' % (n, err.strip()[-300:]))


def case(kind, rng, mon, tier):
    if kind == 'fresh':
        return fresh(mon)
    from angler import Simulation, Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    rej = lambda fn, msg: mon.raises('rejected', fn, msg)

    def acc(fn, msg):
        mon._count('accepted')
        return fn()
    c = Cfg(rng, mininner=12, maxinner=18, maxpml=6, oned=0, lossy=False, cells=25.)
    if not any(c.NPML):
        c.eps = c.eps*(1-.02j)
    c.describe(mon)
    e = np.array(c.eps)

    def mk(omega=c.omega, eps=e, dl=c.dl, NPML=None, pol=c.pol, L0=c.L0):
        return Simulation(omega, eps, dl, list(c.NPML) if NPML is None else NPML, pol, L0=L0)
    x = float(rng.uniform(1e-12, 1e20))
    if kind == 'simulation':
        acc(mk, 'valid')
        for w in (0, 0.0, -c.omega, -x, -1, -1e-30):
            rej(lambda: mk(omega=w), 'omega=%r' % w)
        for l in (0, 0.0, -1e-6, -1, -x):
            rej(lambda: mk(L0=l), 'L0=%r' % l)
        for p in ((5, 5), np.array([5, 5]), [5], [5, 5, 5], [], 5, None, '55', [-1, 5], [5, -1], [-1, -1], [-int(rng.integers(1, 99)), 0], [0, -int(rng.integers(1, 99))], {5: 5}):
            rej(lambda: Simulation(c.omega, e, c.dl, p, c.pol, L0=c.L0), 'NPML=%r' % (p,))
        for p in ('ez', 'hz', 'TE', 'TM', 'Ex', 'Ey', 'Hx', 'Hy', '', 'E', 'z', 'Ezz', None, 3, 'EzHz', 'Ez '):
            rej(lambda: mk(pol=p), 'pol=%r' % (p,))
        for p in ([0, 0], [0, 3], [3, 0], [3.0, 2], [1, 1]):
            acc(lambda: mk(NPML=p), 'NPML=%r' % p)
        for p in ('Ez', 'Hz'):
            acc(lambda: mk(pol=p), p)
        for w in (int(1e15), 1e15, np.float64(1e14), 1e-3):
            acc(lambda: mk(omega=w), 'omega')
        for l in (1, 1e-9, np.float64(1e-6)):
            acc(lambda: mk(L0=l), 'L0')
    elif kind == 'probe':
        s = mk(); s.src = gen.source(rng, c.N, 'point', c.inner())[0]
        cen = [c.N[0]//2, c.N[1]//2]
        for d in ('x', 'y'):
            rej(lambda: s.flux_probe(d, cen, 6), 'probing before solving')
        s.solve_fields()
        for d in ('x', 'y'):
            mon.ok('probe value', np.isfinite(acc(lambda: s.flux_probe(d, cen, 6), d)), d)
            rej(lambda: s.flux_probe(d, cen, 6, nl=True), 'nonlinear probe before nonlinear solve')
        for d in ('z', 'X', 'Y', '', 'xy', None, 0, 1, '-x', 'horizontal', 'x '):
            rej(lambda: s.flux_probe(d, cen, 6), 'direction %r' % (d,))

            def bad():
                t = mk()
                t.add_mode(1.5, d, cen, 8)
                t.setup_modes()
                return t
            rej(bad, 'mode direction %r' % (d,))
            from angler.source.mode import mode
            rej(lambda: mode(1.5, d, cen, 8, 1.).insert_mode(s, s.src), 'insert_mode direction %r' % (d,))
        for d in ('x', 'y'):
            t = mk(); t.add_mode(1.5, d, cen, 8); acc(t.setup_modes, 'mode '+d)
    elif kind == 'objective':
        for comp in ('Bz', 'ez', 'Dx', '', 'E', 'H', 'Ew', None, 0, 'Ezz', 'x', 'EzHz', 'Hzz'):
            for nl in (False, True):
                rej(lambda: obj_arg('a', component=comp, nl=nl), 'component %r' % (comp,))
        for comp in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz'):
            for nl in (False, True):
                acc(lambda: obj_arg('a', component=comp, nl=nl), comp)
        fs = [lambda: 0., lambda a: npa.sum(npa.abs(a)), lambda a, b: npa.sum(npa.abs(a*b)), lambda a, b, k: npa.sum(npa.abs(a*b*k))]
        zs = c.pol
        for na in range(0, 4):
            for nf in range(0, 4):
                args = [obj_arg(str(i), zs, False) for i in range(na)]
                if na == nf:
                    acc(lambda: Objective(fs[nf], args), '%d %d' % (na, nf))
                else:
                    rej(lambda: Objective(fs[nf], args), 'function of %d arguments with %d declared' % (nf, na))
        one = obj_arg('a', zs, False)
        acc(lambda: Objective(fs[1], one), 'single argument')
        rej(lambda: Objective(fs[2], one), 'single argument for a function of two')
        # a component that the polarization does not have
        des = np.zeros(c.N); des[c.N[0]//2, c.N[1]//2] = 1
        other = {'Ez': ('Hz', 'Ex', 'Ey'), 'Hz': ('Ez', 'Hx', 'Hy')}[c.pol]
        for comp in other + gen.FIELDS[c.pol]:
            for nl in (False, True):
                if nl and c.pol == 'Hz':
                    continue
                s = mk(); s.src = gen.source(rng, c.N, 'point', c.inner())[0]
                o = Optimization(Objective(fs[1], [obj_arg('a', comp, nl)]), s, des, eps_m=4.)
                if comp in other:
                    rej(lambda: o.compute_J(s), 'argument %s of a %s simulation' % (comp, c.pol))
                    o2 = Optimization(Objective(fs[2], [obj_arg('a', c.pol, False), obj_arg('b', comp, nl)]), s, des, eps_m=4.)
                    rej(lambda: o2.compute_J(s), 'argument %s of a %s simulation' % (comp, c.pol))
                else:
                    acc(lambda: o.compute_J(s), comp)
    elif kind == 'nonlinearity':
        reg = np.ones(c.N)
        s = mk()
        for t in ('chi2', 'Kerr', '', None, 'chi3', 'kerr ', 0, 'pockels'):
            rej(lambda: s.add_nl(1e-20, reg, nl_type=t), 'type %r' % (t,))
        mon.ok('rejected request leaves no trace', len(s.nonlinearity) == 0)
        for v in (True, 1):
            rej(lambda: s.add_nl(1e-20, reg, eps_scale=v), 'density scaling without eps_max')
            rej(lambda: s.add_nl(1e-20, reg, 'kerr', v, None), 'density scaling without eps_max')
        mon.ok('rejected request leaves no trace', len(s.nonlinearity) == 0)
        acc(lambda: s.add_nl(1e-20, reg), 'kerr'); acc(lambda: s.add_nl(1e-20, reg, 'kerr', True, 4.), 'scaled'); acc(lambda: s.add_nl(1e-20, reg, eps_scale=False, eps_max=4.), 'unscaled')
        mon.ok('accepted requests are kept', len(s.nonlinearity) == 3)
        s = mk(pol='Ez'); s.src = gen.source(rng, c.N, 'point', c.inner())[0]
        for n in ('Newton', 'foo', '', None, 'bornn', 0, 'anderson'):
            rej(lambda: s.solve_fields_nl(solver_nl=n), 'solver %r' % (n,))
        for n in ('born', 'newton', 'hybrid'):
            acc(lambda: s.solve_fields_nl(solver_nl=n), n)
        h = mk(pol='Hz'); h.src = s.src.copy()
        rej(lambda: h.solve_fields_nl(solver_nl='newton'), 'Newton for Hz polarization')
    elif kind == 'plot':
        s = mk(); s.src = gen.source(rng, c.N, 'point', c.inner())[0]
        for nl in (False, True):
            rej(lambda: s.plt_abs(nl=nl), 'plt_abs before solving'); rej(lambda: s.plt_re(nl=nl), 'plt_re before solving')
        rej(lambda: s.plt_diff(), 'plt_diff before solving')
        acc(lambda: s.plt_eps(outline=False), 'plt_eps')
        s.solve_fields()
        acc(lambda: s.plt_abs(outline=False), 'plt_abs'); acc(lambda: s.plt_re(outline=False), 'plt_re')
        rej(lambda: s.plt_diff(), 'plt_diff without nonlinear fields')
        rej(lambda: s.plt_abs(nl=True), 'nonlinear plt_abs without nonlinear fields')
        rej(lambda: s.plt_re(nl=True), 'nonlinear plt_re without nonlinear fields')
        # assigning a permittivity makes it unsolved again
        s.eps_r = np.array(c.eps)
        rej(lambda: s.plt_abs(), 'plt_abs after a new permittivity'); rej(lambda: s.plt_re(), 'plt_re after a new permittivity')
        ops.close_figs()
    else:
        s = mk(pol='Ez', eps=np.real(e)); s.src = gen.source(rng, c.N, 'point', c.inner())[0]
        des = np.zeros(c.N); x0, x1, y0, y1 = c.inner(); des[x0:x0+3, y0:y0+3] = 1
        o = Optimization(Objective(lambda a: npa.sum(npa.abs(a)**2), [obj_arg('a', 'Ez', False)]), s, des, eps_m=4.)
        for m in ('sgd', '', 'bfgs', 'LBFGSB', 'newton', 'adam ', 'gd2', 'a'):
            rej(lambda: o.run(method=m, Nsteps=1), 'method %r' % m)
        for m in ('LBFGS', 'lbfgs', 'GD', 'gd', 'ADAM', 'adam', 'Adam'):
            acc(lambda: o.run(method=m, Nsteps=1, step_size=1e-6), m)
        rej(lambda: o.scan_power(Ns=2), 'scan_power without probes')
        from angler.structures import accelerator_multi
        for n in (2, 4, 0):
            rej(lambda: accelerator_multi(.5, .4, 2., 1., .5, n, .1, [5, 0], 4.), '%d channels' % n)
        acc(lambda: accelerator_multi(.5, .4, 2., 1., .5, 3, .1, [5, 0], 4.), '3 channels')
        from angler.linalg import solver_direct, solver_complex2real
        import scipy.sparse as sp
        for n in ('mumps', '', 'superlu'):
            rej(lambda: solver_direct(sp.eye(3, format='csr')*1j, np.ones(3), solver=n), 'backend %r' % n)
            rej(lambda: solver_complex2real(sp.eye(3, format='csr')*1j, sp.eye(3, format='csr')*0j, np.ones(3), solver=n), 'backend %r' % n)
