"""Operations interrupted (Ctrl-C) at any line of the library, and then repeated."""
import contextlib, copy, io, os, shutil, sys, tempfile
import numpy as np
from .. import core, gen, runs
from . import c36
from ..gen import choice, Cfg
from ..nl import NL

PLAN = {'quick': {'simulation': 160, 'evaluate': 90, 'scan': 40, 'run': 60, 'go_on': 40, 'build': 60, 'plots': 6},
        'thorough': {'simulation': 4000, 'evaluate': 2500, 'scan': 1000, 'run': 1500, 'go_on': 1000, 'build': 1500, 'plots': 150}}
FLOORS = {'as without interruption': 900, 'interrupted': 350}
RULE = ('An operation is executed once undisturbed, on its own objects, while the lines of the library it runs through are listed; on other, equal objects a KeyboardInterrupt is raised at one of these lines '
        '(every distinct line is as likely), one to three times over, before the operation is repeated in full: all results must be those of the undisturbed one. Interrupted runs are also continued from the density they had reached.')
ASSUMPTIONS = ['interrupts arrive between lines of the library (a numerical routine is never left half-way by Python)', 'operations that append (add_mode, add_nl) are not repeated']


class Interrupt(KeyboardInterrupt):
    pass


ROOT = os.path.realpath(core.REPO)+os.sep


def traced(fn, see):
    """fn() with see(frame) before every line of the library"""
    def local(frame, event, arg):
        if event == 'line':
            see(frame)
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    sys.settrace(enter)
    try:
        return fn()
    finally:
        sys.settrace(None)


def lines_of(fn):
    """-> (result, {line: times it ran})"""
    n = {}

    def see(frame):
        k = (frame.f_code.co_filename, frame.f_lineno)
        n[k] = n.get(k, 0)+1
    r = traced(fn, see)
    return r, n


def interrupted(fn, line, count):
    """-> name of the function in which the interrupt was raised, None if fn() ended before"""
    left = [count]

    def see(frame):
        if (frame.f_code.co_filename, frame.f_lineno) == line:
            left[0] -= 1
            if left[0] == 0:
                raise Interrupt(frame.f_code.co_name)
    try:
        traced(fn, see)
    except Interrupt as e:
        return e.args[0]


def disturb(rng, mon, fn, seen):
    """interrupts fn() one to three times -> number of interrupts that arrived"""
    lines = sorted(seen)
    done = 0
    for _ in range(int(rng.integers(1, 4))):
        l = lines[int(rng.integers(len(lines)))]
        where = interrupted(fn, l, 1+int(rng.integers(seen[l])))
        if where is not None:
            done += 1
            mon.event('in '+where)
            mon._count('interrupted')
            mon.param(**{'line%d' % done: '%s:%d' % (os.path.basename(l[0]), l[1])})
    return done


def compare(mon, a, b, tol, what):
    mon.ok('as without interruption', a.keys() == b.keys(), '%s and %s' % (sorted(a), sorted(b)))
    for k, v in a.items():
        v = np.asarray(v)
        # (components along x and y have a common scale)
        s = max([float(np.max(np.abs(u))) for n, u in a.items() if np.size(u) and (n == k or n[-1:] in 'xyz' and n[:-1] == k[:-1] and n[-2:-1] in 'EH')] or [0])
        mon.close('as without interruption', np.asarray(b[k]), v, tol, scale=s, msg='%s of %s' % (k, what))


def case(kind, rng, mon, tier):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()['do_'+kind](rng, mon)


def fields(s, nl=False):
    return {k: np.array(v) for k, v in (s.fields_nl if nl else s.fields).items() if v is not None}


# ---------------------------------------------------------------- simulations

def do_simulation(rng, mon):
    op = choice(rng, ['assign', 'solve', 'nonlinear', 'nonlinear', 'modes', 'modes', 'index', 'init', 'parts'])
    if op == 'modes':
        from .c10 import draw, place
        m, n, L0, dl, n0, omega, e, k = draw(rng)
        ax = int(rng.integers(2)); pol = choice(rng, ['Ez', 'Hz'])
        eps = np.array(place(ax, e, n))
        if rng.random() < .7:
            # something in the way
            a = n//2+2
            if ax == 0:
                eps[a:a+3, m//3:] = rng.uniform(1, 6)
            else:
                eps[m//3:, a:a+3] = rng.uniform(1, 6)
        mid = [n//2, m//2] if ax == 0 else [m//2, n//2]
        mon.param(pol=pol, ax=ax, m=m, n=n, L0=L0, dl=dl, cross=k)
        scales = rng.uniform(.5, 2, 2); two = rng.random() < .5
        pml = [5, 0] if ax == 0 else [0, 5]

        def make():
            from angler import Simulation
            s = Simulation(omega, np.array(eps)*(1-.01j), dl, list(pml), pol, L0=L0)
            s.add_mode(float(np.sqrt(np.max(e))), 'xy'[ax], list(mid), m-2, scale=float(scales[0]))
            if two:
                c = list(mid); c[ax] += 1
                s.add_mode(float(np.sqrt(np.max(e))), 'xy'[ax], c, m-2, scale=float(scales[1]))
            return s

        def act(s):
            s.setup_modes()
            r = {'source': np.array(s.src), 'input power': s.W_in}
            s.solve_fields(); r.update(fields(s))
            return r
        tol = 1e-6
    else:
        p = NL(rng, shift=10**rng.uniform(-4, -2), maxinner=12, maxpml=6)
        p.c.describe(mon)
        pol = 'Ez'
        if op in ('assign', 'solve', 'init') and rng.random() < .5:
            pol = p.c.pol = 'Hz'
        e2 = np.array(p.c.eps)[::-1]
        e2 = e2*float(rng.uniform(.8, 1))+.5
        src2 = np.array(p.c.src)*.6
        design = gen.design(rng, p.c, margin=1)
        kw = dict(solver_nl=choice(rng, ['born', 'newton', 'hybrid']), max_num_iter=int(rng.integers(3, 12)))
        style = choice(rng, ['full', 'halfway', 'empty', 'random', ''])
        start = choice(rng, ['fresh', 'solved', 'solved for another source'])
        seed = int(rng.integers(2**31))

        def make():
            s = p.c.build()
            if pol == 'Ez':
                p.add(s)
            if start != 'fresh':
                s.solve_fields()
                if pol == 'Ez':
                    s.solve_fields_nl(solver_nl='newton')
            if start == 'solved for another source':
                s.src = np.array(src2)
                s.solve_fields()
            return s

        def act(s):
            np.random.seed(seed)
            if op == 'assign':
                s.eps_r = np.array(e2)
                s.solve_fields()
                r = fields(s); r['system'] = s.A.dot(np.ones(s.A.shape[0]))
            elif op == 'solve':
                s.solve_fields(); r = fields(s)
                w = max(2, s.Ny//2)
                r['flux'] = np.array(s.flux_probe('x', [s.Nx//2, s.Ny//2], w)) if w <= s.Ny else 0
                r.pop('flux') if abs(r['flux']) < 1e-6*s.dl*np.max(np.abs(r[pol]))*max(np.max(np.abs(v)) for k, v in r.items() if k not in (pol, 'flux')) else None
            elif op == 'nonlinear':
                c = s.solve_fields_nl(**kw)[3]; r = fields(s, True); r['iterations'] = np.sum(np.asarray(c) > 1e-8)
            elif op == 'index':
                r = {'shift': s.compute_index_shift()}; r.update(fields(s)); r.update({k+'_nl': v for k, v in fields(s, True).items()})
            elif op == 'parts':
                s.compute_nl(np.array(p.lin['Ez'])); r = {'eps_nl': s.eps_nl, 'dnl_de': s.dnl_de, 'dnl_deps': s.dnl_deps, 'Anl': s.Anl.diagonal()}
            else:
                s.init_design_region(design, 4., style=style)
                s.solve_fields()
                r = fields(s); r['density'] = np.array(s.rho)
            return {k: np.array(v) for k, v in r.items()}
        tol = 1e-8
    mon.param(op=op)
    A, seen = lines_of(lambda s=make(): act(s))
    s = make()
    if not disturb(rng, mon, lambda: act(s), seen):
        return
    compare(mon, A, act(s), tol, op)


# ---------------------------------------------------------------- optimizations

def do_evaluate(rng, mon):
    p = runs.problem(rng, maxinner=12)
    runs.normalize(p, rng)
    p.describe(mon)
    r2 = np.clip(p.rho*.8+.1*p.design, 0, 1)
    rho = np.where(p.design == 1, r2, p.rho)
    order = choice(rng, ['J', 'dJ', 'J dJ', 'dJ J', 'check'])
    mon.param(order=order)
    before = rng.random() < .6
    src = np.array(p.c.src)*.7
    seed = int(rng.integers(2**31))

    def make():
        s = p.sim(); o = p.optimization(s)
        if before:
            o.compute_J(s); o.compute_dJ(s, p.design)
        return s, o

    def act(t):
        s, o = t
        s.rho = np.array(rho); s.eps_r = p.eps(rho); s.src = np.array(src)
        np.random.seed(seed)
        if order == 'check':
            a, b = o.check_deriv(Npts=2)
            # (a difference of two values of the objective)
            return {'analytic': np.array(a), 'numerical': np.round(np.array(b), 4)*0+np.array(b)}
        r = {}
        for k in order.split():
            r[k] = np.array(o.compute_J(s)) if k == 'J' else np.array(o.compute_dJ(s, p.design))
        return r
    A, seen = lines_of(lambda t=make(): act(t))
    t = make()
    if not disturb(rng, mon, lambda: act(t), seen):
        return
    tol = 1e-5 if order == 'check' else 1e-7
    B = act(t)
    if order == 'check':
        J = abs(float(p.J_fresh(rho, src)))
        compare(mon, {'analytic': A['analytic']}, {'analytic': B['analytic']}, 1e-7, order)
        mon.close('as without interruption', B['numerical'], A['numerical'], 1, scale=1e-5*float(np.max(np.abs(A['numerical'])))+1e-8*max(J, 1e-3)/1e-3)
    else:
        compare(mon, A, B, tol, order)
    # ... and what is evaluated afterwards belongs to the present source and density
    s, o = t
    s.src = np.array(p.c.src)
    nl = any(n for _, n in p.args)
    want = p.J_fresh(rho, p.c.src)
    mon.le('objective afterwards', abs(o.compute_J(s)-want), (1e-6 if nl else 1e-9)*max(abs(want), 1e-2), order)


def do_scan(rng, mon):
    from angler import Optimization
    what = choice(rng, ['frequency', 'power'])
    if what == 'frequency':
        p = runs.problem(rng, maxinner=10)
        runs.normalize(p, rng)
        p.describe(mon); mon.param(what=what)
        Nf = int(rng.integers(2, 4)); df = float(rng.uniform(.01, .1))

        def make():
            s = p.sim(); o = p.optimization(s)
            return s, o

        def act(t):
            f, J, w = t[1].scan_frequency(Nf=Nf, df=df, pbar=False)
            return {'frequencies': f, 'objective': np.array(J), 'width': np.array(w)}
        tol = 1e-7
    else:
        from . import c26
        c = c26.setup(rng, True)
        c.describe(mon, what=what)
        solver = choice(rng, ['newton', 'born', 'hybrid'])
        t = c26.build(c); t.modes[0].setup_src(t)
        top = max([1e-300]+[float(np.max(np.abs(t.solve_fields()[2]*r))) for r in c.regions])
        c.chi = c.L0**2*min(c.shift, 1e-2)/3/top**2
        q = [n//2 for n in c.N]

        def make():
            import autograd.numpy as npa
            from angler.objective import Objective, obj_arg
            s = c26.build(c)
            return s, Optimization(Objective(lambda f: npa.sum(npa.abs(f)**2), obj_arg('f', component=c.pol)), s, np.ones(c.N))

        def act(t):
            P, T = t[1].scan_power(probes=[lambda s: float(np.sum(np.abs(s.fields_nl['Ez'][q[0]:])**2)), lambda s: float(np.sum(np.abs(s.fields['Ez'][:, q[1]:])**2))],
                                   Ns=2, s_min=.3, s_max=1, solver=solver)
            return {'powers': np.array(P), 'transmissions 0': np.array(T[0]), 'transmissions 1': np.array(T[1])}
        tol = 1e-6
    A, seen = lines_of(lambda t=make(): act(t))
    t = make()
    if not disturb(rng, mon, lambda: act(t), seen):
        return
    compare(mon, A, act(t), tol, what)
    if what == 'frequency':
        # the simulation itself is still at its own frequency
        nl = any(n for _, n in p.args)
        want = p.J_fresh(p.rho)
        mon.le('objective afterwards', abs(t[1].compute_J(t[0])-want), (1e-6 if nl else 1e-9)*max(abs(want), 1e-2), what)


def setup_run(rng, mon):
    p = runs.problem(rng, maxinner=10)
    runs.normalize(p, rng)
    method = choice(rng, ['LBFGS', 'GD', 'ADAM'])
    kw = dict(method=method, Nsteps=int(rng.integers(1, 4)), step_size=float(choice(rng, [1e-2, .1])))
    opts = {}
    if p.nlset is not None and rng.random() < .4:
        opts['max_ind_shift'] = 10**float(rng.uniform(-5, -3))
    p.describe(mon); mon.param(**kw, **opts)
    return p, kw, opts


def tail(o, n):
    return np.array(o.objfn_list[n:], float)


def do_run(rng, mon):
    p, kw, opts = setup_run(rng, mon)

    def make():
        s = p.sim(); return s, p.optimization(s, **opts)

    def act(t):
        s, o = t
        n = len(o.objfn_list)
        s.rho = np.array(p.rho); s.src = np.array(p.c.src)
        o.run(**kw)
        return {'density': np.array(s.rho), 'objective': tail(o, n), 'permittivity': np.array(s.eps_r)}
    A, seen = lines_of(lambda t=make(): act(t))
    t = make()
    if disturb(rng, mon, lambda: act(t), seen):
        B = act(t)
        mon.ok('as without interruption', B['objective'].shape == A['objective'].shape)
        compare(mon, A, B, 1e-6, 'run')


def do_go_on(rng, mon):
    """a run that is continued from where it was interrupted"""
    p, kw, opts = setup_run(rng, mon)

    def make():
        s = p.sim(); return s, p.optimization(s, **opts)

    def act(t):
        t[1].run(**kw)
    _, seen = lines_of(lambda t=make(): act(t))
    s, o = t = make()
    if not disturb(rng, mon, lambda: act(t), seen):
        return
    rho, src = np.array(s.rho), np.array(s.src)
    mon.ok('density is within its bounds', np.isfinite(rho).all() and rho.shape == p.c.N)
    mon.close('density outside is unchanged', rho*(p.design != 1), p.rho*(p.design != 1), 1e-12, scale=1)
    n = len(o.objfn_list)
    act(t)
    f = p.c.build(eps=p.eps(rho), src=src)
    if p.nlset is not None:
        p.nlset.add(f)
    f.rho = np.array(rho)
    q = p.optimization(f, **opts)
    q.run(**kw)
    compare(mon, {'density': np.array(f.rho), 'objective': tail(q, 0)}, {'density': np.array(s.rho), 'objective': tail(o, n)}, 1e-6, 'continued run')


def do_build(rng, mon):
    """constructions"""
    what = choice(rng, ['simulation', 'optimization', 'optimization', 'filter', 'structure'])
    p = runs.problem(rng, maxinner=10)
    p.describe(mon); mon.param(what=what)
    R = choice(rng, [1, 2, 3])

    def act():
        if what == 'simulation':
            s = p.sim(); s.solve_fields()
            return fields(s)
        if what == 'optimization':
            s = p.sim(); o = p.optimization(s)
            return {'J': np.array(o.compute_J(s)), 'dJ': np.array(o.compute_dJ(s, p.design))}
        if what == 'filter':
            from angler.filter import get_W, rho2eps
            W = get_W(*p.c.N, p.design, p.c.NPML, R=R)
            return {'W': W.toarray(), 'eps': rho2eps(np.array(p.rho), p.eps_m, W, eta=p.eta, beta=p.beta)}
        from angler import structures as st
        a, b = choice(np.random.default_rng(R), [lambda: st.three_port(2, 1, .3, .6, .5, .3, .05, [5, 5], 4.), lambda: st.two_port(2, 1, .3, .5, .3, .05, [5, 5], 4.),
                       lambda: st.N_port(3, 2, 2, .2, .5, .5, .3, .05, [5, 5], 4.), lambda: st.ortho_port(1, .5, 1, .5, .3, .3, .05, [5, 5], 4.),
                       lambda: st.accelerator(.5, .3, 2., .5, .3, .05, [5, 0], 4.), lambda: st.accelerator_multi(.5, .3, 2., .3, .2, 3, .05, [5, 0], 4.)])()
        return {'eps': a, 'design': b}
    A, seen = c36.child(lambda: lines_of(act))
    if disturb(rng, mon, act, seen):
        compare(mon, A, act(), 1e-6 if what == 'optimization' else 1e-9, what)


def do_plots(rng, mon):
    """temporary plots of an interrupted and repeated run"""
    from angler.plot import Temp_plt
    from ..ops import close_figs
    p, kw, opts = setup_run(rng, mon)
    d = tempfile.mkdtemp(prefix='vt39')
    try:
        dirs = [os.path.join(d, 'a'), os.path.join(d, 'b')]

        def make(k):
            s = p.sim(); return s, p.optimization(s, **opts), Temp_plt(it_plot=1, plot_what=('eps', 'of'), folder=dirs[k]+os.sep, dpi=30, figsize=(2, 2))

        def act(t):
            t[0].rho = np.array(p.rho); t[0].src = np.array(p.c.src)
            t[1].run(temp_plt=t[2], **kw)
            close_figs()
            return sorted(os.listdir(t[2].folder))
        A, seen = lines_of(lambda t=make(0): act(t))
        t = make(1)
        if disturb(rng, mon, lambda: act(t), seen):
            mon.ok('as without interruption', act(t) == A, 'temporary plots')
    finally:
        close_figs()
        shutil.rmtree(d)
