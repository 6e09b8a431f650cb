import contextlib, io
import numpy as np
from .. import gen, adj, runs
from ..gen import choice, Cfg
from ..nl import NL

PLAN = {'quick': {'solve': 160, 'nonlinear': 70, 'assemble': 120, 'mode': 60, 'adjoint': 50, 'run': 24},
        'thorough': {'solve': 4000, 'nonlinear': 1500, 'assemble': 3000, 'mode': 1200, 'adjoint': 1000, 'run': 500}}
FLOORS = {'fields': 240, 'nonlinear fields': 140, 'system matrix': 90, 'source': 50, 'adjoint field': 40, 'run': 24, 'scan': 10}
RULE = ('Every computation with its options of presentation and storage (timing, matrix format, progress bar, verbosity, averaging where nothing is averaged) against the same computation without them.')
ASSUMPTIONS = ['matrix formats csr and csc']
FORMATS = ['csr', 'csc']


def case(kind, rng, mon, tier):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()['do_'+kind](rng, mon)


def options(rng, mon, *names):
    kw = {}
    for n in names:
        if rng.random() < .7:
            kw[n] = {'timing': lambda: bool(rng.random() < .8), 'matrix_format': lambda: choice(rng, FORMATS),
                     'averaging': lambda: bool(rng.random() < .3)}[n]()
    mon.param(options=kw)
    for n in kw:
        mon.event('option '+n)
    return kw


def do_solve(rng, mon):
    c = Cfg(rng).with_source(rng)
    c.describe(mon)
    a = c.build(); A = gen.fields(a, a.solve_fields())
    # (permittivities are only averaged for Hz)
    kw = options(rng, mon, *(['timing', 'matrix_format']+(['averaging'] if c.pol == 'Ez' else [])))
    b = c.build(); B = gen.fields(b, b.solve_fields(**kw))
    for k in A:
        mon.close('fields', B[k], A[k], 1e-9, msg=k)
        mon.same('stored fields', b.fields[k], B[k], k)
    # ... nor do they change what the simulation computes later
    mon.same('source', np.asarray(b.src), np.asarray(a.src))
    C = gen.fields(b, b.solve_fields())
    for k in A:
        mon.close('fields', C[k], A[k], 1e-9, msg=k+' afterwards')


def do_nonlinear(rng, mon):
    p = NL(rng, shift=10**rng.uniform(-4, -2), maxinner=12, maxpml=6)
    p.c.describe(mon)
    solver = choice(rng, ['born', 'newton', 'hybrid'])
    m = int(rng.integers(2, 12))
    kw = options(rng, mon, 'timing', 'matrix_format', 'averaging')
    a = p.build(); ra = a.solve_fields_nl(solver_nl=solver, max_num_iter=m)
    b = p.build(); rb = b.solve_fields_nl(solver_nl=solver, max_num_iter=m, **kw)
    for x, y in zip(ra[:3], rb[:3]):
        mon.close('nonlinear fields', y, x, 1e-8)
    h, g = np.asarray(ra[3]).reshape(-1), np.asarray(rb[3]).reshape(-1)
    mon.ok('history', h.shape == g.shape, '%s %s' % (h.shape, g.shape))
    mon.same('source', np.asarray(b.src), np.asarray(a.src))
    for x, y in zip(ra[:3], b.solve_fields_nl(solver_nl=solver, max_num_iter=m)[:3]):
        mon.close('nonlinear fields', y, x, 1e-8, msg='afterwards')
    k = max(1, int(np.sum(h > 1e-8)))
    mon.close('history', g[:k], h[:k], 1e-6, scale=max(1e-6, float(np.max(h))))
    f = choice(rng, FORMATS)
    e = ra[2]
    a.compute_nl(e); b.compute_nl(e, matrix_format=f)
    mon.le('nonlinear part of the system', abs(a.Anl-b.Anl).max(), 1e-12*max(abs(a.Anl).max(), 1e-300), f)


def do_assemble(rng, mon):
    from angler.linalg import construct_A, dL, solver_eigs
    from angler.derivatives import createDws
    from angler.pml import S_create, create_sfactor
    c = Cfg(rng)
    c.describe(mon)
    s = c.build()
    kw = options(rng, mon, 'timing', 'matrix_format')
    A, d = construct_A(s.omega, s.xrange, s.yrange, s.eps_r, s.NPML, s.pol, s.L0, **kw)
    mon.ok('system matrix', A.shape == s.A.shape and abs(A-s.A).max() <= 1e-13*abs(s.A).max(), str(kw))
    for k in s.derivs:
        mon.ok('derivatives', abs(d[k]-s.derivs[k]).max() <= 1e-13*max(abs(s.derivs[k]).max(), 1e-300), k)
    f = kw.get('matrix_format', 'csr')
    N = np.array(c.N)
    for a, b in zip(S_create(s.omega, s.L0, N, s.NPML, s.xrange, s.yrange), S_create(s.omega, s.L0, N, s.NPML, s.xrange, s.yrange, matrix_format=f)):
        mon.ok('layers', abs(a-b).max() == 0, f)
    w, q = choice(rng, 'xy'), choice(rng, 'fb')
    # (names are compared by value, not by identity)
    n, r = (np.str_(w), np.str_(q)) if rng.random() < .5 else (w, q)
    a, b = createDws(w, q, [c.dl, c.dl], c.N), createDws(n, r, [c.dl, c.dl], c.N, matrix_format=f)
    mon.same('difference operators', create_sfactor(s.xrange, s.L0, r, s.omega, c.N[0], s.NPML[0]), create_sfactor(s.xrange, s.L0, q, s.omega, c.N[0], s.NPML[0]))
    mon.ok('difference operators', abs(a-b).max() == 0 if a.nnz else b.nnz == 0, w+q+f)


def do_mode(rng, mon):
    from ..props.c10 import draw, place
    from angler import Simulation
    m, n, L0, dl, n0, omega, e, k = draw(rng)
    ax = int(rng.integers(2)); pol = choice(rng, ['Ez', 'Hz'])
    eps = place(ax, e, n)
    mon.param(pol=pol, ax=ax, m=m, n=n, L0=L0, dl=dl, cross=k)
    kw = options(rng, mon, 'matrix_format')
    out = []
    for o in ({}, kw):
        s = Simulation(omega, np.array(eps), dl, [0, 0], pol, L0=L0)
        c = [n//2, m//2] if ax == 0 else [m//2, n//2]
        s.add_mode(float(np.sqrt(np.max(e))), 'xy'[ax], c, m-2, scale=2.)
        s.eps_r = s.eps_r*(1-.01j)
        s.modes[0].insert_mode(s, s.src, **o)
        out.append(np.array(s.src))
    mon.close('source', out[1], out[0], 1e-6)


def do_adjoint(rng, mon):
    from angler.adjoint import adjoint_linear_Ez, adjoint_linear_Hz, adjoint_kerr_Ez
    what = choice(rng, ['Ez', 'Hz', 'kerr'])
    kw = {'matrix_format': choice(rng, FORMATS)}
    if rng.random() < .5:
        kw['solver'] = choice(rng, ['pardiso', 'scipy'])
    if what != 'Hz' and rng.random() < .5:
        kw['averaging'] = bool(rng.random() < .5)
    if what == 'kerr':
        p = NL(rng, shift=10**rng.uniform(-4, -2), maxinner=10, maxpml=6)
        p.c.describe(mon, what=what, options=kw)
        s = p.build(); s.solve_fields_nl(solver_nl='newton')
    else:
        c = Cfg(rng, pol=what, maxinner=14).with_source(rng)
        c.describe(mon, what=what, options=kw)
        s = c.build(); s.solve_fields()
    b = rng.standard_normal((s.Nx, s.Ny))+1j*rng.standard_normal((s.Nx, s.Ny))
    f = {'Ez': adjoint_linear_Ez, 'Hz': adjoint_linear_Hz, 'kerr': adjoint_kerr_Ez}[what]
    x, y = f(s, b), f(s, b, **kw)
    for u, v in zip(*((x, y) if what == 'Hz' else ([x], [y]))):
        mon.close('adjoint field', v, u, 1e-6, msg=str(kw))


def do_run(rng, mon):
    p = runs.problem(rng, maxinner=12)
    runs.normalize(p, rng)
    p.describe(mon)
    method = choice(rng, runs.METHODS)
    out = []
    for verbose in (None, bool(rng.random() < .7)):
        s = p.sim(); o = p.optimization(s)
        o.run(method=method, Nsteps=2, step_size=1e-2, **({} if verbose is None else {'verbose': verbose}))
        out.append((np.array(s.rho), list(o.objfn_list)))
    mon.close('run', out[1][0], out[0][0], 1e-6, scale=1)
    mon.ok('run', len(out[0][1]) == len(out[1][1]))
    if rng.random() < .7:
        a = p.optimization(p.sim()).scan_frequency(Nf=3, df=.05, pbar=False)
        b = p.optimization(p.sim()).scan_frequency(Nf=3, df=.05, **({'pbar': True} if rng.random() < .5 else {}))
        mon.close('scan', b[1], a[1], 1e-7); mon.same('scan', b[0], a[0])
        mon.le('scan', abs(b[2]-a[2]), 1e-9*abs(a[2]))
