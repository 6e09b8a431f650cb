import os, pickle, subprocess, sys
import numpy as np
import scipy.sparse as sp
from .. import core, gen, adj
from ..gen import choice, Cfg

PLAN = {'quick': {'direct': 300, 'split': 200, 'nonlinear': 60, 'adjoint': 60, 'fallback': 8},
        'thorough': {'direct': 20000, 'split': 10000, 'nonlinear': 1500, 'adjoint': 1500, 'fallback': 150}}
FLOORS = {'residual': 400, 'inputs kept': 400, 'unknown back end': 100, 'same without MKL': 20}
RULE = ('Random non-singular sparse systems (random sparsity, FDFD matrices, real and complex, symmetric and not, several orders of magnitude) with right-hand sides of every shape and dtype; '
        'whole simulations, nonlinear solves, objectives and gradients with either back end, the scipy fallback in a process in which MKL cannot be imported.')
ASSUMPTIONS = ['systems are non-singular with condition numbers below about 1e8']
BACK = ['pardiso', 'scipy', 'Pardiso', 'SCIPY']


def matrix(rng, n, real=False):
    kind = choice(rng, ['random', 'random', 'banded', 'symmetric', 'triangular', 'diagonal'])
    d = float(rng.uniform(.02, .5))
    A = sp.random(n, n, density=d, random_state=rng, format='csr')
    A.data = rng.standard_normal(A.data.size)
    A = A.astype(float if real else complex)
    if not real:
        A.data = A.data+1j*rng.standard_normal(A.data.size)
    if kind == 'banded':
        A = sp.csr_matrix(sp.triu(sp.tril(A, 2), -2))
    elif kind == 'symmetric':
        A = A+A.T
    elif kind == 'triangular':
        A = sp.tril(A)
    elif kind == 'diagonal':
        A = sp.csr_matrix((n, n), dtype=A.dtype)
    A = sp.csr_matrix(A)
    row = np.asarray(abs(A).sum(axis=1)).ravel()+1
    dom = choice(rng, [1.1, 1.1, .3])
    D = row*dom*(1 if real else np.exp(2j*np.pi*rng.random(n)))
    if kind == 'triangular':
        D = D+(D == 0)
    A = A+sp.diags(D)
    if rng.random() < .3:
        # rows and columns of different orders of magnitude
        A = sp.diags(10**rng.uniform(-3, 3, n)) @ A
    A = A*10.0**rng.uniform(-15, 15)
    return sp.csr_matrix(A) if rng.random() < .7 else sp.csc_matrix(A), kind


def fdfd(rng):
    c = Cfg(rng, maxinner=10, mininner=4, maxpml=6)
    s = c.build()
    return s.A, 'fdfd '+c.pol


def rhs(rng, n):
    dt = choice(rng, [np.float64, np.complex128, np.complex64, np.float32, np.int64])
    b = rng.standard_normal(n)*10.0**rng.uniform(-12, 12) if dt != np.int64 else rng.integers(-9, 9, n)
    if dt in (np.complex128, np.complex64):
        b = b*choice(rng, [np.exp(2j*np.pi*rng.random(n)), np.exp(2j*np.pi*rng.random(n)), 1j, -1.0])
    if rng.random() < .5:
        b = b*(rng.random(n) < .2)
    b = b.astype(dt)
    sh = choice(rng, ['flat', 'column', 'row', 'grid', 'fortran', 'strided'])
    if sh == 'column':
        b = b.reshape(-1, 1)
    elif sh == 'row':
        b = b.reshape(1, -1)
    elif sh in ('grid', 'fortran'):
        q = [k for k in range(1, n+1) if n % k == 0]
        b = b.reshape(choice(rng, q), -1)
        if sh == 'fortran':
            b = np.asfortranarray(b)
    elif sh == 'strided':
        big = np.zeros(2*n, b.dtype); big[::2] = b
        b = big[::2]
    return b, '%s %s' % (np.dtype(dt).name, sh)


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon, tier)


def good(A):
    try:
        return np.linalg.cond(A) < 1e8
    except Exception:
        return False


def do_direct(rng, mon, tier):
    from angler.linalg import solver_direct
    systems = []
    if rng.random() < .25:
        A, name = fdfd(rng)
    else:
        n = int(rng.integers(1, 60)) if rng.random() < .9 else int(rng.integers(60, 200))
        A, name = matrix(rng, n, rng.random() < .2)
    n = A.shape[0]
    systems.append(A)
    if rng.random() < .5:
        # another matrix with the same sparsity pattern, solved in between
        B = A.copy(); B.data = B.data*rng.uniform(.99, 1.01, B.data.size)
        systems.append(B)
    dense = [M.toarray() for M in systems]
    if not all(good(d) for d in dense):
        raise core.Skip('ill-conditioned')
    mon.param(n=n, matrix=name, format=A.format, dtype=str(A.dtype), systems=len(systems))
    for rep in range(2):
        for M, D in zip(systems, dense):
            b, sh = rhs(rng, n)
            mon.param(b=sh)
            b0 = np.array(b)
            kw = {} if rng.random() < .3 else dict(solver=choice(rng, BACK))
            x = solver_direct(M, b, **kw)
            flat = b0.reshape(-1).astype(complex)
            mon.ok('vector', np.shape(x) == (n,) and np.isfinite(x).all(), str(np.shape(x)))
            mon.le('residual', float(np.linalg.norm(D.dot(x)-flat)), 1e-7*float(np.linalg.norm(flat)), '%s %s' % (sh, kw))
            want = np.linalg.solve(D, flat)
            mon.le('solution', float(np.linalg.norm(x-want)), 1e-5*float(np.linalg.norm(want)), '%s %s' % (sh, kw))
            mon.same('inputs kept', b, b0); mon.same('inputs kept', M.toarray(), D)
    z = solver_direct(systems[0], np.zeros(n, choice(rng, [float, complex])), solver=choice(rng, BACK))
    mon.ok('zero right-hand side', np.shape(z) == (n,) and not np.any(z))
    mon.raises('unknown back end', lambda: solver_direct(systems[0], b, solver=choice(rng, ['mumps', 'umfpack', 'direct', ''])) if np.any(b) else 1/0)


def do_split(rng, mon, tier):
    from angler.linalg import solver_complex2real
    n = int(rng.integers(1, 50))
    A11, k1 = matrix(rng, n, rng.random() < .1) if rng.random() < .8 else fdfd(rng)
    n = A11.shape[0]
    A12, k2 = matrix(rng, n)
    if rng.random() < .5:
        A12 = sp.diags(A12.diagonal()).tocsr(); k2 = 'diagonal'
    A12 = A12*(abs(A11).max()/abs(A12).max()*10**rng.uniform(-6, -.5))
    a, c = A11.toarray(), A12.toarray()
    full = np.block([[a, c], [np.conj(c), np.conj(a)]])
    if not good(full):
        raise core.Skip('ill-conditioned')
    mon.param(n=n, A11=k1, A12=k2)
    for _ in range(2):
        b, sh = rhs(rng, n)
        b0 = np.array(b); mon.param(b=sh)
        kw = {} if rng.random() < .3 else dict(solver=choice(rng, BACK))
        x = solver_complex2real(A11, A12, b, **kw)
        flat = b0.reshape(-1).astype(complex)
        mon.ok('vector', np.shape(x) == (n,) and np.isfinite(x).all(), str(np.shape(x)))
        mon.le('residual', float(np.linalg.norm(a.dot(x)+c.dot(np.conj(x))-flat)), 1e-7*float(np.linalg.norm(flat)), '%s %s' % (sh, kw))
        want = np.linalg.solve(full, np.concatenate([flat, flat.conj()]))[:n]
        mon.le('solution', float(np.linalg.norm(x-want)), 1e-5*float(np.linalg.norm(want)), '%s %s' % (sh, kw))
        mon.same('inputs kept', b, b0); mon.same('inputs kept', A11.toarray(), a); mon.same('inputs kept', A12.toarray(), c)
    z = solver_complex2real(A11, A12, np.zeros(n), solver=choice(rng, BACK))
    mon.ok('zero right-hand side', np.shape(z) == (n,) and not np.any(z))
    mon.raises('unknown back end', lambda: solver_complex2real(A11, A12, b, solver='mumps') if np.any(b) else 1/0)


def do_nonlinear(rng, mon, tier):
    from angler.nonlinear_solvers import newton_solve
    from ..nl import NL
    p = NL(rng, shift=10**rng.uniform(-4, -2), maxinner=12)
    p.c.describe(mon, shift=p.shift, terms=len(p.terms))
    r = []
    for back in ('pardiso', 'scipy'):
        s = p.build()
        r.append(newton_solve(s, None, 1e-11, 20, solver=back))
    if any(not (np.asarray(q[3]) < 1e-9).any() for q in r):
        raise core.Skip('unconverged')
    for a, b in zip(r[0][:3], r[1][:3]):
        mon.close('same nonlinear fields', a, b, 1e-6, scale=max(float(np.max(np.abs(b))), 1e-12*float(np.max(np.abs(r[0][2])))))
    s = p.build()
    mon.raises('unknown back end', lambda: newton_solve(s, None, 1e-11, 20, solver='mumps'))


def do_adjoint(rng, mon, tier):
    from angler import adjoint
    nl = rng.random() < .4
    pol = 'Ez' if nl else choice(rng, ['Ez', 'Hz'])
    p = adj.Problem(rng, pol, nl=nl, maxinner=12, maxpml=7, weak=10**rng.uniform(-4, -2) if nl else None)
    p.describe(mon)
    s = p.sim()
    s.solve_fields()
    b = (rng.standard_normal(p.c.N)+1j*rng.standard_normal(p.c.N)).reshape(-1, 1)
    out = []
    for back in ('pardiso', 'scipy'):
        if nl:
            s.solve_fields_nl()
            v = adjoint.adjoint_kerr_Ez(s, b, solver=back)
        elif pol == 'Ez':
            v = adjoint.adjoint_linear_Ez(s, b, solver=back)
        else:
            v = adjoint.adjoint_linear_Hz(s, b, solver=back)
        out.append(v if isinstance(v, tuple) else (v,))
    for a, c in zip(*out):
        mon.close('same adjoint fields', a, c, 1e-6)
    if pol == 'Ez' and not nl:
        mon.raises('unknown back end', lambda: adjoint.adjoint_linear_Ez(s, b, solver='mumps'))


def do_fallback(rng, mon, tier):
    from .. import child27
    seed = int(rng.integers(2**31)); count = 6
    path = os.path.join(os.environ.get('VT_SCRATCH', '/tmp'), 'c27-%d-%d.pkl' % (os.getpid(), seed))
    mon.param(seed=seed)
    pr = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vt.child27', core.REPO, str(seed), str(count), path, 'nomkl'],
                        cwd=core.ROOT, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200)
    if pr.returncode != 0 or not os.path.exists(path):
        err = pr.stderr.decode(errors='replace')
        if pr.returncode < 0 or 'Error' not in err:
            raise core.Inconclusive('child: exit %d' % pr.returncode)
        mon.fail('works without MKL', err[-400:])
    mon._count('works without MKL')
    with open(path, 'rb') as f:
        d1, d2, res = pickle.load(f)
    os.unlink(path)
    mon.ok('falls back to scipy', d1 == 'scipy' and d2 == 'scipy', '%s %s' % (d1, d2))
    mine = child27.batch(seed, count)
    for a, b in zip(res, mine):
        for x, y in zip(a, b):
            if x.size and y.size:
                mon.close('same without MKL', x, y, 1e-5)
