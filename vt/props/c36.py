"""The values of a computation in a fresh process, and in one that has done other work before."""
import copy, os, pickle, random, signal, traceback
import numpy as np
from .. import gen
from ..gen import choice

gen.DECOY = 0
PLAN = {'quick': {'fields': 120, 'nonlinear': 70, 'mode': 60, 'density': 60, 'gradient': 90, 'run': 48, 'scan': 40, 'parts': 80},
        'thorough': {'fields': 3000, 'nonlinear': 1500, 'mode': 1500, 'density': 2000, 'gradient': 2000, 'run': 800, 'scan': 600, 'parts': 2000}}
FLOORS = {'same as in a fresh process': 1200, 'same when repeated': 1200}
RULE = ('Every computation (a complete use of the library, from plain numbers and arrays to its results) runs in a process forked before the library was used at all, and in another one which first '
        'does other work: the same computation with one parameter or array changed (in place, in the very array objects handed over before, or in new ones), other computations, failing requests. '
        'All results must agree, and again when the computation is repeated with another state of the random generators, which it may not set to a fixed one.')
ASSUMPTIONS = ['results are compared to 1e-8 of their largest value (1e-7 for iterative computations, 1e-6 for optimization runs), since solvers may reorder their sums']

OMEGA1 = 2*np.pi*299792458.0


# ---------------------------------------------------------------- computations: parameters -> results (run in the children only)

def build(p, **kw):
    from angler import Simulation
    q = dict(p); q.update(kw)
    s = Simulation(q['omega'], q['eps'], q['dl'], q['NPML'], q['pol'], L0=q['L0'])
    s.src = q['src']
    return s


def put(out, name, names, values):
    for n, v in zip(names, values):
        out['%s %s' % (name, n)] = np.array(v)


def flux(out, s, p, nl=False, name='flux'):
    c = [p['N'][0]//2, p['N'][1]//2]
    for d, w in (('x', p['N'][1]//2), ('y', p['N'][0]//2)):
        if w >= 2:
            out[name+' '+d] = np.array(s.flux_probe(d, c, w, nl=nl))


def run_fields(p):
    out = {}
    s = build(p)
    put(out, 'linear', gen.FIELDS[p['pol']], s.solve_fields())
    out['matrix'] = np.array(abs(s.A).sum())
    flux(out, s, p)
    s.init_design_region(p['design'], p['eps_m'], style=p['style'])
    put(out, 'after initialization', gen.FIELDS[p['pol']], s.solve_fields())
    out['density'] = np.array(s.rho)
    s.eps_r = p['eps']
    put(out, 'after assignment', gen.FIELDS[p['pol']], s.solve_fields())
    return out


def add_nl(s, p):
    peak = np.max(np.abs(dict(zip(gen.FIELDS[p['pol']], s.solve_fields()))[p['pol']]))
    chi = p['shift']*p['L0']**2/3/peak**2
    s.add_nl(chi, p['region'])
    if p['two']:
        s.add_nl(chi*.5, p['design'], eps_scale=True, eps_max=p['eps_m'])


def run_nonlinear(p):
    out = {}
    s = build(p)
    add_nl(s, p)
    r = s.solve_fields_nl(solver_nl=p['solver'], conv_threshold=1e-10, max_num_iter=8)
    put(out, 'nonlinear', gen.FIELDS['Ez'], r[:3])
    out['iterations'] = np.array(np.count_nonzero(np.asarray(r[3]) > 1e-8))
    flux(out, s, p, nl=True, name='nonlinear flux')
    out['index shift'] = np.array(s.compute_index_shift())
    put(out, 'linear', gen.FIELDS['Ez'], s.solve_fields())
    return out


def run_mode(p):
    out = {}
    s = build(p)
    for m in p['modes']:
        s.add_mode(m['neff'], m['direction'], list(m['center']), m['width'], scale=m['scale'], order=m['order'])
    s.setup_modes()
    out['source'] = np.array(s.src)
    out['input power'] = np.array(s.W_in)
    put(out, 'linear', gen.FIELDS[p['pol']], s.solve_fields())
    flux(out, s, p)
    return out


def run_density(p):
    from angler import filter as f
    out = {}
    W = f.get_W(p['N'][0], p['N'][1], p['design'], list(p['NPML']), R=p['R'])
    out['filter'] = W.toarray() if hasattr(W, 'toarray') else np.array(W)
    out['permittivity'] = f.rho2eps(p['rho'], p['eps_m'], W, eta=p['eta'], beta=p['beta'])
    t = f.rho2rhot(p['rho'], W)
    out['filtered'] = t
    b = out['projected'] = f.rhot2rhob(t, p['eta'], p['beta'])
    out['slope'] = f.drhob_drhot(t, p['eta'], p['beta'])
    out['back'] = f.eps2rho(f.rhob2eps(b, p['eps_m']), p['eps_m'])
    return {k: np.array(v) for k, v in out.items()}


def optimization(p):
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    s = build(p, eps=1+(p['eps_m']-1)*p['rho'])
    if p['nl']:
        add_nl(s, p)
    s.rho = p['rho']
    sc = [np.max(np.abs(v)) for v in s.solve_fields()]
    sc = dict(zip(gen.FIELDS[p['pol']], sc))
    w = p['weight']

    def q(f, k):
        return npa.sum(w*npa.abs(f/(sc[k] or 1.0))**2)
    a = p['args']
    if len(a) == 1:
        J = lambda f: p['amp']*q(f, a[0])
    else:
        J = lambda f, g: p['amp']*q(f, a[0])+q(g, a[1])*q(f, a[0])
    args = [obj_arg('a%d' % i, component=k, nl=bool(p['nl']) and k == 'Ez') for i, k in enumerate(a)]
    o = Optimization(Objective(J, args), s, p['design'], eps_m=p['eps_m'], R=p['R'], eta=p['eta'], beta=p['beta'])
    return s, o


def run_gradient(p):
    s, o = optimization(p)
    return {'objective': np.array(o.compute_J(s)), 'gradient': np.array(o.compute_dJ(s, p['design']))*p['design'],
            'linear': np.array(float(o.objective.is_linear()))}


def run_run(p):
    s, o = optimization(p)
    o.run(method=p['method'], Nsteps=p['steps'], step_size=p['step'])
    return {'density': np.array(s.rho), 'permittivity': np.array(s.eps_r), 'history': np.array(o.objfn_list), 'final': np.array(o.compute_J(s)), 'source': np.array(s.src)}


def run_scan(p):
    out = {}
    s, o = optimization(p)
    if p['what'] == 'frequency':
        o.run(method='gd', Nsteps=1, step_size=0.)
        r = o.scan_frequency(Nf=p['Nf'], df=p['df'], pbar=False)
        put(out, 'scan', ['frequencies', 'objectives', 'width'], r)
    else:
        m = p['modes'][0]
        s.src = p['src']*0
        s.add_mode(m['neff'], m['direction'], list(m['center']), m['width'], scale=m['scale'])
        s.setup_modes()
        N = p['N']
        r = o.scan_power(probes=[lambda s: s.flux_probe('x', [N[0]//2, N[1]//2], N[1]//2, nl=True)], Ns=2, s_min=1e-2, s_max=1., solver=p['solver'])
        put(out, 'scan', ['powers', 'transmissions'], r)
    return out


def run_parts(p):
    import scipy.sparse as sp
    import autograd, autograd.numpy as npa
    from angler import structures, linalg, utils
    from angler.nonlinearity import Nonlinearity
    out = {}
    if p['what'] == 'structure':
        g = p['geometry']
        f = dict(three=lambda: structures.three_port(g[0], g[1]+g[2]+g[3], g[2], g[3]+g[2], g[4], g[5], p['dl'], list(p['NPML']), p['eps_m']),
                 two=lambda: structures.two_port(g[0], g[1]+g[2], g[2], g[4], g[5], p['dl'], list(p['NPML']), p['eps_m']),
                 N=lambda: structures.N_port(2, g[0], g[1]+g[2]+g[3], g[2], g[3]+g[2], g[4], g[5], p['dl'], list(p['NPML']), p['eps_m']),
                 ortho=lambda: structures.ortho_port(g[0], g[1]+g[2], g[1]+g[3], g[4]+g[2], g[2], g[4], p['dl'], list(p['NPML']), p['eps_m']),
                 accelerator=lambda: structures.accelerator(.5, g[2], g[0]*2, g[3], g[4], p['dl'], list(p['NPML']), p['eps_m']))[p['device']]
        put(out, 'structure', ['permittivity', 'design region'], f())
    elif p['what'] == 'penalty':
        b = utils.Binarizer(p['design'], p['eps_m'], exp_const=p['c'])
        for k in ('density', 'density_exp', 'smoothness'):
            J = getattr(b, k)(lambda e, e_nl, eps: npa.sum(npa.abs(e)**2))
            eps = 1+(p['eps_m']-1)*p['rho']
            out[k] = np.array(J(p['src'], p['src'], eps))
            if k != 'smoothness':
                out[k+' gradient'] = np.array(autograd.grad(J, 2)(p['src'], p['src'], eps))
    elif p['what'] == 'solver':
        n = p['src'].size
        v = p['src'].reshape(-1)
        A = (p['A']*(1+.5j)+sp.eye(n)*4).tocsr(); B = (p['A']*.1).tocsr()
        for k in ('pardiso', 'scipy'):
            out['direct '+k] = linalg.solver_direct(A, v, solver=k)
            out['split '+k] = linalg.solver_complex2real(A, B, v, solver=k)
        H = (p['A']+p['A'].T+sp.diags(np.arange(n)*1.))
        out['eigenvalues'] = linalg.solver_eigs(H.tocsr(), 2, guess_value=n/2)[0]
        out['average'] = linalg.grid_average(p['src'], 'x'); out['average y'] = linalg.grid_average(p['src'], 'y')
    else:
        for sc in (False, True):
            m = Nonlinearity(p['shift'], p['region'], eps_scale=sc, eps_max=p['eps_m'] if sc else None)
            eps = 1+(p['eps_m']-1)*p['rho']
            put(out, 'nonlinearity %s' % sc, ['eps', 'de', 'deps'], [m.eps_nl(p['src'], eps), m.dnl_de(p['src'], eps), m.dnl_deps(p['src'], eps)])
    return {k: np.array(v) for k, v in out.items()}


RUN = {k[4:]: v for k, v in list(globals().items()) if k.startswith('run_')}


# ---------------------------------------------------------------- parameters (drawn in the worker, without the library)

def draw(rng, kind):
    nl = kind == 'nonlinear' or (kind in ('gradient', 'run', 'scan') and rng.random() < .4)
    pol = 'Ez' if nl or kind == 'scan' else choice(rng, ['Ez', 'Hz'])
    big = kind in ('mode', 'scan')
    NPML = [int(rng.integers(5, 8)), int(rng.integers(5, 8))]
    if not big and rng.random() < .4:
        NPML[int(rng.integers(2))] = 0
    N = [2*n+int(rng.integers(12, 18) if big else rng.integers(7, 14)) for n in NPML]
    c = gen.Cfg(rng, pol=pol, NPML=NPML, N=N, cells=float(rng.uniform(12, 28)), lossy=False if kind in ('run', 'scan', 'gradient') else None)
    c.with_source(rng, margin=1)
    src = c.src/np.max(np.abs(c.src))
    p = dict(pol=pol, N=list(c.N), NPML=list(c.NPML), omega=c.omega, dl=c.dl, L0=c.L0, eps=np.array(c.eps), src=src, eps_m=float(rng.uniform(2, 8)),
             design=gen.design(rng, c, margin=1), region=(rng.random(c.N) < .5)*1., shift=10**rng.uniform(-4, -2.5), two=bool(rng.random() < .5),
             style=choice(rng, ['full', 'halfway', 'empty', '']), solver=choice(rng, ['born', 'newton', 'hybrid']), nl=nl,
             rho=np.clip(gen.smooth(rng, c.N, 1), 0, 1), R=choice(rng, [None, 1, 2, 3]), eta=float(rng.uniform(.3, .7)), beta=choice(rng, [1e-3, 2., 8.]),
             weight=rng.random(c.N)/c.N[0]/c.N[1], amp=float(rng.uniform(.5, 2)))
    names = gen.FIELDS[pol]
    p['args'] = [choice(rng, names) for _ in range(int(rng.integers(1, 3)))]
    if nl and kind != 'nonlinear':
        p['args'][0] = 'Ez'
    if kind == 'density':
        p['R'] = int(rng.integers(1, 5))
    if big:
        m = []
        e = np.ones(c.N); mid = [n//2 for n in c.N]
        d = choice(rng, ['x', 'y']) if kind == 'mode' else 'x'
        ax = 0 if d == 'x' else 1
        sl = [slice(None), slice(None)]; sl[1-ax] = slice(mid[1-ax]-2, mid[1-ax]+3)
        p['eps_m'] = float(rng.uniform(4, 8))
        e[tuple(sl)] = p['eps_m']
        ce = list(mid); ce[ax] = NPML[ax]+3
        p['modes'] = [dict(neff=float(np.sqrt(p['eps_m'])*.8), direction=d, center=ce, width=c.N[1-ax]-2*NPML[1-ax], scale=float(rng.uniform(.5, 2)), order=1)]
        p['eps'] = e; p['rho'] = (e-1)/(p['eps_m']-1)
        p['src'] = p['src']*0
        p['R'] = None; p['beta'] = 1e-9
        p['solver'] = choice(rng, ['born', 'newton'])
    if kind == 'run':
        p['method'] = choice(rng, ['gd', 'adam', 'lbfgs']); p['steps'] = int(rng.integers(1, 4)); p['step'] = 1e-2
    if kind == 'scan':
        p['what'] = choice(rng, ['frequency', 'power'])
        p['Nf'] = int(rng.integers(2, 5)); p['df'] = float(rng.uniform(.01, .1))
        p['src'] = src
        p['nl'] = p['what'] == 'power'
        p['args'] = ['Ez']
    if kind == 'parts':
        import scipy.sparse as sp
        p['what'] = choice(rng, ['structure', 'penalty', 'solver', 'nonlinearity'])
        p['geometry'] = (rng.integers(4, 12, 6)*p['dl']).tolist()
        p['device'] = choice(rng, ['three', 'two', 'N', 'ortho', 'accelerator'])
        p['c'] = float(rng.uniform(.5, 3))
        n = c.N[0]*c.N[1]
        p['A'] = sp.random(n, n, 3/n, format='csr', random_state=int(rng.integers(1e6)))
    return p


def perturb(rng, p, kind):
    """-> (the same parameters with one of them changed, its name)"""
    q = copy.deepcopy(p)
    ks = ['omega', 'dl', 'L0', 'NPML', 'eps', 'src', 'pol', 'design', 'region', 'rho', 'R', 'eta', 'beta', 'shift', 'two', 'style', 'solver', 'eps_m', 'weight', 'args', 'amp', 'transpose']
    use = dict(fields='omega dl L0 NPML eps src pol design eps_m style transpose', nonlinear='omega dl L0 NPML eps src design region shift two solver eps_m transpose',
               mode='omega dl L0 NPML eps src pol modes transpose', density='NPML design rho R eta beta eps_m transpose',
               gradient='omega dl L0 NPML src design rho R eta beta eps_m weight args amp shift two region transpose',
               run='omega dl src design rho R eta beta eps_m weight args amp method steps step shift two region', scan='omega dl src rho Nf df weight amp modes solver shift region',
               parts='dl NPML geometry device eps_m design rho src A c shift region what')[kind].split()
    if kind == 'parts':
        use = dict(structure='dl NPML geometry geometry device eps_m what', penalty='eps_m design rho src c what', solver='src A what',
                   nonlinearity='src shift region rho eps_m what')[p['what']].split()
    arrays = [n for n in use if n in ('eps', 'design', 'region', 'rho', 'weight', 'src')]
    k = choice(rng, use+(['rearranged']*3 if arrays else [])+(['unit']*2 if 'geometry' in use else []))
    N = p['N']
    if k == 'rearranged':
        # the same values at other places
        n = choice(rng, arrays)
        a = p[n]
        t = choice(rng, ['flip', 'roll', 'swap', 'shuffle'])
        if t == 'flip':
            b = a[::-1] if rng.random() < .5 else a[:, ::-1]
        elif t == 'roll':
            b = np.roll(a, int(rng.integers(1, 4)), int(rng.integers(2)))
        elif t == 'swap':
            b = np.array(a); i, j = rng.integers(a.size, size=2)
            b.flat[i], b.flat[j] = a.flat[j], a.flat[i]
        else:
            b = rng.permutation(a.ravel()).reshape(a.shape)
        q[n] = np.array(b)
        k = '%s of %s' % (t, n)
    elif k == 'unit':
        f = 2.0**int(rng.integers(-2, 3))
        q['dl'] = p['dl']*f; q['geometry'] = [g*f for g in p['geometry']]
    elif k in ('omega', 'dl'):
        q[k] = p[k]*(float(rng.uniform(.8, 1.2)) if rng.random() < .5 else 10.0**float(rng.uniform(-2, 1)))
    elif k == 'L0':
        f = 10.0**int(rng.integers(1, 4))
        q['L0'] = p['L0']*f
        if rng.random() < .5:
            q['omega'] = p['omega']/f
    elif k == 'NPML':
        ax = int(rng.integers(2))
        q['NPML'][ax] = choice(rng, [0, 0, max(0, p['NPML'][ax]-2)]) if p['NPML'][ax] else 2
    elif k in ('eps',):
        e = np.array(p['eps']); i = tuple(int(rng.integers(n)) for n in N)
        if rng.random() < .5:
            e[i] += 1.
        else:
            e = np.real(e)[::-1, ::-1]*1.1
        q['eps'] = np.array(e)
    elif k == 'src':
        q['src'] = np.roll(p['src'], 1, int(rng.integers(2)))*choice(rng, [1, 2j])
    elif k == 'pol':
        q['pol'] = 'Hz' if p['pol'] == 'Ez' else 'Ez'
    elif k in ('design', 'region'):
        d = np.array(p[k]); i = tuple(int(rng.integers(n)) for n in N)
        d[i] = 1-d[i]
        if rng.random() < .5:
            d = np.roll(d, 1, 0)
        if not d.any():
            d[i] = 1
        q[k] = d
    elif k in ('rho', 'weight'):
        q[k] = np.clip(p[k]*rng.uniform(.5, 1, N), 0, 1)
    elif k == 'R':
        q[k] = (p[k] or 1)+1 if kind != 'density' or rng.random() < .5 else max(1, p[k]-1)
    elif k == 'eta':
        q[k] = 1-p[k]
    elif k == 'beta':
        q[k] = p[k]*2+1
    elif k in ('shift', 'amp', 'c', 'step', 'df'):
        q[k] = p[k]*float(rng.uniform(.3, .9))
    elif k == 'eps_m':
        q[k] = p[k]+.5
    elif k == 'two':
        q[k] = not p[k]
    elif k == 'style':
        q[k] = choice(rng, [s for s in ('full', 'halfway', 'empty', 'random', '') if s != p[k]])
    elif k == 'solver':
        q[k] = choice(rng, [s for s in ('born', 'newton', 'hybrid') if s != p[k]])
    elif k == 'method':
        q[k] = choice(rng, [s for s in ('gd', 'adam', 'lbfgs') if s != p[k]])
    elif k == 'steps':
        q[k] = p[k]+1
    elif k == 'Nf':
        q[k] = p[k]+1
    elif k == 'args':
        q[k] = p[k]+[p['pol']] if len(p[k]) == 1 else p[k][::-1] if not p['nl'] else p[k][:1]
    elif k == 'modes':
        m = q['modes'][0]
        t = choice(rng, ['neff', 'center', 'width', 'scale', 'order'])
        if t == 'neff':
            m[t] *= .8
        elif t == 'center':
            m[t][0 if m['direction'] == 'x' else 1] += 1
        elif t == 'width':
            m[t] -= 2
        elif t == 'scale':
            m[t] *= 3
        else:
            m[t] = 2
        k = 'mode '+t
    elif k == 'geometry':
        q[k][int(rng.integers(6))] += p['dl']*2
    elif k == 'device':
        q[k] = choice(rng, [s for s in ('three', 'two', 'N', 'ortho', 'accelerator') if s != p[k]])
    elif k == 'what':
        q[k] = choice(rng, [s for s in ('structure', 'penalty', 'solver', 'nonlinearity') if s != p[k]])
    elif k == 'A':
        q[k] = p[k]*1.5
    elif k == 'transpose':
        for n, v in p.items():
            if isinstance(v, np.ndarray):
                q[n] = np.array(v.T)
        for n in ('N', 'NPML'):
            q[n] = p[n][::-1]
        if 'modes' in q:
            for m in q['modes']:
                m['direction'] = 'y' if m['direction'] == 'x' else 'x'; m['center'] = m['center'][::-1]
    return q, k


def failing(rng, p):
    """parameters of a request that is rejected or fails half-way"""
    q = copy.deepcopy(p)
    k = choice(rng, ['pol', 'NPML', 'omega', 'src', 'shape', 'solver'])
    if k == 'pol':
        q['pol'] = 'Ey'
    elif k == 'NPML':
        q['NPML'] = [3]
    elif k == 'omega':
        q['omega'] = -1.
    elif k == 'src':
        q['src'] = np.ones((3, 3))
    elif k == 'shape':
        q['rho'] = np.ones((2, 5)); q['eps'] = np.ones((5, 2))
    else:
        q['solver'] = q['method'] = q['device'] = 'none'
    return q, k


def arrays_in_place(a, b):
    """writes the contents of b's arrays into a's (same objects) where their shapes and types allow -> dict"""
    out = dict(b)
    for k, v in b.items():
        if isinstance(v, np.ndarray) and isinstance(a.get(k), np.ndarray) and a[k].shape == v.shape and np.can_cast(v.dtype, a[k].dtype):
            a[k][...] = v
            out[k] = a[k]
    return out


# ---------------------------------------------------------------- children

def child(fn):
    """result of fn() in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(0); signal.signal(signal.SIGALRM, signal.SIG_DFL)
            import warnings
            warnings.simplefilter('ignore')
            try:
                res = fn()
            except BaseException as e:
                res = ('failed', ''.join(traceback.format_exception(e))[-3000:])
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    st = os.waitpid(pid, 0)[1]
    if not data:
        raise RuntimeError('the process running the computation died (status %d)' % st)
    return pickle.loads(data)


def attempt(kind, p):
    try:
        return ('values', RUN[kind](p))
    except Exception as e:
        return ('raised', '%s: %s' % (type(e).__name__, e), ''.join(traceback.format_exception(e))[-2000:])


def case(kind, rng, mon, tier):
    p = draw(rng, kind)
    seed = int(rng.integers(2**31-10))

    def fresh():
        np.random.seed(seed+2)
        return attempt(kind, copy.deepcopy(p))
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        r = rng.random()
        if r < .6:
            q, what = perturb(rng, p, kind)
            hist.append((kind, q, bool(rng.random() < .5), 'other '+what))
        elif r < .75:
            q, what = failing(rng, p)
            hist.append((kind, q, False, 'failing '+what))
        elif r < .9:
            k2 = choice(rng, [k for k in RUN if k not in ('run', 'scan')])
            hist.append((k2, draw(rng, k2), False, k2))
        else:
            hist.append((kind, copy.deepcopy(p), False, 'the same'))

    def late():
        objs = copy.deepcopy(p)
        done = []
        for k, q, inplace, what in hist:
            np.random.seed(seed)
            r = attempt(k, arrays_in_place(objs, q) if inplace else q)
            done.append(r[0])
        # (nothing here is random: the state of the generators does not matter, and is not set to a fixed one either)
        np.random.seed(seed); random.seed(seed)
        a = attempt(kind, arrays_in_place(objs, copy.deepcopy(p)))
        u = np.random.rand(), random.random()
        np.random.seed(seed+1); random.seed(seed+1)
        b = attempt(kind, copy.deepcopy(p))
        v = np.random.rand(), random.random()
        return a, b, done, [x != y for x, y in zip(u, v)]
    A = child(fresh)
    B = child(late)
    for r in (A, B):
        if r[0] == 'failed':
            raise RuntimeError(r[1])
    mon.param(kind=kind, history=[h[3]+(' in place' if h[2] else '') for h in hist], pol=p['pol'], N=p['N'], NPML=p['NPML'], L0=p['L0'], dl=p['dl'],
              what=p.get('what'), nl=p['nl'], method=p.get('method'))
    for h, d in zip(hist, B[2]):
        mon.event('before: %s (%s)' % (h[3], d))
    mon.ok('random generators not reset', all(B[3]), 'random numbers drawn after a computation are the same whatever the seed before')
    tol = 1e-6 if kind == 'run' else 1e-7 if kind in ('nonlinear', 'scan', 'gradient', 'mode') else 1e-8
    if A[0] == 'raised':
        raise RuntimeError('in a fresh process: %s\n%s' % (A[1], A[2]))
    for name, other in (('same as in a fresh process', B[0]), ('same when repeated', B[1])):
        if other[0] == 'raised':
            mon._count(name); mon.fail(name, 'fine in a fresh process, but after %s: %s' % ([h[3] for h in hist], other[1]))
        for k, v in A[1].items():
            w = other[1][k]
            # (components along x and y have a common scale, one of them may consist of rounding errors)
            s = [np.abs(u[np.isfinite(u)]) for r in (A[1], other[1]) for n, u in r.items() if n == k or n[-2:-1] in 'EH' and n[:-1] == k[:-1]]
            s = max([float(np.max(u)) for u in s if u.size] or [0])
            if v.shape == w.shape and not np.isfinite(v).all():
                # (a diverged iteration)
                mon.same(name, np.isfinite(w), np.isfinite(v), k)
                v, w = v[np.isfinite(v)], w[np.isfinite(v)]
                mon.event('not finite')
            mon.close(name, w, v, tol, scale=s, msg='%s after %s' % (k, [h[3] for h in hist]))
