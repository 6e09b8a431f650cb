import functools
import numpy as np
from .. import gen, adj, core
from ..gen import choice

PLAN = {'quick': {'function': 250, 'replace': 120, 'fed': 150, 'sum': 90, 'construct': 120},
        'thorough': {'function': 8000, 'replace': 4000, 'fed': 5000, 'sum': 3000, 'construct': 3000}}
FLOORS = {'value': 500, 'derivative of its argument': 500, 'fed field': 200, 'sum of the partial gradients': 36, 'linear exactly when': 300}
RULE = ('Random objectives with one to five arguments in every order and repetition, as lambdas, functions, partials and callables, replaced repeatedly; what the function received is recorded; '
        'derivatives against finite differences of the function, gradients against the sum of single-argument objectives with the other fields frozen.')
COMPS = ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']


def parameters(rng, n):
    """names of the parameters, in any order"""
    names = ['a', 'b', 'c', 'd', 'e', 'E', 'field', 'x1', 'x0', '_z']
    return [names[k] for k in rng.permutation(len(names))[:n]]


def function(rng, n, N, scales=None):
    """asymmetric smooth real function of n complex fields -> (callable, name)"""
    import autograd.numpy as npa
    s = scales or [1.0]*n
    W = [rng.uniform(.2, 1, N)/np.prod(N) for _ in range(n)]
    C = [rng.standard_normal(N)/np.prod(N)+1j*rng.standard_normal(N)/np.prod(N) for _ in range(n)]
    a = rng.uniform(.3, 2, n)*rng.choice([-1, 1], n); b = rng.uniform(-1, 1, n)
    k = float(10.0**rng.integers(-2, 3))
    t = int(rng.integers(3))

    def g(*f):
        q = [a[i]*npa.sum(W[i]*npa.abs(f[i]/s[i])**2)+b[i]*npa.real(npa.sum(C[i]*f[i]/s[i])) for i in range(n)]
        if t == 0:
            return k*sum(q)
        if t == 1:
            v = 1
            for i, x in enumerate(q):
                v = v*(1+i+x)
            return k*v
        return k*(sum(q)+sum((i+1)*q[i]*q[i-1] for i in range(n)))
    names = parameters(rng, n)
    form = choice(rng, ['lambda', 'lambda', 'def', 'partial', 'callable'])
    lam = eval('lambda %s: g(%s)' % (', '.join(names), ', '.join(names)), dict(g=g))
    if form == 'def':
        d = {}
        exec('def J(%s):\n return g(%s)\n' % (', '.join(names), ', '.join(names)), dict(g=g), d)
        J = d['J']
    elif form == 'partial':
        J = functools.partial(eval('lambda extra, %s: g(%s)' % (', '.join(names), ', '.join(names)), dict(g=g)), None)
    elif form == 'callable':
        d = {}
        exec('class K:\n def __call__(self, %s):\n  return g(%s)\n' % (', '.join(names), ', '.join(names)), dict(g=g), d)
        J = d['K']()
    else:
        J = lam
    return J, form


def random_fields(rng, n, N):
    return [rng.standard_normal(N)+1j*rng.standard_normal(N) for _ in range(n)]


def args(rng, n, comps=COMPS, nl=None):
    from angler.objective import obj_arg
    spec = [(choice(rng, comps), bool(rng.random() < .4) if nl is None else nl) for _ in range(n)]
    return spec, [obj_arg('a%d' % i, component=c, nl=l) for i, (c, l) in enumerate(spec)]


def consistent(mon, rng, obj, J, spec, N):
    n = len(spec)
    F = random_fields(rng, n, N)
    v = float(J(*F))
    mon.le('value', abs(float(obj.J(*F))-v), 1e-13*max(abs(v), 1e-300))
    mon.ok('one derivative and gradient per argument', len(obj.dJ_list) == n and len(obj.grad_fn_list) == n and len(obj.arg_list) == n)
    for i in range(n):
        d = rng.standard_normal(N)+1j*rng.standard_normal(N)
        g = np.asarray(obj.dJ_list[i](*F))
        mon.ok('derivative of its argument', g.shape == N, str(g.shape))
        h = 1e-3

        def at(x):
            G = list(F); G[i] = F[i]+x*d
            return float(J(*G))
        fd = (at(-2*h)-8*at(-h)+8*at(h)-at(2*h))/12/h
        an = float(np.real(np.sum(g*d)))
        sc = float(np.sqrt(np.sum(np.abs(g)**2)*np.sum(np.abs(d)**2)))/np.sqrt(np.prod(N))
        mon.le('derivative of its argument', abs(fd-an), 1e-6*max(sc, abs(fd))+1e-10*abs(v)+1e-300, 'argument %d: %g, expected %g' % (i, an, fd))
    mon.ok('linear exactly when', bool(obj.is_linear()) == (not any(l for _, l in spec)), str(spec))
    for a, (c, l) in zip(obj.arg_list, spec):
        mon.ok('argument', a.component == c and bool(a.nl) == l)


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon, tier)


def do_function(rng, mon, tier):
    from angler.objective import Objective
    n = int(rng.integers(1, 6)); N = (int(rng.integers(1, 8)), int(rng.integers(1, 8)))
    spec, al = args(rng, n)
    J, form = function(rng, n, N)
    mon.param(spec=spec, form=form, N=N)
    obj = Objective(J, al[0] if n == 1 and rng.random() < .5 else al)
    consistent(mon, rng, obj, J, spec, N)
    # another objective that shares the arguments does not disturb the first
    J2, _ = function(rng, n, N)
    ob2 = Objective(J2, list(al))
    consistent(mon, rng, ob2, J2, spec, N)
    consistent(mon, rng, obj, J, spec, N)


def do_replace(rng, mon, tier):
    from angler.objective import Objective
    n = int(rng.integers(1, 5)); N = (int(rng.integers(1, 8)), int(rng.integers(1, 8)))
    spec, al = args(rng, n)
    J, form = function(rng, n, N)
    mon.param(spec=spec, form=form, N=N)
    obj = Objective(J, al)
    for _ in range(int(rng.integers(1, 5))):
        J, form = function(rng, n, N)
        obj.J = J
        consistent(mon, rng, obj, J, spec, N)


def do_construct(rng, mon, tier):
    from angler.objective import Objective, obj_arg
    n = int(rng.integers(1, 6)); N = (3, 3)
    spec, al = args(rng, n)
    J, form = function(rng, n, N)
    m = int(choice(rng, [k for k in range(0, 7) if k != n]))
    mon.param(n=n, m=m, form=form, spec=spec)
    wrong = (al*7)[:m]
    mon.raises('number of arguments', lambda: Objective(J, wrong), '%d arguments for %d parameters' % (m, n))
    if n > 1:
        mon.raises('number of arguments', lambda: Objective(J, al[0]))
    for bad in ['E', 'ez', 'Bz', '', 'EX', 'Ezz', None, 3]:
        mon.raises('unknown component', lambda: obj_arg('x', component=bad), str(bad))
    a = obj_arg(choice(rng, ['x', 7, 'a b']))
    mon.ok('argument', a.component == 'Ez' and not a.nl and isinstance(a.name, str))
    for c in COMPS:
        for l in (False, True):
            o = Objective(lambda f: f, [obj_arg('q', component=c, nl=l)])
            mon.ok('linear exactly when', o.is_linear() == (not l))
    o = Objective(J, al)
    mon.ok('linear exactly when', bool(o.is_linear()) == (not any(l for _, l in spec)))


def recording(rng, n, N, scales):
    J, form = function(rng, n, N, scales)
    seen = []
    names = parameters(rng, n)

    def g(*f):
        seen.append([np.array(getattr(x, '_value', x)) for x in f])
        return J(*f)
    return eval('lambda %s: g(%s)' % (', '.join(names), ', '.join(names)), dict(g=g)), seen, form


def do_fed(rng, mon, tier):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    pol = choice(rng, ['Ez', 'Ez', 'Hz'])
    nl = pol == 'Ez' and rng.random() < .75
    p = adj.Problem(rng, pol, nl=nl, maxinner=12, maxpml=6, R=False, tanh=False, weak=10**rng.uniform(-3, -1.7) if nl else None)
    n = int(rng.integers(1, 6))
    comps = gen.FIELDS[pol]
    spec = [(choice(rng, comps), bool(nl and rng.random() < .5)) for _ in range(n)]
    p.describe(mon); mon.param(spec=spec)
    sc = [float(np.max(np.abs(p.lin[c]))) or 1.0 for c, _ in spec]
    J, seen, form = recording(rng, n, p.c.N, sc)
    obj = Objective(J, [obj_arg('a%d' % i, component=c, nl=l) for i, (c, l) in enumerate(spec)])
    sim = p.sim()
    opt = Optimization(obj, sim, gen.mask(p.design), eps_m=p.eps_m)
    f = p.sim()
    L = gen.fields(f, f.solve_fields())
    NLF = None
    if any(l for _, l in spec):
        r = f.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12)
        if not (np.asarray(r[3]) < 1e-9).any():
            raise core.Skip('unconverged')
        NLF = gen.fields(f, r[:3])
        mon.event('relative difference of linear and nonlinear fields above 1e-4', int(np.max(np.abs(NLF[pol]-L[pol])) > 1e-4*np.max(np.abs(L[pol]))))
    want = [(NLF if l else L)[c] for c, l in spec]

    def check(what, want=want):
        mon.ok('evaluated', len(seen) > 0, what)
        for got in seen:
            for i, (a, b) in enumerate(zip(got, want)):
                mon.close('fed field', a, b, 1e-7, scale=sc[i]*1.0, msg='%s, argument %d (%s)' % (what, i, spec[i]))
        del seen[:]
    v = float(J(*want)); del seen[:]
    if rng.random() < .5:
        sim.solve_fields()
    got = float(opt.compute_J(sim))
    check('compute_J')
    mon.le('value', abs(got-v), 1e-6*max(abs(v), 1e-12))
    opt.compute_dJ(sim, p.design)
    check('compute_dJ')
    # a replaced function is used from then on, on the same fields
    J2, seen2, _ = recording(rng, n, p.c.N, sc)
    obj.J = J2
    v2 = float(J2(*want)); del seen2[:]
    mon.le('value', abs(float(opt.compute_J(sim))-v2), 1e-6*max(abs(v2), 1e-12), 'after the function was replaced')
    mon.ok('replaced function is not called', not seen)
    opt.compute_dJ(sim, p.design)
    mon.ok('replaced function is not called', not seen)
    # fields of the other polarization do not exist
    other = choice(rng, [c for c in COMPS if c not in comps])
    bad = Objective(lambda f: p.J(f), [obj_arg('x', component=other)])
    mon.raises('field of the other polarization', lambda: Optimization(bad, sim, gen.mask(p.design), eps_m=p.eps_m).compute_J(sim))


def do_sum(rng, mon, tier):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    nl = rng.random() < .6
    pol = 'Ez' if nl else choice(rng, ['Ez', 'Hz'])
    p = adj.Problem(rng, pol, nl=nl, maxinner=12, maxpml=6, weak=10**rng.uniform(-3, -1.7) if nl else None)
    n = int(rng.integers(2, 5))
    comps = gen.FIELDS[pol]
    spec = [(choice(rng, comps), bool(nl and rng.random() < .5)) for _ in range(n)]
    p.describe(mon); mon.param(spec=spec)
    sc = [float(np.max(np.abs(p.lin[c]))) or 1.0 for c, _ in spec]
    J, form = function(rng, n, p.c.N, sc)
    al = [obj_arg('a%d' % i, component=c, nl=l) for i, (c, l) in enumerate(spec)]
    kw = dict(eps_m=p.eps_m, R=p.R, eta=p.eta, beta=p.beta)
    sim = p.sim()
    L = gen.fields(sim, sim.solve_fields())
    if any(l for _, l in spec):
        r = sim.solve_fields_nl()
        if not (np.asarray(r[3]) < 1e-9).any():
            raise core.Skip('unconverged')
        NLF = gen.fields(sim, r[:3])
    F = [np.array((NLF if l else L)[c]) for c, l in spec]
    s1 = p.sim()
    total = np.asarray(Optimization(Objective(J, al), s1, gen.mask(p.design), **kw).compute_dJ(s1, p.design))
    parts = []
    for i in range(n):
        def Ji(f, i=i):
            G = list(F); G[i] = f
            return J(*G)
        s = p.sim()
        o = Objective(eval('lambda f: q(f)', dict(q=Ji)), [al[i]])
        parts.append(np.asarray(Optimization(o, s, gen.mask(p.design), **kw).compute_dJ(s, p.design)))
    sc = max(float(np.max(np.abs(q*p.design))) for q in parts)
    mon.close('sum of the partial gradients', total*p.design, sum(parts)*p.design, 1e-6, scale=sc or None)
    # the same arguments in another order
    perm = list(rng.permutation(n))
    inv = np.argsort(perm)
    names = parameters(rng, n)
    Jp = eval('lambda %s: g(%s)' % (', '.join(names), ', '.join(names)), dict(g=lambda *f: J(*[f[int(k)] for k in inv])))
    s2 = p.sim()
    o2 = Optimization(Objective(Jp, [al[k] for k in perm]), s2, gen.mask(p.design), **kw)
    mon.close('order of the arguments', np.asarray(o2.compute_dJ(s2, p.design))*p.design, total*p.design, 1e-6, scale=sc or None)
