"""Random operations on simulations, shared by the history checks."""
import copy
import numpy as np
from . import gen
from .gen import choice


def close_figs():
    import matplotlib.pyplot as plt
    plt.close('all')


def op_eps(rng, st):
    e, _ = gen.permittivity(rng, st.N, lossy=st.lossy)
    if not any(st.NPML):
        e = e*(1-0.02j)
    st.sim.eps_r = st.given('assigned permittivity', e)
    st.eps = np.array(e)
    for k, v in st.sim.fields.items():
        st.mon.ok('fields discarded with the permittivity', v is None, k)
    for k, v in st.sim.fields_nl.items():
        st.mon.ok('fields discarded with the permittivity', v is None, 'nonlinear '+k)


def op_src(rng, st):
    s, _ = gen.source(rng, st.N, None, st.inner)
    s = s/np.max(np.abs(s))*st.amp
    if rng.random() < .5:
        st.sim.src = s      # (setting up modes writes to this array)
    else:
        st.sim.src[:, :] = 0
        st.sim.src[s != 0] = s[s != 0]
    st.src = np.array(st.sim.src)


def op_solve(rng, st):
    st.sim.solve_fields()


def op_solve_nl(rng, st):
    kw = {}
    if st.pol == 'Hz':
        kw['solver_nl'] = 'born'
    else:
        kw['solver_nl'] = choice(rng, ['born', 'newton', 'hybrid'])
    if rng.random() < .3:
        kw['Estart'] = st.given('start field', st.amp*(rng.standard_normal(st.N)+1j*rng.standard_normal(st.N))*1e-2)
    elif rng.random() < .2 and st.sim.fields[st.pol] is not None:
        # (one of the solution arrays, which the caller may hold)
        kw['Estart'] = st.given('start field', st.sim.fields[st.pol])
    kw['max_num_iter'] = int(rng.integers(1, 8))
    st.sim.solve_fields_nl(**kw)
    st.nl_solved = True


def op_index(rng, st):
    if st.pol == 'Ez':
        st.sim.compute_index_shift()


def op_flux(rng, st):
    st.sim.solve_fields()
    d = choice(rng, ['x', 'y'])
    w = max(2, st.N[1 if d == 'x' else 0]//2)
    st.sim.flux_probe(d, [st.N[0]//2, st.N[1]//2], w)


def op_mode(rng, st):
    if min(st.N) < 8:
        return
    d = choice(rng, ['x', 'y'])
    w = st.N[1 if d == 'x' else 0]-2
    st.sim.add_mode(1.5, d, [st.N[0]//2, st.N[1]//2], w, scale=st.amp)
    st.sim.setup_modes()
    st.src = np.array(st.sim.src)


def op_nl(rng, st):
    r = np.zeros(st.N); x0, x1, y0, y1 = st.inner
    r[(x0+x1)//2:x1, y0:y1] = 1
    s = bool(rng.random() < .4)
    st.sim.add_nl(st.chi*rng.random(), st.given('nonlinear region', r), eps_scale=s, eps_max=5. if s else None)


def op_unl(rng, st):
    """nonlinearities taken away, in place or by another list"""
    if rng.random() < .5:
        st.sim.nonlinearity = []
    elif rng.random() < .5:
        del st.sim.nonlinearity[:]
    elif len(st.sim.nonlinearity):
        st.sim.nonlinearity.pop(int(rng.integers(len(st.sim.nonlinearity))))


def op_plot(rng, st):
    s = st.sim
    s.solve_fields()
    f = choice(rng, ['eps', 'abs', 're', 'diff'])
    if f == 'eps':
        s.plt_eps(cbar=False, outline=False, tiled_y=int(rng.integers(1, 3)))
    elif f == 'abs':
        s.plt_abs(cbar=False, outline=False, tiled_y=int(rng.integers(1, 3)))
    elif f == 're':
        s.plt_re(cbar=False, outline=False)
    elif s.fields_nl[s.pol] is not None:
        s.plt_diff(cbar=False, outline=False)
    close_figs()


def op_copy(rng, st):
    c = copy.deepcopy(st.sim)
    if rng.random() < .5:
        st.sim, c = c, st.sim
    # the other one goes its own way
    c.src = np.ones(st.N)*3.3
    c.eps_r = np.full(st.N, 2.2)
    c.solve_fields()
    c.rho = None
    c.fields[st.pol][:] = 7


def op_init(rng, st):
    d = np.zeros(st.N); x0, x1, y0, y1 = st.inner
    d[x0:(x0+x1)//2+1, y0:y1] = 1
    st.sim.init_design_region(st.given('design region', d), 4., style=choice(rng, ['full', 'halfway', 'empty', 'random', 'random_sym', '']))
    st.eps = np.array(st.sim.eps_r)


def op_opt(rng, st):
    """evaluating an objective on the simulation"""
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    d = np.zeros(st.N); x0, x1, y0, y1 = st.inner
    d[x0:(x0+x1)//2+1, y0:y1] = 1
    nl = bool(rng.random() < .5) and st.pol == 'Ez'
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)**2), [obj_arg('e', st.pol, nl)]), st.sim, d, eps_m=4.)
    o.compute_J(st.sim)
    if np.iscomplexobj(st.eps):
        return
    if rng.random() < .5:
        if st.sim.rho is None or st.sim.rho.shape != st.N:
            st.sim.rho = (np.real(st.sim.eps_r)-1)/3.
        o.compute_dJ(st.sim, d)


def op_settings(rng, st):
    """other parameters, which take effect with the next permittivity"""
    s, c = st.sim, st.c
    for what in rng.permutation(['omega', 'NPML', 'dl', 'L0', 'pol'])[:int(rng.integers(1, 3))]:
        if what == 'omega':
            c.omega = s.omega = c.omega*float(rng.uniform(.7, 1.2))
        elif what == 'NPML':
            n = [int(rng.integers(0, min(9, (k-2)//3))) if k > 7 else 0 for k in st.N]
            s.NPML = list(n); st.NPML = c.NPML = n
            st.inner = c.inner(2) if min(st.N) > 24 else st.inner
        elif what == 'dl':
            c.dl = s.dl = c.dl*float(rng.uniform(.7, 1.2))
        elif what == 'L0':
            f = float(rng.uniform(.8, 1.2)); c.L0 = s.L0 = c.L0*f
        else:
            c.pol = st.pol = s.pol = 'Hz' if st.pol == 'Ez' else 'Ez'
    if rng.random() < .5:
        s.eps_r = s.eps_r if any(st.NPML) else s.eps_r*(1-0.02j)
    else:
        s.eps_r = np.array(s.eps_r)*(1 if any(st.NPML) else 1-0.02j)
    st.eps = np.array(s.eps_r)


OPS = [op_settings, op_eps, op_src, op_solve, op_solve_nl, op_index, op_flux, op_mode, op_nl, op_plot, op_copy, op_init, op_opt, op_unl]
WEIGHTS = np.array([1.2, 3, 3, 2, 3, 2, 1, 1.5, 2, .5, 1.5, 1, 1, 1.2])


class State:
    def given(self, name, a):
        """called with every array handed over"""
        return a


def make(rng, mon, **kw):
    from .gen import Cfg
    c = Cfg(rng, maxinner=16, maxpml=8, cells=float(rng.uniform(14, 30)), **kw)
    if not any(c.NPML):
        c.eps = c.eps*(1-0.02j)
    st = State()
    st.c, st.N, st.NPML, st.pol, st.mon = c, c.N, c.NPML, c.pol, mon
    st.lossy = False if rng.random() < .5 else None
    st.inner = c.inner(2)
    st.sim = c.build()
    st.eps = np.array(c.eps)
    st.src = np.array(st.sim.src)
    # field of a unit source, to set the strength of the nonlinearity
    s = np.zeros(c.N, complex); x0, x1, y0, y1 = st.inner; s[(x0+x1)//2, (y0+y1)//2] = 1
    st.amp = 1.0
    e = np.abs(gen.fields(st.sim, c.build(src=s).solve_fields())[c.pol])
    st.chi = c.L0**2*1e-3*rng.random()/3/np.max(e)**2
    return st
