import copy
import numpy as np
from .. import gen, adj, core
from ..gen import choice, Cfg
from .c25 import snapshot, unchanged

PLAN = {'quick': {'abs': 70, 're': 60, 'diff': 60, 'eps': 60, 'objs': 60, 'ani': 30, 'base': 60, 'lines': 20},
        'thorough': {'abs': 2500, 're': 2000, 'diff': 2000, 'eps': 2000, 'objs': 2500, 'ani': 600, 'base': 2500, 'lines': 600}}
FLOORS = {'outline': 60, 'image': 200, 'limits': 150, 'axes': 150, 'history': 30, 'frame': 80, 'transmissions': 15, 'simulation unchanged': 1000}
RULE = ('Random simulations (one- and two-dimensional, both polarizations, linear and nonlinear, lossy, with and without sources) and every combination of plot options: the arrays, extents, norms and colour '
        'limits of the images on the returned axes are compared with the simulation, and the simulation with its state before. Animations are played through a recording writer.')


def image(ax):
    im = ax.get_images()
    return im[0] if len(im) == 1 else None


def new(rng):
    """axes to draw on, or None"""
    import matplotlib.pyplot as plt
    plt.close('all')
    if rng.random() < .5:
        return None
    n = int(rng.integers(1, 4))
    f, a = plt.subplots(1, n, squeeze=False)
    if rng.random() < .3:
        plt.figure()           # not the current figure
    return a[0, int(rng.integers(n))]


def check_outline(mon, ax, eps, drawn, tiles=1):
    """outlines (if any) run along the boundaries of the transposed permittivity"""
    from matplotlib.contour import ContourSet
    cs = [c for c in ax.collections if isinstance(c, ContourSet)]
    v = [p.vertices for c in cs for p in c.get_paths() if len(p.vertices)]
    if not drawn or min(eps.shape) == 1:
        mon.ok('outline', not v, 'outline drawn that was not asked for')
        return
    if float(np.ptp(eps)) == 0:
        return
    mon.ok('outline', len(v) > 0, 'no outline')
    v = np.concatenate(v)
    i, j = np.rint(v).astype(int).T
    lo = np.full(i.shape, np.inf); hi = -lo
    mon.ok('outline', (i >= 0).all() and (j >= 0).all() and (i < eps.shape[0]).all() and (j < eps.shape[1]).all(), 'outline beyond the plot')
    for di in (-1, 0, 1):
        for dj in (-1, 0, 1):
            e = eps[np.clip(i+di, 0, eps.shape[0]-1), np.clip(j+dj, 0, eps.shape[1]-1)]
            lo = np.minimum(lo, e); hi = np.maximum(hi, e)
    if tiles > 1:
        # every copy has the same outline (apart from the seams)
        n = eps.shape[1]//tiles
        t, y = np.divmod(v[:, 1], n)
        parts = [np.c_[v[:, 0], y][(t == k) & (y > 1.1) & (y < n-2.1)] for k in range(tiles)]
        if len({len(p) for p in parts}) > 1:
            parts = [np.unique(np.round(p, 3), axis=0) for p in parts]
        mon.ok('outline', len({len(p) for p in parts}) == 1, 'copies have outlines of %s points' % [len(p) for p in parts])
    mon.ok('outline', (hi > lo).all(), '%d of %d points of the outline are away from any boundary' % (np.sum(hi <= lo), lo.size))


def check(mon, rng, ax, given, want, lims, log=False, cbar=None, nfig=None, outline=None):
    if outline is not None:
        check_outline(mon, ax, *outline)
    import matplotlib.pyplot as plt
    from matplotlib.colors import LogNorm
    from matplotlib.axes import Axes
    mon.ok('axes', isinstance(ax, Axes), type(ax).__name__)
    if given is not None:
        mon.ok('axes', ax is given, 'drawn on other axes')
        mon.ok('axes', sum(len(a.get_images()) for f in plt.get_fignums() for a in plt.figure(f).axes if a is not given and 'colorbar' not in a.get_label()) == 0, 'drawn on several axes')
    im = image(ax)
    mon.ok('image', im is not None, '%d images' % len(ax.get_images()))
    a = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
    mon.close('image', a, want.T, 1e-12, scale=float(np.max(np.abs(want))) or None)
    e = im.get_extent()
    mon.ok('image', np.allclose([abs(e[1]-e[0]), abs(e[3]-e[2])], want.shape) and e[3] > e[2] and e[1] > e[0] and im.origin == 'lower', 'extent %s, origin %s' % (e, im.origin))
    lo, hi = im.get_clim()
    if log:
        mon.ok('norm', isinstance(im.norm, LogNorm), type(im.norm).__name__)
        mon.ok('norm', lo > 0, str(lo))
    else:
        mon.ok('norm', not isinstance(im.norm, LogNorm))
    if lims[0] is not None and lims[0] == lims[1]:
        # (an empty range, which matplotlib widens)
        mon.ok('limits', lo <= lims[0] <= hi)
        lims = [None, None]
    for v, l, name in ((lo, lims[0], 'lower'), (hi, lims[1], 'upper')):
        if l is not None:
            mon.le('limits', abs(v-l), 1e-9*max(abs(l), float(np.max(np.abs(want)))), '%s limit %g, expected %g' % (name, v, l))
    if cbar is not None:
        others = [b for b in ax.figure.axes if b.get_label() == '<colorbar>']
        mon.ok('colour bar', bool(others) == cbar, '%d' % len(others))


def problem(rng, nl=False, zero=False):
    c = Cfg(rng, pol='Ez' if nl else None, maxinner=14, mininner=4, maxpml=6, oned=.15)
    if rng.random() < .3:
        c.eps = np.real(c.eps)*float(rng.uniform(1, 3))
    c.with_source(rng)
    sim = c.build()
    if nl:
        F = gen.fields(sim, sim.solve_fields())
        chi = c.L0**2*10**rng.uniform(-3, -1.5)/3/max(float(np.max(np.abs(F['Ez']))), 1e-300)**2
        sim.add_nl(chi, np.ones(c.N))
    return c, sim


def case(kind, rng, mon, tier):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    try:
        globals()['do_'+kind](rng, mon)
    finally:
        plt.close('all')


def tiled(a, n):
    return np.concatenate([a]*n, axis=1)


def options(rng):
    kw = {}
    if rng.random() < .5:
        kw['cbar'] = bool(rng.random() < .5)
    if rng.random() < .5:
        kw['outline'] = bool(rng.random() < .5)
    n = 1
    if rng.random() < .5:
        n = kw['tiled_y'] = int(rng.integers(1, 5))
    return kw, n


def do_abs(rng, mon):
    nl = bool(rng.random() < .4)
    c, sim = problem(rng, nl)
    c.describe(mon)
    if rng.random() < .2:
        sim2 = c.build()
        mon.raises('unsolved', lambda: sim2.plt_abs()); mon.raises('unsolved', lambda: sim2.plt_re())
    sim.solve_fields()
    kw, n = options(rng)
    if nl:
        sim.solve_fields_nl(max_num_iter=3, solver_nl='born')
        show = bool(rng.random() < .6); kw['nl'] = show
    want = tiled(np.abs((sim.fields_nl if kw.get('nl') else sim.fields)[c.pol]), n)
    m = float(want.max())
    lims = [0., m]
    r = rng.random()
    log = bool(rng.random() < .35)
    if r < .5:
        if rng.random() < .6:
            lims[0] = kw['vmin'] = float(m*10**rng.uniform(-4, -1))
        if rng.random() < .6:
            lims[1] = kw['vmax'] = float(m*rng.uniform(.3, 3))
    if log:
        kw['logscale'] = True
        if 'vmin' not in kw:
            pos = want[want > 0]
            lims[0] = None
    mon.param(options={k: v for k, v in kw.items()})
    g = new(rng); before = snapshot(sim)
    ax = sim.plt_abs(ax=g, **kw) if g is not None or rng.random() < .5 else sim.plt_abs(**kw)
    check(mon, rng, ax, g, want, lims, log=log, cbar=kw.get('cbar', True), outline=(tiled(np.abs(c.eps), n), kw.get('outline', True), n))
    if log and 'vmin' not in kw and len(pos):
        mon.ok('limits', 0 < image(ax).get_clim()[0] <= pos.min()*(1+1e-9), 'smallest value %g below the scale, which starts at %g' % (pos.min(), image(ax).get_clim()[0]))
    ax.figure.canvas.draw() if rng.random() < .1 else None
    unchanged(mon, sim, before)


def do_re(rng, mon):
    nl = bool(rng.random() < .4)
    c, sim = problem(rng, nl)
    c.describe(mon)
    sim.solve_fields()
    kw, n = options(rng)
    if nl:
        sim.solve_fields_nl(max_num_iter=3, solver_nl='born'); kw['nl'] = bool(rng.random() < .6)
    want = tiled(np.real((sim.fields_nl if kw.get('nl') else sim.fields)[c.pol]), n)
    m = float(np.abs(want).max())
    mon.param(options=dict(kw))
    g = new(rng); before = snapshot(sim)
    ax = sim.plt_re(ax=g, **kw)
    check(mon, rng, ax, g, want, [-m, m], cbar=kw.get('cbar', True), outline=(tiled(np.abs(c.eps), n), kw.get('outline', True), n))
    unchanged(mon, sim, before)


def do_diff(rng, mon):
    c, sim = problem(rng, True)
    c.describe(mon)
    sim.solve_fields(); sim.solve_fields_nl(max_num_iter=3, solver_nl='born')
    kw, n = options(rng)
    a, b = np.abs(sim.fields[c.pol]), np.abs(sim.fields_nl[c.pol])
    want = a-b
    if rng.random() < .4:
        kw['normalize'] = bool(rng.random() < .5)
    if kw.get('normalize', True):
        want = want/a.max()
    want = tiled(want, n)
    m = float(np.abs(want).max())
    if rng.random() < .4:
        m = kw['vmax'] = float(m*rng.uniform(.2, 4))
    mon.param(options=dict(kw))
    g = new(rng); before = snapshot(sim)
    ax = sim.plt_diff(ax=g, **kw)
    check(mon, rng, ax, g, want, [-m, m], cbar=kw.get('cbar', True), outline=(tiled(np.abs(c.eps), n), kw.get('outline', True), n))
    unchanged(mon, sim, before)


def do_eps(rng, mon):
    c, sim = problem(rng)
    c.describe(mon)
    if rng.random() < .5:
        sim.solve_fields()
    kw, n = options(rng)
    want = tiled(np.abs(sim.eps_r), n)
    mon.param(options=dict(kw))
    g = new(rng); before = snapshot(sim)
    ax = sim.plt_eps(ax=g, **kw)
    lims = [float(want.min()), float(want.max())]
    check(mon, rng, ax, g, want, lims if lims[0] < lims[1] else [None, None], cbar=kw.get('cbar', True), outline=(want, kw.get('outline', True), n))
    unchanged(mon, sim, before)


def do_base(rng, mon):
    """the plotting functions on arrays"""
    from angler.plot import plt_base, plt_base_eps
    N = (int(rng.integers(1, 30)), int(rng.integers(1, 30)))
    F = rng.standard_normal(N)*10.0**rng.integers(-8, 8); O = rng.random(N)*10
    if rng.random() < .6:
        O = np.ones(N); a, b = int(rng.integers(N[0])), int(rng.integers(N[1])); O[a:a+N[0]//2+1, b:b+N[1]//3+1] = 4
    F0, O0 = np.array(F), np.array(O)
    lo, hi = sorted(rng.uniform(-2, 2, 2)*np.abs(F).max())
    g = new(rng); kw = {}
    if rng.random() < .5:
        kw['cbar'] = bool(rng.random() < .5)
    if rng.random() < .5:
        kw['outline'] = bool(rng.random() < .5)
    log = bool(rng.random() < .4)
    mon.param(N=N, options=dict(kw), log=log)
    if rng.random() < .4:
        ax = plt_base_eps(F, O, 'Greys', lo, hi, ax=g, **kw)
        check(mon, rng, ax, g, F0, [lo, hi], cbar=kw.get('cbar', True), outline=(O, bool(kw.get('outline'))))
    elif log:
        F = F0 = np.abs(F)
        v = choice(rng, [None, 0, float(F.min()*.5+1e-300)])
        ax = plt_base(F, O, 'magma', v, float(F.max()*2), 'label', ax=g, logscale=True, **kw)
        check(mon, rng, ax, g, F0, [v if v else None, float(F.max()*2)], log=True, cbar=kw.get('cbar', True), outline=(O, bool(kw.get('outline'))))
        F0 = np.array(F)
    else:
        ax = plt_base(F, O, 'magma', lo, hi, 'label', ax=g, **kw)
        check(mon, rng, ax, g, F0, [lo, hi], cbar=kw.get('cbar', True), outline=(O, bool(kw.get('outline'))))
    mon.same('arrays kept', F, F0); mon.same('arrays kept', O, O0)


def do_objs(rng, mon):
    p = adj.Problem(rng, choice(rng, ['Ez', 'Hz']), maxinner=10, maxpml=5, R=False)
    sim = p.sim(); opt = p.optimization(sim)
    if rng.random() < .4:
        opt.run(method=choice(rng, ['GD', 'ADAM', 'LBFGS']), Nsteps=int(rng.integers(1, 4)))
        if not opt.objfn_list:
            raise core.Skip('no iteration')
    else:
        n = int(rng.integers(1, 30))
        opt.objfn_list = [float(x) for x in rng.standard_normal(n)]; opt.src_amplitudes = [float(x) for x in rng.uniform(.1, 10, n)]
    o, a = list(opt.objfn_list), list(opt.src_amplitudes)
    norm = choice(rng, [None, 'field', 'power'])
    mon.param(n=len(o), norm=norm)
    g = new(rng); before = snapshot(sim)
    ax = opt.plt_objs(norm=norm, ax=g) if rng.random() < .7 else (opt.plt_objs(ax=g) if norm is None else opt.plt_objs(norm, g))
    if g is not None:
        mon.ok('axes', ax is g)
    ln = ax.get_lines()
    mon.ok('history', len(ln) == 1, '%d lines' % len(ln))
    want = np.array(o)/(1 if norm is None else np.array(a)**(1 if norm == 'field' else 2))
    mon.same('history', np.asarray(ln[0].get_xdata(), float), np.arange(1, len(o)+1, dtype=float))
    mon.close('history', np.asarray(ln[0].get_ydata(), float), want, 1e-12)
    mon.ok('history kept', o == list(opt.objfn_list) and a == list(opt.src_amplitudes))
    unchanged(mon, sim, before)


def do_lines(rng, mon):
    """the transmissions of a power scan"""
    import matplotlib.pyplot as plt, warnings
    p = adj.Problem(rng, choice(rng, ['Ez', 'Hz']), maxinner=10, maxpml=5, R=False)
    sim = p.sim(); opt = p.optimization(sim)
    n, m = int(rng.integers(1, 5)), int(rng.integers(2, 20))
    t = rng.uniform(0, 1, (n, m)).tolist(); t0 = copy.deepcopy(t)
    legend = ['port %d' % i for i in range(n)] if rng.random() < .5 else None
    plt.close('all'); before = snapshot(sim)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        opt.plot_transmissions(t, legend) if rng.random() < .5 else opt.plot_transmissions(t, legend=legend)
    ax = [a for f in plt.get_fignums() for a in plt.figure(f).axes]
    ln = [l for a in ax for l in a.get_lines()]
    mon.ok('transmissions', len(ln) == n, '%d lines of %d' % (len(ln), n))
    for l, want in zip(ln, t0):
        mon.same('transmissions', np.asarray(l.get_ydata(), float), np.array(want))
    if legend is not None:
        g = ax[0].get_legend()
        mon.ok('transmissions', g is not None and [x.get_text() for x in g.get_texts()] == legend, 'legend')
    mon.ok('transmissions', t == t0, 'data changed')
    unchanged(mon, sim, before)


def do_ani(rng, mon):
    import matplotlib.animation as ma
    from angler.plot import plt_base_ani
    N = (int(rng.integers(1, 20)), int(rng.integers(1, 20)))
    F = (rng.standard_normal(N)+1j*rng.standard_normal(N))*10.0**rng.integers(-8, 8); F0 = np.array(F)
    n = int(rng.integers(2, 30)); kw = dict(Nframes=n)
    if rng.random() < .2:
        kw = {}; n = 40
    if rng.random() < .3:
        kw['interval'] = int(rng.integers(10, 200))
    mon.param(N=N, n=n)
    ani = plt_base_ani(F, **kw)
    seen = []

    class Recorder(ma.AbstractMovieWriter):
        def setup(self, fig, outfile, dpi=None):
            self.fig = fig; self.outfile = outfile; self.dpi = 30

        def grab_frame(self, **k):
            im = self.fig.axes[0].get_images()[0]
            seen.append((np.array(im.get_array(), float), im.get_clim(), im.get_extent()))

        def finish(self):
            pass
    ani.save('unused', writer=Recorder(fps=5), dpi=30)
    mon.ok('frame', len(seen) == n, '%d frames of %d' % (len(seen), n))
    m = float(np.abs(F0).max())
    for k, (a, cl, e) in enumerate(seen):
        mon.close('frame', a, np.real(F0*np.exp(2j*np.pi*k/(n-1))).T, 1e-11, scale=m)
        mon.close('limits', np.array(cl), np.array([-m, m]), 1e-9)
        mon.ok('frame', np.allclose([abs(e[1]-e[0]), abs(e[3]-e[2])], N), 'extent %s of an array %s' % (e, N))
    mon.same('arrays kept', F, F0)
