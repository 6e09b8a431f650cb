import numpy as np
from ..gen import choice

PLAN = {'quick': {'three_port': 250, 'two_port': 200, 'N_port': 250, 'ortho_port': 250, 'accelerator': 200, 'accelerator_multi': 200, 'regions': 400, 'grid': 100, 'unit': 250},
        'thorough': {'three_port': 1500, 'two_port': 1500, 'N_port': 1500, 'ortho_port': 1500, 'accelerator': 1500, 'accelerator_multi': 1500, 'regions': 3000, 'grid': 1000, 'unit': 1500}}
FLOORS = {'permittivity': 200, 'design region': 200, 'shape': 200, 'waveguides reach the edges': 80, 'regions': 60, 'unit of length': 150, 'in the unit': 80}
RULE = ('Random geometries; every pixel whose centre is farther than a pixel (two for the ports, whose positions and widths are rounded to pixels) from a boundary of the documented geometry is compared with '
        'an independent rasterization, widths and positions are counted, region lists are compared with their union; the arrays are the same in every unit of length.')
INF = float('inf')


def axes(shape, dl):
    return [(np.arange(n)-(n-1)/2)*dl for n in shape]


def judge(mon, name, got, rects, shape, dl, inside, outside):
    """rects: (xa, xb, ya, yb, tolerance in pixels)"""
    x, y = axes(shape, dl)
    X, Y = np.meshgrid(x, y, indexing='ij')
    sure_in = np.zeros(shape, bool); maybe = np.zeros(shape, bool)
    for xa, xb, ya, yb, t in rects:
        tx = ty = t*dl
        sure_in |= (X > xa+tx) & (X < xb-tx) & (Y > ya+ty) & (Y < yb-ty)
        maybe |= (X > xa-tx) & (X < xb+tx) & (Y > ya-ty) & (Y < yb+ty)
    got = np.asarray(got)
    mon.ok(name, got.shape == shape, 'shape %s' % (got.shape,))
    mon.ok(name, np.isin(got, [inside, outside]).all(), 'values %s' % np.unique(got)[:5])
    bad = sure_in & (got != inside)
    mon.ok(name, not bad.any(), 'pixel %s inside the geometry is %s' % (np.argwhere(bad)[:1].tolist(), got[bad][:1]))
    bad = ~maybe & (got != outside)
    mon.ok(name, not bad.any(), 'pixel %s outside the geometry is %s' % (np.argwhere(bad)[:1].tolist(), got[bad][:1]))
    mon.event('pixels judged', int((sure_in | ~maybe).sum()))
    mon.event('pixels inside', int(sure_in.sum()))


def runs(line):
    """-> list of (centre, length) of the runs of True"""
    out = []; start = None
    for i, v in enumerate(list(line)+[False]):
        if v and start is None:
            start = i
        if not v and start is not None:
            out.append(((start+i-1)/2, i-start)); start = None
    return out


def check_shape(mon, shape, want):
    for n, w in zip(shape, want):
        mon.le('shape', abs(n-w), 1.001, '%s, expected %s' % (shape, want))


def common(rng):
    dl = float(choice(rng, [.02, .04, .05, .1, float(rng.uniform(.02, .12))]))
    px = lambda a, b: float(rng.uniform(a, b))*dl if rng.random() < .5 else int(rng.integers(a, b))*dl
    NPML = [int(rng.integers(0, 12)) for _ in range(2)]
    es = float(rng.uniform(1.5, 12)); bg = float(choice(rng, [1, 1, 2.25, float(rng.uniform(.5, 3))]))
    if bg == es:
        bg = 1
    return dl, px, NPML, es, bg


def line(mon, mask, n, want, dl, tol, name, wtol=2.05):
    """runs of a cross section against the wanted (centre, width) in lengths"""
    got = runs(mask)
    mon.ok(name, len(got) == len(want), '%d guides, expected %d' % (len(got), len(want)))
    for (c, w), (c0, w0) in zip(got, sorted(want)):
        mon.le(name, abs(w-w0/dl), wtol, 'width %g pixels, expected %g' % (w, w0/dl))
        mon.le(name, abs((c-(n-1)/2)-c0/dl), tol, 'centre %g pixels from the middle, expected %g' % (c-(n-1)/2, c0/dl))


def case(kind, rng, mon, tier):
    globals()['do_'+kind](rng, mon)


def do_three_port(rng, mon):
    from angler.structures import three_port
    dl, px, NPML, es, bg = common(rng)
    w = px(3, 9); d = w+px(4, 16); H = d+w+px(2, 10); L = px(6, 30); l = px(5, 12); spc = px(5, 12)
    kw = {} if bg == 1 and rng.random() < .5 else dict(eps_background=bg)
    bg = kw.get('eps_background', 1)
    mon.param(L=L, H=H, w=w, d=d, l=l, spc=spc, dl=dl, NPML=NPML, eps=es, bg=bg)
    e, D = three_port(L, H, w, d, l, spc, dl, list(NPML), es, **kw)
    sh = e.shape
    check_shape(mon, sh, (2*NPML[0]+(2*l+L)/dl, 2*NPML[1]+(H+2*spc)/dl))
    box = (-L/2, L/2, -H/2, H/2, 1.01)
    judge(mon, 'permittivity', e, [box, (-INF, 0, -w/2, w/2, 2.01), (0, INF, d/2-w/2, d/2+w/2, 2.51), (0, INF, -d/2-w/2, -d/2+w/2, 2.51)], sh, dl, es, bg)
    judge(mon, 'design region', D, [box], sh, dl, 1, 0)
    line(mon, e[0] == es, sh[1], [(0, w)], dl, 1.51, 'waveguides reach the edges')
    line(mon, e[-1] == es, sh[1], [(-d/2, w), (d/2, w)], dl, 2.01, 'waveguides reach the edges')
    line(mon, D[:, sh[1]//2] == 1, sh[0], [(0, L)], dl, 1.01, 'design region'); line(mon, D[sh[0]//2] == 1, sh[1], [(0, H)], dl, 1.01, 'design region')


def do_two_port(rng, mon):
    from angler.structures import two_port
    dl, px, NPML, es, bg = common(rng)
    w = px(3, 9); H = w+px(2, 20); L = px(6, 30); l = px(5, 12); spc = px(5, 12)
    mon.param(L=L, H=H, w=w, l=l, spc=spc, dl=dl, NPML=NPML, eps=es)
    e, D = two_port(L, H, w, l, spc, dl, list(NPML), es)
    sh = e.shape
    check_shape(mon, sh, (2*NPML[0]+(2*l+L)/dl, 2*NPML[1]+(H+2*spc)/dl))
    judge(mon, 'permittivity', e, [(-INF, INF, -w/2, w/2, 1.01)], sh, dl, es, 1)
    judge(mon, 'design region', D, [(-L/2, L/2, -H/2, H/2, 1.01)], sh, dl, 1, 0)
    for i in range(sh[0]):
        line(mon, e[i] == es, sh[1], [(0, w)], dl, 1.01, 'waveguides reach the edges')


def do_N_port(rng, mon):
    from angler.structures import N_port
    dl, px, NPML, es, bg = common(rng)
    N = int(rng.integers(1, 6))
    w = px(3, 8); d = w+px(4, 12); H = d*(N-1)+w+px(2, 10); L = px(6, 30); l = px(5, 12); spc = px(5, 12)
    kw = {} if bg == 1 and rng.random() < .5 else dict(eps_background=bg)
    bg = kw.get('eps_background', 1)
    mon.param(N=N, L=L, H=H, w=w, d=d, l=l, spc=spc, dl=dl, NPML=NPML, eps=es, bg=bg)
    e, D = N_port(N, L, H, w, d, l, spc, dl, list(NPML), es, **kw)
    sh = e.shape
    check_shape(mon, sh, (2*NPML[0]+(2*l+L)/dl, 2*NPML[1]+(H+2*spc)/dl))
    box = (-L/2, L/2, -H/2, H/2, 1.01)
    ys = [(i-(N-1)/2)*d for i in range(N)]
    judge(mon, 'permittivity', e, [box, (-INF, 0, -w/2, w/2, 2.01)]+[(0, INF, y-w/2, y+w/2, 2.01) for y in ys], sh, dl, es, bg)
    judge(mon, 'design region', D, [box], sh, dl, 1, 0)
    line(mon, e[0] == es, sh[1], [(0, w)], dl, 1.51, 'waveguides reach the edges')
    line(mon, e[-1] == es, sh[1], [(y, w) for y in ys], dl, 1.51, 'waveguides reach the edges')


def do_ortho_port(rng, mon):
    from angler.structures import ortho_port
    dl, px, NPML, es, bg = common(rng)
    w = px(3, 9); L2 = w+px(3, 12); H2 = w+px(3, 12); L = L2+px(3, 14); H = H2+px(3, 14); l = px(5, 12)
    mon.param(L=L, L2=L2, H=H, H2=H2, w=w, l=l, dl=dl, NPML=NPML, eps=es)
    e, D = ortho_port(L, L2, H, H2, w, l, dl, list(NPML), es)
    sh = e.shape
    check_shape(mon, sh, (2*NPML[0]+(2*l+L)/dl, 2*NPML[1]+(2*l+H)/dl))
    judge(mon, 'permittivity', e, [(-INF, INF, -w/2, w/2, 1.51), (-w/2, w/2, 0, INF, 1.51)], sh, dl, es, 1)
    judge(mon, 'design region', D, [(-L/2, L/2, -w/2, w/2, 1.51), (-L2/2, L2/2, -H2/2, H2/2, 1.51), (-w/2, w/2, -H2/2, H/2, 1.51)], sh, dl, 1, 0)
    line(mon, e[0] == es, sh[1], [(0, w)], dl, 1.01, 'waveguides reach the edges'); line(mon, e[-1] == es, sh[1], [(0, w)], dl, 1.01, 'waveguides reach the edges')
    line(mon, e[:, -1] == es, sh[0], [(0, w)], dl, 1.51, 'waveguides reach the edges')
    mon.ok('permittivity', (e[:, 0] == 1).all(), 'a guide towards the bottom')


def do_accelerator(rng, mon):
    from angler.structures import accelerator
    dl, px, NPML, es, bg = common(rng)
    gap = px(4, 12); L = px(5, 20); spc = px(4, 10); beta = float(rng.uniform(.2, 1)); lam = px(15, 50)/beta*.5+4*dl/beta
    mon.param(gap=gap, L=L, spc=spc, beta=beta, lam=lam, dl=dl, NPML=NPML, eps=es)
    e, D = accelerator(beta, gap, lam, L, spc, dl, list(NPML), es)
    slabs(mon, e, D, gap, L, spc, 1, beta, lam, dl, NPML, es)


def slabs(mon, e, D, gap, L, spc, n, beta, lam, dl, NPML, es):
    sh = e.shape
    check_shape(mon, sh, (2*NPML[0]+(4*spc+2*L*n+gap*n)/dl, beta*lam/dl))
    r = []
    for i in range(n//2+1):
        a = gap/2+i*(gap+L)
        r += [(a, a+L, -INF, INF, 1.01), (-a-L, -a, -INF, INF, 1.01)]
    judge(mon, 'permittivity', e, r, sh, dl, es, 1)
    judge(mon, 'design region', D, r, sh, dl, 1, 0)
    for a, v in ((e, es), (D, 1)):
        mon.ok('periodic along y', (a == a[:, :1]).all())
        line(mon, a[:, 0] == v, sh[0], [((x[0]+x[1])/2, L) for x in r], dl, 1.01, 'slabs')


def do_accelerator_multi(rng, mon):
    from angler.structures import accelerator_multi
    dl, px, NPML, es, bg = common(rng)
    gap = px(4, 12); L = px(5, 12); spc = px(4, 10); beta = float(rng.uniform(.2, 1)); lam = px(8, 20)/beta
    n = choice(rng, [1, 3, 5, 7])
    mon.param(n=n, gap=gap, L=L, spc=spc, beta=beta, lam=lam, dl=dl, NPML=NPML, eps=es)
    e, D = accelerator_multi(beta, gap, lam, L, spc, n, dl, list(NPML), es)
    slabs(mon, e, D, gap, L, spc, n, beta, lam, dl, NPML, es)
    mon.raises('even number of channels', lambda: accelerator_multi(beta, gap, lam, L, spc, n+1, dl, list(NPML), es))


def do_unit(rng, mon):
    """The geometry is a matter of ratios: every length (and dl) in another unit gives the same arrays."""
    from angler import structures as S
    dl, px, NPML, es, bg = common(rng)
    w = px(3, 9); d = w+px(4, 16); l = px(5, 12); spc = px(5, 12); L2 = w+px(3, 12); L = L2+px(3, 14); gap = px(4, 12); N = int(rng.integers(1, 6))
    H = d*max(N-1, 1)+w+px(2, 10); beta = float(rng.uniform(.2, 1)); lam = px(10, 30)/beta
    f = choice(rng, ['three_port', 'two_port', 'N_port', 'N_port', 'ortho_port', 'accelerator', 'accelerator_multi'])
    build = {'three_port': lambda s: S.three_port(L*s, H*s, w*s, d*s, l*s, spc*s, dl*s, list(NPML), es, eps_background=bg),
             'two_port': lambda s: S.two_port(L*s, H*s, w*s, l*s, spc*s, dl*s, list(NPML), es),
             'N_port': lambda s: S.N_port(N, L*s, H*s, w*s, d*s, l*s, spc*s, dl*s, list(NPML), es, eps_background=bg),
             'ortho_port': lambda s: S.ortho_port(L*s, L2*s, H*s, L2*s, w*s, l*s, dl*s, list(NPML), es),
             'accelerator': lambda s: S.accelerator(beta, gap*s, lam*s, L*s, spc*s, dl*s, list(NPML), es),
             'accelerator_multi': lambda s: S.accelerator_multi(beta, gap*s, lam*s, w*s, spc*s, 3, dl*s, list(NPML), es)}[f]
    unit = 2.**int(choice(rng, [-40, -30, -20, -10, -5, -3, -1, 1, 3, 6, 10, 20]))
    mon.param(f=f, unit=unit, N=N, L=L, H=H, w=w, d=d, l=l, spc=spc, dl=dl, NPML=NPML)
    a, b = build(1), build(unit)
    for p, q, name in zip(a, b, ('permittivity', 'design region')):
        mon.ok('unit of length', p.shape == q.shape, '%s: shape %s, %s in the other unit' % (name, p.shape, q.shape))
        mon.ok('unit of length', (p == q).all(), '%s: %d of %d pixels differ in the other unit' % (name, (p != q).sum(), p.size))
    if f != 'accelerator' and f != 'accelerator_multi':
        line(mon, b[0][0] == es, b[0].shape[1], [(0, w)], dl, 1.51, 'in the unit')


def do_regions(rng, mon):
    from angler.structures import apply_regions, get_grid
    sh = (int(rng.integers(2, 30)), int(rng.integers(2, 30))); dl = float(rng.uniform(.01, .5))
    xs, ys = get_grid(sh, dl)
    if rng.random() < .3:
        xs = xs+float(rng.uniform(-3, 3))
    X0, Y0 = np.array(xs), np.array(ys)
    n = int(rng.integers(1, 5))
    es, bg = float(rng.uniform(1.5, 12)), float(rng.uniform(.5, 3))
    if rng.random() < .15:
        bg = 1; es = 2
    regs, want = [], np.zeros(sh, bool)
    forms = []
    for _ in range(n):
        f = choice(rng, ['box', 'box', 'disc', 'half', 'all', 'none', 'int', 'conditional', 'pixel'])
        forms.append(f)
        i, j = int(rng.integers(sh[0])), int(rng.integers(sh[1]))
        cx, cy = float(xs[i, j]), float(ys[i, j]); r = float(rng.uniform(.5, 10))*dl; q = float(rng.uniform(.5, 10))*dl
        if f == 'box':
            g = lambda x, y, cx=cx, cy=cy, r=r, q=q: (np.abs(x-cx) < r)*(np.abs(y-cy) < q)
            m = (np.abs(xs-cx) < r) & (np.abs(ys-cy) < q)
        elif f == 'disc':
            g = lambda x, y, cx=cx, cy=cy, r=r: (x-cx)**2+(y-cy)**2 < r**2
            m = (xs-cx)**2+(ys-cy)**2 < r**2
        elif f == 'half':
            g = lambda x, y, cx=cx: x > cx
            m = xs > cx
        elif f == 'all':
            g = lambda x, y: True
            m = np.ones(sh, bool)
        elif f == 'none':
            g = lambda x, y: False
            m = np.zeros(sh, bool)
        elif f == 'int':
            g = lambda x, y, cx=cx: 1*(x > cx)
            m = xs > cx
        elif f == 'conditional':
            g = lambda x, y, cx=cx, cy=cy, q=q: bool(y-cy > q) if x > cx else bool(y < cy)
            m = np.where(xs > cx, ys-cy > q, ys < cy)
        else:
            g = lambda x, y, cx=cx, cy=cy: (x == cx) & (y == cy)
            m = (xs == cx) & (ys == cy)
        regs.append(g); want |= m
    mon.param(shape=sh, forms=forms, eps=es, bg=bg)
    arg = regs[0] if n == 1 and rng.random() < .5 else list(regs)
    e = apply_regions(arg, xs, ys, es, **({} if bg == 1 else dict(eps_background=bg)))
    mon.same('regions', e, np.where(want, es, bg))
    mon.same('coordinates kept', xs, X0); mon.same('coordinates kept', ys, Y0)
    if isinstance(arg, list):
        mon.ok('list kept', len(arg) == n and all(a is b for a, b in zip(arg, regs)))


def do_grid(rng, mon):
    from angler.structures import get_grid
    sh = (int(rng.integers(2, 300)), int(rng.integers(2, 300))); dl = float(10**rng.uniform(-4, 1))
    mon.param(shape=sh, dl=dl)
    xs, ys = get_grid(sh, dl)
    mon.ok('grid', xs.shape == sh and ys.shape == sh, '%s %s' % (xs.shape, ys.shape))
    x, y = axes(sh, dl)
    mon.le('grid', float(np.max(np.abs(xs-x[:, None])))/dl, .5+1e-9); mon.le('grid', float(np.max(np.abs(ys-y[None, :])))/dl, .5+1e-9)
    mon.close('grid is symmetric', xs, -xs[::-1], 1e-12); mon.close('grid is symmetric', ys, -ys[:, ::-1], 1e-12)
    mon.ok('grid', (np.diff(xs, axis=0) > 0).all() and (np.diff(ys, axis=1) > 0).all())
