import os, shutil, struct, sys
import numpy as np
from .. import gen, runs, core
from ..gen import choice

PLAN = {'quick': {'plots': 90, 'noplots': 30}, 'thorough': {'plots': 1500, 'noplots': 500}}
FLOORS = {'nothing else removed': 60, 'nothing else written': 60, 'images': 60, 'no files without temporary plots': 15}
RULE = ('Random runs with temporary plots into missing, empty and populated folders (stale images, hidden files, subdirectories, symbolic links), relative and absolute, nested, with and without a trailing slash, '
        'repeated; an audit hook records every file-system event of the process and two snapshots of the surrounding tree are compared.')
ASSUMPTIONS = ['file-system changes outside of the scratch directory are refused by the audit hook, and reported']

EVENTS = []
ON = [None]       # scratch root while recording
HOOKED = [False]
CHANGES = {'os.remove': 1, 'os.rmdir': 1, 'os.mkdir': 1, 'os.rename': 2, 'os.link': 2, 'os.symlink': 2, 'os.truncate': 1, 'os.chmod': 1, 'os.chown': 1,
           'shutil.rmtree': 1, 'shutil.move': 2, 'shutil.copyfile': 2, 'os.utime': 1}


def resolve(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, (str, os.PathLike)):
        return None
    p = os.path.abspath(os.fspath(p))
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


def hook(event, a):
    root = ON[0]
    if root is None:
        return
    if event == 'open':
        path, mode, flags = a
        if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)):
            return
        paths = [path]
    elif event in CHANGES:
        paths = list(a[:CHANGES[event]])
    else:
        return
    for p in paths:
        r = resolve(p)
        if r is None or r.startswith(('/dev/', '/proc/')) or r.startswith(os.path.realpath(os.environ.get('MPLCONFIGDIR', '/nonexistent'))+os.sep):
            continue
        EVENTS.append((event, r))
        if not (r+os.sep).startswith(root+os.sep):
            raise PermissionError('refused by the check: %s %s' % (event, r))


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds+fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[p] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[p] = ('dir',)
            else:
                with open(p, 'rb') as f:
                    out[p] = ('file', f.read())
    return out


def png(data):
    if data[:8] != b'\x89PNG\r\n\x1a\n' or data[-12:] != b'\x00\x00\x00\x00IEND\xaeB`\x82':
        return None
    return struct.unpack('>II', data[16:24])


def populate(rng, folder, root):
    """-> kinds of content"""
    kinds = []

    def put(p, data=None):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if data is not None else bytes(rng.integers(0, 256, 20).astype(np.uint8)))
    for k in ('stale', 'other', 'hidden', 'subdir', 'named', 'linkfile', 'linkdir', 'broken', 'emptydir'):
        if rng.random() > .5:
            continue
        kinds.append(k)
        if k == 'stale':
            for i in rng.integers(0, 40, 4):
                put(os.path.join(folder, 'it%06d.png' % i))
        elif k == 'other':
            put(os.path.join(folder, 'notes.txt')); put(os.path.join(folder, 'data file.npy'))
        elif k == 'hidden':
            put(os.path.join(folder, '.hidden'))
        elif k == 'subdir':
            put(os.path.join(folder, 'sub', 'keep.txt')); put(os.path.join(folder, 'sub', 'deeper', 'it000000.png'))
        elif k == 'named':
            put(os.path.join(folder, 'it000003.png.d', 'x'))
        elif k == 'linkfile':
            put(os.path.join(root, 'targets', 'precious.txt')); os.symlink(os.path.join(root, 'targets', 'precious.txt'), os.path.join(folder, 'alink'))
        elif k == 'linkdir':
            put(os.path.join(root, 'targets', 'dir', 'it000000.png')); os.symlink(os.path.join(root, 'targets', 'dir'), os.path.join(folder, 'dlink'))
        elif k == 'broken':
            os.symlink(os.path.join(root, 'nowhere'), os.path.join(folder, 'blink'))
        else:
            os.makedirs(os.path.join(folder, 'empty'), exist_ok=True)
    return kinds


def case(kind, rng, mon, tier):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    if not HOOKED[0]:
        # (let matplotlib write its caches first)
        f, a = plt.subplots(); a.set_title('x'); f.canvas.draw(); plt.close(f)
        sys.addaudithook(hook); HOOKED[0] = True
    scratch = os.environ.get('VT_SCRATCH') or '/tmp'
    root = os.path.realpath(os.path.join(scratch, 'c33-%d' % os.getpid()))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'work', 'sibling'))
    old = os.getcwd()
    try:
        os.chdir(os.path.join(root, 'work'))
        for p in ('work/script.py', 'work/it000000.png', 'work/sibling/it000001.png', 'top.txt'):
            with open(os.path.join(root, p), 'w') as f:
                f.write('precious '+p)
        globals()['do_'+kind](rng, mon, root)
    finally:
        ON[0] = None
        os.chdir(old)
        plt.close('all')
        shutil.rmtree(root, ignore_errors=True)


def problem(rng, mon):
    p = runs.problem(rng, maxinner=12, mininner=8, nl=bool(rng.random() < .25))
    runs.normalize(p, rng)
    sim = p.sim(); opt = p.optimization(sim)
    nl = any(n for _, n in p.args)
    method = choice(rng, ['GD', 'ADAM', 'LBFGS'])
    N = int(rng.integers(1, 6))
    if rng.random() < .15:
        N = int(rng.integers(20, 60)) if not nl else int(rng.integers(8, 24))
    mon.param(method=method, N=N, nl=nl)
    return p, sim, opt, nl, method, N


def record(root, fn):
    del EVENTS[:]
    ON[0] = root
    try:
        fn()
    finally:
        ON[0] = None
    return list(EVENTS)


def do_noplots(rng, mon, root):
    p, sim, opt, nl, method, N = problem(rng, mon)
    before = tree(root)
    ev = record(root, lambda: opt.run(method=method, Nsteps=N, step_size=.01))
    mon.ok('no files without temporary plots', not ev, str(ev[:3]))
    mon.ok('no files without temporary plots', tree(root) == before, 'the tree changed')


def do_plots(rng, mon, root):
    from angler.plot import Temp_plt
    p, sim, opt, nl, method, N = problem(rng, mon)
    work = os.path.join(root, 'work')
    rel = choice(rng, ['tmp', 'figs/data/temp_im', 'a b', 'deep/er/and/deeper', '../other', 'sibling/inner'])
    folder = os.path.normpath(os.path.join(work, rel))
    state = choice(rng, ['missing', 'populated', 'populated', 'empty'])
    kinds = []
    if state != 'missing':
        os.makedirs(folder)
    if state == 'populated':
        kinds = populate(rng, folder, root)
    given = rel if rng.random() < .5 else folder
    if rng.random() < .5:
        given += '/'
    panels = [x for x in ('eps', 'of', 'elin')+(('enl',) if nl else ()) if rng.random() < .5] or ['eps']
    every = int(rng.integers(1, 4)) if N < 7 else int(rng.integers(2, 15)); dpi = int(rng.integers(30, 60)); size = (float(rng.uniform(2, 4)), float(rng.uniform(2, 4)))
    kw = dict(it_plot=every, folder=given, dpi=dpi, figsize=size)
    if panels != ['eps'] or rng.random() < .5:
        kw['plot_what'] = panels if rng.random() < .5 else tuple(panels)
    mon.param(folder=given, state=state, content=kinds, panels=panels, every=every)
    repeat = 2 if rng.random() < .35 else 1
    for rep in range(repeat):
        done = len(opt.objfn_list)
        before = tree(root)
        tp = Temp_plt(**kw)
        ev = record(root, lambda: opt.run(method=method, Nsteps=N, step_size=.01, temp_plt=tp))
        after = tree(root)
        n = len(opt.objfn_list)-done
        want = {os.path.join(folder, 'it%06d.png' % i) for i in range(0, n, every)}
        # 1. events: only in the folder
        for e, q in ev:
            inside = os.path.dirname(q) == folder
            if e in ('os.mkdir',):
                mon.ok('nothing else written', q not in before and (folder+os.sep).startswith(q+os.sep), '%s %s' % (e, q))
            elif e == 'open':
                mon.ok('nothing else written', inside and (q in want or q not in before), '%s %s' % (e, q))
            elif e == 'os.rename':
                mon.ok('nothing else written', inside and (q in want or q not in before), '%s %s' % (e, q))
            elif e == 'os.remove':
                mon.ok('nothing else removed', inside and (before.get(q, ('',))[0] in ('file',) or (before.get(q, ('',))[0] == 'link' and os.path.isfile(os.path.join(os.path.dirname(q), before[q][1])))), '%s %s' % (e, q))
            else:
                mon.fail('nothing else written', 'unexpected %s %s' % (e, q))
        mon.event('file-system events', len(ev))
        # 2. the tree afterwards
        for q, v in before.items():
            direct = os.path.dirname(q) == folder
            if direct and v[0] == 'file':
                mon.ok('plain files removed', q not in after or q in want, q)
            elif direct and v[0] == 'link' and os.path.isfile(v[1]):
                continue
            else:
                mon.ok('nothing else removed', after.get(q) == v, '%s is gone or changed' % q)
        new = {q for q in after if q not in before or (after[q] != before[q])}
        for q in new:
            mon.ok('nothing else written', q in want or (after[q][0] == 'dir' and (folder+os.sep).startswith(q+os.sep)), q)
        mon.ok('images', all(q in after for q in want), '%d images of %d for %d iterations' % (sum(q in after for q in want), len(want), n))
        for q in want:
            d = png(after[q][1])
            mon.ok('images', d is not None and abs(d[0]-size[0]*dpi) <= 1.5 and abs(d[1]-size[1]*dpi) <= 1.5, '%s: %s, expected %s at %d dpi' % (q, d, size, dpi))
        mon.event('images', len(want))
    if rng.random() < .3:
        before = tree(root)
        ev = record(root, lambda: opt.run(method=method, Nsteps=2, step_size=.01))
        mon.ok('no files without temporary plots', not ev and tree(root) == before, str(ev[:3]))
