"""Entry point of every check."""
import argparse, importlib, json, os, sys, time
from . import core

QUICK = 2       # every quick plan is run this many times over


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--noev', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    t0 = time.time()

    sys.path.insert(0, core.REPO)
    if not a.replay:
        print('property %s, %s tier, seed %d, code in %s' % (pid, a.tier, a.seed, core.REPO), flush=True)
    try:
        import warnings
        warnings.simplefilter('ignore')
        import angler
        assert os.path.realpath(angler.__file__).startswith(os.path.realpath(core.REPO)+os.sep), angler.__file__
        mod = importlib.import_module('vt.props.'+pid.lower())
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('INCONCLUSIVE property=%s the code under test or the check could not be loaded: %r' % (pid, e))
        return 2
    known = core.load_known()
    from . import gen
    gen.TAIL = getattr(mod, 'TAIL', 0.0)

    if a.replay:
        rp = json.load(open(a.replay))
        r = core.run_case(mod, pid, rp['kind'], rp['idx'], rp['seed'], rp['tier'], known)
        print(json.dumps({k: r[k] for k in ('status', 'msg', 'params', 'evals')}, indent=1))
        if r.get('tb'):
            print(r['tb'])
        if r['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        return 0

    plan = mod.PLAN[a.tier]
    jobs = []
    for kind, n in plan.items():
        if a.only and kind != a.only:
            continue
        jobs += [(kind, i) for i in range(max(1, int(round(n*a.scale*(QUICK if a.tier == 'quick' else 1)))))]
    # interleave the kinds, so that a run that is cut short has seen all of them
    tot = {k: sum(1 for j in jobs if j[0] == k) for k in plan}
    jobs.sort(key=lambda j: (j[1]/max(1, tot[j[0]]), j[0]))
    deadline = t0 + (600 if a.tier == 'quick' else 6*3600)
    results, notrun = core.run_cases(mod, pid, jobs, a.seed, a.tier, known, a.jobs, deadline,
                                     stop_after=int(os.environ.get("VT_STOP", 3)))
    wall = time.time()-t0
    if os.environ.get('VT_LINES'):
        with open(os.environ['VT_LINES'], 'w') as f:
            json.dump({k: sorted(v) for k, v in core.reached(results)[1].items()}, f)
    viol = [r for r in results if r['status'] == 'violation']
    inc = [r for r in results if r['status'] == 'inconclusive']
    ev = core.evidence(pid, mod, a.tier, a.seed, results, wall, len(viol), notrun) if not a.noev else None
    nev = {}
    for r in results:
        for m, v in r['evals'].items():
            nev[m] = nev.get(m, 0)+v
    print('cases %d (skipped %d, inconclusive %d, not run %d), monitor evaluations %d, %.1f s' % (
        len(results), sum(r['status'] == 'skipped' for r in results), len(inc), notrun, sum(nev.values()), wall))
    worst = {}
    for r in results:
        for m, v in r['worst'].items():
            worst[m] = max(worst.get(m, 0), v)
    for m in sorted(nev):
        print('   %-46s %6d evaluations%s' % (m, nev[m], ', worst measured/allowed %.3g' % worst[m] if m in worst else ''))
    hits = {}
    for r in results:
        hits.update(r['known'])
    for k in known:
        if k['property'] == pid and k['key'] in hits:
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, k['what'], hits[k['key']]))
    if viol:
        viol.sort(key=lambda r: (r['kind'], r['idx']))
        for r in viol[:5]:
            path = core.write_replay(pid, a.seed, a.tier, r)
            print('  %s #%d: %s' % (r['kind'], r['idx'], r['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for r in inc[:5]:
        print('  inconclusive %s #%d: %s' % (r['kind'], r['idx'], r['msg']))
    if a.only or a.scale < 1:
        return 0
    floors = getattr(mod, 'FLOORS', {})
    low = ['%s: %d < %d' % (m, nev.get(m, 0), f) for m, f in floors.items() if nev.get(m, 0) < f]
    for kind in plan:
        n = sum(1 for r in results if r['kind'] == kind and r['status'] == 'held' and sum(r['evals'].values()))
        if n < max(1, plan[kind]//4):
            low.append('%s: only %d of %d cases judged' % (kind, n, plan[kind]))
    if low:
        print('INCONCLUSIVE property=%s monitors reached too rarely: %s' % (pid, '; '.join(low)))
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
