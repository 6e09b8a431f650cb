"""Runs a batch of simulations with whichever linear-solver back end imports (argv: repo seed count out [nomkl])."""
import sys
import numpy as np


def batch(seed, count):
    from . import adj, gen
    out = []
    for k in range(count):
        rng = np.random.default_rng([seed, k])
        pol = gen.choice(rng, ['Ez', 'Hz'])
        nl = pol == 'Ez' and rng.random() < .6
        p = adj.Problem(rng, pol, nl=nl, maxinner=12, maxpml=7, weak=10**rng.uniform(-4, -2) if nl else None)
        s = p.sim()
        res = [np.concatenate([np.ravel(f) for f in s.solve_fields()[2:]])]
        if nl:
            for solver in ('born', 'newton', 'hybrid'):
                r = s.solve_fields_nl(solver_nl=solver)
                good = bool((np.asarray(r[3]) < 1e-9).any())
                res += [np.ravel(r[2]) if good else np.zeros(0)]
        opt = p.optimization(s)
        res.append(np.array([opt.compute_J(s)]))
        res.append(np.ravel(opt.compute_dJ(s, p.design)*p.design))
        out.append(res)
    return out


if __name__ == '__main__':
    import os, pickle, warnings
    warnings.simplefilter('ignore')
    repo, seed, count, path = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sys.path.insert(0, repo)
    if 'nomkl' in sys.argv[5:]:
        sys.modules['pyMKL'] = None
    import angler.constants, angler.linalg
    r = batch(seed, count)
    with open(path, 'wb') as f:
        pickle.dump((angler.constants.DEFAULT_SOLVER, angler.linalg.SOLVER, r), f)
    sys.stdout.flush()
    os._exit(0)
