import numpy as np
from .. import gen, ops
from ..gen import choice

TAIL = 0.02
PLAN = {'quick': {'history': 260}, 'thorough': {'history': 5000}}
FLOORS = {'linear fields = fresh simulation': 500, 'fields discarded with the permittivity': 500, 'no nonlinearity': 300}
RULE = ('Random sequences of operations (assignments, modes, nonlinearities, linear and nonlinear solves, probes, plots, copies, objectives) on one simulation; '
        'after every few operations a linear solve is compared with that of a newly built simulation with the same settings.')


def case(kind, rng, mon, tier):
    from angler import Simulation
    st = ops.make(rng, mon)
    st.c.describe(mon)
    trace = []
    n = int(rng.integers(4, 14))
    p = ops.WEIGHTS/ops.WEIGHTS.sum()
    for i in range(n):
        op = ops.OPS[int(rng.choice(len(ops.OPS), p=p))]
        trace.append(op.__name__)
        mon.param(trace=trace)
        keep = dict(st.sim.fields) if op in (ops.op_solve_nl,) else None
        op(rng, st)
        mon.event(op.__name__)
        s = st.sim
        mon.same('permittivity is the assigned one', s.eps_r, st.eps)
        mon.same('source is the assigned one', s.src, st.src)
        if keep is not None and keep[st.pol] is not None:
            for k in gen.FIELDS[st.pol]:
                mon.same('nonlinear solve keeps the linear fields', s.fields[k], keep[k], k)
        if rng.random() < .5 or i == n-1:
            f = Simulation(st.c.omega, np.array(s.eps_r), st.c.dl, list(st.NPML), st.pol, L0=st.c.L0)
            f.src = np.array(s.src)
            A = gen.fields(s, s.solve_fields()); B = gen.fields(f, f.solve_fields())
            for k in A:
                mon.close('linear fields = fresh simulation', A[k], B[k], 1e-7, msg=k)
                mon.same('stored = returned', s.fields[k], A[k], k)
            for a in ('Nx', 'Ny', 'dl', 'omega', 'L0', 'pol', 'NPML', 'xrange', 'yrange'):
                mon.ok('settings', getattr(s, a) == getattr(f, a), a)
            if not len(s.nonlinearity) and rng.random() < .4:
                # without (or no longer with) nonlinearities the nonlinear fields are the linear ones
                r = s.solve_fields_nl(solver_nl='born' if st.pol == 'Hz' else choice(rng, ['born', 'newton', 'hybrid']))
                for k, v in gen.fields(s, r[:3]).items():
                    mon.close('no nonlinearity', v, B[k], 1e-7, msg=k)
                if st.pol == 'Ez':
                    mon.ok('no index shift', not np.any(s.compute_index_shift()))
            if st.pol == 'Ez' and rng.random() < .3 and len(s.nonlinearity):
                # nonlinear states, too, depend on the current settings only
                for nl in s.nonlinearity:
                    f.nonlinearity.append(nl)
                a = s.solve_fields_nl(solver_nl='newton'); b = f.solve_fields_nl(solver_nl='newton')
                if a[3].min() == 0 and b[3].min() == 0:
                    mon.close('nonlinear fields = fresh simulation', a[2], b[2], 1e-6)
                    i1 = s.compute_index_shift(); i2 = f.compute_index_shift()
                    mon.close('index shift = fresh simulation', i1, i2, 1e-6)
    mon.event('operations', n)
