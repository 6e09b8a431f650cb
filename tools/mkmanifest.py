"""writes MANIFEST.json and known_findings.json"""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
'C01': 'runtime monitor: residual of independently derived Maxwell equations on every solve',
'C02': 'runtime metamorphic monitor: same scene in domains with absorbing layers and in larger ones; power balance',
'C03': 'runtime metamorphic monitor: reciprocity of exchanged sources',
'C04': 'runtime metamorphic monitor: fields of transformed scenes',
'C05': 'runtime metamorphic monitor: superposition and change of unit',
'C06': 'history monitor: random operation histories against a freshly built replica',
'C07': 'history monitor: snapshots of caller data and of bystander simulations around operations',
'C08': 'runtime monitor of accepted and rejected requests',
'C09': 'runtime conservation monitor over flux probes',
'C10': 'runtime monitor: inserted profiles against an independent eigensolver',
'C11': 'runtime monitor: recorded input power against flux in an independently built straight guide',
'C12': 'runtime monitor: residual of independently derived nonlinear Maxwell equations',
'C13': 'runtime differential and trace monitor over nonlinear iterations',
'C14': 'runtime reference-model monitor of the Kerr terms',
'C15': 'runtime monitor: adjoint gradients against finite differences of the real objective',
'C16': 'runtime monitor: adjoint gradients against finite differences of the real objective',
'C17': 'runtime monitor: adjoint gradients against finite differences of the real objective',
'C18': 'runtime reference-model monitor of the filter',
'C19': 'runtime reference-model and invariant monitor of the density mapping',
'C20': 'history monitor: invariants at every solve of random optimization runs',
'C21': 'trace monitor: update rules checked over recorded optimization steps',
'C22': 'trace monitor: recorded objective history against independent evaluations',
'C23': 'history monitor: random histories of evaluations against fresh objects',
'C24': 'trace monitor: index shift and source at every step of limited runs',
'C25': 'runtime reference-model monitor: scan points against independent simulations',
'C26': 'runtime reference-model monitor: scan points against independent simulations',
'C27': 'runtime differential monitor: residuals and results of both back ends',
'C28': 'runtime monitor: partial derivatives and dispatch of objectives',
'C29': 'runtime reference-model monitor of built geometries',
'C30': 'runtime reference-model monitor of initial densities',
'C31': 'runtime invariant monitor of penalties',
'C32': 'runtime monitor of figures: data, extents and state before and after plotting',
'C33': 'runtime monitor of file-system effects in a scratch folder',
'C34': 'runtime monitor: simulated fields against closed-form solutions at two resolutions',
'C35': 'runtime resource monitor: factorize/release events and memory over repeated solves',
'C36': 'history monitor: the same computation in a fresh process and after other work in the same process',
'C37': 'runtime reference-model monitor: recorded data against independent simulations; save/load round trip',
'C38': 'runtime differential monitor: results with and without options of presentation and storage',
'C39': 'fault-injection monitor: interrupts at random lines of an operation, then its repetition against an undisturbed one',
'C40': 'schedule monitor: computations interleaved line by line by a random scheduler, and preempted freely, against each alone',
}
NOTE = ('Held on the executions listed in the evidence file (random cases drawn from VERIF_SEED, counted monitor evaluations); says nothing about cases not drawn. '
        'Trusts numpy/scipy, the oracle in vt/ and the tolerances stated in the check.')
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -W ignore -c "import sys; sys.dont_write_bytecode=True; sys.path.insert(0, \'/repo\'); import numpy, scipy, autograd, vt.core, vt.run" && chmod +x check',
         hooks=dict(guard='none', enable='no hooks in /repo: monitors are attached from /verif at import time', source_commits=[]),
         checks=[dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='./check %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
                      technique=T[p], level='exploration', level_note=NOTE) for p in sorted(T)],
         not_applicable=[],
         notes='Every check imports angler from the working tree of /repo. Replay a violation with: ./check <id> --replay <file>.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

FIX = [
('C01', 'b86494e', 'a derivative along a dimension of one cell acted as the identity: fields of one-dimensional simulations did not satisfy Maxwell\'s equations'),
('C27', 'a8b0d1c', 'the scipy back end of solver_complex2real raised NameError'),
('C08', '5e6fc94', 'nonlinear solvers raised NameError instead of the error for an unsupported polarization'),
('C13', 'fdc81e5', 'the hybrid solver ignored conv_threshold when deciding to continue'),
('C06', 'c358e5e', 'assigning a permittivity of another shape left the domain size stale, and 1D arrays failed'),
('C07', 'a5ed401', "init_design_region('halfway') wrote into the permittivity array of the caller"),
('C01', 'f9b7198', 'Ex and Ey of Hz polarization used the permittivity at the wrong place'),
('C09', '28ada54', 'flux_probe averaged the wrong way: flux was not conserved'),
('C17', '5fe41ac', 'nonlinear Hx and Hy gradients raised NameError'),
('C19', '5ea621f', 'drho_bar_drho raised NameError'),
('C10', 'c52ffd1', 'Hz modes of guides along x were not averaged along the cross section'),
('C10', '38161b1', 'the sign of a modal source was random'),
('C11', '4c92657', 'the normalization of a modal source used the wrong waveguide and the other sources'),
('C18', '858ac16', 'the density filter wrapped around in x'),
('C18', '9b78d53', 'the density filter was not normalized'),
('C15', '60cf648', 'gradients were propagated through the filter instead of its transpose'),
('C33', '9822c04', 'wrap() returned indices outside of the grid'),
('C22', 'd2623ec', 'L-BFGS failed with current scipy'),
('C20', 'cd6184d', 'optimizations of a simulation without an initialized design region failed'),
('C20', 'b4277c3', 'optimizations changed the permittivity outside of the design region'),
('C20', '8e8fd17', 'optimizations started from a permittivity that was not the image of the density'),
('C24', '2144073', 'the source update could flip the sign of the source or divide by zero'),
('C26', 'ca0559f', 'probes of the linear fields saw the fields of the unscaled source'),
('C23', 'fdce2de', 'compute_J and compute_dJ returned stale values'),
('C32', '9cf7413', 'logscale plots failed'),
('C32', '91e1d7a', 'plt_objs without an axis failed'),
('C33', '3e202be', 'temporary plots failed with a single panel, the default panels or current numpy'),
('C16', 'd9a1b27', 'gradients of Hz, Ex and Ey in Hz polarization were wrong'),
('C23', '0d35a5c', 'stored fields were reused for an objective with other arguments'),
('C10', '89db8e2', 'modes were not ordered by closeness to the guess'),
('C33', 'b7dcf2f', 'temporary plots were written beside their folder'),
('C33', 'bed1e6f', 'temporary plots without a modal source, in Hz polarization or with weak fields failed'),
('C27', 'c624ee6', 'badly conditioned systems were solved wrongly by the MKL back end'),
('C29', '79ca58f', 'regions returning 0 or 1 overwrote the first rows of the permittivity'),
('C30', 'ac85ead', 'init_design_region dropped the imaginary part outside of the region, and truncated integers'),
('C32', 'c8b0d4c', 'plots of one-dimensional simulations with an outline failed'),
('C32', 'fc3ccee', 'animations had exchanged extents'),
('C10', '97aee65', 'modes of degenerate cross sections differed from call to call'),
('C18', '04c2e6b', 'filters for boolean design regions (as the manual has them) raised an error'),
('C09', 'f26774e', 'probes at the last line, given as -1, measured nothing (and modes there failed)'),
    ('C32', 'c4b708a', 'animations failed unless another module had imported matplotlib.animation'),
    ('C38', '4d2e280', 'axis and direction names were compared by identity: computed names raised an error or dropped the absorbing layers'),
    ('C29', 'f65613e', 'the input waveguide of N_port was displaced by a fixed length, whatever the unit'),
('C23', 'd73a51f', 'gradients mixed the fields stored for the objective with those solved for another source in between (source changed, solved, put back)'),
('C23', '29de006', 'gradients of nonlinear objectives used the nonlinear terms computed last, for whatever field'),
]
out = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h'], capture_output=True, text=True).stdout.split()
if len(out) > 1:
    assert all(c in out for _, c, _ in FIX) and len(FIX)+1 == len(out), (len(FIX), len(out))
json.dump(dict(findings=[], fixed=['fixed: property=%s %s %s' % f for f in FIX]), open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
