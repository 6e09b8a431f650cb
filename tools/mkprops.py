"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=None)))
SIM='angler/simulation.py'; LIN='angler/linalg.py'; OPT='angler/optimization.py'; GR='angler/gradients.py'
ADJ='angler/adjoint.py'; FIL='angler/filter.py'; PML='angler/pml.py'; DER='angler/derivatives.py'
NLS='angler/nonlinear_solvers.py'; NL='angler/nonlinearity.py'; MODE='angler/source/mode.py'; OBJ='angler/objective.py'
PLT='angler/plot.py'; STR='angler/structures.py'; UT='angler/utils.py'

p('C01','Linear fields satisfy the discrete Maxwell equations outside the PML',
 'For any valid simulation, the three field components returned by a linear solve satisfy, at every cell outside the absorbing layers, the centered finite-difference curl equations with the exp(+i*omega*t) sign convention, the given permittivity (at the cell for Ez; averaged over the two adjacent cells for Ex and Ey in Hz polarization), the given source and the given length unit. Along an axis without absorbing layers the grid wraps around periodically. The stored fields of the simulation are exactly the returned ones.',
 ['inputs','configurations'],'every polarization, permittivity (real or complex, any dtype and memory layout), grid shape including 1D, grid spacing, frequency, length unit, PML thickness per axis (including 0) and source array',
 'The tests solve one 1D problem and never look at the field values.',
 [SIM,LIN,DER,PML],[('construct_A',LIN),('solve_fields',SIM),('createDws',DER),('S_create',PML)],['Simulation.solve_fields','Simulation.fields'])
p('C02','Absorbing layers let waves leave as if the domain were unbounded',
 'With an absorbing layer of ten or more cells on an axis, the fields in the interior are, up to the small residual reflection of the layer, those of the same sources and structure in a larger domain, and do not depend on how far away the layer is. Layers of any thickness, on either axis alone, absorb energy, which is never returned or amplified by them.',
 ['inputs','configurations'],'every polarization, source position, structure, PML thickness >= 10 per axis, domain size, spacing, frequency and length unit at which the wave is resolved',
 'No test compares fields of two domains or examines the absorbing layers.',
 [PML,LIN,SIM],[('create_sfactor, S, sig_w',PML),('S_create',PML)],['Simulation.solve_fields'])
p('C03','Linear response is reciprocal',
 'In any structure the z field produced at cell b by a unit source at cell a outside the absorbing layers equals the z field produced at a by the same source at b, for both polarizations, including lossy structures and mixed periodic/absorbing boundaries. The same holds for extended sources: the overlap of one source with the field of the other is symmetric.',
 ['inputs','configurations'],'every structure, source pair, polarization, boundary configuration',
 'A relation between two executions on arbitrary structures; no test runs it.',
 [LIN,PML,SIM],[('construct_A',LIN)],['Simulation.solve_fields'])
p('C04','Fields are covariant under translation, mirror and axis exchange',
 'Shifting structure and source along a periodic axis shifts the fields; mirroring them along a periodic axis or exchanging the x and y axes (with spacing, PML counts and structure) mirrors or exchanges the fields, with the vector components permuted and signed accordingly. A structure that is uniform along an axis and a one-dimensional simulation (an axis of a single cell) give the same fields.',
 ['inputs','configurations'],'every structure, source, polarization and boundary configuration having the periodic axis that the transformation needs',
 'A relation between executions; tests never compare two orientations, and the 1D test ignores the values.',
 [LIN,DER,PML,SIM],[('createDws',DER),('S_create',PML),('grid_average',LIN)],['Simulation.solve_fields'])
p('C05','Fields are linear in the source and independent of the unit of length',
 'Linear fields of a weighted sum of sources (complex weights) are the same weighted sum of the fields, and a zero source gives zero fields. Describing the same physical system in another length unit (spacing and unit rescaled, same frequency) only rescales the field values by the unit, and rescaling frequency and spacing inversely leaves the field pattern unchanged.',
 ['inputs','configurations'],'every structure, set of sources and weights, length unit and rescaling factor, both polarizations',
 'A relation between executions over arbitrary factors; tests use one unit and never rescale.',
 [LIN,SIM,PML],[('construct_A',LIN),('solve_fields',SIM),('S',PML)],['Simulation.solve_fields'])
p('C06','A simulation behaves as if freshly built from its current settings',
 'After any sequence of permittivity and source assignments, changes of other parameters (frequency, spacing, length unit, layers, polarization) followed by a permittivity assignment, added modes and nonlinearities, linear and nonlinear solves, index-shift computations, flux probes, plots and deep copies, a linear solve returns the same fields as a newly constructed simulation with the current permittivity, source and parameters. Assigning a permittivity discards the stored fields, so that none of them can be mistaken for the fields of the new structure.',
 ['histories','inputs'],'every sequence of public operations on a simulation, both polarizations',
 'Tests build one object and use it once or twice in a fixed order.',
 [SIM,NLS,MODE],[('eps_r setter',SIM),('solve_fields',SIM),('solve_fields_nl',SIM)],['Simulation.eps_r','Simulation.fields','Simulation.solve_fields'],
 [('A, derivs','system matrix of the current permittivity',SIM),('fields, fields_nl','last solved fields',SIM)])
p('C07','Operations do not modify the caller\'s arrays or other simulations',
 'Constructing, initializing, solving, probing, plotting and optimizing a simulation never changes the numpy arrays that the caller passed in (permittivity, design and nonlinear regions, densities, PML list, returned field arrays of earlier solves), nor any other simulation built from the same arrays or obtained by deep copy. Only the simulation that is operated on changes.',
 ['histories','inputs'],'every sequence of public operations on several simulations that share input arrays',
 'Aliasing shows only in multi-object histories, which no test has.',
 [SIM,OPT,MODE,NL,FIL],[('init_design_region',SIM),('setup_src, compute_normalization',MODE),('scan_frequency, scan_power, check_deriv',OPT)],['all public entry points'])
p('C08','Invalid requests are rejected, valid ones accepted',
 'Non-positive frequency or length unit, a PML specification that is not a list of two non-negative numbers, an unknown polarization, probe or mode direction, field component, optimization method, nonlinear solver or nonlinearity type, a density-scaled nonlinearity without its maximum permittivity, an objective whose number of arguments differs from its argument list, an argument whose field does not exist in the polarization, and plotting before solving all raise an error instead of producing a result. The neighbouring valid requests are accepted.',
 ['inputs','configurations'],'every invalid value of each parameter, alone or with otherwise arbitrary valid parameters',
 'Tests try four constructor arguments with one value each.',
 [SIM,OBJ,OPT,NL,MODE,LIN],[('_check_inputs',SIM),('flux_probe',SIM),('Objective.__init__, obj_arg.__init__',OBJ),('run',OPT)],['constructors and methods'])
p('C09','Flux probes conserve power',
 'A flux probe returns the time-averaged Poynting power through its line, positive along the positive axis, for linear and nonlinear fields alike. The net power leaving any closed box of four probes equals the power delivered by the sources inside minus the power absorbed by lossy material inside, so it is zero for an empty lossless box, and probes of adjacent segments add up to the probe of the whole line.',
 ['inputs','configurations'],'every structure, source, polarization, probe box and orientation away from the absorbing layers',
 'flux_probe is not called by any test.',
 [SIM],[('flux_probe',SIM),('grid_average',LIN)],['Simulation.flux_probe'])
p('C10','Modal sources carry the guided mode of the waveguide cross section',
 'Setting up a mode writes to the source, on exactly the requested line of cells, the guided-mode profile of the permittivity along that line: a real eigenmode of the cross-section wave equation of the polarization, the order-th one by closeness to the effective index guess (the fundamental having no sign change), with unit norm times the requested scale. It leaves the rest of the source untouched, is the same every time it is set up, and behaves identically for waveguides along x and along y and for positions counted from the far end.',
 ['inputs','configurations','histories'],'every waveguide cross section, polarization, direction, centre (including negative), width, order, scale and repetition',
 'Tests set up modes but never examine the source written.',
 [MODE,LIN],[('insert_mode',MODE),('solver_eigs',LIN),('setup_modes, add_mode',SIM)],['Simulation.src'])
p('C11','Recorded input power is the power the mode launches in its own waveguide',
 'After a mode is set up, the recorded input power is positive and equals the power that this mode source alone launches to one side in the straight waveguide obtained by extending the cross section at the source, whatever the rest of the structure, the other sources and the position of the mode. It scales as the square of the mode scale.',
 ['inputs','configurations'],'every structure, mode definition (direction, centre, width, order, scale) and pre-existing source, both polarizations',
 'No test reads the recorded input power.',
 [MODE,SIM],[('compute_normalization',MODE),('flux_probe',SIM)],['Simulation.W_in'])
p('C12','Nonlinear fields satisfy the nonlinear Maxwell equations',
 'Whenever a nonlinear solver reports convergence for Ez polarization, the returned fields satisfy, outside the absorbing layers, the discrete Maxwell equations with the permittivity increased by the sum over nonlinearities of 3*chi3*|E|^2 in their regions (times the material density where density scaling is on), to the reported tolerance. They are the stored nonlinear fields, the stored linear fields remain those of the linear problem, and with zero susceptibility or no nonlinearity the nonlinear fields equal the linear ones.',
 ['inputs','configurations','histories'],'every structure, set of nonlinearities, source strength for which the solver converges, solver, starting field',
 'The one nonlinear test compares the stored linear fields of two solvers and never looks at the nonlinear ones.',
 [NLS,SIM,NL],[('born_solve, newton_solve, nl_eq_and_jac',NLS),('compute_nl',SIM)],['Simulation.solve_fields_nl','Simulation.fields_nl'])
p('C13','Nonlinear solvers agree and report convergence honestly',
 'Born, Newton and hybrid solvers started from the linear or a given field reach the same solution in the weakly nonlinear regime, and Newton converges quadratically there. The returned convergence history has one relative field change per iteration; its last entry exceeds the requested threshold only if the solver stopped at its iteration limit unconverged, and a solver stops at the first iteration below the threshold.',
 ['inputs','configurations'],'every structure, nonlinearity, threshold, iteration limit, starting field and source strength in the weakly nonlinear regime',
 'The test compares the linear fields by mistake and never inspects the convergence history.',
 [NLS,SIM,LIN],[('born_solve, newton_solve, nl_eq_and_jac',NLS),('solve_fields_nl',SIM),('solver_complex2real',LIN)],['Simulation.solve_fields_nl'])
p('C14','Kerr index shift follows the declared susceptibility, region and density',
 'The nonlinear permittivity is 3*chi3*|E|^2 (E in physical V/m, whatever the length unit) inside the nonlinear region and exactly zero outside, multiplied by (eps_r-1)/(eps_max-1) when density scaling is on, and contributions of several nonlinearities add. The reported index shift is |sqrt(eps_r + eps_nl) - sqrt(eps_r)| of the solved nonlinear state, zero outside the regions, and its derivatives with respect to field and permittivity match finite differences of the nonlinear permittivity.',
 ['inputs','configurations'],'every field, permittivity, set of regions, susceptibility, length unit and scaling choice',
 'No test evaluates the nonlinear permittivity or the index shift.',
 [NL,SIM],[('Nonlinearity',NL),('add_nl, compute_nl, compute_index_shift',SIM)],['Simulation.compute_nl','Simulation.compute_index_shift'])
p('C15','Adjoint gradients are exact for linear objectives in Ez polarization',
 'For any differentiable objective of any number of linear Ez, Hx and Hy arguments, the computed gradient equals, at every design pixel, the derivative of the objective with respect to that pixel\'s density through filter, projection and field solve, as measured by finite differences.',
 ['inputs','configurations'],'every structure, design region, density, objective (complex-valued partials included), argument list, boundary configuration, filter radius and projection strength',
 'The gradient tests fail to construct their objects on this tree and sample one structure.',
 [GR,ADJ,OPT,OBJ,FIL],[('grad_linear_Ez/Hx/Hy',GR),('adjoint_linear_Ez',ADJ),('compute_dJ',OPT)],['Optimization.compute_dJ'])
p('C16','Adjoint gradients are exact for linear objectives in Hz polarization',
 'For any differentiable objective of any number of linear Hz, Ex and Ey arguments, the computed gradient equals, at every design pixel, the derivative of the objective with respect to that pixel\'s density through filter, projection and field solve, as measured by finite differences.',
 ['inputs','configurations'],'every structure, design region, density, objective, argument list, boundary configuration, filter radius and projection strength',
 'No test uses Hz polarization gradients.',
 [GR,ADJ,OPT,OBJ,FIL],[('grad_linear_Hz/Ex/Ey',GR),('adjoint_linear_Hz',ADJ),('compute_dJ',OPT)],['Optimization.compute_dJ'])
p('C17','Adjoint gradients are exact for nonlinear and mixed objectives',
 'For objectives of nonlinear Ez, Hx or Hy fields, alone or mixed with linear ones, with any set of Kerr nonlinearities (with and without density scaling), the computed gradient equals the finite-difference derivative at every design pixel. A nonlinear argument for which no gradient exists (Hz, Ex, Ey) raises instead of returning a number.',
 ['inputs','configurations'],'every structure, nonlinearity set, source strength in the convergent regime, objective and argument mix',
 'The nonlinear gradient test fails to construct its objects on this tree.',
 [GR,ADJ,OPT,NL],[('grad_kerr_*',GR),('adjoint_kerr_Ez',ADJ),('compute_dJ',OPT)],['Optimization.compute_dJ'])
p('C18','The density filter is a normalized local average with the declared radius',
 'Filtering replaces each design pixel\'s density by the weighted mean of the densities around it, with weights proportional to radius minus distance, zero beyond the radius, wrapping around only along periodic axes. Pixels outside the design region or out of reach of the filter are unchanged; hence uniform densities are preserved, results stay between the minimum and maximum of the input, the filter is monotone and linear, and it commutes with translations along periodic axes.',
 ['inputs','configurations'],'every grid, design region, radius, PML configuration and density',
 'No test filters anything.',
 [FIL,OPT],[('get_W, dist, wrap, sub2ind',FIL),('rho2rhot',FIL)],['get_W','rho2rhot'])
p('C19','Density-to-permittivity mapping is monotone, bounded and invertible at its ends',
 'Projection maps 0 to 0 and 1 to 1, is monotone increasing, stays within [0,1], approaches the identity for vanishing strength and a step at the threshold eta for large strength, and its reported derivative matches finite differences; density 0 corresponds to permittivity 1 and density 1 to the maximum permittivity, and converting permittivity to density and back is the identity.',
 ['inputs','configurations'],'every density, projection strength, threshold and maximum permittivity',
 'No test evaluates the projection or the conversions.',
 [FIL,UT],[('rhot2rhob, drhob_drhot, rhob2eps, eps2rho, rho2eps',FIL),('rho_bar, drho_bar_drho, eps2rho_bar',UT)],['module functions'])
p('C20','Optimization changes nothing outside the design region and respects bounds',
 'During and after any optimization run, the permittivity and density outside the design region keep their initial values, densities inside stay within [0,1] and permittivities inside within [1, eps_m]. The simulation\'s permittivity is always the filtered and projected image of its density.',
 ['histories','inputs','configurations'],'every method, number of steps, step size, background permittivity, filter, projection and objective, observed at every permittivity assignment of the run',
 'No test runs an optimization.',
 [OPT,FIL],[('_update_rho, _set_design_region',OPT),('rho2eps',FIL)],['Simulation.eps_r assignments','Simulation.rho'])
p('C21','Gradient ascent and ADAM follow their update rules',
 'Each gradient-ascent step moves the design densities by step_size times the exact gradient and each ADAM step by step_size times the bias-corrected ratio of the first and second moments for the given decay rates, clipped to [0,1], in the direction that increases the objective. The recorded history has one entry per step, equal to the objective at the densities and source that the step started from.',
 ['histories','inputs','configurations'],'every number of steps, step size, decay rates, objective, filter and projection, including repeated runs',
 'No test runs an optimization.',
 [OPT],[('_run_GD, _run_ADAM, _step_adam, _update_rho',OPT)],['Optimization.run','Optimization.objfn_list','Simulation.rho'])
p('C22','L-BFGS runs improve the objective and record what they did',
 'A run with the default method performs at most the requested number of iterations, ends at an objective no worse than it started from, records for every iteration the objective of the structure accepted in that iteration (a non-decreasing sequence), and leaves the simulation holding the final structure, whose objective is the last recorded one.',
 ['histories','inputs','configurations'],'every start density, objective, filter, projection and number of steps',
 'No test runs an optimization; the default method raised on the installed scipy.',
 [OPT],[('_run_LBFGS',OPT)],['Optimization.run','Optimization.objfn_list'])
p('C23','Objective and gradient evaluations are never stale',
 'Whatever was evaluated before, evaluating the objective of a simulation returns the objective function applied to the fields of that simulation\'s current permittivity, source and nonlinearities, and evaluating the gradient returns the gradient for the current state. The derivative check returns, for each sampled design pixel, this gradient together with the true finite-difference quotient of the objective.',
 ['histories','inputs'],'every sequence of evaluations, derivative checks, scans, permittivity, source, nonlinearity and objective changes, over several simulations',
 'Requires multi-step histories over a cache; no test evaluates an objective through an optimization successfully.',
 [OPT],[('_solve_objfn_arg_fields, compute_J, compute_dJ, check_deriv',OPT)],['Optimization.compute_J','Optimization.compute_dJ','Optimization.check_deriv'],
 [('fields_current, field_arg_list','cache of solved fields',OPT)])
p('C24','The index-shift limit is enforced by scaling the source only',
 'When a maximum index shift is set, the optimization rescales the source by a positive real factor, preserving its profile, so that after the adjustments the largest nonlinear index shift is close to and does not exceed the limit; without a limit the source never changes, and without any index shift it is left alone. One source amplitude is recorded per step: the peak magnitude in use at that step.',
 ['histories','inputs','configurations'],'every structure, nonlinearity, initial source amplitude in the weakly nonlinear regime (the source is scaled to first order), limit, method and number of steps',
 'No test sets an index-shift limit.',
 [OPT,SIM],[('_set_source_amplitude',OPT),('compute_index_shift',SIM)],['Simulation.src','Optimization.src_amplitudes'])
p('C25','Frequency scans report the objective of each frequency and its linewidth',
 'A frequency scan returns Nf equally spaced frequencies in Hz, centred on the operating frequency with total relative width df, and for each the objective of an independent simulation at that frequency; the reported width is the frequency step times the number of consecutive scanned points around the centre whose objective exceeds half of the scan maximum. The scanned simulation is left unchanged.',
 ['inputs','configurations'],'every simulation, objective, Nf and df',
 'No test scans.',
 [OPT],[('scan_frequency',OPT)],['Optimization.scan_frequency'])
p('C26','Power scans report transmission of each source power',
 'A power scan evaluates logarithmically spaced mode scales from s_min to s_max and returns for each the input power of the rescaled mode and, per probe, the probe value on the linear and nonlinear fields of an independent simulation with that source divided by that input power. In the linear limit transmissions do not depend on power, and the scanned simulation is left unchanged.',
 ['inputs','configurations'],'every simulation with a modal source, probe list (linear or nonlinear fields), scale range, number of points and solver',
 'No test scans.',
 [OPT,MODE],[('scan_power',OPT)],['Optimization.scan_power'])
p('C27','All linear-solver back ends give the same solution',
 'The direct solvers return the solution of the given linear system for real and complex right-hand sides of any shape, with either back end, in complex and in split real/conjugate form, without modifying matrix or right-hand side. A simulation gives the same linear, nonlinear and adjoint results with the scipy back end as with the MKL one, and unknown back ends are rejected.',
 ['inputs','configurations'],'every non-singular sparse matrix and right-hand side, both back ends',
 'Tests run whichever back end is installed and do not check residuals.',
 [LIN],[('solver_direct, solver_complex2real',LIN)],['solver_direct','solver_complex2real'])
p('C28','Objectives keep function, arguments and derivatives consistent',
 'An objective evaluates the user\'s function on the fields of its arguments in the declared order, holds for each argument the derivative with respect to that argument and the gradient routine matching its component and linearity, is called linear exactly when no argument is nonlinear, and stays consistent when its function is replaced. Optimizations feed each argument the field of its own component and linearity.',
 ['inputs','configurations','histories'],'every function, argument list (any length, order, repetition of components) and replacement',
 'Tests check that entries exist, with one argument list; whether they are the right ones is sampled once.',
 [OBJ,OPT],[('Objective, obj_arg, GRADIENT_MAP',OBJ),('_solve_objfn_arg_fields, compute_dJ',OPT)],['Objective','obj_arg','Optimization.compute_J'])
p('C29','Structure generators build the documented geometry',
 'Each device generator returns a permittivity and a design region of the same documented grid shape, where the permittivity is the background except for the material value inside the specified boxes and waveguides (sizes, spacings and positions as given, to one pixel), the design region is 1 exactly in the specified box and 0 elsewhere, and input and output waveguides reach the domain edges. Regions are applied in order over the background without overwriting anything else.',
 ['inputs','configurations'],'every admissible geometry (lengths, widths, distances, spacing, PML), number of ports, material and background permittivity',
 'Tests use two generators as set-up and never examine the arrays.',
 [STR],[('get_grid, apply_regions, three_port, two_port, N_port, ortho_port, accelerator, accelerator_multi',STR)],['generator functions'])
p('C30','Design-region initialization fills only the region, as its style says',
 'Initializing the design region sets the pixels of the region to the maximum permittivity, to 1, to their mean, to random values between them, or to random values symmetric about the mid-line, according to the style (no style: leaves them), keeps every other pixel, rebuilds the simulation for the new permittivity and stores the density that corresponds to it.',
 ['inputs','configurations','histories'],'every region, base permittivity, maximum permittivity, style and sequence of initializations',
 'Tests call some styles as set-up for a failing test.',
 [SIM],[('init_design_region',SIM),('eps2rho',FIL)],['Simulation.eps_r','Simulation.rho'])
p('C31','Binarization penalties are 1 for binary, smaller for gray structures',
 'Each binarizer multiplies the objective by a factor that depends only on the permittivity in the design region, equals 1 when every design pixel is either 1 or the maximum permittivity, decreases as pixels become gray, equals the documented gray-level formula, and is differentiable by autograd; used as a function or a decorator it gives the same result.',
 ['inputs','configurations'],'every objective, design region, permittivity, maximum permittivity and strength',
 'The one test of the binarizers fails to construct its objects on this tree.',
 [UT],[('Binarizer.density, density_exp, smoothness',UT)],['Binarizer'])
p('C32','Plots show the simulation\'s data and leave it untouched',
 'Every plot shows the transposed array of the quantity it names (magnitude or real part of the polarization\'s field, linear or nonlinear; their normalized difference; permittivity; objective history, optionally normalized by amplitude or power) tiled as requested, with colour limits that contain the plotted values symmetrically where signed, on the axes given or new ones, linear or logarithmic, with an outline along the boundaries of the permittivity where one is asked for. Plotting changes neither the simulation nor its arrays.',
 ['inputs','configurations'],'every simulation state, plot kind, axis choice, tiling, scale and limit option',
 'No test plots.',
 [PLT,SIM,OPT],[('plt_base, plt_base_eps, plt_base_ani',PLT),('plt_abs, plt_re, plt_diff, plt_eps',SIM),('plt_objs',OPT)],['returned axes and images'])
p('C33','Temporary optimization plots stay within their folder',
 'A run with temporary plots creates its folder if missing, removes only plain files directly inside it before starting, writes one image for every it_plot-th iteration named after it, and neither removes nor writes anything outside that folder; runs without temporary plots touch no files.',
 ['histories','configurations','inputs'],'every folder content, interval, number of steps, method and panel list',
 'No test runs an optimization.',
 [OPT,PLT],[('_check_temp_plt, plot_it',OPT),('Temp_plt',PLT)],['file system'])
p('C34','Simulations converge to analytic solutions as the grid is refined',
 'For point and line sources in homogeneous media, dielectric slabs at normal incidence and guided modes of slab waveguides, the simulated fields, transmissions and propagation constants approach the analytic ones with an error that decreases quadratically in the grid spacing, for both polarizations, with the outgoing-wave phase convention of exp(+i*omega*t).',
 ['inputs','configurations'],'every frequency, index contrast, dimension and resolution above about ten cells per wavelength',
 'No test compares with physics.',
 [LIN,DER,PML,MODE,SIM],[('construct_A',LIN),('S_create',PML),('insert_mode',MODE)],['Simulation.solve_fields','Simulation.flux_probe'])
p('C35','Repeated solves release the factorization they allocated',
 'Every direct solve releases its matrix factorization before returning, also when it is repeated many times in a nonlinear iteration, optimization or scan, so memory use does not grow with the number of solves.',
 ['histories','inputs'],'every sequence of linear, nonlinear and adjoint solves',
 'Leaks show only over long histories; tests solve a handful of systems.',
 [LIN],[('solver_direct, solver_complex2real',LIN)],['factor/clear events of the back end','resident memory'])
p('C36','Results do not depend on what the process computed before',
 'Every computation (fields, modes, fluxes, nonlinear solutions, filters, gradients, optimization runs, scans, structures, penalties, linear solves) gives in a process that has already done other work the results that it gives in a fresh process, and gives them again when repeated. Other work includes the same computation with any single setting or array changed, also changed in place in the very same array, and requests that were rejected or failed half-way: nothing of it is kept and reused.',
 ['histories','inputs'],'every computation and every earlier work of the same process',
 'A cache with an incomplete key or a shared mutable default shows only when two similar computations meet in one process.',
 [SIM,LIN,PML,DER,MODE,OPT,FIL],[('Simulation.__init__',SIM),('construct_A',LIN),('create_sfactor',PML),('createDws',DER),('insert_mode',MODE),('compute_J, compute_dJ',OPT),('get_W',FIL)],['results of each computation in both processes'])
p('C37','Recorded devices hold the data of their simulation and load back unchanged',
 'A device recorded for analysis from a simulation and its optimization holds the linear and nonlinear transmissions into each of its ports (flux through the port divided by the input power), the index shift, the frequency scan with its quality factor (frequency over linewidth) and the power scan of that simulation, computed on copies: the originals stay unchanged. Saving warns of each missing part, writes one file, and loading it returns every attribute with the value it had.',
 ['inputs','configurations'],'every two-, three- and four-armed device of the structure generators, source, weak nonlinearity, scan range and order of the recording steps',
 'No test imports the module.',
 ['data/device_saver.py',OPT,SIM],[('Device','data/device_saver.py'),('load_device','data/device_saver.py'),('scan_frequency, scan_power',OPT),('flux_probe',SIM)],['attributes of Device','loaded device'])
p('C38','Options of presentation and storage leave results unchanged',
 'Fields, nonlinear fields and their convergence history, system matrices, derivative and layer operators, modal sources, adjoint fields, optimization runs and frequency scans are the same whichever timing output, sparse matrix format, progress bar, verbosity or linear-solver back end is asked for, and whether averaging is asked for where nothing is averaged (Ez polarization); axis and direction names may be any equal strings.',
 ['inputs','configurations'],'every computation, both polarizations, and every combination of these options',
 'The tests use the default options only.',
 [SIM,LIN,DER,PML,MODE,ADJ,NLS,OPT],[('solve_fields, solve_fields_nl, compute_nl',SIM),('construct_A',LIN),('createDws',DER),('S_create',PML),('insert_mode',MODE),('adjoint_linear_Ez, adjoint_linear_Hz, adjoint_kerr_Ez',ADJ),('run, scan_frequency',OPT)],['results of each computation with and without the options'])
p('C39','An interrupted operation can simply be repeated',
 'When an operation (assignment of a permittivity, linear or nonlinear solve, mode set-up, index shift, initialization, evaluation of an objective or gradient, derivative check, scan, optimization run, construction) is stopped by an exception such as a keyboard interrupt at any point and is then executed again on the same objects, it gives the results it gives without interruption. An interrupted run can be continued from the density it reached, as a run started there with new objects; nothing outside the design region has changed.',
 ['faults','histories'],'every operation, every line at which it is stopped and every number of interrupted attempts',
 'Tests execute operations that finish.',
 [SIM,NLS,OPT,MODE,ADJ,FIL],[('solve_fields, solve_fields_nl, setup_modes, compute_index_shift',SIM),('born_solve, newton_solve',NLS),('compute_J, compute_dJ, run, scan_frequency, scan_power',OPT),('insert_mode',MODE)],['fields, gradients, histories, densities, scan results after the repetition'])
p('C40','Independent computations in several threads give the results they give alone',
 'Simulations, modes, nonlinear solutions, gradients, optimization runs, scans and filters computed in different threads of one process, on different objects, give the same results as when each is computed alone, whichever way the threads are interleaved: nothing is exchanged between computations through the module.',
 ['schedules','inputs'],'every set of computations (also nearly equal ones and ones given the same arrays of permittivity, region or density) and every interleaving',
 'Tests run in one thread.',
 [SIM,LIN,PML,DER,MODE,NLS,OPT,FIL,ADJ],[('Simulation',SIM),('construct_A, solver_direct',LIN),('createDws',DER),('S_create',PML),('insert_mode',MODE),('compute_J, compute_dJ, run',OPT),('get_W, rho2eps',FIL)],['results of each computation'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
