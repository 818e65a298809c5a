import json
S='moving_mesh_transport/solver_classes/'; F='moving_mesh_transport/solver_functions/'; L='moving_mesh_transport/loading_and_saving/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))
T3='The three stable tests check one rectangle-rule error norm helper, the opening of one spline and one closed-form square solution; '
p('P01','The grid is ordered, complete and where the problem puts it',
 'For every supported problem and at every time of a run the grid has one edge more than cells, its edges increase strictly, a sphere starts at its centre, and each edge is where the problem places it: the layout at the start, displaced by its prescribed motion, never beyond the wall of a finite domain. An unbounded moving grid therefore always contains everything the particles emitted by the source region can have reached at the chosen edge speed.',
 ['configurations','schedules'],'every problem kind with a closed-form motion (plane, dipole, square and gaussian initial conditions and sources, manufactured solution, boundary driven), cell count, half width, edge speed, final and source time, finite or infinite domain, slab or sphere, moving or static, and every requested time',
 T3+'no test builds a grid.',[S+'mesh.py'],[('initial layouts','mesh.py initialize_mesh and the *_init_func methods'),('displacement','mesh.py mesh_class.move'),('wall','mesh.py time_to_wall')],
 [('edges','positions of the cell edges','mesh.py mesh_class.edges'),('Dedges','velocities of the cell edges','mesh.py mesh_class.Dedges')],['edges and velocities after every move'])
p('P02','The reported edge velocity is the derivative of the edge position',
 'Whenever the grid is asked for a time of the run at which no edge changes speed, the velocity it reports for every edge is the time derivative of the position it reports for that edge. After an edge has been stopped by a wall, and on a static grid, the reported velocity is zero.',
 ['configurations','schedules'],'every problem kind with a closed-form motion, in every phase of that motion (uniform, accelerated, stopped), and every time away from a change of phase',
 T3+'a wrong velocity violates the conservation law only on moving cells, which no test has.',[S+'mesh.py'],[('velocities','mesh.py move, Dedges_const, c1s'),('acceleration phase','mesh.py move_middle_edges')],
 [('Dedges','velocities of the cell edges','mesh.py mesh_class.Dedges')],['edges and velocities after every move'])
p('P03','The grid is a function of time, whatever was asked before',
 'The positions and velocities of the grid at a time depend only on the problem and that time: an adaptive integrator that rejects steps, goes back, repeats a time or overshoots gets exactly what a new grid asked only for that time would give. A static grid never changes.',
 ['histories','schedules'],'every history of requested times, including decreasing, repeated and end-of-run times, for every problem kind with a closed-form motion',
 T3+'history dependence needs a sequence of moves.',[S+'mesh.py'],[('motion from the initial layout','mesh.py move'),('static grids','mesh.py initialize_mesh')],
 [('edges0, edges0_2, c1s','remembered layouts and accelerations','mesh.py mesh_class')],['edges and velocities after every move'])
p('P04','Radiation crosses cell faces upwind, and enters the domain only as prescribed',
 'For every direction, state and face velocity, the radiation exchanged across a cell face is the trace of the upwind cell times the speed relative to the face, so that what leaves one cell enters its neighbour exactly. At the ends of the domain nothing enters, except the prescribed incoming radiation while a boundary source is on, the exact manufactured solution, or, at the centre of a sphere, the radiation travelling in the mirrored direction.',
 ['inputs','configurations'],'all coefficient vectors, directions, face positions and velocities, cell indices, polynomial orders, boundary source settings and times, slab and sphere',
 T3+'no test evaluates a flux.',[S+'numerical_flux.py'],[('upwind choice','numerical_flux.py LU_surf.make_LU, is_surf_moving'),('ghost values','numerical_flux.py integrate_quad / extrapolation helpers')])
p('P05','The slab evolution is the exact Galerkin projection of transport on moving cells',
 'For every state, grid and grid velocity, the time derivative the slab solver hands to the integrator is the discontinuous Galerkin projection, on the moving cells, of streaming, total absorption, isotropic scattering of the angular mean and the source. Consequently the total number of particles changes exactly by emission minus net absorption minus outflow, and coefficients of different directions couple only through scattering.',
 ['inputs','configurations'],'all coefficient vectors, grids and grid velocities, polynomial orders, numbers of angles and cells, cross sections, opacity models and source kinds in a slab',
 T3+'no test evaluates the right-hand side.',[S+'rhs_class_1.py',S+'matrices.py',S+'phi_class.py'],[('cell loop','rhs_class_1.py rhs_class.call'),('volume terms','matrices.py G_L'),('scattering and source','phi_class.py scalar_flux, sources.py')],None,['the derivative vector returned for a state'])
p('P06','The spherical evolution balances streaming, redistribution and collisions',
 'For every state, grid and grid velocity, the derivative the spherical solver hands to the integrator is the projection, with the r-squared volume weight of a sphere, of radial streaming, angular redistribution, absorption, scattering and source. The angular redistribution neither creates nor destroys particles and vanishes at the two ends of the angular range.',
 ['inputs','configurations'],'all coefficient vectors, radii and velocities, polynomial orders, numbers of angles and cells and constant cross sections in a sphere',
 T3+'no test evaluates the right-hand side.',[S+'rhs_class_1.py',S+'matrices.py',S+'mesh_functions.py'],[('cell loop','rhs_class_1.py rhs_class.call'),('angular derivative','functions finite_diff_uneven_diamond / rhs_class_1.py'),('coefficient matrices','matrices.py G_L')])
p('P07','The evolution is a pure, affine function of time and state',
 'The derivative handed to the integrator depends only on the requested time and state: repeating a request, going back in time or evaluating other states in between changes nothing, and the state passed in is left as it was. Without nonlinear physics it is affine in the state, and zero state without sources has zero derivative.',
 ['histories','inputs'],'every interleaving of evaluations at arbitrary times and states, for slab and sphere, moving and static grids, and all opacity models',
 T3+'purity needs histories of evaluations.',[S+'rhs_class_1.py',S+'mesh.py',S+'opacity.py',S+'matrices.py'],[('shared mutable helpers','rhs_class_1.py rhs_class.call, opacity.py sigma_integrator, sources.py source_class, matrices.py G_L')])
p('P08','Element matrices are the exact integrals of the basis functions',
 'For every cell (position, width and edge velocities), the mass, streaming, grid-motion and curvature matrices used by the solver equal the exact integrals of products of its basis functions and their derivatives over that cell, with the slab or spherical volume weight. Matrix coefficients read back from coefficient files are those that were stored.',
 ['inputs','configurations'],'all cell edges, edge velocities and polynomial orders up to the order shipped with the code, slab and sphere',
 T3+'the matrix test needs files that are not in the repository.',[S+'matrices.py',S+'GMAT_sphere.py',F+'Chebyshev_matrix_reader.py'],[('slab matrices','matrices.py G_L.make_L, make_G'),('sphere matrices','matrices.py make_all_matrices, GMAT_sphere.py'),('files','Chebyshev_matrix_reader.py file_reader')])
p('P09','Collision terms use the cross section that is there, cell by cell and now',
 'For every opacity model the absorption term of each cell and direction is the projection of the local total cross section times the intensity at the requested time, and scattering uses the scattering cross section in the same way. For a constant cross section this is that constant times the coefficients, whatever the state, and cells never see the opacity or intensity of other cells.',
 ['inputs','configurations','histories'],'all coefficient vectors, grids, times, opacity models (constant, gaussian, two exponential, moving density jump), orders and evaluation histories in a slab',
 T3+'no test evaluates an opacity.',[S+'opacity.py',S+'phi_class.py'],[('opacity moments','opacity.py sigma_integrator.sigma_moments'),('absorption vector','opacity.py make_vectors')],[('cs, VV, AAA','opacity expansion and absorption vector','opacity.py')])
p('P10','Sources emit exactly what the problem prescribes',
 'The source vector of every cell holds the projections onto the cell basis of the prescribed emission: the uncollided flux times the scattering cross section when the uncollided solution is treated analytically, and otherwise the square or gaussian source of the stated width and strength while it is on, the manufactured source, or nothing. The sum over cells of the emission equals the integral of the prescribed source over the grid.',
 ['inputs','configurations'],'all source kinds, cells, times before and after switch-off, strengths, widths, orders, slab and sphere',
 T3+'no test evaluates a source.',[S+'sources.py'],[('source moments','sources.py source_class.make_source, integrate_quad'),('switch-off','sources.py time and region conditions')])
p('P11','Uncollided solutions are the exact attenuated streaming of each source',
 'For every source kind, position and time, the uncollided scalar flux used by the solver equals the exponentially attenuated, unscattered radiation of that source, is never negative, is symmetric where the source is, and is zero beyond the distance particles can have travelled. Its parts reproduce the total number of uncollided particles while nothing has left the grid.',
 ['inputs','configurations'],'all source kinds, positions, times before and after switch-off, widths and strengths in a slab and a sphere',
 T3+'the closed form of one square problem at one point set is compared.',[S+'uncollided_solutions.py'],[('closed forms and quadratures','uncollided_solutions.py uncollided_solution')])
p('P12','Outputs are the expansion of the coefficients, at the points asked for',
 'The angular flux, scalar flux, energy and exit distribution returned for a point are the basis expansion of the final coefficients in the cell containing that point, the scalar flux is the angular mean with the quadrature weights, plus the uncollided part exactly when it is treated analytically. Every point of the domain belongs to a cell, points outside carry nothing, and a repeated or unsorted list of points gives each point its own value.',
 ['inputs','configurations'],'all coefficient arrays, grids, point lists, orders, angle counts, slab and sphere',
 T3+'no test reconstructs a solution.',[S+'make_phi.py',F+'main_functions.py'],[('expansion','make_phi.py make_output.make_phi, make_e'),('exit distribution','make_phi.py get_exit_dist, get_exit_phi')])
p('P13','Initial coefficients are the projection of the stated initial condition',
 'The coefficients the run starts from are, for every direction and cell, the projection onto the cell basis of the initial condition of the problem, and are zero when the initial radiation is carried by the uncollided solution. The initial number of particles on the grid is that of the stated condition.',
 ['inputs','configurations'],'all problem kinds with and without analytic uncollided treatment, grids, orders, angle counts, slab and sphere',
 T3+'no test builds initial coefficients.',[S+'build_problem.py'],[('projection','build_problem.py build.make_IC, integrate_quad')])
p('P14','A saved solution is returned unchanged, and only for its own parameters',
 'A solution or temperature-wave record that was saved is returned by the loader with the same values for the parameters it was saved under, after any sequence of other saves. Saving again under the same parameters replaces that record and no other, and records of other problems, times, layouts or treatments are never altered or returned instead.',
 ['histories','configurations'],'all sequences of saves and loads, the record key being: problem name, source, time, scattering ratio, width or standard deviation, epsilon, heat capacity, cell count, moving or static grid, with or without uncollided treatment',
 T3+'no test writes a file.',[L+'save_output.py',L+'load_solution.py'],[('record names','save_output.py save_solution, save_wave_loc'),('lookup','load_solution.py load_sol')],[('run data file','HDF5 store','save_output.py')])
p('P15','A run uses exactly the parameters of its configuration',
 'Every quantity a run uses is the value the configuration states for the chosen source (scaled only as documented: named speeds become their numbers, opacity thickness and unit choices scale as stated), and every run of a parameter study takes the entry of its own position in the lists. Unknown names are rejected rather than replaced. A study run by its bare name is the one with a moving mesh and, where the problem has one, the analytic uncollided treatment.',
 ['configurations','inputs'],'all configurations: source names, lists of any length, option values and their combinations',
 T3+'no test loads a configuration.',[L+'load_parameters.py','moving_mesh_transport/solver.py',F+'main_functions.py'],[('loading','load_parameters.py parameter_load_class'),('selection per run','main_functions.py parameter_function, x0_function')])
p('P17','A run answers the problem it was given',
 'For every supported problem and setting, a complete run returns, at the final time and at each requested evaluation time, the solution of its own evolution equation from its own initial condition to the requested tolerance: particle balance holds, symmetric problems stay symmetric, moving and static grids and analytic and numerical uncollided treatment converge to the same answer, and runs do not influence each other.',
 ['configurations','histories'],'all problem kinds and settings, integrators, evaluation times and sequences of runs in one process',
 T3+'no test runs the solver.',[F+'main_functions.py',F+'run_functions.py','moving_mesh_transport/solver.py'],[('set-up and integration','main_functions.py solve'),('dispatch','run_functions.py')])
p('P18','Quadrature rules and evaluation points are exact and complete',
 'Every angular or spatial quadrature rule of n points integrates all polynomials up to its degree (2n-1 Gauss-Legendre, 2n-3 Gauss-Lobatto, 2n-1 Gauss-Chebyshev with the weight 1/sqrt(1-x^2)) exactly, its nodes are ordered, symmetric and inside the interval and its weights positive with sum 2 (pi for Chebyshev). The evaluation points chosen on a grid are sorted and cover every cell of it, from its first to its last edge.',
 ['inputs','configurations'],'all rule names and sizes, all grids and point-selection options',
 T3+'rule properties for every n are not tested.',[S+'functions.py'],[('rules','functions.py quadrature'),('points','functions.py find_nodes')])
p('P19','Interpolation passes through its data and is smooth',
 'A cubic spline through any increasing abscissae returns the data at the knots, joins them with continuous first and second derivatives, has zero second derivative at both ends and reproduces straight lines. The linear solver behind it solves every well-conditioned system and leaves the system as it was. A table read between its entries gives the straight line through the neighbouring entries, its own entries at its abscissae, the line from the origin before the first and the continuation of the last line behind the last.',
 ['inputs'],'all increasing abscissae, all data and all evaluation points inside the data',
 T3+'a single spline is sampled.',[S+'cubic_spline.py',S+'mesh_functions.py'],[('spline','cubic_spline.py cubic_spline_ob'),('elimination','cubic_spline.py GaussElimPivSolve')])
p('P20','Basis functions are the orthonormal polynomials of their cell',
 'On every cell the slab basis functions are orthonormal polynomials of increasing degree, the spherical ones are orthonormal with the Chebyshev weight, their reported derivatives are the derivatives of the reported functions, and evaluation at many points agrees with evaluation at each point.',
 ['inputs'],'all cells, polynomial orders and points in or outside the cell',
 T3+'orthonormality is checked nowhere that runs.',[S+'functions.py'],[('slab basis','functions.py normPn, dx_normPn'),('sphere basis','functions.py normTn')])
p('P21','Material emission is the projection of the chosen temperature law',
 'The emission vector of a cell is the projection onto the cell basis of the chosen law applied to the local energy density (the energy density itself for the linear law; for a constant heat capacity the fourth power of the temperature, which is the energy density divided by the heat capacity). It is zero for no energy or without thermal coupling, never uses another cell or an earlier call, and does not change the energy passed in.',
 ['inputs','configurations'],'all energy coefficient vectors, cells, laws, heat capacities and opacity factors',
 T3+'no test evaluates the closure.',[S+'radiative_transfer.py'],[('closure','radiative_transfer.py T_function.make_H, T_func')])
p('P22','Reference solutions are those of the run they are drawn for',
 'The reference solutions the commands offer for boundary driven runs give, for every direction into the domain, position and time, the unit incoming radiation attenuated by the optical depth of the opacity of that run along the path it travelled (constant medium entered at the left wall, steady standing bell, travelling bell, travelling density jump met on the way). Nothing travels against its direction, nothing is there before the first radiation arrives or, for the travelling jump, after the last that was emitted has passed, and the scalar flux drawn is the sum over the directions with the weights of the run. The exit distributions tabulated for Siewert\'s problem (slab of five mean free paths whose scattering falls exponentially) are those of its transport equation to the five digits given, and the exit distributions and histories drawn are those the run returned.',
 ['inputs','configurations'],'all directions into the domain, positions between the walls, times, switch-off times, jump speeds small against the directions, quadrature rules, and the configurations that choose the reference',
 T3+'the reference solutions are only ever plotted.',[F+'run_functions.py',S+'opacity.py'],[('references','run_functions.py run.boundary_source, fake_sedov, moving_gaussian_shock, steady_state_gaussian_benchmark, fake_sedov_benchmark, siewert_bench')])
p('P23','Errors are those between the run and the benchmark of its problem',
 'A study with the comparison switched on records, for each entry of its lists, the root mean square difference between what that run returned and the benchmark of its own source, time and scattering ratio (taken as zero beyond the table, and for scaled problems as the exact scaling of the solution for complete scattering), for the radiation and, with material, for the material energy; the orders printed are those at which the errors of neighbouring entries fall with the number of cells. A benchmark returns its own entries at its positions, values between them by interpolation, and zero outside, whatever positions are asked in whatever order. The times spent are averages over the repetitions of an entry, and the table of a study (what was varied, errors, directions, times) filed with save_RMS comes back as it was, replacing only an earlier table of the same problem, time, treatment and order.',
 ['inputs','configurations'],'all sources, times, ratios, lists of cells or orders, repeats, positions (sorted or not, inside or beyond the table) and results',
 T3+'no test compares with a benchmark.',['moving_mesh_transport/solver.py',L+'load_bench.py',F+'main_functions.py'],[('tables','save_output.py save_RMS, save_RMS_P1_su_olson'),('comparison','solver.py main_class.main'),('benchmark','load_bench.py load_bench'),('choice of the benchmark','main_functions.py s2_source_type_selector')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
json.dump([(x['id'],x['title']) for x in P],open('/tmp/ids.json','w'))
