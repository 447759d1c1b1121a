VN = 'static value-numbering (gated value graph of the clang AST, compared by random interpretation)'
T = 'bindings tests sample a handful of random states at one build configuration; '

prop('C01', 'Equation of state: inverses and derivatives',
     'For every equation of state, density, pressure, energy and parameter set, the pressure recovered from the internal energy of a state is '
     'the pressure it was built from, energy and temperature follow the closed form of that equation of state, and an unknown equation of '
     'state is rejected. Every supplied derivative of energy and temperature (including those of two-phase mixtures) is the exact derivative '
     'of the quantity it belongs to, and the two phases of a mixture share one pressure and one temperature at the mixture energy and volume.',
     ['inputs', 'configurations'], 'all densities, pressures, energies, parameters, equation-of-state codes and phase pairs',
     'no test compares an equation of state with its inverse or its derivatives; a wrong derivative shifts wave speeds and Jacobians without failing a run',
     ['system/energy/mg.cpp', 'system/energy/eos.cpp', 'system/energy/derivatives.cpp', 'system/energy/multi.cpp'],
     [('Mie-Gruneisen closure, one branch per material model', 'system/energy/mg.cpp'),
      ('mixture pressure/temperature equilibrium', 'system/energy/multi.cpp'),
      ('total derivatives of the energy', 'system/energy/derivatives.cpp')], VN,
     ['pressure', 'temperature', 'dEdρ', 'solve_multi', 'temperature_mg'])

prop('C02', 'Conserved and primitive variables are inverse of each other',
     'Converting any state from conserved to primitive variables and back, in either of the two component orderings, returns the state '
     'unchanged in every build configuration. The pressure is the equation-of-state pressure of what is left of the total energy after '
     'kinetic, elastic, thermal-inertia and (for reacting materials only) chemical energy are removed, and the conversion changes nothing else.',
     ['inputs', 'configurations'], 'all states, materials and the viscous, thermal-conducting and mixture build configurations',
     T + 'no test converts a state back and forth and only one build configuration is ever compiled',
     ['system/functions/vectors.cpp', 'system/energy/eos.cpp', 'system/variables/state.cpp'],
     [('conversion routines', 'system/functions/vectors.cpp'), ('energy split', 'system/energy/eos.cpp')], VN,
     ['pressure', 'temperature'])

prop('C03', 'Jacobians are the exact derivatives of the model',
     'For every state and direction the derivative of the flux in primitive variables, the transformation between primitive and conserved '
     'increments, and the system matrix of the equations equal, entry by entry, the derivatives of the implemented flux and conversions '
     '(plus the non-conservative block).',
     ['inputs', 'configurations'], 'all states, directions, equations of state and the viscous, thermal-conducting and mixture configurations',
     T + 'the reference Jacobian it compares with shares the same algebra, and most entries vanish or agree at the sampled states',
     ['system/jacobians.cpp', 'system/equations.cpp', 'system/variables/state.cpp', 'system/functions/vectors.cpp'],
     [('flux and state Jacobians', 'system/jacobians.cpp'), ('system matrix', 'system/equations.cpp')], VN,
     ['dFdP', 'dPdQ', 'system_matrix'])

prop('C04', 'Non-conservative product is the advective block times the gradient',
     'In every direction the non-conservative term applied to any gradient equals the block matrix of the distortion and level-set '
     'equations times that gradient: distortion rows are v_d dA - (dA_d contracted with v), level sets are advected with v_d, every other '
     'row is zero, and the result depends only on the velocity and the gradient, not on what the output held before.',
     ['inputs', 'configurations'], 'all states, gradients, directions and build configurations',
     T + 'they exercise the block and the product with one random state each and never outside the default build',
     ['system/equations.cpp'], [('block matrix and its product', 'system/equations.cpp')], VN, ['block', 'Bdot', 'system_matrix'])

prop('C05', 'Equations are frame indifferent',
     'Rotating a state and then evaluating flux (with any direction), sources or non-conservative product gives the rotated flux, sources '
     'and product, for every rotation. The frame built at a material interface is orthonormal with the interface normal as its first axis '
     'for every normal, and rotating a state into it and back restores the state.',
     ['inputs', 'configurations'], 'all states, rotations and interface normals (including those along a coordinate axis)',
     'no test rotates anything; an index slip in one component only shows up on oblique flows',
     ['system/equations.cpp', 'system/multi/rotations.cpp', 'system/variables/sources.cpp'],
     [('component formulas of flux and sources', 'system/equations.cpp'), ('interface frame', 'system/multi/rotations.cpp')], VN,
     ['flux', 'source', 'Bdot', 'left_star_state'])

prop('C06', 'Shear stress and heat flux derive from the energy',
     'For every state the stress is minus density times the distortion contracted with the derivative of the elastic energy by the '
     'distortion, is symmetric, and is identical through every routine that supplies it; heat flux is temperature times the thermal-impulse '
     'derivative of the energy. Every hand-written derivative of stress, shear speed and energy terms is the exact derivative.',
     ['inputs', 'configurations'], 'all states, materials and directions',
     T + 'stress and its derivatives are only reached through compound routines whose reference shares the formulas',
     ['system/variables/state.cpp', 'system/energy/derivatives.cpp', 'system/energy/eos.cpp', 'system/functions/matrices.cpp'],
     [('stress and heat flux', 'system/variables/state.cpp'), ('derivatives of the energy', 'system/energy/derivatives.cpp')], VN,
     ['flux', 'source', 'thermo_acoustic_tensor'])

prop('C07', 'Wave speeds bound the true characteristic speeds',
     'In every direction the thermo-acoustic tensor is the exact acoustic part of the coefficient matrix of the equations (its eigenvalues '
     'are the squares of the characteristic speeds relative to the flow) and the reported largest speed is the absolute flow speed plus '
     'the square root of its largest eigenvalue.',
     ['inputs', 'configurations'], 'all states, directions, equations of state and build configurations',
     T + 'the reference shares the assumption under test, and a speed that is too small only shows up as an unstable run',
     ['system/waves/speeds.cpp', 'system/waves/shear.cpp', 'system/eig.cpp'],
     [('thermo-acoustic tensor and largest eigenvalue', 'system/eig.cpp')], VN, ['thermo_acoustic_tensor', 'max_abs_eigs', 'timestep'])

prop('C08', 'Source terms follow the constitutive model of each material',
     'Sources never create mass or energy; momentum gains only the body force; the distortion relaxes at the rate of its material class '
     '(Newtonian, power-law, Bingham below and above yield, elastic or elasto-plastic solid); thermal impulse relaxes along its '
     'energy derivative; the mass fraction follows the reaction model selected; level sets have no source. Nothing depends on the previous '
     'contents of the output.',
     ['inputs', 'configurations'], 'all states, material classes, reaction models and build configurations',
     T + 'one fluid and one solid are sampled and the power-law, Bingham and reacting branches are never entered',
     ['system/equations.cpp', 'system/variables/sources.cpp'],
     [('relaxation rates by material class', 'system/variables/sources.cpp'), ('source assembly', 'system/equations.cpp')], VN,
     ['source', 'reaction_rate'])

prop('C09', 'Interface update is conservative, consistent and masked',
     'On any grid the update across each cell face uses the traces of exactly the two adjoining cells, enters the two cells with '
     'opposite sign so that what one loses the other gains, adds only half the non-conservative jump, and is '
     'weighted by the quadrature of time and of the transverse direction. Faces with a side outside the update mask contribute nothing, and '
     'no other value changes.',
     ['inputs', 'configurations'], 'all grid sizes, masks, reconstructions and numerical fluxes, in one and two dimensions',
     T + 'they compare one small fully-masked grid; a wrong neighbour for partly masked grids or non-square shapes is never seen',
     ['solvers/fv/fv.cpp', 'solvers/fv/fluxes.cpp'], [('interface loops', 'solvers/fv/fv.cpp')], VN, ['interfs1', 'interfs2', 'fv_launcher'])

prop('C10', 'Cell-interior update integrates source and transport in its own cell',
     'On any grid every cell in the update mask gains exactly the space-time quadrature of the source minus the non-conservative transport '
     'of its own reconstruction (both derivative directions in two dimensions), sources only when they are asked for; every other cell is '
     'unchanged.',
     ['inputs', 'configurations'], 'all grid sizes, masks and reconstructions, with and without time nodes and sources',
     T + 'they compare one small square grid without any masked-out cell',
     ['solvers/fv/fv.cpp'], [('centre loops', 'solvers/fv/fv.cpp')], VN, ['centers1', 'centers2', 'fv_launcher'])

prop('C11', 'Numerical fluxes are consistent and upwinded by the right matrix',
     'For every pair of states and direction each numerical flux is the sum of both physical fluxes minus its dissipation applied to the '
     'jump (largest speed of either side; absolute value of the path-averaged matrix; path average of the absolute matrix), and for equal '
     'states is the physical flux. The jump term is the path integral of the non-conservative product and vanishes for equal states.',
     ['inputs'], 'all state pairs and directions', T + 'neither consistency nor the choice of the larger speed is asserted',
     ['solvers/fv/fluxes.cpp'], [('Rusanov, Roe and Osher dissipation', 'solvers/fv/fluxes.cpp')], VN, ['D_RUS', 'D_ROE', 'D_OSH', 'Bint'])

prop('C12', 'Ghost cells mirror the boundary condition of their side',
     'Extending any grid keeps the interior unchanged and gives each ghost cell, on each side and layer, the state its boundary type '
     'prescribes: edge copy, periodic image, or mirror image with reversed normal velocity (slip), reversed velocity (stick), lid velocity '
     '(moving) or reflected distortion (symmetric), with the distortion treatment selected for walls.',
     ['inputs', 'configurations'], 'all grid sizes with at least as many cells as ghost layers, states, and boundary types per side',
     T + 'only transmissive and periodic sides are compared; the wall types and mixed sides are not',
     ['etc/grid.cpp'], [('boundary filling', 'etc/grid.cpp')], VN, ['boundaries'])

prop('C13', 'Predictor mask covers exactly the updated cells and their neighbours',
     'For any grid and update mask, the extended mask is set exactly in the cells to be updated, their face neighbours and the ghost cells '
     'beside them, never in corner ghosts, whatever it held before; the input mask is not modified.',
     ['inputs'], 'all grid sizes and masks in one and two dimensions',
     'the existing test uses one random mask; a missing neighbour leaves a stale predictor that only some interfaces read',
     ['etc/grid.cpp'], [('mask extension', 'etc/grid.cpp')], VN, ['extend_mask'])

prop('C14', 'Reconstruction conserves averages and is non-oscillatory',
     'Reconstructing any grid yields in every cell a polynomial whose average is the cell average, that reproduces constant and linear data '
     'exactly, and that is the weighted mean of the one-sided and central stencil polynomials with weights from the smoothness indicator. '
     'In two dimensions the directions are applied in turn, and each cell depends only on its own stencil.',
     ['inputs', 'configurations'], 'all grid sizes and data, in one and two dimensions and for each supported order',
     T + 'conservation of the average and exactness are never asserted, and shape mix-ups vanish on square grids',
     ['solvers/weno/weno.cpp', 'solvers/weno/weno_matrices.cpp'],
     [('stencil matrices and weights', 'solvers/weno/weno_matrices.cpp'), ('sweep over cells', 'solvers/weno/weno.cpp')], VN,
     ['weno_launcher', 'coefficient_matrices', 'oscillation_indicator'])

prop('C15', 'Predictor solves the space-time weak form in each cell',
     'In every masked cell the predictor is a fixed point of the space-time weak form of the equations started from the reconstruction '
     '(mass and stiffness matrices from exact integrals of the basis), iterated to the stated tolerance and falling back on the equation '
     'solver when that fails; the initial guess has the reconstructed value and slope. Cells outside the mask are left alone.',
     ['inputs', 'configurations'], 'all grid sizes, masks, reconstructions and solver settings, in one and two dimensions',
     'existing tests compare one small fully-masked grid loosely; stale cells, the fall-back path and the stiff guess are not reached',
     ['solvers/dg/dg1.cpp', 'solvers/dg/dg2.cpp', 'solvers/dg/dg_matrices.cpp', 'solvers/dg/initial_guess.cpp', 'solvers/dg/dg.cpp'],
     [('residual and iteration', 'solvers/dg/dg1.cpp'), ('matrices of the weak form', 'solvers/dg/dg_matrices.cpp'),
      ('initial guesses', 'solvers/dg/initial_guess.cpp')], VN, ['iterator', 'ader_stepper'])

prop('C16', 'Quadrature and basis constants are exact and ready before use',
     'Nodes and weights integrate every polynomial of degree 2N-1 exactly on the unit interval, the basis polynomials interpolate at the '
     'nodes, and tabulated end values and derivatives are theirs. Every constant is initialised before any other constant that uses it, '
     'in whatever order the program parts are linked.',
     ['inputs', 'configurations'], 'all polynomials of the relevant degree, every order N and every link order',
     'tests compare N=2 tables with themselves in floating point and see only one link order',
     ['etc/globals.h', 'scipy/legendre.cpp', 'scipy/poly.cpp', 'solvers/poly/basis.cpp', 'solvers/poly/evaluations.cpp'],
     [('quadrature from the recurrence matrix', 'scipy/legendre.cpp'), ('basis tables', 'solvers/poly/basis.cpp')],
     VN + ' plus an initialisation-order dependency analysis', ['basis_polys', 'scaled_nodes', 'scaled_weights', 'end_values', 'derivative_values'])

prop('C17', 'Time step obeys the Courant limit of every active cell',
     'The step is the Courant number over the largest sum of directional wave speed by cell size among the active cells of all non-vacuum '
     'materials, a fifth of that in the first steps, and is shortened to end exactly at the final time.',
     ['inputs'], 'all grids, masks, materials (including vacuum), steps and times',
     T + 'one material without masked cells is sampled', ['solvers/iterator.cpp'], [('step length', 'solvers/iterator.cpp')], VN, ['timestep'])

prop('C18', 'Each time step advances every material by the same pipeline',
     'In every step the material grids are filled from the merged state, the step length is taken from them, each non-vacuum material is '
     'advanced with its own extended boundary, mask and parameters, the result is merged, limited, renormalised and, when due, rotated and '
     'reset. The run ends at the final time with the last state returned last.',
     ['inputs', 'histories', 'configurations'], 'all initial states, material sets, boundary choices, options and step sequences',
     'a full run only ever checks against itself; a stage fed the previous step or material still produces plausible output',
     ['solvers/iterator.cpp'], [('time loop', 'solvers/iterator.cpp')], VN + ' over the time loop with opaque stages', ['iterator'])

prop('C19', 'Results do not depend on the number of threads',
     'Every parallel region gives the result of the serial program for any team size: strips of a step are disjoint, cover the domain and see '
     'all the ghost rows and masks they need, and the iterations of parallel loops touch disjoint data. No variable outliving a parallel '
     'region is changed by it unless private or reduced.',
     ['schedules', 'inputs'], 'all team sizes and interleavings, grid extents including fewer rows than threads, in one and two dimensions',
     'the tests run with one thread, and a race only shows under rare interleavings',
     ['solvers/steppers.cpp', 'multi/fill.cpp', 'multi/pfmm.cpp', 'solvers/weno/weno.cpp', 'solvers/fv/fv.cpp'],
     [('strip partition of a step', 'solvers/steppers.cpp'), ('parallel ghost fill', 'multi/fill.cpp')],
     VN + ' per thread of a literal team, plus a race lint over parallel regions', ['ader_stepper_para', 'split_stepper_para', 'fill_ghost_cells'])

prop('C20', 'Snapshots record the states of their time marks',
     'Every returned snapshot is the state of the first step reaching its hundredth of the run, the last entry is the final state and no entry '
     'lies outside the returned list. A state containing NaN ends the run at once with its predecessor and itself appended.',
     ['inputs', 'histories'], 'all sequences of step lengths and any step producing NaN',
     'no test runs long enough to fill the list or fails part way', ['solvers/iterator.cpp'], [('snapshot list', 'solvers/iterator.cpp')],
     VN + ' over the time loop with literal step lengths', ['iterator'])

prop('C26', 'A step composes its stages once each, in order, on the right data',
     'The split step relaxes for half the step, transports, and relaxes again, on interior and ghost cells alike; the unsplit step reconstructs, '
     'predicts and updates. Each cell is relaxed on its own: body force, distortion, heat and reaction are each applied once over the given '
     'time, and the two integrators of ordinary differential equations are the classical fourth-order and the collocation scheme.',
     ['inputs', 'configurations'], 'all grids, masks, options, reaction models and time steps',
     'tests feed each stage separately and the composition only to itself; a dropped half step keeps every run plausible',
     ['solvers/steppers.cpp', 'solvers/split/homogeneous.cpp', 'solvers/split/ode.cpp', 'solvers/split/numeric.cpp', 'solvers/split/rk.cpp',
      'system/relaxation/analytic.cpp', 'system/relaxation/numerical.cpp'],
     [('split and unsplit steps', 'solvers/steppers.cpp'), ('half step', 'solvers/split/homogeneous.cpp'),
      ('integrators', 'solvers/split/rk.cpp')], VN + ' over steps with opaque stages',
     ['split_stepper', 'ader_stepper', 'midstepper', 'ode_launcher', 'runge_kutta_launcher', 'stiff_ode_solve'])

prop('C28', 'Analytic relaxation solves the relaxation of its source terms',
     'The analytic relaxation keeps density, momentum, energy and principal axes, leaves the state alone over no time, for elastic solids and '
     'when relaxed, and starts at the rate of the source terms for every class of material. The stretches follow the linearised solution at '
     'all times, and the thermal impulse satisfies its relaxation equation exactly.',
     ['inputs', 'configurations'], 'all distortions, densities, material classes and time steps, however long',
     'one random state of one material is compared loosely; a wrong root branch or scale only shows for long steps or other densities',
     ['system/relaxation/analytic.cpp', 'system/variables/sources.cpp', 'system/waves/shear.cpp'],
     [('relaxation of the stretches', 'system/relaxation/analytic.cpp'), ('rates', 'system/variables/sources.cpp')],
     VN + ', compared in the reals', ['analyticSolver_distortion', 'analyticSolver_thermal', 'ode_launcher'])

prop('C21', 'The merged state of a cell is that of the material occupying it',
     'Merged level sets are the mean over the materials whose mask covers the cell (kept where none does); the material of a cell is the number '
     'of its non-negative level sets; the cell takes that material\'s state, or nothing where it is vacuum. Limiting makes the concentration '
     'its projection onto the interval from none to all of the density.',
     ['inputs', 'configurations'], 'all states, masks, level sets and material lists, with zero to three level sets',
     'only runs of two materials are sampled, without vacuum or disagreeing masks', ['solvers/iterator.cpp', 'multi/functions.cpp', 'solvers/utils.cpp'],
     [('merge of the material grids', 'solvers/iterator.cpp'), ('material of a cell', 'multi/functions.cpp')], VN, ['iterator', 'make_u'])

prop('C22', 'Ghost cells carry the interface state, copied outward along the normal',
     'For every non-vacuum material, the cells with a neighbour across its interface get the star state between the nearest state of the material '
     'and the state across the interface along the normal, probed inside the grid. The band of cells beyond is copied outward from the '
     'interface, and everything else of the material\'s own grid is untouched.',
     ['inputs'], 'all states, interface positions and normals, materials (including vacuum), in one and two dimensions',
     'a handful of interfaces well inside the grid is sampled', ['multi/fill.cpp', 'multi/functions.cpp'],
     [('interface cells', 'multi/fill.cpp'), ('ghost fill', 'multi/fill.cpp')], VN + ' over literal interface geometry and symbolic states',
     ['find_interface_cells', 'fill_boundary_cells', 'fill_neighbor_cells', 'fill_ghost_cells'])

prop('C23', 'Star states lie on the wave curves and meet the interface conditions',
     'Each star state leaves its own side along that side\'s wave curve and the two sides meet with equal normal traction and velocity (no '
     'tangential traction when slipping, all components equal when sticking, no traction at a vacuum). Iteration is in the frame of the '
     'normal, stops on convergence, and returns the original state when it fails.',
     ['inputs', 'configurations'], 'all pairs of states, materials, normals and interface options',
     'a pair of random states is compared with a copy of the same algorithm', ['system/multi/riemann.cpp', 'system/multi/eigenvecs.cpp', 'system/multi/conditions.cpp',
      'system/multi/rotations.cpp'],
     [('star states', 'system/multi/riemann.cpp'), ('interface conditions', 'system/multi/conditions.cpp')], VN,
     ['star_stepper', 'left_star_state', 'riemann_constraints'])

prop('C27', 'Upkeep of the distortion keeps what it must and resets what it may',
     'Renormalising scales the distortion of every non-vacuum cell to the determinant its density demands; rotating keeps its Gram matrix and makes '
     'its rows orthogonal; resetting leaves an isotropic distortion of the same determinant and takes the shear energy out of the total. '
     'A grid counts as contorted exactly when some cell is beyond the tolerance.',
     ['inputs', 'configurations'], 'all states and materials (including vacuum), with and without heat conduction',
     'tests compare single random cells of one material with a copy of the formula', ['solvers/utils.cpp', 'solvers/iterator.cpp'],
     [('renormalisation, rotation, reset', 'solvers/utils.cpp')], VN, ['renorm_distortion', 'rotate_distortion', 'contorted'])

prop('C24', 'Level-set gradients, indicators and distances are what they claim',
     'Gradients are central differences, copied from the neighbour at the edges; a material\'s indicator is the largest of the signed level sets; '
     're-initialising replaces each level set by the distance to its interface. The distance starts from the nearest crossing along the axes, is '
     'carried on from the nearest settled neighbours by the root of the discrete eikonal equation in order of distance, and keeps its sign.',
     ['inputs', 'configurations'], 'all level sets, spacings and grid shapes, in one and two dimensions, also without any interface',
     'one circle on one grid is compared loosely; wrong settling orders only show for particular interfaces',
     ['multi/functions.cpp', 'multi/pfmm.cpp', 'code/cpp/include/skfmm/base_marcher.cpp', 'code/cpp/include/skfmm/distance_marcher.cpp',
      'code/cpp/include/skfmm/heap.cpp'],
     [('gradients and indicators', 'multi/functions.cpp'), ('fast marching', 'code/cpp/include/skfmm/base_marcher.cpp')],
     VN + '; the priority queue over all order types of its keys', ['finite_difference', 'distance', 'renormalize_levelsets', 'material_indicator'])

prop('C31', 'The Python model is the model the solver solves',
     'Every relation of the Python model (equations of state, elastic energy, stresses and their derivatives, relaxation and reaction rates, sound '
     'and heat wave speeds) equals the solver\'s. A state vector built in Python has exactly those primitive values in the solver, hyperelastic '
     'initial data included, and what is observed of a state in Python is what the solver means by it.',
     ['inputs', 'configurations'], 'all states, materials, equations of state and reaction kinetics, with and without heat conduction and mixtures',
     'test problems only build their initial states and never look at them; a term that differs silently starts or plots another problem',
     ['code/python/gpr/vars/mg.py', 'code/python/gpr/vars/shear.py', 'code/python/gpr/vars/eos.py', 'code/python/gpr/vars/state.py',
      'code/python/gpr/vars/derivatives.py', 'code/python/gpr/vars/sources.py', 'code/python/gpr/vars/hyp.py', 'code/python/gpr/vars/wavespeeds.py',
      'code/python/gpr/misc/structures.py', 'system/energy/mg.cpp', 'system/variables/sources.cpp', 'system/variables/state.cpp'],
     [('initial state vectors', 'code/python/gpr/misc/structures.py'), ('relations of the model', 'code/python/gpr/vars/mg.py')],
     VN + ' and of the Python syntax tree', ['Cvec', 'State', 'Cvec_hyp', 'gpr.vars'])

prop('C30', 'Material parameters and exported names mean what they say',
     'For every kind of material (equation of state, rheology, heat conduction, reaction, mixtures), material_params stores exactly the parameters its '
     'arguments mean, and every parameter the solver reads is set by the materials that need it. Exported functions, attributes and options refer to '
     'the C++ entity of their name, and codes and argument orders agree on both sides.',
     ['inputs', 'configurations'], 'all parameter values, for every combination of equation of state, rheology, conduction and kinetics',
     'test problems build a few fixed materials and never read the parameters back; two swapped parameters just simulate another material',
     ['code/python/gpr/misc/objects.py', 'code/python/gpr/vars/mg.py', 'code/python/main.py', 'code/cpp/bindings/bindings.cpp', 'system/objects.h'],
     [('material parameters', 'code/python/gpr/misc/objects.py'), ('exported names', 'code/cpp/bindings/bindings.cpp')],
     'value numbering of the Python syntax tree; queries over the clang AST of the bindings', ['material_params', 'GPRpy', 'main.py'])

prop('C34', 'No routine touches memory outside its arrays',
     'Every routine that walks a grid (ghost cells, reconstruction, finite volumes, predictor, sources, time step, level sets, ghost fill, merge, '
     'snapshots) reads and writes only inside the arrays its callers size for it, and assigns only between arrays of equal shape, whatever the '
     'grid shape, mask, state, boundary types and options.',
     ['inputs', 'configurations'], 'all masks, states, levels and options at once, for every small grid shape in one and two dimensions, N = 2 and 3',
     'an access one cell too far usually lands in neighbouring heap memory and shows only for particular shapes, masks or allocators',
     ['solvers', 'multi', 'etc/grid.cpp', 'code/cpp/include/skfmm'],
     [('grid loops', 'solvers/fv/fv.cpp'), ('reconstruction', 'solvers/weno/weno.cpp'), ('ghost cells', 'etc/grid.cpp'), ('ghost fill', 'multi/fill.cpp')],
     'effect analysis: extents of every subscript, segment and block on literal grids, under symbolic guards',
     ['split_stepper', 'ader_stepper', 'fill_ghost_cells', 'boundaries', 'weno_launcher', 'timestep', 'make_u'])

prop('C37', 'Transport carries conserved quantities and produces no entropy',
     'In every direction the flux adds to its output exactly transport with the flow plus pressure, stress work and heat flow. Together with the '
     'non-conservative product it satisfies the thermodynamic identity: along the path of the material, without sources, only the heat flow '
     'changes the entropy, and mass fractions and level sets stay constant.',
     ['inputs', 'configurations'], 'all states, gradients, directions, equations of state and the inviscid, viscous, conducting and mixture configurations',
     'shock-tube tests compare profiles by eye; a term missing in one direction or configuration changes them by little',
     ['system/equations.cpp', 'system/variables/state.cpp'],
     [('flux', 'system/equations.cpp'), ('stress and pressure', 'system/variables/state.cpp')], VN, ['flux', 'Bdot', 'sigma', 'pressure'])

prop('C35', 'Results depend on the arguments alone and inputs stay as they were',
     'No function keeps state between calls: no global or static variable is written after initialisation, and globals are initialised in an order that '
     'never reads one not yet initialised. Evaluations leave every argument they are given unchanged except their declared outputs, also through views '
     'and the functions they call. No result depends on the clock, random numbers or the environment.',
     ['inputs', 'histories', 'schedules'], 'every function of the program, every chain of calls, every order of calls and of initialisation',
     'a test calls a function a few times in one order and looks at the result, rarely at the arguments; initialisation order is chosen by the linker',
     ['bindings/bindings.cpp', 'etc/globals.cpp', 'etc/globals.h', 'system', 'solvers', 'multi', 'scipy'],
     [('tables', 'etc/globals.cpp'), ('exported functions', 'bindings/bindings.cpp')],
     'interprocedural effect analysis: globals, statics and arguments a function may modify, transitively; initialisation dependencies',
     ['pressure', 'flux', 'eigen', 'D_OSH', 'left_star_state', 'timestep', 'iterator'])

prop('C25', 'The Newton-Krylov solver takes consistent, decreasing, minimal steps',
     'Jacobian products are difference quotients of the residual at the current iterate. Every LGMRES cycle, with or without recycled vectors or a '
     'preconditioner, minimises the residual over its search space. Line-search steps satisfy the decrease condition or are full, iterate and residual '
     'always belong together, and iteration ends on the tolerances for the latest residual and step.',
     ['inputs'], 'all residual functions, iterates, matrices, guesses and tolerances on which the Krylov space does not break down',
     'tests solve one small well-conditioned problem to a loose tolerance, which converges with a wrong step or a non-minimal correction as well',
     ['scipy/newton_krylov.cpp', 'scipy/newton_krylov.h', 'scipy/lgmres.cpp', 'scipy/lgmres.h'],
     [('Newton iteration', 'scipy/newton_krylov.cpp'), ('LGMRES', 'scipy/lgmres.cpp')],
     VN, ['nonlin_solve', 'lgmres_wrapper'])

prop('C38', 'Smooth solutions converge at the order of the scheme',
     'For smooth initial data the error of a run at a fixed time falls with the N-th power of the cell size, for the split and the one-step scheme.',
     ['inputs'], 'all smooth initial data and every sufficiently fine grid',
     'a convergence study samples a few grids and one solution',
     ['solvers'], [('schemes', 'solvers/steppers.cpp')], VN, ['iterator'],
     na='a limit over grids of the whole nonlinear evolution; the local facts behind it (exact reconstruction of linear data, exact quadrature, weak form, '
     'composition of stages) are decided by C09, C10, C14, C15, C16 and C26, their sum is a theorem about the scheme, not a fact of the source')
prop('C39', 'Density, pressure and temperature stay positive',
     'A run that starts from admissible states only ever stores admissible states: positive density, real sound speed, invertible distortion.',
     ['inputs', 'histories'], 'all admissible initial data, materials and Courant numbers below one',
     'a test runs a handful of problems for which positivity happens to hold',
     ['solvers', 'system'], [('schemes', 'solvers/steppers.cpp')], VN, ['iterator'],
     na='the schemes have no positivity limiter, so the property does not follow from the source; it depends on the values met in a run, which no sound static '
     'bound in reach can limit')
prop('C40', 'Rounding errors stay small and results are reproducible to the last bit',
     'The result of every evaluation is the exact result up to a few units in the last place, on every machine and compiler.',
     ['inputs', 'configurations'], 'all floating-point inputs and compilers',
     'tests compare to a tolerance on one machine',
     ['system', 'solvers', 'scipy'], [('all formulas', 'system')], VN, ['pressure', 'iterator'],
     na='every check here interprets the source over exact fields and reals; cancellation in the equations of state is unbounded near the reference state, and '
     'contraction and vectorisation are chosen by the compiler')
prop('C41', 'The iterative solvers converge on every problem the schemes give them',
     'Newton-Krylov, Runge-Kutta collocation and the predictor end within their iteration limits with a residual below the tolerance.',
     ['inputs'], 'all states, materials and step lengths below the Courant limit',
     'tests solve a few easy problems',
     ['scipy', 'solvers'], [('Newton iteration', 'scipy/newton_krylov.cpp')], VN, ['nonlin_solve'],
     na='convergence depends on the conditioning of the residual at run time; C25, C15 and C26 decide the steps, the stopping rules and what is done when the '
     'limit is reached instead')
